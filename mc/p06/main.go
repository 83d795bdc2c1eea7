package main

import (
	"bytes"
	"fmt"
	"io"
	"math"
	"os"
	"path/filepath"

	"github.com/klauspost/cpuid"
	"github.com/mlnoga/nightlight/internal/fits"
	"github.com/mlnoga/nightlight/internal/ops"
	"github.com/mlnoga/nightlight/internal/ops/hsl"
	"github.com/mlnoga/nightlight/internal/ops/post"
	"github.com/mlnoga/nightlight/internal/ops/pre"
	"github.com/mlnoga/nightlight/internal/ops/rgb"
	"github.com/mlnoga/nightlight/internal/ops/stack"
	"github.com/mlnoga/nightlight/internal/ops/stretch"
	"github.com/mlnoga/nightlight/internal/star"
	"github.com/mlnoga/nightlight/internal/stats"
	"github.com/mlnoga/nightlight/internal/zzverif/fx"
	"github.com/mlnoga/nightlight/internal/zzverif/vx"
)

// ---- definitions

type def struct{ min, max, mean, sd, noise, amax float64 }

func define(d []float32, w int) def {
	r := def{min: math.Inf(1), max: math.Inf(-1)}
	for _, v := range d {
		x := float64(v)
		r.min, r.max = math.Min(r.min, x), math.Max(r.max, x)
		r.mean += x
		r.amax = math.Max(r.amax, math.Abs(x))
	}
	r.mean /= float64(len(d))
	for _, v := range d {
		r.sd += (float64(v) - r.mean) * (float64(v) - r.mean)
	}
	r.sd = math.Sqrt(r.sd / float64(len(d)))
	if w > 2 {
		h := len(d) / w
		ws := [9]float64{1, -2, 1, -2, 4, -2, 1, -2, 1}
		for y := 1; y < h-1; y++ {
			for x := 1; x < w-1; x++ {
				c := 0.0
				for k := 0; k < 9; k++ {
					c += ws[k] * float64(d[(y+k/3-1)*w+x+k%3-1])
				}
				r.noise += math.Abs(c)
			}
		}
		r.noise *= math.Sqrt(0.5*math.Pi) / (6 * float64(w-2) * float64(h-2))
	}
	return r
}

func near(got float32, want, tol float64) bool { return math.Abs(float64(got)-want) <= tol }

// query bits
const (
	qMin = 1 << iota
	qMax
	qMean
	qStd
	qLoc
	qScale
	qNoise
)

func ask(s *stats.Stats, q int) {
	for b := 1; b <= qNoise; b <<= 1 {
		if q&b != 0 {
			one(s, b)
		}
	}
}

func one(s *stats.Stats, b int) float32 {
	switch b {
	case qMin:
		return s.Min()
	case qMax:
		return s.Max()
	case qMean:
		return s.Mean()
	case qStd:
		return s.StdDev()
	case qLoc:
		return s.Location()
	case qScale:
		return s.Scale()
	}
	return s.Noise()
}

var qn = map[int]string{qMin: "min", qMax: "max", qMean: "mean", qStd: "stddev", qLoc: "location", qScale: "scale", qNoise: "noise"}

// verify compares what the statistics report, asked in the given order, with the definitions over d
func verify(s *stats.Stats, d []float32, w int, order []int, rel float64) error {
	r := define(d, w)
	for _, b := range order {
		g := one(s, b)
		var want, tol float64
		switch b {
		case qMin:
			want, tol = r.min, 0
		case qMax:
			want, tol = r.max, 0
		case qMean, qLoc:
			want, tol = r.mean, 3e-7*r.amax
		case qStd, qScale:
			want, tol = r.sd, 1e-6*r.amax
		case qNoise:
			if w < 3 || len(d)/w < 3 {
				continue
			}
			want, tol = r.noise, 4e-6*r.amax
		}
		tol = math.Max(tol, rel*r.amax)
		if !near(g, want, tol+1e-38) {
			return vx.Fail(qn[b], "%s is %g want %g over %d pixels of width %d: %v", qn[b], g, want, len(d), w, clip(d))
		}
	}
	return nil
}

func clip(d []float32) []float32 {
	if len(d) > 48 {
		return d[:48]
	}
	return d
}

func path(avx bool) {
	if !avx {
		cpuid.CPU.Features &^= cpuid.AVX2
	}
}

func poisoned(n, off int, mag float32) []float32 {
	b := make([]float32, n+off+16)
	for i := range b {
		b[i] = mag * float32(1-2*(i&1))
	}
	return b[off : off+n]
}

// ---- processing steps

type step struct {
	name string
	rgb  int // 0 mono, 1 rgb, 2 both
	fn   func(f *fits.Image, c *ops.Context, dir string) (*fits.Image, error)
}

func un(op ops.OperatorUnary) func(f *fits.Image, c *ops.Context, dir string) (*fits.Image, error) {
	return func(f *fits.Image, c *ops.Context, dir string) (*fits.Image, error) {
		ps, err := op.MakePromises([]ops.Promise{func() (*fits.Image, error) { return f, nil }}, c)
		if err != nil {
			return nil, err
		}
		return ps[0]()
	}
}

func direct(fn func(f *fits.Image)) func(f *fits.Image, c *ops.Context, dir string) (*fits.Image, error) {
	return func(f *fits.Image, c *ops.Context, dir string) (*fits.Image, error) { fn(f); return f, nil }
}

type okImg struct{ *fits.Image }

func steps() []step {
	dark := func(f *fits.Image) *fits.Image {
		d := fits.NewImageFromNaxisn(f.Naxisn, nil)
		for i := range d.Data {
			d.Data[i] = float32(i%5) * 0.01
		}
		return d
	}
	return []step{
		{"scaleOffset(2,0.1)", 2, un2(func() ops.OperatorUnary { return pre.NewOpScaleOffset(2, 0.1) })},
		{"scaleOffset(-1,1)", 2, un2(func() ops.OperatorUnary { return pre.NewOpScaleOffset(-1, 1) })},
		{"scaleOffset(0.25,0)", 2, un2(func() ops.OperatorUnary { return pre.NewOpScaleOffset(0.25, 0) })},
		{"normalizeRange", 2, un2(func() ops.OperatorUnary { return stretch.NewOpNormalizeRange() })},
		{"gamma", 2, un2(func() ops.OperatorUnary { return stretch.NewOpGamma(2) })},
		{"gammaPP", 0, un2(func() ops.OperatorUnary { return stretch.NewOpGammaPP(2, 0.1) })},
		{"midtones", 0, un2(func() ops.OperatorUnary { return stretch.NewOpMidtones(1, 0.5) })},
		{"scaleBlack", 0, un2(func() ops.OperatorUnary { return stretch.NewOpScaleBlack(0.05) })},
		{"stretch", 0, un2(func() ops.OperatorUnary { return stretch.NewOpStretchIterative(0.1, 0.2) })},
		{"gaussianBlur", 0, un2(func() ops.OperatorUnary { return stretch.NewOpGaussianBlur(0.8) })},
		{"unsharpMask", 0, un2(func() ops.OperatorUnary { return stretch.NewOpUnsharpMask(0.8, 0.7, 0) })},
		{"debandHoriz", 0, un2(func() ops.OperatorUnary { return pre.NewOpDebandHoriz(50, 4, 0) })},
		{"debandVert", 0, un2(func() ops.OperatorUnary { return pre.NewOpDebandVert(50, 4, 0) })},
		{"badPixel", 0, un2(func() ops.OperatorUnary { return pre.NewOpBadPixel(1, 1, nil) })},
		{"badPixelBayer", 0, un2(func() ops.OperatorUnary { return pre.NewOpBadPixel(1, 1, pre.NewOpDebayer("G", "RGGB")) })},
		{"debayer", 0, un2(func() ops.OperatorUnary { return pre.NewOpDebayer("R", "RGGB") })},
		{"bin2", 0, un2(func() ops.OperatorUnary { return pre.NewOpBin(2) })},
		{"backExtract", 0, un2(func() ops.OperatorUnary { return pre.NewOpBackExtract(4, 1, 3, 0, "") })},
		{"backExtractSave", 0, func(f *fits.Image, c *ops.Context, dir string) (*fits.Image, error) {
			return un(pre.NewOpBackExtract(4, 1, 3, 0, filepath.Join(dir, "bg%d.fits")))(f, c, dir)
		}},
		{"starDetect", 0, un2(func() ops.OperatorUnary { return pre.NewOpStarDetect(2, 3, 0, 0.1, "") })},
		{"calibrate", 0, func(f *fits.Image, c *ops.Context, dir string) (*fits.Image, error) {
			c.DarkFrame, c.FlatFrame = dark(f), dark(f)
			for i := range c.FlatFrame.Data {
				c.FlatFrame.Data[i] += 0.5
			}
			return un(pre.NewOpCalibrate("d.fits", "f.fits"))(f, c, dir)
		}},
		{"calibrateDark", 0, func(f *fits.Image, c *ops.Context, dir string) (*fits.Image, error) {
			c.DarkFrame, c.FlatFrame = dark(f), nil
			return un(pre.NewOpCalibrate("d.fits", ""))(f, c, dir)
		}},
		{"matchLocation", 0, match(post.HNMLocation)},
		{"matchLocScale", 0, match(post.HNMLocScale)},
		{"matchLocBlack", 0, match(post.HNMLocBlack)},
		{"matchNone", 0, match(post.HNMNone)},
		{"project", 0, func(f *fits.Image, c *ops.Context, dir string) (*fits.Image, error) {
			return f.Project(f.Naxisn, star.Transform2D{A: 1, B: 0.25, C: 0.5, D: 0, E: 1, F: 0.25}, 0.3)
		}},
		{"save", 2, func(f *fits.Image, c *ops.Context, dir string) (*fits.Image, error) {
			return un(ops.NewOpSave(filepath.Join(dir, "s.fits"), ops.EMMinMax, 1))(f, c, dir)
		}},
		{"saveTIFF", 2, func(f *fits.Image, c *ops.Context, dir string) (*fits.Image, error) {
			return un(ops.NewOpSave(filepath.Join(dir, "s.tiff"), ops.EMMinMax, 1))(f, c, dir)
		}},
		{"stack", 0, func(f *fits.Image, c *ops.Context, dir string) (*fits.Image, error) {
			return stack.NewOpStack(stack.StMean, stack.StWeightNone, 2, 2).Apply([]*fits.Image{f, dark(f)}, c)
		}},
		{"stackIncremental", 0, func(f *fits.Image, c *ops.Context, dir string) (*fits.Image, error) {
			s := stack.StackIncremental(nil, f, 2)
			s.Stats.Min()
			s = stack.StackIncremental(s, dark(f), 1)
			stack.StackIncrementalFinalize(s, 3)
			return s, nil
		}},
		{"partialGamma", 2, direct(func(f *fits.Image) { f.ApplyPartialGamma(0.2, 0.8, 2) })},
		{"shiftBlackToMove", 2, direct(func(f *fits.Image) { f.ShiftBlackToMove(0.4, 0.2) })},
		{"setBlackWhite", 2, direct(func(f *fits.Image) {
			if f.Stats.Max()-f.Stats.Min() > 1e-6 {
				f.SetBlackWhite(10, 10, nil)
			}
		})},
		{"monoToHSLuvLum", 0, direct(func(f *fits.Image) { f.MonoToHSLuvLum() })},
		{"monoToHSLLum", 0, direct(func(f *fits.Image) { f.MonoToHSLLum() })},

		{"gammaChannel", 1, direct(func(f *fits.Image) { f.ApplyGammaToChannel(1, 2) })},
		{"partialGammaChannel", 1, direct(func(f *fits.Image) { f.ApplyPartialGammaToChannel(0, 0.1, 0.9, 2) })},
		{"midtonesChannel", 1, direct(func(f *fits.Image) { f.ApplyMidtonesToChannel(1, 0.3, 0.1) })},
		{"scaleOffsetChannel", 1, direct(func(f *fits.Image) { f.ApplyScaleOffsetToChannel(2, 0.5, 0.1) })},
		{"shiftBlackChannel", 1, direct(func(f *fits.Image) { f.ShiftBlackToMoveChannel(2, 0.4, 0.1) })},
		{"offsetRGB", 1, direct(func(f *fits.Image) { f.OffsetRGB(0.1, -0.05, 0.2) })},
		{"scaleRGB", 1, direct(func(f *fits.Image) { f.ScaleRGB(0.5, 1, 2) })},
		{"scaleOffsetClampRGB", 1, direct(func(f *fits.Image) { f.ScaleOffsetClampRGB(2, -0.1, 1, 0.1, 0.5, 0) })},
		{"rgbToHCL", 1, direct(func(f *fits.Image) { f.RGBToHCL() })},
		{"toXyy", 1, direct(func(f *fits.Image) { f.ToXyy() })},
		{"xyyToRGB", 1, direct(func(f *fits.Image) { f.XyyToRGB() })},
		{"rgbToHSLuv", 1, un2(func() ops.OperatorUnary { return rgb.NewOpRGBToHSLuv() })},
		{"hsluvToRGB", 1, un2(func() ops.OperatorUnary { return rgb.NewOpHSLuvToRGB() })},
		{"rgbBalance", 1, func(f *fits.Image, c *ops.Context, dir string) (*fits.Image, error) {
			f.Stars = []star.Star{{Index: 6, X: 1, Y: 1, Value: 1, Mass: 1, HFR: 1}}
			return un(rgb.NewOpRGBBalance(2, 0, 0, 0, fits.RGB{R: 1, G: 1, B: 1}, fits.RGB{R: 1, G: 1, B: 1}))(f, c, dir)
		}},
		{"hslApplyLum", 1, func(f *fits.Image, c *ops.Context, dir string) (*fits.Image, error) {
			c.LumFrame = fits.NewImageFromNaxisn(f.Naxisn[:2], nil)
			for i := range c.LumFrame.Data {
				c.LumFrame.Data[i] = float32(i%7) / 8
			}
			return un(hsl.NewOpHSLApplyLum())(f, c, dir)
		}},
		{"hslScaleOffset", 1, un2(func() ops.OperatorUnary { return hsl.NewOpHSLScaleOffsetChannel(2, 0.5, 0.2) })},
		{"hslNeutralize", 1, un2(func() ops.OperatorUnary { return hsl.NewOpHSLNeutralizeBackground(0.1, 1) })},
		{"hslSatGamma", 1, un2(func() ops.OperatorUnary { return hsl.NewOpHSLSaturationGamma(2, 0) })},
		{"hslSelSat", 1, un2(func() ops.OperatorUnary { return hsl.NewOpHSLSelectiveSaturation(0, 360, 0.5) })},
		{"hslRotate", 1, un2(func() ops.OperatorUnary { return hsl.NewOpHSLRotateHue(0, 300, 10, -3) })},
		{"hslSCNR", 1, un2(func() ops.OperatorUnary { return hsl.NewOpHSLSCNR(1) })},
		{"hslMidtones", 1, un2(func() ops.OperatorUnary { return hsl.NewOpHSLMidtones(1, 0.5) })},
		{"hslGamma", 1, un2(func() ops.OperatorUnary { return hsl.NewOpHSLGamma(2) })},
		{"hslGammaPP", 1, un2(func() ops.OperatorUnary { return hsl.NewOpHSLGammaPP(2, 0.1) })},
		{"hslUnsharp", 1, un2(func() ops.OperatorUnary { return hsl.NewOpHSLUnsharpMask(0.7, 1, -1) })},
		{"hslScaleBlack", 1, un2(func() ops.OperatorUnary { return hsl.NewOpHSLScaleBlack(0.01) })},
		{"hslStretch", 1, un2(func() ops.OperatorUnary { return hsl.NewOpHSLStretchIterative(0.1, 0.3) })},
	}
}

func un2(mk func() ops.OperatorUnary) func(f *fits.Image, c *ops.Context, dir string) (*fits.Image, error) {
	return func(f *fits.Image, c *ops.Context, dir string) (*fits.Image, error) { return un(mk())(f, c, dir) }
}

func match(m post.HistoNormMode) func(f *fits.Image, c *ops.Context, dir string) (*fits.Image, error) {
	return func(f *fits.Image, c *ops.Context, dir string) (*fits.Image, error) {
		c.MatchHisto = stats.NewStats([]float32{0.1, 0.2, 0.3, 0.5}, 2)
		return un(post.NewOpMatchHistogram(m))(f, c, dir)
	}
}

func start(rgb bool, kind int) *fits.Image {
	ax := []int32{9, 7}
	if kind == 1 {
		ax = []int32{12, 6}
	}
	if rgb {
		ax = []int32{5, 5, 3}
		if kind == 1 {
			ax = []int32{8, 4, 3}
		}
	}
	n := 1
	for _, a := range ax {
		n *= int(a)
	}
	d := poisoned(n, 0, 1e30)
	for i := range d {
		d[i] = 0.25 + 0.3*float32((i*7919+kind*31)%64)/64
	}
	d[n/2] = 0.95
	d[n/3] = 0.01
	f := fits.NewImageFromNaxisn(ax, d)
	f.ID = 3
	return f
}

func finite(d []float32) bool {
	for _, v := range d {
		if v != v || math.IsInf(float64(v), 0) {
			return false
		}
	}
	return true
}

func main() {
	vx.Main("P06", "model_checking", func(c *vx.C) {
		stats.LSEstimator = stats.LSEMeanStdDev
		c.Notes = append(c.Notes, "location and scale are checked with the deterministic mean/stddev estimator; the default estimator draws random samples")
		hadAVX := cpuid.CPU.AVX2()
		orders := [][]int{{qMin, qMax, qMean, qStd, qNoise}, {qStd, qMax, qMin, qNoise, qMean}, {qNoise, qMean, qStd, qMax, qMin}, {qMax, qMean, qMin}, {qMean, qStd}}
		for _, avx := range []bool{true, false} {
			if avx && !hadAVX {
				c.Notes = append(c.Notes, "no AVX2 on this machine: vector path not covered")
				continue
			}
			path(avx)
			if !avx {
				if cpuid.CPU.AVX2() {
					c.Notes = append(c.Notes, "AVX2 could not be disabled: portable path not covered")
				}
			}
			suffix := "-vector"
			if !avx {
				suffix = "-portable"
			}
			alpha := []float32{-2, -1, 0, 0.5, 3}
			c.Bound("%s: all value vectors of length 1..6 over %v inside a poisoned buffer, asked in %d orders", suffix[1:], alpha, len(orders))
			c.Shards("vectors"+suffix, 6*8, func(s *vx.S) {
				n, off := 1+s.ID%6, s.ID/6
				fx.Vectors(n, len(alpha), func(v []int) {
					s.Check(func() string { return fmt.Sprintf("length %d offset %d values %v", n, off, v) }, func() error {
						d := poisoned(n, off, 1e30)
						for i := range d {
							d[i] = alpha[v[i]]
						}
						s.Outcome(vx.HashF(d))
						o := orders[(v[0]+off)%len(orders)]
						return verify(stats.NewStats(d, int32(n)), d, n, o, 0)
					})
				})
			})
			maxLen := 96
			if c.Thorough {
				maxLen = 400
			}
			c.Bound("%s: every length 1..%d with the minimum and the maximum at every position", suffix[1:], maxLen)
			c.Shards("extremes"+suffix, maxLen, func(s *vx.S) {
				n := s.ID + 1
				for off := 0; off < 5; off++ {
					for i := 0; i < n; i++ {
						for _, big := range []float32{5, -5, 65535, -1e6} {
							s.Check(func() string { return fmt.Sprintf("length %d offset %d extreme %g at %d", n, off, big, i) }, func() error {
								d := poisoned(n, off, 1e30)
								for k := range d {
									d[k] = float32((k*37+11)%19) / 19
								}
								d[i] = big
								s.Outcome(vx.Hash(n, i, big))
								return verify(stats.NewStats(d, int32(n)), d, n, orders[(i+off)%len(orders)], 0)
							})
						}
					}
				}
			})
			large := []int{1000, 4097, 65537, 1<<20 + 3}
			if c.Thorough {
				large = append(large, 1<<24+5, 20000001)
			}
			c.Bound("%s: %v values of four kinds", suffix[1:], large)
			c.Shards("large"+suffix, len(large)*4, func(s *vx.S) {
				n, kind := large[s.ID/4], s.ID%4
				s.Check(func() string { return fmt.Sprintf("%d values of kind %d", n, kind) }, func() error {
					d := make([]float32, n)
					for k := range d {
						switch kind {
						case 0:
							d[k] = 1000.25
						case 1:
							d[k] = float32(k%65536) + 0.5
						case 2:
							d[k] = 30000 + float32(k%7)/8
						case 3:
							d[k] = float32(k) / float32(n)
						}
					}
					d[n-1] = -3
					s.Outcome(vx.Hash(n, kind))
					return verify(stats.NewStats(d, int32(n)), d, n, orders[1], 0)
				})
			})
			maxW := 27
			if c.Thorough {
				maxW = 60
			}
			c.Bound("%s: noise for widths 3..%d, heights 3..8, an impulse at every position over flat and patterned frames", suffix[1:], maxW)
			c.Shards("noise"+suffix, maxW-2, func(s *vx.S) {
				w := s.ID + 3
				for h := 3; h <= 8; h++ {
					for p := -1; p < w*h; p++ {
						for pat := 0; pat < 3; pat++ {
							s.Check(func() string { return fmt.Sprintf("%dx%d impulse at %d pattern %d", w, h, p, pat) }, func() error {
								d := poisoned(w*h, 3, 1e30)
								for k := range d {
									switch pat {
									case 0:
										d[k] = 0
									case 1:
										d[k] = float32((k*7919)%251) / 251
									case 2:
										d[k] = float32(k%w)*0.5 - float32(k/w) + 100
									}
								}
								if p >= 0 {
									d[p] += 10
								}
								s.Outcome(vx.HashF(d))
								return verify(stats.NewStats(d, int32(w)), d, w, []int{qNoise, qMin, qMax}, 0)
							})
						}
					}
				}
			})
			nl := [][2]int{{1021, 333}, {70003, 4}, {4, 70003}, {4097, 17}, {4096, 256}}
			c.Bound("%s: noise of frames %v", suffix[1:], nl)
			c.Shards("noise-large"+suffix, len(nl), func(s *vx.S) {
				w, h := nl[s.ID][0], nl[s.ID][1]
				s.Check(func() string { return fmt.Sprintf("%dx%d", w, h) }, func() error {
					d := make([]float32, w*h)
					for k := range d {
						d[k] = float32((k*7919)%251)/251 + float32(k/w*5/h)*20*float32(k%2)
					}
					s.Outcome(vx.Hash(w, h))
					return verify(stats.NewStats(d, int32(w)), d, w, []int{qNoise, qMin, qMax}, 0)
				})
			})
			c.Bound("%s: no access beyond the values (inaccessible memory directly before or behind them): every length 1..%d, every size 1..%d x 1..7", suffix[1:], maxLen, maxW)
			c.Shards("guarded"+suffix, maxW, func(s *vx.S) {
				fill := func(d []float32) {
					for k := range d {
						d[k] = float32((k*7919)%251) / 251
					}
				}
				for n := s.ID + 1; n <= maxLen; n += maxW {
					s.Check(func() string { return fmt.Sprintf("length %d", n) }, func() error {
						return fx.Guarded(n, func(d []float32, atStart bool) error {
							fill(d)
							s.Outcome(vx.Hash(n, atStart))
							return verify(stats.NewStats(d, int32(n)), d, n, orders[n%3], 0)
						})
					})
				}
				w := s.ID + 1
				for h := 1; h <= 7; h++ {
					s.Check(func() string { return fmt.Sprintf("%dx%d", w, h) }, func() error {
						return fx.Guarded(w*h, func(d []float32, atStart bool) error {
							fill(d)
							s.Outcome(vx.Hash(w, h, atStart))
							if w < 3 || h < 3 { // no full neighbourhood: any value will do
								stats.NewStats(d, int32(w)).Noise()
								return nil
							}
							return verify(stats.NewStats(d, int32(w)), d, w, []int{qNoise, qMin, qMax}, 0)
						})
					})
				}
			})
		}
		if hadAVX {
			cpuid.CPU.Features |= cpuid.AVX2
		}
		c.Bound("channel statistics: 1..4 channels, every channel, sizes 1x1 to 9x5 with an extreme at every position")
		c.Shards("channels", 9*5, func(s *vx.S) {
			w, h := 1+s.ID%9, 1+s.ID/9
			for nc := 1; nc <= 4; nc++ {
				for ch := 0; ch < nc; ch++ {
					for p := 0; p < w*h*nc; p++ {
						s.Check(func() string { return fmt.Sprintf("%dx%dx%d channel %d extreme at %d", w, h, nc, ch, p) }, func() error {
							d := make([]float32, w*h*nc)
							for k := range d {
								d[k] = float32((k*7919)%101)/101 + float32(k/(w*h))
							}
							d[p] = 50
							if p&1 == 1 {
								d[p] = -50
							}
							s.Outcome(vx.HashF(d))
							return verify(stats.NewStatsForChannel(d, int32(w), ch, nc), d[ch*w*h:(ch+1)*w*h], w, orders[p%len(orders)], 0)
						})
					}
				}
			}
		})
		c.Bound("statistics delivered with a loaded file: 6 sample formats, lengths 1..40, an extreme at every position, 3 scalings")
		c.Shards("loaded", 6, func(s *vx.S) {
			bp := []int{8, 16, 32, 64, -32, -64}[s.ID]
			for n := 1; n <= 40; n++ {
				for p := 0; p < n; p++ {
					for k := 0; k < 6; k++ {
						s.Check(func() string { return fmt.Sprintf("bitpix %d, %d pixels, extreme at %d kind %d", bp, n, p, k) }, func() error {
							raw := make([]fx.Raw, n)
							for i := range raw {
								raw[i].I = int64(40 + (i*37)%60)
								raw[i].F = float64(raw[i].I) / 8
							}
							if k%2 == 0 {
								raw[p] = fx.Raw{I: 1, F: -33}
							} else {
								raw[p] = fx.Raw{I: 127, F: 99}
							}
							sc := [][2]float64{{1, 0}, {-2, 5}, {0.5, 32768}}[k/2]
							hd := fx.HeaderBytes([]string{fx.KV("SIMPLE", "T"), fx.KV("BITPIX", fmt.Sprint(bp)), fx.KV("NAXIS", "2"),
								fx.KV("NAXIS1", fmt.Sprint(n)), fx.KV("NAXIS2", "1"), fx.KV("BSCALE", fmt.Sprint(sc[0])), fx.KV("BZERO", fmt.Sprint(sc[1]))})
							f := fits.NewImage()
							if err := f.Read(bytes.NewReader(append(hd, fx.Pad2880(fx.EncodeData(bp, raw))...)), true, io.Discard); err != nil {
								return vx.Fail("load", "%v", err)
							}
							d := make([]float32, n)
							for i := range d {
								v := float64(raw[i].I)
								if bp < 0 {
									v = raw[i].F
								}
								d[i] = float32(sc[1] + sc[0]*v)
							}
							s.Outcome(vx.HashF(d))
							return verify(f.Stats, d, n, orders[(p+k)%len(orders)], 1e-6)
						})
					}
				}
			}
		})

		// state machine: processing steps x statistics asked for before, between and after
		all := steps()
		queries := []int{0, qMin, qStd, qLoc | qScale, qNoise, 127}
		for _, isRGB := range []bool{false, true} {
			var st []step
			for _, x := range all {
				if x.rgb == 2 || (x.rgb == 1) == isRGB {
					st = append(st, x)
				}
			}
			name := "history-mono"
			if isRGB {
				name = "history-rgb"
			}
			depth := 2
			qs := queries
			c.Bound("%s: all sequences of %d processing steps out of %d, with every combination of %d statistics queries before each step, two image geometries", name, depth, len(st), len(qs))
			run := func(s *vx.S, seq []int, q []int, kind int) {
				s.Check(func() string {
					t := fmt.Sprintf("geometry %d:", kind)
					for i, x := range seq {
						t += fmt.Sprintf(" ask %d, %s;", q[i], st[x].name)
					}
					return t
				}, func() error {
					cx := ops.NewContext(io.Discard, 100, stats.LSEMeanStdDev)
					dir := fmt.Sprintf("%s/%s-%d", c.Scratch, name, s.ID)
					os.MkdirAll(dir, 0o777)
					f := start(isRGB, kind)
					for i, x := range seq {
						if !finite(f.Data) { // statistics of NaN pixels are undefined
							return nil
						}
						ask(f.Stats, q[i])
						var err error
						f, err = st[x].fn(f, cx, dir)
						if err != nil {
							return nil // the step refused its input
						}
						if f == nil {
							return nil
						}
						s.Transitions(1)
					}
					if !finite(f.Data) {
						return nil
					}
					s.States(1)
					s.Outcome(vx.HashF(f.Data))
					w := int(f.Naxisn[0])
					r := define(f.Data, w)
					got := map[int]float32{}
					for b := 1; b <= qNoise; b <<= 1 {
						got[b] = one(f.Stats, b)
					}
					fresh := stats.NewStats(f.Data, f.Naxisn[0])
					for b := 1; b <= qNoise; b <<= 1 {
						if b == qNoise && (w < 3 || len(f.Data)/w < 3) {
							continue
						}
						want := float64(one(fresh, b))
						if b == qMin {
							want = r.min
						} else if b == qMax {
							want = r.max
						}
						if !near(got[b], want, 2e-5*math.Max(r.amax, 1)) {
							return vx.Fail("stale-"+qn[b], "after %s: %s is reported as %g but is %g", st[seq[len(seq)-1]].name, qn[b], got[b], want)
						}
					}
					return nil
				})
			}
			// saving steps write files: keep them on separate names by running a shard per first step
			c.Shards(name, len(st), func(s *vx.S) {
				for kind := 0; kind < 2; kind++ {
					for _, q0 := range qs {
						run(s, []int{s.ID}, []int{q0}, kind)
						for b := range st {
							if (st[s.ID].name[0:1] == "s" || st[b].name[0:1] == "s") && kind == 1 && !c.Thorough && q0 != 0 && q0 != 127 {
								continue
							}
							for _, q1 := range qs {
								run(s, []int{s.ID, b}, []int{q0, q1}, kind)
							}
						}
					}
				}
			})
			if c.Thorough {
				c.Bound("%s: all sequences of 3 steps with all or no statistics asked before each", name)
				c.Shards(name+"-3", len(st)*len(st), func(s *vx.S) {
					for x := range st {
						for q := 0; q < 8; q++ {
							run(s, []int{s.ID / len(st), s.ID % len(st), x}, []int{127 * (q & 1), 127 * (q >> 1 & 1), 127 * (q >> 2)}, 0)
						}
					}
				})
			}
		}
	})
}
