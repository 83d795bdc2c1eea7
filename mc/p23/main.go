package main

import (
	"fmt"
	"io"
	"math"

	colorful "github.com/lucasb-eyer/go-colorful"
	"github.com/mlnoga/nightlight/internal/fits"
	"github.com/mlnoga/nightlight/internal/ops"
	"github.com/mlnoga/nightlight/internal/ops/hsl"
	"github.com/mlnoga/nightlight/internal/ops/stretch"
	"github.com/mlnoga/nightlight/internal/stats"
	"github.com/mlnoga/nightlight/internal/zzverif/fx"
	"github.com/mlnoga/nightlight/internal/zzverif/vx"
)

type applier interface {
	Apply(f *fits.Image, c *ops.Context) (*fits.Image, error)
}

// op describes one tone operator with its parameters.
type op struct {
	name    string
	mono    func() applier
	lum     func() applier                                               // same on the luminance channel of a color image
	neutral bool                                                         // must change nothing
	curve   func(loc, sc float64) (f func(d float64) float64, skip bool) // expected tone curve for known location and scale
	auto    bool
	scale   float32 // auto: target scale
}

func ctx() *ops.Context { return ops.NewContext(io.Discard, 100, stats.LSEMeanStdDev) }

// shape checks that the map from before to after is a tone curve.
func shape(before, after []float32) error {
	const eps = 2e-6
	for i, a := range after {
		if math.IsNaN(float64(a)) || math.IsInf(float64(a), 0) {
			return vx.Fail("finite", "value %g became %g", before[i], a)
		}
		if a < -eps || a > 1+eps {
			return vx.Fail("range", "value %g became %g", before[i], a)
		}
		if before[i] == 1 && math.Abs(float64(a)-1) > eps {
			return vx.Fail("white", "white became %g", a)
		}
		if i > 0 && before[i] == before[i-1] && a != after[i-1] {
			return vx.Fail("equal", "equal values %g became %g and %g", before[i], after[i-1], a)
		}
		if i > 0 && a < after[i-1]-eps { // before is sorted
			return vx.Fail("order", "values %g < %g became %g > %g", before[i-1], before[i], after[i-1], a)
		}
	}
	return nil
}

func lineImage(d []float32) *fits.Image {
	f := fits.NewImageFromNaxisn([]int32{int32(len(d)), 1}, append([]float32(nil), d...))
	f.ID, f.Exposure = 3, 1.5
	f.Stats = stats.NewStats(f.Data, int32(len(d)))
	return f
}

func run(s *vx.S, o op, d []float32, known bool) error {
	f := lineImage(d)
	if known {
		f.Stats.Location()
		f.Stats.Min()
	}
	st := stats.NewStats(append([]float32(nil), d...), int32(len(d)))
	loc, sc := st.Location(), st.Scale()
	r, err := o.mono().Apply(f, ctx())
	if err != nil || r != f || r.ID != 3 || r.Exposure != 1.5 || len(r.Data) != len(d) || !fx.EqI32(r.Naxisn, int32(len(d)), 1) {
		return vx.Fail("result", "result %v error %v", r, err)
	}
	if err := judge(s, o, d, r.Data, loc, sc); err != nil {
		return err
	}
	again := stats.NewStats(append([]float32(nil), r.Data...), int32(len(d)))
	if a, b := r.Stats.Max(), again.Max(); !near(float64(a), float64(b), 1e-5) {
		return vx.Fail("stats", "maximum reported as %g, pixels have %g", a, b)
	}
	if a, b := r.Stats.Location(), again.Location(); !near(float64(a), float64(b), 1e-4) {
		return vx.Fail("stats", "location reported as %g, pixels have %g", a, b)
	}
	if o.lum == nil {
		return nil
	}
	// the same on the luminance channel
	n := len(d)
	all := make([]float32, 3*n)
	for i := range d {
		all[i], all[n+i], all[2*n+i] = float32(i)*3, d[n-1-i]/2, d[i]
	}
	g := fits.NewImageFromNaxisn([]int32{int32(n), 1, 3}, append([]float32(nil), all...))
	g.ID = 4
	g.Stats = stats.NewStats(g.Data, int32(n))
	if known {
		g.Stats.Location()
		g.Stats.Min()
	}
	r, err = o.lum().Apply(g, ctx())
	if err != nil || r != g || r.ID != 4 || len(r.Data) != 3*n {
		return vx.Fail("lum-result", "result %v error %v", r, err)
	}
	if !fx.SameBits(r.Data[:2*n], all[:2*n]) {
		return vx.Fail("lum-channels", "hue and saturation changed from %v to %v", all[:2*n], r.Data[:2*n])
	}
	for i, a := range r.Data[2*n:] {
		if !near(float64(a), float64(f.Data[i]), 1e-5) {
			return vx.Fail("lum", "value %g became %g in the luminance channel and %g in a mono image", d[i], a, f.Data[i])
		}
	}
	return nil
}

func judge(s *vx.S, o op, d, out []float32, loc, sc float32) error {
	s.Outcome(vx.HashF(out))
	if err := shape(d, out); err != nil {
		return err
	}
	if o.neutral || o.auto && sc >= o.scale {
		if !fx.SameBits(d, out) {
			return vx.Fail("neutral", "pixels changed to %v", out)
		}
		return nil
	}
	if o.curve != nil {
		f, skip := o.curve(float64(loc), float64(sc))
		if !skip {
			for i, v := range d {
				if w := f(float64(v)); math.Abs(w-float64(out[i])) > 1e-4 {
					return vx.Fail("curve", "location %g, scale %g: value %g became %g, expected %g", loc, sc, v, out[i], w)
				}
			}
		}
	}
	return nil
}

func gamma(g float32) op {
	return op{name: fmt.Sprintf("gamma %g", g), neutral: g == 1,
		mono:  func() applier { return stretch.NewOpGamma(g) },
		lum:   func() applier { return hsl.NewOpHSLGamma(g) },
		curve: func(l, s float64) (func(float64) float64, bool) { return func(d float64) float64 { return math.Pow(d, 1/float64(g)) }, false }}
}

func gammaPP(g, sigma float32) op {
	return op{name: fmt.Sprintf("gammaPP %g above %g sigma", g, sigma), neutral: g == 1,
		mono: func() applier { return stretch.NewOpGammaPP(g, sigma) },
		lum:  func() applier { return hsl.NewOpHSLGammaPP(g, sigma) },
		curve: func(l, s float64) (func(float64) float64, bool) {
			from := math.Max(0, l+s*float64(sigma))
			return func(d float64) float64 {
				if d <= from || from >= 1 {
					return d
				}
				return from + (1-from)*math.Pow((d-from)/(1-from), 1/float64(g))
			}, math.Abs(from-1) < 1e-5 || from > 0 && g > 1 // steep near from: rounding; judged by gammaPPUpper below
		}}
}

func midtones(mid, black float32) op {
	return op{name: fmt.Sprintf("midtones %g black %g", mid, black), neutral: mid == 0,
		mono: func() applier { return stretch.NewOpMidtones(mid, black) },
		lum:  func() applier { return hsl.NewOpHSLMidtones(mid, black) },
		curve: func(l, s float64) (func(float64) float64, bool) {
			m, b := float64(mid)*s, math.Max(0, l-float64(black)*s)
			mtf := func(d float64) float64 { return (m - 1) * d / ((2*m-1)*d - m) }
			return func(d float64) float64 { return math.Max(0, (mtf(d)-mtf(b))/(1-mtf(b))) }, m < 1e-3 || m > 0.999 || b > 0.999
		}}
}

func scaleBlack(to float32) op {
	return op{name: fmt.Sprintf("scale black to location %g", to), neutral: to == 0,
		mono: func() applier { return stretch.NewOpScaleBlack(to) },
		curve: func(l, s float64) (func(float64) float64, bool) {
			t := float64(to)
			if l <= t {
				return func(d float64) float64 { return d }, false
			}
			b := (l - t) / (1 - t) // moves l to t, keeps 1
			return func(d float64) float64 { return math.Max(0, (d-b)/(1-b)) }, l == 1
		}}
}

func auto(loc, scale float32) op {
	return op{name: fmt.Sprintf("auto-stretch to location %g scale %g", loc, scale), neutral: loc == 0 && scale == 0, auto: true, scale: scale,
		mono: func() applier { return stretch.NewOpStretchIterative(loc, scale) },
		lum:  func() applier { return hsl.NewOpHSLStretchIterative(loc, scale) }}
}

var estimators = []struct {
	m    stats.LSEstimatorMode
	name string
}{{stats.LSEMeanStdDev, "mean"}, {stats.LSEHistogram, "histogram"}, {stats.LSEIKSS, "ikss"}}

// multisets calls f for every nondecreasing choice of k of the values.
func multisets(vals []float32, k int) (res [][]float32) {
	var rec func(i int, cur []float32)
	rec = func(i int, cur []float32) {
		if len(cur) == k {
			res = append(res, append([]float32(nil), cur...))
			return
		}
		for j := i; j < len(vals); j++ {
			rec(j, append(cur, vals[j]))
		}
	}
	rec(0, nil)
	return
}

func main() {
	vx.Main("P23", "model_checking", func(c *vx.C) {
		var list []op
		gs := []float32{0.2, 0.5, 0.99, 1, 1.01, 1.5, 2.2, 5, 20}
		for _, g := range gs {
			list = append(list, gamma(g))
			for _, sigma := range []float32{-5, -1, -0.25, 0, 0.5, 1, 3, 50} {
				list = append(list, gammaPP(g, sigma))
			}
		}
		for _, mid := range []float32{0, 0.01, 0.5, 1, 2, 5, 20} {
			for _, black := range []float32{-5, -1, 0, 0.5, 1, 2, 10, 100} {
				list = append(list, midtones(mid, black))
			}
		}
		for _, to := range []float32{0, 1e-4, 0.01, 0.02, 0.1, 0.25, 0.3, 0.5, 0.99} {
			list = append(list, scaleBlack(to))
		}
		nauto := len(list)
		for _, l := range []float32{0, 0.01, 0.1, 0.25, 0.9} {
			for _, sc := range []float32{0, 0.001, 0.004, 0.05, 0.3, 1} {
				list = append(list, auto(l, sc))
			}
		}
		vals := []float32{0, 1e-5, 0.02, 0.1, 0.25, 0.5, 0.9, 1}
		k := 4
		if c.Thorough {
			k = 5
		}
		small := multisets(vals, k)
		heavy := multisets(vals, 2)
		var images [][]float32
		images = append(images, small...)
		// a full ramp of tones plus two heavy values that decide location and scale
		for _, h := range heavy {
			for _, reps := range []int{0, 40, 4000} {
				if reps == 0 && (h[0] != 0 || h[1] != 0) {
					continue
				}
				var v []float32
				add := func(x float32) {
					v = append(v, x)
					for _, y := range h {
						if y == x {
							for i := 0; i < reps; i++ {
								v = append(v, x)
							}
						}
					}
				}
				j := 0
				for i := 0; i <= 128; i++ {
					x := float32(i) / 128
					for j < len(vals) && vals[j] <= x {
						add(vals[j])
						j++
					}
					v = append(v, x)
				}
				images = append(images, v)
			}
		}
		for _, e := range estimators {
			stats.LSEstimator = e.m
			c.Shards("tones-"+e.name, len(list), func(s *vx.S) {
				o := list[s.ID]
				for i, d := range images {
					if s.ID >= nauto && len(d) > 1000 && i%3 != 0 && !c.Thorough {
						continue
					}
					s.States(1)
					s.Check(func() string { return fmt.Sprintf("%s (%s statistics) on %s", o.name, e.name, show(d)) },
						func() error { return run(s, o, d, i%2 == 0) })
				}
			})
		}
		stats.LSEstimator = stats.LSEMeanStdDev
		c.Bound("%d operator settings x %d images x %d estimators", len(list), len(images), len(estimators))

		// sizes of real frames: every tone of a fine ramp
		ramp := func(n int) []float32 {
			r := make([]float32, n)
			for i := range r {
				r[i] = float32(i) / float32(n-1)
			}
			return r
		}
		longer, long := ramp(1<<20+1<<16), ramp(1<<16+37)
		c.Bound("a ramp of %d pixels, all operator settings; of %d pixels, every sixth", len(long), len(longer))
		c.Shards("long-ramp", len(list), func(s *vx.S) {
			o, d := list[s.ID], long
			if s.ID%6 == 0 {
				d = longer
			}
			s.Check(func() string { return fmt.Sprintf("%s on a ramp of %d pixels", o.name, len(d)) }, func() error { return run(s, o, d, s.ID%2 == 0) })
		})

		// partial gamma, all boundaries
		pts := []float32{0, 0.1, 0.25, 0.5, 0.9, 1}
		c.Serial("partial-gamma", 1, func(s *vx.S) {
			var ramp []float32
			for i := 0; i <= 256; i++ {
				ramp = append(ramp, float32(i)/256)
			}
			for _, from := range pts {
				for _, to := range pts {
					for _, g := range gs {
						for _, lum := range []bool{false, true} {
							s.Check(func() string { return fmt.Sprintf("partial gamma %g from %g to %g (channel %v)", g, from, to, lum) }, func() error {
								var out []float32
								if lum {
									f := lineImage(append(append(append([]float32(nil), ramp...), ramp...), ramp...))
									f.ApplyPartialGammaToChannel(1, from, to, g)
									n := len(ramp)
									if !fx.SameBits(f.Data[:n], ramp) || !fx.SameBits(f.Data[2*n:], ramp) {
										return vx.Fail("partial-channel", "other channels changed")
									}
									out = f.Data[n : 2*n]
								} else {
									f := lineImage(ramp)
									f.ApplyPartialGamma(from, to, g)
									out = f.Data
								}
								if err := shape(ramp, out); err != nil {
									return err
								}
								for i, d := range ramp {
									want := d
									if d > from && d < to {
										want = from + (to-from)*float32(math.Pow(float64((d-from)/(to-from)), 1/float64(g)))
									}
									if !near(float64(out[i]), float64(want), 2e-6) {
										return vx.Fail("partial", "value %g became %g, expected %g", d, out[i], want)
									}
								}
								return nil
							})
						}
					}
				}
			}
		})

		// black scaling of the luminance channel: target given in linear light
		c.Serial("lum-black", 1, func(s *vx.S) {
			for _, to := range []float32{0, 1e-3, 0.01, 0.1, 0.3, 0.9} {
				_, _, target := colorful.LinearRgb(float64(to), float64(to), float64(to)).HSLuv()
				for _, d := range images {
					s.Check(func() string { return fmt.Sprintf("luminance black scaling to %g on %s", to, show(d)) }, func() error {
						n := len(d)
						all := append(append(append([]float32(nil), d...), d...), d...)
						f := fits.NewImageFromNaxisn([]int32{int32(n), 1, 3}, append([]float32(nil), all...))
						f.Stats = stats.NewStats(f.Data, int32(n))
						loc := float64(stats.NewStats(append([]float32(nil), d...), int32(n)).Location())
						if r, err := hsl.NewOpHSLScaleBlack(to).Apply(f, ctx()); r != f || err != nil {
							return vx.Fail("result", "result %v error %v", r, err)
						}
						if !fx.SameBits(f.Data[:2*n], all[:2*n]) {
							return vx.Fail("lum-channels", "hue or saturation changed")
						}
						if err := shape(d, f.Data[2*n:]); err != nil {
							return err
						}
						for i, v := range d {
							want := float64(v)
							if to != 0 && loc > target && loc != 1 {
								b := (loc - target) / (1 - target)
								want = math.Max(0, (want-b)/(1-b))
							}
							if math.Abs(want-float64(f.Data[2*n+i])) > 1e-4 {
								return vx.Fail("lum-black", "location %g: value %g became %g, expected %g", loc, v, f.Data[2*n+i], want)
							}
						}
						return nil
					})
				}
			}
		})

		// range normalisation
		raw := []float32{-1e4, -3, 0, 1e-9, 1e-4, 1, 1000, 1000.00006, 1000.3, 1000.5, 65531.3, 65535, 1e30}
		norm := multisets(raw, 3)
		c.Serial("normalize", 1, func(s *vx.S) {
			for i, d := range norm {
				for _, known := range []bool{false, true} {
					s.Check(func() string { return fmt.Sprintf("range normalisation of %v", d) }, func() error {
						f := lineImage(d)
						if known {
							f.Stats.Location()
							f.Stats.Min()
						}
						r, err := stretch.NewOpNormalizeRange().Apply(f, ctx())
						if err != nil || r != f {
							return vx.Fail("result", "result %v error %v", r, err)
						}
						s.Outcome(vx.HashF(f.Data))
						min, max := float64(d[0]), float64(d[2])
						if max-min < 1e-8 {
							if !fx.SameBits(d, f.Data) {
								return vx.Fail("norm-uniform", "uniform image changed to %v", f.Data)
							}
							return nil
						}
						for j, v := range d {
							if want := (float64(v) - min) / (max - min); math.Abs(want-float64(f.Data[j])) > 1e-6 {
								return vx.Fail("norm", "became %v, expected value %d to be %g", f.Data, j, want)
							}
						}
						if a, b := f.Stats.Min(), f.Stats.Max(); !near(float64(a), 0, 1e-5) || !near(float64(b), 1, 1e-5) {
							return vx.Fail("norm-stats", "became %v, minimum and maximum reported as %g, %g", f.Data, a, b)
						}
						_ = i
						return nil
					})
				}
			}
			s.Check(func() string { return "range normalisation of a long ramp" }, func() error {
				d := make([]float32, len(long))
				for i, v := range long {
					d[i] = 1000 + v*5000
				}
				f := lineImage(d)
				if r, err := stretch.NewOpNormalizeRange().Apply(f, ctx()); err != nil || r != f {
					return vx.Fail("result", "result %v error %v", r, err)
				}
				for i, v := range f.Data {
					if math.Abs(float64(v)-float64(long[i])) > 1e-6 {
						return vx.Fail("norm", "value %d of %d became %g, expected %g", i, len(d), v, long[i])
					}
				}
				return nil
			})
			s.Check(func() string { return "range normalisation without statistics" }, func() error {
				f := lineImage([]float32{1, 2})
				f.Stats = nil
				if r, err := stretch.NewOpNormalizeRange().Apply(f, ctx()); r != nil || err == nil {
					return vx.Fail("norm-missing", "result %v error %v", r, err)
				}
				return nil
			})
		})
	})
}

func show(d []float32) string {
	if len(d) < 20 {
		return fmt.Sprint(d)
	}
	// runs
	s := ""
	for i := 0; i < len(d); {
		j := i
		for j < len(d) && d[j] == d[i] {
			j++
		}
		if j-i > 30 {
			s += fmt.Sprintf(" + %d x %g", j-i, d[i])
		}
		i = j
	}
	return "ramp" + s
}

func near(a, b, tol float64) bool { return math.Abs(a-b) <= tol }
