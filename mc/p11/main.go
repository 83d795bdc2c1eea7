package main

import (
	"fmt"
	"io"
	"math"
	"os"

	"github.com/mlnoga/nightlight/internal/fits"
	"github.com/mlnoga/nightlight/internal/ops"
	"github.com/mlnoga/nightlight/internal/ops/pre"
	"github.com/mlnoga/nightlight/internal/stats"
	"github.com/mlnoga/nightlight/internal/zzverif/fx"
	"github.com/mlnoga/nightlight/internal/zzverif/sx"
	"github.com/mlnoga/nightlight/internal/zzverif/vsched"
	"github.com/mlnoga/nightlight/internal/zzverif/vx"
)

// fn is one pixel-wise operation: how to run it, the channels it works on and its formula for a pixel of channel c.
// Operations without formula work on pixels as a whole; applied to many pixels they must do to each what they do to it alone.
type fn struct {
	name    string
	do      func(f *fits.Image)
	chans   int // bit mask of channels it may change
	formula func(c int, d float64) float64
	tol     float64
}

const (
	all = 7
)

func clamp01(x float64) float64 { return math.Min(1, math.Max(0, x)) }

func fns() (r []fn) {
	add := func(name string, do func(f *fits.Image), chans int, formula func(c int, d float64) float64, tol float64) {
		r = append(r, fn{name, do, chans, formula, tol})
	}
	sf := func(s, o float64) func(int, float64) float64 {
		return func(_ int, d float64) float64 { return d*s + o }
	}
	for _, p := range [][2]float32{{2, 0.25}, {-1, 1}, {0.5, -3}, {0, 0.5}, {1, 0}} {
		p := p
		add(fmt.Sprintf("scale %g offset %g", p[0], p[1]), func(f *fits.Image) { f.ApplyScaleOffset(p[0], p[1]) }, all, sf(float64(p[0]), float64(p[1])), 1e-6)
	}
	for ch := 0; ch < 3; ch++ {
		ch := ch
		add(fmt.Sprintf("scale channel %d", ch), func(f *fits.Image) { f.ApplyScaleOffsetToChannel(ch, 3, -0.5) }, 1<<uint(ch), sf(3, -0.5), 1e-6)
	}
	gam := func(g float64) func(int, float64) float64 {
		return func(_ int, d float64) float64 { return math.Pow(d, 1/g) }
	}
	for _, g := range []float32{2.2, 1, 0.5, 5} {
		g := g
		add(fmt.Sprintf("gamma %g", g), func(f *fits.Image) { f.ApplyGamma(g) }, all, gam(float64(g)), 2e-6)
		for ch := 0; ch < 3; ch++ {
			ch := ch
			add(fmt.Sprintf("gamma %g channel %d", g, ch), func(f *fits.Image) { f.ApplyGammaToChannel(ch, g) }, 1<<uint(ch), gam(float64(g)), 2e-6)
		}
	}
	pg := func(from, to, g float64) func(int, float64) float64 {
		return func(_ int, d float64) float64 {
			if d > from && d < to {
				return from + math.Pow((d-from)/(to-from), 1/g)*(to-from)
			}
			return d
		}
	}
	for _, p := range [][3]float32{{0.25, 0.75, 2}, {0, 1, 1.5}, {0.5, 1, 0.75}, {0, 0.125, 4}} {
		p := p
		add(fmt.Sprintf("partial gamma %v", p), func(f *fits.Image) { f.ApplyPartialGamma(p[0], p[1], p[2]) }, all, pg(float64(p[0]), float64(p[1]), float64(p[2])), 3e-5)
		for ch := 0; ch < 3; ch++ {
			ch := ch
			add(fmt.Sprintf("partial gamma %v channel %d", p, ch), func(f *fits.Image) { f.ApplyPartialGammaToChannel(ch, p[0], p[1], p[2]) }, 1<<uint(ch), pg(float64(p[0]), float64(p[1]), float64(p[2])), 3e-5)
		}
	}
	mt := func(mid, black float64) func(int, float64) float64 {
		m := func(d float64) float64 { return d * (mid - 1) / ((2*mid-1)*d - mid) }
		return func(_ int, d float64) float64 {
			return (math.Min(1, math.Max(m(d), m(black))) - m(black)) / (1 - m(black))
		}
	}
	for _, p := range [][2]float32{{0.25, 0}, {0.125, 0.0625}, {0.75, 0.25}, {0.5, 0.5}, {0.02, 0.1}} {
		p := p
		add(fmt.Sprintf("midtones %v", p), func(f *fits.Image) { f.ApplyMidtones(p[0], p[1]) }, all, mt(float64(p[0]), float64(p[1])), 2e-5)
		for ch := 0; ch < 3; ch++ {
			ch := ch
			add(fmt.Sprintf("midtones %v channel %d", p, ch), func(f *fits.Image) { f.ApplyMidtonesToChannel(ch, p[0], p[1]) }, 1<<uint(ch), mt(float64(p[0]), float64(p[1])), 2e-5)
		}
	}
	sb := func(b, a float64) func(int, float64) float64 {
		k := (a - b) / (a - 1)
		return func(_ int, d float64) float64 { return math.Max(0, (d-k)/(1-k)) }
	}
	for _, p := range [][2]float32{{0.5, 0.1}, {0.25, 0.25}, {0.0625, 0.004}, {0.125, 0.375}} {
		p := p
		add(fmt.Sprintf("black shift %v", p), func(f *fits.Image) { f.ShiftBlackToMove(p[0], p[1]) }, all, sb(float64(p[0]), float64(p[1])), 3e-6)
		for ch := 0; ch < 3; ch++ {
			ch := ch
			add(fmt.Sprintf("black shift %v channel %d", p, ch), func(f *fits.Image) { f.ShiftBlackToMoveChannel(ch, p[0], p[1]) }, 1<<uint(ch), sb(float64(p[0]), float64(p[1])), 3e-6)
		}
	}
	per := func(v ...float64) func(g func(x, d float64) float64) func(int, float64) float64 {
		return func(g func(x, d float64) float64) func(int, float64) float64 {
			return func(c int, d float64) float64 { return g(v[c], d) }
		}
	}
	add("offset RGB", func(f *fits.Image) { f.OffsetRGB(0.1, -0.2, 0.3) }, all, per(float64(float32(0.1)), float64(float32(-0.2)), float64(float32(0.3)))(func(x, d float64) float64 { return d + x }), 1e-6)
	add("scale RGB", func(f *fits.Image) { f.ScaleRGB(0.5, 1.5, 2) }, all, per(0.5, 1.5, 2)(func(x, d float64) float64 { return math.Min(1, d*x) }), 1e-6)
	add("scale offset clamp RGB", func(f *fits.Image) { f.ScaleOffsetClampRGB(2, -0.25, 0.5, 0.5, -1, 1) }, all, func(c int, d float64) float64 {
		return clamp01([]float64{2*d - 0.25, 0.5*d + 0.5, 1 - d}[c])
	}, 1e-6)
	// operations on whole colour pixels
	for _, o := range []struct {
		n  string
		do func(f *fits.Image)
		ch int
	}{
		{"RGBToHCL", (*fits.Image).RGBToHCL, all}, {"RGBToCIEHSL", (*fits.Image).RGBToCIEHSL, all}, {"CIEHSLToRGB", (*fits.Image).CIEHSLToRGB, all},
		{"ToXyy", (*fits.Image).ToXyy, all}, {"XyyToRGB", (*fits.Image).XyyToRGB, all}, {"RGBToHSLuv", (*fits.Image).RGBToHSLuv, all}, {"HSLuvToRGB", (*fits.Image).HSLuvToRGB, all},
		{"chroma", func(f *fits.Image) { f.AdjustChroma(1.5, 0.3) }, 2}, {"neutralize", func(f *fits.Image) { f.NeutralizeBackground(0.2, 0.6) }, 2},
		{"chroma for hues", func(f *fits.Image) { f.AdjustChromaForHues(0.2, 0.6, 0.5) }, 2}, {"rotate", func(f *fits.Image) { f.RotateColors(0.2, 0.6, 0.1, 0.1) }, 1},
		{"scnr", func(f *fits.Image) { f.SCNR(0.5) }, 3},
	} {
		add(o.n, o.do, o.ch, nil, 0)
	}
	return
}

// image of three channels with l pixels each; w*h=l
func mk(l int, v func(c, i int) float32) *fits.Image {
	d := make([]float32, 3*l)
	for c := 0; c < 3; c++ {
		for i := 0; i < l; i++ {
			d[c*l+i] = v(c, i)
		}
	}
	f := fits.NewImageFromNaxisn([]int32{int32(l), 1, 3}, d)
	f.Stats = stats.NewStats(f.Data, int32(l))
	return f
}

func same(a, b float32) bool { return a == b || a != a && b != b }

func check(o fn, f *fits.Image, src []float32) error {
	l := len(src) / 3
	if len(f.Data) != len(src) || !fx.EqI32(f.Naxisn, int32(l), 1, 3) {
		return vx.Fail("dims", "%s: image is now %v with %d pixels", o.name, f.Naxisn, len(f.Data))
	}
	for c := 0; c < 3; c++ {
		if o.chans>>uint(c)&1 == 0 {
			for i := 0; i < l; i++ {
				if !same(f.Data[c*l+i], src[c*l+i]) {
					return vx.Fail("other-channel", "%s: channel %d pixel %d of %d changed from %g to %g", o.name, c, i, l, src[c*l+i], f.Data[c*l+i])
				}
			}
			continue
		}
		if o.formula == nil {
			continue
		}
		for i := 0; i < l; i++ {
			d := src[c*l+i]
			want := o.formula(c, float64(d))
			got := float64(f.Data[c*l+i])
			if math.IsNaN(want) && math.IsNaN(got) {
				continue
			}
			if !(math.Abs(got-want) <= o.tol*math.Max(1, math.Abs(want))) {
				return vx.Fail("formula", "%s: channel %d pixel %d of %d: %g became %g, want %g", o.name, c, i, l, d, got, want)
			}
		}
	}
	return nil
}

// solo applies a whole-pixel operation to one pixel
func solo(o fn, p [3]float32) (r [3]float32) {
	f := mk(1, func(c, i int) float32 { return p[c] })
	o.do(f)
	copy(r[:], f.Data)
	return
}

func palette(c, i int) float32 {
	return float32((i*(37+6*c)+c*29)%101) / 100
}

func main() {
	list := fns()
	var sj []sx.Job
	sched := func(o fn, l, cpus, pre int) {
		sj = append(sj, sx.Job{Name: fmt.Sprintf("%s on %d pixels, %d processors, preemptions<=%d", o.name, l, cpus, pre), Preempt: pre, NumCPU: cpus, MaxExecs: deep(400000, 60000), OneOutcome: true,
			Setup: func() (func(), func() (string, error)) {
				f := mk(l, func(c, i int) float32 { return float32(1+c+2*i) / 16 })
				src := append([]float32(nil), f.Data...)
				var snap []float32
				body := func() { o.do(f); snap = append([]float32(nil), f.Data...) }
				check := func() (string, error) {
					if !fx.Same(snap, f.Data) {
						return "", sx.Failf("unfinished", "%s returned before all pixels were processed", o.name)
					}
					if err := check(o, f, src); err != nil {
						return "", err
					}
					return fmt.Sprint(f.Data), nil
				}
				return body, check
			}})
	}
	sel := map[string]bool{"scale 2 offset 0.25": true, "gamma 2.2 channel 1": true, "chroma": true}
	for _, o := range list {
		if !sel[o.name] {
			continue
		}
		for l := 1; l <= 3; l++ {
			for _, cpus := range []int{1, 2} {
				n := l
				if o.name[0] == 's' {
					n = 3 * l
				}
				pre := 2
				if n > 6 && cpus > 1 {
					continue
				}
				if n > 3 {
					pre = 1
				}
				sched(o, l, cpus, pre)
			}
		}
		if o.name[0] != 's' {
			sched(o, 4, 3, 1)
		}
		if deepOn() {
			sched(o, 2, 2, -1)
			sched(o, 4, 2, 2)
		}
	}
	if sx.Worker(sj) {
		return
	}
	vx.Main("P11", "model_checking", func(c *vx.C) {
		stats.LSEstimator = stats.LSEMeanStdDev
		sx.Phase(c, "schedules", sj, 25)
		c.Bound("controlled schedules: the three ways of sharing pixels among goroutines, 1..4 pixels per channel, 1..3 processors, preemption bound 1..2")

		maxL := 100
		cpus := []int{1, 2, 3, 5, 8}
		if c.Thorough {
			maxL = 700
			cpus = []int{1, 2, 3, 4, 5, 6, 7, 8, 9, 12, 16, 31, 64}
		}
		c.Bound("%d operations with their parameters, 1..%d pixels per channel, processors %v", len(list), maxL, cpus)
		for _, n := range cpus {
			n := n
			vsched.SetNumCPU(n)
			c.Shards(fmt.Sprintf("work sharing %d processors", n), len(list), func(s *vx.S) {
				o := list[s.ID]
				lens := make([]int, 0, maxL+4)
				for l := 1; l <= maxL; l++ {
					if l > 34 && l%3 != s.ID%3 && !c.Thorough {
						continue
					}
					lens = append(lens, l)
				}
				lens = append(lens, 8*n*5-1, 8*n*5, 8*n*5+1)
				if n == 3 {
					lens = append(lens, 4099, 66049)
				}
				if n == 1 { // packages of more than 65536 pixels
					lens = append(lens, 540041)
				}
				var one [128][3]float32
				if o.formula == nil {
					for i := range one {
						one[i] = solo(o, [3]float32{palette(0, i), palette(1, i), palette(2, i)})
					}
				}
				for _, l := range lens {
					s.Check(func() string { return fmt.Sprintf("%s, %d pixels, %d processors", o.name, l, n) }, func() error {
						m := func(i int) int { return i % 101 }
						f := mk(l, func(c, i int) float32 { return palette(c, m(i)) })
						src := append([]float32(nil), f.Data...)
						o.do(f)
						if err := check(o, f, src); err != nil {
							return err
						}
						if o.formula == nil {
							for i := 0; i < l; i++ {
								for c := 0; c < 3; c++ {
									if !same(f.Data[c*l+i], one[m(i)][c]) {
										return vx.Fail("pixelwise", "%s: pixel %d of %d channel %d is %g, the same pixel alone gives %g", o.name, i, l, c, f.Data[c*l+i], one[m(i)][c])
									}
								}
							}
						}
						s.Outcome(vx.HashF(f.Data))
						return nil
					})
				}
			})
		}
		vsched.SetNumCPU(4)

		// formulas on dense values
		step := 1024
		if c.Thorough {
			step = 65536
		}
		c.Bound("formulas on %d values from 0 to 1, out of range values, and all parameters", step+1)
		c.Shards("formulas", len(list), func(s *vx.S) {
			o := list[s.ID]
			if o.formula == nil {
				return
			}
			for _, set := range []int{0, 1} {
				s.Check(func() string { return fmt.Sprintf("%s, value set %d", o.name, set) }, func() error {
					f := mk(step+1, func(c, i int) float32 {
						if set == 0 {
							return float32(i) / float32(step)
						}
						return []float32{1e-7, 1e-20, 0.9999999, 0.25, 0.75, 0.5, 1e-3, 0.0625}[i%8]
					})
					src := append([]float32(nil), f.Data...)
					o.do(f)
					return check(o, f, src)
				})
			}
		})
		// normalisation, including single-channel images
		c.Shards("normalize", 40, func(s *vx.S) {
			l := s.ID + 1
			for k := 0; k < 6; k++ {
				for _, amp := range []float32{1, 65535, 1e-3} {
					s.Check(func() string { return fmt.Sprintf("normalize %d pixels kind %d amp %g", l, k, amp) }, func() error {
						d := make([]float32, l)
						for i := range d {
							d[i] = amp * []float32{float32(i), float32(l - i), float32(i * i % 7), -float32(i%5) - 2, float32(i%2) - 0.5, 3 + float32(i%3)}[k]
						}
						f := fits.NewImageFromNaxisn([]int32{int32(l), 1}, append([]float32(nil), d...))
						f.Stats = stats.NewStats(f.Data, int32(l))
						mn, mx := d[0], d[0]
						for _, v := range d {
							if v < mn {
								mn = v
							}
							if v > mx {
								mx = v
							}
						}
						if mx == mn {
							return nil // the step skips uniform images, see P23
						}
						f.Normalize()
						for i, v := range f.Data {
							want := (float64(d[i]) - float64(mn)) / (float64(mx) - float64(mn))
							if math.Abs(float64(v)-want) > 1e-5 {
								return vx.Fail("normalize", "pixel %d: %g of range %g..%g became %g, want %g", i, d[i], mn, mx, v, want)
							}
						}
						s.Outcome(vx.HashF(f.Data))
						return nil
					})
				}
			}
		})
		// sizes of real frames
		c.Bound("large images: normalisation, luminance and binning of 1200x901 and thin images")
		c.Shards("large", 12, func(s *vx.S) {
			wh := [][2]int{{1201, 902}, {70001, 3}, {5, 40003}}[s.ID%3]
			w, h := wh[0], wh[1]
			d := make([]float32, w*h)
			for i := range d {
				d[i] = float32(i*7919%65521) + float32(i/w)/8
			}
			switch k := s.ID / 3; k {
			case 0, 1, 2:
				s.Check(func() string { return fmt.Sprintf("%dx%d, bin %d", w, h, k+2) }, func() error { return binned(d, w, h, 0, k+2, s) })
			case 3:
				s.Check(func() string { return fmt.Sprintf("normalize and luminance of %dx%d", w, h) }, func() error {
					f := fits.NewImageFromNaxisn([]int32{int32(w), int32(h)}, append([]float32(nil), d...))
					f.Stats = stats.NewStats(f.Data, int32(w))
					mn, mx := math.Inf(1), math.Inf(-1)
					for _, v := range d {
						mn, mx = math.Min(mn, float64(v)), math.Max(mx, float64(v))
					}
					f.Normalize()
					for i, v := range f.Data {
						want := (float64(d[i]) - mn) / (mx - mn)
						if math.Abs(float64(v)-want) > 1e-5 {
							return vx.Fail("normalize", "pixel %d: %g of range %g..%g became %g, want %g", i, d[i], mn, mx, v, want)
						}
					}
					for _, do := range []func(f *fits.Image){(*fits.Image).MonoToHSLuvLum, (*fits.Image).MonoToHSLLum} {
						known := map[float32]float32{}
						for _, lo := range []int{0, len(d) - 3000} {
							g := fits.NewImageFromNaxisn([]int32{3000, 1}, append([]float32(nil), f.Data[lo:lo+3000]...))
							g.Stats = stats.NewStats(g.Data, 3000)
							do(g)
							for i, v := range g.Data {
								known[f.Data[lo+i]] = v
							}
						}
						g := fits.NewImageFromNaxisn([]int32{int32(w), int32(h)}, append([]float32(nil), f.Data...))
						g.Stats = stats.NewStats(g.Data, int32(w))
						do(g)
						for i, v := range g.Data {
							if k, ok := known[f.Data[i]]; ok && k != v {
								return vx.Fail("pixelwise", "pixel %d of %d (%g) gives %g, in a small image %g", i, len(d), f.Data[i], v, k)
							} else if i > 0 && f.Data[i] > f.Data[i-1] && v < g.Data[i-1] {
								return vx.Fail("pixelwise", "pixel %d of %d (%g) gives %g, but %g gives %g", i, len(d), f.Data[i], v, f.Data[i-1], g.Data[i-1])
							}
						}
					}
					return nil
				})
			}
		})
		// luminance of mono images
		c.Serial("mono", 1, func(s *vx.S) {
			for _, o := range []struct {
				n  string
				do func(f *fits.Image)
			}{{"MonoToHSLuvLum", (*fits.Image).MonoToHSLuvLum}, {"MonoToHSLLum", (*fits.Image).MonoToHSLLum}} {
				for l := 1; l <= 90; l++ {
					s.Check(func() string { return fmt.Sprintf("%s on %d pixels", o.n, l) }, func() error {
						run := func(d []float32) []float32 {
							f := fits.NewImageFromNaxisn([]int32{int32(len(d)), 1}, append([]float32(nil), d...))
							f.Stats = stats.NewStats(f.Data, int32(len(d)))
							o.do(f)
							return f.Data
						}
						d := make([]float32, l)
						for i := range d {
							d[i] = palette(0, i)
						}
						r := run(d)
						for i := range d {
							if w := run(d[i : i+1])[0]; !same(w, r[i]) {
								return vx.Fail("pixelwise", "%s: pixel %d of %d (%g) gives %g, alone %g", o.n, i, l, d[i], r[i], w)
							}
						}
						return nil
					})
				}
			}
		})
		// binning
		maxD, maxN := 9, 5
		if c.Thorough {
			maxD, maxN = 17, 9
		}
		c.Bound("binning: sizes 1..%d squared, bins 0..%d, one and three channels: unit impulses, distinct values, all 0/1/9 images up to 3x2", maxD, maxN)
		c.Shards("binning", maxD*maxD, func(s *vx.S) {
			w, h := s.ID%maxD+1, s.ID/maxD+1
			for _, ch := range []int{0, 1, 3} {
				for n := 0; n <= maxN; n++ {
					pl := ch
					if pl == 0 {
						pl = 1
					}
					d := make([]float32, w*h*pl)
					bin := func() {
						s.Check(func() string { return fmt.Sprintf("%dx%d, %d channels, bin %d", w, h, ch, n) }, func() error { return binned(d, w, h, ch, n, s) })
					}
					for i := range d {
						d[i] = float32(i*i%211) - 20
					}
					bin()
					for i := range d {
						d[i] = float32(len(d)-i) * 1000.5
					}
					bin()
					for i := range d {
						d[i] = 0
					}
					for i := range d {
						d[i] = 3
						bin()
						d[i] = 0
					}
					if len(d) <= 6 {
						fx.Vectors(len(d), 3, func(v []int) {
							for i := range d {
								d[i] = []float32{0, 1, 9}[v[i]]
							}
							bin()
						})
					}
				}
			}
		})
	})
}

func binned(d []float32, w, h, ch, n int, s *vx.S) error {
	ax := []int32{int32(w), int32(h)}
	pl := 1
	if ch > 0 {
		ax = append(ax, int32(ch))
		pl = ch
	}
	f := fits.NewImageFromNaxisn(ax, append([]float32(nil), d...))
	f.Stats = stats.NewStats(f.Data, int32(w))
	f.ID, f.FileName, f.Exposure, f.NumStacked = 5, "x.fits", 12.5, 3
	g, err := pre.NewOpBin(int32(n)).Apply(f, ops.NewContext(io.Discard, 100, stats.LSEMeanStdDev))
	if n <= 1 {
		if err != nil || !fx.Same(g.Data, d) || len(g.Naxisn) != len(ax) || g.Naxisn[0] != ax[0] || g.Naxisn[1] != ax[1] {
			return vx.Fail("neutral", "binning %d changes the image (%v)", n, err)
		}
		return nil
	}
	ow, oh := w/n, h/n
	if ow == 0 || oh == 0 {
		if err == nil {
			return vx.Fail("too-small", "accepted although no whole bin fits, result %v", g.Naxisn)
		}
		return nil
	}
	if err != nil {
		return vx.Fail("error", "%v", err)
	}
	want := append([]int32{int32(ow), int32(oh)}, ax[2:]...)
	if !fx.EqI32(g.Naxisn, want...) || len(g.Data) != ow*oh*pl || int(g.Pixels) != ow*oh*pl {
		return vx.Fail("dims", "result is %v with %d (%d) pixels, want %v", g.Naxisn, len(g.Data), g.Pixels, want)
	}
	if g.ID != 5 || g.FileName != "x.fits" || g.Exposure != 12.5 {
		return vx.Fail("meta", "frame number, file name or exposure lost: %d %q %g", g.ID, g.FileName, g.Exposure)
	}
	for p := 0; p < pl; p++ {
		for y := 0; y < oh; y++ {
			for x := 0; x < ow; x++ {
				sum, mag := 0.0, 0.0
				for yy := 0; yy < n; yy++ {
					for xx := 0; xx < n; xx++ {
						v := float64(d[(p*h+y*n+yy)*w+x*n+xx])
						sum += v
						mag += math.Abs(v)
					}
				}
				k := float64(n * n)
				got := float64(g.Data[(p*oh+y)*ow+x])
				if math.Abs(got-sum/k) > 3e-6*mag/k {
					return vx.Fail("average", "channel %d pixel (%d,%d) is %g, average of its block %g", p, x, y, got, sum/k)
				}
			}
		}
	}
	s.Outcome(vx.HashF(g.Data))
	return nil
}

func deep(thorough, quick int) int {
	for _, a := range os.Args {
		if a == "thorough" {
			return thorough
		}
	}
	return quick
}

func deepOn() bool { return deep(1, 0) == 1 }
