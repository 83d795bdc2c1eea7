package main

import (
	"fmt"
	"io"
	"math"
	"os"
	"sort"
	"sync/atomic"

	"github.com/mlnoga/nightlight/internal/fits"
	"github.com/mlnoga/nightlight/internal/ops"
	"github.com/mlnoga/nightlight/internal/ops/stack"
	"github.com/mlnoga/nightlight/internal/stats"
	"github.com/mlnoga/nightlight/internal/zzverif/fx"
	"github.com/mlnoga/nightlight/internal/zzverif/sx"
	"github.com/mlnoga/nightlight/internal/zzverif/vsched"
	"github.com/mlnoga/nightlight/internal/zzverif/vx"
)

var nan = float32(math.NaN())

func meanSD(v []float64) (m, sd float64) {
	for _, x := range v {
		m += x
	}
	m /= float64(len(v))
	for _, x := range v {
		sd += (x - m) * (x - m)
	}
	return m, math.Sqrt(sd / float64(len(v)))
}

func median(v []float64) float64 {
	s := append([]float64(nil), v...)
	sort.Float64s(s)
	return (s[(len(s)-1)/2] + s[len(s)/2]) / 2
}

// expect computes the combination of one pixel in float64. Where a value is so close to a clipping bound that rounding
// decides, or where the rule rejects everything, ok is false and only the range is prescribed.
func expect(mode stack.StackMode, in []float32, weights []float32, sl, sh float64) (res float64, ok bool) {
	var v, w []float64
	big := 0.0
	for i, x := range in {
		if !math.IsNaN(float64(x)) {
			v = append(v, float64(x))
			big = math.Max(big, math.Abs(float64(x)))
			if weights != nil {
				w = append(w, float64(weights[i]))
			} else {
				w = append(w, 1)
			}
		}
	}
	if len(v) == 0 {
		return 0, true
	}
	eps := 2e-5 * big
	avg := func() float64 {
		s, ws := 0.0, 0.0
		for i := range v {
			s, ws = s+v[i]*w[i], ws+w[i]
		}
		return s / ws
	}
	clip := func(lo, hi, eps float64) (n int, amb bool) {
		var v2, w2 []float64
		for i, x := range v {
			if math.Abs(x-lo) <= eps || math.Abs(x-hi) <= eps {
				amb = true
			}
			if x < lo || x > hi {
				n++
			} else {
				v2, w2 = append(v2, x), append(w2, w[i])
			}
		}
		v, w = v2, w2
		return n, amb
	}
	switch mode {
	case stack.StMedian:
		return median(v), true
	case stack.StMean:
		return avg(), true
	case stack.StSigma, stack.StWinsorSigma:
		for {
			m := median(v)
			_, sd := meanSD(v)
			if sd == 0 {
				return v[0], true
			}
			e := eps
			if mode == stack.StWinsorSigma {
				ws := append([]float64(nil), v...)
				for k := 0; ; k++ {
					changed := false
					for i, x := range ws {
						if x < m-1.5*sd {
							ws[i], changed = m-1.5*sd, true
						} else if x > m+1.5*sd {
							ws[i], changed = m+1.5*sd, true
						}
					}
					old := sd
					_, sd = meanSD(ws)
					sd *= 1.134
					if !changed || math.Abs(sd-old)/old <= 0.0005 || k > 10000 {
						break
					}
				}
				e = eps + 2e-3*sd*math.Max(math.Abs(sl), math.Abs(sh))
			}
			n, amb := clip(m-sl*sd, m+sh*sd, e)
			if amb || len(v) == 0 {
				return 0, false
			}
			if n == 0 || len(v) <= 1 {
				return avg(), true
			}
		}
	case stack.StMADSigma:
		m := median(v)
		ad := make([]float64, len(v))
		for i, x := range v {
			ad[i] = math.Abs(x - m)
		}
		sd := 1.4826 * median(ad)
		e := eps
		if sd == 0 { // then exactly the median remains
			e = 0
			sl, sh = 0, 0
			for _, x := range v {
				if x != m && math.Abs(x-m) <= eps {
					return 0, false
				}
			}
			n := 0
			for _, x := range v {
				if x == m {
					n++
				}
			}
			return m, n > 0
		}
		if _, amb := clip(m-sl*sd, m+sh*sd, e); amb || len(v) == 0 {
			return 0, false
		}
		return avg(), true
	case stack.StLinearFit: // does not use weights
		for i := range w {
			w[i] = 1
		}
		for {
			sort.Float64s(v)
			_, sdy := meanSD(v)
			if sdy == 0 || len(v) < 3 {
				return avg(), true
			}
			xs := make([]float64, len(v))
			for i := range xs {
				xs[i] = float64(i)
			}
			xm, xsd := meanSD(xs)
			ym, _ := meanSD(v)
			cov := 0.0
			for i := range v {
				cov += (xs[i] - xm) * (v[i] - ym)
			}
			cov /= float64(len(v))
			slope := cov / xsd / xsd
			ic := ym - slope*xm
			dev := 0.0
			for i, x := range v {
				dev += math.Abs(x - ic - slope*float64(i))
			}
			dev /= float64(len(v))
			var v2 []float64
			for i, x := range v {
				d := x - ic - slope*float64(i)
				if math.Abs(-d-sl*dev) <= 3*eps || math.Abs(d-sh*dev) <= 3*eps {
					return 0, false
				}
				if -d <= sl*dev && d <= sh*dev {
					v2 = append(v2, x)
				}
			}
			if len(v2) == len(v) {
				return avg(), true
			}
			if len(v2) == 0 {
				return 0, false
			}
			v, w = v2, w[:len(v2)]
			if len(v) < 3 {
				return avg(), true
			}
		}
	}
	panic("mode")
}

var modeNames = []string{"median", "mean", "sigma", "winsorised sigma", "MAD sigma", "linear fit", "auto"}

func frames(vecs [][]float32, width int) []*fits.Image {
	n := len(vecs[0])
	fs := make([]*fits.Image, n)
	for k := range fs {
		d := make([]float32, len(vecs))
		for i, v := range vecs {
			d[i] = v[k]
		}
		f := fits.NewImageFromNaxisn([]int32{int32(width), int32(len(vecs) / width)}, d)
		f.ID = k
		f.Exposure = exposures[k%len(exposures)]
		f.HFR = hfrs[k%len(hfrs)]
		f.Stats = stats.NewStats(f.Data, f.Naxisn[0])
		fs[k] = f
	}
	return fs
}

var exposures = []float32{1, 4, 2, 10, 0.5, 3, 7}
var hfrs = []float32{2, 5, 3, 2.5, 9, 2}

// weightsFor gives the weights the weighting stands for.
func weightsFor(fs []*fits.Image, w stack.StackWeighting) []float32 {
	if w == stack.StWeightNone {
		return nil
	}
	x := make([]float64, len(fs))
	lo, hi := math.Inf(1), math.Inf(-1)
	for i, f := range fs {
		switch w {
		case stack.StWeightExposure:
			x[i] = float64(f.Exposure)
		case stack.StWeightInverseNoise:
			x[i] = float64(stats.NewStats(f.Data, f.Naxisn[0]).Noise())
		default:
			x[i] = float64(f.HFR)
		}
		lo, hi = math.Min(lo, x[i]), math.Max(hi, x[i])
	}
	r := make([]float32, len(fs))
	for i := range r {
		if w == stack.StWeightExposure {
			r[i] = float32(x[i])
		} else if hi > lo {
			r[i] = float32(1 / (1 + 4*(x[i]-lo)/(hi-lo)))
		} else {
			r[i] = 1
		}
	}
	return r
}

func ctx() *ops.Context {
	stats.LSEstimator = stats.LSEMeanStdDev
	c := ops.NewContext(io.Discard, 100, stats.LSEMeanStdDev)
	c.MaxThreads = 2
	return c
}

var decided, open int64

func judge(mode stack.StackMode, vecs [][]float32, res []float32, weights []float32, sl, sh float64) error {
	for i, v := range vecs {
		lo, hi, big := math.Inf(1), math.Inf(-1), 0.0
		for _, x := range v {
			if x == x {
				lo, hi, big = math.Min(lo, float64(x)), math.Max(hi, float64(x)), math.Max(big, math.Abs(float64(x)))
			}
		}
		if math.IsInf(lo, 1) {
			lo, hi = 0, 0
		}
		r := float64(res[i])
		tol := 2e-6*big + 1e-30
		if !(r >= lo-tol && r <= hi+tol) {
			return vx.Fail("range", "pixel %d with values %v stacks to %g, outside of their range", i, v, r)
		}
		want, ok := expect(mode, v, weights, sl, sh)
		if !ok {
			atomic.AddInt64(&open, 1)
			continue
		}
		atomic.AddInt64(&decided, 1)
		if math.Abs(r-want) > 1e-5*big {
			return vx.Fail("value", "pixel %d with values %v weights %v stacks to %g instead of %g", i, v, weights, r, want)
		}
	}
	return nil
}

// run stacks and judges
func run(mode stack.StackMode, wt stack.StackWeighting, sl, sh float32, vecs [][]float32, width int) (res []float32, err error) {
	fs := frames(vecs, width)
	exp := float32(0)
	var keep [][]float32
	for _, f := range fs {
		exp += f.Exposure
		keep = append(keep, append([]float32(nil), f.Data...))
	}
	weights := weightsFor(fs, wt)
	r, err := stack.NewOpStack(mode, wt, sl, sh).Apply(fs, ctx())
	if err != nil {
		if mode == stack.StMADSigma && wt != stack.StWeightNone {
			return nil, nil
		}
		return nil, vx.Fail("refused", "%v", err)
	}
	if len(r.Data) != len(vecs) || fmt.Sprint(r.Naxisn) != fmt.Sprint(fs[0].Naxisn) || math.Abs(float64(r.Exposure-exp)) > 1e-5*float64(exp) {
		return nil, vx.Fail("frame", "result has %d pixels %v and exposure %g instead of %d %v and %g", len(r.Data), r.Naxisn, r.Exposure, len(vecs), fs[0].Naxisn, exp)
	}
	for i, f := range fs {
		if !fx.SameBits(f.Data, keep[i]) {
			return nil, vx.Fail("input", "stacking changed input frame %d", i)
		}
	}
	m := mode
	if mode == stack.StAuto {
		m = stack.StMean
		if len(fs) >= 6 {
			m = stack.StSigma
		}
		if len(fs) >= 15 {
			m = stack.StWinsorSigma
		}
		if len(fs) >= 25 {
			m = stack.StLinearFit
		}
	}
	return r.Data, judge(m, vecs, r.Data, weights, float64(sl), float64(sh))
}

// scaled: pixel values in other units, by a power of two, give the result in these units.
func scaled(mode stack.StackMode, wt stack.StackWeighting, sl, sh float32, vecs [][]float32, width int, plain []float32, k float32) error {
	v := make([][]float32, len(vecs))
	for i := range v {
		v[i] = make([]float32, len(vecs[i]))
		for j, x := range vecs[i] {
			v[i][j] = x * k
		}
	}
	r, err := stack.NewOpStack(mode, wt, sl, sh).Apply(frames(v, width), ctx())
	if err != nil {
		if plain == nil {
			return nil
		}
		return vx.Fail("scaled", "values times %g: %v", k, err)
	}
	for i, x := range r.Data {
		if plain != nil && math.Abs(float64(x)-float64(plain[i]*k)) > 2e-6*math.Abs(float64(x))+1e-12 && plain[i] == plain[i] {
			return vx.Fail("scaled", "values %v stack to %g, but values times %g to %g times that number", vecs[i], plain[i], k, x/k)
		}
	}
	return nil
}

// schedules: the result of a tiny stack must not depend on the interleaving of its workers
func jobs() (js []sx.Job) {
	for mode := stack.StMedian; mode <= stack.StLinearFit; mode++ {
		for _, wt := range []stack.StackWeighting{stack.StWeightNone, stack.StWeightExposure} {
			if mode == stack.StMADSigma && wt != stack.StWeightNone {
				continue
			}
			for px := 1; px <= 3; px++ {
				mode, wt, px := mode, wt, px
				js = append(js, sx.Job{Name: fmt.Sprintf("%s, weighting %d, %d pixels, 2 processors", modeNames[mode], wt, px), Preempt: deep(2, 1), OneOutcome: true,
					Setup: func() (func(), func() (string, error)) {
						vecs := [][]float32{{1, 2, 50, 2.5}, {nan, 7, 7, -20}, {nan, nan, nan, nan}}[:px]
						fs := frames(vecs, px)
						weights := weightsFor(fs, wt)
						var ps []ops.Promise
						for i := range fs {
							i := i
							ps = append(ps, func() (*fits.Image, error) { vsched.Yield(); return fs[i], nil })
						}
						ps, err := stack.NewOpStack(mode, wt, 1.2, 1.2).MakePromises(ps, ctx())
						var r *fits.Image
						body := func() {
							if err == nil {
								r, err = ps[0]()
							}
						}
						return body, func() (string, error) {
							if err != nil {
								return "", err
							}
							return fmt.Sprint(r.Data), judge(mode, vecs, r.Data, weights, 1.2, 1.2)
						}
					}})
			}
		}
	}
	return js
}

func main() {
	js := jobs()
	if sx.Worker(js) {
		return
	}
	vx.Main("P17", "model_checking", func(c *vx.C) {
		stats.LSEstimator = stats.LSEMeanStdDev
		type set struct {
			name  string
			n     int
			alpha []float32
		}
		sets := []set{{"a", 1, nil}, {"a", 2, nil}, {"a", 3, nil}, {"a", 4, nil}, {"a", 5, nil}, {"b", 6, nil}, {"b", 7, nil}, {"c", 8, nil}, {"c", 9, nil}}
		if c.Thorough {
			sets = append(sets, set{"a", 6, nil}, set{"b", 8, nil}, set{"c", 11, nil})
		}
		alphas := map[string][]float32{"a": {nan, 0, 1, 2, 10, -7}, "b": {nan, 1, 2, 50}, "c": {1, 2, 50}}
		sig := [][2]float32{{2.75, 2.75}, {1, 1}, {1.3, 1.3}, {0.5, 0.5}, {1.5, 3}, {3, 1.5}, {0.3, 2}}
		c.Bound("per-pixel values: every sequence of length 1..5 over %v, 6..7 over %v, 8..9 over %v (thorough: one longer each), all in one image; 7 modes x 4 weightings x sigmas %v", alphas["a"], alphas["b"], alphas["c"], sig)
		type task struct {
			s    set
			mode stack.StackMode
			wt   stack.StackWeighting
			sg   [2]float32
		}
		var ts []task
		for _, s := range sets {
			s.alpha = alphas[s.name]
			for m := stack.StMedian; m <= stack.StAuto; m++ {
				for wt := stack.StWeightNone; wt <= stack.StWeightInverseHFR; wt++ {
					for k, sg := range sig {
						if k > 0 && m < stack.StSigma {
							continue
						}
						ts = append(ts, task{s, m, wt, sg})
					}
				}
			}
		}
		c.Shards("values", len(ts), func(s *vx.S) {
			t := ts[s.ID]
			s.Check(func() string {
				return fmt.Sprintf("%d frames over %v, mode %s, weighting %d, sigmas %v", t.s.n, t.s.alpha, modeNames[t.mode], t.wt, t.sg)
			}, func() error {
				var vecs [][]float32
				fx.Vectors(t.s.n, len(t.s.alpha), func(v []int) {
					x := make([]float32, len(v))
					for i, k := range v {
						x[i] = t.s.alpha[k]
					}
					vecs = append(vecs, x)
				})
				w := len(t.s.alpha)
				if len(vecs)/w < 3 || t.wt == stack.StWeightInverseNoise {
					// a real two-dimensional image for the noise estimate, with finite noise in each frame
					for len(vecs) < 3*w || len(vecs)%w != 0 {
						vecs = append(vecs, vecs[len(vecs)%7%len(vecs)])
					}
				}
				r, err := run(t.mode, t.wt, t.sg[0], t.sg[1], vecs, w)
				s.Outcome(vx.HashF(r))
				s.States(len(vecs))
				s.Transitions(len(vecs))
				if err == nil {
					err = scaled(t.mode, t.wt, t.sg[0], t.sg[1], vecs, w, r, 1./8192)
				}
				if err == nil && c.Thorough {
					err = scaled(t.mode, t.wt, t.sg[0], t.sg[1], vecs, w, r, 512)
				}
				return err
			})
		})
		c.Bound("10..40 frames: every position of one outlier, every pair of a high and a low outlier, and missing prefixes, over three base patterns")
		c.Shards("many frames", 31, func(s *vx.S) {
			n := 10 + s.ID
			var vecs [][]float32
			for base := 0; base < 3; base++ {
				mk := func() []float32 {
					v := make([]float32, n)
					for i := range v {
						switch base {
						case 0:
							v[i] = 100 + float32((i*7)%11)*0.37
						case 1:
							v[i] = 5
						default:
							v[i] = float32((i*i)%23) - 3
						}
					}
					return v
				}
				for a := 0; a < n; a++ {
					v := mk()
					v[a] = 1e4
					vecs = append(vecs, v)
					for b := 0; b < n; b += 3 {
						if a != b {
							u := append([]float32(nil), v...)
							u[b] = -300
							vecs = append(vecs, u)
						}
					}
					u := mk()
					for b := 0; b <= a; b++ {
						u[b] = nan
					}
					vecs = append(vecs, u)
				}
			}
			for m := stack.StMedian; m <= stack.StAuto; m++ {
				for wt := stack.StWeightNone; wt <= stack.StWeightInverseHFR; wt++ {
					for _, sg := range [][2]float32{{2.75, 2.75}, {1.5, 2}} {
						if wt == stack.StWeightInverseNoise {
							continue
						}
						s.Check(func() string {
							return fmt.Sprintf("%d frames, mode %s, weighting %d, sigmas %v", n, modeNames[m], wt, sg)
						}, func() error {
							r, err := run(m, wt, sg[0], sg[1], vecs, 1)
							s.Outcome(vx.HashF(r))
							if err == nil {
								err = scaled(m, wt, sg[0], sg[1], vecs, 1, r, 1./65536)
							}
							return err
						})
					}
				}
			}
		})
		c.Bound("the same pixel values in images of every size 1x1..40x1, 1x40 and 7x1..7x9: identical results wherever a pixel lies")
		c.Shards("image sizes", 7, func(s *vx.S) {
			mode := stack.StackMode(s.ID)
			pal := [][]float32{{1, 2, 50, 2.5, nan}, {nan, 7, 7, -20, 6}, {nan, nan, nan, nan, nan}, {3, 3, 3, 3, 3}, {0, 1, 2, 3, 400}}
			base := map[int]float32{}
			for shape := 0; shape < 3; shape++ {
				for n := 1; n <= 40; n++ {
					w, h := n, 1
					if shape == 1 {
						w, h = 1, n
					} else if shape == 2 {
						w, h = 7, n
					}
					for rot := 0; rot < len(pal); rot++ {
						s.Check(func() string { return fmt.Sprintf("mode %s, %dx%d pixels, rotation %d", modeNames[mode], w, h, rot) }, func() error {
							vecs := make([][]float32, w*h)
							for i := range vecs {
								vecs[i] = pal[(i+rot)%len(pal)]
							}
							r, err := run(mode, stack.StWeightNone, 1.2, 1.2, vecs, w)
							if err != nil {
								return err
							}
							s.Outcome(vx.HashF(r))
							for i, v := range r {
								k := (i + rot) % len(pal)
								if b, ok := base[k]; ok && b != v {
									return vx.Fail("position", "values %v stack to %g at pixel %d of %dx%d, but %g elsewhere", pal[k], v, i, w, h, b)
								}
								base[k] = v
							}
							return nil
						})
					}
				}
			}
		})
		lsz := [][3]int{{301, 257, 6}, {70003, 1, 5}, {3, 25003, 9}, {50, 10, 70}, {50, 10, 130}, {50, 10, 300}}
		c.Bound("large images and many frames (width, height, frames) %v in every mode, unweighted and weighted by exposure", lsz)
		c.Shards("large", len(lsz)*7*2, func(s *vx.S) {
			z, mode, wt := lsz[s.ID%len(lsz)], stack.StackMode(s.ID/len(lsz)%7), stack.StackWeighting(s.ID/len(lsz)/7)
			w, h, n := z[0], z[1], z[2]
			s.Check(func() string {
				return fmt.Sprintf("%d frames of %dx%d pixels, mode %s, weighting %d", n, w, h, modeNames[mode], wt)
			}, func() error {
				pal := make([][]float32, 499)
				for i := range pal {
					pal[i] = make([]float32, n)
					for k := range pal[i] {
						pal[i][k] = float32((i*31+k*k*17+k*7)%101) / 4
						if (i*7+k*13)%29 == 0 {
							pal[i][k] = nan
						}
					}
					if i%5 == 0 {
						pal[i][i%n] = 1000
					}
				}
				vecs := make([][]float32, w*h)
				for i := range vecs {
					vecs[i] = pal[i%len(pal)]
				}
				r, err := run(mode, wt, 2, 2, vecs, w)
				s.Outcome(vx.HashF(r))
				return err
			})
		})
		c.Bound("images of a megapixel in every mode, unweighted and weighted by exposure: the same values give the same result at every position")
		c.Shards("megapixel", 7*2, func(s *vx.S) {
			mode, wt := stack.StackMode(s.ID%7), stack.StackWeighting(s.ID/7)
			w, h, n, period := 1009, 991, 4, 499
			s.Check(func() string { return fmt.Sprintf("%d frames of %dx%d pixels, mode %s, weighting %d", n, w, h, modeNames[mode], wt) }, func() error {
				vecs := make([][]float32, w*h)
				for i := range vecs {
					v := make([]float32, n)
					for k := range v {
						v[k] = float32((i%period*31+k*k*17+k*7)%101) / 4
						if (i%period*7+k*13)%29 == 0 {
							v[k] = nan
						}
					}
					vecs[i] = v
				}
				r, err := run(mode, wt, 2, 2, vecs[:period], period)
				if err != nil || r == nil {
					return err
				}
				fs := frames(vecs, w)
				f, err := stack.NewOpStack(mode, wt, 2, 2).Apply(fs, ctx())
				if err != nil {
					return vx.Fail("error", "%v", err)
				}
				for i, v := range f.Data {
					want := r[i%period]
					if v != want && !(v != v && want != want) && math.Abs(float64(v-want)) > 1e-5*math.Abs(float64(want)) {
						return vx.Fail("position", "pixel %d: values %v stack to %g, but %g elsewhere", i, vecs[i], v, want)
					}
				}
				s.Outcome(vx.HashF(r))
				return nil
			})
		})
		c.Bound("unusable inputs: no frames, only dropped frames, different sizes, missing exposure, HFR or noise, unknown mode or weighting: an error, never a crash; single frames and equal weights for every mode and weighting")
		c.Shards("unusable", 9, func(s *vx.S) {
			mode := stack.StackMode(s.ID - 1)
			for wt := stack.StWeightNone; wt <= stack.StWeightInverseHFR+1; wt++ {
				for k := 0; k < 8; k++ {
					s.Check(func() string { return fmt.Sprintf("mode %d, weighting %d, case %d", mode, wt, k) }, func() error {
						vecs := [][]float32{{1, 2, 3}, {4, 5, 6}, {9, 8, 7}, {1, 1, 1}, {2, 2, 2}, {6, 4, 5}, {7, 1, 3}, {5, 5, 9}, {2, 1, 8}, {4, 4, 1}, {0, 3, 3}, {8, 2, 2}}
						fs := frames(vecs, 3)
						bad := mode < 0 || mode > stack.StAuto || wt > stack.StWeightInverseHFR || mode == stack.StMADSigma && wt != stack.StWeightNone
						loose := false // may be accepted or refused
						switch k {
						case 0:
							fs, bad = nil, true
						case 1:
							fs = fs[:1]
						case 2: // other shape
							fs[1] = frames([][]float32{{1, 2}, {3, 4}, {5, 6}, {7, 8}}, 2)[1]
							bad = true
						case 3: // bigger
							fs[2] = frames(append(vecs, vecs...), 3)[0]
							bad = true
						case 4: // smaller
							fs[0] = frames(vecs[:9], 3)[0]
							bad = true
						case 5:
							fs[1].Exposure, fs[1].HFR = 0, nan
							bad = bad || wt == stack.StWeightExposure || wt == stack.StWeightInverseHFR
						case 6:
							for _, f := range fs {
								f.Exposure, f.HFR = 3, 3
							}
						case 7:
							for i := range fs[2].Data {
								fs[2].Data[i] = nan
							}
							fs[2].Stats = stats.NewStats(fs[2].Data, 3)
							loose = wt == stack.StWeightInverseNoise
						}
						r, err := stack.NewOpStack(mode, wt, 2, 2).Apply(fs, ctx())
						s.Outcome(vx.Hash(mode, wt, k, err == nil))
						if err != nil {
							if !bad && !loose {
								return vx.Fail("refused", "%v", err)
							}
							return nil
						}
						if bad {
							return vx.Fail("accepted", "unusable input was stacked")
						}
						for i, x := range r.Data {
							lo, hi := math.Inf(1), math.Inf(-1)
							for _, f := range fs {
								if v := float64(f.Data[i]); v == v {
									lo, hi = math.Min(lo, v), math.Max(hi, v)
								}
							}
							if !(float64(x) >= lo-1e-5 && float64(x) <= hi+1e-5) {
								return vx.Fail("range", "pixel %d is %g, its inputs are in [%g,%g]", i, x, lo, hi)
							}
						}
						return nil
					})
				}
			}
		})
		sx.Phase(c, "schedules", js, 5)
		c.Note("pixels judged by value: %d, by range only because rounding decides a rejection or everything is rejected: %d", atomic.LoadInt64(&decided), atomic.LoadInt64(&open))
	})
}

// deep picks the preemption bound by tier.
func deep(thorough, quick int) int {
	for _, a := range os.Args {
		if a == "thorough" {
			return thorough
		}
	}
	return quick
}
