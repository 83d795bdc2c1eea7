package main

import (
	"fmt"
	"io"
	"math"
	"sort"

	"github.com/mlnoga/nightlight/internal/fits"
	"github.com/mlnoga/nightlight/internal/ops"
	"github.com/mlnoga/nightlight/internal/ops/pre"
	"github.com/mlnoga/nightlight/internal/stats"
	"github.com/mlnoga/nightlight/internal/zzverif/fx"
	"github.com/mlnoga/nightlight/internal/zzverif/vx"
)

type params struct {
	perc   float32
	window int32
	sigma  float32
}

func (p params) neutral() bool { return p.perc <= 0 || p.perc >= 100 || p.window <= 0 }

func deband(d []float32, w int, p params, vert bool, known bool) (*fits.Image, error) {
	f := fits.NewImageFromNaxisn([]int32{int32(w), int32(len(d) / w)}, append([]float32(nil), d...))
	f.ID, f.Exposure = 3, 1.5
	f.Stats = stats.NewStats(f.Data, int32(w))
	if known {
		f.Stats.Location()
		f.Stats.Max()
	}
	c := ops.NewContext(io.Discard, 100, stats.LSEMeanStdDev)
	var r *fits.Image
	var err error
	if vert {
		r, err = pre.NewOpDebandVert(p.perc, p.window, p.sigma).Apply(f, c)
	} else {
		r, err = pre.NewOpDebandHoriz(p.perc, p.window, p.sigma).Apply(f, c)
	}
	if err != nil || r != f || r.ID != 3 || r.Exposure != 1.5 || len(r.Data) != len(d) || !fx.EqI32(r.Naxisn, int32(w), int32(len(d)/w)) {
		return nil, vx.Fail("result", "result %v error %v", r, err)
	}
	return r, nil
}

func transpose(d []float32, w int) []float32 {
	h := len(d) / w
	t := make([]float32, len(d))
	for i, v := range d {
		t[i%w*h+i/w] = v
	}
	return t
}

func median(v []float64) float64 {
	s := append([]float64(nil), v...)
	sort.Float64s(s)
	n := len(s)
	if n%2 == 1 {
		return s[n/2]
	}
	return (s[n/2-1] + s[n/2]) / 2
}

// percentiles returns the percentile of the background pixels of each row, NaN for rows without any.
func percentiles(d []float32, w int, p params, threshold float64) []float64 {
	out := make([]float64, len(d)/w)
	for r := range out {
		var v []float64
		for _, x := range d[r*w : r*w+w] {
			if float64(x) <= threshold {
				v = append(v, float64(x))
			}
		}
		if len(v) == 0 {
			out[r] = math.NaN()
			continue
		}
		sort.Float64s(v)
		k := int(float32(len(v)) * p.perc * 0.01) // k-th lowest
		if k < 1 {
			k = 1
		}
		out[r] = v[k-1]
	}
	return out
}

func run(s *vx.S, d []float32, w int, p params, known bool) error {
	f, err := deband(d, w, p, false, known)
	if err != nil {
		return err
	}
	out := f.Data
	s.Outcome(vx.HashF(out))
	g, err := deband(transpose(d, w), len(d)/w, p, true, known)
	if err != nil {
		return err
	}
	if !fx.SameBits(g.Data, transpose(out, w)) {
		return vx.Fail("transpose", "rows give %v, columns of the transposed image give %v", out, g.Data)
	}
	for i, v := range out {
		if math.IsNaN(float64(v)) || math.IsInf(float64(v), 0) {
			return vx.Fail("finite", "pixel %d became %g: %v", i, v, out)
		}
	}
	// the same image in other units
	const u = float32(1) / 16384
	e := make([]float32, len(d))
	for i, v := range d {
		e[i] = v * u
	}
	if q, err := deband(e, w, p, false, known); err != nil {
		return err
	} else {
		for i := range q.Data {
			if q.Data[i] != out[i]*u {
				return vx.Fail("units", "pixels become %v, but with all values divided by 16384 %v", out, q.Data)
			}
		}
	}
	if p.neutral() {
		if !fx.SameBits(out, d) {
			return vx.Fail("neutral", "pixels became %v", out)
		}
		return nil
	}
	st := stats.NewStats(append([]float32(nil), d...), int32(w))
	threshold := math.Inf(1)
	if p.sigma != 0 {
		threshold = float64(st.Location() + p.sigma*st.Scale())
	}
	ps := percentiles(d, w, p, threshold)
	h := len(ps)
	mag := 0.0
	for _, v := range d {
		mag = math.Max(mag, math.Abs(float64(v)))
	}
	same := true
	for _, v := range ps {
		same = same && (v == ps[0])
	}
	for r := 0; r < h; r++ {
		in, o := d[r*w:r*w+w], out[r*w:r*w+w]
		// one factor per row
		factor := math.NaN()
		for i, v := range in {
			if v == 0 {
				if o[i] != 0 {
					return vx.Fail("factor", "pixel %d of row %d was zero, became %g", i, r, o[i])
				}
				continue
			}
			q := float64(o[i]) / float64(v)
			if math.IsNaN(factor) {
				factor = q
			}
			if math.Abs(q-factor) > 1e-5*math.Abs(factor) || q <= 0 {
				return vx.Fail("factor", "row %d: %v became %v", r, in, o)
			}
		}
		if math.IsNaN(factor) {
			continue // all zero
		}
		if same && ps[r] != 0 {
			if !fx.SameBits(in, o) {
				return vx.Fail("band-free", "row percentiles are all %g, but row %d changed from %v to %v", ps[0], r, in, o)
			}
			continue
		}
		if math.IsNaN(ps[r]) || ps[r] == 0 { // no background or nothing that a factor could correct
			if !fx.SameBits(in, o) {
				return vx.Fail("no-background", "row %d without positive background changed from %v to %v", r, in, o)
			}
			continue
		}
		win := int(p.window)
		if win > h {
			win = h
		}
		lo := r - win/2
		hi := lo + win
		if lo >= 0 && hi <= h { // interior: the target is the median of the window
			want, all := median(ps[lo:hi])/ps[r], true
			for _, q := range ps[lo:hi] {
				all = all && !math.IsNaN(q)
			}
			if !(want > 0) {
				want = 1 // no sensible correction
			}
			if all && math.Abs(factor-want) > 2e-5*want {
				return vx.Fail("target", "row percentiles %v: row %d was multiplied by %g, expected %g", ps, r, factor, want)
			}
		}
	}
	again := stats.NewStats(append([]float32(nil), out...), int32(w))
	if math.Abs(float64(f.Stats.Max()-again.Max())) > 1e-5*math.Abs(float64(again.Max())) || math.Abs(float64(f.Stats.Location()-again.Location())) > 1e-5*mag {
		return vx.Fail("stats", "maximum %g location %g reported, pixels %v", f.Stats.Max(), f.Stats.Location(), out)
	}
	return nil
}

func main() {
	vx.Main("P28", "model_checking", func(c *vx.C) {
		stats.LSEstimator = stats.LSEMeanStdDev
		var ps []params
		for _, perc := range []float32{0, 1, 25, 50, 60, 99, 100} {
			for _, win := range []int32{-1, 0, 1, 2, 3, 4, 5, 6, 128} {
				for _, sg := range []float32{-0.5, 0, 0.5, 3} {
					if (perc == 0 || perc == 100 || win <= 0) && sg != 3 {
						continue
					}
					ps = append(ps, params{perc, win, sg})
				}
			}
		}
		type shape struct{ w, h, k int }
		shapes := []shape{{1, 2, 5}, {2, 1, 5}, {1, 3, 5}, {3, 1, 5}, {1, 5, 4}, {2, 3, 4}, {3, 2, 4}, {2, 4, 3}, {3, 3, 2}}
		if c.Thorough {
			shapes = append(shapes, shape{3, 3, 3}, shape{1, 7, 4}, shape{2, 5, 3}, shape{5, 2, 3}, shape{4, 3, 2})
		}
		alpha := []float32{10, 12, 30, 0, -5}
		c.Shards("all", len(shapes)*len(ps), func(s *vx.S) {
			sh, p := shapes[s.ID/len(ps)], ps[s.ID%len(ps)]
			n := sh.w * sh.h
			known := 0
			fx.Vectors(n, sh.k, func(v []int) {
				d := make([]float32, n)
				for i := range d {
					d[i] = alpha[v[i]]
				}
				known++
				kn := known%2 == 0
				s.States(1)
				s.Check(func() string { return fmt.Sprintf("%+v on %dx%d image %v", p, sh.w, sh.h, d) }, func() error { return run(s, d, sh.w, p, kn) })
			})
		})
		c.Bound("%d parameter combinations x all images of %d sizes over 2 to 5 values", len(ps), len(shapes))

		// a row with an offset in an otherwise band-free image
		heights := []int{3, 4, 5, 6, 8, 11, 16}
		c.Shards("single-row", len(heights)*len(ps), func(s *vx.S) {
			h, p := heights[s.ID/len(ps)], ps[s.ID%len(ps)]
			if p.neutral() {
				return
			}
			for _, w := range []int{1, 4, 7} {
				for row := 0; row < h; row++ {
					for _, factor := range []float32{0.5, 0.9, 1.25, 2} {
						for star := -1; star < w*h; star += 3 {
							d := make([]float32, w*h)
							for i := range d {
								d[i] = 64 + float32(i%w)
								if i/w == row {
									d[i] *= factor
								}
								if i == star {
									d[i] = 3000
								}
							}
							if star >= 0 && (p.sigma != 0.5 || w < 4) {
								continue
							}
							s.States(1)
							what := func() string {
								return fmt.Sprintf("%+v on %dx%d image with row %d times %g and star at %d", p, w, h, row, factor, star)
							}
							s.Check(what, func() error {
								if err := run(s, d, w, p, row%2 == 0); err != nil {
									return err
								}
								if p.window < 6 || h < 6 || p.sigma != 0 || star >= 0 {
									return nil
								}
								f, err := deband(d, w, p, false, false)
								if err != nil {
									return err
								}
								for i, v := range f.Data {
									if math.Abs(float64(v)-float64(64+i%w)) > 0.01 {
										return vx.Fail("not-removed", "row percentiles differ, but pixel %d is %g after debanding: %v", i, v, f.Data)
									}
								}
								return nil
							})
						}
					}
				}
			}
		})

		// sizes of real frames
		c.Bound("large images up to 300x260, 9x5001 and 5001x9 with bands and stars, windows 8..512")
		c.Shards("large", 24, func(s *vx.S) {
			wh := [][2]int{{300, 260}, {9, 5001}, {5001, 9}}[s.ID%3]
			w, h := wh[0], wh[1]
			p := params{[]float32{50, 60}[s.ID/3%2], []int32{8, 33, 128, 512}[s.ID/6], []float32{3, 0.5}[s.ID/3%2]}
			d := make([]float32, w*h)
			for i := range d {
				d[i] = (1000 + float32(i*7919%97)) * (1 + float32(i/w*31%11)/50)
				if i*104729%1013 == 0 {
					d[i] += 5000
				}
			}
			s.Check(func() string { return fmt.Sprintf("%+v on %dx%d image", p, w, h) }, func() error { return run(s, d, w, p, s.ID%2 == 0) })
		})

		// a linear gradient across the rows is no banding
		c.Shards("gradient", len(heights), func(s *vx.S) {
			h := heights[s.ID]
			for _, slope := range []float32{-4, -1, 0.5, 3} {
				for _, win := range []int32{2, 3, 4, 5, 6, 7, 8, 9, 12, 128} {
					for _, w := range []int{1, 3} {
						p := params{50, win, 0}
						d := make([]float32, w*h)
						for i := range d {
							d[i] = 1000 + slope*float32(i/w)
						}
						s.States(1)
						s.Check(func() string { return fmt.Sprintf("%+v on %dx%d image with slope %g per row", p, w, h, slope) }, func() error {
							if err := run(s, d, w, p, false); err != nil {
								return err
							}
							f, err := deband(d, w, p, false, false)
							if err != nil {
								return err
							}
							for i, v := range f.Data {
								// half a row where the window cannot be centered, half a row in the extrapolation
								if math.Abs(float64(v-d[i])) > 1.01*math.Abs(float64(slope))+1e-3 {
									return vx.Fail("gradient", "row %d changed from %g to %g: %v", i/w, d[i], v, f.Data)
								}
							}
							return nil
						})
					}
				}
			}
		})
	})
}
