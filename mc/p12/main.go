package main

import (
	"fmt"
	"io"
	"math"
	"os"
	"path/filepath"
	"sort"

	"github.com/mlnoga/nightlight/internal/fits"
	"github.com/mlnoga/nightlight/internal/ops"
	"github.com/mlnoga/nightlight/internal/ops/pre"
	"github.com/mlnoga/nightlight/internal/star"
	"github.com/mlnoga/nightlight/internal/stats"
	"github.com/mlnoga/nightlight/internal/zzverif/fx"
	"github.com/mlnoga/nightlight/internal/zzverif/vx"
)

type cfg struct {
	w, h        int
	grid        int32
	sigma       float32
	clip        int32
	hfrF        float32
	stars       []star.Star
	save        string
	planes      int
	description string
}

func (c cfg) String() string {
	s := ""
	for _, t := range c.stars {
		s += fmt.Sprintf(" (%g,%g) hfr %g", t.X, t.Y, t.HFR)
	}
	return fmt.Sprintf("%dx%d grid %d sigma %g clip %d hfrFactor %g stars[%s]", c.w, c.h, c.grid, c.sigma, c.clip, c.hfrF, s)
}

func extract(k cfg, d []float32) (*fits.Image, error) {
	f := fits.NewImageFromNaxisn([]int32{int32(k.w), int32(k.h)}, append([]float32(nil), d...))
	f.ID = 4
	f.Stats = stats.NewStats(f.Data, int32(k.w))
	f.Stars = k.stars
	return pre.NewOpBackExtract(k.grid, k.hfrF, k.sigma, k.clip, k.save).Apply(f, ops.NewContext(io.Discard, 100, stats.LSEMeanStdDev))
}

// model extracts the background and checks what must hold for every image: size, finite values, original minus a smooth model
// whose values do not leave the range of the image by more than extrapolating half a cell can.
func model(k cfg, d []float32, s *vx.S) ([]float64, error) {
	f, err := extract(k, d)
	if err != nil {
		return nil, vx.Fail("error", "%v: %v", k, err)
	}
	if !fx.EqI32(f.Naxisn, int32(k.w), int32(k.h)) || len(f.Data) != len(d) {
		return nil, vx.Fail("dims", "%v: result is %v with %d pixels", k, f.Naxisn, len(f.Data))
	}
	if f.ID != 4 {
		return nil, vx.Fail("meta", "%v: frame number changed to %d", k, f.ID)
	}
	if s != nil {
		s.Outcome(vx.HashF(f.Data))
	}
	// the same image in other units
	const u = float32(1) / 16384
	e := make([]float32, len(d))
	for i, v := range d {
		e[i] = v * u
	}
	if g, err := extract(k, e); err != nil {
		return nil, vx.Fail("error", "%v with all values divided by 16384: %v", k, err)
	} else {
		for i := range g.Data {
			if g.Data[i] != f.Data[i]*u {
				return nil, vx.Fail("units", "%v: pixel %d of %g became %g, but with all values divided by 16384 it becomes %g (expected %g); image %v", k, i, d[i], f.Data[i], g.Data[i], f.Data[i]*u, clip(d))
			}
		}
	}
	lo, hi, amp := math.Inf(1), math.Inf(-1), 0.0
	for _, v := range d {
		lo, hi = math.Min(lo, float64(v)), math.Max(hi, float64(v))
		amp = math.Max(amp, math.Abs(float64(v)))
	}
	m := make([]float64, len(d))
	for i := range d {
		m[i] = float64(d[i]) - float64(f.Data[i])
		if math.IsNaN(m[i]) || math.IsInf(m[i], 0) {
			return nil, vx.Fail("finite", "%v: pixel %d of %g became %g; image %v", k, i, d[i], f.Data[i], clip(d))
		}
	}
	span, eps := hi-lo, 1e-5*amp+1e-30
	// range: extrapolation continues the slope between two cells by half a cell in either direction
	for i := range m {
		if m[i] < lo-2.1*span-eps || m[i] > hi+2.1*span+eps {
			return nil, vx.Fail("range", "%v: model value %g at (%d,%d), image range %g..%g; image %v", k, m[i], i%k.w, i/k.w, lo, hi, clip(d))
		}
	}
	// smoothness: steps between neighbouring pixels are limited by the cell size
	cell := func(n int) float64 {
		c := (n + int(k.grid)/2) / int(k.grid)
		if c < 1 {
			c = 1
		}
		return float64(n) / float64(c)
	}
	sx, sy := math.Max(1, math.Floor(cell(k.w))), math.Max(1, math.Floor(cell(k.h)))
	for i := range m {
		if i%k.w > 0 && math.Abs(m[i]-m[i-1]) > 3.1*span/sx+eps {
			return nil, vx.Fail("smooth", "%v: model jumps from %g to %g at (%d,%d), image range %g..%g; image %v", k, m[i-1], m[i], i%k.w, i/k.w, lo, hi, clip(d))
		}
		if i >= k.w && math.Abs(m[i]-m[i-k.w]) > 3.1*span/sy+eps {
			return nil, vx.Fail("smooth", "%v: model jumps from %g to %g at (%d,%d), image range %g..%g; image %v", k, m[i-k.w], m[i], i%k.w, i/k.w, lo, hi, clip(d))
		}
	}
	return m, nil
}

func med(v []float64) float64 {
	t := append([]float64(nil), v...)
	sort.Float64s(t)
	return 0.5 * (t[(len(t)-1)/2] + t[len(t)/2])
}

func oneCell(k cfg, d []float32, s *vx.S) error {
	m, err := model(k, d, s)
	if err != nil {
		return err
	}
	var v []float64
	for i := range d {
		cov := false
		for _, t := range k.stars {
			dx, dy := float64(i%k.w)-float64(t.X), float64(i/k.w)-float64(t.Y)
			r := float64(t.HFR) * float64(k.hfrF)
			if q := dx*dx + dy*dy; math.Abs(q-r*r) < 1e-5*r*r {
				return nil
			} else if q < r*r {
				cov = true
			}
		}
		if !cov {
			v = append(v, float64(d[i]))
		}
	}
	if len(v) == 0 {
		return nil
	}
	mm := med(v)
	var dev []float64
	for _, x := range v {
		dev = append(dev, math.Abs(x-mm))
	}
	ub := mm + float64(k.sigma)*1.4826*med(dev)
	var keep []float64
	for _, x := range v {
		if math.Abs(x-ub) < 1e-4 && x != ub {
			return nil
		}
		if x <= ub {
			keep = append(keep, x)
		}
	}
	want := med(keep)
	for i := range m {
		if math.Abs(m[i]-want) > 1e-3 {
			return vx.Fail("cell", "%v: model is %g at (%d,%d), the median of the background pixels without outliers is %g; image %v", k, m[i], i%k.w, i/k.w, want, clip(d))
		}
	}
	return nil
}

func clip(d []float32) []float32 {
	if len(d) > 64 {
		return d[:64]
	}
	return d
}

func constant(k cfg, d []float32, level float64, s *vx.S) error {
	m, err := model(k, d, s)
	if err != nil {
		return err
	}
	for i := range m {
		if math.Abs(m[i]-level) > 2e-6*math.Abs(level) {
			return vx.Fail("level", "%v: model is %g at (%d,%d), the background is %g everywhere", k, m[i], i%k.w, i/k.w, level)
		}
	}
	return nil
}

// paint adds the stars to the image: every pixel within the masked radius becomes bright
func paint(d []float32, k cfg) (free int) {
	for i := range d {
		cov, edge := false, false
		for _, t := range k.stars {
			dx, dy := float64(i%k.w)-float64(t.X), float64(i/k.w)-float64(t.Y)
			r := float64(t.HFR) * float64(k.hfrF)
			if dx*dx+dy*dy < r*r*(1-1e-6) {
				cov = true
			} else if dx*dx+dy*dy <= r*r*(1+1e-6) {
				edge = true
			}
		}
		if cov {
			d[i] += 7000
		} else if !edge {
			free++
		}
	}
	return
}

func fill(d []float32, v float32) {
	for i := range d {
		d[i] = v
	}
}

func main() {
	vx.Main("P12", "exploration", func(c *vx.C) {
		stats.LSEstimator = stats.LSEMeanStdDev
		maxD := 13
		if c.Thorough {
			maxD = 26
		}
		// constant images, all sizes and grids
		c.Bound("constant images and arbitrary images: all sizes up to %dx%d, grids 1..16 and 40, clip 0..5 and more than there are cells", maxD, maxD)
		clips := []int32{0, 1, 2, 3, 5, 100000}
		c.Shards("sizes", maxD*maxD, func(s *vx.S) {
			w, h := s.ID%maxD+1, s.ID/maxD+1
			d := make([]float32, w*h)
			starSets := [][]star.Star{nil,
				{{X: 0, Y: 0, HFR: 1}},
				{{X: float32(w) / 2, Y: float32(h) / 2, HFR: 2}},
				{{X: float32(w - 1), Y: float32(h - 1), HFR: 100}},
				{{X: -50, Y: 3, HFR: 4}, {X: float32(w) + 9, Y: float32(h) + 900, HFR: 3}, {X: 2, Y: -1e6, HFR: 1}},
				{{X: 1, Y: 1, HFR: 0.5}, {X: 1, Y: 1, HFR: 0.5}, {X: 3, Y: 0, HFR: 0}},
			}
			for g := int32(1); g <= 17; g++ {
				grid := g
				if g == 17 {
					grid = 40
				}
				for _, cl := range clips {
					for si, st := range starSets {
						k := cfg{w: w, h: h, grid: grid, sigma: 1.5, clip: cl, hfrF: 1, stars: st}
						for _, lev := range []float32{1000, -3} {
							s.Check(func() string { return fmt.Sprintf("constant %g, %v", lev, k) }, func() error {
								fill(d, lev)
								return constant(k, d, float64(lev), s)
							})
						}
						s.Check(func() string { return fmt.Sprintf("arbitrary, %v", k) }, func() error {
							for i := range d {
								d[i] = float32((i*37+i*i*11+si)%101) * 10
							}
							_, err := model(k, d, s)
							return err
						})
					}
				}
			}
		})
		// all small images
		c.Bound("all images over 0/1/50 up to 6 pixels, over 0/50 up to 12 (thorough 16) pixels, grids 1..4")
		type dm struct{ w, h, k int }
		dims := []dm{{1, 1, 3}, {2, 1, 3}, {1, 2, 3}, {3, 1, 3}, {2, 2, 3}, {3, 2, 3}, {2, 3, 3}, {6, 1, 3}, {1, 6, 3}, {3, 3, 2}, {4, 3, 2}, {3, 4, 2}, {12, 1, 2}, {6, 2, 2}}
		if c.Thorough {
			dims = append(dims, dm{4, 4, 2}, dm{8, 2, 2}, dm{5, 3, 2}, dm{15, 1, 2})
		}
		c.Shards("all-small", len(dims)*4, func(s *vx.S) {
			m := dims[s.ID/4]
			d := make([]float32, m.w*m.h)
			al := []float32{0, 50, 1}
			for _, cl := range []int32{0, 1, 3} {
				for _, sg := range []float32{0, 1.5} {
					k := cfg{w: m.w, h: m.h, grid: int32(s.ID%4 + 1), sigma: sg, clip: cl, hfrF: 1}
					fx.Vectors(len(d), m.k, func(v []int) {
						for i := range d {
							d[i] = al[v[i]]
						}
						s.Check(func() string { return fmt.Sprintf("%v: %v", k, d) }, func() error { _, err := model(k, d, s); return err })
					})
				}
			}
		})
		// one star at every place
		type geo struct {
			w, h int
			grid int32
		}
		geos := []geo{{24, 20, 8}, {25, 19, 7}, {16, 16, 3}, {30, 6, 5}, {12, 12, 2}, {17, 23, 10}, {13, 11, 40}}
		c.Bound("one star at every half-pixel position (and outside) of %v, radius 1..13, sigma 0 and 1.5, factor 1 and 4; two stars on a coarser lattice", geos)
		radii := []float32{1, 2, 3.3, 6, 13}
		c.Shards("stars", len(geos)*len(radii), func(s *vx.S) {
			g, r := geos[s.ID/len(radii)], radii[s.ID%len(radii)]
			d := make([]float32, g.w*g.h)
			for y := -6; y <= 2*g.h+6; y++ {
				for x := -6; x <= 2*g.w+6; x++ {
					for v := 0; v < 2; v++ {
						k := cfg{w: g.w, h: g.h, grid: g.grid, sigma: 1.5 * float32(v), hfrF: 1 + 3*float32(v),
							stars: []star.Star{{X: float32(x) / 2, Y: float32(y) / 2, HFR: r / (1 + 3*float32(v))}}}
						s.Check(func() string { return "masked star, " + k.String() }, func() error {
							fill(d, 100)
							if paint(d, k) == 0 {
								_, err := model(k, d, s)
								return err
							}
							return constant(k, d, 100, s)
						})
					}
				}
			}
		})
		c.Shards("star-pairs", len(geos), func(s *vx.S) {
			g := geos[s.ID]
			d := make([]float32, g.w*g.h)
			st := 5
			if c.Thorough {
				st = 3
			}
			n := g.w * g.h
			for p := 0; p < n; p += st {
				for q := 0; q < p; q += st {
					for _, rr := range [][2]float32{{2, 2}, {1.5, 5}, {7, 3}} {
						k := cfg{w: g.w, h: g.h, grid: g.grid, sigma: 1.5, hfrF: 2, stars: []star.Star{
							{X: float32(p % g.w), Y: float32(p / g.w), HFR: rr[0] / 2}, {X: float32(q%g.w) + 0.5, Y: float32(q/g.w) - 0.25, HFR: rr[1] / 2}}}
						s.Check(func() string { return "masked stars, " + k.String() }, func() error {
							fill(d, 100)
							if paint(d, k) == 0 {
								return nil
							}
							return constant(k, d, 100, s)
						})
					}
				}
			}
		})
		// bright cells removed by clipping
		c.Shards("clipped cells", 5*5, func(s *vx.S) {
			for _, cs := range []int{4, 7, 8} {
				w, h := 5*cs, 5*cs
				d := make([]float32, w*h)
				bx, by := s.ID%5, s.ID/5
				for n := int32(1); n <= 2; n++ {
					for off := int32(0); off < 25 && n > 1 || off == 0; off++ {
						if n > 1 && int(off) == s.ID {
							continue
						}
						k := cfg{w: w, h: h, grid: int32(cs), sigma: 1.5, clip: n, hfrF: 1}
						s.Check(func() string { return fmt.Sprintf("bright cells (%d,%d) and %d, %v", bx, by, off, k) }, func() error {
							fill(d, 200)
							for y := 0; y < cs; y++ {
								for x := 0; x < cs; x++ {
									d[(by*cs+y)*w+bx*cs+x] += 500
									if n > 1 {
										d[(int(off/5)*cs+y)*w+int(off%5)*cs+x] += 300
									}
								}
							}
							return constant(k, d, 200, s)
						})
					}
				}
			}
		})
		// gradients
		grids := []int32{4, 5, 6, 8, 9, 13, 16}
		c.Bound("planes with 24 slopes, sizes 40..67, grids %v, with and without masked stars", grids)
		c.Shards("gradients", len(grids)*3, func(s *vx.S) {
			wh := [][2]int{{40, 48}, {53, 41}, {64, 67}}[s.ID%3]
			w, h, grid := wh[0], wh[1], grids[s.ID/3]
			d, b := make([]float32, w*h), make([]float64, w*h)
			for _, sl := range [][2]float64{{1, 0}, {0, 1}, {-1, 0}, {0, -1}, {1, 1}, {-2, 1}, {0.5, -3}, {-1, -1}} {
				for _, amp := range []float64{1, 20, 0.01} {
					for ns := 0; ns < 3; ns++ {
						k := cfg{w: w, h: h, grid: grid, sigma: 1.5, hfrF: 2}
						for i := 0; i < 4*ns; i++ {
							k.stars = append(k.stars, star.Star{X: float32((i*17 + 5) % w), Y: float32((i*29 + 3) % h), HFR: 0.75})
						}
						s.Check(func() string { return fmt.Sprintf("gradient %g*(%g,%g), %v", amp, sl[0], sl[1], k) }, func() error {
							for i := range d {
								b[i] = 500 + amp*(sl[0]*float64(i%w)+sl[1]*float64(i/w))
								d[i] = float32(b[i])
							}
							paint(d, k)
							m, err := model(k, d, s)
							if err != nil {
								return err
							}
							ax, ay := amp*math.Abs(sl[0]), amp*math.Abs(sl[1])
							tot := ax + ay
							g := float64(grid)
							for i := range m {
								x, y := i%w, i/w
								tol := 1.6 * tot // rounding of cell centres
								if ns > 0 {
									tol += 1.6 * tot // pixels missing from a cell move its median
								}
								if x < int(1.6*g) || x >= w-int(1.6*g) {
									tol += 0.35 * g * ax // smoothing is one-sided at the border
								}
								if y < int(1.6*g) || y >= h-int(1.6*g) {
									tol += 0.35 * g * ay
								}
								if e := math.Abs(m[i] - b[i]); e > tol+1e-4 {
									return vx.Fail("gradient", "%v slope %g,%g: model is %g at (%d,%d), the gradient %g (allowed difference %g)", k, amp*sl[0], amp*sl[1], m[i], x, y, b[i], tol)
								}
							}
							return nil
						})
					}
				}
			}
		})
		// sizes of real frames
		c.Bound("large images: 500 to 1600 stars (up to all in one cell), masked radii up to 90 pixels, cells up to 40000 pixels, against the constant background and the trimmed median of the only cell")
		c.Shards("large", 12, func(s *vx.S) {
			w, h := 420, 310
			if s.ID >= 6 {
				w, h = 290, 433
			}
			k := cfg{w: w, h: h, grid: []int32{32, 64, 150}[s.ID%3], sigma: 1.5, clip: int32(s.ID % 2), hfrF: 4}
			n := []int{500, 1600, 40}[s.ID%3]
			for i := 0; i < n; i++ {
				x, y := float32(i*7919%(w*4))/4, float32(i*104729%(h*4))/4
				if s.ID/3%2 == 1 && i%8 != 0 { // most stars in one corner
					x, y = float32(i*37%240)/4, float32(i*53%241)/4
				}
				hfr := float32(i%7+2)/8 + 0.0137
				if n == 40 {
					hfr = float32(i%4+1)*5.6 + 0.0137
				}
				k.stars = append(k.stars, star.Star{X: x, Y: y, HFR: hfr})
			}
			d := make([]float32, w*h)
			s.Check(func() string { return fmt.Sprintf("%d stars on %dx%d grid %d", n, w, h, k.grid) }, func() error {
				fill(d, 100)
				if paint(d, k) == 0 {
					return nil
				}
				if err := constant(k, d, 100, s); err != nil {
					return vx.Fail("large", "%.1500s", err.Error())
				}
				return nil
			})
			one := cfg{w: 190, h: 170 + s.ID, grid: 400, sigma: []float32{0.5, 1.5, 3}[s.ID%3], hfrF: 4, stars: k.stars[:20]}
			e := make([]float32, one.w*one.h)
			for i := range e {
				e[i] = 100 + float32((i*7+i%one.w*i/one.w*3)%1013)
				if i > len(e)*3/4 {
					e[i] += 3000
				}
			}
			paint(e, one)
			s.Check(func() string { return fmt.Sprintf("one cell of %dx%d", one.w, one.h) }, func() error { return oneCell(one, e, s) })
		})
		// the optional file receives the model
		c.Bound("background file: 40 geometries, with and without stars and clipping, compared with original minus result and with the result without file")
		c.Shards("file", 40, func(s *vx.S) {
			w, h := 3+s.ID%8*5, 2+s.ID/8*7
			dir, err := os.MkdirTemp(c.Scratch, "p12")
			if err != nil {
				panic(err)
			}
			defer os.RemoveAll(dir)
			d := make([]float32, w*h)
			for i := range d {
				d[i] = 1000 + float32(i%w)*2 - float32(i/w)*3 + float32(i*i*7%13)
			}
			for _, grid := range []int32{3, 8, 20} {
				for v := 0; v < 4; v++ {
					k := cfg{w: w, h: h, grid: grid, sigma: 1.5, clip: int32(v & 1), hfrF: 4}
					if v&2 != 0 {
						k.stars = []star.Star{{X: float32(w / 2), Y: float32(h / 2), HFR: 0.5}, {X: 1, Y: 1, HFR: 0.4}}
					}
					s.Check(func() string { return "file, " + k.String() }, func() error {
						p, err := extract(k, d)
						if err != nil {
							return vx.Fail("error", "%v: %v", k, err)
						}
						k2 := k
						k2.save = filepath.Join(dir, "bg%d.fits")
						fn := filepath.Join(dir, "bg4.fits")
						os.Remove(fn)
						q, err := extract(k2, d)
						if err != nil {
							return vx.Fail("error", "%v: %v", k2, err)
						}
						g := fits.NewImage()
						if err := g.ReadFile(fn, true, io.Discard); err != nil {
							return vx.Fail("file", "%v: background file: %v", k, err)
						}
						if !fx.EqI32(g.Naxisn, int32(w), int32(h)) {
							return vx.Fail("file", "%v: background file has dimensions %v", k, g.Naxisn)
						}
						for i := range d {
							if math.Abs(float64(d[i])-float64(g.Data[i])-float64(q.Data[i])) > 1e-3 {
								return vx.Fail("file-model", "%v: pixel %d: original %g minus background file %g is not the result %g", k, i, d[i], g.Data[i], q.Data[i])
							}
							if math.Abs(float64(p.Data[i])-float64(q.Data[i])) > 1e-3 {
								return vx.Fail("file-changes", "%v: pixel %d is %g when the background is saved, %g otherwise", k, i, q.Data[i], p.Data[i])
							}
						}
						return nil
					})
				}
			}
		})
		// one cell: the model is the median of the unmasked pixels after rejecting bright outliers
		c.Bound("one-cell models: all images over 4 values of 5 pixels and structured images up to 9x9, with masked stars, sigma 0.5..3, against the trimmed median")
		c.Shards("one cell", 9*9+4, func(s *vx.S) {
			var w, h int
			if s.ID < 81 {
				w, h = s.ID%9+1, s.ID/9+1
			} else {
				w, h = 5, 1
			}
			d := make([]float32, w*h)
			for _, sg := range []float32{0.5, 1.5, 3} {
				k := cfg{w: w, h: h, grid: 20, sigma: sg, hfrF: 2}
				if s.ID >= 81 {
					if s.ID&1 == 1 {
						k.stars = []star.Star{{X: float32(s.ID-81) + 0.5, Y: 0.2, HFR: 0.3}}
					}
					fx.Vectors(5, 4, func(v []int) {
						for i := range d {
							d[i] = []float32{10, 12, 11, 90}[v[i]]
						}
						s.Check(func() string { return fmt.Sprintf("%v: %v", k, d) }, func() error { return oneCell(k, d, s) })
					})
					continue
				}
				for v := 0; v < 24; v++ {
					for i := range d {
						d[i] = 100 + float32((i*7+i*i*v)%13)
						if (i*5+v)%(3+v%4) == 0 {
							d[i] += float32((400 + 7000*(v>>3&1)) * (v & 1))
						}
					}
					k.stars = nil
					if v&2 != 0 {
						k.stars = []star.Star{{X: float32(v % w), Y: float32(v / 2 % h), HFR: 0.7}, {X: 6, Y: 2, HFR: 1}}
						paint(d, k)
					}
					s.Check(func() string { return fmt.Sprintf("%v: %v", k, d) }, func() error { return oneCell(k, d, s) })
				}
			}
		})
		c.Serial("off", 1, func(s *vx.S) {
			d := []float32{1, 2, 3, 4, 5, 6}
			for _, g := range []int32{0, -1} {
				s.Check(func() string { return "switched off" }, func() error {
					f, err := extract(cfg{w: 3, h: 2, grid: g, hfrF: 1}, d)
					if err != nil || !fx.Same(f.Data, d) {
						return vx.Fail("off", "background extraction switched off changes the image (%v)", err)
					}
					return nil
				})
			}
		})
	})
}
