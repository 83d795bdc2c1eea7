package main

import (
	"fmt"
	"io"
	"math"

	"github.com/mlnoga/nightlight/internal/fits"
	"github.com/mlnoga/nightlight/internal/ops"
	"github.com/mlnoga/nightlight/internal/ops/pre"
	"github.com/mlnoga/nightlight/internal/star"
	"github.com/mlnoga/nightlight/internal/stats"
	"github.com/mlnoga/nightlight/internal/zzverif/fx"
	"github.com/mlnoga/nightlight/internal/zzverif/vx"
)

// par are the detection parameters: candidates are brighter than loc+scale*sig.
type par struct {
	loc, scale, sig, bp, inOut float32
	radius                     int32
}

func (p par) String() string {
	return fmt.Sprintf("location %g scale %g sigma %g badPixelSigma %g inOut %g radius %d", p.loc, p.scale, p.sig, p.bp, p.inOut, p.radius)
}

func stat(v ...float32) *stats.Stats { return stats.NewStats(v, int32(len(v))) }

// detect runs the detection and checks what must hold for every image.
func detect(w, h int, d []float32, p par, mds *stats.Stats, what func() string) ([]star.Star, float32, error) {
	in := append([]float32(nil), d...)
	st, shifts, hfr := star.FindStars(in, int32(w), p.loc, p.scale, p.sig, p.bp, p.inOut, p.radius, mds)
	if !fx.SameBits(in, d) {
		return nil, 0, vx.Fail("input", "%s: detection modified the image", what())
	}
	_ = shifts
	thr, half := float64(p.loc)+float64(p.scale)*float64(p.sig), float64(p.loc)+0.5*float64(p.scale)*float64(p.sig)
	any := false
	for _, v := range d {
		any = any || float64(v) > thr
	}
	if !any && len(st) > 0 {
		return nil, 0, vx.Fail("threshold", "%s: star at (%g,%g) although no pixel exceeds the threshold %g", what(), st[0].X, st[0].Y, thr)
	}
	sum := 0.0
	for i, s := range st {
		at := fmt.Sprintf("star %d at (%g,%g) mass %g hfr %g", i, s.X, s.Y, s.Mass, s.HFR)
		if !(s.X >= -0.5 && s.X <= float32(w)-0.5 && s.Y >= -0.5 && s.Y <= float32(h)-0.5) {
			return nil, 0, vx.Fail("outside", "%s: %s is outside the %dx%d image", what(), at, w, h)
		}
		if !(s.Mass > 0) || math.IsInf(float64(s.Mass), 0) {
			return nil, 0, vx.Fail("mass", "%s: %s", what(), at)
		}
		if !(s.HFR >= 0 && s.HFR <= float32(p.radius)*1.000001) {
			return nil, 0, vx.Fail("hfr", "%s: %s, search radius %d", what(), at, p.radius)
		}
		if i > 0 && s.Mass > st[i-1].Mass {
			return nil, 0, vx.Fail("order", "%s: %s comes after star with mass %g", what(), at, st[i-1].Mass)
		}
		for j := 0; j < i; j++ {
			dx, dy := float64(s.X-st[j].X), float64(s.Y-st[j].Y)
			if math.Hypot(dx, dy) < float64(p.radius)-1e-3 {
				return nil, 0, vx.Fail("close", "%s: %s is within %g pixels of star %d at (%g,%g), search radius %d", what(), at, math.Hypot(dx, dy), j, st[j].X, st[j].Y, p.radius)
			}
		}
		ix, iy := int(s.Index)%w, int(s.Index)/w
		if s.Index < 0 || int(s.Index) >= len(d) || math.Abs(float64(ix)-float64(s.X)) > 0.501 || math.Abs(float64(iy)-float64(s.Y)) > 0.501 {
			return nil, 0, vx.Fail("index", "%s: %s has index %d", what(), at, s.Index)
		}
		if v := d[s.Index]; s.Value != v && (v == v || s.Value == s.Value) {
			return nil, 0, vx.Fail("value", "%s: %s has value %g, the pixel there %g", what(), at, s.Value, d[s.Index])
		}
		// flux and half-flux radius of the pixels within the search radius
		flux, moment := 0.0, 0.0
		for y := -int(p.radius); y <= int(p.radius); y++ {
			for x := -int(p.radius); x <= int(p.radius); x++ {
				if x*x+y*y <= int(p.radius*p.radius) && ix+x >= 0 && ix+x < w && iy+y >= 0 && iy+y < h {
					if v := float64(d[(iy+y)*w+ix+x]) - float64(p.loc); v > 0 && v <= math.MaxFloat32 {
						flux += v
						moment += v * math.Hypot(float64(x), float64(y))
					}
				}
			}
		}
		if flux > 1e-6 && flux < 1e30 && (math.Abs(float64(s.Mass)-flux) > 1e-4*flux || math.Abs(float64(s.HFR)-moment/flux) > 1e-3*(0.1+moment/flux)) {
			return nil, 0, vx.Fail("flux", "%s: %s, but the pixels around it have mass %g and half-flux radius %g", what(), at, flux, moment/flux)
		}
		// something bright within the search window
		best := math.Inf(-1)
		for y := iy - int(p.radius) - 1; y <= iy+int(p.radius)+1; y++ {
			for x := ix - int(p.radius) - 1; x <= ix+int(p.radius)+1; x++ {
				if x >= 0 && x < w && y >= 0 && y < h && float64(d[y*w+x]) > best {
					best = float64(d[y*w+x])
				}
			}
		}
		if !(best > half) {
			return nil, 0, vx.Fail("dark", "%s: %s has no pixel above %g within its search radius, brightest %g", what(), at, half, best)
		}
		sum += float64(s.HFR)
	}
	if len(st) > 0 && math.Abs(float64(hfr)-sum/float64(len(st))) > 1e-4*(1+sum) {
		return nil, 0, vx.Fail("avghfr", "%s: average HFR %g of %d stars with sum %g", what(), hfr, len(st), sum)
	}
	if p.bp == 0 || mds != nil {
		if err := scaled(w, h, d, p, mds, st, hfr, what); err != nil {
			return nil, 0, err
		}
	}
	return st, hfr, nil
}

// scaled: the same image in other units (all values times a power of two, so that arithmetic is exact) has the same stars.
func scaled(w, h int, d []float32, p par, mds *stats.Stats, st []star.Star, hfr float32, what func() string) error {
	const f = float32(1) / 16384
	small := func(v float32) bool { return v == 0 || v > 1e-10 && v < 1e12 || v < -1e-10 && v > -1e12 }
	e := make([]float32, len(d))
	for i, v := range d {
		if !small(v) && v == v && !math.IsInf(float64(v), 0) {
			return nil
		}
		e[i] = v * f
	}
	q := p
	q.loc, q.scale = p.loc*f, p.scale*f
	var m *stats.Stats
	if mds != nil {
		sd := mds.StdDev() * f
		m = stat(-sd, sd, -sd, sd)
		if m.StdDev() != sd {
			return nil
		}
	}
	if !small(p.loc) || !small(p.scale) {
		return nil
	}
	st2, _, hfr2 := star.FindStars(e, int32(w), q.loc, q.scale, q.sig, q.bp, q.inOut, q.radius, m)
	same := len(st2) == len(st) && (hfr2 == hfr || hfr2 != hfr2 && hfr != hfr)
	for i := 0; same && i < len(st); i++ {
		a, b := st[i], st2[i]
		same = a.Index == b.Index && a.X == b.X && a.Y == b.Y && a.HFR == b.HFR && a.Mass*f == b.Mass && (a.Value*f == b.Value || a.Value != a.Value)
	}
	if !same {
		return vx.Fail("units", "%s: stars %v hfr %g, but with all values divided by 16384 %v hfr %g", what(), st, hfr, st2, hfr2)
	}
	return nil
}

func outcome(s *vx.S, st []star.Star) {
	if s == nil {
		return
	}
	v := make([]float32, 0, 4*len(st))
	for _, t := range st {
		v = append(v, t.X, t.Y, t.Mass, t.HFR)
	}
	s.Outcome(vx.HashF(v))
}

// small: every image of a size over an alphabet.
func small(c *vx.C, name string, sizes [][2]int, alpha []float32, pars []par) {
	c.Shards("small-"+name, len(sizes)*len(pars), func(s *vx.S) {
		sz, p := sizes[s.ID%len(sizes)], pars[s.ID/len(sizes)]
		w, h := sz[0], sz[1]
		d := make([]float32, w*h)
		fx.Vectors(w*h, len(alpha), func(v []int) {
			for i, k := range v {
				d[i] = alpha[k]
			}
			what := func() string { return fmt.Sprintf("%dx%d image %v, %v", w, h, d, p) }
			s.Check(what, func() error {
				st, _, err := detect(w, h, d, p, nil, what)
				if err == nil {
					outcome(s, st)
				}
				return err
			})
		})
	})
}

type src struct {
	x, y, amp, sigma float64
}

const back = 100

func render(w, h int, st []src) []float32 {
	d := make([]float32, w*h)
	for i := range d {
		x, y := float64(i%w), float64(i/w)
		v := 0.0
		for _, s := range st {
			r := (x-s.x)*(x-s.x) + (y-s.y)*(y-s.y)
			if r < 400 {
				v += s.amp * math.Exp(-r/(2*s.sigma*s.sigma))
			}
		}
		d[i] = float32(back + v)
	}
	return d
}

// field detects synthetic stars and expects exactly the given ones (indices into st), in decreasing order of flux.
func field(s *vx.S, w, h int, st []src, want []int, p par, what func() string) error {
	d := render(w, h, st)
	got, _, err := detect(w, h, d, p, nil, what)
	if err != nil {
		return err
	}
	outcome(s, got)
	used := make([]bool, len(got))
	for _, k := range want {
		t := st[k]
		found := false
		for j, g := range got {
			if math.Hypot(float64(g.X)-t.x, float64(g.Y)-t.y) <= 0.5 {
				found = true
				used[j] = true
				hf := math.Sqrt(math.Pi/2) * t.sigma
				if math.Abs(float64(g.HFR)-hf) > 0.3+0.15*hf {
					return vx.Fail("hfr-value", "%s: star at (%g,%g) has HFR %g, expected about %g", what(), t.x, t.y, g.HFR, hf)
				}
				m := 2 * math.Pi * t.sigma * t.sigma * t.amp
				if math.Abs(float64(g.Mass)-m) > 0.1*m {
					return vx.Fail("mass-value", "%s: star at (%g,%g) has mass %g, expected about %g", what(), t.x, t.y, g.Mass, m)
				}
			}
		}
		if !found {
			return vx.Fail("missed", "%s: no star found within half a pixel of (%g,%g); found %v", what(), t.x, t.y, got)
		}
	}
	for j := range got {
		if !used[j] {
			return vx.Fail("spurious", "%s: unexpected star at (%g,%g); found %v", what(), got[j].X, got[j].Y, got)
		}
	}
	return nil
}

func isolated(c *vx.C) {
	type k struct {
		sigma float64
		rad   int32
		inOut float32
	}
	ks := []k{{0.7, 8, 1.4}, {1, 8, 10}, {1.5, 8, 10}, {1.5, 16, 10}, {2.5, 16, 10}, {3, 16, 1.4}}
	amps := []float64{20, 300, 30000}
	sub := 4
	if c.Thorough {
		sub = 12
	}
	c.Shards("isolated", len(ks)*len(amps), func(s *vx.S) {
		q, amp := ks[s.ID%len(ks)], amps[s.ID/len(ks)]
		m := int(q.rad) + 2
		w := 2*m + 5
		p := par{back, 1, 8, 0, q.inOut, q.rad}
		for iy := 0; iy < 3*sub; iy++ {
			for ix := 0; ix < 3*sub; ix++ {
				t := src{float64(m) + float64(ix)/float64(sub), float64(m+1) + float64(iy)/float64(sub), amp, q.sigma}
				what := func() string { return fmt.Sprintf("%dx%d image with star %+v, %v", w, w+3, t, p) }
				s.Check(what, func() error { return field(s, w, w+3, []src{t}, []int{0}, p, what) })
			}
		}
	})
	c.Bound("isolated star: %d widths/radii x %d amplitudes x %dx%d subpixel positions", len(ks), len(amps), 3*sub, 3*sub)
}

// gridBorders: single stars and pairs of stars around the borders of the 256-pixel cells of the overlap filter, in all sizes
// around the cell size.
func gridBorders(c *vx.C) {
	rad := int32(6)
	short := 29
	ws := []int{40, 255, 256, 257, 258, 270, 511, 512, 513, 514, 530}
	if c.Thorough {
		ws = append(ws, 243, 253, 254, 259, 263, 509, 510, 515, 767, 768, 769, 775)
	}
	c.Shards("grid-borders", 2*len(ws), func(s *vx.S) {
		n, vert := ws[s.ID/2], s.ID%2 == 1
		w, h := n, short
		if vert {
			w, h = short, n
		}
		p := par{back, 1, 8, 0, 1.4, rad}
		at := func(along, across float64, amp float64) src {
			if vert {
				return src{across, along, amp, 1.1}
			}
			return src{along, across, amp, 1.1}
		}
		var pos []float64
		for x := int(rad) + 1; x <= n-int(rad)-2; x++ {
			if m := (x + 20) % 256; x < 12 || m < 40 || x > n-30 {
				pos = append(pos, float64(x))
			}
		}
		for _, x := range pos {
			t := at(x, 14, 200)
			what := func() string { return fmt.Sprintf("%dx%d image with star %+v, %v", w, h, t, p) }
			s.Check(what, func() error { return field(s, w, h, []src{t}, []int{0}, p, what) })
			// a second star: apart enough to be separate, or overlapping (only the invariants and at least one star)
			for dl := 0.0; dl <= 14; dl++ {
				for _, da := range []float64{-8, -4, 0, 4, 8} {
					for _, a2 := range []float64{100, 350} {
						if x+dl > float64(n)-float64(rad)-2 {
							continue
						}
						u := at(x+dl, 14+da, a2)
						v := at(x, 14, 200)
						what := func() string { return fmt.Sprintf("%dx%d image with stars %+v %+v, %v", w, h, v, u, p) }
						s.Check(what, func() error {
							if dl >= 11 {
								return field(s, w, h, []src{v, u}, []int{0, 1}, p, what)
							}
							got, _, err := detect(w, h, render(w, h, []src{v, u}), p, nil, what)
							if err == nil {
								outcome(s, got)
								if dl <= 1 && da == 0 && len(got) != 1 {
									return vx.Fail("double", "%s: found %d stars %v", what(), len(got), got)
								}
								if len(got) > 2 {
									return vx.Fail("spurious", "%s: found %d stars %v", what(), len(got), got)
								}
							}
							return err
						})
					}
				}
			}
		}
	})
	c.Bound("cell borders: %d lengths along both axes, all star positions within 20 pixels of a cell border, pairs with offsets 0..14 x 5 x 2 brightnesses", len(ws))
}

// edges: one or two bright pixels (hot pixels, cut-off stars) anywhere, including all edges and corners.
func edges(c *vx.C) {
	sizes := [][2]int{{1, 1}, {1, 7}, {7, 1}, {2, 9}, {9, 2}, {5, 8}, {8, 5}, {12, 7}, {257, 3}, {3, 257}}
	rads := []int32{1, 2, 3, 5, 16}
	c.Shards("edges", len(sizes)*len(rads), func(s *vx.S) {
		sz, rad := sizes[s.ID%len(sizes)], rads[s.ID/len(sizes)]
		w, h := sz[0], sz[1]
		n := w * h
		step := 1
		if n > 200 {
			step = 97
			if c.Thorough {
				step = 1
			}
		}
		for _, io := range []float32{0, 1.4} {
			p := par{back, 1, 8, 0, io, rad}
			for i := 0; i < n; i++ {
				d := make([]float32, n)
				for j := range d {
					d[j] = back
				}
				for j := 0; j <= i; j++ {
					if k := i - j; step > 1 && k%step != 0 && k > 12 && (w < 99 || k%w > 3 && k%w < w-3) {
						continue
					}
					for _, v2 := range []float32{105, 150, 5000} {
						d[j] = v2
						d[i] = 1000
						jj, v := j, v2
						what := func() string {
							return fmt.Sprintf("%dx%d image with pixel (%d,%d)=1000 and (%d,%d)=%g, %v", w, h, i%w, i/w, jj%w, jj/w, v, p)
						}
						s.Check(what, func() error {
							st, _, err := detect(w, h, d, p, nil, what)
							if err != nil {
								return err
							}
							outcome(s, st)
							if (jj == i) && n > 1 && io == 0 && len(st) != 1 {
								return vx.Fail("missed", "%s: found %d stars", what(), len(st))
							}
							return nil
						})
						d[j] = back
					}
				}
			}
		}
	})
	c.Bound("bright pixels: all pairs of positions in %d sizes x %d radii", len(sizes), len(rads))
}

// many: fields of stars in one cell, every assignment of brightness ranks to a lattice of stars.
func many(c *vx.C) {
	n := 5
	if c.Thorough {
		n = 6
	}
	p := par{back, 1, 8, 0, 1.4, 5}
	var perms [][]int
	fx.Perms(n, func(v []int) { perms = append(perms, append([]int(nil), v...)) })
	c.Shards("many", 16, func(s *vx.S) {
		for k := s.ID; k < len(perms); k += 16 {
			var st []src
			var want []int
			for i, r := range perms[k] {
				st = append(st, src{9 + float64(i%3)*13 + 0.25*float64(r), 9 + float64(i/3)*13 - 0.2*float64(i), 60 + 40*float64(r), 1.2})
				want = append(want, i)
			}
			what := func() string { return fmt.Sprintf("46x32 image with stars %+v, %v", st, p) }
			s.Check(what, func() error { return field(s, 46, 32, st, want, p, what) })
		}
	})
	c.Bound("brightness ranks: all %d orders of %d stars", len(perms), n)
}

// halo: a star with one faint pixel next to it, which counts if and only if it lies within the search radius.
func halo(c *vx.C) {
	rads := []int32{4, 5, 7, 10}
	c.Shards("halo", len(rads), func(s *vx.S) {
		rad := rads[s.ID]
		n := 2*int(rad) + 7
		p := par{back, 1, 60, 0, 1.4, rad}
		for y := -int(rad) - 2; y <= int(rad)+2; y++ {
			for x := -int(rad) - 2; x <= int(rad)+2; x++ {
				d := render(n, n, []src{{float64(n / 2), float64(n / 2), 400, 0.8}})
				d[(n/2+y)*n+n/2+x] += 25
				what := func() string { return fmt.Sprintf("%dx%d image, star with a faint pixel at (%d,%d), %v", n, n, x, y, p) }
				s.Check(what, func() error {
					st, _, err := detect(n, n, d, p, nil, what)
					if err == nil {
						outcome(s, st)
						if len(st) != 1 || int(st[0].Index) != n/2*n+n/2 {
							return vx.Fail("missed", "%s: found %v", what(), st)
						}
					}
					return err
				})
			}
		}
	})
	c.Bound("halo: a faint pixel at every offset up to the search radius plus two, %d radii", len(rads))
}

// crowd: fields with many stars, each of which must be found.
func crowd(c *vx.C) {
	sides := []int{20, 32, 33, 46}
	if c.Thorough {
		sides = append(sides, 64, 65, 100)
	}
	c.Shards("crowd", 2*len(sides), func(s *vx.S) {
		n := sides[s.ID/2]
		w := 12*n + 12
		p := par{back, 1, 8, 0, 1.4, 4}
		d := make([]float32, w*w)
		for i := range d {
			d[i] = back
		}
		val := func(i, j int) float32 { // brightness by place, or all different
			if s.ID%2 == 0 {
				return 100 + float32((i*7+j*13)%50)
			}
			return 100 + float32((i*n+j)*7919%(n*n))
		}
		for i := 0; i < n; i++ {
			for j := 0; j < n; j++ {
				k := (12+12*i)*w + 12 + 12*j
				v := val(i, j)
				d[k] += v
				d[k-1] += v / 4
				d[k+1] += v / 4
				d[k-w] += v / 4
				d[k+w] += v / 4
			}
		}
		what := func() string { return fmt.Sprintf("%dx%d lattice of stars, %v", n, n, p) }
		s.Check(what, func() error {
			st, _, err := star.FindStars(append([]float32(nil), d...), int32(w), p.loc, p.scale, p.sig, p.bp, p.inOut, p.radius, nil)
			_ = err
			outcome(s, st)
			if len(st) != n*n {
				return vx.Fail("missed", "%s: found %d stars", what(), len(st))
			}
			seen := map[[2]int]bool{}
			for i, t := range st {
				x, y := math.Round(float64(t.X)), math.Round(float64(t.Y))
				k := [2]int{int(x)/12 - 1, int(y)/12 - 1}
				if math.Abs(float64(t.X)-x)+math.Abs(float64(t.Y)-y) > 0.01 || int(x)%12 != 0 || int(y)%12 != 0 || k[0] < 0 || k[1] < 0 || k[0] >= n || k[1] >= n || seen[k] {
					return vx.Fail("spurious", "%s: star at (%g,%g)", what(), t.X, t.Y)
				}
				seen[k] = true
				if m := 2 * float64(val(k[1], k[0])); math.Abs(float64(t.Mass)-m) > 1e-3*m {
					return vx.Fail("mass-value", "%s: star at (%g,%g) has mass %g, expected %g", what(), t.X, t.Y, t.Mass, m)
				}
				if i > 0 && t.Mass > st[i-1].Mass {
					return vx.Fail("order", "%s: star %d has mass %g after %g", what(), i, t.Mass, st[i-1].Mass)
				}
			}
			return nil
		})
	})
	c.Bound("crowds: lattices of %v squared stars", sides)
}

func sorting(c *vx.C) {
	max, alpha := 7, 3
	if c.Thorough {
		max, alpha = 9, 4
	}
	c.Shards("sort", max+1, func(s *vx.S) {
		run := func(v []int) {
			a := make([]star.Star, len(v))
			for i, k := range v {
				a[i] = star.Star{Mass: float32(k), Index: int32(i)}
			}
			vv := append([]int(nil), v...)
			s.Check(func() string { return fmt.Sprintf("sorting stars with masses %v", vv) }, func() error {
				b := append([]star.Star(nil), a...)
				star.QSortStarsDesc(b)
				seen := make([]bool, len(b))
				for i, t := range b {
					if i > 0 && t.Mass > b[i-1].Mass {
						return vx.Fail("sort", "masses %v are sorted as %v", vv, b)
					}
					if seen[t.Index] || float32(vv[t.Index]) != t.Mass {
						return vx.Fail("sort", "masses %v are not permuted: %v", vv, b)
					}
					seen[t.Index] = true
				}
				s.Outcome(vx.Hash(vv))
				return nil
			})
		}
		fx.Vectors(s.ID, alpha, run)
		if s.ID > 0 {
			fx.Perms(s.ID, run)
		}
	})
}

// badPixels: with a bad pixel limit, single hot pixels are no stars while round stars stay.
func badPixels(c *vx.C) {
	c.Shards("bad-pixels", 8, func(s *vx.S) {
		p := par{back, 1, 8, 5, 1.4, 6}
		for i := s.ID; i < 30*30; i += 8 {
			hx, hy := i%30, i/30
			if math.Hypot(float64(hx)-9, float64(hy)-9) < 14 {
				continue
			}
			d := render(30, 30, []src{{9.3, 8.8, 400, 1.6}})
			d[hy*30+hx] = 900
			for _, on := range []bool{true, false} {
				q := p
				if !on {
					q.bp = 0
				}
				what := func() string { return fmt.Sprintf("30x30 image with a star at (9.3,8.8) and hot pixel at (%d,%d), %v", hx, hy, q) }
				s.Check(what, func() error {
					// standard deviation of the differences to the local median: 40
					got, _, err := detect(30, 30, d, q, stat(-40, 40, -40, 40), what)
					if err != nil {
						return err
					}
					outcome(s, got)
					n := 2
					if on {
						n = 1
					}
					if len(got) != n {
						return vx.Fail("bad-pixel", "%s: found %d stars, expected %d: %v", what(), len(got), n, got)
					}
					return nil
				})
			}
		}
	})
	c.Serial("bad-pixels-small", 1, func(s *vx.S) {
		for w := 1; w <= 12; w++ {
			for h := 1; h <= 12; h++ {
				for i := 0; i < w*h; i++ {
					d := make([]float32, w*h)
					for j := range d {
						d[j] = back
					}
					d[i] = 1000
					p := par{back, 1, 8, 5, 1.4, 3}
					what := func() string { return fmt.Sprintf("%dx%d image with pixel %d = 1000, %v, no statistics", w, h, i, p) }
					s.Check(what, func() error {
						_, _, err := detect(w, h, d, p, nil, what)
						return err
					})
				}
			}
		}
	})
}

// opChecks: the step takes threshold and limits from the frame statistics and its parameters and stores its result in the frame.
func opChecks(c *vx.C) {
	c.Serial("step", 1, func(s *vx.S) {
		for _, planes := range []int{1, 3} {
			for _, rad := range []int32{0, 3, 6} {
				for _, sig := range []float32{0, 2, 8, 200} {
					for _, bp := range []float32{0, 5} {
						for _, io := range []float32{1.4, 10, 200} {
							for _, mds := range []bool{true, false} {
								if bp != 0 && !mds {
									continue
								}
								what := func() string {
									return fmt.Sprintf("starDetect radius %d sigma %g badPixelSigma %g inOut %g planes %d", rad, sig, bp, io, planes)
								}
								s.Check(what, func() error { return step(planes, rad, sig, bp, io, mds, s, what) })
							}
						}
					}
				}
			}
		}
		s.Check(func() string { return "starDetect without statistics" }, func() error {
			f := fits.NewImageFromNaxisn([]int32{20, 20}, render(20, 20, nil))
			f.Stats = nil
			_, err := pre.NewOpStarDetect(5, 8, 0, 1.4, "").Apply(f, ops.NewContext(io.Discard, 100, stats.LSEMeanStdDev))
			if err == nil {
				return vx.Fail("nostats", "starDetect on a frame without statistics succeeded")
			}
			return nil
		})
	})
}

func step(planes int, rad int32, sig, bp, io_ float32, mds bool, s *vx.S, what func() string) error {
	w, h := 44, 30
	st := []src{{10.3, 9.1, 900, 1.3}, {28.6, 13.7, 300, 1.1}}
	var d []float32
	for k := 0; k < planes; k++ {
		e := render(w, h, st)
		e[25*w+40] = 700
		d = append(d, e...)
	}
	nax := []int32{int32(w), int32(h)}
	if planes > 1 {
		nax = append(nax, int32(planes))
	}
	f := fits.NewImageFromNaxisn(nax, append([]float32(nil), d...))
	f.Stats = stats.NewStats(f.Data, int32(w))
	loc, scale := f.Stats.Location(), f.Stats.Scale()
	old := []star.Star{{X: 1, Y: 1, Mass: 1, HFR: 1}}
	f.Stars, f.HFR = old, 77
	if mds {
		f.MedianDiffStats = stat(-40, 40, -40, 40)
	}
	r, err := pre.NewOpStarDetect(rad, sig, bp, io_, "").Apply(f, ops.NewContext(io.Discard, 100, stats.LSEMeanStdDev))
	if err != nil || r != f {
		return vx.Fail("step", "%s: result %v error %v", what(), r, err)
	}
	if !fx.SameBits(f.Data, d) {
		return vx.Fail("step", "%s: pixels changed", what())
	}
	if rad == 0 || sig == 0 {
		if len(f.Stars) != 1 || f.HFR != 77 {
			return vx.Fail("step-off", "%s: stars changed although detection is off", what())
		}
		return nil
	}
	var m *stats.Stats
	if mds {
		m = stat(-40, 40, -40, 40)
	}
	p := par{loc, scale, sig, bp, io_, rad}
	want, hfr, err := detect(w, h, d[:w*h], p, m, what)
	if err != nil {
		return err
	}
	outcome(s, want)
	if len(want) != len(f.Stars) {
		return vx.Fail("step", "%s: step stored %v, the first plane has %v", what(), f.Stars, want)
	}
	for i := range want {
		if want[i] != f.Stars[i] {
			return vx.Fail("step", "%s: step stored %v, the first plane has %v", what(), f.Stars, want)
		}
	}
	if hfr != f.HFR && (hfr == hfr || f.HFR == f.HFR) {
		return vx.Fail("step", "%s: step stored HFR %g, expected %g", what(), f.HFR, hfr)
	}
	return nil
}

func main() {
	stats.LSEstimator = stats.LSEMeanStdDev
	vx.Main("P13", "model_checking", func(c *vx.C) {
		nan, inf := float32(math.NaN()), float32(math.Inf(1))
		ps := []par{{1, 1, 3, 0, 1.4, 1}, {1, 1, 3, 0, 0, 2}, {1, 1, 3, 0, 1.4, 3}, {1, 1, 3, 0, 0.5, 5}}
		sz := [][2]int{{1, 1}, {1, 2}, {2, 1}, {1, 8}, {8, 1}, {2, 2}, {2, 4}, {4, 2}, {3, 3}}
		if c.Thorough {
			sz = append(sz, [2]int{1, 11}, [2]int{11, 1}, [2]int{5, 2}, [2]int{2, 5}, [2]int{3, 4}, [2]int{4, 3})
		}
		small(c, "3values", sz, []float32{0, 3, 20}, ps)
		small(c, "2values", [][2]int{{4, 4}, {5, 3}, {3, 5}, {1, 14}, {14, 1}}, []float32{1, 20}, ps)
		small(c, "special", [][2]int{{1, 1}, {1, 4}, {4, 1}, {2, 3}, {3, 2}}, []float32{0, 20, nan, inf, -inf}, ps)
		isolated(c)
		gridBorders(c)
		edges(c)
		many(c)
		halo(c)
		crowd(c)
		sorting(c)
		badPixels(c)
		opChecks(c)
	})
}
