package main

import (
	"fmt"
	"io"
	"math"

	"github.com/mlnoga/nightlight/internal/fits"
	"github.com/mlnoga/nightlight/internal/ops"
	"github.com/mlnoga/nightlight/internal/ops/post"
	"github.com/mlnoga/nightlight/internal/star"
	"github.com/mlnoga/nightlight/internal/stats"
	"github.com/mlnoga/nightlight/internal/zzverif/fx"
	"github.com/mlnoga/nightlight/internal/zzverif/vx"
)

func same(a, b float64, tol float64) bool {
	if math.IsNaN(a) || math.IsNaN(b) {
		return math.IsNaN(a) && math.IsNaN(b)
	}
	if math.IsInf(a, 0) || math.IsInf(b, 0) {
		return a == b
	}
	return math.Abs(a-b) <= tol
}

// sample is the oracle: the bilinear mix at (x,y). Neighbours with weight zero do not count. near tells that the position is
// within rounding of the border of the image or of a pixel.
func sample(d []float32, w, h int, x, y, eps float64) (v float64, inside, near bool) {
	for _, q := range []float64{x, float64(w-1) - x, y, float64(h-1) - y} {
		near = near || q != 0 && math.Abs(q) < eps
	}
	if !(x >= 0 && x <= float64(w-1) && y >= 0 && y <= float64(h-1)) {
		return 0, false, near
	}
	xl, yl := int(x), int(y)
	xr, yr := x-float64(xl), y-float64(yl)
	for j := 0; j < 2; j++ {
		for i := 0; i < 2; i++ {
			wt := (1 - xr)
			if i == 1 {
				wt = xr
			}
			if j == 1 {
				wt *= yr
			} else {
				wt *= 1 - yr
			}
			if wt != 0 {
				v += wt * float64(d[(yl+j)*w+xl+i])
			}
		}
	}
	return v, true, near
}

type trans struct {
	name             string
	a, b, c, d, e, f float64 // maps frame positions to output positions
	exact            bool    // all arithmetic is exact
}

func (t trans) inv(x, y float64) (float64, float64) {
	det := t.a*t.e - t.b*t.d
	x, y = x-t.c, y-t.f
	return (t.e*x - t.b*y) / det, (-t.d*x + t.a*y) / det
}

func project(s *vx.S, w, h, planes, dw, dh int, d []float32, t trans, oob float32, what func() string) error {
	nax, dnax := []int32{int32(w), int32(h)}, []int32{int32(dw), int32(dh)}
	if planes > 1 {
		nax, dnax = append(nax, int32(planes)), append(dnax, int32(planes))
	}
	img := fits.NewImageFromNaxisn(nax, append([]float32(nil), d...))
	img.ID, img.Exposure = 7, 2.5
	res, err := img.Project(dnax, star.Transform2D{A: float32(t.a), B: float32(t.b), C: float32(t.c), D: float32(t.d), E: float32(t.e), F: float32(t.f)}, oob)
	if err != nil {
		return vx.Fail("error", "%s: %v", what(), err)
	}
	if !fx.SameBits(img.Data, d) {
		return vx.Fail("input", "%s: source changed", what())
	}
	if !fx.EqI32(res.Naxisn, dnax...) || len(res.Data) != dw*dh*planes || int(res.Pixels) != len(res.Data) {
		return vx.Fail("dims", "%s: result has dimensions %v and %d pixels", what(), res.Naxisn, len(res.Data))
	}
	if res.ID != 7 || res.Exposure != 2.5 {
		return vx.Fail("meta", "%s: result has ID %d exposure %g", what(), res.ID, res.Exposure)
	}
	s.Outcome(vx.HashF(res.Data))
	eps, tol := 0.0, 0.0
	amp := 0.0
	for _, v := range d {
		if a := math.Abs(float64(v)); !math.IsInf(a, 0) && a > amp {
			amp = a
		}
	}
	if !t.exact {
		eps = 1e-4
		tol = 4 * amp * 1e-4
	} else {
		tol = amp * 1e-6
	}
	for p := 0; p < planes; p++ {
		src := d[p*w*h : (p+1)*w*h]
		for y := 0; y < dh; y++ {
			for x := 0; x < dw; x++ {
				px, py := t.inv(float64(x), float64(y))
				v, in, near := sample(src, w, h, px, py, eps)
				if !in {
					v = float64(oob)
				}
				got := float64(res.Data[(p*dh+y)*dw+x])
				if !same(got, v, tol) && !(near && (same(got, float64(oob), 0) || closeToEdge(src, got, tol))) {
					return vx.Fail("pixel", "%s: plane %d pixel (%d,%d) is %g, expected %g from source position (%g,%g); source %v", what(), p, x, y, got, v, px, py, src)
				}
			}
		}
	}
	return nil
}

// closeToEdge: at positions within rounding of the border either the fill or an interpolated value is right.
func closeToEdge(d []float32, v, tol float64) bool {
	lo, hi := math.Inf(1), math.Inf(-1)
	for _, x := range d {
		lo, hi = math.Min(lo, float64(x)), math.Max(hi, float64(x))
	}
	return v >= lo-tol && v <= hi+tol
}

func transMenu(thorough bool) (ts []trans) {
	max := 2.5
	if thorough {
		max = 4.25
	}
	for x := -max; x <= max; x += 0.25 {
		for y := -max; y <= max; y += 0.25 {
			ts = append(ts, trans{fmt.Sprintf("shift (%g,%g)", x, y), 1, 0, x, 0, 1, y, true})
		}
	}
	rots := [][4]float64{{0, -1, 1, 0}, {-1, 0, 0, -1}, {0, 1, -1, 0}, {-1, 0, 0, 1}, {1, 0, 0, -1}, {0, 1, 1, 0}}
	for i, r := range rots {
		for x := -1.0; x <= 4; x += 0.5 {
			for y := -1.0; y <= 4; y += 0.5 {
				ts = append(ts, trans{fmt.Sprintf("rotation/flip %d and shift (%g,%g)", i, x, y), r[0], r[1], x, r[2], r[3], y, true})
			}
		}
	}
	for _, m := range [][4]float64{{2, 0, 0, 2}, {0.5, 0, 0, 0.5}, {1, 0.5, 0, 1}, {1, 0, -0.25, 1}, {-0.5, 0, 0, 2}} {
		for x := -1.0; x <= 2; x++ {
			ts = append(ts, trans{fmt.Sprintf("matrix %v shift (%g,%g)", m, x, -x/2), m[0], m[1], x, m[2], m[3], -x / 2, true})
		}
	}
	for _, deg := range []float64{0.5, 5, 30, 45, 77, 133, -60, -175} {
		co, si := math.Cos(deg*math.Pi/180), math.Sin(deg*math.Pi/180)
		for _, x := range []float64{-0.3, 0, 1.1, 2.7} {
			for _, y := range []float64{-1.2, 0.15, 1.4} {
				ts = append(ts, trans{fmt.Sprintf("rotation %g shift (%g,%g)", deg, x, y), co, -si, x, si, co, y, false})
			}
		}
	}
	return
}

func projects(c *vx.C) {
	ts := transMenu(c.Thorough)
	max := 4
	if c.Thorough {
		max = 6
	}
	nan, inf := float32(math.NaN()), float32(math.Inf(1))
	c.Shards("project", max*max, func(s *vx.S) {
		w, h := s.ID%max+1, s.ID/max+1
		for kind := 0; kind < 4; kind++ {
			planes := 1
			if kind == 3 {
				planes = 3
			}
			d := make([]float32, w*h*planes)
			for i := range d {
				d[i] = float32((i*i*37+i*11)%101 + 3)
			}
			if kind == 1 {
				d[len(d)/2] = nan
			} else if kind == 2 {
				d[len(d)/2] = inf
			}
			for i := range ts {
				t := ts[i]
				if kind > 0 && kind < 3 && !t.exact {
					continue
				}
				for _, ds := range [][2]int{{w, h}, {3, 5}, {h, w}} {
					oob := nan
					if kind == 3 || ds[0] == 3 {
						oob = -5
					}
					what := func() string {
						return fmt.Sprintf("%dx%dx%d frame (kind %d) onto %dx%d by %s, fill %g", w, h, planes, kind, ds[0], ds[1], t.name, oob)
					}
					s.Check(what, func() error { return project(s, w, h, planes, ds[0], ds[1], d, t, oob, what) })
				}
			}
		}
	})
	c.Bound("projection: all sizes up to %dx%d x 3 output sizes x %d transformations (all quarter-pixel shifts, right-angle rotations and flips, scalings, shears, general rotations) x mono, NaN, Inf and colour frames", max, max, len(ts))
	large := [][3]int{{613, 409, 1}, {70003, 3, 1}, {3, 70003, 1}, {5003, 13, 1}, {257, 301, 3}}
	c.Shards("project-large", len(large), func(s *vx.S) {
		w, h, planes := large[s.ID][0], large[s.ID][1], large[s.ID][2]
		d := make([]float32, w*h*planes)
		for i := range d {
			d[i] = float32((i%1021*37+i*11)%101 + 3)
		}
		for _, t := range []trans{{"identity", 1, 0, 0, 0, 1, 0, true}, {"shift (1,-2)", 1, 0, 1, 0, 1, -2, true}, {"shift (0.5,0.25)", 1, 0, 0.5, 0, 1, 0.25, true},
			{"half turn", -1, 0, float64(w - 1), 0, -1, float64(h - 1), true}, {"transposition", 0, 1, 0, 1, 0, 0, true}, {"scaling", 2, 0, 0, 0, 2, 0, true}} {
			for _, ds := range [][2]int{{w, h}, {h, w}, {w / 2, h + 5}} {
				if ds[0] == 0 || ds[0] == h && t.name != "transposition" {
					continue
				}
				what := func() string {
					return fmt.Sprintf("%dx%dx%d frame onto %dx%d by %s", w, h, planes, ds[0], ds[1], t.name)
				}
				s.Check(what, func() error { return project(s, w, h, planes, ds[0], ds[1], d, t, nan, what) })
			}
		}
	})
	c.Bound("projection of large and long frames %v by six exact transformations", large)
	c.Serial("project-singular", 1, func(s *vx.S) {
		fx.Vectors(4, 3, func(v []int) {
			t := star.Transform2D{A: float32(v[0]), B: float32(v[1]), C: 1, D: float32(v[2]), E: float32(v[3]), F: 2}
			s.Check(func() string { return fmt.Sprintf("projection with %+v", t) }, func() error {
				img := fits.NewImageFromNaxisn([]int32{2, 2}, []float32{1, 2, 3, 4})
				_, err := img.Project([]int32{2, 2}, t, 0)
				if sing := v[0]*v[3] == v[1]*v[2]; sing != (err != nil) {
					return vx.Fail("singular", "projection with %+v: error %v", t, err)
				}
				return nil
			})
		})
	})
}

// ---- the align step -----------------------------------------------------------------------------------------------------

const W, H = 200, 160

var field = []star.Point2D{{X: 60, Y: 40}, {X: 150, Y: 60}, {X: 95, Y: 110}, {X: 40, Y: 130}, {X: 170, Y: 125}, {X: 120, Y: 20}}

func stars(dx, dy, scale float32, n int, odd float32) []star.Star {
	var st []star.Star
	for i := 0; i < n; i++ {
		p := field[i]
		st = append(st, star.Star{X: (p.X+dx)*scale + odd*float32(i%3)*float32(1-i%2*2), Y: (p.Y+dy)*scale + odd*float32((i+1)%3), Mass: float32(100 - i), HFR: 2})
	}
	return st
}

// frame: pixel values identify the position.
func frame(id, w, h, planes int, dx, dy float32, st []star.Star) *fits.Image {
	nax := []int32{int32(w), int32(h)}
	if planes > 1 {
		nax = append(nax, int32(planes))
	}
	d := make([]float32, w*h*planes)
	for i := range d {
		p := i / (w * h)
		d[i] = 1000*float32(p) + 2*float32(i%w) + 3*float32(i/w%h) + 10
	}
	f := fits.NewImageFromNaxisn(nax, d)
	f.ID, f.Exposure, f.Stars, f.HFR = id, float32(id)+0.5, st, 2
	f.Stats = stats.NewStats(f.Data, int32(w))
	return f
}

type kind struct {
	name    string
	w, h    int
	planes  int
	dx, dy  float32
	scale   float32
	n       int
	odd     float32
	dropped bool
	rot     float64      // about the first star, whose entry is the same as the reference's
	base    float32      // added to all pixels
	foreign [][2]float32 // positions in the frame of further stars
}

// source gives the place in the frame of a point of the reference.
func (k kind) source(x, y float64) (float64, float64) {
	ox, oy := float64(field[0].X), float64(field[0].Y)
	sin, cos := math.Sincos(k.rot)
	x, y = ox+cos*(x-ox)-sin*(y-oy), oy+sin*(x-ox)+cos*(y-oy)
	return (x + float64(k.dx)) * float64(k.scale), (y + float64(k.dy)) * float64(k.scale)
}

// frames of a stack: shifted copies, a bigger and a binned frame, frames without, with too few or with other stars
var kinds = []kind{
	{"same position", W, H, 1, 0, 0, 1, 6, 0, false, 0, 0, nil},
	{"shifted by (3,-2)", W, H, 1, 3, -2, 1, 6, 0, false, 0, 0, nil},
	{"shifted by (-5,4), larger frame", W + 20, H + 10, 1, -5, 4, 1, 6, 0, false, 0, 0, nil},
	{"half size", W / 2, H / 2, 1, 2, 2, 0.5, 6, 0, false, 0, 0, nil},
	{"colour, shifted by (1,1)", W, H, 3, 1, 1, 1, 6, 0, false, 0, 0, nil},
	{"no stars", W, H, 1, 0, 0, 1, 0, 0, true, 0, 0, nil},
	{"two stars", W, H, 1, 0, 0, 1, 2, 0, true, 0, 0, nil},
	{"misfit", W, H, 1, 0, 0, 1, 6, 2.5, true, 0, 0, nil},
	{"rotated about the first star", W, H, 1, 0, 0, 1, 6, 0, false, 0.05, 0, nil},
	{"negative values, shifted by (2,-3)", W, H, 1, 2, -3, 1, 6, 0, false, 0, -2000, nil},
	{"half size, foreign stars", W / 2, H / 2, 1, 2, 2, 0.5, 6, 0, false, 0, 0, [][2]float32{{10, 10}, {19, 10}, {12, 21}}},
	{"double size, foreign stars", 2 * W, 2 * H, 1, 2, 2, 2, 6, 0, false, 0, 0, [][2]float32{{10, 10}, {390, 10}, {100, 310}}},
}

func (k kind) frame(id int) *fits.Image {
	st := stars(k.dx, k.dy, k.scale, k.n, k.odd)
	if k.rot != 0 {
		for i := range st {
			x, y := k.source(float64(field[i].X), float64(field[i].Y))
			st[i].X, st[i].Y = float32(x), float32(y)
		}
	}
	for i, p := range k.foreign {
		st = append(st, star.Star{X: p[0], Y: p[1], Mass: float32(50 - i), HFR: 2})
	}
	f := frame(id, k.w, k.h, k.planes, k.dx, k.dy, st)
	if k.base != 0 {
		for i := range f.Data {
			f.Data[i] += k.base
		}
		f.Stats = stats.NewStats(f.Data, int32(k.w))
	}
	return f
}

func context(stRef []star.Star, histo *stats.Stats) *ops.Context {
	c := ops.NewContext(io.Discard, 100, stats.LSEMeanStdDev)
	c.AlignNaxisn, c.AlignStars, c.AlignHFR = []int32{W, H}, stRef, 2
	c.MatchHisto = histo
	return c
}

// verify checks the output for a frame of the given kind.
func verify(k kind, id int, r *fits.Image, err error, fill float32, what func() string) error {
	if err != nil {
		return vx.Fail("align-error", "%s: %s: %v", what(), k.name, err)
	}
	if k.dropped {
		if r != nil {
			return vx.Fail("align-kept", "%s: frame with %s is kept", what(), k.name)
		}
		return nil
	}
	if r == nil {
		return vx.Fail("align-dropped", "%s: frame %s is left out", what(), k.name)
	}
	if r.ID != id || r.Exposure != float32(id)+0.5 {
		return vx.Fail("align-meta", "%s: frame %s has ID %d and exposure %g", what(), k.name, r.ID, r.Exposure)
	}
	nax := []int32{W, H}
	if k.planes > 1 {
		nax = append(nax, int32(k.planes))
	}
	if !fx.EqI32(r.Naxisn, nax...) || len(r.Data) != W*H*k.planes {
		return vx.Fail("align-dims", "%s: frame %s has dimensions %v", what(), k.name, r.Naxisn)
	}
	for i, v := range r.Data {
		p, x, y := i/(W*H), float64(i%W), float64(i/W%H)
		sx, sy := k.source(x, y)
		mx, my := float64(k.w-1), float64(k.h-1)
		if math.Min(math.Min(sx, mx-sx), math.Min(sy, my-sy)) > 0.05 {
			want := 1000*float64(p) + 2*sx + 3*sy + 10 + float64(k.base)
			if !(math.Abs(float64(v)-want) < 0.2) {
				return vx.Fail("align-pixel", "%s: frame %s: plane %d pixel (%g,%g) is %g, expected %g", what(), k.name, p, x, y, v, want)
			}
		} else if sx < -0.05 || sy < -0.05 || sx > mx+0.05 || sy > my+0.05 {
			if !same(float64(v), float64(fill), 0) {
				return vx.Fail("align-fill", "%s: frame %s: plane %d pixel (%g,%g) is %g, expected fill %g", what(), k.name, p, x, y, v, fill)
			}
		}
	}
	return nil
}

func alignStep(c *vx.C) {
	nan := float32(math.NaN())
	// all sequences of frames through one step: every frame's result depends on that frame only
	n := 2
	if c.Thorough {
		n = 3
	}
	c.Shards("align-sequences", len(kinds)*3, func(s *vx.S) {
		mode := post.OutOfBoundsMode(s.ID % 3)
		fx.Vectors(n-1, len(kinds), func(v []int) {
			seq := append([]int{s.ID / 3}, v...)
			what := func() string {
				return fmt.Sprintf("aligning frames %v with fill mode %d", seq, mode)
			}
			s.Check(what, func() error {
				op := post.NewOpAlign(20, 0.1, mode)
				ref := frame(9, W, H, 1, 0, 0, stars(0, 0, 1, 6, 0))
				histo := stats.NewStats([]float32{70, 71, 75, 80}, 4)
				histo.Location()
				cx := context(ref.Stars, histo)
				for i, k := range seq {
					f := kinds[k].frame(i)
					fill := nan
					switch mode {
					case post.OOBModeRefLocation:
						fill = histo.Location()
					case post.OOBModeOwnLocation:
						fill = f.Stats.Location()
					}
					r, err := op.Apply(f, cx)
					if e := verify(kinds[k], i, r, err, fill, what); e != nil {
						return e
					}
					if r != nil {
						s.Outcome(vx.HashF(r.Data))
					}
				}
				// the reference frame itself
				d := append([]float32(nil), ref.Data...)
				r, err := op.Apply(ref, cx)
				if err != nil || r == nil || !fx.EqI32(r.Naxisn, W, H) || !fx.Same(r.Data, d) || r.ID != 9 {
					return vx.Fail("align-ref", "%s: the reference frame came out as %v, error %v", what(), r, err)
				}
				return nil
			})
		})
	})
	c.Bound("align step: all sequences of %d frames of %d kinds x 3 fill modes", n, len(kinds))
	c.Serial("align-limits", 1, func(s *vx.S) {
		ref := stars(0, 0, 1, 6, 0)
		for _, odd := range []float32{0, 0.05, 0.2, 0.8, 2.5} {
			st := stars(2, 1, 1, 6, odd)
			_, res := star.NewAligner([]int32{W, H}, ref, 20).Align([]int32{W, H}, st, 1)
			for _, thr := range []float32{0, res / 2, math.Nextafter32(res, 0), res, math.Nextafter32(res, 1e30), 2 * res, 1e30} {
				what := func() string { return fmt.Sprintf("star deviations %g with residual %g, limit %g", odd, res, thr) }
				s.Check(what, func() error {
					r, err := post.NewOpAlign(20, thr, post.OOBModeNaN).Apply(frame(3, W, H, 1, 2, 1, st), context(ref, nil))
					if err != nil {
						return vx.Fail("limit", "%s: %v", what(), err)
					}
					if (r == nil) != (res > thr) {
						return vx.Fail("limit", "%s: result %v", what(), r)
					}
					return nil
				})
			}
		}
		s.Check(func() string { return "K=0" }, func() error {
			f := kinds[1].frame(3)
			d := append([]float32(nil), f.Data...)
			r, err := post.NewOpAlign(0, 1, post.OOBModeNaN).Apply(f, context(ref, nil))
			if err != nil || r != f || !fx.SameBits(r.Data, d) {
				return vx.Fail("off", "aligning with K=0: result %v error %v", r, err)
			}
			return nil
		})
		for i := 0; i < 5; i++ {
			s.Check(func() string { return fmt.Sprintf("missing reference data %d", i) }, func() error {
				cx := context(ref, nil)
				mode := post.OutOfBoundsMode(post.OOBModeNaN)
				switch i {
				case 0:
					cx.AlignStars = nil
				case 1:
					cx.AlignNaxisn = nil
				case 2:
					cx.AlignStars = []star.Star{}
				case 3:
					mode = post.OOBModeRefLocation // but no reference histogram
				case 4:
					cx.AlignStars = ref[:2] // too few stars: every frame is a misfit
				}
				r, err := post.NewOpAlign(20, 1, mode).Apply(kinds[1].frame(3), cx)
				if (err == nil) != (i == 4) || r != nil {
					return vx.Fail("missing-ref", "aligning with missing reference data %d: result %v error %v", i, r, err)
				}
				return nil
			})
		}
		s.Check(func() string { return "nil frame" }, func() error {
			r, err := post.NewOpAlign(20, 1, post.OOBModeNaN).Apply(nil, context(ref, nil))
			if err != nil || r != nil {
				return vx.Fail("nil", "aligning a dropped frame: result %v error %v", r, err)
			}
			return nil
		})
	})
}

func main() {
	stats.LSEstimator = stats.LSEMeanStdDev
	vx.Main("P15", "model_checking", func(c *vx.C) {
		projects(c)
		alignStep(c)
	})
}
