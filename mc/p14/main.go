package main

import (
	"fmt"
	"math"
	"math/bits"

	"github.com/mlnoga/nightlight/internal/star"
	"github.com/mlnoga/nightlight/internal/zzverif/fx"
	"github.com/mlnoga/nightlight/internal/zzverif/vx"
)

// ---- nearest neighbours -------------------------------------------------------------------------------------------------

func kd2(pts []star.Point2D, qs []star.Point2D) error {
	t := append(star.KDTree2(nil), pts...)
	t.Make()
	used := make([]bool, len(pts))
	for _, p := range t { // permutation of the points
		ok := false
		for i, q := range pts {
			if !used[i] && p == q {
				used[i], ok = true, true
				break
			}
		}
		if !ok {
			return vx.Fail("kd2-points", "tree of %v has points %v", pts, t)
		}
	}
	for _, q := range qs {
		best := float32(math.Inf(1))
		for _, p := range pts {
			if d := star.Dist2DSquared(p, q); d < best {
				best = d
			}
		}
		p, d := t.NearestNeighbor(q)
		if d != best || star.Dist2DSquared(p, q) != best {
			return vx.Fail("kd2-nearest", "nearest neighbour of %v among %v is %v at squared distance %g, closest is %g", q, pts, p, d, best)
		}
		in := false
		for _, r := range pts {
			in = in || r == p
		}
		if !in {
			return vx.Fail("kd2-nearest", "nearest neighbour %v of %v is not among %v", p, q, pts)
		}
	}
	return nil
}

func kd3(pts []star.Point3D, qs []star.Point3D) error {
	t := make(star.KDTree3P, len(pts))
	for i, p := range pts {
		t[i] = star.Point3DPayload{Point3D: p, Payload: interface{}(int32(i))}
	}
	t.Make()
	for _, q := range qs {
		best := float32(math.Inf(1))
		for _, p := range pts {
			if d := star.Dist3DSquared(p, q); d < best {
				best = d
			}
		}
		p, d := t.NearestNeighbor(q)
		id, ok := p.Payload.(int32)
		if !ok || id < 0 || int(id) >= len(pts) || pts[id] != p.Point3D {
			return vx.Fail("kd3-payload", "nearest neighbour of %v among %v is %v: payload does not belong to the point", q, pts, p)
		}
		if d != best || star.Dist3DSquared(p.Point3D, q) != best {
			return vx.Fail("kd3-nearest", "nearest neighbour of %v among %v is %v at squared distance %g, closest is %g", q, pts, p, d, best)
		}
	}
	return nil
}

// scaled checks the points at several scales: distances below one are smaller when squared, others larger.
func scaled2(pts, qs []star.Point2D) error {
	for _, k := range []float32{1, 0.25, 64} {
		p, q := make([]star.Point2D, len(pts)), make([]star.Point2D, len(qs))
		for i, v := range pts {
			p[i] = star.Point2D{X: v.X * k, Y: v.Y * k}
		}
		for i, v := range qs {
			q[i] = star.Point2D{X: v.X * k, Y: v.Y * k}
		}
		if err := kd2(p, q); err != nil {
			return err
		}
	}
	return nil
}

func scaled3(pts, qs []star.Point3D) error {
	for _, k := range []float32{1, 0.25, 64} {
		p, q := make([]star.Point3D, len(pts)), make([]star.Point3D, len(qs))
		for i, v := range pts {
			p[i] = star.Point3D{X: v.X * k, Y: v.Y * k, Z: v.Z * k}
		}
		for i, v := range qs {
			q[i] = star.Point3D{X: v.X * k, Y: v.Y * k, Z: v.Z * k}
		}
		if err := kd3(p, q); err != nil {
			return err
		}
	}
	return nil
}

func grid2(lo, hi, step float32) (qs []star.Point2D) {
	for x := lo; x <= hi; x += step {
		for y := lo; y <= hi; y += step {
			qs = append(qs, star.Point2D{X: x, Y: y})
		}
	}
	return
}

func grid3(lo, hi, step float32) (qs []star.Point3D) {
	for x := lo; x <= hi; x += step {
		for y := lo; y <= hi; y += step {
			for z := lo; z <= hi; z += step {
				qs = append(qs, star.Point3D{X: x, Y: y, Z: z})
			}
		}
	}
	return
}

func trees(c *vx.C) {
	n2, n3, np2, np3 := 5, 4, 7, 5
	if c.Thorough {
		n2, n3, np2, np3 = 6, 5, 8, 6
	}
	qs := grid2(-1, 3, 0.5)
	c.Shards("kd2-lattice", n2*9, func(s *vx.S) {
		n, first := s.ID/9+1, s.ID%9
		fx.Vectors(n-1, 9, func(v []int) {
			pts := make([]star.Point2D, 0, n)
			pts = append(pts, star.Point2D{X: float32(first % 3), Y: float32(first / 3)})
			for _, k := range v {
				pts = append(pts, star.Point2D{X: float32(k % 3), Y: float32(k / 3)})
			}
			s.Check(func() string { return fmt.Sprintf("2D tree of %v", pts) }, func() error { return scaled2(pts, qs) })
		})
	})
	c.Bound("2D trees: all sequences of up to %d points of a 3x3 lattice, all %d half-lattice queries; all permutation patterns of up to %d points", n2, len(qs), np2)
	c.Shards("kd2-generic", np2, func(s *vx.S) {
		n := s.ID + 1
		q := grid2(-1, float32(n), 0.75)
		fx.Perms(n, func(v []int) {
			pts := make([]star.Point2D, n)
			for i, k := range v {
				pts[i] = star.Point2D{X: float32(i), Y: float32(k)}
			}
			s.Check(func() string { return fmt.Sprintf("2D tree of %v", pts) }, func() error { return scaled2(pts, q) })
		})
	})
	q3 := grid3(-0.5, 1.5, 0.5)
	c.Shards("kd3-lattice", n3*8, func(s *vx.S) {
		n, first := s.ID/8+1, s.ID%8
		fx.Vectors(n-1, 8, func(v []int) {
			pts := []star.Point3D{{X: float32(first & 1), Y: float32(first >> 1 & 1), Z: float32(first >> 2)}}
			for _, k := range v {
				pts = append(pts, star.Point3D{X: float32(k & 1), Y: float32(k >> 1 & 1), Z: float32(k >> 2)})
			}
			s.Check(func() string { return fmt.Sprintf("3D tree of %v", pts) }, func() error { return scaled3(pts, q3) })
		})
	})
	c.Shards("kd3-generic", np3*24, func(s *vx.S) {
		n, part := s.ID/24+1, s.ID%24
		q := grid3(-1, float32(n), 0.75)
		i := 0
		fx.Perms(n, func(v []int) {
			if i++; i%24 != part {
				return
			}
			y := append([]int(nil), v...)
			fx.Perms(n, func(z []int) {
				pts := make([]star.Point3D, n)
				for i := range pts {
					pts[i] = star.Point3D{X: float32(i), Y: float32(y[i]), Z: float32(z[i])}
				}
				s.Check(func() string { return fmt.Sprintf("3D tree of %v", pts) }, func() error { return scaled3(pts, q) })
			})
		})
	})
	// large sets with many equal coordinates: rank-1 lattices
	max := 40
	if c.Thorough {
		max = 70
	}
	c.Shards("kd-large", max-6, func(s *vx.S) {
		n := s.ID + 7
		for a := 1; a < 12; a++ {
			for _, p := range []int{1, 2, 3, 5, 7, 13} {
				for _, m := range []int{4, 7, 30} {
					pts, p3 := make([]star.Point2D, n), make([]star.Point3D, n)
					for i := range pts {
						pts[i] = star.Point2D{X: float32(i * a % p), Y: float32((i*a*a + i) % m)}
						p3[i] = star.Point3D{X: pts[i].X, Y: pts[i].Y, Z: float32(i * 3 % (p + 1))}
					}
					desc := func() string { return fmt.Sprintf("tree of %d points with step %d modulo %d and %d", n, a, p, m) }
					s.Check(desc, func() error { return scaled2(pts, grid2(-1, 8, 1.25)) })
					s.Check(desc, func() error { return scaled3(p3, grid3(-1, 8, 2.25)) })
				}
			}
		}
	})
}

// big sets of points in general position and in clusters
func bigTrees(c *vx.C) {
	sizes := []int{100, 128, 129, 255, 256, 257, 300, 512, 513, 1000, 1025, 4097}
	c.Bound("trees of %v points in three arrangements", sizes)
	c.Shards("kd-huge", len(sizes)*3, func(s *vx.S) {
		n, kind := sizes[s.ID/3], s.ID%3
		pts, p3 := make([]star.Point2D, n), make([]star.Point3D, n)
		for i := range pts {
			switch kind {
			case 0: // general position
				pts[i] = star.Point2D{X: float32(i * 7919 % 10007), Y: float32(i * 104729 % 9973)}
				p3[i] = star.Point3D{X: pts[i].X, Y: pts[i].Y, Z: float32(i * 31 % 997 * 10)}
			case 1: // sorted
				pts[i] = star.Point2D{X: float32(i), Y: float32(2 * i)}
				p3[i] = star.Point3D{X: float32(i), Y: float32(n - i), Z: float32(i / 3)}
			case 2: // clusters with many equal coordinates
				pts[i] = star.Point2D{X: float32(i % 7 * 1000), Y: float32(i * 37 % 101)}
				p3[i] = star.Point3D{X: pts[i].X, Y: pts[i].Y, Z: float32(i % 3)}
			}
		}
		desc := func() string { return fmt.Sprintf("tree of %d points, arrangement %d", n, kind) }
		hi := float32(10100)
		if kind == 1 {
			hi = float32(2 * n)
		}
		s.Check(desc, func() error { return kd2(append([]star.Point2D(nil), pts...), grid2(-100, hi, hi/31)) })
		s.Check(desc, func() error { return kd3(append([]star.Point3D(nil), p3...), grid3(-100, hi, hi/9)) })
	})
}

// ---- transformations ----------------------------------------------------------------------------------------------------

func finite(t star.Transform2D) bool {
	for _, v := range []float32{t.A, t.B, t.C, t.D, t.E, t.F} {
		if math.IsNaN(float64(v)) || math.IsInf(float64(v), 0) {
			return false
		}
	}
	return true
}

func transforms(c *vx.C) {
	offs := []float32{0, 100}
	if c.Thorough {
		offs = []float32{0, 100, -1.5, 3000}
	}
	c.Shards("three-points", 81*len(offs), func(s *vx.S) {
		off := offs[s.ID/81]
		k := s.ID % 81
		pt := func(i int) star.Point2D { return star.Point2D{X: float32(i%3) * 7, Y: float32(i/3) * 5} }
		of := func(p star.Point2D) star.Point2D { return star.Point2D{X: p.X + off, Y: p.Y - off/2} }
		fx.Vectors(4, 9, func(v []int) {
			p := []star.Point2D{of(pt(k % 9)), of(pt(k / 9)), of(pt(v[0]))}
			q := []star.Point2D{of(pt(v[1])), of(pt(v[2])), of(pt(v[3]))}
			s.Check(func() string { return fmt.Sprintf("transformation of %v to %v", p, q) }, func() error {
				t, err := star.NewTransform2D(p[0], p[1], p[2], q[0], q[1], q[2])
				det := (p[1].X-p[0].X)*(p[2].Y-p[0].Y) - (p[2].X-p[0].X)*(p[1].Y-p[0].Y)
				if err != nil {
					if det != 0 {
						return vx.Fail("three-points", "transformation of %v to %v: %v", p, q, err)
					}
					return nil
				}
				if !finite(t) {
					return vx.Fail("three-points-nan", "transformation of %v to %v is %v without error", p, q, t)
				}
				if det == 0 { // no or infinitely many solutions: whatever is returned must map the points
				}
				tol := 1e-4 * (1 + math.Abs(float64(off))/4)
				for i := range p {
					if r := t.Apply(p[i]); math.Abs(float64(r.X-q[i].X)) > tol || math.Abs(float64(r.Y-q[i].Y)) > tol {
						return vx.Fail("three-points", "transformation of %v to %v is %v and maps %v to %v", p, q, t, p[i], r)
					}
				}
				rs := t.ApplySlice(p)
				for i := range p {
					if rs[i] != t.Apply(p[i]) {
						return vx.Fail("apply-slice", "%v maps %v to %v but the slice to %v", t, p[i], t.Apply(p[i]), rs)
					}
				}
				s.Outcome(vx.HashF([]float32{t.A, t.B, t.C, t.D, t.E, t.F}))
				return nil
			})
		})
	})
	es := []float32{-2, -1, -0.5, 0, 0.25, 1, 1.5}
	cs := []float32{0, 3, -100.5}
	c.Shards("invert", len(es)*len(es), func(s *vx.S) {
		for _, e := range []float32{1, 1e-3, 300} {
			fx.Vectors(2, len(es), func(v []int) {
				for _, tc := range cs {
					for _, tf := range cs {
						t := star.Transform2D{A: es[s.ID%len(es)] * e, B: es[s.ID/len(es)] * e, C: tc, D: es[v[0]] * e, E: es[v[1]] * e, F: tf}
						s.Check(func() string { return fmt.Sprintf("inverse of %+v", t) }, func() error {
							inv, err := t.Invert()
							det := float64(t.A)*float64(t.E) - float64(t.B)*float64(t.D)
							if err != nil {
								if math.Abs(det) > 1e-3 {
									return vx.Fail("invert", "no inverse for %+v with determinant %g: %v", t, det, err)
								}
								return nil
							}
							if !finite(inv) {
								return vx.Fail("invert", "inverse of %+v is %+v", t, inv)
							}
							for _, p := range []star.Point2D{{X: 0, Y: 0}, {X: 1, Y: 0}, {X: 0, Y: 1}, {X: 100, Y: -70}} {
								cond := (float64(e)*float64(e)*4/math.Abs(det) + 1) * 100 * (1 + 100/float64(e))
								for k, r := range []star.Point2D{inv.Apply(t.Apply(p)), t.Apply(inv.Apply(p))} {
									tol := 1e-6 * cond
									if k == 1 {
										tol *= float64(e) + 1
									}
									if math.Abs(float64(r.X-p.X)) > tol || math.Abs(float64(r.Y-p.Y)) > tol {
										return vx.Fail("invert", "inverse of %+v is %+v and maps %v to %v (tolerance %g)", t, inv, p, r, tol)
									}
								}
							}
							s.Outcome(vx.HashF([]float32{inv.A, inv.B, inv.C, inv.D, inv.E, inv.F}))
							return nil
						})
					}
				}
			})
		}
	})
	c.Serial("identity", 1, func(s *vx.S) {
		s.Check(func() string { return "identity" }, func() error {
			t := star.IdentityTransform2D()
			for _, p := range grid2(-3, 3, 0.75) {
				if t.Apply(p) != p {
					return vx.Fail("identity", "identity maps %v to %v", p, t.Apply(p))
				}
			}
			return nil
		})
	})
}

// ---- alignment ----------------------------------------------------------------------------------------------------------

// fields: reference star positions in a 400x300 frame, brightest first, without similar triangles that a frame could be confused by.
var fields = [][]star.Point2D{
	{{X: 100, Y: 80}, {X: 300, Y: 120}, {X: 170, Y: 230}},
	{{X: 100, Y: 80}, {X: 300, Y: 80}, {X: 170, Y: 230}}, // two stars in one row
	{{X: 60.5, Y: 40.25}, {X: 333.5, Y: 71.75}, {X: 210.25, Y: 160.5}, {X: 91.75, Y: 251.5}, {X: 355.25, Y: 270.75}},
	{{X: 40, Y: 60}, {X: 350, Y: 60}, {X: 200, Y: 60}, {X: 130, Y: 240}, {X: 300, Y: 240}, {X: 90, Y: 150}}, // rows
	{{X: 205.3, Y: 150.1}, {X: 31.7, Y: 47.2}, {X: 372.4, Y: 33.8}, {X: 120.6, Y: 201.9}, {X: 311.2, Y: 251.4}, {X: 260.9, Y: 77.7}, {X: 52.1, Y: 277.3}, {X: 180.8, Y: 20.6}, {X: 367.5, Y: 170.2}},
	{{X: 205.3, Y: 150.1}, {X: 31.7, Y: 47.2}, {X: 372.4, Y: 33.8}, {X: 120.6, Y: 201.9}, {X: 311.2, Y: 251.4}, {X: 260.9, Y: 77.7}, {X: 52.1, Y: 277.3}, {X: 180.8, Y: 20.6}, {X: 367.5, Y: 170.2}, {X: 85.4, Y: 116.5}, {X: 225.7, Y: 263.8}, {X: 330.1, Y: 105.9}, {X: 144.9, Y: 92.3}},
}

type move struct {
	deg, dx, dy, scale float64
}

// back maps a reference position into the moved frame.
func (m move) back(p star.Point2D) star.Point2D {
	a := m.deg * math.Pi / 180
	x, y := float64(p.X)-200, float64(p.Y)-150
	return star.Point2D{X: float32((math.Cos(a)*x - math.Sin(a)*y + 200 + m.dx) * m.scale), Y: float32((math.Sin(a)*x + math.Cos(a)*y + 150 + m.dy) * m.scale)}
}

func stars(ps []star.Point2D) []star.Star {
	st := make([]star.Star, len(ps))
	for i, p := range ps {
		st[i] = star.Star{X: p.X, Y: p.Y, Mass: float32(1000 - i), HFR: 2}
	}
	return st
}

// align moves the field, lists its stars in the given order (indices, negative numbers are spurious stars) and expects the
// aligner to find the move.
func align(s *vx.S, f int, m move, order []int, k int32, noise float64, what func() string) error {
	ref := stars(fields[f])
	al := star.NewAligner([]int32{400, 300}, ref, k)
	var ps []star.Point2D
	for i, o := range order {
		if o >= 0 {
			p := m.back(fields[f][o])
			a := float64(i)*2.4 + float64(o)
			p.X += float32(noise * m.scale * math.Cos(a))
			p.Y += float32(noise * m.scale * math.Sin(a))
			ps = append(ps, p)
		} else {
			ps = append(ps, m.back(star.Point2D{X: float32(20 + 97*(-o)%360), Y: float32(15 + 61*(-o)%270)}))
		}
	}
	in := stars(ps)
	t, res := al.Align([]int32{int32(400 * m.scale), int32(300 * m.scale)}, in, 1)
	limit, rl := 0.1, 0.05
	if noise > 0 {
		limit, rl = 3*noise, 2*noise
	}
	if !(float64(res) <= rl) {
		return vx.Fail("residual", "%s: residual %g, transformation %v", what(), res, t)
	}
	if !finite(t) {
		return vx.Fail("transform", "%s: transformation %v", what(), t)
	}
	for _, p := range fields[f] {
		if q := t.Apply(m.back(p)); !(star.Dist2D(p, q) <= float32(limit)) {
			return vx.Fail("transform", "%s: transformation %v (residual %g) maps the star at %v to %v", what(), t, res, p, q)
		}
	}
	for i := range in {
		if in[i].X != ps[i].X || in[i].Y != ps[i].Y {
			return vx.Fail("input", "%s: stars of the frame changed", what())
		}
	}
	for i, r := range stars(fields[f]) {
		if ref[i] != r {
			return vx.Fail("input", "%s: reference stars changed", what())
		}
	}
	s.Outcome(vx.HashF([]float32{t.A, t.B, t.C, t.D, t.E, t.F}))
	return nil
}

func upTo(n int) []int {
	v := make([]int, n)
	for i := range v {
		v[i] = i
	}
	return v
}

func alignment(c *vx.C) {
	degs := []float64{0, 0.3, 7, 45, 90, 180, -90, -137}
	shifts := []float64{0, 0.4, -17.25, 120}
	if c.Thorough {
		degs = append(degs, 1, -0.05, 20, 60, 89.5, 110, 179, -1, -30)
		shifts = append(shifts, 1, -0.7, 33.3, -240)
	}
	var ms []move
	for _, d := range degs {
		for _, x := range shifts {
			for _, y := range shifts {
				ms = append(ms, move{d, x, y, 1})
			}
		}
	}
	run := func(s *vx.S, f int, m move, order []int, k int32, noise float64) {
		o := append([]int(nil), order...)
		what := func() string {
			return fmt.Sprintf("field %d (%d stars) rotated by %g degrees, shifted by (%g,%g), scaled by %g, frame stars %v, k %d, noise %g", f, len(fields[f]), m.deg, m.dx, m.dy, m.scale, o, k, noise)
		}
		s.Check(what, func() error { return align(s, f, m, o, k, noise, what) })
	}
	c.Shards("align-moves", len(ms), func(s *vx.S) {
		m := ms[s.ID]
		for f := range fields {
			for _, k := range []int32{3, 5, 20, 50} {
				for _, noise := range []float64{0, 0.08} {
					for _, sc := range []float64{1, 0.5, 2} {
						if noise > 0 && (len(fields[f]) < 5 || !c.Thorough && (k == 50 || sc == 2)) || k == 3 && f == 3 {
							continue
						}
						q := m
						q.scale = sc
						run(s, f, q, upTo(len(fields[f])), k, noise/sc)
					}
				}
			}
		}
	})
	c.Bound("alignment: %d moves x %d fields x 4 values of k x 3 scales x with/without position noise", len(ms), len(fields))
	few := []move{{0, 0, 0, 1}, {0, 5.5, -3.25, 1}, {7, -40, 12, 1}, {180, 3, 8, 1}, {-90, 20, 33, 1}}
	// rich fields: only the brightest stars take part in the matching
	first := len(fields)
	rich := []int{20, 50, 64, 100, 257, 500}
	for _, n := range rich {
		var ps []star.Point2D
		for i := 0; len(ps) < n; i++ {
			p := star.Point2D{X: float32(i*7919%3989) / 10, Y: float32(i*i*131%2971+i*17%23) / 10}
			ps = append(ps, p)
		}
		fields = append(fields, ps)
	}
	ri := []move{{0, 0, 0, 1}, {0.3, 5.5, -3.25, 1}, {180, 3, 8, 1}, {-90, 20, 33, 0.5}, {7, -40, 12, 2}}
	c.Shards("align-rich", len(ri)*len(rich), func(s *vx.S) {
		f := first + s.ID/len(ri)
		for _, k := range []int32{20, 50} {
			run(s, f, ri[s.ID%len(ri)], upTo(len(fields[f])), k, 0)
		}
	})
	fields = fields[:first]
	c.Bound("alignment of fields of %v stars: %d moves, k 20 and 50", rich, len(ri))
	c.Shards("align-order", len(few)*4, func(s *vx.S) {
		m, f := few[s.ID%len(few)], s.ID/len(few)
		fx.Perms(len(fields[f]), func(v []int) { run(s, f, m, v, 20, 0) })
	})
	c.Bound("alignment: all star orders of the fields with up to 6 stars")
	miss := 2
	if c.Thorough {
		miss = 4
	}
	c.Shards("align-missing", len(few)*2*3, func(s *vx.S) {
		m, f, k := few[s.ID%len(few)], 4+s.ID/len(few)%2, []int32{8, 12, 50}[s.ID/len(few)/2]
		n := len(fields[f])
		for mask := 0; mask < 1<<n; mask++ {
			// a minority of the stars is missing, and a minority of the listed stars is spurious
			r := bits.OnesCount(uint(mask))
			if r > miss || r > (n-1)/3 {
				continue
			}
			var o []int
			for i := 0; i < n; i++ {
				if mask>>i&1 == 0 {
					o = append(o, i)
				}
			}
			run(s, f, m, o, k, 0)
			for at := 0; at <= len(o); at++ {
				p := append(append(append([]int(nil), o[:at]...), -1-at), o[at:]...)
				run(s, f, m, p, k, 0)
				if at%3 == 0 {
					p = append(append([]int{-20 - at}, p...), -31-at)
					if len(p)-len(o) < len(o)/2 {
						run(s, f, m, p, k, 0)
					}
				}
			}
		}
	})
	c.Bound("alignment: all sets of up to %d missing stars, spurious stars at every rank, k 8, 12 and 50", miss)
}

// hopeless: frames that cannot be aligned are reported with a large residual and never crash the aligner.
func hopeless(c *vx.C) {
	c.Serial("hopeless", 1, func(s *vx.S) {
		for nr := 1; nr <= 4; nr++ {
			for n := 0; n <= 4; n++ {
				for _, collinear := range []bool{false, true} {
					for _, k := range []int32{1, 2, 3, 20} {
						what := fmt.Sprintf("reference with %d stars, frame with %d stars, collinear %v, k %d", nr, n, collinear, k)
						s.Check(func() string { return what }, func() error {
							mk := func(n int, d float32) (ps []star.Point2D) {
								for i := 0; i < n; i++ {
									y := float32(30 + 60*(i*i%5))
									if collinear {
										y = 30 + 40*float32(i)
									}
									ps = append(ps, star.Point2D{X: 30 + 80*float32(i) + d*float32(i*i), Y: y})
								}
								return
							}
							al := star.NewAligner([]int32{400, 300}, stars(mk(nr, 0)), k)
							t, res := al.Align([]int32{400, 300}, stars(mk(n, 11)), 1)
							if (nr < 3 || n < 3 || k < 3) && !(res > 1e6) {
								return vx.Fail("hopeless", "%s: residual %g, transformation %v", what, res, t)
							}
							return nil
						})
					}
				}
			}
		}
	})
}

func main() {
	vx.Main("P14", "model_checking", func(c *vx.C) {
		trees(c)
		bigTrees(c)
		transforms(c)
		alignment(c)
		hopeless(c)
	})
}
