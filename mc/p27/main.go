package main

import (
	"fmt"
	"io"
	"math"

	"github.com/mlnoga/nightlight/internal/fits"
	"github.com/mlnoga/nightlight/internal/ops"
	"github.com/mlnoga/nightlight/internal/ops/post"
	"github.com/mlnoga/nightlight/internal/stats"
	"github.com/mlnoga/nightlight/internal/zzverif/fx"
	"github.com/mlnoga/nightlight/internal/zzverif/vx"
)

var modes = []struct {
	m    post.HistoNormMode
	name string
}{{post.HNMNone, "none"}, {post.HNMLocation, "location"}, {post.HNMLocScale, "location and scale"}, {post.HNMLocBlack, "black point"}}

type numbers struct{ min, max, mean, sd, loc, scale, noise float64 }

func all(s *stats.Stats, noise bool) (n numbers) {
	n = numbers{float64(s.Min()), float64(s.Max()), float64(s.Mean()), float64(s.StdDev()), float64(s.Location()), float64(s.Scale()), 0}
	if noise {
		n.noise = float64(s.Noise())
	}
	return
}

// match matches a frame to a reference and checks the result. cached selects which statistics of the frame were known before.
func match(s *vx.S, w int, frame, ref []float32, mode, cached int, est string, what func() string) error {
	d := append([]float32(nil), frame...)
	f := fits.NewImageFromNaxisn([]int32{int32(w), int32(len(d) / w)}, d)
	f.ID, f.Exposure = 3, 1.5
	f.Stats = stats.NewStats(f.Data, int32(w))
	noise := w >= 3 && len(d)/w >= 3
	switch cached {
	case 1:
		f.Stats.Min()
	case 2:
		f.Stats.Location()
		f.Stats.StdDev()
	case 3:
		all(f.Stats, noise)
	}
	before := all(stats.NewStats(append([]float32(nil), frame...), int32(w)), noise)
	rs := stats.NewStats(append([]float32(nil), ref...), int32(w))
	r := all(rs, noise)
	rs.FreeData()
	c := ops.NewContext(io.Discard, 100, stats.LSEMeanStdDev)
	c.MatchHisto = rs
	res, err := post.NewOpMatchHistogram(modes[mode].m).Apply(f, c)
	if err != nil || res != f || res.ID != 3 || res.Exposure != 1.5 || !fx.EqI32(res.Naxisn, int32(w), int32(len(d)/w)) || len(res.Data) != len(frame) {
		return vx.Fail("result", "%s: result %v error %v", what(), res, err)
	}
	if got := all(rs2(rs), false); got.loc != r.loc || got.scale != r.scale {
		return vx.Fail("reference", "%s: reference statistics changed to %+v", what(), got)
	}
	if mode == 0 {
		if !fx.SameBits(f.Data, frame) {
			return vx.Fail("none", "%s: pixels changed to %v", what(), f.Data)
		}
		return nil
	}
	s.Outcome(vx.HashF(f.Data))
	amp := 0.0
	for _, v := range frame {
		amp = math.Max(amp, math.Abs(float64(v)))
	}
	// expected linear map; where none exists (all pixels alike, location zero) any map that sets the location is fine
	mul, off, determined := 1.0, 0.0, true
	switch mode {
	case 1:
		mul = r.loc / before.loc
		determined = r.loc/before.loc > 0 && before.loc != 0
	case 2:
		mul = r.scale / before.scale
		off = r.loc - before.loc*mul
		determined = before.scale != 0
	case 3:
		black := (r.loc - before.loc) / (r.loc - 1)
		mul = 1 / (1 - black)
		off = -black * mul
		determined = before.loc != 1 && r.loc != 1
	}
	if !determined {
		mul = 1
	}
	tol := 1e-5 * (1 + amp*(1+math.Abs(mul)) + math.Abs(r.loc))
	after := all(stats.NewStats(append([]float32(nil), f.Data...), int32(w)), noise)
	clipped := false
	n := all(f.Stats, noise)
	if est == "ikss" { // the estimator starts from a fixed scale, so its values do not follow linear changes: take what is reported
		after.loc, after.scale = n.loc, n.scale
		if mode == 3 {
			clipped = true
		}
	}
	for i, v := range f.Data {
		if math.IsNaN(float64(v)) || math.IsInf(float64(v), 0) {
			return vx.Fail("finite", "%s: pixels %v", what(), f.Data)
		}
		want := float64(frame[i])*mul + off
		if mode == 3 && want < 0 {
			want = 0
			clipped = true
		}
		if determined && math.Abs(float64(v)-want) > tol {
			return vx.Fail("linear", "%s: pixels %v, expected pixel %d to be %g = %g * %g + %g", what(), f.Data, i, want, frame[i], mul, off)
		}
	}
	tol *= 4
	if est == "histogram" {
		tol += math.Abs(after.max-after.min) / 1000 // bins
	}
	if math.Abs(after.loc-r.loc) > tol && !(mode == 3 && (clipped || !determined)) {
		return vx.Fail("location", "%s: pixels %v have location %g, the reference has %g", what(), f.Data, after.loc, r.loc)
	}
	if mode == 2 && determined && math.Abs(after.scale-r.scale) > tol {
		return vx.Fail("scale", "%s: pixels %v have scale %g, the reference has %g", what(), f.Data, after.scale, r.scale)
	}
	for i, p := range [][2]float64{{n.min, after.min}, {n.max, after.max}, {n.mean, after.mean}, {n.sd, after.sd}, {n.loc, after.loc}, {n.scale, after.scale}, {n.noise, after.noise}} {
		if !(math.Abs(p[0]-p[1]) <= tol) {
			return vx.Fail("stats", "%s: statistic %d (min, max, mean, standard deviation, location, scale, noise) is reported as %g, the pixels %v have %g", what(), i, p[0], f.Data, p[1])
		}
	}
	if fx.SameBits(frame, ref) && determined {
		for i := range frame {
			if math.Abs(float64(frame[i]-f.Data[i])) > tol {
				return vx.Fail("self", "%s: matched to itself, but pixels changed to %v", what(), f.Data)
			}
		}
	}
	return nil
}

// rs2 returns the statistics themselves; location and scale must still be known without data.
func rs2(s *stats.Stats) *stats.Stats { return s }

func run(c *vx.C, name string, est stats.LSEstimatorMode, w, n int, alpha, calpha []float32) {
	k := len(alpha)
	total := 1
	for i := 0; i < n; i++ {
		total *= k
	}
	stats.LSEstimator = est
	c.Shards("match-"+name, total, func(s *vx.S) {
		for mode := range modes {
			al := alpha
			if modes[mode].m == post.HNMLocBlack {
				al = calpha
			}
			vec := func(id int) []float32 {
				v := make([]float32, n)
				for i := range v {
					v[i] = al[id%k]
					id /= k
				}
				return v
			}
			frame := vec(s.ID)
			for id := 0; id < total; id++ {
				ref := vec(id)
				cached := (id + s.ID) % 4
				what := func() string {
					return fmt.Sprintf("%s: %d pixels wide frame %v matched to %v by %s (known statistics %d)", name, w, frame, ref, modes[mode].name, cached)
				}
				s.Check(what, func() error { return match(s, w, frame, ref, mode, cached, name, what) })
			}
		}
	})
	c.Bound("%s: all pairs of frames with %d pixels over %d values x 4 modes", name, n, k)
}

func main() {
	vx.Main("P27", "model_checking", func(c *vx.C) {
		n := 4
		if c.Thorough {
			n = 5
		}
		run(c, "mean", stats.LSEMeanStdDev, 2, n/2*2, []float32{-3, 0, 10, 21.5, 300}, []float32{0, 0.05, 0.125, 0.5, 1})
		run(c, "histogram", stats.LSEHistogram, 3, 3, []float32{-3, 0, 10, 21.5, 300}, []float32{0, 0.05, 0.125, 0.5, 1})
		run(c, "ikss", stats.LSEIKSS, 3, 3, []float32{1, 10, 21.5, 300}, []float32{0.01, 0.05, 0.125, 0.5})
		run9(c)
		stats.LSEstimator = stats.LSEMeanStdDev
		c.Shards("match-large", 4*len(modes), func(s *vx.S) {
			mode := s.ID % len(modes)
			w, h := [][2]int{{300, 251}, {5, 20001}, {20001, 5}, {700, 601}}[s.ID/len(modes)][0], [][2]int{{300, 251}, {5, 20001}, {20001, 5}, {700, 601}}[s.ID/len(modes)][1]
			frame, ref := make([]float32, w*h), make([]float32, w*h)
			for i := range frame {
				frame[i] = 0.2 + float32(i*7919%65521)/100000
				ref[i] = 0.3 + float32(i*104729%65521)/150000
			}
			what := func() string { return fmt.Sprintf("%dx%d frame matched by %s", w, h, modes[mode].name) }
			s.Check(what, func() error { return match(s, w, frame, ref, mode, s.ID%4, "mean", what) })
		})
		c.Bound("large frames up to 700x601, all modes")
		stats.LSEstimator = stats.LSEMeanStdDev
		c.Serial("errors", 1, func(s *vx.S) {
			s.Check(func() string { return "missing reference" }, func() error {
				for _, m := range modes {
					f := fits.NewImageFromNaxisn([]int32{2, 1}, []float32{1, 2})
					f.Stats = stats.NewStats(f.Data, 2)
					r, err := post.NewOpMatchHistogram(m.m).Apply(f, ops.NewContext(io.Discard, 100, stats.LSEMeanStdDev))
					if (err == nil) != (m.m == post.HNMNone) || (err == nil) != (r == f) || f.Data[0] != 1 || f.Data[1] != 2 {
						return vx.Fail("missing-ref", "mode %s without reference: result %v error %v", m.name, r, err)
					}
					if r, err := post.NewOpMatchHistogram(m.m).Apply(nil, ops.NewContext(io.Discard, 100, stats.LSEMeanStdDev)); r != nil || err != nil {
						return vx.Fail("nil", "mode %s with a dropped frame: result %v error %v", m.name, r, err)
					}
				}
				return nil
			})
		})
	})
}

// run9: frames large enough for the noise estimate.
func run9(c *vx.C) {
	stats.LSEstimator = stats.LSEMeanStdDev
	c.Shards("match-noise", 16, func(s *vx.S) {
		for id := s.ID; id < 512; id += 16 {
			for rid := 1; rid < 512; rid += 13 {
				vec := func(k int, a, b float32) []float32 {
					v := make([]float32, 9)
					for i := range v {
						v[i] = a
						if k>>i&1 == 1 {
							v[i] = b + float32(i)/64
						}
					}
					return v
				}
				for mode := range modes {
					frame, ref := vec(id, 0.125, 0.5), vec(rid, 0.25, 0.75)
					cached := (id/16 + rid) % 4
					what := func() string {
						return fmt.Sprintf("3x3 frame %v matched to %v by %s (known statistics %d)", frame, ref, modes[mode].name, cached)
					}
					s.Check(what, func() error { return match(s, 3, frame, ref, mode, cached, "mean", what) })
				}
			}
		}
	})
}
