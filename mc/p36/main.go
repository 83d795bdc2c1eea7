package main

import (
	"fmt"
	"io"
	"math"
	"os"

	"github.com/mlnoga/nightlight/internal/fits"
	"github.com/mlnoga/nightlight/internal/ops"
	"github.com/mlnoga/nightlight/internal/ops/pre"
	"github.com/mlnoga/nightlight/internal/star"
	"github.com/mlnoga/nightlight/internal/stats"
	"github.com/mlnoga/nightlight/internal/zzverif/fx"
	"github.com/mlnoga/nightlight/internal/zzverif/vx"
)

// verify compares a map with the stars: each is a disc with the given multiple of its half-flux radius over which its flux is
// spread evenly. Pixels within one of the edge of a disc may or may not belong to it. Of several discs any may be on top.
func verify(m *fits.Image, nax []int32, stars []star.Star, multiple float32) error {
	if !fx.EqI32(m.Naxisn, nax...) {
		return vx.Fail("dims", "the map has dimensions %v instead of %v", m.Naxisn, nax)
	}
	w, h := int(nax[0]), int(nax[1])
	if len(m.Data)%(w*h) != 0 || len(m.Data) == 0 {
		return vx.Fail("dims", "the map has %d pixels", len(m.Data))
	}
	for i, v := range m.Data {
		p, x, y := i/(w*h), float64(i%w), float64(i/w%h)
		possible, must := false, false
		for _, s := range stars {
			r := float64(s.HFR * multiple)
			value := float64(s.Mass) / math.Max(1, math.Pi*r*r)
			d := math.Hypot(x-float64(s.X), y-float64(s.Y))
			if d < r-1 || d < 0.45 {
				must = true
			}
			if d <= r+1 && math.Abs(float64(v)-value) <= 1e-5*value {
				possible = true
			}
		}
		if v != 0 && !possible {
			return vx.Fail("outside", "plane %d pixel (%g,%g) is %g, which belongs to no star", p, x, y, v)
		}
		if v == 0 && must && p == 0 {
			return vx.Fail("missing", "plane %d pixel (%g,%g) is zero, but within a star", p, x, y)
		}
	}
	return nil
}

func main() {
	vx.Main("P36", "model_checking", func(c *vx.C) {
		stats.LSEstimator = stats.LSEMeanStdDev
		sizes := [][]int32{{1, 1}, {2, 3}, {5, 4}, {9, 7}, {16, 3}, {3, 16}, {7, 6, 3}}
		hfrs := []float32{0, 0.05, 0.2, 0.25, 0.4, 0.5, 0.75, 1, 1.3, 1.7, 2, 3, 4.5, 8}
		step := 2
		if c.Thorough {
			step = 4
		}
		c.Bound("maps of %v pixels; one star at every 1/%d pixel from half a pixel outside to half a pixel outside x %d radii; all pairs of stars at whole pixels of the smaller ones", sizes, step, len(hfrs))
		run := func(s *vx.S, nax []int32, stars []star.Star) {
			s.Check(func() string { return fmt.Sprintf("map of %v with stars %v", nax, stars) }, func() error {
				src := fits.NewImageFromNaxisn(nax, nil)
				for i := range src.Data {
					src.Data[i] = float32(i + 1)
				}
				src.ID, src.Stars = 7, stars
				keep := append([]float32(nil), src.Data...)
				for _, multiple := range []float32{2, 1, 3.5} {
					m := fits.NewImageFromStars(src, multiple)
					if !fx.SameBits(src.Data, keep) {
						return vx.Fail("changed", "the frame is changed")
					}
					if m.ID != 7 {
						return vx.Fail("id", "%d", m.ID)
					}
					if err := verify(m, nax, stars, multiple); err != nil {
						return err
					}
					s.Outcome(vx.HashF(m.Data))
				}
				s.States(3)
				return nil
			})
		}
		c.Shards("single", len(sizes)*len(hfrs), func(s *vx.S) {
			nax, hfr := sizes[s.ID/len(hfrs)], hfrs[s.ID%len(hfrs)]
			for y := -step / 2; y <= int(nax[1])*step-step/2; y++ {
				for x := -step / 2; x <= int(nax[0])*step-step/2; x++ {
					fx, fy := float32(x)/float32(step), float32(y)/float32(step)
					run(s, nax, []star.Star{{X: fx, Y: fy, HFR: hfr, Mass: 50, Index: int32(math.Min(math.Max(0, float64(fx)), float64(nax[0]-1)))}})
				}
			}
		})
		small := [][]int32{{2, 3}, {5, 4}, {7, 6, 3}}
		c.Shards("pairs", len(small)*len(hfrs), func(s *vx.S) {
			nax, hfr := small[s.ID/len(hfrs)], hfrs[s.ID%len(hfrs)]
			n := int(nax[0] * nax[1])
			for i := 0; i < n; i++ {
				for j := 0; j < n; j++ {
					for _, other := range []float32{0.5, 1.7} {
						at := func(i int, h, mass float32) star.Star {
							return star.Star{X: float32(i % int(nax[0])), Y: float32(i / int(nax[0])), HFR: h, Mass: mass, Index: int32(i)}
						}
						run(s, nax, []star.Star{at(i, hfr, 90), at(j, other, 20)})
					}
				}
			}
		})

		// the detection step: what it finds is what the saved map shows
		shapes := []float64{-1, 0, 0.7, 1.2, 2}
		c.Shards("detect", len(shapes)*4, func(s *vx.S) {
			os.Chdir(c.Scratch)
			sigma, kind := shapes[s.ID/4], s.ID%4
			nax := [][]int32{{40, 30}, {40, 30}, {31, 33, 3}, {40, 30}}[kind]
			w, h := int(nax[0]), int(nax[1])
			for y0 := 0; y0 < h; y0++ {
				for x0 := 0; x0 < w; x0 += 3 {
					s.Check(func() string {
						return fmt.Sprintf("detection of a star of width %g at (%d,%d) in %v", sigma, x0, y0, nax)
					}, func() error {
						f := fits.NewImageFromNaxisn(nax, nil)
						for i := range f.Data {
							x, y := i%w, i/w%h
							f.Data[i] = 100 + float32((x*7+y*5)%3)
							if kind == 3 {
								f.Data[i] = 100
							}
							if d := math.Hypot(float64(x-x0), float64(y-y0)); sigma == 0 && d == 0 {
								f.Data[i] += 50000
							} else if sigma > 0 && d < 8 {
								f.Data[i] += float32(50000 * math.Exp(-d*d/2/sigma/sigma))
							}
						}
						f.ID = s.ID
						f.Stats = stats.NewStats(f.Data, nax[0])
						keep := append([]float32(nil), f.Data...)
						name := fmt.Sprintf("stars%d.fits", s.ID)
						os.Remove(name)
						pattern := "stars%d.fits"
						if kind == 1 {
							pattern = name
						}
						cx := ops.NewContext(io.Discard, 100, stats.LSEMeanStdDev)
						r, err := pre.NewOpStarDetect(6, 4, 0, 1, pattern).Apply(f, cx)
						if err != nil || r != f || !fx.SameBits(f.Data, keep) {
							return vx.Fail("changed", "the frame is not handed on as it was, error %v", err)
						}
						m, err := fits.NewImageFromFile(name, 1, io.Discard)
						if err != nil {
							return vx.Fail("map", "%v", err)
						}
						s.States(1)
						s.Transitions(1)
						s.Outcome(vx.HashF(m.Data))
						return verify(m, nax, f.Stars, 2)
					})
				}
			}
		})
		c.Bound("detection and saved map of a hot pixel or round star of %d widths at every third column and every row, grey and colour, and of images without stars", len(shapes)-2)
	})
}
