package main

import (
	"fmt"
	"io"
	"math"

	colorful "github.com/lucasb-eyer/go-colorful"
	"github.com/mlnoga/nightlight/internal/fits"
	"github.com/mlnoga/nightlight/internal/ops"
	"github.com/mlnoga/nightlight/internal/ops/hsl"
	"github.com/mlnoga/nightlight/internal/ops/rgb"
	"github.com/mlnoga/nightlight/internal/stats"
	"github.com/mlnoga/nightlight/internal/zzverif/fx"
	"github.com/mlnoga/nightlight/internal/zzverif/vx"
)

type applier interface {
	Apply(f *fits.Image, c *ops.Context) (*fits.Image, error)
}

func ctx() *ops.Context { return ops.NewContext(io.Discard, 100, stats.LSEMeanStdDev) }

type pixel [3]float32

func image(px []pixel) *fits.Image {
	n := len(px)
	d := make([]float32, 3*n)
	for i, p := range px {
		d[i], d[n+i], d[2*n+i] = p[0], p[1], p[2]
	}
	f := fits.NewImageFromNaxisn([]int32{int32(n), 1, 3}, d)
	f.ID, f.Exposure = 3, 1.5
	f.Stats = stats.NewStats(f.Data, int32(n))
	f.Stats.Location()
	f.Stats.Max()
	return f
}

func at(f *fits.Image, i int) pixel {
	n := len(f.Data) / 3
	return pixel{f.Data[i], f.Data[n+i], f.Data[2*n+i]}
}

func finite(p pixel) bool {
	for _, v := range p {
		if math.IsNaN(float64(v)) || math.IsInf(float64(v), 0) {
			return false
		}
	}
	return true
}

func apply(o applier, f *fits.Image, c *ops.Context) error {
	n := len(f.Data)
	r, err := o.Apply(f, c)
	if err != nil || r != f || len(r.Data) != n || r.ID != 3 || !fx.EqI32(r.Naxisn, int32(n/3), 1, 3) {
		return vx.Fail("result", "result %v error %v", r, err)
	}
	again := stats.NewStats(append([]float32(nil), f.Data...), int32(n/3))
	if a, b := f.Stats.Max(), again.Max(); a != b {
		return vx.Fail("stats", "maximum reported as %g, is %g", a, b)
	}
	return nil
}

// adjust describes a color adjustment: want gives the expected pixel, or false if any result between input and full adjustment is fine.
type adjust struct {
	name    string
	op      applier
	neutral bool
	want    func(p pixel, loc, scale float32) (q pixel, judged bool)
	gamut   bool
}

func inHues(h, from, to float32) bool {
	if from <= to {
		return h > from && h < to
	}
	return h > from || h < to
}

func hueDiff(a, b float32) float64 {
	d := math.Mod(math.Abs(float64(a)-float64(b)), 360)
	return math.Min(d, 360-d)
}

func clamp(x, lo, hi float64) float64 { return math.Max(lo, math.Min(hi, x)) }

func near(a, b float32, tol float64) bool { return math.Abs(float64(a)-float64(b)) <= tol }

var white = [3]float64{0.95045592705167, 1.0, 1.089057750759878}

// hsluv is the independent way from linear RGB into the working space.
func hsluv(r, g, b float64) (h, s, l float64) {
	l, u, v := colorful.LinearRgb(r, g, b).LuvWhiteRef(white)
	h = math.Mod(math.Atan2(v, u)*180/math.Pi+360, 360)
	return colorful.LuvLChToHSLuv(l, math.Hypot(u, v), h)
}

func luvXyz(l, u, v float64) (x, y, z float64) { return colorful.LuvToXyzWhiteRef(l, u, v, white) }

// axisColors are the colors with given red and blue on the axes u=0 and u=v of the working space.
func axisColors(r, b float64) (px []pixel) {
	for _, f := range []func(u, v float64) float64{func(u, v float64) float64 { return u }, func(u, v float64) float64 { return u - v }} {
		at := func(g float64) float64 {
			_, u, v := colorful.LinearRgb(r, g, b).LuvWhiteRef(white)
			return f(u, v)
		}
		const steps = 32
		for i := 0; i < steps; i++ {
			lo, hi := float64(i)/steps, float64(i+1)/steps
			if at(lo)*at(hi) >= 0 {
				continue
			}
			for k := 0; k < 60; k++ {
				if mid := (lo + hi) / 2; at(lo)*at(mid) <= 0 {
					hi = mid
				} else {
					lo = mid
				}
			}
			px = append(px, pixel{float32(r), float32(lo), float32(b)})
		}
	}
	return px
}

func check(s *vx.S, a adjust, px []pixel) error {
	f := image(px)
	n := len(px)
	lum := append([]float32(nil), f.Data[2*n:]...)
	st := stats.NewStats(lum, int32(n))
	loc, scale := st.Location(), st.Scale()
	if err := apply(a.op, f, ctx()); err != nil {
		return err
	}
	s.Outcome(vx.HashF(f.Data))
	for i, p := range px {
		q := at(f, i)
		if a.neutral {
			if q != p {
				return vx.Fail("neutral", "pixel %v became %v", p, q)
			}
			continue
		}
		if !finite(q) {
			return vx.Fail("finite", "pixel %v became %v", p, q)
		}
		w, judged := a.want(p, loc, scale)
		if judged && (hueDiff(q[0], w[0]) > 2e-3 || !near(q[1], w[1], 2e-5) || !near(q[2], w[2], 2e-5)) {
			return vx.Fail("value", "luminance location %g scale %g: pixel %v became %v, expected %v", loc, scale, p, q, w)
		}
		if a.gamut && (q[0] < 0 || q[0] > 360) {
			return vx.Fail("hue", "pixel %v became %v", p, q)
		}
		if a.gamut && (q[1] < 0 || q[1] > 1 || q[2] < 0 || q[2] > 1) {
			return vx.Fail("gamut", "pixel %v became %v", p, q)
		}
	}
	if a.gamut { // and the result is a color
		before := append([]float32(nil), f.Data...)
		if err := apply(rgb.NewOpHSLuvToRGB(), f, ctx()); err != nil {
			return err
		}
		for i, p := range px {
			if q := at(f, i); !finite(q) || q[0] < -1e-3 || q[1] < -1e-3 || q[2] < -1e-3 || q[0] > 1 || q[1] > 1 || q[2] > 1 {
				return vx.Fail("rgb", "pixel %v, adjusted to %v, is RGB %v", p, before[i], q)
			}
		}
	}
	return nil
}

func main() {
	vx.Main("P25", "model_checking", func(c *vx.C) {
		stats.LSEstimator = stats.LSEMeanStdDev

		// conversions
		levels := []float32{0, 1e-6, 1e-4, 0.003, 0.02, 0.1, 0.25, 0.5, 0.75, 0.98, 1}
		step := 16
		if c.Thorough {
			step = 64
		}
		for i := 0; i <= step; i++ {
			levels = append(levels, float32(i)/float32(step))
		}
		c.Shards("roundtrip", len(levels), func(s *vx.S) {
			var px []pixel
			for _, g := range levels {
				for _, b := range levels {
					px = append(px, pixel{levels[s.ID], g, b})
				}
				px = append(px, axisColors(float64(levels[s.ID]), float64(g))...)
			}
			s.States(len(px))
			s.Check(func() string { return fmt.Sprintf("RGB to HSLuv and back for red %g", levels[s.ID]) }, func() error {
				f := image(px)
				if err := apply(rgb.NewOpRGBToHSLuv(), f, ctx()); err != nil {
					return err
				}
				s.Outcome(vx.HashF(f.Data))
				var hs []pixel
				for i, p := range px {
					q := at(f, i)
					if !finite(q) || q[0] < 0 || q[0] > 360 || q[1] < 0 || q[1] > 1 || q[2] < 0 || q[2] > 1 {
						return vx.Fail("hsl-range", "RGB %v is HSLuv %v", p, q)
					}
					if p[0] == p[1] && p[1] == p[2] && p[0] > 0.001 && p[0] < 1 && q[1] > 1e-2 {
						return vx.Fail("hsl-gray", "gray %v is HSLuv %v", p, q)
					}
					h, sat, l := hsluv(float64(p[0]), float64(p[1]), float64(p[2]))
					if sat > 1e-3 && hueDiff(q[0], float32(h)) > 1e-3 || !near(q[1], float32(sat), 1e-5) || !near(q[2], float32(l), 1e-5) {
						return vx.Fail("hsl", "RGB %v is HSLuv %v, expected %v", p, q, []float64{h, sat, l})
					}
					hs = append(hs, q)
				}
				if err := apply(rgb.NewOpHSLuvToRGB(), f, ctx()); err != nil {
					return err
				}
				for i, p := range px {
					q := at(f, i)
					if !finite(q) || !near(p[0], q[0], 1e-3) || !near(p[1], q[1], 1e-3) || !near(p[2], q[2], 1e-3) {
						return vx.Fail("back", "RGB %v became HSLuv %v and then RGB %v", p, hs[i], q)
					}
				}
				return nil
			})
			for _, sp := range []struct {
				name     string
				to, from func(f *fits.Image)
				tol      float64
			}{
				{"xyY", (*fits.Image).ToXyy, (*fits.Image).XyyToRGB, 2e-3},
			} {
				s.Check(func() string { return fmt.Sprintf("RGB to %s and back for red %g", sp.name, levels[s.ID]) }, func() error {
					f := image(px)
					sp.to(f)
					mid := append([]float32(nil), f.Data...)
					sp.from(f)
					for i, p := range px {
						q := at(f, i)
						if !finite(q) || !near(p[0], q[0], sp.tol) || !near(p[1], q[1], sp.tol) || !near(p[2], q[2], sp.tol) {
							n := len(px)
							return vx.Fail("back", "RGB %v became %v and then RGB %v", p, []float32{mid[i], mid[n+i], mid[2*n+i]}, q)
						}
					}
					return nil
				})
			}
			s.Check(func() string { return fmt.Sprintf("RGB to OKLab and OKHCL and back for red %g", levels[s.ID]) }, func() error {
				for _, p := range px {
					in := fits.LinearsRGB{R: p[0], G: p[1], B: p[2]}
					for i, out := range []fits.LinearsRGB{in.ToOkLab().ToLinearsRGB(), in.ToOkHcl().ToLinearsRGB()} {
						if q := (pixel{out.R, out.G, out.B}); !finite(q) || !near(p[0], q[0], 1e-3) || !near(p[1], q[1], 1e-3) || !near(p[2], q[2], 1e-3) {
							return vx.Fail("ok", "conversion %d: RGB %v became %v", i, p, q)
						}
					}
				}
				return nil
			})
		})
		c.Bound("%d levels per color channel", len(levels))

		// the way back clips colors that are too bright without changing their hue
		c.Serial("clip", 1, func(s *vx.S) {
			for _, sat := range []float32{0, 0.25, 1, 1.1, 1.5, 3} {
				for _, l := range []float32{0, 0.1, 0.5, 0.7, 0.9, 0.99, 1} {
					s.Check(func() string { return fmt.Sprintf("saturation %g luminance %g to RGB", sat, l) }, func() error {
						var px []pixel
						for h := 0; h < 360; h++ {
							px = append(px, pixel{float32(h), sat, l})
						}
						s.States(len(px))
						f := image(px)
						if err := apply(rgb.NewOpHSLuvToRGB(), f, ctx()); err != nil {
							return err
						}
						for i, p := range px {
							r, g, b := colorful.XyzToLinearRgb(luvXyz(colorful.LuvLChToLuv(colorful.HSLuvToLuvLCh(float64(p[0]), float64(p[1]), float64(p[2])))))
							k := math.Max(1, math.Max(r, math.Max(g, b)))
							q := at(f, i)
							for j, w := range []float64{r / k, g / k, b / k} {
								if w >= 0 && !near(q[j], float32(w), 1e-5) || w < 0 && q[j] > 0 || q[j] > 1 {
									return vx.Fail("clip", "HSLuv %v is %v, expected %v", p, q, []float64{r / k, g / k, b / k})
								}
							}
						}
						return nil
					})
				}
			}
		})

		// adjustments
		hues := []float32{0, 1e-3, 20, 40, 41, 100, 145, 190, 230, 295, 300, 330, 359.99}
		sats := []float32{0, 0.01, 0.3, 0.99, 1}
		var list []adjust
		for _, g := range []float32{0.2, 0.5, 1, 1.75, 4} {
			for _, sigma := range []float32{-9, -0.5, 0, 0.75, 9} {
				g, sigma := g, sigma
				list = append(list, adjust{fmt.Sprintf("saturation gamma %g above %g sigma", g, sigma), hsl.NewOpHSLSaturationGamma(g, sigma), g == 1,
					func(p pixel, loc, sc float32) (pixel, bool) {
						at := loc + sc*sigma
						if p[2] >= at {
							p[1] = float32(math.Pow(float64(p[1]), 1/float64(g)))
						}
						return p, !near(p[2], at, 1e-5) || sigma == 0 && p[2] == at
					}, true})
			}
		}
		limits := []float32{0, 20, 40, 100, 190, 295, 360}
		for _, from := range limits {
			for _, to := range limits {
				from, to := from, to
				for _, k := range []float32{0, 0.5, 1, 1.5, 100} {
					k := k
					list = append(list, adjust{fmt.Sprintf("saturation times %g for hues %g to %g", k, from, to), hsl.NewOpHSLSelectiveSaturation(from, to, k), k == 1,
						func(p pixel, loc, sc float32) (pixel, bool) {
							edge := p[0] == from || p[0] == to
							if inHues(p[0], from, to) {
								p[1] = float32(clamp(float64(p[1]*k), 0, 1))
							}
							return p, !edge
						}, true})
				}
				for _, off := range []float32{-350, -30, 0, 15, 90, 350} {
					for _, sigma := range []float32{-9, 0, 1} {
						off, sigma := off, sigma
						list = append(list, adjust{fmt.Sprintf("hue rotation by %g for hues %g to %g above %g sigma", off, from, to, sigma), hsl.NewOpHSLRotateHue(from, to, off, sigma), off == 0,
							func(p pixel, loc, sc float32) (pixel, bool) {
								at := loc + sc*sigma
								edge := p[0] == from || p[0] == to
								if p[2] >= at && inHues(p[0], from, to) {
									p[0] += off
								}
								return p, !edge && (!near(p[2], at, 1e-5) || sigma == 0 && p[2] == at)
							}, true})
					}
				}
			}
		}
		sig := []float32{-9, -1, 0, 0.5, 1, 2, 9}
		for _, a := range sig {
			for _, b := range sig {
				a, b := a, b
				list = append(list, adjust{fmt.Sprintf("background neutralisation below %g, to %g sigma", a, b), hsl.NewOpHSLNeutralizeBackground(a, b), a <= 0 && b <= 0,
					func(p pixel, loc, sc float32) (pixel, bool) {
						low, high := loc+a*sc, loc+b*sc
						judged := !near(p[2], low, 1e-5) || high > low+1e-4
						switch {
						case p[2] < low:
							p[1] = 0
						case p[2] < high:
							p[1] *= (p[2] - low) / (high - low)
						}
						return p, judged
					}, true})
			}
		}
		for _, k := range []float32{0, 0.25, 0.5, 1} {
			k := k
			list = append(list, adjust{fmt.Sprintf("green noise reduction by %g", k), hsl.NewOpHSLSCNR(k), k == 0,
				func(p pixel, loc, sc float32) (pixel, bool) {
					r, g, b := colorful.HSLuv(float64(p[0]), float64(p[1]), float64(p[2])).LinearRgb()
					g2 := math.Min(g, (r+b)/2)
					h, s, _ := hsluv(r, float64(k)*g2+(1-float64(k))*g, b)
					// hue and saturation of nearly gray and nearly black colors are ill-conditioned
					return pixel{float32(h), float32(s), p[2]}, s > 0.02 && p[2] > 0.01 && p[2] < 0.99
				}, true})
		}
		for ch := 0; ch < 3; ch++ {
			for _, k := range [][2]float32{{1, 0}, {0.5, 0.1}, {1, 0.25}, {0, 0.5}, {0.25, 0}} {
				ch, k := ch, k
				list = append(list, adjust{fmt.Sprintf("channel %d times %g plus %g", ch, k[0], k[1]), hsl.NewOpHSLScaleOffsetChannel(ch, k[0], k[1]), k[0] == 1 && k[1] == 0,
					func(p pixel, loc, sc float32) (pixel, bool) { p[ch] = p[ch]*k[0] + k[1]; return p, p[0] < 360 }, false})
			}
		}
		var lums [][]float32
		lums = append(lums, []float32{0.25, 0.5, 0.75}, []float32{0, 0.02, 0.1, 0.3, 1}, []float32{0.5}, []float32{0.01, 0.01, 0.01, 0.01, 0.9}, []float32{0.25, 0.375, 0.5, 0.625, 0.75, 1, 0})
		c.Shards("adjust", len(list), func(s *vx.S) {
			a := list[s.ID]
			for _, ls := range lums {
				for rot := 0; rot < 3; rot++ {
					var px []pixel
					for i, h := range hues {
						for j, sa := range sats {
							for k, l := range ls {
								if rot == 0 || (i+j+k)%2 == rot-1 {
									px = append(px, pixel{h, sa, l})
								}
							}
						}
					}
					s.States(len(px))
					s.Check(func() string { return fmt.Sprintf("%s on luminances %v (part %d)", a.name, ls, rot) }, func() error { return check(s, a, px) })
				}
			}
		})
		c.Bound("%d adjustments x 3 parts of %d hues x %d saturations x %d luminance sets", len(list), len(hues), len(sats), len(lums))

		// sizes of real frames
		c.Bound("all adjustments on 131072 and 66003 pixels")
		c.Shards("large", len(list), func(s *vx.S) {
			n := 131072
			if s.ID%2 == 1 {
				n = 66003
			}
			px := make([]pixel, n)
			for i := range px {
				px[i] = pixel{hues[i%len(hues)], sats[i/7%len(sats)], float32(i*37%1009) / 1008}
			}
			s.Check(func() string { return fmt.Sprintf("%s on %d pixels", list[s.ID].name, n) }, func() error { return check(s, list[s.ID], px) })
		})

		// green noise reduction judged in RGB: colors without green excess keep their look, others lose green relative to red and blue
		c.Serial("scnr", 1, func(s *vx.S) {
			v := []float32{0, 0.05, 0.2, 0.5, 0.8, 1}
			for _, k := range []float32{0.25, 1} {
				for _, r := range v {
					for _, g := range v {
						for _, b := range v {
							s.Check(func() string { return fmt.Sprintf("green noise reduction by %g of RGB %g,%g,%g", k, r, g, b) }, func() error {
								f := image([]pixel{{r, g, b}, {0.5, 0.5, 0.5}})
								for _, o := range []applier{rgb.NewOpRGBToHSLuv(), hsl.NewOpHSLSCNR(k), rgb.NewOpHSLuvToRGB()} {
									if err := apply(o, f, ctx()); err != nil {
										return err
									}
								}
								q := at(f, 0)
								if !finite(q) {
									return vx.Fail("finite", "became %v", q)
								}
								if g <= (r+b)/2 && !(near(q[0], r, 3e-3) && near(q[1], g, 3e-3) && near(q[2], b, 3e-3)) {
									return vx.Fail("scnr-neutral", "no excess of green, but became %v", q)
								}
								if ex := float64(q[1] - (q[0]+q[2])/2); g > (r+b)/2 && (ex > float64(g-(r+b)/2)+1e-3) {
									return vx.Fail("scnr-more", "became %v, excess of green %g", q, ex)
								}
								return nil
							})
						}
					}
				}
			}
		})

		// luminance replacement
		c.Serial("luminance", 1, func(s *vx.S) {
			var vals []float32
			for i := 0; i <= 64; i++ {
				vals = append(vals, float32(i)/64)
			}
			vals = append(vals, 1e-6, 1e-3, 0.999999)
			for _, with := range []bool{true, false} {
				s.Check(func() string { return fmt.Sprintf("luminance replacement, luminance frame %v", with) }, func() error {
					var px []pixel
					for i := range vals {
						px = append(px, pixel{float32(i * 5), float32(i%7) / 7, 0.3})
					}
					f := image(px)
					before := append([]float32(nil), f.Data...)
					cc := ctx()
					var lum *fits.Image
					if with {
						lum = fits.NewImageFromNaxisn([]int32{int32(len(vals)), 1}, append([]float32(nil), vals...))
						lum.Exposure = 7
						lum.Stats = stats.NewStats(lum.Data, int32(len(vals)))
						cc.LumFrame = lum
					}
					if err := apply(hsl.NewOpHSLApplyLum(), f, cc); err != nil {
						return err
					}
					if cc.LumFrame != nil {
						return vx.Fail("lum-again", "luminance frame would be applied again")
					}
					if !with {
						if !fx.SameBits(before, f.Data) || f.Exposure != 1.5 {
							return vx.Fail("lum-none", "no luminance frame, but pixels changed to %v", f.Data)
						}
						return nil
					}
					n := len(vals)
					if !fx.SameBits(before[:2*n], f.Data[:2*n]) {
						return vx.Fail("lum-color", "hue or saturation changed to %v", f.Data[:2*n])
					}
					if f.Exposure != 8.5 {
						return vx.Fail("lum-exposure", "exposure %g", f.Exposure)
					}
					for i, v := range vals {
						_, _, l := hsluv(float64(v), float64(v), float64(v))
						if !near(f.Data[2*n+i], float32(l), 1e-5) {
							return vx.Fail("lum", "luminance %g became %g, expected %g", v, f.Data[2*n+i], l)
						}
					}
					return nil
				})
			}
			for _, ch := range []int{-1, 3, 100} {
				s.Check(func() string { return fmt.Sprintf("scaling channel %d", ch) }, func() error {
					f := image([]pixel{{1, 0.5, 0.5}, {2, 0.3, 0.1}})
					if r, err := hsl.NewOpHSLScaleOffsetChannel(ch, 0.5, 0.1).Apply(f, ctx()); err == nil || r != nil {
						return vx.Fail("channel", "result %v error %v", r, err)
					}
					return nil
				})
			}
		})
	})
}
