package main

import (
	"errors"
	"fmt"
	"io"
	"math"

	colorful "github.com/lucasb-eyer/go-colorful"
	"github.com/mlnoga/nightlight/internal/fits"
	"github.com/mlnoga/nightlight/internal/ops"
	"github.com/mlnoga/nightlight/internal/ops/hsl"
	"github.com/mlnoga/nightlight/internal/ops/rgb"
	"github.com/mlnoga/nightlight/internal/star"
	"github.com/mlnoga/nightlight/internal/stats"
	"github.com/mlnoga/nightlight/internal/zzverif/fx"
	"github.com/mlnoga/nightlight/internal/zzverif/vx"
)

func ctx() *ops.Context { return ops.NewContext(io.Discard, 100, stats.LSEMeanStdDev) }

func mono(id int, dims []int32, data []float32) *fits.Image {
	f := fits.NewImageFromNaxisn(dims, append([]float32(nil), data...))
	f.ID, f.Exposure = id, float32(id+1)
	return f
}

// combine runs the combination step as part of a pipeline (maxThreads>0) or directly.
func combine(fs []*fits.Image, fail int, c *ops.Context, maxThreads int) (*fits.Image, error) {
	op := rgb.NewOpRGBCombine()
	if maxThreads == 0 {
		return op.Apply(fs, c)
	}
	c.MaxThreads = maxThreads
	var ins []ops.Promise
	for i := range fs {
		i := i
		ins = append(ins, func() (*fits.Image, error) {
			if i == fail {
				return nil, errors.New("no such frame")
			}
			return fs[i], nil
		})
	}
	outs, err := op.MakePromises(ins, c)
	if err != nil {
		return nil, err
	}
	if len(outs) != 1 {
		return nil, vx.Fail("outputs", "%d outputs", len(outs))
	}
	return outs[0]()
}

func checkCombined(s *vx.S, dims []int32, data [][]float32, threads int) error {
	c := ctx()
	stars := []star.Star{{Index: 1, HFR: 2}}
	c.AlignStars, c.AlignHFR = stars, 2.5
	var fs []*fits.Image
	for i, d := range data {
		fs = append(fs, mono(i, dims, d))
	}
	f, err := combine(fs, -1, c, threads)
	if err != nil || f == nil {
		return vx.Fail("error", "result %v error %v", f, err)
	}
	s.Outcome(vx.HashF(f.Data))
	for i, d := range data {
		if !fx.SameBits(fs[i].Data, d) || !fx.EqI32(fs[i].Naxisn, dims...) {
			return vx.Fail("input", "input %d changed to %v", i, fs[i].Data)
		}
	}
	n := len(data[0])
	if !fx.EqI32(f.Naxisn, dims[0], dims[1], 3) || int(f.Pixels) != 3*n || len(f.Data) != 3*n {
		return vx.Fail("size", "result has axes %v, %d pixels, %d values", f.Naxisn, f.Pixels, len(f.Data))
	}
	if f.Exposure != 6 {
		return vx.Fail("exposure", "exposure %g", f.Exposure)
	}
	if len(f.Stars) != 1 || f.Stars[0] != stars[0] || f.HFR != 2.5 {
		return vx.Fail("stars", "stars %v, HFR %g", f.Stars, f.HFR)
	}
	if (len(data) == 4) != (c.LumFrame != nil) || c.LumFrame != nil && c.LumFrame != fs[3] {
		return vx.Fail("luminance", "%d inputs, luminance frame %v", len(data), c.LumFrame)
	}
	lo, hi := math.Inf(1), math.Inf(-1)
	for _, d := range data[:3] {
		for _, v := range d {
			lo, hi = math.Min(lo, float64(v)), math.Max(hi, float64(v))
		}
	}
	for ch, d := range data[:3] {
		for i, v := range d {
			got := f.Data[ch*n+i]
			if hi == lo {
				if !(got >= 0 && got <= 1) || got != f.Data[0] {
					return vx.Fail("constant", "all values are %g, pixel %d of channel %d is %g", v, i, ch, got)
				}
				continue
			}
			want := (float64(v) - lo) / (hi - lo)
			if !(math.Abs(float64(got)-want) <= 1e-6) || got < 0 || got > 1 || float64(v) == lo && got != 0 || float64(v) == hi && got != 1 {
				return vx.Fail("value", "range %g to %g: value %g of channel %d is %g, expected %g", lo, hi, v, ch, got, want)
			}
		}
	}
	if a, b := f.Stats.Max(), stats.NewStats(append([]float32(nil), f.Data...), dims[0]).Max(); a != b {
		return vx.Fail("stats", "maximum reported as %g, is %g", a, b)
	}
	return nil
}

type balance struct {
	w, h                 int
	block                int
	border, bright, dim  float32
	shadows, highlights  fits.RGB
	stars                []star.Star
	data                 []float32
	decided, wellDefined bool
}

func three(c fits.RGB) [3]float64 { return [3]float64{float64(c.R), float64(c.G), float64(c.B)} }

// apply is one balancing pass of the oracle: one linear map per channel, clipped to [0,1].
func (b *balance) apply(img []float64, dark, light [3]float64) ([]float64, bool) {
	n := b.w * b.h
	var d, l float64
	for c := range dark {
		d += dark[c] / 3
		l += light[c] / 3
	}
	out := make([]float64, len(img))
	for c := range dark {
		if dark[c] == light[c] {
			return nil, false
		}
		if math.Abs(light[c]-dark[c]) < 1e-2*(math.Abs(light[c])+math.Abs(dark[c])) {
			b.wellDefined = false
		}
		a := (three(b.highlights)[c]*l - three(b.shadows)[c]*d) / (light[c] - dark[c])
		o := three(b.shadows)[c]*d - a*dark[c]
		if math.Abs(a) > 30 {
			b.wellDefined = false
		}
		for i := c * n; i < c*n+n; i++ {
			out[i] = math.Max(0, math.Min(1, a*img[i]+o))
		}
	}
	return out, true
}

// want is the oracle for balancing.
func (b *balance) want() (out []float64, ok bool) {
	n := b.w * b.h
	b.wellDefined = true
	img := make([]float64, len(b.data))
	for i, v := range b.data {
		img[i] = float64(v)
	}
	var dark, light [3]float64
	for c := 0; c < 3; c++ {
		st := stats.NewStats(append([]float32(nil), b.data[c*n:c*n+n]...), int32(b.w))
		dark[c], light[c] = float64(st.Location()), float64(st.Location()+3*st.Scale())
	}
	img, ok = b.apply(img, dark, light)
	if !ok {
		return nil, false
	}

	// darkest complete block inside of the border
	if b.block <= 0 || b.border < 0 {
		return nil, false
	}
	x0, y0 := int(float32(b.w)*b.border)/b.block*b.block, int(float32(b.h)*b.border)/b.block*b.block
	x1, y1 := (b.w-x0)/b.block*b.block, (b.h-y0)/b.block*b.block
	best, second := math.Inf(1), math.Inf(1)
	for y := y0; y < y1; y += b.block {
		for x := x0; x < x1; x += b.block {
			var sum [3]float64
			for i := 0; i < b.block*b.block; i++ {
				at := (y+i/b.block)*b.w + x + i%b.block
				for c := range sum {
					sum[c] += img[c*n+at] / float64(b.block*b.block)
				}
			}
			if l := sum[0] + sum[1] + sum[2]; l < best {
				second, best, dark = best, l, sum
			} else if l < second {
				second = l
			}
		}
	}
	if math.IsInf(best, 1) {
		return nil, false
	}
	if second-best < 1e-5 {
		b.wellDefined = false
	}

	// mean of unclipped star pixels
	from, to := int(float32(len(b.stars))*b.bright), len(b.stars)-int(float32(len(b.stars))*b.dim)
	if len(b.stars) == 0 || from < 0 || from >= to || to > len(b.stars) {
		return nil, false
	}
	var clip [3]float64
	for c := range clip {
		for _, v := range img[c*n : c*n+n] {
			clip[c] = math.Max(clip[c], v)
		}
		clip[c] *= 0.9
	}
	var sum [3]float64
	pixels := 0.0
	for _, s := range b.stars[from:to] {
		r := float64(s.HFR) * 0.75
		sx, sy := int(s.Index)%b.w, int(s.Index)/b.w
		for y := 0; y < b.h; y++ {
			for x := 0; x < b.w; x++ {
				dx, dy := float64(x-sx), float64(y-sy)
				if dist := math.Sqrt(dx*dx + dy*dy); dist > r+0.01 || math.Abs(dx) > math.Floor(r+0.5) || math.Abs(dy) > math.Floor(r+0.5) {
					continue
				}
				ok := true
				for c := range clip {
					v := img[c*n+y*b.w+x]
					if math.Abs(v-clip[c]) < 1e-5 {
						b.wellDefined = false
					}
					ok = ok && v < clip[c]
				}
				if ok {
					pixels++
					for c := range sum {
						sum[c] += img[c*n+y*b.w+x]
					}
				}
			}
		}
	}
	if pixels == 0 {
		return nil, false
	}
	for c := range sum {
		light[c] = sum[c] / pixels
	}
	return b.apply(img, dark, light)
}

func (b *balance) run() (*fits.Image, error) {
	f := fits.NewImageFromNaxisn([]int32{int32(b.w), int32(b.h), 3}, append([]float32(nil), b.data...))
	f.ID, f.Exposure, f.Stars = 4, 2, append([]star.Star(nil), b.stars...)
	f.Stats.Max()
	f.Stats.Location()
	return rgb.NewOpRGBBalance(int32(b.block), b.border, b.bright, b.dim, b.shadows, b.highlights).Apply(f, ctx())
}

func (b *balance) check(s *vx.S) error {
	want, ok := b.want()
	f, err := b.run()
	if !b.wellDefined { // still no crash and no NaN
		if err == nil {
			for _, v := range f.Data {
				if math.IsNaN(float64(v)) || v < 0 || v > 1 {
					return vx.Fail("range", "value %g", v)
				}
			}
		}
		return nil
	}
	if !ok {
		s.Outcome(1)
		if err == nil {
			return vx.Fail("unbalanced", "balancing is impossible, but result is %.3g", f.Data)
		}
		return nil
	}
	if err != nil || f == nil {
		return vx.Fail("error", "result %v error %v", f, err)
	}
	b.decided = true
	s.Outcome(vx.HashF(f.Data))
	if !fx.EqI32(f.Naxisn, int32(b.w), int32(b.h), 3) || len(f.Data) != len(b.data) || f.ID != 4 || f.Exposure != 2 || len(f.Stars) != len(b.stars) {
		return vx.Fail("result", "axes %v, ID %d, exposure %g, %d stars", f.Naxisn, f.ID, f.Exposure, len(f.Stars))
	}
	for i, v := range f.Data {
		if !(math.Abs(float64(v)-want[i]) <= 2e-4) {
			n := b.w * b.h
			return vx.Fail("balance", "channel %d pixel %d,%d with value %g became %g, expected %g", i/n, i%n%b.w, i%n/b.w, b.data[i], v, want[i])
		}
	}
	if a, m := f.Stats.Max(), stats.NewStats(append([]float32(nil), f.Data...), int32(b.w)).Max(); a != m {
		return vx.Fail("stats", "maximum reported as %g, is %g", a, m)
	}

	// the same for other orders of the channels
	n := b.w * b.h
	for _, p := range [][3]int{{1, 0, 2}, {2, 1, 0}, {1, 2, 0}} {
		q := *b
		q.data = nil
		sh, hi := three(b.shadows), three(b.highlights)
		for _, c := range p {
			q.data = append(q.data, b.data[c*n:c*n+n]...)
		}
		q.shadows = fits.RGB{R: float32(sh[p[0]]), G: float32(sh[p[1]]), B: float32(sh[p[2]])}
		q.highlights = fits.RGB{R: float32(hi[p[0]]), G: float32(hi[p[1]]), B: float32(hi[p[2]])}
		g, err := q.run()
		if err != nil {
			return vx.Fail("order-error", "with channels %v: error %v", p, err)
		}
		for i, c := range p {
			for j := 0; j < n; j++ {
				if !(math.Abs(float64(g.Data[i*n+j]-f.Data[c*n+j])) <= 2e-4) {
					return vx.Fail("order", "with channels %v: channel %d pixel %d is %g, expected %g", p, i, j, g.Data[i*n+j], f.Data[c*n+j])
				}
			}
		}
	}
	return nil
}

// sky makes an image with noisy background, one darker block, and stars. All values are determined by the arguments.
func sky(w, h, block, dark int, stars []star.Star, bright float32) []float32 {
	n := w * h
	d := make([]float32, 3*n)
	for c := 0; c < 3; c++ {
		for i := 0; i < n; i++ {
			x, y := i%w, i/w
			v := 0.1 + 0.03*float32(c) + 0.02*float32((x*7+y*13+c*5+x*y)%11)/11
			if block > 0 && x/block+(w/block)*(y/block) == dark && x/block < w/block {
				v -= 0.06 - 0.01*float32(c)
			}
			for k, s := range stars {
				dx, dy := float64(x-int(s.Index)%w), float64(y-int(s.Index)/w)
				v += (bright + 0.02*float32(k) - 0.03*float32(c*(k%3))) * float32(math.Exp(-(dx*dx+dy*dy)/1.3))
			}
			if v > 1 {
				v = 1
			}
			d[c*n+i] = v
		}
	}
	return d
}

func main() {
	vx.Main("P26", "model_checking", func(c *vx.C) {
		stats.LSEstimator = stats.LSEMeanStdDev
		values := []float32{-5, 0, 0.5, 7, 1234.5, 65535}

		// combination
		var cases [][][]float32
		dims := [][]int32{}
		add := func(d []int32, frames [][]float32) { dims, cases = append(dims, d), append(cases, frames) }
		fx.Vectors(3, len(values), func(v []int) {
			add([]int32{1, 1}, [][]float32{{values[v[0]]}, {values[v[1]]}, {values[v[2]]}})
			add([]int32{1, 1}, [][]float32{{values[v[0]]}, {values[v[1]]}, {values[v[2]]}, {values[(v[0]+1)%6]}})
		})
		fx.Vectors(6, 3, func(v []int) {
			at := func(i int) float32 { return values[1+v[i]] }
			add([]int32{2, 1}, [][]float32{{at(0), at(1)}, {at(2), at(3)}, {at(4), at(5)}})
			add([]int32{1, 2}, [][]float32{{at(0), at(1)}, {at(2), at(3)}, {at(4), at(5)}, {-3, 70000}})
		})
		for _, d := range [][]int32{{3, 2}, {2, 3}, {5, 4}, {17, 9}, {64, 33}, {1, 1000}} {
			for k := 3; k <= 4; k++ {
				for _, scale := range []float32{1, 1e-3, 65535, 1e30, 1e-30} {
					for _, off := range []float32{0, -0.5, 10} {
						var frames [][]float32
						for i := 0; i < k; i++ {
							f := make([]float32, d[0]*d[1])
							for j := range f {
								f[j] = (float32((j*7919+i*104729)%1000)/999 + off) * scale
							}
							frames = append(frames, f)
						}
						add(d, frames)
					}
				}
			}
		}
		c.Shards("combine", len(cases), func(s *vx.S) {
			for threads := 0; threads <= 4; threads++ {
				s.States(1)
				s.Check(func() string {
					return fmt.Sprintf("combining %d frames of size %v, %d threads: %.9g", len(cases[s.ID]), dims[s.ID], threads, cases[s.ID])
				}, func() error { return checkCombined(s, dims[s.ID], cases[s.ID], threads) })
			}
		})
		c.Bound("%d combinations of frames, directly and in a pipeline with 1 to 4 threads", len(cases))

		// sizes of real frames
		c.Shards("combine-large", 8, func(s *vx.S) {
			d := [][]int32{{613, 511}, {3, 70001}, {66003, 2}, {1024, 512}}[s.ID%4]
			var frames [][]float32
			for i := 0; i < 3+s.ID/4; i++ {
				f := make([]float32, d[0]*d[1])
				for j := range f {
					f[j] = float32((j*7919 + i*104729) % 65521)
				}
				f[len(f)-1-i] = float32(70000 - 71000*(i%2))
				frames = append(frames, f)
			}
			s.Check(func() string { return fmt.Sprintf("combining %d frames of size %v", len(frames), d) }, func() error { return checkCombined(s, d, frames, s.ID%5) })
		})
		c.Bound("large frames up to 1024x512, 66003x2 and 3x70001")
		c.Serial("reject", 1, func(s *vx.S) {
			sizes := [][]int32{{2, 3}, {3, 2}, {6, 1}, {2, 2}, {1, 1}, {2, 3, 3}, {6, 3, 3}}
			mk := func(v []int) (fs []*fits.Image, bad bool) {
				for i, k := range v {
					n := int32(1)
					for _, a := range sizes[k] {
						n *= a
					}
					d := make([]float32, n)
					for j := range d {
						d[j] = float32(j + i)
					}
					fs = append(fs, mono(i, sizes[k], d))
					bad = bad || k != v[0] || len(sizes[k]) > 2
				}
				return fs, bad
			}
			for k := 0; k <= 4; k++ {
				fx.Vectors(k, len(sizes), func(v []int) {
					for _, threads := range []int{0, 3} {
						s.Check(func() string {
							return fmt.Sprintf("combining frames of sizes %v (kinds %v), %d threads", sizes, v, threads)
						}, func() error {
							fs, bad := mk(v)
							c := ctx()
							f, err := combine(fs, -1, c, threads)
							if want := bad || k < 3; (err != nil) != want || (f == nil) != want {
								return vx.Fail("accept", "result %v error %v", f, err)
							}
							if err != nil && c.LumFrame != nil {
								return vx.Fail("accept-lum", "rejected, but luminance frame kept")
							}
							return nil
						})
					}
				})
			}
			for k := 0; k <= 8; k++ {
				for fail := -1; fail < k; fail++ {
					for _, threads := range []int{0, 1, 4} {
						if fail >= 0 && threads == 0 {
							continue
						}
						s.Check(func() string {
							return fmt.Sprintf("combining %d equal frames, frame %d fails, %d threads", k, fail, threads)
						}, func() error {
							fs, _ := mk(make([]int, k))
							f, err := combine(fs, fail, ctx(), threads)
							if want := k < 3 || k > 4 || fail >= 0; (err != nil) != want || (f == nil) != want {
								return vx.Fail("count", "result %v error %v", f, err)
							}
							return nil
						})
					}
				}
			}
		})

		// luminance, from the raw frame
		c.Serial("luminance", 1, func(s *vx.S) {
			for _, r := range [][2]float32{{0, 1}, {0.1, 0.4}, {0, 65535}, {100, 300}, {-1, 1}, {-5, -2}} {
				s.Check(func() string { return fmt.Sprintf("luminance frame with values from %g to %g", r[0], r[1]) }, func() error {
					const n = 101
					var ch [4][]float32
					for i := 0; i < n; i++ {
						for k := 0; k < 3; k++ {
							ch[k] = append(ch[k], float32((i*(k+3))%17))
						}
						ch[3] = append(ch[3], r[0]+(r[1]-r[0])*float32(i)/(n-1))
					}
					var fs []*fits.Image
					for i, d := range ch {
						fs = append(fs, mono(i, []int32{n, 1}, d))
					}
					c := ctx()
					f, err := combine(fs, -1, c, 0)
					if err == nil {
						f, err = rgb.NewOpRGBToHSLuv().Apply(f, c)
					}
					if err == nil {
						f, err = hsl.NewOpHSLApplyLum().Apply(f, c)
					}
					if err != nil {
						return vx.Fail("error", "%v", err)
					}
					lo, hi := float64(0), float64(1)
					if r[0] < 0 || r[1] > 1 {
						lo, hi = float64(r[0]), float64(r[1])
					}
					for i, v := range ch[3] {
						t := (float64(v) - lo) / (hi - lo)
						_, _, l := colorful.LinearRgb(t, t, t).HSLuv()
						if got := f.Data[2*n+i]; !(math.Abs(float64(got)-l) <= 1e-5) {
							return vx.Fail("lum", "luminance %g became %g, expected %g", v, got, l)
						}
					}
					if f.Exposure != 10 {
						return vx.Fail("lum-exposure", "exposure %g", f.Exposure)
					}
					return nil
				})
			}
			for _, dims := range [][]int32{{2, 3}, {6, 1}, {4, 4}, {3, 2, 3}, {1, 1}} {
				s.Check(func() string { return fmt.Sprintf("luminance frame of size %v for image of size 3x2", dims) }, func() error {
					n := int32(1)
					for _, a := range dims {
						n *= a
					}
					c := ctx()
					c.LumFrame = mono(1, dims, make([]float32, n))
					f := mono(2, []int32{3, 2, 3}, make([]float32, 18))
					if r, err := hsl.NewOpHSLApplyLum().Apply(f, c); err == nil {
						return vx.Fail("lum-size", "result %v", r)
					}
					return nil
				})
			}
		})

		// balancing
		tints := []fits.RGB{{R: 1, G: 1, B: 1}, {R: 1, G: 1.03, B: 1.01}, {R: 0.902, G: 0.99, B: 0.955}, {R: 0.5, G: 1.2, B: 0.8}}
		type geo struct{ w, h, block int }
		geos := []geo{{12, 9, 3}, {10, 10, 2}, {9, 12, 4}, {8, 8, 1}, {11, 7, 3}, {20, 16, 5}}
		if c.Thorough {
			geos = append(geos, geo{24, 17, 4}, geo{33, 20, 6}, geo{16, 31, 5})
		}
		type gd struct {
			geo
			dark int
		}
		var work []gd
		for _, g := range geos {
			for d := 0; d < (g.w/g.block)*(g.h/g.block); d++ {
				work = append(work, gd{g, d})
			}
		}
		c.Shards("balance", len(work), func(s *vx.S) {
			g := work[s.ID]
			decided := 0
			for set := 0; set < 6; set++ {
				var stars []star.Star
				for k := 0; k < 1+set*set%7; k++ {
					stars = append(stars, star.Star{Index: int32((k*37 + set*11 + k*k*5) % (g.w * g.h)), HFR: []float32{0.6, 1.4, 2, 2.7}[(k+set)%4]})
				}
				for _, border := range []float32{0, 0.1, 0.25, 0.4} {
					for _, skip := range [][2]float32{{0, 0}, {0.25, 0}, {0, 0.75}, {0.25, 0.25}, {0.5, 0.5}} {
						for i, sh := range tints {
							hi := tints[(i+set)%len(tints)]
							if set == 5 {
								sh = fits.RGB{}
							}
							b := &balance{w: g.w, h: g.h, block: g.block, border: border, bright: skip[0], dim: skip[1], shadows: sh, highlights: hi, stars: stars}
							b.data = sky(g.w, g.h, g.block, g.dark, stars, []float32{0.3, 0.5, 0.8}[set%3])
							s.States(1)
							s.Check(func() string {
								return fmt.Sprintf("balancing %dx%d pixels, dark block %d of size %d, border %g, stars %v (skipping %v), shadows %v highlights %v", g.w, g.h, g.dark, g.block, border, stars, skip, sh, hi)
							}, func() error { return b.check(s) })
							if b.decided {
								decided++
							}
						}
					}
				}
			}
			s.Transitions(decided)
		})
		c.Bound("%d images (each position of the darkest block) x 6 star sets x 4 borders x 5 selections x 4 tints", len(work))

		c.Shards("balance-large", 12, func(s *vx.S) {
			g := []geo{{330, 260, 16}, {300, 301, 7}, {70, 1003, 8}, {1003, 70, 33}}[s.ID%4]
			var stars []star.Star
			for k := 0; k < []int{20, 150, 300}[s.ID/4]; k++ {
				stars = append(stars, star.Star{Index: int32((k*7919 + k*k*5) % (g.w * g.h)), HFR: []float32{0.6, 1.4, 2, 4.7}[k%4]})
			}
			nb := (g.w / g.block) * (g.h / g.block)
			for _, dark := range []int{nb * 3 / 5, nb - 1, nb / 2} {
				b := &balance{w: g.w, h: g.h, block: g.block, border: 0.1, bright: 0.25, dim: 0.25, shadows: tints[s.ID%4], highlights: tints[1], stars: stars}
				b.data = sky(g.w, g.h, g.block, dark, nil, 0)
				for k, st := range stars {
					for c := 0; c < 3; c++ {
						for _, o := range []int{0, 1, -1, g.w, -g.w} {
							if i := int(st.Index) + o; i >= 0 && i < g.w*g.h {
								b.data[c*g.w*g.h+i] = 0.4 + 0.05*float32(c) + 0.002*float32(k%50)
							}
						}
					}
				}
				b.data[5*g.w/2+7] = 1
				s.Check(func() string {
					return fmt.Sprintf("balancing %dx%d pixels with %d stars, dark block %d of size %d", g.w, g.h, len(stars), dark, g.block)
				}, func() error {
					err := b.check(s)
					if b.decided {
						s.Transitions(1)
					}
					return err
				})
			}
		})
		// colors that cannot be balanced
		c.Serial("impossible", 1, func(s *vx.S) {
			one := fits.RGB{R: 1, G: 1, B: 1}
			stars := []star.Star{{Index: 40, HFR: 2}, {Index: 17, HFR: 1}, {Index: 70, HFR: 1}}
			data := sky(12, 9, 3, 2, stars, 0.5)
			for _, block := range []int{-1, 0, 1, 3, 5, 9, 10, 100} {
				for _, border := range []float32{-0.5, 0, 0.2, 0.45, 0.5, 1} {
					for _, skip := range [][2]float32{{0, 0}, {1, 0}, {0, 1}, {0.7, 0.7}, {-1, 0}, {0, -1}, {2, 2}} {
						b := &balance{w: 12, h: 9, block: block, border: border, bright: skip[0], dim: skip[1], shadows: one, highlights: one, stars: stars, data: data}
						s.Check(func() string {
							return fmt.Sprintf("balancing with block %d border %g stars skipping %v", block, border, skip)
						}, func() error { return b.check(s) })
					}
				}
			}
			for mask := 0; mask < 8; mask++ {
				for _, v := range []float32{0, 0.5, 1} {
					for _, k := range []int{0, 1, 3} {
						d := append([]float32(nil), data...)
						for i := range d {
							if mask>>(i/108)&1 == 1 {
								d[i] = v
							}
						}
						b := &balance{w: 12, h: 9, block: 3, border: 0.1, shadows: one, highlights: one, stars: stars[:k], data: d}
						s.Check(func() string {
							return fmt.Sprintf("balancing with constant channels %b of value %g and %d stars", mask, v, k)
						}, func() error { return b.check(s) })
					}
				}
			}
		})
	})
}
