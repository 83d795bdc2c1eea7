package main

import (
	"fmt"
	"io"
	"math"
	"sort"

	"github.com/klauspost/cpuid"
	"github.com/mlnoga/nightlight/internal/fits"
	"github.com/mlnoga/nightlight/internal/ops"
	"github.com/mlnoga/nightlight/internal/ops/pre"
	"github.com/mlnoga/nightlight/internal/stats"
	"github.com/mlnoga/nightlight/internal/zzverif/fx"
	"github.com/mlnoga/nightlight/internal/zzverif/vx"
)

// med is the definition: the middle value, or the mean of the two middle values.
func med(v []float64) float64 {
	s := append([]float64(nil), v...)
	sort.Float64s(s)
	n := len(s)
	if n&1 == 1 {
		return s[n/2]
	}
	return 0.5 * (s[n/2-1] + s[n/2])
}

var cfas = []string{"RGGB", "GRBG", "GBRG", "BGGR"}

// colour of a pixel, from the name of the arrangement read as a 2x2 tile
func colour(cfa string, x, y int) byte { return cfa[(y&1)*2+(x&1)] }

// hood lists the 3x3 neighbourhood (in the lattice of the pixel's own colour) inside the image, centre included
func hood(col byte, w, h, x, y int) (idx []int) {
	add := func(dx, dy int) {
		if x+dx >= 0 && x+dx < w && y+dy >= 0 && y+dy < h {
			idx = append(idx, (y+dy)*w+x+dx)
		}
	}
	switch col {
	case 'M':
		for dy := -1; dy <= 1; dy++ {
			for dx := -1; dx <= 1; dx++ {
				add(dx, dy)
			}
		}
	case 'G': // the green lattice is rotated by 45 degrees
		for a := -1; a <= 1; a++ {
			for b := -1; b <= 1; b++ {
				add(a+b, a-b)
			}
		}
	default:
		for dy := -2; dy <= 2; dy += 2 {
			for dx := -2; dx <= 2; dx += 2 {
				add(dx, dy)
			}
		}
	}
	return
}

type job struct {
	chn, cfa string // "" for monochrome
	w, h     int
	lo, hi   float32
}

func (j job) String() string {
	return fmt.Sprintf("%dx%d channel %q cfa %q sigma %g/%g", j.w, j.h, j.chn, j.cfa, j.lo, j.hi)
}

func run(j job, d []float32) ([]float32, *fits.Image, error) {
	f := fits.NewImageFromNaxisn([]int32{int32(j.w), int32(j.h)}, append([]float32(nil), d...))
	f.Stats = stats.NewStats(f.Data, int32(j.w))
	var deb *pre.OpDebayer
	if j.chn != "" {
		deb = pre.NewOpDebayer(j.chn, j.cfa)
	}
	op := pre.NewOpBadPixel(j.lo, j.hi, deb)
	c := ops.NewContext(io.Discard, 100, stats.LSEMeanStdDev)
	g, err := op.Apply(f, c)
	if err != nil {
		return nil, nil, err
	}
	return g.Data, g, nil
}

func check(j job, d []float32, s *vx.S) error {
	got, f, err := run(j, d)
	if err != nil {
		return vx.Fail("error", "%v: %v", j, err)
	}
	if len(got) != len(d) || !fx.EqI32(f.Naxisn, int32(j.w), int32(j.h)) {
		return vx.Fail("dims", "%v: result has %v, %d pixels", j, f.Naxisn, len(got))
	}
	s.Outcome(vx.HashF(got))
	// the same image in other units
	const u = float32(1) / 16384
	e := make([]float32, len(d))
	for i, v := range d {
		e[i] = v * u
	}
	if g, _, err := run(j, e); err != nil {
		return vx.Fail("error", "%v: %v", j, err)
	} else {
		for i := range g {
			if g[i] != got[i]*u {
				return vx.Fail("units", "%v: pixel %d of %g became %g, but with all values divided by 16384 it becomes %g (expected %g); image %v", j, i, d[i], got[i], g[i], got[i]*u, cut(d))
			}
		}
	}
	// deviations from the local median
	n := len(d)
	dev, in := make([]float64, n), make([]bool, n)
	meds := make([]float64, n)
	hoods := make([][]int, n)
	var sum, cnt float64
	var amp float64
	for i := range d {
		amp = math.Max(amp, math.Abs(float64(d[i])))
	}
	for y := 0; y < j.h; y++ {
		for x := 0; x < j.w; x++ {
			i := y*j.w + x
			col := byte('M')
			if j.chn != "" {
				col = colour(j.cfa, x, y)
				if col != j.chn[0]&^0x20 {
					continue
				}
			}
			in[i] = true
			hoods[i] = hood(col, j.w, j.h, x, y)
			if col == 'M' && (x == 0 || y == 0 || x == j.w-1 || y == j.h-1) {
				meds[i] = float64(d[i]) // no full neighbourhood, no deviation
			} else {
				var v []float64
				for _, k := range hoods[i] {
					v = append(v, float64(d[k]))
				}
				meds[i] = med(v)
			}
			dev[i] = float64(d[i]) - meds[i]
			sum += dev[i]
			cnt++
		}
	}
	sd := 0.0
	if cnt > 0 {
		mean := sum / cnt
		for i := range d {
			if in[i] {
				sd += (dev[i] - mean) * (dev[i] - mean)
			}
		}
		sd = math.Sqrt(sd / cnt)
	}
	tl, th := -sd*float64(j.lo), sd*float64(j.hi)
	eps := (2e-5+float64(n)*1e-9)*math.Max(math.Abs(tl), math.Abs(th)) + 1e-6*amp
	for i := range d {
		x, y := i%j.w, i/j.w
		same := got[i] == d[i]
		if !in[i] {
			if !same {
				return vx.Fail("other-changed", "%v: pixel (%d,%d) does not belong to the selected colour but changed from %g to %g; image %v", j, x, y, d[i], got[i], cut(d))
			}
			continue
		}
		out := dev[i] < tl-eps || dev[i] > th+eps
		inl := dev[i] > tl+eps && dev[i] < th-eps || dev[i] == 0
		if sd == 0 {
			inl, out = dev[i] == 0, false
		}
		if inl && !same {
			return vx.Fail("inlier-changed", "%v: pixel (%d,%d) deviates by %g, limits %g..%g, but changed from %g to %g; image %v", j, x, y, dev[i], tl, th, d[i], got[i], cut(d))
		}
		if !out {
			continue
		}
		// replaced by the median of its neighbourhood; bad pixels in the neighbourhood may have been replaced already
		ok := math.Abs(float64(got[i])-meds[i]) <= 1e-6*amp
		if !ok && j.chn == "" {
			var alt []int
			var v []float64
			for _, k := range hoods[i] {
				if k != i && got[k] != d[k] {
					alt = append(alt, len(v))
				}
				v = append(v, float64(d[k]))
			}
			for m := 0; m < 1<<uint(len(alt)) && !ok; m++ {
				u := append([]float64(nil), v...)
				for b, k := range alt {
					if m>>uint(b)&1 == 1 {
						u[k] = float64(got[hoods[i][k]])
					}
				}
				ok = math.Abs(float64(got[i])-med(u)) <= 1e-6*amp
			}
		}
		if !ok {
			return vx.Fail("replacement", "%v: outlier (%d,%d)=%g (deviation %g, limits %g..%g) became %g, median of its neighbourhood %g; image %v", j, x, y, d[i], dev[i], tl, th, got[i], meds[i], cut(d))
		}
	}
	return nil
}

func cut(d []float32) []float32 {
	if len(d) > 1000 {
		return d[:64]
	}
	return d
}

func one(s *vx.S, j job, d []float32) {
	s.Check(func() string { return fmt.Sprintf("bad pixels %v", j) }, func() error { return check(j, d, s) })
}

var sigmas = [][2]float32{{3, 5}, {1, 1}, {0.5, 2}, {2, 0.5}}

func base(kind, w, h int) []float32 {
	d := make([]float32, w*h)
	for i := range d {
		x, y := i%w, i/w
		switch kind {
		case 0:
			d[i] = 100
		case 1: // different level per colour of a 2x2 tile
			d[i] = 100 + 1000*float32(2*(y&1)+x&1)
		case 2:
			d[i] = float32(3*x + 5*y)
		case 3:
			d[i] = 50 + float32((x*7+y*13+x*y*3)%11)
		case 4:
			d[i] = -20 - float32((x*5+y*3)%7)
		}
	}
	return d
}

func main() {
	vx.Main("P09", "exploration", func(c *vx.C) {
		stats.LSEstimator = stats.LSEMeanStdDev
		vec := cpuid.CPU.AVX2()

		// all small images over a small set of values
		alpha := []float32{0, 1, 7}
		type dim struct{ w, h, k int }
		dims := []dim{{3, 3, 3}, {4, 3, 2}, {3, 4, 2}, {4, 4, 2}, {1, 5, 3}, {5, 1, 3}, {2, 3, 3}, {1, 1, 3}}
		if c.Thorough {
			dims = append(dims, dim{4, 3, 3}, dim{5, 4, 2}, dim{4, 5, 2})
		}
		var jobs []job
		for _, dm := range dims {
			for _, sg := range sigmas[:2] {
				jobs = append(jobs, job{"", "", dm.w, dm.h, sg[0], sg[1]})
				for _, cfa := range cfas {
					if dm.w*dm.h >= 16 && cfa != "RGGB" && cfa != "GBRG" && !c.Thorough {
						continue
					}
					for _, ch := range []string{"R", "G", "B"} {
						jobs = append(jobs, job{ch, cfa, dm.w, dm.h, sg[0], sg[1]})
					}
				}
			}
		}
		c.Bound("all images over %v (or its first two values) of sizes %v, mono and CFA", alpha, dims)
		c.Shards("all-small", len(jobs), func(s *vx.S) {
			j := jobs[s.ID]
			k := 3
			for _, dm := range dims {
				if dm.w == j.w && dm.h == j.h {
					k = dm.k
				}
			}
			d := make([]float32, j.w*j.h)
			fx.Vectors(j.w*j.h, k, func(v []int) {
				for i := range d {
					d[i] = alpha[v[i]]
				}
				one(s, j, d)
			})
		})

		// one and two outliers at every position
		maxW, maxH := 10, 6
		if c.Thorough {
			maxW, maxH = 19, 8
		}
		c.Bound("one outlier at every position, sizes 1..%dx1..%d plus widths 16..18, 5 backgrounds, 4 sigma pairs, mono and every CFA and colour", maxW, maxH)
		var sz [][2]int
		for w := 1; w <= maxW; w++ {
			for h := 1; h <= maxH; h++ {
				sz = append(sz, [2]int{w, h})
			}
		}
		for w := 16; w <= 18; w++ {
			sz = append(sz, [2]int{w, 5})
		}
		c.Shards("single", len(sz), func(s *vx.S) {
			w, h := sz[s.ID][0], sz[s.ID][1]
			for kind := 0; kind < 5; kind++ {
				b := base(kind, w, h)
				for _, sg := range sigmas {
					for ci := -1; ci < len(cfas)*3; ci++ {
						j := job{"", "", w, h, sg[0], sg[1]}
						if ci >= 0 {
							j.chn, j.cfa = []string{"R", "G", "B"}[ci%3], cfas[ci/3]
						}
						for p := 0; p < w*h; p++ {
							for _, amp := range []float32{500, -500} {
								o := b[p]
								b[p] += amp
								one(s, j, b)
								b[p] = o
							}
						}
						one(s, j, b)
					}
				}
			}
		})
		pw, ph := 7, 6
		c.Bound("two outliers at every pair of positions of %dx%d images, same and opposite sign", pw, ph)
		var pj []job
		for _, sg := range sigmas[:2] {
			pj = append(pj, job{"", "", pw, ph, sg[0], sg[1]}, job{"", "", ph, pw, sg[0], sg[1]})
			for _, cfa := range cfas {
				for _, ch := range []string{"R", "G", "B"} {
					pj = append(pj, job{ch, cfa, pw, ph, sg[0], sg[1]})
				}
			}
		}
		c.Shards("pairs", len(pj), func(s *vx.S) {
			j := pj[s.ID]
			for _, kind := range []int{0, 1, 3} {
				b := base(kind, j.w, j.h)
				for p := range b {
					for q := 0; q < p; q++ {
						for _, am := range [][2]float32{{500, 500}, {500, -700}, {-300, 900}} {
							o, r := b[p], b[q]
							b[p], b[q] = o+am[0], r+am[1]
							one(s, j, b)
							b[p], b[q] = o, r
						}
					}
				}
			}
		})
		// clusters of bad pixels
		c.Bound("every subset of a 3x3 cluster at every place of an 8x7 image")
		c.Shards("cluster", 2*6*5, func(s *vx.S) {
			w, h := 8, 7
			pos := s.ID / 2
			x0, y0 := pos%6, pos/6
			js := []job{{"", "", w, h, 1, 1}, {"", "", w, h, 3, 3}, {"R", "GRBG", w, h, 1, 1}, {"G", "GBRG", w, h, 1, 1}, {"B", "BGGR", w, h, 1, 1}}
			for m := 0; m < 512; m++ {
				b := base([]int{0, 3}[s.ID&1], w, h)
				for k := 0; k < 9; k++ {
					if m>>uint(k)&1 == 1 {
						b[(y0+k/3)*w+x0+k%3] += 300 + 40*float32(k)
					}
				}
				for _, j := range js {
					one(s, j, b)
				}
			}
		})
		// sizes of real frames
		big := [][2]int{{300, 241}, {4500, 9}, {9, 4500}}
		if c.Thorough {
			big = append(big, [2]int{2001, 1200}, [2]int{33000, 5}, [2]int{5, 33000})
		}
		c.Bound("large images %v with outliers in every region, all colours", big)
		c.Shards("large", len(big)*(1+3*len(cfas)), func(s *vx.S) {
			w, h := big[s.ID%len(big)][0], big[s.ID%len(big)][1]
			j := job{"", "", w, h, 3, 5}
			if ci := s.ID/len(big) - 1; ci >= 0 {
				j.chn, j.cfa = []string{"R", "G", "B"}[ci%3], cfas[ci/3]
			}
			b := base(3, w, h)
			for i := range b {
				switch i * 7919 % 1009 % 61 {
				case 0:
					b[i] += 700
				case 1:
					b[i] -= 500
				}
			}
			one(s, j, b)
			for i := range b {
				b[i] = 100
			}
			b[len(b)-w-2], b[w+1], b[len(b)/2] = 5000, 4000, 6000
			one(s, j, b)
		})
		// vector and portable code path
		c.Serial("portable", 1, func(s *vx.S) {
			if !vec {
				return
			}
			sv := cpuid.CPU.Features
			cpuid.CPU.Features &^= cpuid.AVX2
			defer func() { cpuid.CPU.Features = sv }()
			for w := 1; w <= 18; w++ {
				for _, h := range []int{1, 2, 3, 5} {
					b := base(3, w, h)
					for p := range b {
						o := b[p]
						b[p] = 900
						one(s, job{"", "", w, h, 3, 5}, b)
						b[p] = o
					}
				}
			}
		})
		// neutral, selection and rejection
		c.Serial("options", 1, func(s *vx.S) {
			b := base(3, 6, 5)
			b[8], b[15] = 900, -900
			for _, sg := range [][2]float32{{0, 5}, {3, 0}, {0, 0}} {
				j := job{"", "", 6, 5, sg[0], sg[1]}
				s.Check(func() string { return "switched off " + j.String() }, func() error {
					got, _, err := run(j, b)
					if err != nil || !fx.Same(got, b) {
						return vx.Fail("off", "%v: bad pixel removal switched off changes the image (%v)", j, err)
					}
					return nil
				})
			}
			for _, ch := range []string{"R", "G", "B"} {
				for _, cfa := range cfas {
					for m := 1; m < 4; m++ {
						j := job{ch, cfa, 6, 5, 1, 1}
						k := j
						if m&1 == 1 {
							k.chn = string(ch[0] | 0x20)
						}
						if m&2 == 2 {
							k.cfa = lower(cfa)
						}
						s.Check(func() string { return "spelling " + k.String() }, func() error {
							a, _, err := run(j, b)
							if err != nil {
								return vx.Fail("error", "%v: %v", j, err)
							}
							g, _, err := run(k, b)
							if err != nil || !fx.Same(a, g) {
								return vx.Fail("case", "%v differs from %v (%v)", k, j, err)
							}
							return nil
						})
					}
				}
			}
			for _, bad := range [][2]string{{"X", "RGGB"}, {"RG", "RGGB"}, {"R", "RGBG"}, {"G", "XXXX"}, {"B", ""}, {"luminance", "GRBG"}} {
				j := job{bad[0], bad[1], 6, 5, 3, 5}
				s.Check(func() string { return "rejected " + j.String() }, func() error {
					if _, _, err := run(j, b); err == nil {
						return vx.Fail("accepted", "%v is accepted", j)
					}
					return nil
				})
			}
		})
	})
}

func lower(s string) string {
	b := []byte(s)
	for i := range b {
		b[i] |= 0x20
	}
	return string(b)
}
