package main

import (
	"fmt"
	"io"
	"math"

	"github.com/mlnoga/nightlight/internal/fits"
	"github.com/mlnoga/nightlight/internal/ops"
	"github.com/mlnoga/nightlight/internal/ops/pre"
	"github.com/mlnoga/nightlight/internal/stats"
	"github.com/mlnoga/nightlight/internal/zzverif/fx"
	"github.com/mlnoga/nightlight/internal/zzverif/vx"
)

var cfas = []string{"RGGB", "GRBG", "GBRG", "BGGR"}

func colour(cfa string, x, y int) byte { return cfa[(y&1)*2+(x&1)] }

type job struct {
	ch, cfa string
	w, h    int
}

func (j job) String() string {
	return fmt.Sprintf("%dx%d channel %s cfa %s", j.w, j.h, j.ch, j.cfa)
}

// origin is the position of the first red pixel, where output starts
func (j job) origin() (x0, y0 int) {
	for y := 0; y < 2; y++ {
		for x := 0; x < 2; x++ {
			if colour(j.cfa, x, y) == 'R' {
				return x, y
			}
		}
	}
	panic(j)
}

// dims are the documented output dimensions: whole 2x2 groups starting at the first red pixel
func (j job) dims() (int, int) {
	x0, y0 := j.origin()
	ow, oh := (j.w-x0)/2*2, (j.h-y0)/2*2
	if j.w < x0 {
		ow = 0
	}
	if j.h < y0 {
		oh = 0
	}
	return ow, oh
}

// nearest lists the input pixels of the selected colour nearest to (x,y) inside the image
func (j job) nearest(x, y int) (idx []int) {
	c := j.ch[0]
	best := 1 << 30
	for dy := -1; dy <= 1; dy++ {
		for dx := -1; dx <= 1; dx++ {
			xx, yy := x+dx, y+dy
			if xx < 0 || yy < 0 || xx >= j.w || yy >= j.h || colour(j.cfa, xx, yy) != c {
				continue
			}
			d := dx*dx + dy*dy
			if d < best {
				best, idx = d, nil
			}
			if d == best {
				idx = append(idx, yy*j.w+xx)
			}
		}
	}
	return
}

func run(j job, d []float32) (*fits.Image, error) {
	f := fits.NewImageFromNaxisn([]int32{int32(j.w), int32(j.h)}, append([]float32(nil), d...))
	f.ID, f.Exposure = 7, 30
	f.Stats = stats.NewStats(f.Data, int32(j.w))
	op := pre.NewOpDebayer(j.ch, j.cfa)
	return op.Apply(f, ops.NewContext(io.Discard, 100, stats.LSEMeanStdDev))
}

func cut(d []float32) []float32 {
	if len(d) > 1000 {
		return d[:64]
	}
	return d
}

func check(j job, d []float32, s *vx.S) error {
	ow, oh := j.dims()
	f, err := run(j, d)
	if ow == 0 || oh == 0 {
		if err == nil {
			return vx.Fail("empty", "%v: accepted although no whole 2x2 group fits, result %v", j, f.Naxisn)
		}
		return nil
	}
	if err != nil {
		return vx.Fail("error", "%v: %v", j, err)
	}
	if !fx.EqI32(f.Naxisn, int32(ow), int32(oh)) || len(f.Data) != ow*oh || int(f.Pixels) != ow*oh {
		return vx.Fail("dims", "%v: result is %v with %d (%d) pixels, want %dx%d", j, f.Naxisn, len(f.Data), f.Pixels, ow, oh)
	}
	if f.ID != 7 || f.Exposure != 30 {
		return vx.Fail("meta", "%v: frame number or exposure changed to %d, %g", j, f.ID, f.Exposure)
	}
	if s != nil {
		s.Outcome(vx.HashF(f.Data))
	}
	x0, y0 := j.origin()
	for y := 0; y < oh; y++ {
		for x := 0; x < ow; x++ {
			ix, iy := x+x0, y+y0
			got := f.Data[y*ow+x]
			if colour(j.cfa, ix, iy) == j.ch[0] {
				if got != d[iy*j.w+ix] {
					return vx.Fail("measured", "%v: measured sample %g at (%d,%d) became %g; image %v", j, d[iy*j.w+ix], ix, iy, got, cut(d))
				}
				continue
			}
			nb := j.nearest(ix, iy)
			sum, mag := 0.0, 0.0
			for _, k := range nb {
				sum += float64(d[k])
				mag += math.Abs(float64(d[k]))
			}
			n := float64(len(nb))
			if math.Abs(float64(got)-sum/n) > 1e-6*mag/n {
				return vx.Fail("interpolated", "%v: pixel (%d,%d) is %g, average of its %d nearest neighbours %g; image %v", j, ix, iy, got, len(nb), sum/n, cut(d))
			}
		}
	}
	return nil
}

func one(s *vx.S, j job, d []float32) {
	s.Check(func() string { return fmt.Sprintf("debayer %v", j) }, func() error { return check(j, d, s) })
}

func main() {
	vx.Main("P10", "exploration", func(c *vx.C) {
		stats.LSEstimator = stats.LSEMeanStdDev
		maxW, maxH := 9, 8
		if c.Thorough {
			maxW, maxH = 21, 16
		}
		var jobs []job
		for w := 1; w <= maxW; w++ {
			for h := 1; h <= maxH; h++ {
				for _, cfa := range cfas {
					for _, ch := range []string{"R", "G", "B"} {
						jobs = append(jobs, job{ch, cfa, w, h})
					}
				}
			}
		}
		for _, wh := range [][2]int{{16, 4}, {17, 5}, {31, 3}, {32, 6}, {33, 2}, {64, 3}, {65, 4}, {3, 40}, {2, 65}} {
			for _, cfa := range cfas {
				for _, ch := range []string{"R", "G", "B"} {
					jobs = append(jobs, job{ch, cfa, wh[0], wh[1]})
				}
			}
		}
		c.Bound("every size up to %dx%d and some larger ones, every arrangement and colour: all unit impulses (which determine a linear map), all pairs of impulses up to 6x6, distinct values, negative and large values", maxW, maxH)
		c.Shards("values", len(jobs), func(s *vx.S) {
			j := jobs[s.ID]
			n := j.w * j.h
			d := make([]float32, n)
			one(s, j, d)
			for i := range d {
				for _, v := range []float32{1, -3, 65535} {
					d[i] = v
					one(s, j, d)
				}
				if n <= 36 {
					for k := 0; k < i; k++ {
						d[k] = 2
						one(s, j, d)
						d[k] = 0
					}
				}
				d[i] = 0
			}
			for _, f := range []func(i int) float32{
				func(i int) float32 { return 100 },
				func(i int) float32 { return -0.5 },
				func(i int) float32 { return float32(i*i%97) + 0.25 },
				func(i int) float32 { return float32(n-i) * 1e4 },
				func(i int) float32 { return float32(i%j.w)*3 - float32(i/j.w)*7 },
				func(i int) float32 { return []float32{1e30, -1e30, 1e-30, 5}[(i+i/j.w)%4] },
			} {
				for i := range d {
					d[i] = f(i)
				}
				one(s, j, d)
			}
		})
		big := [][2]int{{300, 241}, {301, 240}, {4999, 9}, {9, 5001}}
		if c.Thorough {
			big = append(big, [2]int{3001, 2000}, [2]int{33001, 5}, [2]int{5, 33000}, [2]int{66000, 4})
		}
		c.Bound("large images %v, distinct values", big)
		c.Shards("large", len(big)*12, func(s *vx.S) {
			b := big[s.ID/12]
			j := job{[]string{"R", "G", "B"}[s.ID%3], cfas[s.ID/3%4], b[0], b[1]}
			d := make([]float32, j.w*j.h)
			for i := range d {
				d[i] = float32(i*7%4093) + float32(i/j.w)/16
			}
			one(s, j, d)
		})
		c.Bound("all 0/1/5 images of 2x2, 3x2, 2x3; all 0/1 images of 3x3, 4x3, 3x4 (thorough 4x4)")
		type dm struct{ w, h, k int }
		dims := []dm{{2, 2, 3}, {3, 2, 3}, {2, 3, 3}, {3, 3, 2}, {4, 3, 2}, {3, 4, 2}}
		if c.Thorough {
			dims = append(dims, dm{4, 4, 2}, dm{5, 3, 2})
		}
		c.Shards("all-small", len(dims)*12, func(s *vx.S) {
			m := dims[s.ID/12]
			j := job{[]string{"R", "G", "B"}[s.ID%3], cfas[s.ID/3%4], m.w, m.h}
			d := make([]float32, m.w*m.h)
			fx.Vectors(m.w*m.h, m.k, func(v []int) {
				for i := range d {
					d[i] = []float32{0, 1, 5}[v[i]]
				}
				one(s, j, d)
			})
		})
		c.Bound("independence: every sample of another colour replaced by NaN, +Inf and -Inf")
		c.Shards("independent", len(jobs), func(s *vx.S) {
			j := jobs[s.ID]
			if ow, oh := j.dims(); ow == 0 || oh == 0 {
				return
			}
			d := make([]float32, j.w*j.h)
			for i := range d {
				d[i] = float32(i*i%53) + 1
			}
			for _, bad := range []float32{float32(math.NaN()), float32(math.Inf(1)), float32(math.Inf(-1))} {
				e := append([]float32(nil), d...)
				for i := range e {
					if colour(j.cfa, i%j.w, i/j.w) != j.ch[0] {
						e[i] = bad
					}
				}
				s.Check(func() string { return fmt.Sprintf("debayer %v with other colours %g", j, bad) }, func() error {
					a, err := run(j, d)
					if err != nil {
						return vx.Fail("error", "%v: %v", j, err)
					}
					b, err := run(j, e)
					if err != nil || !fx.Same(a.Data, b.Data) {
						return vx.Fail("depends", "%v: result depends on samples of other colours (%v)", j, err)
					}
					return nil
				})
			}
		})
		c.Serial("options", 1, func(s *vx.S) {
			d := make([]float32, 42)
			for i := range d {
				d[i] = float32(i * i % 31)
			}
			for _, ch := range []string{"R", "G", "B"} {
				for _, cfa := range cfas {
					for m := 1; m < 4; m++ {
						j := job{ch, cfa, 7, 6}
						k := j
						if m&1 == 1 {
							k.ch = string(rune(ch[0] | 0x20))
						}
						if m&2 == 2 {
							k.cfa = lower(cfa)
						}
						s.Check(func() string { return "spelling " + k.String() }, func() error {
							a, err := run(j, d)
							if err != nil {
								return vx.Fail("error", "%v: %v", j, err)
							}
							b, err := run(k, d)
							if err != nil || !fx.Same(a.Data, b.Data) {
								return vx.Fail("case", "%v differs from %v (%v)", k, j, err)
							}
							return nil
						})
					}
				}
			}
			bad := [][2]string{{"X", "RGGB"}, {"RG", "RGGB"}, {"RGB", "RGGB"}, {" R", "RGGB"}, {"R", "RGBG"}, {"G", "XXXX"}, {"B", "RGG"}, {"B", "RGGBR"}, {"red", "GRBG"}, {"L", "GBRG"}, {"4", "BGGR"}, {"r", "bayer"}, {"g", "GGRB"}, {"g", "RGgb "}}
			for _, b := range bad {
				j := job{b[0], b[1], 7, 6}
				s.Check(func() string { return "rejected " + j.String() }, func() error {
					if f, err := run(j, d); err == nil || f != nil {
						return vx.Fail("accepted", "%v is accepted", j)
					}
					return nil
				})
			}
			for _, b := range [][2]string{{"", "RGGB"}, {"", "BGGR"}} {
				j := job{b[0], b[1], 7, 6}
				s.Check(func() string { return "no debayering " + j.String() }, func() error {
					f, err := run(j, d)
					if err != nil || !fx.Same(f.Data, d) || !fx.EqI32(f.Naxisn, 7, 6) {
						return vx.Fail("off", "debayering without channel changes the image (%v)", err)
					}
					return nil
				})
			}
		})
	})
}

func lower(s string) string {
	b := []byte(s)
	for i := range b {
		b[i] |= 0x20
	}
	return string(b)
}
