package main

import (
	"fmt"
	"math"
	"sort"

	"github.com/klauspost/cpuid"
	"github.com/mlnoga/nightlight/internal/median"
	"github.com/mlnoga/nightlight/internal/ops/pre"
	"github.com/mlnoga/nightlight/internal/qsort"
	"github.com/mlnoga/nightlight/internal/zzverif/fx"
	"github.com/mlnoga/nightlight/internal/zzverif/vx"
)

const poison = float32(1e30)

// guarded copies d into the middle of a larger buffer of poison values.
func guarded(d []float32, n, off int) (all, in []float32) {
	all = make([]float32, off+n+16)
	for i := range all {
		all[i] = poison
		if i&1 == 1 {
			all[i] = -poison
		}
	}
	in = all[off : off+n : off+n]
	copy(in, d)
	return
}

func guardOK(all []float32, n, off int) bool {
	for i := range all {
		if i >= off && i < off+n {
			continue
		}
		w := poison
		if i&1 == 1 {
			w = -poison
		}
		if all[i] != w {
			return false
		}
	}
	return true
}

func sorted(d []float32) []float32 {
	r := append([]float32(nil), d...)
	sort.Slice(r, func(i, j int) bool { return r[i] < r[j] })
	return r
}

func defMedian(srt []float32) float64 {
	n := len(srt)
	if n&1 == 1 {
		return float64(srt[n/2])
	}
	return 0.5 * (float64(srt[n/2-1]) + float64(srt[n/2]))
}

// run performs selection function f on a copy of d and compares.
func sel(name string, d, srt []float32, off int, want float64, f func(a []float32) float32) error {
	all, a := guarded(d, len(d), off)
	got := float64(f(a))
	if got != want && math.Abs(got-want) > 1.2e-7*math.Abs(want) {
		return vx.Fail(name, "%s of %v is %g, want %g", name, d, got, want)
	}
	if !guardOK(all, len(d), off) {
		return vx.Fail(name+"-bounds", "%s of %v wrote outside its input", name, d)
	}
	if s := sorted(a); !fx.Same(s, srt) {
		return vx.Fail(name+"-permute", "%s of %v left %v, which is not a permutation", name, d, a)
	}
	return nil
}

func order(d []float32, allK bool) error {
	n := len(d)
	srt := sorted(d)
	all, a := guarded(d, n, 3)
	qsort.QSortFloat32(a)
	if !fx.Same(a, srt) {
		return vx.Fail("sort", "sorting %v gives %v", d, a)
	}
	if !guardOK(all, n, 3) {
		return vx.Fail("sort-bounds", "sorting %v wrote outside its input", d)
	}
	ks := []int{1, 2, n/4 + 1, n / 2, n/2 + 1, n - 1, n}
	if allK {
		ks = ks[:0]
		for k := 1; k <= n; k++ {
			ks = append(ks, k)
		}
	}
	for _, k := range ks {
		if k < 1 || k > n {
			continue
		}
		if err := sel(fmt.Sprintf("select-k"), d, srt, k%4, float64(srt[k-1]), func(a []float32) float32 { return qsort.QSelectFloat32(a, k) }); err != nil {
			return err
		}
	}
	if err := sel("first-quartile", d, srt, 1, float64(srt[n/4]), qsort.QSelectFirstQuartileFloat32); err != nil {
		return err
	}
	m := defMedian(srt)
	if err := sel("median-select", d, srt, 2, m, qsort.QSelectMedianFloat32); err != nil {
		return err
	}
	if n == 9 {
		// the nine element median may overwrite its scratch input, but only that
		all, a := guarded(d, 9, 1)
		if got := median.MedianFloat32(a); float64(got) != m || !guardOK(all, 9, 1) {
			return vx.Fail("median9", "median of %v is %g, want %g", d, got, m)
		}
		all, a = guarded(d, 9, 1)
		if got := median.MedianFloat32Slice9(a); float64(got) != m || !guardOK(all, 9, 1) {
			return vx.Fail("median9", "median of nine %v is %g, want %g", d, got, m)
		}
		return nil
	}
	return sel("median", d, srt, 0, m, median.MedianFloat32)
}

// filter3 checks the 3x3 median filter on one image.
func filter3(d []float32, w int, f func(out, in []float32, w int32)) error {
	n := len(d)
	h := n / w
	allI, in := guarded(d, n, 11)
	allO, out := guarded(nil, n, 11)
	for i := range out {
		out[i] = float32(math.NaN())
	}
	f(out, in, int32(w))
	if !guardOK(allI, n, 11) || !guardOK(allO, n, 11) || !fx.SameBits(in, d) {
		return vx.Fail("filter-bounds", "%dx%d: the filter wrote outside its output", w, h)
	}
	var g [9]float32
	for y := 0; y < h; y++ {
		for x := 0; x < w; x++ {
			got := out[y*w+x]
			if x == 0 || y == 0 || x == w-1 || y == h-1 {
				lo, hi := float32(math.Inf(1)), float32(math.Inf(-1))
				for yy := y - 1; yy <= y+1; yy++ {
					for xx := x - 1; xx <= x+1; xx++ {
						if xx >= 0 && yy >= 0 && xx < w && yy < h {
							v := d[yy*w+xx]
							if v < lo {
								lo = v
							}
							if v > hi {
								hi = v
							}
						}
					}
				}
				if !(got >= lo && got <= hi) {
					return vx.Fail("filter-border", "%dx%d border pixel %d,%d is %g, outside its neighbourhood [%g,%g]", w, h, x, y, got, lo, hi)
				}
				continue
			}
			for k := 0; k < 9; k++ {
				g[k] = d[(y+k/3-1)*w+x+k%3-1]
			}
			gs := g[:]
			sort.Slice(gs, func(i, j int) bool { return gs[i] < gs[j] })
			if got != g[4] {
				return vx.Fail("filter-median", "%dx%d pixel %d,%d is %g, the median of its neighbourhood is %g", w, h, x, y, got, g[4])
			}
		}
	}
	return nil
}

func both(c *vx.C, hadAVX bool, name string, n int, fn func(s *vx.S)) {
	for _, avx := range []bool{true, false} {
		if avx && !hadAVX {
			c.Notes = append(c.Notes, name+": no AVX2 on this machine, vector path not covered")
			continue
		}
		suffix := "-portable"
		cpuid.CPU.Features &^= cpuid.AVX2
		if avx {
			suffix = "-vector"
			cpuid.CPU.Features |= cpuid.AVX2
		}
		c.Shards(name+suffix, n, fn)
	}
	if hadAVX {
		cpuid.CPU.Features |= cpuid.AVX2
	}
}

func main() {
	vx.Main("P07", "model_checking", func(c *vx.C) {
		hadAVX := cpuid.CPU.AVX2()
		nv := 7
		if c.Thorough {
			nv = 8
		}
		c.Bound("every vector of length n<=%d over n different values (all orders and multiplicities): sort, every k, quartile, median", nv)
		vals := []float32{-1.5e38, -1, 0, 1e-30, 0.5, 7, 65535, 1.5e38}
		c.Shards("vectors", 64, func(s *vx.S) {
			for n := 1; n <= nv; n++ {
				i := 0
				fx.Vectors(n, n, func(v []int) {
					i++
					if i%64 != s.ID {
						return
					}
					d := make([]float32, n)
					for j := range d {
						d[j] = vals[v[j]]
					}
					s.Check(func() string { return fmt.Sprint(d) }, func() error {
						s.Outcome(vx.HashF(d))
						return order(d, true)
					})
				})
			}
		})
		np := 9
		if c.Thorough {
			np = 10
		}
		c.Bound("every permutation of up to %d different values", np)
		c.Shards("permutations", 64, func(s *vx.S) {
			for n := 8; n <= np; n++ {
				i := 0
				fx.Perms(n, func(p []int) {
					i++
					if i%64 != s.ID {
						return
					}
					d := make([]float32, n)
					for j := range d {
						d[j] = float32(p[j]) - 3
					}
					s.Check(func() string { return fmt.Sprint(d) }, func() error {
						s.Outcome(vx.HashF(d))
						return order(d, false)
					})
				})
			}
		})
		nb := 16
		if c.Thorough {
			nb = 20
		}
		c.Bound("every 0/1 vector of length 8..%d (all selections; by the 0-1 principle also the nine element network)", nb)
		c.Shards("binary", 64, func(s *vx.S) {
			for n := 8; n <= nb; n++ {
				for m := s.ID; m < 1<<uint(n); m += 64 {
					s.Check(func() string { return fmt.Sprintf("length %d bits %x", n, m) }, func() error {
						d := make([]float32, n)
						for j := range d {
							d[j] = float32(m >> uint(j) & 1)
						}
						s.Outcome(vx.Hash(n, m))
						return order(d, n < 12)
					})
				}
			}
		})
		maxN := 260
		if c.Thorough {
			maxN = 1200
		}
		pattern := func(n, pat int) []float32 {
			d := make([]float32, n)
			for i := range d {
				switch pat {
				case 0:
					d[i] = float32(i)
				case 1:
					d[i] = float32(n - i)
				case 2:
					d[i] = 4
				case 3:
					d[i] = float32(i % 7)
				case 4:
					d[i] = float32(i ^ 1)
				case 5:
					d[i] = float32(math.Min(float64(i), float64(n-i)))
				case 6:
					d[i] = -float32(math.Min(float64(i), float64(n-i)))
				case 7:
					d[i] = float32(i * 7919 % 1009)
				case 8:
					d[i] = float32(i * i % 31)
				case 9:
					d[i] = float32(i)
					if i == n/2 {
						d[i] = -5
					}
				case 10:
					d[i] = float32(i)
					if i == n/2 {
						d[i] = 1e9
					}
				case 11:
					d[i] = float32(i & 1)
				case 12:
					d[i] = []float32{float32(math.Inf(-1)), 0, 1, 2, float32(math.Inf(1))}[i*3%5]
				}
			}
			return d
		}
		c.Bound("13 structured patterns of every length up to %d, every k", maxN)
		c.Shards("patterns", maxN, func(s *vx.S) {
			n := s.ID + 1
			for pat := 0; pat < 13; pat++ {
				s.Check(func() string { return fmt.Sprintf("length %d pattern %d", n, pat) }, func() error {
					d := pattern(n, pat)
					s.Outcome(vx.HashF(d))
					if pat == 12 && n%2 == 0 {
						return nil // the mean of infinities is undefined
					}
					return order(d, true)
				})
			}
		})

		lens := []int{1023, 1024, 1025, 2047, 2048, 2049, 3000, 4095, 4096, 4097, 5000, 8191, 8192, 8193, 16384, 16385, 32767, 32768, 32769, 65535, 65536, 65537, 100003, 262145, 1000003}
		c.Bound("the same patterns at lengths %v, k at the ends, quartiles and middle", lens)
		c.Shards("patterns-large", len(lens), func(s *vx.S) {
			n := lens[s.ID]
			for pat := 0; pat < 13; pat++ {
				if n > 50000 && (pat == 5 || pat == 6 || pat == 12 || pat == 8) && !c.Thorough {
					continue
				}
				s.Check(func() string { return fmt.Sprintf("length %d pattern %d", n, pat) }, func() error {
					d := pattern(n, pat)
					s.Outcome(vx.HashF(d))
					if pat == 12 && n%2 == 0 {
						return nil // the mean of infinities is undefined
					}
					return order(d, false)
				})
			}
		})
		maxW, maxH := 34, 9
		if c.Thorough {
			maxW, maxH = 70, 14
		}
		c.Bound("3x3 filter: widths 1..%d, heights 1..%d, 5 patterns and an impulse at every position", maxW, maxH)
		both(c, hadAVX, "filter-size", maxW*maxH, func(s *vx.S) {
			w, h := 1+s.ID%maxW, 1+s.ID/maxW
			for pat := 0; pat < 5; pat++ {
				for p := -1; p < w*h; p++ {
					if pat > 1 && p >= 0 {
						break
					}
					s.Check(func() string { return fmt.Sprintf("%dx%d pattern %d impulse %d", w, h, pat, p) }, func() error {
						d := make([]float32, w*h)
						for i := range d {
							switch pat {
							case 1:
								d[i] = float32(i*7919%1009) - 300
							case 2:
								d[i] = float32(i)
							case 3:
								d[i] = float32(-i % w)
							case 4:
								d[i] = float32(i*i%31) * 1e30
							}
						}
						if p >= 0 {
							d[p] = 5000
						}
						s.Outcome(vx.HashF(d))
						return filter3(d, w, median.MedianFilter3x3)
					})
				}
			}
			s.Check(func() string { return fmt.Sprintf("%dx%d between inaccessible memory", w, h) }, func() error {
				return fx.Guarded(w*h, func(d []float32, inStart bool) error {
					return fx.Guarded(w*h, func(out []float32, outStart bool) error {
						for i := range d {
							d[i] = float32(i*7919%1009) - 300
						}
						return filter3(d, w, func(o, in []float32, w int32) {
							median.MedianFilter3x3(out, d, w)
							copy(o, out)
						})
					})
				})
			})
		})
		fl := [][2]int{{1021, 333}, {70003, 4}, {4, 70003}, {4097, 17}, {4096, 16}, {16, 4096}}
		c.Bound("3x3 filter: images %v", fl)
		both(c, hadAVX, "filter-large", len(fl), func(s *vx.S) {
			w, h := fl[s.ID][0], fl[s.ID][1]
			s.Check(func() string { return fmt.Sprintf("%dx%d", w, h) }, func() error {
				d := make([]float32, w*h)
				for i := range d {
					d[i] = float32(i*7919%10009) - 300
				}
				s.Outcome(vx.HashF(d))
				return filter3(d, w, median.MedianFilter3x3)
			})
		})
		c.Bound("3x3 filter: every 0/1 neighbourhood at every column of widths 3..20 (decides the sorting network of every vector lane)")
		both(c, hadAVX, "filter-01", 18, func(s *vx.S) {
			w := 3 + s.ID
			for x := 1; x < w-1; x++ {
				for m := 0; m < 512; m++ {
					s.Check(func() string { return fmt.Sprintf("width %d column %d bits %x", w, x, m) }, func() error {
						d := make([]float32, w*3)
						for i := range d {
							d[i] = float32((i*5 + m) % 3 / 2)
						}
						for k := 0; k < 9; k++ {
							d[(k/3)*w+x+k%3-1] = float32(m >> uint(k) & 1)
						}
						s.Outcome(vx.HashF(d))
						return filter3(d, w, median.MedianFilter3x3)
					})
				}
			}
		})
		c.Bound("3x3 filter: every arrangement of nine different values in one neighbourhood (362880), per path")
		both(c, hadAVX, "filter-perm", 64, func(s *vx.S) {
			i := 0
			fx.Perms(9, func(p []int) {
				i++
				if i%64 != s.ID {
					return
				}
				q := append([]int(nil), p...)
				s.Check(func() string { return fmt.Sprint(q) }, func() error {
					w := 9
					x := 1 + i/64%7
					d := make([]float32, w*3)
					for j := range d {
						d[j] = float32(j)
					}
					for k := 0; k < 9; k++ {
						d[(k/3)*w+x+k%3-1] = float32(q[k])*1.5 - 4
					}
					s.Outcome(vx.HashF(d))
					return filter3(d, w, median.MedianFilter3x3)
				})
			})
		})
		c.Bound("median of a masked neighbourhood: every index of vectors up to 24 long, five masks, consecutive calls sharing one buffer")
		masks := [][]int32{{0}, {-1, 0, 1}, {-7, -6, -5, -1, 0, 1, 5, 6, 7}, {-2, 2}, {-3, -2, -1, 0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10}}
		c.Shards("gather", 24*len(masks), func(s *vx.S) {
			n, mask := 1+s.ID/len(masks), masks[s.ID%len(masks)]
			s.Check(func() string { return fmt.Sprintf("length %d mask %v", n, mask) }, func() error {
				d := make([]float32, n)
				for i := range d {
					d[i] = float32(i * 37 % 23)
				}
				buf := make([]float32, len(mask))
				for i := 0; i < n; i++ {
					var want []float32
					for _, o := range mask {
						if j := i + int(o); j >= 0 && j < n {
							want = append(want, d[j])
						}
					}
					got := median.GatherAndMedian(d, int32(i), mask, buf)
					if len(want) == 0 {
						continue
					}
					if w := defMedian(sorted(want)); float64(got) != w {
						return vx.Fail("gather", "index %d: %g, want %g", i, got, w)
					}
				}
				s.Outcome(vx.Hash(n, mask))
				return nil
			})
		})
		c.Bound("median interpolation of grids up to 4x4 with every set of invalid cells")
		c.Shards("interpolate", 16, func(s *vx.S) {
			w, h := 1+s.ID%4, 1+s.ID/4
			for m := 0; m < 1<<uint(w*h); m++ {
				s.Check(func() string { return fmt.Sprintf("%dx%d invalid %x", w, h, m) }, func() error {
					d := make([]float32, w*h)
					for i := range d {
						d[i] = float32(i * 37 % 23)
						if m>>uint(i)&1 == 1 {
							d[i] = float32(math.NaN())
						}
					}
					tmp := make([]float32, 16)
					for y := 0; y < h; y++ {
						for x := 0; x < w; x++ {
							var want []float32
							for k := 0; k < 9; k++ {
								xx, yy := x+k%3-1, y+k/3-1
								if k != 4 && xx >= 0 && yy >= 0 && xx < w && yy < h && d[yy*w+xx] == d[yy*w+xx] {
									want = append(want, d[yy*w+xx])
								}
							}
							got, num := pre.MedianInterpolation(d, int32(w), int32(h), int32(x), int32(y), tmp)
							if num != len(want) {
								return vx.Fail("interpolate", "%d,%d: %d neighbours, want %d", x, y, num, len(want))
							}
							if num > 0 && float64(got) != defMedian(sorted(want)) {
								return vx.Fail("interpolate", "%d,%d: %g, want the median of %v", x, y, got, want)
							}
						}
					}
					s.Outcome(vx.Hash(w, h, m))
					return nil
				})
			}
		})
	})
}
