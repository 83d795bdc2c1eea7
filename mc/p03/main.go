package main

import (
	"fmt"
	"io"
	"math"
	"os"
	"path/filepath"
	"strings"

	"github.com/mlnoga/nightlight/internal/fits"
	"github.com/mlnoga/nightlight/internal/zzverif/fx"
	"github.com/mlnoga/nightlight/internal/zzverif/vx"
)

var special = []float32{1.5, 0, float32(math.Copysign(0, -1)), float32(math.Inf(1)), float32(math.Inf(-1)), float32(math.NaN()),
	math.MaxFloat32, math.SmallestNonzeroFloat32, -0.1, 65535, math.Float32frombits(0xffc12345), math.Float32frombits(0x01020304)}

type ref struct {
	axes []int32
	data []float32
	exp  float32
	nums map[string]float64
	strs map[string]string
	bool map[string]bool
}

// the reference model of an image: what must be found after loading
func model(axes []int32, data []float32, exp float32, h *fits.Header) ref {
	r := ref{axes: append([]int32{}, axes...), exp: exp, nums: map[string]float64{}, strs: map[string]string{}, bool: map[string]bool{}}
	for _, d := range data {
		if d != d {
			d = 0 // documented: NaNs are stored as zero for compatibility
		}
		r.data = append(r.data, d)
	}
	for k, v := range h.Ints {
		r.nums[k] = float64(v)
	}
	for k, v := range h.Floats {
		r.nums[k] = float64(v)
	}
	for k, v := range h.Strings {
		if k != "PROGRAM" && k != "CREATOR" {
			r.strs[k] = v
		}
	}
	for k, v := range h.Dates {
		r.strs[k] = v
	}
	for k, v := range h.Bools {
		r.bool[k] = v
	}
	return r
}

func verify(img *fits.Image, r ref) error {
	if !fx.EqI32(img.Naxisn, r.axes...) || int(img.Pixels) != len(r.data) || len(img.Data) != len(r.data) {
		return vx.Fail("axes", "axes %v pixels %d data %d, want %v", img.Naxisn, img.Pixels, len(img.Data), r.axes)
	}
	for i, d := range r.data {
		if math.Float32bits(d) != math.Float32bits(img.Data[i]) && !(d == 0 && img.Data[i] == 0) {
			return vx.Fail("pixel", "pixel %d bits %08x want %08x", i, math.Float32bits(img.Data[i]), math.Float32bits(d))
		}
	}
	if img.Exposure != r.exp {
		return vx.Fail("exposure", "exposure %g want %g", img.Exposure, r.exp)
	}
	g := model(img.Naxisn, nil, 0, &img.Header)
	if len(g.nums) != len(r.nums) || len(g.strs) != len(r.strs) || len(g.bool) != len(r.bool) {
		return vx.Fail("header", "keywords %v %q %v want %v %q %v", g.nums, g.strs, g.bool, r.nums, r.strs, r.bool)
	}
	for k, v := range r.nums {
		if w, ok := g.nums[k]; !ok || float32(w) != float32(v) || (math.Abs(v) > 1<<24 && v == math.Trunc(v) && math.Abs(v) < 1<<31 && w != v && float64(float32(v)) != v) {
			return vx.Fail("header", "%s = %v want %v", k, w, v)
		}
	}
	for k, v := range r.strs {
		if w, ok := g.strs[k]; !ok || w != v {
			return vx.Fail("header", "%s = %q want %q", k, w, v)
		}
	}
	for k, v := range r.bool {
		if w, ok := g.bool[k]; !ok || w != v {
			return vx.Fail("header", "%s = %v want %v", k, w, v)
		}
	}
	return nil
}

type cards func(h *fits.Header)

func mk(axes []int32, data []float32, exp float32, cs ...cards) *fits.Image {
	img := fits.NewImageFromNaxisn(axes, data)
	img.Exposure = exp
	for _, c := range cs {
		c(&img.Header)
	}
	return img
}

func roundtrip(fn string, img *fits.Image, twice bool) error {
	r := model(img.Naxisn, img.Data, img.Exposure, &img.Header)
	for k := 0; k < 2; k++ {
		if err := img.WriteFile(fn); err != nil {
			return vx.Fail("write", "%v", err)
		}
		st, err := os.Stat(fn)
		if err != nil {
			return vx.Fail("write", "%v", err)
		}
		if !strings.Contains(strings.ToLower(fn), ".gz") && st.Size()%2880 != 0 {
			return vx.Fail("block-size", "file size %d is not a multiple of 2880", st.Size())
		}
		l, err := fits.NewImageFromFile(fn, 7, io.Discard)
		if err != nil {
			return vx.Fail("reload", "%v", err)
		}
		if err := verify(l, r); err != nil {
			return err
		}
		if !twice {
			break
		}
		img = l // second generation: save what was loaded
	}
	return nil
}

func pattern(n, seed int) []float32 {
	d := make([]float32, n)
	for i := range d {
		if i%5 == 0 {
			d[i] = special[(i/5+seed)%len(special)]
		} else {
			d[i] = float32((i*7919+seed*31)%65536) / 16
		}
	}
	return d
}

func main() {
	vx.Main("P03", "model_checking", func(c *vx.C) {
		dir := c.Scratch
		c.Bound("pixels: all vectors of length<=3 over %d bit patterns; patterned images at every size around the 16 KiB write buffer and 2880 byte block limits, 1-3 axes, .fits/.fit/.gz/.gzip", len(special))
		c.Shards("pixels", 8, func(s *vx.S) {
			d := filepath.Join(dir, fmt.Sprint("px", s.ID))
			os.MkdirAll(d, 0755)
			ext := []string{"a.fits", "a.fits.gz", "a.fit", "a.FITS.GZ", "a.fits.gzip", "b.fits", "b.fits.gz", "c.fts"}[s.ID]
			for n := 1; n <= 3; n++ {
				if n == 3 && s.ID > 1 && !c.Thorough {
					break
				}
				fx.Vectors(n, len(special), func(v []int) {
					data := make([]float32, n)
					for i, x := range v {
						data[i] = special[x]
					}
					s.Check(func() string { return fmt.Sprintf("%s pixels %v", ext, data) }, func() error {
						s.Outcome(vx.Hash(ext, vx.HashF(data)))
						return roundtrip(filepath.Join(d, ext), mk([]int32{int32(n)}, append([]float32{}, data...), 0), false)
					})
				})
			}
			var sizes []int
			for n := 4; n <= 40; n++ {
				sizes = append(sizes, n)
			}
			for _, m := range []int{720, 1440, 4096, 8192, 12288, 16384, 20480} {
				for k := -3; k <= 3; k++ {
					sizes = append(sizes, m+k)
				}
			}
			for _, n := range sizes {
				for dim := 1; dim <= 3; dim++ {
					axes := []int32{int32(n)}
					for p := 2; p < 12 && len(axes) < dim; p++ {
						if m := int(axes[0]); m%p == 0 {
							axes = []int32{int32(m / p), int32(p)}
							axes = append(axes, map[bool][]int32{true: {1}, false: nil}[dim == 3]...)
						}
					}
					if len(axes) != dim {
						continue
					}
					for seed := 0; seed < 2; seed++ {
						s.Check(func() string { return fmt.Sprintf("%s axes %v seed %d", ext, axes, seed) }, func() error {
							s.Outcome(vx.Hash(ext, n, dim, seed))
							return roundtrip(filepath.Join(d, ext), mk(axes, pattern(n, seed), float32(seed)*1.1), true)
						})
					}
				}
			}
			for _, ax := range [][]int32{{3, 5, 3}, {4, 1, 3}, {1, 4, 3}, {7, 2, 2}, {2, 3, 4}} {
				n := int(ax[0] * ax[1] * ax[2])
				s.Check(func() string { return fmt.Sprintf("%s axes %v", ext, ax) }, func() error {
					s.Outcome(vx.Hash(ext, n, ax))
					return roundtrip(filepath.Join(d, ext), mk(ax, pattern(n, 3), 300), true)
				})
			}
		})

		larges := [][]int32{{1531, 1201}, {70003, 9}, {9, 70003}, {300, 257, 3}}
		c.Bound("large images %v, plain and compressed", larges)
		c.Shards("large", 2*len(larges), func(s *vx.S) {
			ax := larges[s.ID/2]
			ext := []string{".fits", ".fits.gz"}[s.ID%2]
			n := 1
			for _, a := range ax {
				n *= int(a)
			}
			s.Check(func() string { return fmt.Sprintf("axes %v%s", ax, ext) }, func() error {
				s.Outcome(vx.Hash("large", s.ID))
				fn := filepath.Join(dir, fmt.Sprint("large", s.ID, ext))
				defer os.Remove(fn)
				return roundtrip(fn, mk(ax, pattern(n, 3), 300), ext == ".fits")
			})
		})

		ints := []int32{0, 1, -1, 42, math.MaxInt32, math.MinInt32, 16777217}
		floats := []float32{0.1, -0.5, 1e-30, 1e30, 3.4e38, 1e-45, 100, 1e6, 1e21, -2.5e7, 123456.79, 2147483648, 16777216, -1e10}
		strs := []string{"", "M 31", "it's", "''", "'", " lead", "trail ", "a/b", "x = 1 / y", "T", "42", "END", "2021-06-17T20:15:00.123", "exactly 18 chars..", "nineteen characters", "amp&", "&", "CONTINUE  'x'",
			strings.Repeat("long text ", 8), strings.Repeat("ab'c", 40), strings.Repeat("'", 60), "HISTORY no", strings.Repeat("q", 83), strings.Repeat("q", 84), strings.Repeat("q", 149), strings.Repeat("&", 90)}
		var alpha []cards
		var names []string
		for i, v := range ints {
			alpha = append(alpha, func(h *fits.Header) { h.Ints[fmt.Sprint("INT", i)] = v })
			names = append(names, fmt.Sprint("int ", v))
		}
		for i, v := range floats {
			alpha = append(alpha, func(h *fits.Header) { h.Floats[fmt.Sprint("FLT-", i)] = v })
			names = append(names, fmt.Sprint("float ", v))
		}
		for i, v := range strs {
			alpha = append(alpha, func(h *fits.Header) { h.Strings[fmt.Sprint("STR_", i)] = v })
			names = append(names, fmt.Sprintf("string %q", v))
		}
		for i, v := range []bool{true, false} {
			alpha = append(alpha, func(h *fits.Header) { h.Bools[fmt.Sprint("BOOL", i)] = v })
			names = append(names, fmt.Sprint("bool ", v))
		}
		alpha = append(alpha, func(h *fits.Header) { h.Dates["DATE-OBS"] = "2021-06-17T20:15:00" })
		names = append(names, "date")
		c.Bound("header: all single keywords and all pairs over %d keyword values; header lengths of 0..120 keywords; all strings of length<=5 over {a ' space & /}; long strings with quote runs at every position near the split points", len(alpha))
		c.Shards("header-pairs", len(alpha), func(s *vx.S) {
			fn := filepath.Join(dir, fmt.Sprintf("h%d.fits", s.ID))
			for j := s.ID; j < len(alpha); j++ {
				for _, ex := range []float32{0, 300, 0.033} {
					if ex != 0 && j != s.ID {
						continue
					}
					s.Check(func() string { return fmt.Sprintf("keywords %s, %s, exposure %g", names[s.ID], names[j], ex) }, func() error {
						s.Outcome(vx.Hash(s.ID, j, ex))
						return roundtrip(fn, mk([]int32{2, 2}, []float32{1, 2, 3, 4}, ex, alpha[s.ID], alpha[j]), true)
					})
				}
			}
		})
		c.Shards("header-length", 8, func(s *vx.S) {
			fn := filepath.Join(dir, fmt.Sprintf("l%d.fits", s.ID))
			var lens []int
			for n := s.ID; n <= 120; n += 8 {
				lens = append(lens, n)
			}
			lens = append(lens, 200+s.ID*200, 201+s.ID*200) // all of one kind
			for _, n := range lens {
				s.Check(func() string { return fmt.Sprintf("%d keywords", n) }, func() error {
					s.Outcome(vx.Hash(n))
					img := mk([]int32{3, 1}, []float32{1, -2, 4.5}, 10)
					img.Header.Strings["OBJECT"] = "M 31"
					for k := 0; k < n; k++ {
						key := fmt.Sprintf("K%d", k)
						kind := k % 4
						if n >= 200 {
							kind = n / 200 % 4 // many keywords of one kind
						}
						switch kind {
						case 0:
							img.Header.Ints[key] = int32(k * 1000003)
						case 1:
							img.Header.Floats[key] = float32(k) * 0.37
						case 2:
							img.Header.Strings[key] = fmt.Sprintf("v'%d", k)
						case 3:
							img.Header.Bools[key] = k%8 == 3
						}
					}
					return roundtrip(fn, img, true)
				})
			}
		})
		c.Shards("strings", 8, func(s *vx.S) {
			fn := filepath.Join(dir, fmt.Sprintf("s%d.fits", s.ID))
			i := 0
			run := func(v string) {
				i++
				if i%8 != s.ID {
					return
				}
				s.Check(func() string { return fmt.Sprintf("string %q", v) }, func() error {
					s.Outcome(vx.Hash(v))
					return roundtrip(fn, mk([]int32{1}, []float32{1}, 0, func(h *fits.Header) { h.Strings["OBJECT"] = v }), false)
				})
			}
			max := 4
			if c.Thorough {
				max = 6
			}
			for n := 0; n <= max; n++ {
				fx.Vectors(n, 5, func(v []int) {
					b := make([]byte, n)
					for k, x := range v {
						b[k] = "a' &/"[x]
					}
					run(string(b))
				})
			}
			for _, L := range []int{640, 1000, 1320, 1321, 1400, 2000, 4000, 9000, 20000} {
				run(strings.Repeat("x", L))
				run(strings.Repeat("a b'c& /", L/8))
				run(strings.Repeat("'", L))
			}
			for _, L := range []int{15, 16, 17, 18, 19, 20, 60, 66, 80, 82, 83, 84, 85, 86, 100, 148, 149, 150, 151, 152, 300} {
				for _, q := range []string{"'", "''", "'''", "&", "&'", "' '", " "} {
					for at := 0; at+len(q) <= L; at++ {
						if !c.Thorough && L > 100 && at%66 > 30 && at%66 < 60 {
							continue
						}
						run(strings.Repeat("x", at) + q + strings.Repeat("y", L-at-len(q)))
					}
				}
			}
		})
		depth := 3
		if c.Thorough {
			depth = 4
		}
		gens := []func() *fits.Image{
			func() *fits.Image { return mk([]int32{2, 2}, []float32{1, 2, 3, 4}, 0) },
			func() *fits.Image { return mk([]int32{90, 20}, pattern(1800, 1), 5) },
			func() *fits.Image {
				img := mk([]int32{3, 2, 3}, pattern(18, 2), 1)
				for k := 0; k < 50; k++ {
					img.Header.Ints[fmt.Sprint("N", k)] = int32(k)
				}
				return img
			},
			func() *fits.Image { return mk([]int32{719}, pattern(719, 4), 2.5) },
			func() *fits.Image {
				return mk([]int32{64, 80}, pattern(5120, 5), 0.1, func(h *fits.Header) { h.Strings["OBJECT"] = strings.Repeat("M31 ", 30) })
			},
		}
		c.Bound("histories: all sequences of up to %d saves of %d images of different lengths to one path, plain and gzip; file checked and reloaded after the last save, and once more after reloading and re-saving", depth, len(gens))
		c.Shards("histories", len(gens)*2, func(s *vx.S) {
			fn := filepath.Join(dir, fmt.Sprintf("hist%d.fits", s.ID))
			gz := s.ID >= len(gens)
			if gz {
				fn += ".gz"
			}
			for n := 1; n <= depth; n++ {
				fx.Vectors(n-1, len(gens), func(v []int) {
					seq := append([]int{s.ID % len(gens)}, v...)
					s.Check(func() string { return fmt.Sprintf("saves %v gz=%v", seq, gz) }, func() error {
						os.Remove(fn)
						s.States(n)
						s.Transitions(n)
						s.Outcome(vx.Hash(gz, seq))
						var img *fits.Image
						for _, g := range seq {
							img = gens[g]()
							if err := img.WriteFile(fn); err != nil {
								return vx.Fail("write", "%v", err)
							}
						}
						want := gens[seq[n-1]]()
						r := model(want.Naxisn, want.Data, want.Exposure, &want.Header)
						st, _ := os.Stat(fn)
						fresh := fn + ".fresh" + filepath.Ext(fn)
						os.Remove(fresh)
						if err := want.WriteFile(fresh); err != nil {
							return vx.Fail("write", "%v", err)
						}
						sf, _ := os.Stat(fresh)
						if !gz && st.Size() != sf.Size() {
							return vx.Fail("stale-bytes", "file has %d bytes after the history, %d when written afresh", st.Size(), sf.Size())
						}
						if gz {
							b, err := os.ReadFile(fn)
							if err == nil {
								_, err = fx.Ungz(b)
							}
							if err != nil {
								return vx.Fail("stale-bytes", "compressed file is not one clean gzip stream: %v", err)
							}
						}
						l, err := fits.NewImageFromFile(fn, 0, io.Discard)
						if err != nil {
							return vx.Fail("reload", "%v", err)
						}
						return verify(l, r)
					})
				})
			}
		})
	})
}
