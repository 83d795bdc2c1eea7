package main

import (
	"bytes"
	"fmt"
	"io"
	"math"
	"os"
	"path/filepath"
	"strings"

	"github.com/mlnoga/nightlight/internal/fits"
	"github.com/mlnoga/nightlight/internal/zzverif/fx"
	"github.com/mlnoga/nightlight/internal/zzverif/vx"
)

type scale struct {
	bz, bs   string // header text, "" = absent
	bzV, bsV float64
}

var bitpixes = []int{8, 16, 32, 64, -32, -64}

func bytesPer(bp int) int {
	if bp < 0 {
		bp = -bp
	}
	return bp / 8
}

// raw sample alphabet per format; the first entries have pairwise different bytes so that misplaced bytes show
func alpha(bp int) []fx.Raw {
	switch bp {
	case 8:
		return []fx.Raw{{I: 1}, {I: 2}, {I: 255}, {I: 0}, {I: 128}, {I: 127}, {I: 77}}
	case 16:
		return []fx.Raw{{I: 0x0102}, {I: -2}, {I: 32767}, {I: -32768}, {I: 0}, {I: 256}, {I: 0x7f80}}
	case 32:
		return []fx.Raw{{I: 0x01020304}, {I: -2}, {I: 2147483647}, {I: -2147483648}, {I: 0}, {I: 65536}, {I: 0x00ff00}}
	case 64:
		return []fx.Raw{{I: 0x0102030405060708}, {I: -2}, {I: math.MaxInt64}, {I: math.MinInt64}, {I: 0}, {I: 1 << 40}, {I: 255}}
	case -32:
		return []fx.Raw{{F: 1.25}, {F: -3.5e-20}, {F: math.MaxFloat32}, {F: 1e-44}, {F: 0}, {F: math.Inf(-1)}, {F: 0.1}}
	}
	return []fx.Raw{{F: 1.25}, {F: -3.5e-20}, {F: 1e30}, {F: 1e-40}, {F: 0}, {F: math.Inf(1)}, {F: 0.1}}
}

func pattern(bp, n int) []fx.Raw {
	a := alpha(bp)
	raw := make([]fx.Raw, n)
	for i := range raw {
		switch {
		case i%3 == 0:
			raw[i] = a[(i/3)%len(a)]
		case bp > 0:
			raw[i] = fx.Raw{I: int64(i*2654435761+i>>3) % 30011}
			if bp == 8 {
				raw[i].I &= 255
			}
		default:
			raw[i] = fx.Raw{F: float64(float32(i)*1.37 - 5)}
		}
	}
	return raw
}

func val(bp int, r fx.Raw) float64 {
	if bp > 0 {
		if bp == 8 {
			return float64(byte(r.I))
		}
		return float64(r.I)
	}
	if bp == -32 {
		return float64(float32(r.F))
	}
	return r.F
}

func header(bp int, axes []int, sc scale, extra ...string) []byte {
	c := []string{fx.KV("SIMPLE", "T"), fx.KV("BITPIX", fmt.Sprint(bp)), fx.KV("NAXIS", fmt.Sprint(len(axes)))}
	for i, a := range axes {
		c = append(c, fx.KV(fmt.Sprintf("NAXIS%d", i+1), fmt.Sprint(a)))
	}
	if sc.bz != "" {
		c = append(c, fx.KV("BZERO", sc.bz))
	}
	if sc.bs != "" {
		c = append(c, fx.KV("BSCALE", sc.bs))
	}
	c = append(c, extra...)
	return fx.HeaderBytes(c)
}

func verify(img *fits.Image, bp int, axes []int, raw []fx.Raw, sc scale) error {
	if len(img.Naxisn) != len(axes) {
		return vx.Fail("axes", "axes %v want %v", img.Naxisn, axes)
	}
	for i := range axes {
		if int(img.Naxisn[i]) != axes[i] {
			return vx.Fail("axes", "axes %v want %v", img.Naxisn, axes)
		}
	}
	if len(img.Data) != len(raw) || int(img.Pixels) != len(raw) {
		return vx.Fail("size", "pixels %d len %d want %d", img.Pixels, len(img.Data), len(raw))
	}
	for i, r := range raw {
		v := val(bp, r)
		want := sc.bzV + sc.bsV*v
		mag := math.Max(math.Abs(sc.bzV), math.Abs(sc.bsV*v))
		if math.IsInf(mag, 0) {
			mag = 0
		}
		if !fx.Near(img.Data[i], want, mag) {
			return vx.Fail("pixel", "pixel %d = %g want %g (raw %v bzero %s bscale %s)", i, img.Data[i], want, r, sc.bz, sc.bs)
		}
	}
	return nil
}

var noScale = scale{"", "", 0, 1}

func load(r io.Reader) (*fits.Image, error) {
	img := fits.NewImage()
	err := img.Read(r, true, io.Discard)
	return img, err
}

func main() {
	vx.Main("P01", "model_checking", func(c *vx.C) {
		c.Rule = "every case encodes a FITS stream with an independent encoder, loads it through the real reader under one read schedule of the source, and compares axes and all pixels with BZERO+BSCALE*raw; states = distinct loaded images, transitions = read calls answered by the environment"
		scales := []scale{noScale, {"32768", "1", 32768, 1}, {"32768.0", "1.0", 32768, 1}, {"-5", "2", -5, 2}, {"0.5", "-0.25", 0.5, -0.25},
			{"2147483648", "1", 2147483648, 1}, {"2147483648.0", "", 2147483648, 1}, {"3.2768E4", "1.0E0", 32768, 1}, {"3.2768E+04", "5E-1", 32768, 0.5},
			{"1.5D2", "2.0D-1", 150, 0.2}, {"+7", "+3", 7, 3}, {"-32768", "", -32768, 1}, {"", "4", 0, 4}, {"9223372036854775808", "1", 9223372036854775808, 1}, {"1.", ".5", 1, .5}, {"1e2", "1.25e-1", 100, 0.125}, {"128", "0", 128, 0}}
		// 1. formats x sizes x scalings, delivered whole
		sizes := []int{1, 2, 3, 5, 7, 8, 9, 63, 1439, 1440, 1441}
		for _, bp := range []int{8, 4, 2} {
			n := 16384 / bp
			_ = n
		}
		type combo struct {
			bp, n int
			sc    scale
		}
		var cs []combo
		for _, bp := range bitpixes {
			b := 16384 / bytesPer(bp)
			all := append(append([]int{}, sizes...), b-1, b, b+1, 2*b-1, 2*b, 2*b+1, 3*b+5)
			for _, n := range all {
				for si, sc := range scales {
					if n > 2000 && si > 2 && !c.Thorough {
						continue
					}
					cs = append(cs, combo{bp, n, sc})
				}
			}
		}
		c.Bound("6 sample formats x %d scalings x sizes 1..3*16KiB+5 around decoder block boundaries", len(scales))
		c.Shards("formats-sizes-scalings", len(cs), func(s *vx.S) {
			k := cs[s.ID]
			s.Check(func() string {
				return fmt.Sprintf("BITPIX=%d pixels=%d BZERO=%q BSCALE=%q whole delivery", k.bp, k.n, k.sc.bz, k.sc.bs)
			}, func() error {
				raw := pattern(k.bp, k.n)
				st := append(header(k.bp, []int{k.n}, k.sc), fx.Pad2880(fx.EncodeData(k.bp, raw))...)
				r := &fx.Chunks{Data: st}
				img, err := load(r)
				if err != nil {
					return vx.Fail("rejected", "well-formed stream rejected: %v", err)
				}
				s.Transitions(r.Calls)
				s.States(1)
				s.Outcome(vx.HashF(img.Data))
				return verify(img, k.bp, []int{k.n}, raw, k.sc)
			})
		})
		// 2. axis shapes
		dims := []int{1, 2, 3, 5, 17}
		c.Bound("all 1-, 2- and 3-axis shapes over %v", dims)
		c.Shards("axis-shapes", len(bitpixes), func(s *vx.S) {
			bp := bitpixes[s.ID]
			var shapes [][]int
			for _, a := range dims {
				shapes = append(shapes, []int{a})
				for _, b := range dims {
					shapes = append(shapes, []int{a, b})
					for _, d := range []int{1, 2, 3} {
						shapes = append(shapes, []int{a, b, d})
					}
				}
			}
			for _, sh := range shapes {
				s.Check(func() string { return fmt.Sprintf("BITPIX=%d axes=%v", bp, sh) }, func() error {
					n := 1
					for _, a := range sh {
						n *= a
					}
					raw := pattern(bp, n)
					img, err := load(&fx.Chunks{Data: append(header(bp, sh, scales[1]), fx.Pad2880(fx.EncodeData(bp, raw))...)})
					if err != nil {
						return vx.Fail("rejected", "%v", err)
					}
					s.States(1)
					s.Transitions(1)
					return verify(img, bp, sh, raw, scales[1])
				})
			}
		})
		// 3. all chunkings of short data sections (every composition of the data bytes)
		maxBytes := 12
		if c.Thorough {
			maxBytes = 18
		}
		c.Bound("every composition of the data section into reads for all formats with at most %d data bytes, with and without EOF on the last read, padded and unpadded", maxBytes)
		type cc struct{ bp, n, variant int }
		var ccs []cc
		for _, bp := range bitpixes {
			for n := 1; n*bytesPer(bp) <= maxBytes; n++ {
				if bytesPer(bp) == 1 && n > 10 && n < maxBytes {
					continue
				}
				for v := 0; v < 4; v++ {
					ccs = append(ccs, cc{bp, n, v})
				}
			}
		}
		c.Shards("all-chunkings", len(ccs), func(s *vx.S) {
			k := ccs[s.ID]
			raw := pattern(k.bp, k.n)
			h := header(k.bp, []int{k.n}, noScale)
			data := fx.EncodeData(k.bp, raw)
			T := len(data)
			st := append(append([]byte{}, h...), data...)
			if k.variant&1 == 0 {
				st = append(append([]byte{}, h...), fx.Pad2880(data)...)
			}
			for m := 0; m < 1<<uint(T-1); m++ {
				s.Check(func() string {
					return fmt.Sprintf("BITPIX=%d n=%d cut mask %b eofWithData=%v padded=%v", k.bp, k.n, m, k.variant&2 != 0, k.variant&1 == 0)
				}, func() error {
					sz := map[int]int{}
					call, run := 1, 1
					for i := 0; i < T-1; i++ {
						if m>>uint(i)&1 == 1 {
							sz[call] = run
							call++
							run = 1
						} else {
							run++
						}
					}
					sz[call] = run
					r := &fx.Chunks{Data: st, Sizes: sz, EOFWithData: k.variant&2 != 0}
					img, err := load(r)
					if err != nil {
						return vx.Fail("rejected-chunked", "stream of %d data bytes rejected under chunking %v: %v", T, sz, err)
					}
					s.Transitions(r.Calls)
					if m == 0 {
						s.States(1)
					}
					return verify(img, k.bp, []int{k.n}, raw, noScale)
				})
			}
		})
		// 4. deviation-bounded short reads over multi-block data
		devs := []int{0, 1, 2, 3, 5, 7, 8, 4095, 16383}
		c.Bound("multi-block data (2*16KiB+40 bytes): every choice of <=2 deviating read calls among the first 8 with lengths %v, plus uniform short reads 1..17 and header short reads", devs)
		c.Shards("deviation-bounded", len(bitpixes)*2, func(s *vx.S) {
			bp := bitpixes[s.ID/2]
			eof := s.ID%2 == 1
			n := (2*16384 + 40) / bytesPer(bp)
			raw := pattern(bp, n)
			st := append(header(bp, []int{n}, scales[1]), fx.EncodeData(bp, raw)...)
			try := func(desc string, sz map[int]int, short int) {
				s.Check(func() string { return fmt.Sprintf("BITPIX=%d n=%d %s eofWithData=%v", bp, n, desc, eof) }, func() error {
					r := &fx.Chunks{Data: st, Sizes: sz, Short: short, EOFWithData: eof}
					img, err := load(r)
					if err != nil {
						return vx.Fail("rejected-chunked", "%v", err)
					}
					s.Transitions(r.Calls)
					return verify(img, bp, []int{n}, raw, scales[1])
				})
			}
			for a := 0; a < 8; a++ {
				for _, la := range devs {
					try(fmt.Sprintf("call %d returns <=%d", a, la), map[int]int{a: la}, 0)
					for b := a + 1; b < 8; b++ {
						for _, lb := range devs {
							if !c.Thorough && (la+lb)%2 == 0 && la > 3 {
								continue
							}
							try(fmt.Sprintf("calls %d,%d return <=%d,%d", a, b, la, lb), map[int]int{a: la, b: lb}, 0)
						}
					}
				}
			}
			for sh := 1; sh <= 17; sh++ {
				try(fmt.Sprintf("every call returns <=%d", sh), nil, sh)
			}
			for _, sh := range []int{79, 80, 81, 2879, 2880, 2881, 4097, 8191, 16381} {
				try(fmt.Sprintf("every call returns <=%d", sh), nil, sh)
			}
		})
		// 5. header layouts
		c.Bound("header layouts: free/fixed format, comments, blank and unparsable cards, 1..4 header blocks, END at every card of a block")
		c.Serial("header-layouts", 1, func(s *vx.S) {
			raw := pattern(16, 6)
			data := fx.Pad2880(fx.EncodeData(16, raw))
			try := func(desc string, cards []string) {
				s.Check(func() string { return desc }, func() error {
					img, err := load(&fx.Chunks{Data: append(fx.HeaderBytes(cards), data...)})
					if err != nil {
						return vx.Fail("rejected", "%s: %v", desc, err)
					}
					s.States(1)
					s.Transitions(len(cards))
					return verify(img, 16, []int{3, 2}, raw, scales[1])
				})
			}
			base := []string{"SIMPLE  =                    T / standard", "BITPIX  =                   16 / bits = 16", "NAXIS   =                    2", "NAXIS1  =                    3", "NAXIS2  =                    2 /", "BZERO   =                32768 / zero", "BSCALE  =                    1"}
			noise := []string{"", "COMMENT plain = 3 / x", "COMMENT BZERO   =                   77", "HISTORY BSCALE  =                   77", "OBJECT  = 'M 31    '           / a string", "OBSERVER= 'O''Neill'", "DATE-OBS= '2020-01-02T03:04:05.678'", "TELESCOP= 'a/b = c'", "CCD-TEMP=                -10.5", "GAIN    =                  139", "EXPTIME =                 60.0", "LONGKEY = 'This is a very long string value that continues on a next line&'", "CONTINUE  'the rest BZERO = 5'", "HIERARCH ESO BZERO = 5", "FLAG    =                    F", "EMPTY   =", "NULLSTR = ''", "CPLX    = (1.0, 2.0)", "ABSZERO = 12", "BZERO2  = 99"}
			try("plain", base)
			for ni, nz := range noise {
				for pos := 1; pos <= len(base); pos++ {
					cards := append(append(append([]string{}, base[:pos]...), nz), base[pos:]...)
					try(fmt.Sprintf("noise card %d %q at %d", ni, nz, pos), cards)
				}
			}
			for extra := 0; extra <= 120; extra++ {
				cards := append([]string{}, base...)
				for i := 0; i < extra; i++ {
					cards = append(cards, fmt.Sprintf("COMMENT filler %d", i))
				}
				try(fmt.Sprintf("%d filler cards after", extra), cards)
				cards = append([]string{}, base[:5]...)
				for i := 0; i < extra; i++ {
					cards = append(cards, fmt.Sprintf("HISTORY filler %d", i))
				}
				try(fmt.Sprintf("%d filler cards before BZERO", extra), append(cards, base[5:]...))
			}
			// free format spacing of the value field
			for _, f := range []string{"%-8s= %s", "%-8s=  %s", "%-8s= %-30s", "%-8s= %s / c", "%-8s= %s/c", "%-8s=%s"} {
				var cards []string
				for _, kv := range [][2]string{{"SIMPLE", "T"}, {"BITPIX", "16"}, {"NAXIS", "2"}, {"NAXIS1", "3"}, {"NAXIS2", "2"}, {"BZERO", "32768"}, {"BSCALE", "1"}} {
					cards = append(cards, fmt.Sprintf(f, kv[0], kv[1]))
				}
				try("free format "+f, cards)
			}
		})
		// 6. exposure keywords
		c.Serial("exposure-keywords", 1, func(s *vx.S) {
			for _, key := range []string{"EXPOSURE", "EXPTIME"} {
				for _, v := range []struct {
					t string
					v float64
				}{{"60", 60}, {"0.5", 0.5}, {"1.5E-05", 1.5e-5}, {"1.5e-05", 1.5e-5}, {"1E2", 100}, {"3.0D2", 300}, {"120.", 120}, {"1e+06", 1e6}} {
					s.Check(func() string { return key + " = " + v.t }, func() error {
						img, err := load(&fx.Chunks{Data: append(header(8, []int{1}, noScale, fx.KV(key, v.t)), fx.Pad2880([]byte{5})...)})
						if err != nil {
							return vx.Fail("rejected", "%v", err)
						}
						if !fx.Near(img.Exposure, v.v, 0) {
							return vx.Fail("exposure", "%s=%s loaded as %g", key, v.t, img.Exposure)
						}
						s.States(1)
						s.Transitions(1)
						return nil
					})
				}
			}
		})
		// 6b. images as large as a camera makes them, and long strips
		larges := [][]int{{1531, 1201}, {70003, 9}, {9, 70003}, {300, 257, 3}}
		c.Bound("large images %v in every format: whole, in reads of 65537 and 4093 bytes, and compressed", larges)
		c.Shards("large", len(bitpixes)*len(larges), func(s *vx.S) {
			bp, sh := bitpixes[s.ID%len(bitpixes)], larges[s.ID/len(bitpixes)]
			n := 1
			for _, a := range sh {
				n *= a
			}
			raw := pattern(bp, n)
			st := append(header(bp, sh, scales[1]), fx.Pad2880(fx.EncodeData(bp, raw))...)
			for _, short := range []int{0, 65537, 4093} {
				s.Check(func() string {
					return fmt.Sprintf("BITPIX=%d axes=%v reads of at most %d bytes (0 = unlimited)", bp, sh, short)
				}, func() error {
					r := &fx.Chunks{Data: st, Short: short}
					img, err := load(r)
					if err != nil {
						return vx.Fail("rejected", "%v", err)
					}
					s.States(1)
					s.Transitions(r.Calls)
					s.Outcome(vx.HashF(img.Data))
					return verify(img, bp, sh, raw, scales[1])
				})
			}
			s.Check(func() string { return fmt.Sprintf("BITPIX=%d axes=%v compressed", bp, sh) }, func() error {
				fn := filepath.Join(c.Scratch, fmt.Sprintf("large%d.fits.gz", s.ID))
				defer os.Remove(fn)
				if err := os.WriteFile(fn, fx.Gz(st), 0644); err != nil {
					panic(err)
				}
				img, err := fits.NewImageFromFile(fn, 3, io.Discard)
				if err != nil {
					return vx.Fail("rejected-file", "%v", err)
				}
				s.States(1)
				s.Transitions(1)
				return verify(img, bp, sh, raw, scales[1])
			})
		})
		// comments, history, strings and continuation cards interleaved with the mandatory ones
		c.Bound("commentary: all sequences of up to 4 cards over 9 comment/history/string/continuation/blank/unknown cards")
		c.Shards("commentary", 9, func(s *vx.S) {
			cards := []string{"COMMENT one", "COMMENT it's two = 3 / x", "HISTORY three", "HISTORY BITPIX  = 64", "OBJECT  = 'M''31 / x'  / it's", "LONGSTR = 'abc&'", "CONTINUE  'de''f&'", "", "weird lower case"}
			depth := 4
			if c.Thorough {
				depth = 5
			}
			for n := 1; n <= depth; n++ {
				fx.Vectors(n-1, len(cards), func(v []int) {
					seq := append([]int{s.ID}, v...)
					s.Check(func() string { return fmt.Sprintf("card sequence %v", seq) }, func() error {
						var cs []string
						var com, his []string
						str, obj, cont := "", false, false
						for _, k := range seq {
							cs = append(cs, cards[k])
							was := cont
							cont = false
							switch k {
							case 0, 1:
								com = append(com, cards[k][8:])
							case 2, 3:
								his = append(his, cards[k][8:])
							case 4:
								obj = true
							case 5:
								str, cont = "abc&", true
							case 6:
								if was {
									str, cont = str[:len(str)-1]+"de'f&", true
								}
							}
						}
						raw := []fx.Raw{{I: 3}, {I: -4}}
						img := fits.NewImage()
						if err := img.Read(&fx.Chunks{Data: append(header(16, []int{2}, scales[0], cs...), fx.Pad2880(fx.EncodeData(16, raw))...)}, true, io.Discard); err != nil {
							return vx.Fail("rejected", "%v", err)
						}
						s.States(n)
						s.Transitions(n)
						s.Outcome(vx.Hash(seq))
						if err := verify(img, 16, []int{2}, raw, scales[0]); err != nil {
							return err
						}
						trim := func(a []string) (r []string) {
							for _, x := range a {
								r = append(r, strings.TrimSpace(x))
							}
							return
						}
						if fmt.Sprint(trim(img.Header.Comments)) != fmt.Sprint(com) || fmt.Sprint(trim(img.Header.History)) != fmt.Sprint(his) {
							return vx.Fail("commentary", "comments %q history %q, want %q and %q", img.Header.Comments, img.Header.History, com, his)
						}
						if obj && img.Header.Strings["OBJECT"] != "M'31 / x" || str != "" && img.Header.Strings["LONGSTR"] != str {
							return vx.Fail("string", "strings %q, want LONGSTR=%q OBJECT=%v", img.Header.Strings, str, obj)
						}
						return nil
					})
				})
			}
		})
		// 7. files and compression
		c.Bound("files: suffixes fits/fit/fts and gz/gzip/GZ, sizes 1440 (exact blocks, no padding left) and neighbours, stored and deflated gzip members")
		c.Shards("files", len(bitpixes), func(s *vx.S) {
			bp := bitpixes[s.ID]
			dir := filepath.Join(c.Scratch, fmt.Sprintf("f%d", s.ID))
			os.MkdirAll(dir, 0755)
			for _, n := range []int{1, 1439, 1440, 1441, 2880, 8192, 8193, 20000, 40000} {
				for _, name := range []string{"a.fits", "a.fit", "A.FTS", "a.fits.gz", "a.fit.gzip", "A.FITS.GZ"} {
					for pad := 0; pad < 2; pad++ {
						s.Check(func() string { return fmt.Sprintf("BITPIX=%d n=%d file %s padded=%d", bp, n, name, pad) }, func() error {
							raw := pattern(bp, n)
							d := fx.EncodeData(bp, raw)
							if pad == 1 {
								d = fx.Pad2880(d)
							}
							st := append(header(bp, []int{n, 1}, scales[1]), d...)
							if l := len(name); name[l-1] == 'z' || name[l-1] == 'Z' || name[l-1] == 'p' {
								st = fx.Gz(st)
							}
							fn := filepath.Join(dir, name)
							if err := os.WriteFile(fn, st, 0644); err != nil {
								panic(err)
							}
							img, err := fits.NewImageFromFile(fn, 7, io.Discard)
							if err != nil {
								return vx.Fail("rejected-file", "%v", err)
							}
							if img.ID != 7 || img.FileName != fn {
								return vx.Fail("identity", "id %d name %s", img.ID, img.FileName)
							}
							s.States(1)
							s.Transitions(1)
							s.Outcome(vx.HashF(img.Data))
							if err := verify(img, bp, []int{n, 1}, raw, scales[1]); err != nil {
								return err
							}
							md, err := fits.NewImageMasterDataFromFile(fn, 7, io.Discard)
							if err != nil || len(md.Naxisn) != 2 || int(md.Naxisn[0]) != n {
								return vx.Fail("metadata-only", "%v %v", err, md.Naxisn)
							}
							return nil
						})
					}
				}
			}
		})
		c.Sample("BITPIX=-64 n=1 delivered as reads of 3+5 bytes, last read returning EOF with data")
		c.Sample("BITPIX=16 BZERO=2147483648 BSCALE=1, 1441 pixels, whole delivery")
		_ = bytes.MinRead
	})
}
