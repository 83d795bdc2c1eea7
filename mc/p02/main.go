package main

import (
	"errors"
	"fmt"
	"io"
	"math"
	"os"
	"path/filepath"
	"strings"

	"github.com/mlnoga/nightlight/internal/fits"
	"github.com/mlnoga/nightlight/internal/ops"
	"github.com/mlnoga/nightlight/internal/stats"
	"github.com/mlnoga/nightlight/internal/zzverif/fx"
	"github.com/mlnoga/nightlight/internal/zzverif/vx"
)

var bitpixes = []int{8, 16, 32, 64, -32, -64}

func bytesPer(bp int) int {
	if bp < 0 {
		bp = -bp
	}
	return bp / 8
}

// distinct values that are exactly representable in every format, so that the expected pixels are 1,2,3,...
func raws(n int) []fx.Raw {
	r := make([]fx.Raw, n)
	for i := range r {
		r[i] = fx.Raw{I: int64(i%120 + 1), F: float64(i%120 + 1)}
	}
	return r
}

func hdr(bp int, axes ...int) []string {
	c := []string{fx.KV("SIMPLE", "T"), fx.KV("BITPIX", fmt.Sprint(bp)), fx.KV("NAXIS", fmt.Sprint(len(axes)))}
	for i, a := range axes {
		c = append(c, fx.KV(fmt.Sprintf("NAXIS%d", i+1), fmt.Sprint(a)))
	}
	return c
}

func complete(img *fits.Image, n int, axes ...int32) error {
	if img == nil {
		return vx.Fail("nil-image", "success reported with a nil image")
	}
	if len(img.Data) != n || int(img.Pixels) != n || !fx.EqI32(img.Naxisn, axes...) {
		return vx.Fail("half-loaded", "success reported with %d pixels of %d, axes %v", len(img.Data), n, img.Naxisn)
	}
	for i, v := range img.Data {
		if v != float32(i%120+1) {
			return vx.Fail("half-loaded", "success reported but pixel %d is %g, not the stored %d", i, v, i%120+1)
		}
	}
	return nil
}

var errDisk = errors.New("input/output error")

func main() {
	vx.Main("P02", "fault_enumeration", func(c *vx.C) {
		c.Rule = "one case = one damaged stream (cut point, failing read position, or header mutation) loaded by the real reader; non-trivial = the damage lies before the end of the pixel data, so an error is required; success is only accepted with every pixel right"
		type k struct {
			bp, n int
			gz    bool
		}
		var ks []k
		for _, bp := range bitpixes {
			for _, n := range []int{1, 2, 5, 40, 1440 / 2} {
				ks = append(ks, k{bp, n, false}, k{bp, n, true})
			}
			ks = append(ks, k{bp, (16384*2 + 64) / bytesPer(bp), false}, k{bp, (16384*2 + 64) / bytesPer(bp), true})
		}
		c.Bound("truncation and read error at every byte of plain and gzip streams of 6 formats x 6 sizes (every byte up to 6 KiB, then the neighbourhood of every 4 KiB boundary; thorough: every byte)")
		c.Shards("cuts-and-read-errors", len(ks), func(s *vx.S) {
			q := ks[s.ID]
			plain := append(fx.HeaderBytes(hdr(q.bp, q.n)), fx.EncodeData(q.bp, raws(q.n))...)
			need := len(plain)
			plain = fx.Pad2880(plain)
			st := plain
			if q.gz {
				st = fx.Gz(plain)
			}
			dir := filepath.Join(c.Scratch, fmt.Sprintf("c%d", s.ID))
			os.MkdirAll(dir, 0755)
			fn := filepath.Join(dir, "x.fits")
			if q.gz {
				fn += ".gz"
			}
			for cut := 0; cut <= len(st); cut++ {
				if cut > 6000 && !c.Thorough {
					m := cut % 4096
					if m > 24 && m < 4072 && cut < len(st)-200 && (cut < need-20 || cut > need+20) {
						continue
					}
				}
				for mode := 0; mode < 4; mode++ {
					if q.gz && mode > 0 && (cut%7 != mode && !c.Thorough) {
						continue
					}
					s.Check(func() string {
						return fmt.Sprintf("BITPIX=%d n=%d gz=%v position %d of %d, %s", q.bp, q.n, q.gz, cut, len(st), []string{"file truncated", "stream truncated, EOF with data", "read error", "read error with data"}[mode])
					}, func() error {
						var img *fits.Image
						var err error
						if mode == 0 {
							if e := os.WriteFile(fn, st[:cut], 0644); e != nil {
								panic(e)
							}
							img, err = fits.NewImageFromFile(fn, 0, io.Discard)
						} else {
							if q.gz {
								return nil // compressed streams are only reachable through files
							}
							r := &fx.Chunks{Data: st[:cut], EOFWithData: true}
							if mode >= 2 {
								r = &fx.Chunks{Data: st, Err: errDisk, ErrAt: cut, ErrWithData: mode == 3}
							}
							img = fits.NewImage()
							err = img.Read(r, true, io.Discard)
						}
						s.Outcome(vx.Hash(q, cut, mode, err == nil))
						if err != nil {
							if mode == 0 && cut == len(st) {
								return vx.Fail("undamaged-rejected", "complete file rejected: %v", err)
							}
							if !q.gz && mode < 2 && cut >= need {
								return vx.Fail("undamaged-rejected", "stream holding all pixels rejected: %v", err)
							}
							return nil
						}
						if !q.gz && cut < need {
							return vx.Fail("truncation-accepted", "success although only %d of %d bytes were available", cut, need)
						}
						return complete(img, q.n, int32(q.n))
					})
				}
			}
		})
		type lk struct {
			bp int
			gz bool
		}
		var lks []lk
		for _, bp := range bitpixes {
			lks = append(lks, lk{bp, false}, lk{bp, true})
		}
		c.Bound("large streams: 6 formats, plain and gzip, 630000 pixels, cut at 40 places spread over the length and around the end")
		c.Shards("large", len(lks), func(s *vx.S) {
			q, n := lks[s.ID], 630000
			st := append(fx.HeaderBytes(hdr(q.bp, n)), fx.EncodeData(q.bp, raws(n))...)
			need := len(st)
			if q.gz {
				st = fx.Gz(st)
			}
			fn := filepath.Join(c.Scratch, fmt.Sprintf("large%d.fits", s.ID))
			if q.gz {
				fn += ".gz"
			}
			defer os.Remove(fn)
			for k := 0; k < 40; k++ {
				cut := len(st) * k / 25
				if k >= 25 {
					cut = len(st) - (k-25)*(k-25)*(k-25)
				}
				if cut < 0 {
					cut = k
				}
				s.Check(func() string { return fmt.Sprintf("BITPIX=%d gz=%v cut at %d of %d", q.bp, q.gz, cut, len(st)) }, func() error {
					if e := os.WriteFile(fn, st[:cut], 0644); e != nil {
						panic(e)
					}
					img, err := fits.NewImageFromFile(fn, 0, io.Discard)
					s.Outcome(vx.Hash(s.ID, cut, err == nil))
					if err != nil {
						if cut == len(st) {
							return vx.Fail("undamaged-rejected", "complete file rejected: %v", err)
						}
						return nil
					}
					if !q.gz && cut < need {
						return vx.Fail("truncation-accepted", "success although only %d of %d bytes were available", cut, need)
					}
					return complete(img, n, int32(n))
				})
			}
		})
		// the load step of a job reports the error too
		c.Serial("load-step", 1, func(s *vx.S) {
			os.Chdir(c.Scratch)
			for _, bp := range bitpixes {
				n := 30
				st := append(fx.HeaderBytes(hdr(bp, n)), fx.EncodeData(bp, raws(n))...)
				for cut := 0; cut <= len(st); cut += 1 {
					if cut < 2870 && cut%97 != 0 {
						continue
					}
					s.Check(func() string { return fmt.Sprintf("load step, BITPIX=%d cut %d of %d", bp, cut, len(st)) }, func() error {
						os.WriteFile("l.fits", st[:cut], 0644)
						cx := ops.NewContext(io.Discard, 100, stats.LSESCMedianQn)
						ps, err := ops.NewOpLoadMany([]string{"l.fits"}).MakePromises(nil, cx)
						if err != nil || len(ps) != 1 {
							return vx.Fail("load-promise", "%v", err)
						}
						img, err := ps[0]()
						s.Outcome(vx.Hash("load", bp, cut, err == nil))
						if cut < len(st) {
							if err == nil {
								return vx.Fail("truncation-accepted", "load step succeeded on %d of %d bytes", cut, len(st))
							}
							return nil
						}
						if err != nil {
							return vx.Fail("undamaged-rejected", "%v", err)
						}
						return complete(img, n, int32(n))
					})
				}
			}
		})
		// header mutations
		c.Bound("header: every card of the mandatory set removed, duplicated or replaced by every value of an alphabet; pairs of axis values; END missing; garbage blocks")
		c.Serial("header-mutations", 1, func(s *vx.S) {
			data := fx.Pad2880(fx.EncodeData(8, raws(6)))
			run := func(desc string, cards []string, want int) { // want: 0 error required, 1 either but complete if ok, 2 success required
				s.Check(func() string { return desc }, func() error {
					img := fits.NewImage()
					err := img.Read(&fx.Chunks{Data: append(fx.HeaderBytes(cards), data...)}, true, io.Discard)
					s.Outcome(vx.Hash(desc, err == nil))
					if err == nil && want == 0 {
						return vx.Fail("bad-header-accepted", "accepted: %s -> axes %v, %d pixels", desc, img.Naxisn, len(img.Data))
					}
					if err != nil && want == 2 {
						return vx.Fail("undamaged-rejected", "%s: %v", desc, err)
					}
					if err == nil {
						prod := 1
						for _, a := range img.Naxisn {
							prod *= int(a)
						}
						if prod != len(img.Data) || int(img.Pixels) != prod || prod <= 0 {
							return vx.Fail("bad-header-accepted", "%s: axes %v but %d pixels", desc, img.Naxisn, len(img.Data))
						}
						for i, v := range img.Data {
							if v != float32(i%120+1) {
								return vx.Fail("half-loaded", "%s: pixel %d = %g", desc, i, v)
							}
						}
					}
					// reading only the metadata must not crash either
					md := fits.NewImage()
					e2 := md.Read(&fx.Chunks{Data: append(fx.HeaderBytes(cards), data...)}, false, io.Discard)
					if (e2 == nil) != (err == nil) && want == 0 && e2 == nil {
						// metadata-only reading need not look at BITPIX support or data
						_ = e2
					}
					return nil
				})
			}
			base := hdr(8, 3, 2)
			run("unchanged", base, 2)
			for i := range base {
				cards := append(append([]string{}, base[:i]...), base[i+1:]...)
				run(fmt.Sprintf("without %q", strings.TrimSpace(base[i])), cards, 0)
			}
			put := func(key, v string, want int) {
				var cards []string
				for _, b := range base {
					if strings.HasPrefix(b, key+" ") {
						b = fx.KV(key, v)
					}
					cards = append(cards, b)
				}
				run(key+" = "+v, cards, want)
			}
			for _, v := range []string{"F", "", "1", "X", "'T'"} {
				put("SIMPLE", v, 0)
			}
			for _, v := range []string{"0", "1", "7", "9", "24", "-8", "-16", "-31", "128", "-128", "''", "X", "T", "2147483656", "4294967304", "-4294967264", ""} {
				put("BITPIX", v, 0)
			}
			for _, v := range []string{"-1", "-2147483648", "3", "4", "999", "1000", "65536", "2147483647", "2147483648", "4294967298", "X", "'2'", "T", "", "99999999999999999999"} {
				put("NAXIS", v, 0)
			}
			put("NAXIS", "0", 0) // an image without data array has no pixels to load
			put("NAXIS", "1", 1)
			axv := []string{"0", "-1", "-3", "-2147483648", "2147483648", "4294967299", "4294967296", "99999999999999999999", "X", "'3'", "T", "", "1.5E400"}
			for _, key := range []string{"NAXIS1", "NAXIS2"} {
				for _, v := range axv {
					put(key, v, 0)
				}
			}
			// products that overflow or need more data than present
			for _, pr := range [][2]int{{65536, 65536}, {-3, -2}, {46341, 46341}, {1 << 20, 1 << 12}, {1 << 16, 1 << 15}, {65537, 65536}, {3, -2}, {-1, -6}, {1431655766, 3}, {1 << 30, 4}, {4, 1 << 30}, {100, 100}, {0, 0}, {0, 5}, {2048, 2048}, {math.MaxInt32, math.MaxInt32}} {
				run(fmt.Sprintf("axes %v", pr), hdr(8, pr[0], pr[1]), 0)
			}
			for _, tr := range [][]int{{2048, 2048, 1024}, {65536, 32768, 2}, {3, 2, 0}, {3, 2, -1}, {-3, -2, 1}, {1, 1, 0}, {1291, 1291, 1291 * 2}, {3, 2, 1 << 30}} {
				run(fmt.Sprintf("axes %v", tr), hdr(8, tr...), 0)
			}
			run("axes 3x2x1", hdr(8, 3, 2, 1), 2)
			run("axes 1x1x6", hdr(8, 1, 1, 6), 2)
			for i := range base {
				run(fmt.Sprintf("duplicated %q", strings.TrimSpace(base[i])), append(append([]string{}, base[:i+1]...), base[i:]...), 2)
			}
		})
		c.Serial("garbage-streams", 1, func(s *vx.S) {
			blocks := []string{"", "END", "SIMPLE  =                    T", strings.Repeat("x", 80), "\x00\xff\x80", "'", "SIMPLE  = T / \xff\xfe", "= = =", "END     extra", "HISTORY", "COMMENT"}
			for a, x := range blocks {
				for b, y := range blocks {
					for nb := 0; nb < 4; nb++ {
						s.Check(func() string { return fmt.Sprintf("first card %q second card %q, %d blocks", x, y, nb) }, func() error {
							buf := []byte(fx.Card("%s", x) + fx.Card("%s", y))
							for len(buf) < 2880*nb {
								buf = append(buf, fx.Card("%s", blocks[(a+b)%len(blocks)])...)
							}
							if nb == 0 {
								buf = buf[:100]
							}
							img := fits.NewImage()
							err := img.Read(&fx.Chunks{Data: buf}, true, io.Discard)
							s.Outcome(vx.Hash(a, b, nb))
							if err == nil {
								return vx.Fail("bad-header-accepted", "garbage accepted")
							}
							return nil
						})
					}
				}
			}
			// non-gzip data under a gzip name, empty and missing files, directories
			for _, name := range []string{"g.fits.gz", "g.fits", "g.tif", "g.tiff", "g.gzip"} {
				for i, content := range [][]byte{{}, {0x1f}, {0x1f, 0x8b}, []byte("SIMPLE  =  T"), fx.Gz(nil), fx.Gz([]byte("x")), []byte("II*\x00"), []byte("MM\x00*\x00\x00\x00\x08")} {
					s.Check(func() string { return fmt.Sprintf("file %s content #%d", name, i) }, func() error {
						fn := filepath.Join(c.Scratch, name)
						os.WriteFile(fn, content, 0644)
						s.Outcome(vx.Hash(name, i))
						if _, err := fits.NewImageFromFile(fn, 0, io.Discard); err == nil {
							return vx.Fail("bad-header-accepted", "garbage file accepted")
						}
						return nil
					})
				}
			}
			for _, name := range []string{"missing.fits", "missing.fits.gz", "missing.tif", "", "."} {
				s.Check(func() string { return "unreadable path " + name }, func() error {
					s.Outcome(vx.Hash(name))
					if _, err := fits.NewImageFromFile(filepath.Join(c.Scratch, "nope", name), 0, io.Discard); err == nil {
						return vx.Fail("bad-header-accepted", "missing file accepted")
					}
					return nil
				})
			}
		})
	})
}
