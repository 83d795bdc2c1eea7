package main

import (
	"bytes"
	"errors"
	"fmt"
	"image"
	"image/jpeg"
	"io"
	"os"
	"os/signal"
	"path/filepath"
	"strings"
	"syscall"

	"github.com/mlnoga/nightlight/internal/fits"
	"github.com/mlnoga/nightlight/internal/ops"
	"github.com/mlnoga/nightlight/internal/stats"
	"github.com/mlnoga/nightlight/internal/zzverif/fx"
	"github.com/mlnoga/nightlight/internal/zzverif/vx"
	"golang.org/x/image/tiff"
)

func image1(axes []int32, k int) *fits.Image {
	n := 1
	for _, a := range axes {
		n *= int(a)
	}
	d := make([]float32, n)
	for i := range d {
		d[i] = float32((i*7919+k*31)%65536) / 65535
	}
	img := fits.NewImageFromNaxisn(axes, d)
	img.Exposure = 30
	img.ID = 3
	return img
}

// setLimit makes every write beyond the given file offset fail with EFBIG (a partial write up to the offset succeeds),
// which is how a full disk or quota looks to the writing process.
func setLimit(n uint64) {
	var l syscall.Rlimit
	if err := syscall.Getrlimit(1, &l); err != nil {
		panic(err)
	}
	l.Cur = n
	if l.Cur > l.Max {
		l.Cur = l.Max
	}
	if err := syscall.Setrlimit(1, &l); err != nil {
		panic(err)
	}
}

type target struct {
	name string
	axes []int32
}

func ctx() *ops.Context { return ops.NewContext(io.Discard, 100, stats.LSESCMedianQn) }

// the ways a user saves: the save step applied to a frame, a job of several steps, and a direct file write
func save(via int, fn string, img *fits.Image) error {
	switch via {
	case 0:
		_, err := ops.NewOpSave(fn, ops.EM0_1, 1).Apply(img, ctx())
		return err
	case 1: // a whole job: source promise -> save step, materialized concurrently
		src := func() (*fits.Image, error) { return img, nil }
		outs, err := ops.NewOpSequence(ops.NewOpSave(fn, ops.EMMinMax, 1)).MakePromises([]ops.Promise{src}, ctx())
		if err != nil {
			return err
		}
		_, err = ops.MaterializeAll(outs, 2, true)
		return err
	}
	return img.WriteFile(fn)
}

// complete checks that a file reported as saved can be read back in full
func complete(fn string, img *fits.Image) error {
	l := strings.ToLower(fn)
	b, err := os.ReadFile(fn)
	if err != nil {
		return vx.Fail("success-but-missing", "%v", err)
	}
	switch {
	case strings.Contains(l, ".fit") || strings.Contains(l, ".fts"):
		if strings.HasSuffix(l, "gz") || strings.HasSuffix(l, "gzip") {
			if b, err = fx.Ungz(b); err != nil {
				return vx.Fail("success-but-truncated", "gzip stream incomplete: %v", err)
			}
		}
		if len(b)%2880 != 0 {
			return vx.Fail("success-but-truncated", "%d bytes are no whole number of blocks", len(b))
		}
		r, err := fits.NewImageFromFile(fn, 0, io.Discard)
		if err != nil {
			return vx.Fail("success-but-unreadable", "%v", err)
		}
		if !fx.Same(r.Data, img.Data) {
			return vx.Fail("success-but-wrong", "pixels differ after reload")
		}
	default:
		var m image.Image
		if strings.HasSuffix(l, "g") {
			m, err = jpeg.Decode(bytes.NewReader(b))
			if err == nil && (len(b) < 2 || b[len(b)-2] != 0xff || b[len(b)-1] != 0xd9) {
				return vx.Fail("success-but-truncated", "JPEG end marker missing")
			}
		} else {
			m, err = tiff.Decode(bytes.NewReader(b))
		}
		if err != nil {
			return vx.Fail("success-but-unreadable", "%v", err)
		}
		if m.Bounds().Dx() != int(img.Naxisn[0]) || m.Bounds().Dy() != int(img.Naxisn[1]) {
			return vx.Fail("success-but-wrong", "bounds %v", m.Bounds())
		}
	}
	return nil
}

func main() {
	signal.Ignore(syscall.SIGXFSZ)
	vx.Main("P04", "fault_enumeration", func(c *vx.C) {
		c.Rule = "one case = one save with storage that accepts exactly L bytes; every L from 0 to the full length is tried; non-trivial = L below the full length (an error is required) or equal to it (success and a complete file are required)"
		small, big := []int32{5, 4}, []int32{70, 45}
		if c.Thorough {
			big = []int32{110, 90}
		}
		var ts []target
		for _, ext := range []string{"fits", "fit.gz", "FITS.GZIP", "tif", "TIFF", "jpg", "jpeg"} {
			rgb := func(a []int32) []int32 { return append(append([]int32{}, a...), 3) }
			ts = append(ts, target{"a." + ext, small}, target{"a." + ext, rgb(small)}, target{"b." + ext, big})
			if c.Thorough || ext == "tif" || ext == "jpg" || ext == "fits" {
				ts = append(ts, target{"b." + ext, rgb([]int32{31, 20})})
			}
		}
		c.Bound("storage limit L = every byte offset 0..full length for %d (format, size, colour) targets and 3 ways of saving; files of up to %d bytes", len(ts), big[0]*big[1]*4+2*2880)
		// the file size limit is a property of the process, so these run one after another
		c.Serial("storage-limit", len(ts), func(s *vx.S) {
			t := ts[s.ID]
			dir := filepath.Join(c.Scratch, fmt.Sprint("t", s.ID))
			os.MkdirAll(dir, 0755)
			fn := filepath.Join(dir, t.name)
			img := image1(t.axes, s.ID)
			isFits := strings.Contains(strings.ToLower(t.name), ".fi")
			for via := 0; via < 3; via++ {
				if via == 2 && !isFits {
					continue
				}
				os.Remove(fn)
				if err := save(via, fn, img); err != nil {
					s.Report(fmt.Sprintf("%s axes %v via %d without limit", t.name, t.axes, via), vx.Fail("spurious-error", "%v", err))
					return
				}
				st, _ := os.Stat(fn)
				full := int(st.Size())
				for L := 0; L <= full+1; L++ {
					if via > 0 && !c.Thorough && L > 64 && L < full-64 && L%97 != 0 && L%4096 > 2 && L%2880 > 2 {
						continue
					}
					s.Check(func() string {
						return fmt.Sprintf("%s axes %v, way %d, storage full after %d of %d bytes", t.name, t.axes, via, L, full)
					}, func() error {
						os.Remove(fn)
						setLimit(uint64(L))
						err := save(via, fn, img)
						setLimit(1<<64 - 1)
						s.Outcome(vx.Hash(s.ID, via, L, err == nil))
						if L < full && err == nil {
							got := int64(-1)
							if st, e := os.Stat(fn); e == nil {
								got = st.Size()
							}
							return vx.Fail("incomplete-save-reported-ok", "success reported, file has %d of %d bytes", got, full)
						}
						if L < full {
							return nil
						}
						if err != nil {
							return vx.Fail("spurious-error", "%v", err)
						}
						return complete(fn, img)
					})
				}
			}
		})
		c.Bound("storage-limit for a large image: 60 limits spread over the length and around its end")
		c.Serial("storage-limit-large", 4, func(s *vx.S) {
			name := []string{"l.fits", "l.fits.gz", "l.tif", "l.jpg"}[s.ID]
			fn := filepath.Join(c.Scratch, name)
			defer os.Remove(fn)
			ch := []int32{1021, 613}
			if s.ID >= 2 {
				ch = append(ch, 3)
			}
			img := image1(ch, s.ID)
			if err := save(0, fn, img); err != nil {
				s.Report(name+" without limit", vx.Fail("spurious-error", "%v", err))
				return
			}
			st, _ := os.Stat(fn)
			full := int(st.Size())
			for k := 0; k < 60; k++ {
				L := full * k / 40
				if k >= 40 {
					L = full - (k-41)*(k-41)*(k-41)
				}
				if L > full+1 {
					L = full + 1
				}
				s.Check(func() string { return fmt.Sprintf("%s, storage full after %d of %d bytes", name, L, full) }, func() error {
					os.Remove(fn)
					setLimit(uint64(L))
					err := save(0, fn, img)
					setLimit(1<<64 - 1)
					s.Outcome(vx.Hash(s.ID, L, err == nil))
					if L < full && err == nil {
						return vx.Fail("incomplete-save-reported-ok", "success reported with %d of %d bytes", L, full)
					}
					if L >= full && err != nil {
						return vx.Fail("spurious-error", "%v", err)
					}
					if L < full {
						return nil
					}
					return complete(fn, img)
				})
			}
		})
		c.Bound("unusable targets: missing directory, directory in place of the file, symlink loop, dangling link, over-long name, a device that is always full, unknown suffix, wrong number of channels; every format")
		c.Serial("unusable-target", 7, func(s *vx.S) {
			ext := []string{"fits", "fits.gz", "fit.gzip", "tif", "tiff", "jpg", "jpeg"}[s.ID]
			dir := filepath.Join(c.Scratch, fmt.Sprint("u", s.ID))
			os.MkdirAll(filepath.Join(dir, "isdir."+ext), 0755)
			os.Symlink("loop."+ext, filepath.Join(dir, "loop."+ext))
			os.Symlink(filepath.Join(dir, "no", "where"), filepath.Join(dir, "dangling."+ext))
			os.Symlink("/dev/full", filepath.Join(dir, "full."+ext))
			for _, name := range []string{"missing/x." + ext, "isdir." + ext, "loop." + ext, "dangling." + ext, strings.Repeat("n", 300) + "." + ext, "full." + ext} {
				for _, axes := range [][]int32{{4, 3}, {4, 3, 3}, {60, 60}, {60, 60, 3}} {
					for via := 0; via < 2; via++ {
						s.Check(func() string { return fmt.Sprintf("target %.40s axes %v way %d", name, axes, via) }, func() error {
							err := save(via, filepath.Join(dir, name), image1(axes, 0))
							s.Outcome(vx.Hash(name, axes, via))
							if err == nil {
								return vx.Fail("incomplete-save-reported-ok", "success reported for an unusable target")
							}
							return nil
						})
					}
				}
			}
			for _, bad := range []struct {
				name string
				axes []int32
			}{{"x." + ext + ".bak", []int32{4, 3}}, {"x", []int32{4, 3}}, {"x" + ext + "x", []int32{4, 3}}, {"x." + ext, []int32{4, 3, 2}}, {"x." + ext, []int32{4, 3, 4}}, {"x." + ext, []int32{12}}} {
				if strings.HasPrefix(ext, "fit") && bad.name == "x."+ext {
					continue // FITS files hold any number of axes
				}
				s.Check(func() string { return fmt.Sprintf("target %s axes %v", bad.name, bad.axes) }, func() error {
					s.Outcome(vx.Hash(bad.name, bad.axes))
					fn := filepath.Join(dir, bad.name)
					if err := save(0, fn, image1(bad.axes, 0)); err == nil {
						return vx.Fail("incomplete-save-reported-ok", "success reported for %s with axes %v", bad.name, bad.axes)
					}
					return nil
				})
			}
			s.Check(func() string { return "failed input frame before save step " + ext }, func() error {
				boom := errors.New("boom")
				outs, err := ops.NewOpSave(filepath.Join(dir, "never."+ext), ops.EM0_1, 1).MakePromises([]ops.Promise{func() (*fits.Image, error) { return nil, boom }}, ctx())
				if err == nil {
					_, err = ops.MaterializeAll(outs, 1, false)
				}
				if err == nil {
					return vx.Fail("incomplete-save-reported-ok", "failed frame saved without error")
				}
				return nil
			})
		})
		c.Bound("several frames: N=1..4 frames through one save step, each nonempty subset of the target files unusable")
		c.Serial("subset", 4, func(s *vx.S) {
			n := s.ID + 1
			for ei, ext := range []string{"fits", "fits.gz", "tif", "jpg"} {
				for mask := 0; mask < 1<<n; mask++ {
					s.Check(func() string { return fmt.Sprintf("%d frames, unusable set %b, %s", n, mask, ext) }, func() error {
						dir := filepath.Join(c.Scratch, fmt.Sprintf("s%d-%d-%d", n, ei, mask))
						os.RemoveAll(dir)
						os.MkdirAll(dir, 0755)
						var ps []ops.Promise
						for k := 0; k < n; k++ {
							if mask>>k&1 == 1 {
								os.Symlink("/dev/full", filepath.Join(dir, fmt.Sprintf("f%d.%s", k, ext)))
							}
							img := image1([]int32{6, 5}, k)
							img.ID = k
							ps = append(ps, func() (*fits.Image, error) { return img, nil })
						}
						outs, err := ops.NewOpSave(filepath.Join(dir, "f%d."+ext), ops.EM0_1, 1).MakePromises(ps, ctx())
						if err == nil {
							_, err = ops.MaterializeAll(outs, 2, true)
						}
						s.Outcome(vx.Hash(n, ei, mask))
						if (err == nil) != (mask == 0) {
							return vx.Fail("incomplete-save-reported-ok", "unusable set %b, error %v", mask, err)
						}
						for k := 0; k < n; k++ {
							if mask>>k&1 == 0 {
								if err := complete(filepath.Join(dir, fmt.Sprintf("f%d.%s", k, ext)), image1([]int32{6, 5}, k)); err != nil {
									return err
								}
							}
						}
						return nil
					})
				}
			}
		})
	})
}
