package main

import (
	"fmt"
	"io"
	"math"
	"os"
	"path/filepath"
	"strings"
	"sync"
	"syscall"
	"unsafe"

	"github.com/mlnoga/nightlight/internal/fits"
	"github.com/mlnoga/nightlight/internal/ops"
	"github.com/mlnoga/nightlight/internal/ops/pre"
	"github.com/mlnoga/nightlight/internal/stats"
	"github.com/mlnoga/nightlight/internal/zzverif/fx"
	"github.com/mlnoga/nightlight/internal/zzverif/sx"
	"github.com/mlnoga/nightlight/internal/zzverif/vsched"
	"github.com/mlnoga/nightlight/internal/zzverif/vx"
)

func writeFits(name string, naxisn []int, data []float32) {
	cards := []string{fx.KV("SIMPLE", "T"), fx.KV("BITPIX", "-32"), fx.KV("NAXIS", fmt.Sprint(len(naxisn)))}
	for i, n := range naxisn {
		cards = append(cards, fx.KV(fmt.Sprintf("NAXIS%d", i+1), fmt.Sprint(n)))
	}
	raw := make([]fx.Raw, len(data))
	for i, v := range data {
		raw[i].F = float64(v)
	}
	if err := os.WriteFile(name, append(fx.HeaderBytes(cards), fx.Pad2880(fx.EncodeData(-32, raw))...), 0o666); err != nil {
		panic(err)
	}
}

func image(id int, naxisn []int, data []float32) *fits.Image {
	f := fits.NewImage()
	f.ID = id
	f.Naxisn = nil
	for _, n := range naxisn {
		f.Naxisn = append(f.Naxisn, int32(n))
	}
	f.Pixels = int32(len(data))
	f.Data = append([]float32(nil), data...)
	f.Stats = stats.NewStats(f.Data, f.Naxisn[0])
	return f
}

// expected result of the calibration of one pixel.
func calibrated(light, dark, flat, flatMax float32, useDark, useFlat bool) float64 {
	v := float64(light)
	if useDark {
		v = float64(light - dark)
	}
	if useFlat && flat > 0 {
		v = v * float64(flatMax) / float64(flat)
	}
	return v
}

func compare(f *fits.Image, light, dark, flat []float32, useDark, useFlat bool) error {
	if len(f.Data) != len(light) {
		return vx.Fail("length", "calibrated frame has %d pixels instead of %d", len(f.Data), len(light))
	}
	max := float32(math.Inf(-1))
	for _, v := range flat {
		if v > max {
			max = v
		}
	}
	for i := range light {
		var d, fl float32
		if useDark {
			d = dark[i]
		}
		if useFlat {
			fl = flat[i]
		}
		want := calibrated(light[i], d, fl, max, useDark, useFlat)
		if !fx.Near(f.Data[i], want, 0) && math.Abs(float64(f.Data[i])-want) > 1e-30 {
			return vx.Fail("value", "pixel %d: light %g dark %g flat %g (max %g) gives %g, want %g", i, light[i], d, fl, max, f.Data[i], want)
		}
	}
	// statistics must be those of the calibrated pixels
	lo, hi := f.Data[0], f.Data[0]
	for _, v := range f.Data {
		if v < lo {
			lo = v
		}
		if v > hi {
			hi = v
		}
	}
	if f.Stats.Min() != lo || f.Stats.Max() != hi {
		return vx.Fail("stats", "statistics say [%g,%g], pixels are in [%g,%g]", f.Stats.Min(), f.Stats.Max(), lo, hi)
	}
	return nil
}

// ---- opens counts how often a file below dir is opened, by inotify

type opens struct{ fd int }

func newOpens(dir string) *opens {
	fd, err := syscall.InotifyInit1(syscall.IN_NONBLOCK)
	if err != nil {
		return nil
	}
	if _, err := syscall.InotifyAddWatch(fd, dir, syscall.IN_OPEN); err != nil {
		return nil
	}
	return &opens{fd}
}

func (o *opens) read() map[string]int {
	r := map[string]int{}
	buf := make([]byte, 65536)
	for {
		n, err := syscall.Read(o.fd, buf)
		if err != nil || n <= 0 {
			return r
		}
		for p := 0; p+syscall.SizeofInotifyEvent <= n; {
			ev := (*syscall.InotifyEvent)(unsafe.Pointer(&buf[p]))
			name := strings.TrimRight(string(buf[p+syscall.SizeofInotifyEvent:p+syscall.SizeofInotifyEvent+int(ev.Len)]), "\x00")
			r[name]++
			p += syscall.SizeofInotifyEvent + int(ev.Len)
		}
	}
}

var prep sync.Once
var watch *opens

func prepare() {
	prep.Do(func() {
		writeFits("dark.fits", []int{2, 2}, []float32{1, 2, 3, 4})
		writeFits("flat.fits", []int{2, 2}, []float32{0.5, 1, 2, 0})
		writeFits("swap.fits", []int{4, 1}, []float32{0.5, 1, 2, 0})
		writeFits("big.fits", []int{3, 2}, []float32{1, 2, 3, 4, 5, 6})
		b, _ := os.ReadFile("dark.fits")
		os.WriteFile("torn.fits", b[:2884], 0o666)
		watch = newOpens(".")
	})
}

// job explores n lights calibrated concurrently. steps: number of consecutive calibration steps the frames are split over.
func job(n, threads int, dark, flat string, split bool, preempt int) sx.Job {
	return sx.Job{Name: fmt.Sprintf("%d lights, %d threads, dark %q flat %q split=%v, preemptions<=%d", n, threads, dark, flat, split, preempt), Preempt: preempt, OneOutcome: true,
		Setup: func() (func(), func() (string, error)) {
			prepare()
			watch.read()
			stats.LSEstimator = stats.LSEMeanStdDev
			c := ops.NewContext(io.Discard, 100, stats.LSEMeanStdDev)
			c.MaxThreads = threads
			lights := make([]ops.Promise, n)
			src := make([][]float32, n)
			for i := range lights {
				i := i
				src[i] = []float32{float32(10 * (i + 1)), 7, 3, float32(i)}
				lights[i] = func() (*fits.Image, error) {
					vsched.Yield()
					return image(i, []int{2, 2}, src[i]), nil
				}
			}
			var outs []*fits.Image
			errs := make([]error, n)
			each := make([]*fits.Image, n)
			var mkErr error
			body := func() {
				var ps []ops.Promise
				if split {
					if ps, mkErr = pre.NewOpCalibrate(dark, "").MakePromises(lights, c); mkErr != nil {
						return
					}
					if ps, mkErr = pre.NewOpCalibrate("", flat).MakePromises(ps, c); mkErr != nil {
						return
					}
				} else if ps, mkErr = pre.NewOpCalibrate(dark, flat).MakePromises(lights, c); mkErr != nil {
					return
				}
				for i := range ps { // remember what happened to every single light
					i, p := i, ps[i]
					ps[i] = func() (*fits.Image, error) {
						f, err := p()
						each[i], errs[i] = f, err
						return f, err
					}
				}
				outs, _ = ops.MaterializeAll(ps, threads, false)
			}
			bad := func(name string) bool {
				return name == "none.fits" || name == "torn.fits" || name == "/etc/passwd" || name == "big.fits"
			}
			fail := bad(dark) || bad(flat) || (dark != "" && flat == "swap.fits")
			check := func() (string, error) {
				if mkErr != nil {
					return "", sx.Failf("promise", "%v", mkErr)
				}
				for name, k := range watch.read() {
					if !fail && k > 1 {
						return "", sx.Failf("loads", "%s was opened %d times", name, k)
					}
				}
				df, ff := []float32{1, 2, 3, 4}, []float32{0.5, 1, 2, 0}
				o := ""
				for i := range each {
					if fail {
						if errs[i] == nil || each[i] != nil {
							return "", sx.Failf("accepted", "light %d did not fail although the calibration frames %q and %q are unusable", i, dark, flat)
						}
						o += " err"
						continue
					}
					if errs[i] != nil {
						return "", sx.Failf("refused", "light %d failed: %v", i, errs[i])
					}
					if err := compare(each[i], src[i], df, ff, dark != "", flat != ""); err != nil {
						return "", err
					}
					o += fmt.Sprint(" ", each[i].Data)
				}
				if !fail && len(outs) != n {
					return "", sx.Failf("lost", "%d of %d lights delivered", len(outs), n)
				}
				return o, nil
			}
			return body, check
		}}
}

func jobs() []sx.Job {
	var js []sx.Job
	for n := 1; n <= 2; n++ {
		for th := 1; th <= 2; th++ {
			for _, d := range []string{"", "dark.fits", "none.fits", "torn.fits", "/etc/passwd", "big.fits"} {
				for _, f := range []string{"", "flat.fits", "none.fits", "torn.fits", "swap.fits", "big.fits"} {
					pre := 1
					if n == 1 || (d == "" || d == "dark.fits" || d == "none.fits") && (f == "" || f == "flat.fits") {
						pre = 2
					}
					js = append(js, job(n, th, d, f, false, pre))
				}
			}
			js = append(js, job(n, th, "dark.fits", "flat.fits", true, 2))
		}
	}
	for th := 2; th <= 3; th++ {
		js = append(js, job(3, th, "dark.fits", "flat.fits", false, 1), job(3, th, "dark.fits", "", false, 1), job(3, th, "none.fits", "", false, 1), job(3, th, "dark.fits", "swap.fits", false, 1),
			job(3, th, "dark.fits", "flat.fits", true, 1))
	}
	return js
}

func run(c *vx.C, dir string, light *fits.Image, dark, flat string) (*fits.Image, error) {
	cx := ops.NewContext(io.Discard, 100, stats.LSEMeanStdDev)
	cx.MaxThreads = 2
	return pre.NewOpCalibrate(dark, flat).Apply(light, cx)
}

func main() {
	js := jobs()
	if sx.Worker(js) {
		return
	}
	vx.Main("P08", "model_checking", func(c *vx.C) {
		stats.LSEstimator = stats.LSEMeanStdDev
		os.Chdir(c.Scratch)
		alpha := []float32{-2, 0, 0.25, 1, 3, 1000}
		lights := []float32{-1, 0, 0.5, 7, 65535}
		c.Bound("every combination of dark %v, flat %v and light %v values in one image; every pair of such flats; with and without dark and flat", alpha, alpha, lights)
		c.Shards("values", len(alpha)*4, func(s *vx.S) {
			// one image holds all combinations for a fixed flat maximum
			use := s.ID % 4
			top := alpha[s.ID/4]
			var l, d, f []float32
			for _, a := range lights {
				for _, b := range alpha {
					for _, g := range alpha {
						if g <= top {
							l, d, f = append(l, a), append(d, b), append(f, g)
						}
					}
				}
			}
			for rot := 0; rot < len(l); rot++ {
				s.Check(func() string { return fmt.Sprintf("use %d, flat maximum %g, rotation %d", use, top, rot) }, func() error {
					ll := append(append([]float32(nil), l[rot:]...), l[:rot]...)
					dd := append(append([]float32(nil), d[rot:]...), d[:rot]...)
					ff := append(append([]float32(nil), f[rot:]...), f[:rot]...)
					dn, fn := fmt.Sprintf("d%d.fits", s.ID), fmt.Sprintf("f%d.fits", s.ID)
					n := []int{len(ll), 1}
					if rot%2 == 1 && len(ll)%5 == 0 {
						n = []int{5, len(ll) / 5}
					}
					writeFits(dn, n, dd)
					writeFits(fn, n, ff)
					if use&1 == 0 {
						dn = ""
					}
					if use&2 == 0 {
						fn = ""
					}
					im := image(3, n, ll)
					im.Stats.Max()
					r, err := run(c, c.Scratch, im, dn, fn)
					if err != nil {
						return vx.Fail("refused", "%v", err)
					}
					s.Outcome(vx.HashF(r.Data))
					if r.ID != 3 {
						return vx.Fail("id", "frame number %d became %d", 3, r.ID)
					}
					return compare(r, ll, dd, ff, use&1 != 0, use&2 != 0)
				})
			}
		})
		dims := [][]int{{1, 1}, {2, 1}, {1, 2}, {3, 2}, {2, 3}, {6, 1}, {4, 4}, {2, 2, 3}, {2, 6}, {3, 3}}
		c.Bound("every combination of light, dark and flat dimensions out of %v", dims)
		c.Shards("dimensions", len(dims), func(s *vx.S) {
			ln := dims[s.ID]
			mk := func(n []int, f func(i int) float32) []float32 {
				p := 1
				for _, x := range n {
					p *= x
				}
				d := make([]float32, p)
				for i := range d {
					d[i] = f(i)
				}
				return d
			}
			light := mk(ln, func(i int) float32 { return float32(10 + i*i) })
			for di := -1; di < len(dims); di++ {
				for fi := -1; fi < len(dims); fi++ {
					s.Check(func() string { return fmt.Sprintf("light %v dark %d flat %d of %v", ln, di, fi, dims) }, func() error {
						dn, fn := "", ""
						var dd, ff []float32
						reject := false
						loose := false
						if di >= 0 {
							dd = mk(dims[di], func(i int) float32 { return float32(i % 3) })
							dn = fmt.Sprintf("dd%d.fits", s.ID)
							writeFits(dn, dims[di], dd)
							reject = reject || len(dd) != len(light)
							loose = loose || fmt.Sprint(dims[di]) != fmt.Sprint(ln)
						}
						if fi >= 0 {
							ff = mk(dims[fi], func(i int) float32 { return float32(i%4) + 0.5 })
							fn = fmt.Sprintf("ff%d.fits", s.ID)
							writeFits(fn, dims[fi], ff)
							reject = reject || len(ff) != len(light)
							loose = loose || fmt.Sprint(dims[fi]) != fmt.Sprint(ln)
							if di >= 0 && fmt.Sprint(dims[di]) != fmt.Sprint(dims[fi]) {
								reject = true
							}
						}
						im := image(1, ln, light)
						r, err := run(c, c.Scratch, im, dn, fn)
						s.Outcome(vx.Hash(ln, di, fi, err == nil))
						if err != nil {
							if !reject && !loose {
								return vx.Fail("refused", "%v", err)
							}
							if r != nil {
								return vx.Fail("partial", "an image was returned together with error %v", err)
							}
							return nil
						}
						if reject {
							return vx.Fail("mismatch-accepted", "mismatching dimensions were accepted")
						}
						return compare(r, light, dd, ff, di >= 0, fi >= 0)
					})
				}
			}
		})
		ldims := [][]int{{1021, 613}, {70003, 4}, {4, 70003}, {301, 257, 3}}
		c.Bound("large frames %v with dark, flat, and both", ldims)
		c.Shards("large", len(ldims)*3, func(s *vx.S) {
			n, use := ldims[s.ID/3], 1+s.ID%3
			s.Check(func() string { return fmt.Sprintf("frames %v, use %d", n, use) }, func() error {
				p := 1
				for _, x := range n {
					p *= x
				}
				l, d, f := make([]float32, p), make([]float32, p), make([]float32, p)
				for i := range l {
					l[i], d[i], f[i] = float32(i*7919%10007), float32(i*31%97), float32(i*13%211)/8-1
				}
				dn, fn := fmt.Sprintf("ld%d.fits", s.ID), fmt.Sprintf("lf%d.fits", s.ID)
				writeFits(dn, n, d)
				writeFits(fn, n, f)
				defer os.Remove(filepath.Join(c.Scratch, dn))
				defer os.Remove(filepath.Join(c.Scratch, fn))
				if use&1 == 0 {
					dn = ""
				}
				if use&2 == 0 {
					fn = ""
				}
				r, err := run(c, c.Scratch, image(3, n, l), dn, fn)
				if err != nil {
					return vx.Fail("refused", "%v", err)
				}
				s.Outcome(vx.HashF(r.Data))
				return compare(r, l, d, f, use&1 != 0, use&2 != 0)
			})
		})
		c.Bound("dark file cut at every 61st byte: every light fails")
		c.Shards("damaged", 8, func(s *vx.S) {
			full := filepath.Join(c.Scratch, fmt.Sprintf("full%d.fits", s.ID))
			writeFits(full, []int{2, 2}, []float32{1, 2, 3, 4})
			b, _ := os.ReadFile(full)
			for cut := s.ID * 61; cut < 2880+16; cut += 8 * 61 {
				s.Check(func() string { return fmt.Sprintf("calibration frame cut after %d bytes", cut) }, func() error {
					name := fmt.Sprintf("cut%d.fits", s.ID)
					os.WriteFile(name, b[:cut], 0o666)
					for use := 0; use < 2; use++ {
						dn, fn := name, ""
						if use == 1 {
							dn, fn = "", name
						}
						for k := 0; k < 2; k++ {
							r, err := run(c, c.Scratch, image(k, []int{2, 2}, []float32{5, 6, 7, 8}), dn, fn)
							if err == nil || r != nil {
								return vx.Fail("accepted", "light %d was processed with an unreadable frame", k)
							}
						}
					}
					s.Outcome(vx.Hash(cut))
					return nil
				})
			}
		})
		c.Bound("1..3 lights calibrated concurrently with 1..3 threads, readable, missing, torn, forbidden and mismatching frames, dark and flat in one or two steps")
		sx.Phase(c, "schedules", js, 20)
	})
}
