package main

import (
	"errors"
	"fmt"
	"io"
	"math"
	"os"
	"os/signal"
	"path/filepath"
	"strconv"
	"strings"
	"syscall"

	"github.com/mlnoga/nightlight/internal/fits"
	"github.com/mlnoga/nightlight/internal/ops"
	"github.com/mlnoga/nightlight/internal/ops/ref"
	"github.com/mlnoga/nightlight/internal/star"
	"github.com/mlnoga/nightlight/internal/stats"
	"github.com/mlnoga/nightlight/internal/zzverif/fx"
	"github.com/mlnoga/nightlight/internal/zzverif/sx"
	"github.com/mlnoga/nightlight/internal/zzverif/vsched"
	"github.com/mlnoga/nightlight/internal/zzverif/vx"
)

// row is what the table has to say about a frame
type row struct {
	id    int
	data  []float32
	stars int
	hfr   float32
}

func (r row) image() *fits.Image {
	f := fits.NewImage()
	f.ID = r.id
	f.Naxisn = []int32{int32(len(r.data)), 1}
	f.Pixels = int32(len(r.data))
	f.Data = append([]float32(nil), r.data...)
	f.Stats = stats.NewStats(f.Data, f.Naxisn[0])
	for i := 0; i < r.stars; i++ {
		f.Stars = append(f.Stars, star.Star{X: float32(i)})
	}
	f.HFR = r.hfr
	return f
}

func (r row) values() []float64 {
	lo, hi, sum := math.Inf(1), math.Inf(-1), 0.0
	for _, v := range r.data {
		lo, hi, sum = math.Min(lo, float64(v)), math.Max(hi, float64(v)), sum+float64(v)
	}
	mean, va := sum/float64(len(r.data)), 0.0
	for _, v := range r.data {
		va += (float64(v) - mean) * (float64(v) - mean)
	}
	v := []float64{float64(r.id), lo, mean, hi, mean, math.Sqrt(va / float64(len(r.data))), float64(r.stars), float64(r.hfr)}
	if stats.LSEstimator != stats.LSEMeanStdDev { // the estimators themselves are not judged here
		st := stats.NewStats(append([]float32(nil), r.data...), int32(len(r.data)))
		v[4], v[5] = float64(st.Location()), float64(st.Scale())
	}
	return v
}

// page is the text around the table, learnt from the single-frame export and the same for every export.
func parse(name string) (rows [][]float64, before, after string, err error) {
	b, err := os.ReadFile(name)
	if err != nil {
		return nil, "", "", vx.Fail("missing", "%v", err)
	}
	s := string(b)
	head := "['ID','Min','Mean','Max','Location','Scale','Stars','HFR']"
	if strings.Count(s, head) != 1 {
		return nil, "", "", vx.Fail("header", "%d table headers", strings.Count(s, head))
	}
	i := strings.Index(s, head) + len(head)
	before, s = s[:i], s[i:]
	if strings.Count(s, "</html>") != 1 || strings.Count(before, "<html>") != 1 || !strings.HasPrefix(before, "<html>") || !strings.HasSuffix(s, "</html>\n") {
		return nil, "", "", vx.Fail("footer", "the page is not complete: it ends with %q", tail(s))
	}
	// rows are ", [ numbers ]" up to the closing bracket of the table
	for {
		t := strings.TrimLeft(s, " \t\r\n")
		if strings.HasPrefix(t, "]") {
			after = s
			break
		}
		if !strings.HasPrefix(t, ",") {
			return nil, "", "", vx.Fail("syntax", "unexpected text after %d rows: %.60q", len(rows), t)
		}
		t = strings.TrimLeft(t[1:], " \t\r\n")
		e := strings.Index(t, "]")
		if !strings.HasPrefix(t, "[") || e < 0 {
			return nil, "", "", vx.Fail("syntax", "unexpected text after %d rows: %.60q", len(rows), t)
		}
		var r []float64
		for _, x := range strings.Split(t[1:e], ",") {
			v, err := strconv.ParseFloat(strings.TrimSpace(x), 64)
			if err != nil {
				return nil, "", "", vx.Fail("syntax", "row %q: %v", t[:e+1], err)
			}
			r = append(r, v)
		}
		rows = append(rows, r)
		s = t[e+1:]
	}
	if strings.Count(after, "function drawChart()") != 1 {
		return nil, "", "", vx.Fail("footer", "the page has %d footers", strings.Count(after, "function drawChart()"))
	}
	return rows, before, strings.TrimLeft(after, " \t\r\n"), nil
}

func verify(name string, want []row) error {
	got, _, after, err := parse(name)
	if err != nil {
		return err
	}
	if !strings.HasPrefix(after, "]") || !strings.HasPrefix(strings.TrimLeft(after[1:], " \r\n"), ";") {
		return vx.Fail("syntax", "table does not end properly: %.40q", after)
	}
	if len(got) != len(want) {
		return vx.Fail("rows", "%d rows for %d frames", len(got), len(want))
	}
	used := make([]bool, len(got))
	for _, w := range want {
		n := -1
		for i, g := range got {
			if !used[i] && len(g) > 0 && int(g[0]) == w.id {
				n = i
				break
			}
		}
		if n < 0 {
			return vx.Fail("rows", "no row for frame %d", w.id)
		}
		used[n] = true
		g, v := got[n], w.values()
		if len(g) != len(v) {
			return vx.Fail("columns", "row %v of frame %d", g, w.id)
		}
		for c := range v {
			if math.IsNaN(v[c]) && math.IsNaN(g[c]) {
				continue
			}
			if !(math.Abs(g[c]-v[c]) <= 1e-6+1e-5*math.Max(math.Abs(v[c]), math.Max(math.Abs(v[1]), math.Abs(v[3])))) {
				return vx.Fail("value", "frame %d column %d is %g instead of %g", w.id, c, g[c], v[c])
			}
		}
	}
	return nil
}

func ctx(threads int) *ops.Context {
	stats.LSEstimator = stats.LSEMeanStdDev
	c := ops.NewContext(io.Discard, 100, stats.LSEMeanStdDev)
	c.MaxThreads = threads
	return c
}

// job: kinds has one letter per frame: i image, n dropped, e failing, s image without stars (dropped by a filter before)
func job(kinds string, threads, batch, exports, preempt int) sx.Job {
	return sx.Job{Name: fmt.Sprintf("frames %s, %d threads, batches of %d, %d exports, preemptions<=%d", kinds, threads, batch, exports, preempt), Preempt: preempt,
		Setup: func() (func(), func() (string, error)) {
			c := ctx(threads)
			os.WriteFile("old0.html", []byte(strings.Repeat("left over from an earlier run\n", 1000)), 0o666)
			os.Remove("old1.html")
			var want []row
			var ps []ops.Promise
			for i, k := range kinds {
				r := row{i, []float32{float32(i), 5, 9 + 2*float32(i), float32(-i)}, i + 1, 2.5 + float32(i)}
				k := k
				if k == 's' {
					r.stars = 0
				}
				if k == 'i' {
					want = append(want, r)
				}
				ps = append(ps, func() (*fits.Image, error) {
					vsched.Yield()
					if k == 'e' {
						return nil, errors.New("cannot load")
					}
					if k == 'n' {
						return nil, nil
					}
					return r.image(), nil
				})
			}
			steps := []ops.Operator{ref.NewOpFilter(1)}
			for e := 0; e < exports; e++ {
				steps = append(steps, ref.NewOpExportStats(fmt.Sprintf("old%d.html", e)))
			}
			seq := ops.NewOpSequence(steps...)
			var mkErr error
			got := 0
			body := func() {
				for from := 0; from < len(ps); from += batch {
					to := from + batch
					if to > len(ps) {
						to = len(ps)
					}
					qs, err := seq.MakePromises(ps[from:to], c)
					if err != nil {
						mkErr = err
						return
					}
					fs, _ := ops.MaterializeAll(qs, threads, false)
					got += len(fs)
				}
			}
			return body, func() (string, error) {
				if mkErr != nil {
					return "", mkErr
				}
				if got != len(want) {
					return "", sx.Failf("lost", "%d of %d frames passed the export", got, len(want))
				}
				if len(want) == 0 {
					return "none", nil
				}
				for e := 0; e < exports; e++ {
					if err := verify(fmt.Sprintf("old%d.html", e), want); err != nil {
						return "", err
					}
				}
				b, _ := os.ReadFile("old0.html")
				return fmt.Sprintf("%x", vx.Hash(string(b))), nil
			}
		}}
}

func jobs() (js []sx.Job) {
	for _, k := range []string{"i", "s", "n", "ii", "in", "ni", "si", "ei", "ie"} {
		js = append(js, job(k, 1, 9, 1, 2), job(k, 2, 9, 1, deep(4, 3)), job(k, 2, 9, 2, deep(3, 2)), job(k, 2, 1, 1, 1))
	}
	for _, k := range []string{"iii", "isi", "sii", "iis", "eii", "iin"} {
		js = append(js, job(k, 2, 9, 1, deep(3, 2)), job(k, 3, 9, 1, deep(3, 2)), job(k, 2, 2, 1, deep(3, 2)), job(k, 3, 9, 2, deep(2, 1)))
	}
	js = append(js, job("iiii", 4, 9, 1, deep(2, 1)), job("iiii", 2, 2, 1, deep(2, 1)), job("iisi", 2, 3, 1, deep(2, 1)), job("iiiii", 2, 2, 1, deep(2, 1)))
	return js
}

func limit(n int64) {
	var l syscall.Rlimit
	if err := syscall.Getrlimit(1, &l); err != nil {
		panic(err)
	}
	l.Cur = uint64(n)
	if n < 0 {
		l.Cur = l.Max
	}
	if err := syscall.Setrlimit(1, &l); err != nil {
		panic(err)
	}
}

func main() {
	js := jobs()
	if sx.Worker(js) {
		return
	}
	signal.Ignore(syscall.SIGXFSZ)
	vx.Main("P30", "model_checking", func(c *vx.C) {
		os.Chdir(c.Scratch)
		stats.LSEstimator = stats.LSEMeanStdDev
		pal := [][]float32{{0}, {0, 1}, {-3, 7, 2.5}, {65535, 0, 12, 1e6}, {0.001, 0.002}, {5, 5, 5, 5}}
		hfrs := []float32{0, 1.25, float32(math.NaN()), 1e4}
		c.Bound("single frames: pixels %v, HFR %v, 0..3 stars and up to 70000, numbers -3, 0, 7, 123456", pal, hfrs)
		c.Serial("values", 1, func(s *vx.S) {
			for _, d := range pal {
				for _, h := range hfrs {
					for _, n := range []int{0, 1, 2, 3, 100, 255, 256, 1000, 1024, 70000} {
						if n > 3 && (h != hfrs[0] || len(d) > 1) {
							continue
						}
						for _, id := range []int{-3, 0, 7, 123456} {
							r := row{id, d, n, h}
							s.Check(func() string { return fmt.Sprintf("frame %v", r) }, func() error {
								f := r.image()
								g, err := ref.NewOpExportStats("v.html").Apply(f, ctx(1))
								if err != nil || g != f || !fx.SameBits(f.Data, d) {
									return vx.Fail("changed", "the exported frame is not handed on unchanged: %v", err)
								}
								s.Outcome(vx.Hash(fmt.Sprint(r)))
								return verify("v.html", []row{r})
							})
						}
					}
				}
			}
		})
		c.Bound("location and scale with the IKSS and histogram estimators, which differ from mean and standard deviation")
		c.Serial("estimators", 1, func(s *vx.S) {
			defer func() { stats.LSEstimator = stats.LSEMeanStdDev }()
			for _, e := range []stats.LSEstimatorMode{stats.LSEIKSS, stats.LSEHistogram} {
				for k := 1; k < 40; k++ {
					var d []float32
					for i := 0; i < 30+k; i++ {
						d = append(d, float32(i*k%17)+float32(i%5)*float32(k)/7)
					}
					d = append(d, 500, 900)
					r := row{k, d, 1, 2}
					s.Check(func() string { return fmt.Sprintf("estimator %d, frame %v", e, d) }, func() error {
						cx := ctx(1)
						stats.LSEstimator = e
						s.Outcome(vx.Hash(e, k))
						if _, err := ref.NewOpExportStats("e.html").Apply(r.image(), cx); err != nil {
							return vx.Fail("refused", "%v", err)
						}
						return verify("e.html", []row{r})
					})
				}
			}
		})
		c.Bound("1..60, 150, 300 and 700 frames in ascending, descending and interleaved order, the file complete after every single frame; the same with a run repeated to the same file")
		c.Serial("many", 1, func(s *vx.S) {
			for nn := 1; nn <= 63; nn++ {
				n := nn
				if nn > 60 {
					n = []int{150, 300, 700}[nn-61]
				}
				for o := 0; o < 3; o++ {
					s.Check(func() string { return fmt.Sprintf("%d frames, order %d", n, o) }, func() error {
						op := ref.NewOpExportStats("m.html")
						for run := 0; run < 2; run++ {
							cx := ctx(1)
							if o != 1 {
								op = ref.NewOpExportStats("m.html")
							}
							var want []row
							for k := 0; k < n; k++ {
								i := k
								if o == 1 {
									i = n - 1 - k
								} else if o == 2 {
									i = k * 37 % n
									if n%37 == 0 {
										i = k
									}
								}
								r := row{i, []float32{float32(i), 1000 - float32(i), 3}, i % 4, float32(i) / 4}
								want = append(want, r)
								if _, err := op.Apply(r.image(), cx); err != nil {
									return vx.Fail("refused", "%v", err)
								}
							}
							if err := verify("m.html", want); err != nil {
								return err
							}
						}
						s.Outcome(vx.Hash(n, o))
						return nil
					})
				}
			}
		})
		c.Bound("unusable file names, and a file that stops growing after every number of bytes up to its full size (in steps of 13)")
		c.Serial("failures", 1, func(s *vx.S) {
			os.MkdirAll("dir.html", 0o777)
			os.Symlink("/dev/full", "full.html")
			for _, name := range []string{"nodir/x.html", "dir.html", "full.html", strings.Repeat("x", 300) + ".html"} {
				s.Check(func() string { return fmt.Sprintf("file name %.20q", name) }, func() error {
					cx := ctx(1)
					op := ref.NewOpExportStats(name)
					for i := 0; i < 3; i++ {
						r := row{i, []float32{1, 2}, 1, 1}
						if _, err := op.Apply(r.image(), cx); err == nil {
							return vx.Fail("unreported", "export of frame %d to an unusable file succeeded", i)
						}
					}
					s.Outcome(vx.Hash(name))
					return nil
				})
			}
			s.Check(func() string { return "empty file name" }, func() error {
				r := row{0, []float32{1, 2}, 1, 1}
				if f, err := ref.NewOpExportStats("").Apply(r.image(), ctx(1)); err != nil || f == nil {
					return vx.Fail("refused", "%v", err)
				}
				return nil
			})
			n := 3
			write := func(name string) error {
				cx := ctx(1)
				op := ref.NewOpExportStats(name)
				var first error
				for i := 0; i < n; i++ {
					r := row{i, []float32{1, 2, float32(i)}, 1, 1}
					if _, err := op.Apply(r.image(), cx); err != nil && first == nil {
						first = err
					}
				}
				return first
			}
			if err := write("size.html"); err != nil {
				s.Check(func() string { return "size" }, func() error { return vx.Fail("refused", "%v", err) })
				return
			}
			fi, err := os.Stat("size.html")
			if err != nil {
				s.Check(func() string { return "size" }, func() error { return vx.Fail("missing", "%v", err) })
				return
			}
			for at := int64(1); at <= fi.Size()+13; at += 13 {
				s.Check(func() string { return fmt.Sprintf("disk full after %d of %d bytes", at, fi.Size()) }, func() error {
					name := filepath.Join(c.Scratch, "lim.html")
					os.Remove(name)
					limit(at)
					err := write(name)
					limit(-1)
					s.Outcome(vx.Hash(at, err == nil))
					if at < fi.Size() && err == nil {
						return vx.Fail("unreported", "export succeeded although only %d of %d bytes could be written", at, fi.Size())
					}
					if at >= fi.Size() && err != nil {
						return vx.Fail("refused", "%v", err)
					}
					return nil
				})
			}
		})
		c.Bound("1..5 frames, some failing or dropped before, 1..4 threads, one or two exports, one or more batches")
		sx.Phase(c, "schedules", js, 5)
	})
}

// deep picks the preemption bound by tier.
func deep(thorough, quick int) int {
	for _, a := range os.Args {
		if a == "thorough" {
			return thorough
		}
	}
	return quick
}

func tail(s string) string {
	if len(s) > 60 {
		return s[len(s)-60:]
	}
	return s
}
