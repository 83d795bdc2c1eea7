package main

import (
	"errors"
	"fmt"
	"runtime"
	"sort"
	"strings"
	"sync/atomic"

	"github.com/mlnoga/nightlight/internal/fits"
	"github.com/mlnoga/nightlight/internal/ops"
	"github.com/mlnoga/nightlight/internal/zzverif/fx"
	"github.com/mlnoga/nightlight/internal/zzverif/sx"
	"github.com/mlnoga/nightlight/internal/zzverif/vsched"
	"github.com/mlnoga/nightlight/internal/zzverif/vx"
)

// what a promise does: 'i' image, 'n' nil, 'e'/'f'/'g' failing with different messages, one part of another
var messages = map[byte]string{'e': "no frame 1", 'f': "no frame 12", 'g': "frame"}

func job(kinds string, threads int, forget bool, preempt int) sx.Job {
	return sx.Job{Name: fmt.Sprintf("promises %s, %d threads, forget=%v, preemptions<=%d", kinds, threads, forget, preempt), Preempt: preempt,
		Setup: func() (func(), func() (string, error)) {
			n := len(kinds)
			imgs := make([]*fits.Image, n)
			runs := make([]int, n)
			active, maxActive := 0, 0
			ps := make([]ops.Promise, n)
			for i := range ps {
				i := i
				imgs[i] = &fits.Image{ID: i}
				ps[i] = func() (*fits.Image, error) {
					vsched.Add(&runs[i], 1)
					if a := vsched.Add(&active, 1); a > vsched.Get(&maxActive) {
						vsched.Add(&maxActive, 1)
					}
					vsched.Yield()
					vsched.Add(&active, -1)
					switch kinds[i] {
					case 'i':
						return imgs[i], nil
					case 'n':
						return nil, nil
					}
					return nil, errors.New(messages[kinds[i]])
				}
			}
			var outs []*fits.Image
			var err error
			body := func() { outs, err = ops.MaterializeAll(ps, threads, forget) }
			check := func() (string, error) {
				for i := range runs {
					if runs[i] != 1 {
						return "", sx.Failf("runs", "promise %d was run %d times", i, runs[i])
					}
				}
				if maxActive > threads {
					return "", sx.Failf("limit", "%d promises were active at the same time, the limit is %d", maxActive, threads)
				}
				if active != 0 {
					return "", sx.Failf("early-return", "returned while %d promises were still running", active)
				}
				want := ""
				distinct := map[string]bool{}
				for i := range kinds {
					if kinds[i] == 'i' {
						want += fmt.Sprintf(" %d", i)
					} else if kinds[i] != 'n' {
						distinct[messages[kinds[i]]] = true
					}
				}
				got := ""
				for _, f := range outs {
					if f == nil {
						got += " nil"
						continue
					}
					if f != imgs[f.ID] {
						return "", sx.Failf("images", "foreign image delivered")
					}
					got += fmt.Sprintf(" %d", f.ID)
				}
				if forget {
					want = ""
				}
				if got != want {
					return "", sx.Failf("images", "delivered images [%s ], want [%s ]", got, want)
				}
				if (err != nil) != (len(distinct) > 0) {
					return "", sx.Failf("errors", "error is %v, failures were %v", err, distinct)
				}
				var parts []string
				if err != nil {
					msg := err.Error()
					parts = strings.Split(msg, "; ")
					for _, d := range []string{messages['f'], messages['e'], messages['g']} { // longest first
						if !distinct[d] {
							continue
						}
						if !strings.Contains(msg, d) {
							return "", sx.Failf("errors", "error %q does not report %q", err.Error(), d)
						}
						msg = strings.Replace(msg, d, "\x00", 1)
					}
					sort.Strings(parts)
				}
				return fmt.Sprint(got, parts), nil
			}
			return body, check
		}}
}

func jobs() []sx.Job {
	var js []sx.Job
	alphabet := "inef"
	for n := 1; n <= 3; n++ {
		fx.Vectors(n, len(alphabet), func(v []int) {
			k := ""
			for _, x := range v {
				k += alphabet[x : x+1]
			}
			if n == 3 && strings.Count(k, "n") > 2 {
				return
			}
			for th := 1; th <= n+1; th++ {
				pre := -1
				if n == 3 {
					pre = 1
				}
				for _, fg := range []bool{false, true} {
					if fg && (th == 3 || n == 3 && th != 2) {
						continue
					}
					js = append(js, job(k, th, fg, pre))
				}
			}
		})
	}
	for _, k := range []string{"iii", "ine", "efi", "eef", "ieg", "nie"} {
		for th := 1; th <= 4; th++ {
			js = append(js, job(k, th, false, 2))
		}
	}
	for _, k := range []string{"iiii", "inei", "efei", "efgi", "iefn", "niie"} {
		for th := 1; th <= 5; th++ {
			js = append(js, job(k, th, false, 1))
		}
	}
	return js
}

// many: more promises and threads than can be scheduled exhaustively, every position of a failure or of several; promises hold
// each other back, so that they finish in reverse order as far as the limit permits.
func many(c *vx.C) {
	sizes := []int{5, 8, 9, 16, 17, 33, 64, 65, 100, 129, 257, 513, 1025}
	c.Shards("many", len(sizes), func(s *vx.S) {
		n := sizes[s.ID]
		for _, threads := range []int{1, 2, 3, 7, 8, 16, n - 1, n, n + 1} {
			for pat := 0; pat < 12; pat++ {
				kind := func(i int) byte {
					switch pat {
					case 0:
						return 'i'
					case 1:
						return 'n'
					case 2:
						return 'e' // all fail with different messages
					case 3:
						return "ie"[i%2]
					case 4:
						return "ine"[i%3]
					case 5:
						return "ei"[(i+1)/n]
					case 6:
						return "ie"[(i+1)/n]
					case 7:
						return "in"[(i+1)/n]
					}
					if i == (pat-8)*(n-1)/3 {
						return 'e'
					}
					return "in"[i/(n/2+1)]
				}
				what := func() string { return fmt.Sprintf("%d promises, %d threads, pattern %d", n, threads, pat) }
				var before error // an observation stands, even if the next run is scheduled differently
				s.Check(what, func() (failed error) {
					if before != nil {
						return before
					}
					defer func() { before = failed }()
					var active, most int32
					runs := make([]int32, n)
					ps := make([]ops.Promise, n)
					imgs := make([]*fits.Image, n)
					for i := range ps {
						i := i
						imgs[i] = &fits.Image{ID: i}
						ps[i] = func() (*fits.Image, error) {
							atomic.AddInt32(&runs[i], 1)
							for a := atomic.AddInt32(&active, 1); ; {
								m := atomic.LoadInt32(&most)
								if a <= m || atomic.CompareAndSwapInt32(&most, m, a) {
									break
								}
							}
							for k := 0; k < i%5; k++ {
								runtime.Gosched()
							}
							atomic.AddInt32(&active, -1)
							switch kind(i) {
							case 'i':
								return imgs[i], nil
							case 'n':
								return nil, nil
							}
							return nil, fmt.Errorf("failure <%d>", i)
						}
					}
					outs, err := ops.MaterializeAll(ps, threads, false)
					if int(most) > threads {
						return vx.Fail("limit", "%s: %d at the same time", what(), most)
					}
					k := 0
					for i := range ps {
						if atomic.LoadInt32(&runs[i]) != 1 {
							return vx.Fail("runs", "%s: promise %d ran %d times", what(), i, runs[i])
						}
						if kind(i) == 'e' && (err == nil || !strings.Contains(err.Error(), fmt.Sprintf("failure <%d>", i))) {
							return vx.Fail("errors", "%s: failure %d is not in %q", what(), i, fmt.Sprint(err))
						}
						if kind(i) == 'i' {
							if k >= len(outs) || outs[k] != imgs[i] {
								return vx.Fail("images", "%s: image %d is not result %d of %d", what(), i, k, len(outs))
							}
							k++
						}
					}
					if k != len(outs) {
						return vx.Fail("images", "%s: %d results, expected %d", what(), len(outs), k)
					}
					s.Outcome(vx.Hash(what()))
					return nil
				})
			}
		}
	})
	c.Bound("up to 1025 promises with 12 patterns of failures and 9 thread limits, under the scheduler of the system")
}

func main() {
	js := jobs()
	if sx.Worker(js) {
		return
	}
	vx.Main("P19", "model_checking", func(c *vx.C) {
		c.Bound("every assignment of {image, nothing, error E, error F} to 1..3 promises and selected ones to 4 promises, thread limits 1..n+1")
		c.Bound("one and two promises: all schedules; three: up to 1 preemption (2 for six assignments); four: 1 preemption")
		sx.Phase(c, "materialize", js, 30)
		many(c)
	})
}
