//go:build go1.21 && race

// Package sx runs schedule explorations in worker processes and reports them to vx.
package sx

import (
	"bytes"
	"encoding/json"
	"errors"
	"fmt"
	"os"
	"os/exec"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"

	"github.com/mlnoga/nightlight/internal/zzverif/vsched"
	"github.com/mlnoga/nightlight/internal/zzverif/vx"
)

// Job is one configuration whose schedules are enumerated.
type Job struct {
	Name     string
	Preempt  int // preemption bound, <0 unbounded
	MaxExecs int
	NumCPU   int
	Setup    func() (body func(), check func() (string, error))
	// OneOutcome demands that all schedules end with the same outcome.
	OneOutcome bool
	// Group names the jobs which have to end with the same outcomes.
	Group string
}

// Fail is an error with a class.
type Fail struct{ Class, Msg string }

func (f *Fail) Error() string     { return f.Msg }
func (f *Fail) FailClass() string { return f.Class }

// Failf builds an error with a class.
func Failf(class, format string, a ...interface{}) error {
	return &Fail{class, fmt.Sprintf(format, a...)}
}

// Worker runs the job named in the environment; it returns false when this process is no worker.
func Worker(jobs []Job) bool {
	e := os.Getenv("VX_SCHED")
	if e == "" {
		return false
	}
	i, _ := strconv.Atoi(e)
	j := jobs[i]
	n := j.NumCPU
	if n == 0 {
		n = 2
	}
	vsched.SetNumCPU(n)
	sec, _ := strconv.Atoi(os.Getenv("VX_SCHED_SECONDS"))
	cfg := vsched.Config{Preempt: j.Preempt, MaxExecs: j.MaxExecs, Deadline: time.Now().Add(time.Duration(sec) * time.Second)}
	setup := j.Setup
	if j.OneOutcome {
		first, have := "", false
		setup = func() (func(), func() (string, error)) {
			body, check := j.Setup()
			return body, func() (string, error) {
				o, err := check()
				if err == nil {
					if have && o != first {
						return o, Failf("schedule-dependent", "the result depends on the schedule: %s, but under another schedule %s", o, first)
					}
					first, have = o, true
				}
				return o, err
			}
		}
	}
	res := vsched.Explore(cfg, setup)
	if res.Fail != "" && res.Class != "nondeterminism" {
		r2 := vsched.Explore(vsched.Config{Preempt: -1, Replay: append([]int{0}, res.Schedule...)[1:], Deadline: time.Now().Add(20 * time.Second)}, j.Setup)
		res.Log = r2.Log
	}
	b, _ := json.Marshal(res)
	os.Stdout.Write(append([]byte("\nVXRESULT "), b...))
	os.Stdout.Write([]byte("\n"))
	os.Exit(0)
	return true
}

// Phase explores all jobs.
func Phase(c *vx.C, name string, jobs []Job, seconds int) {
	if c.Thorough {
		seconds *= 15
	}
	var mu sync.Mutex
	n, inc, ex := 0, 0, 0
	groups := map[string]map[string]string{} // group, outcome, job
	c.Shards(name, len(jobs), func(s *vx.S) {
		j := jobs[s.ID]
		s.Check(func() string { return j.Name }, func() error {
			res, stderr, err := worker(s.ID, seconds, s.C.Scratch)
			if err == errHang {
				s.C.Note("%s: the code blocked outside of the scheduler's control, configuration not decided", j.Name)
				return nil
			}
			if err != nil {
				return err
			}
			s.States(res.Points)
			s.Transitions(res.Points)
			s.C.Traces(res.Execs)
			for o := range res.Outcomes {
				s.Outcome(vx.Hash(j.Name, o))
			}
			if res.Class == "nondeterminism" {
				s.C.Note("%s: %s", j.Name, res.Fail)
				return nil
			}
			if res.Fail != "" {
				d := fmt.Sprintf("%s\n    schedule %d of %d choices %v:%s", res.Fail, res.Execs, len(res.Schedule), res.Schedule, res.Log)
				if res.Class == "data-race" {
					d += "\n" + race(stderr)
				}
				return vx.Fail(res.Class, "%s", d)
			}
			s.Sample("%s: %d schedules, %d scheduling points, %d outcomes, complete=%v", j.Name, res.Execs, res.Points, len(res.Outcomes), res.Complete)
			mu.Lock()
			if j.Group != "" && len(res.Outcomes) > 0 {
				if groups[j.Group] == nil {
					groups[j.Group] = map[string]string{}
				}
				for o := range res.Outcomes {
					groups[j.Group][o] = j.Name
				}
			}
			n, ex = n+1, ex+res.Execs
			if !res.Complete {
				inc++
			}
			mu.Unlock()
			return nil
		})
	})
	if len(groups) > 0 {
		c.Serial(name+", compared", 1, func(s *vx.S) {
			for g, outcomes := range groups {
				g, outcomes := g, outcomes
				s.Check(func() string { return g }, func() error {
					if len(outcomes) < 2 {
						return nil
					}
					var l []string
					for o, j := range outcomes {
						l = append(l, j+" gives "+o)
					}
					sort.Strings(l)
					return vx.Fail("configuration-dependent", "%s", strings.Join(l, "\nbut "))
				})
			}
		})
	}
	if inc > 0 {
		c.Partial()
	}
	c.Bound("%s: %d configurations, %d schedules, %d configurations not explored to the end within the time or count limit", name, n, ex, inc)
}

var errHang = errors.New("hang")

func race(stderr string) string {
	i := strings.Index(stderr, "WARNING: DATA RACE")
	if i < 0 {
		return ""
	}
	l := strings.Split(stderr[i:], "\n")
	if len(l) > 36 {
		l = l[:36]
	}
	return strings.Join(l, "\n")
}

func worker(id, seconds int, dir string) (res vsched.Result, stderr string, err error) {
	exe, _ := os.Executable()
	cmd := exec.Command(exe)
	cmd.Args = append(os.Args[:1:1], os.Args[1:]...)
	cmd.Env = append(os.Environ(), fmt.Sprintf("VX_SCHED=%d", id), fmt.Sprintf("VX_SCHED_SECONDS=%d", seconds), "GOMAXPROCS=1",
		"GORACE=exitcode=0 suppress_equal_stacks=0 suppress_equal_addresses=0 atexit_sleep_ms=0")
	wd, e := os.MkdirTemp(dir, "w")
	if e != nil {
		return res, "", e
	}
	defer os.RemoveAll(wd)
	cmd.Dir = wd
	var o, eb bytes.Buffer
	cmd.Stdout, cmd.Stderr = &o, &eb
	if err = cmd.Start(); err != nil {
		return
	}
	t := time.AfterFunc(time.Duration(seconds)*time.Second+60*time.Second, func() { cmd.Process.Kill() })
	werr := cmd.Wait()
	killed := !t.Stop()
	i := strings.LastIndex(o.String(), "\nVXRESULT ")
	if i < 0 {
		out := eb.String()
		if killed {
			return res, out, errHang
		}
		if len(out) > 3000 {
			out = out[:3000]
		}
		return res, out, vx.Fail("crash", "worker died: %v\n%s", werr, out)
	}
	err = json.Unmarshal([]byte(o.String()[i+10:]), &res)
	return res, eb.String(), err
}
