// Package vx is the explorer shell shared by all checks: it enumerates cases deterministically in shards, runs them
// on the implementation, keeps coverage counters, survives crashes of the code under test (the enumeration runs in
// a child process; the parent attributes a crash or hang to the case that was in flight), writes the evidence file
// and prints VIOLATION / KNOWN-FINDING lines.
package vx

import (
	"bufio"
	"encoding/json"
	"fmt"
	"hash/fnv"
	"io"
	"math"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"
	"unsafe"
)

const maxWorkers = 64
const slotBase = 16 // first slot word
const words = slotBase + maxWorkers*4

// V is one violation.
type V struct {
	Class  string `json:"class"`
	Case   string `json:"case"`
	Detail string `json:"detail"`
	At     string `json:"at"`
}

// F is an error that carries the class used to match known findings.
type F struct{ Class, Detail string }

func (f *F) Error() string { return f.Class + ": " + f.Detail }

// Fail builds a classified failure.
func Fail(class, format string, a ...interface{}) error {
	t := fmt.Sprintf(format, a...)
	if len(t) > 6000 {
		t = t[:5000] + " ... " + t[len(t)-500:]
	}
	return &F{class, t}
}

// C is the context of one check run.
type C struct {
	partial int32
	Prop     string
	Level    string
	Tier     string
	Thorough bool
	Scratch  string // scratch directory, removed by the parent
	Rule     string
	Bounds   []string
	Notes    []string
	Extra    map[string]interface{}

	start    time.Time
	deadline time.Time
	phase    int
	mem      []int64
	mu       sync.Mutex
	samples  []string
	perPhase map[string]int
	outcomes map[uint64]struct{}
	outFull  bool
	viol     []V
	stop     int32
	expired  int32
	flaky    []string
	atPhase  int
	atShard  int
	atIdx    int
	at       bool
	descOnly bool
	quietOut io.Writer
}

// S is one shard of an enumeration.
type S struct {
	C     *C
	ID    int
	slot  int
	idx   int
	phase int
	name  string
	out   map[uint64]struct{}
}

type result struct {
	Samples  []string               `json:"samples"`
	Outcomes int                    `json:"outcomes"`
	Flaky    []string               `json:"flaky"`
	Bounds   []string               `json:"bounds"`
	Notes    []string               `json:"notes"`
	Rule     string                 `json:"rule"`
	PerPhase map[string]int         `json:"per_phase"`
	Expired  bool                   `json:"expired"`
	Extra    map[string]interface{} `json:"extra"`
}

func (c *C) States(n int)      { atomic.AddInt64(&c.mem[0], int64(n)) }
func (c *C) Transitions(n int) { atomic.AddInt64(&c.mem[1], int64(n)) }
func (c *C) Traces(n int)      { atomic.AddInt64(&c.mem[2], int64(n)) }
func (c *C) Beat()             { atomic.AddInt64(&c.mem[3], 1) }
// Partial records that some configuration was not explored to its end.
func (c *C) Partial() { atomic.StoreInt32(&c.partial, 1) }

func (c *C) Expired() bool {
	if atomic.LoadInt32(&c.expired) != 0 {
		return true
	}
	if time.Now().After(c.deadline) {
		atomic.StoreInt32(&c.expired, 1)
		return true
	}
	return false
}
func (c *C) Stopped() bool { return atomic.LoadInt32(&c.stop) != 0 || c.Expired() }
func (c *C) Bound(format string, a ...interface{}) {
	c.mu.Lock()
	c.Bounds = append(c.Bounds, fmt.Sprintf(format, a...))
	c.mu.Unlock()
}
// Note records a remark for the evidence file.
func (c *C) Note(format string, a ...interface{}) {
	c.mu.Lock()
	defer c.mu.Unlock()
	if len(c.Notes) < 40 {
		c.Notes = append(c.Notes, fmt.Sprintf(format, a...))
	}
}

func (c *C) Sample(format string, a ...interface{}) {
	c.mu.Lock()
	if len(c.samples) < 60 {
		c.samples = append(c.samples, fmt.Sprintf(format, a...))
	}
	c.mu.Unlock()
}

// Hash hashes printable values.
func Hash(a ...interface{}) uint64 {
	h := fnv.New64a()
	fmt.Fprint(h, a...)
	return h.Sum64()
}

// HashF hashes a float slice by bit pattern (all NaNs equal).
func HashF(fs []float32) uint64 {
	h := uint64(14695981039346656037)
	for _, f := range fs {
		b := uint64(math.Float32bits(f))
		if f != f {
			b = 0x7fc00000
		}
		h = (h ^ b) * 1099511628211
	}
	return h
}

// Outcome records a distinct observed outcome.
func (s *S) Outcome(h uint64) {
	if len(s.out) < 1<<18 {
		s.out[h] = struct{}{}
	}
}
func (s *S) States(n int)      { s.C.States(n) }
func (s *S) Transitions(n int) { s.C.Transitions(n) }
func (s *S) Sample(format string, a ...interface{}) {
	s.C.Sample(format, a...)
}
func (s *S) Stopped() bool { return s.C.Stopped() }

// Report records a violation found outside Check (e.g. by an explorer that confirms on its own).
func (s *S) Report(desc string, err error) {
	s.C.report(V{Case: s.name + ": " + desc, At: fmt.Sprintf("%d:%d:%d", s.phase, s.ID, s.idx)}, err)
}

func (c *C) report(v V, err error) {
	if f, ok := err.(*F); ok {
		v.Class, v.Detail = f.Class, f.Detail
	} else {
		v.Class, v.Detail = "unclassified", err.Error()
	}
	c.mu.Lock()
	defer c.mu.Unlock()
	n := 0
	for _, o := range c.viol {
		if o.Class == v.Class {
			n++
		}
	}
	if n >= 2 {
		return
	}
	c.viol = append(c.viol, v)
	if p := os.Getenv("VX_VIOL"); p != "" {
		fd, e := os.OpenFile(p, os.O_APPEND|os.O_CREATE|os.O_WRONLY, 0644)
		if e == nil {
			b, _ := json.Marshal(v)
			fd.Write(append(b, '\n'))
			fd.Close()
		}
	}
	known := loadKnown(c.Prop)
	un := 0
	for _, o := range c.viol {
		if _, ok := known[o.Class]; !ok {
			un++
		}
	}
	if un >= 4 {
		atomic.StoreInt32(&c.stop, 1)
	}
}

func runGuarded(fn func() error) (err error) {
	defer func() {
		if r := recover(); r != nil {
			if f, ok := r.(*F); ok {
				err = f
				return
			}
			err = Fail("panic", "panic: %v\n%s", r, trimStack(string(debug.Stack())))
		}
	}()
	return fn()
}

func trimStack(s string) string {
	lines := strings.Split(s, "\n")
	if len(lines) > 40 {
		lines = lines[:40]
	}
	return strings.Join(lines, "\n")
}

// Check runs one case. desc is only evaluated on failure or for replay.
func (s *S) Check(desc func() string, fn func() error) {
	c := s.C
	idx := s.idx
	s.idx++
	if c.at {
		if idx != c.atIdx {
			return
		}
		fmt.Printf("CASE %s: %s\n", s.name, desc())
		if c.descOnly {
			os.Exit(0)
		}
		err := runGuarded(fn)
		if err != nil {
			fmt.Printf("FAILS: %v\n", err)
			os.Exit(1)
		}
		fmt.Println("PASSES")
		os.Exit(0)
	}
	if idx&63 == 0 && c.Stopped() {
		return
	}
	if atomic.LoadInt32(&c.stop) != 0 || atomic.LoadInt32(&c.expired) != 0 {
		return
	}
	if (idx == 0 || idx == 29) && s.ID <= 1 {
		c.Sample("%s: %s", s.name, firstN(desc(), 300))
	}
	base := slotBase + s.slot*4
	atomic.StoreInt64(&c.mem[base], int64(s.phase)+1)
	atomic.StoreInt64(&c.mem[base+1], int64(s.ID))
	atomic.StoreInt64(&c.mem[base+2], int64(idx))
	atomic.AddInt64(&c.mem[3], 1)
	atomic.AddInt64(&c.mem[2], 1)
	err := runGuarded(fn)
	if err != nil {
		fails := 1
		for i := 0; i < 4; i++ {
			if e2 := runGuarded(fn); e2 != nil {
				fails++
				err = e2
			}
		}
		if fails >= 2 {
			s.idx = idx // so that Report points at this case
			s.Report(desc(), err)
			s.idx = idx + 1
		} else {
			c.mu.Lock()
			if len(c.flaky) < 20 {
				c.flaky = append(c.flaky, s.name+": "+desc()+": "+err.Error())
			}
			c.mu.Unlock()
		}
	}
	atomic.StoreInt64(&c.mem[base], 0)
}

// Shards runs fn for shards 0..n-1 on all CPUs.
func (c *C) Shards(name string, n int, fn func(s *S)) { c.shards(name, n, runtime.NumCPU(), fn) }

// Serial runs fn for shards 0..n-1 on one worker.
func (c *C) Serial(name string, n int, fn func(s *S)) { c.shards(name, n, 1, fn) }

func (c *C) shards(name string, n, workers int, fn func(s *S)) {
	phase := c.phase
	c.phase++
	if c.at && phase != c.atPhase {
		return
	}
	if f := os.Getenv("VX_PHASE"); f != "" && !strings.Contains(name, f) {
		return
	}
	var next int64 = -1
	var wg sync.WaitGroup
	var cases int64
	t0 := time.Now()
	if workers > n {
		workers = n
	}
	if workers > maxWorkers {
		workers = maxWorkers
	}
	for w := 0; w < workers; w++ {
		wg.Add(1)
		go func(w int) {
			defer wg.Done()
			for {
				i := int(atomic.AddInt64(&next, 1))
				if i >= n || (!c.at && c.Stopped()) {
					return
				}
				if c.at && i != c.atShard {
					continue
				}
				s := &S{C: c, ID: i, slot: w, phase: phase, name: name, out: map[uint64]struct{}{}}
				err := runGuarded(func() error { fn(s); return nil })
				if err != nil {
					// a panic outside Check: harness error or code under test failing during setup of a case
					s.Report("shard setup", err)
				}
				atomic.AddInt64(&cases, int64(s.idx))
				c.mu.Lock()
				for h := range s.out {
					if len(c.outcomes) < 1<<21 {
						c.outcomes[h^uint64(phase)*0x9E3779B97F4A7C15] = struct{}{}
					} else {
						c.outFull = true
					}
				}
				c.mu.Unlock()
			}
		}(w)
	}
	wg.Wait()
	c.mu.Lock()
	c.perPhase[name] += int(cases)
	c.mu.Unlock()
	fmt.Fprintf(os.Stderr, "phase %-40s shards=%d cases=%d %.1fs\n", name, n, cases, time.Since(t0).Seconds())
}

func verifDir() string {
	if d := os.Getenv("VERIF_DIR"); d != "" {
		return d
	}
	return "/verif"
}

func loadKnown(prop string) map[string]string {
	m := map[string]string{}
	fd, err := os.Open(filepath.Join(verifDir(), "known_findings.txt"))
	if err != nil {
		return m
	}
	defer fd.Close()
	sc := bufio.NewScanner(fd)
	sc.Buffer(make([]byte, 1<<20), 1<<20)
	for sc.Scan() {
		l := strings.TrimSpace(sc.Text())
		// finding: property=P01 class=<class> <text>
		if !strings.HasPrefix(l, "finding: property="+prop+" class=") {
			continue
		}
		r := strings.TrimPrefix(l, "finding: property="+prop+" class=")
		p := strings.SplitN(r, " ", 2)
		if len(p) == 2 {
			m[p[0]] = p[1]
		} else {
			m[p[0]] = ""
		}
	}
	return m
}

// Main is the entry point of every check.
func Main(prop, level string, run func(c *C)) {
	tier := "quick"
	if t := os.Getenv("VERIF_TIER"); t == "thorough" {
		tier = t
	}
	at := ""
	for i, a := range os.Args[1:] {
		switch a {
		case "quick", "thorough":
			tier = a
		case "--at":
			at = os.Args[i+2]
		}
	}
	if os.Getenv("VX_ROLE") == "child" || at != "" {
		child(prop, level, tier, at, run)
		return
	}
	os.Exit(parent(prop, level, tier))
}

func child(prop, level, tier, at string, run func(c *C)) {
	c := &C{Prop: prop, Level: level, Tier: tier, Thorough: tier == "thorough", start: time.Now(), perPhase: map[string]int{},
		outcomes: map[uint64]struct{}{}, Extra: map[string]interface{}{}}
	d := 200 * time.Second
	if c.Thorough {
		d = 2400 * time.Second
	}
	if v := os.Getenv("VX_DEADLINE"); v != "" {
		if n, e := strconv.Atoi(v); e == nil {
			d = time.Duration(n) * time.Second
		}
	}
	c.deadline = c.start.Add(d)
	c.Scratch = os.Getenv("VX_SCRATCH")
	cleanup := false
	if c.Scratch == "" {
		c.Scratch, _ = os.MkdirTemp("", "vxscratch")
		cleanup = true
	}
	if p := os.Getenv("VX_MMAP"); p != "" {
		fd, err := os.OpenFile(p, os.O_RDWR, 0)
		if err != nil {
			panic(err)
		}
		b, err := syscall.Mmap(int(fd.Fd()), 0, words*8, syscall.PROT_READ|syscall.PROT_WRITE, syscall.MAP_SHARED)
		if err != nil {
			panic(err)
		}
		c.mem = (*[words]int64)(unsafe.Pointer(&b[0]))[:]
	} else {
		c.mem = make([]int64, words)
	}
	if at != "" {
		p := strings.Split(at, ":")
		c.at = true
		c.atPhase, _ = strconv.Atoi(p[0])
		c.atShard, _ = strconv.Atoi(p[1])
		c.atIdx, _ = strconv.Atoi(p[2])
		c.descOnly = os.Getenv("VX_DESCONLY") != ""
		c.deadline = c.start.Add(time.Hour)
	}
	run(c)
	if c.at {
		fmt.Println("case not reached")
		os.Exit(3)
	}
	if cleanup {
		os.RemoveAll(c.Scratch)
	}
	r := result{Samples: c.samples, Outcomes: len(c.outcomes), Flaky: c.flaky, Bounds: c.Bounds, Notes: c.Notes, Rule: c.Rule,
		PerPhase: c.perPhase, Expired: atomic.LoadInt32(&c.expired) != 0 || atomic.LoadInt32(&c.partial) != 0, Extra: c.Extra}
	if p := os.Getenv("VX_RESULT"); p != "" {
		b, _ := json.Marshal(r)
		os.WriteFile(p, b, 0644)
	}
	os.Exit(0)
}

func parent(prop, level, tier string) int {
	start := time.Now()
	dir, err := os.MkdirTemp("", "vx"+prop)
	if err != nil {
		fmt.Println("cannot create scratch:", err)
		return 2
	}
	defer os.RemoveAll(dir)
	mm := filepath.Join(dir, "mmap")
	os.WriteFile(mm, make([]byte, words*8), 0644)
	fd, _ := os.OpenFile(mm, os.O_RDWR, 0)
	b, err := syscall.Mmap(int(fd.Fd()), 0, words*8, syscall.PROT_READ, syscall.MAP_SHARED)
	if err != nil {
		fmt.Println("mmap:", err)
		return 2
	}
	mem := (*[words]int64)(unsafe.Pointer(&b[0]))[:]
	scratch := filepath.Join(dir, "scratch")
	os.MkdirAll(scratch, 0777)
	violFile, resFile, errFile := filepath.Join(dir, "viol"), filepath.Join(dir, "result"), filepath.Join(dir, "stderr")
	ef, _ := os.Create(errFile)
	cmd := exec.Command("/proc/self/exe", tier)
	cmd.Args[0] = os.Args[0]
	if exe, e := os.Executable(); e == nil {
		cmd.Path = exe
	}
	cmd.Env = append(os.Environ(), "VX_ROLE=child", "VX_MMAP="+mm, "VX_VIOL="+violFile, "VX_RESULT="+resFile, "VX_SCRATCH="+scratch, "TMPDIR="+scratch)
	cmd.Stdout = ef
	cmd.Stderr = ef
	cmd.Dir = scratch
	cmd.SysProcAttr = &syscall.SysProcAttr{Setpgid: true}
	if err := cmd.Start(); err != nil {
		fmt.Println("cannot start child:", err)
		return 2
	}
	done := make(chan error, 1)
	go func() { done <- cmd.Wait() }()
	last, lastT := int64(-1), time.Now()
	hang := false
	var werr error
	var crashSlots [][3]int64
	hangLimit := 240 * time.Second
wait:
	for {
		select {
		case werr = <-done:
			break wait
		case <-time.After(500 * time.Millisecond):
			h := atomic.LoadInt64(&mem[3])
			if h != last {
				last, lastT = h, time.Now()
			} else if time.Since(lastT) > hangLimit {
				inflight := false
				for w := 0; w < maxWorkers; w++ {
					if mem[slotBase+w*4] != 0 {
						inflight = true
					}
				}
				hang = inflight
				if !inflight && time.Since(lastT) < 2*hangLimit {
					continue
				}
				syscall.Kill(-cmd.Process.Pid, syscall.SIGQUIT)
				select {
				case werr = <-done:
				case <-time.After(10 * time.Second):
					syscall.Kill(-cmd.Process.Pid, syscall.SIGKILL)
					werr = <-done
				}
				break wait
			}
		}
	}
	syscall.Kill(-cmd.Process.Pid, syscall.SIGKILL) // stragglers
	ef.Close()
	stderr, _ := os.ReadFile(errFile)
	if os.Getenv("VX_VERBOSE") != "" {
		os.Stderr.Write(stderr)
	}
	var viol []V
	if vb, e := os.ReadFile(violFile); e == nil {
		for _, l := range strings.Split(string(vb), "\n") {
			var v V
			if json.Unmarshal([]byte(l), &v) == nil && v.Case != "" {
				viol = append(viol, v)
			}
		}
	}
	var res result
	complete := false
	if rb, e := os.ReadFile(resFile); e == nil {
		complete = json.Unmarshal(rb, &res) == nil
	}
	inconclusive := ""
	if !complete {
		for w := 0; w < maxWorkers; w++ {
			bse := slotBase + w*4
			if mem[bse] != 0 {
				crashSlots = append(crashSlots, [3]int64{mem[bse] - 1, mem[bse+1], mem[bse+2]})
			}
		}
		killed := false
		if ee, ok := werr.(*exec.ExitError); ok {
			if ws, ok := ee.Sys().(syscall.WaitStatus); ok && ws.Signaled() && ws.Signal() == syscall.SIGKILL && !hang {
				killed = true
			}
		}
		txt := string(stderr)
		if killed {
			inconclusive = "child was killed (memory); exploration incomplete"
		} else if hang || strings.Contains(txt, "panic:") || strings.Contains(txt, "fatal error:") || strings.Contains(txt, "signal SIG") || strings.Contains(txt, "unexpected fault") {
			class := "crash"
			if hang {
				class = "hang"
			}
			cs := []string{}
			at := ""
			for _, sl := range crashSlots {
				a := fmt.Sprintf("%d:%d:%d", sl[0], sl[1], sl[2])
				if at == "" {
					at = a
				}
				d := exec.Command(cmd.Path, tier, "--at", a)
				d.Env = append(os.Environ(), "VX_DESCONLY=1", "VX_SCRATCH="+scratch)
				d.Dir = scratch
				o, _ := d.Output()
				cs = append(cs, a+" "+strings.TrimSpace(string(o)))
				// confirm in isolation
				if !hang {
					r := exec.Command(cmd.Path, tier, "--at", a)
					r.Env = append(os.Environ(), "VX_SCRATCH="+scratch)
					r.Dir = scratch
					if e := r.Run(); e != nil {
						at = a
						cs = []string{a + " " + strings.TrimSpace(string(o))}
						break
					}
				}
			}
			i := strings.Index(txt, "panic:")
			if i < 0 {
				i = strings.Index(txt, "fatal error:")
			}
			if i < 0 {
				i = 0
			}
			tail := txt[i:]
			if len(tail) > 4000 {
				tail = tail[:4000]
			}
			viol = append(viol, V{Class: class, Case: strings.Join(cs, " | "), Detail: tail, At: at})
		} else {
			inconclusive = fmt.Sprintf("child ended early: %v: %s", werr, lastLines(txt, 5))
			fmt.Println("CHECK-ERROR", inconclusive)
			writeEvidence(prop, level, tier, start, mem, res, 0, inconclusive)
			return 2
		}
	}
	known := loadKnown(prop)
	seenKnown := map[string]bool{}
	var open []V
	for _, v := range viol {
		if _, ok := known[v.Class]; ok {
			seenKnown[v.Class] = true
			continue
		}
		open = append(open, v)
	}
	var ks []string
	for k := range seenKnown {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		fmt.Printf("KNOWN-FINDING: property=%s class=%s %s\n", prop, k, known[k])
	}
	writeEvidence(prop, level, tier, start, mem, res, len(open), inconclusive)
	if inconclusive != "" {
		fmt.Println("note:", inconclusive)
	}
	for _, f := range res.Flaky {
		fmt.Println("note: unconfirmed (not reproduced on re-execution):", firstLine(f))
	}
	fmt.Printf("%s %s: traces=%d states=%d transitions=%d outcomes=%d complete=%v %.1fs\n", prop, tier, mem[2], mem[0], mem[1], res.Outcomes, complete && !res.Expired, time.Since(start).Seconds())
	if len(open) == 0 {
		return 0
	}
	rd := filepath.Join(verifDir(), "evidence", "replay")
	os.MkdirAll(rd, 0755)
	for i, v := range open {
		p := filepath.Join(rd, fmt.Sprintf("%s-%d.json", prop, i))
		b, _ := json.MarshalIndent(map[string]interface{}{"property": prop, "class": v.Class, "case": v.Case, "detail": v.Detail, "at": v.At,
			"replay": fmt.Sprintf("bash /verif/run.sh %s %s --at %s", prop, tier, v.At)}, "", " ")
		os.WriteFile(p, b, 0644)
		fmt.Printf("  [%s] %s\n    %s\n", v.Class, v.Case, strings.Replace(firstN(v.Detail, 600), "\n", "\n    ", -1))
		fmt.Printf("VIOLATION property=%s replay=%s\n", prop, p)
	}
	return 1
}

func firstN(s string, n int) string {
	if len(s) > n {
		return s[:n] + "..."
	}
	return s
}
func firstLine(s string) string { return strings.SplitN(s, "\n", 2)[0] }
func lastLines(s string, n int) string {
	l := strings.Split(strings.TrimSpace(s), "\n")
	if len(l) > n {
		l = l[len(l)-n:]
	}
	return strings.Join(l, "\n")
}

func writeEvidence(prop, level, tier string, start time.Time, mem []int64, res result, viol int, inconclusive string) {
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	cov := map[string]interface{}{
		"exhaustive": !res.Expired && inconclusive == "" && viol == 0,
	}
	states, trans, traces := mem[0], mem[1], mem[2]
	if len(res.Samples) == 0 {
		res.Samples = []string{"(none recorded)"}
	}
	cov["samples"] = res.Samples
	cov["cases_per_phase"] = res.PerPhase
	cov["bounds"] = res.Bounds
	cov["distinct_outcomes"] = res.Outcomes
	if len(res.Flaky) > 0 {
		cov["unconfirmed"] = res.Flaky
	}
	if inconclusive != "" {
		cov["inconclusive"] = inconclusive
	}
	for k, v := range res.Extra {
		cov[k] = v
	}
	rule := res.Rule
	if level == "model_checking" {
		cov["states"] = states
		cov["transitions"] = trans
		cov["traces_validated_against_impl"] = traces
		if rule != "" {
			cov["explanation"] = rule
		}
	} else {
		cov["evaluations"] = traces
		cov["distinct_nontrivial"] = res.Outcomes
		cov["rule"] = rule
		if states > 0 {
			cov["states"] = states
			cov["transitions"] = trans
		}
	}
	ev := map[string]interface{}{"property": prop, "tier": tier, "seed": seed, "level": level, "coverage": cov,
		"wall_s": time.Since(start).Seconds(), "violations": viol}
	if len(res.Notes) > 0 {
		ev["assumptions"] = res.Notes
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	d := filepath.Join(verifDir(), "evidence")
	os.MkdirAll(d, 0755)
	os.WriteFile(filepath.Join(d, prop+".json"), append(b, '\n'), 0644)
}
