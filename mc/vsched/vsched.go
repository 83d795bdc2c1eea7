//go:build go1.21 && race

// Package vsched is a controlled scheduler. Code instrumented by tools/instr calls it before every synchronisation
// operation; exactly one managed goroutine runs at a time and every choice of the next one is made by Explore, which
// enumerates all choices depth first (optionally with a bound on preemptions). The scheduler's own hand-over is hidden
// from the race detector (RaceDisable), so that the detector judges only the synchronisation of the code under test.
package vsched

import (
	"fmt"
	"math/rand"
	"os"
	"reflect"
	"runtime"
	"runtime/debug"
	"strings"
	"sync"
	"time"
	"unsafe"
)

type kind int

const (
	kYield kind = iota
	kLock
	kRWLock
	kRLock
	kSend
	kRecv
	kWg
	kOnce
	kSelect
)

var kindName = []string{"run", "lock", "wlock", "rlock", "send", "recv", "wait", "once", "select"}

type pend struct {
	k   kind
	p   unsafe.Pointer
	ch  reflect.Value
	cs  []Case
	def bool
	pcs [6]uintptr
	npc int
}

type g struct {
	id   int
	wake chan struct{}
	met  chan struct{} // rendezvous completed
	p    pend
	live bool
	duty bool // woken to perform the other half of a rendezvous
}

const maxG = 4096
const maxObj = 16384
const maxTrace = 200000

type lockState struct {
	p       unsafe.Pointer
	w       bool
	r       int
	n       int  // wait group counter
	running bool // once
	done    bool
}

type choice struct {
	n, idx int
	cost   uint32 // bit i: alternative i costs a preemption
	first  bool
	cost0  bool
}

type sched struct {
	active  bool
	gs      [maxG]*g
	ng      int
	liveN   int
	cur     *g
	objs    [maxObj]lockState
	nobj    int
	closed  [256]interface{}
	nclosed int
	// exploration
	prefix   []choice
	trace    []choice
	nt       int
	names    []string
	preempts int
	bound    int
	points   int
	maxPts   int
	fail     string
	failCls  string
	done     chan struct{}
	mainDone bool
	log      []step
	keepLog  bool
	freeRun  bool
	sync     int64
}

type step struct {
	id  int
	k   kind
	pcs [6]uintptr
	npc int
}

var s sched
var ncpu = 2
var enabledBuf [maxG]int

// SetNumCPU sets the processor count reported to instrumented code.
//
//go:norace
func SetNumCPU(n int) { ncpu = n }

//go:norace
func NumCPU() int { return ncpu }

//go:norace
func GOMAXPROCS(n int) int { return ncpu }

// FreeOSMemory stands in for debug.FreeOSMemory, which only takes time.
func FreeOSMemory() {}

// PermHook, if set, chooses the random permutations of instrumented code.
var PermHook func(n int) []int

// Perm stands in for rand.Perm.
func Perm(n int) []int {
	if PermHook != nil {
		return PermHook(n)
	}
	return rand.Perm(n)
}

// Shuffle stands in for rand.Shuffle.
func Shuffle(n int, swap func(i, j int)) {
	p := Perm(n)
	for i := 0; i < n; i++ { // realise the permutation with exchanges
		for j := p[i]; j != i; j = p[i] {
			swap(i, j)
			p[i], p[j] = p[j], p[i]
		}
	}
}

//go:norace
func obj(p unsafe.Pointer) *lockState {
	for i := 0; i < s.nobj; i++ {
		if s.objs[i].p == p {
			return &s.objs[i]
		}
	}
	if s.nobj == maxObj {
		fatal("too many objects")
	}
	s.objs[s.nobj] = lockState{p: p}
	s.nobj++
	return &s.objs[s.nobj-1]
}

//go:norace
func isClosed(ch reflect.Value) bool {
	p := ch.Pointer()
	for i := 0; i < s.nclosed; i++ {
		if s.closed[i].(reflect.Value).Pointer() == p {
			return true
		}
	}
	return false
}

//go:norace
func partner(self *g, want kind, ch reflect.Value) *g {
	for i := 0; i < s.ng; i++ {
		o := s.gs[i]
		if o != self && o.live && o.p.k == want && o.p.ch.Pointer() == ch.Pointer() {
			return o
		}
	}
	return nil
}

//go:norace
func chReady(self *g, k kind, ch reflect.Value) bool {
	if ch.IsNil() {
		return false
	}
	if k == kSend {
		if isClosed(ch) {
			return true
		}
		if ch.Cap() == 0 {
			return partner(self, kRecv, ch) != nil
		}
		return ch.Len() < ch.Cap()
	}
	if ch.Len() > 0 || isClosed(ch) {
		return true
	}
	return ch.Cap() == 0 && partner(self, kSend, ch) != nil
}

//go:norace
func enabled(x *g) bool {
	switch x.p.k {
	case kLock, kRWLock:
		o := obj(x.p.p)
		return !o.w && o.r == 0
	case kRLock:
		return !obj(x.p.p).w
	case kSend, kRecv:
		return chReady(x, x.p.k, x.p.ch)
	case kWg:
		return obj(x.p.p).n <= 0
	case kOnce:
		return !obj(x.p.p).running
	case kSelect:
		if x.p.def {
			return true
		}
		for i := range x.p.cs {
			if chReady(x, x.p.cs[i].k, x.p.cs[i].ch) {
				return true
			}
		}
		return false
	}
	return true
}

// pick chooses the next goroutine to run; nil when nothing can run.
//
//go:norace
func pick(me *g) *g {
	n := 0
	if me != nil && me.live && enabled(me) {
		enabledBuf[0] = me.id
		n = 1
	}
	first := n == 1
	for i := 0; i < s.ng; i++ {
		o := s.gs[i]
		if o != me && o.live && enabled(o) {
			enabledBuf[n] = i
			n++
		}
	}
	if n == 0 {
		return nil
	}
	idx := 0
	if n > 1 && !s.freeRun {
		if s.nt < len(s.prefix) {
			idx = s.prefix[s.nt].idx
			if s.prefix[s.nt].n >= 0 && s.prefix[s.nt].n != n || idx >= n {
				setFail("nondeterminism", fmt.Sprintf("replay diverged at choice %d: %d alternatives instead of %d", s.nt, n, s.prefix[s.nt].n))
				idx = 0
			}
		}
		if s.nt >= maxTrace {
			setFail("too-long", "schedule too long")
			s.freeRun = true
		} else {
			s.trace[s.nt] = choice{n: n, idx: idx, first: first}
			s.nt++
		}
		if first && idx > 0 {
			s.preempts++
		}
	}
	r := s.gs[enabledBuf[idx]]
	return r
}

//go:norace
func setFail(cls, msg string) {
	if s.fail == "" {
		s.failCls, s.fail = cls, msg
	}
}

//go:norace
func describe() string {
	t := ""
	for i := 0; i < s.ng; i++ {
		o := s.gs[i]
		if o.live {
			t += fmt.Sprintf(" g%d:%s@%s", o.id, kindName[o.p.k], where(o.p.pcs[:o.p.npc]))
		}
	}
	return t
}

func where(pcs []uintptr) string {
	if len(pcs) == 0 {
		return "?"
	}
	fs := runtime.CallersFrames(pcs)
	for {
		f, more := fs.Next()
		if !strings.Contains(f.Function, "zzverif/vsched") || !more {
			fn := f.File
			if i := strings.LastIndex(fn, "/"); i >= 0 {
				fn = fn[i+1:]
			}
			return fmt.Sprintf("%s:%d", fn, f.Line)
		}
	}
}

// sw hands control to the next goroutine. me keeps running if it is chosen.
//
//go:norace
func sw(me *g) {
	s.points++
	if s.points > s.maxPts {
		setFail("livelock", fmt.Sprintf("no end after %d scheduling points:%s", s.points, describe()))
		s.done <- struct{}{}
		select {}
	}
	next := pick(me)
	if next == nil {
		if s.liveN == 0 {
			s.done <- struct{}{}
			return
		}
		setFail("deadlock", "no goroutine can continue:"+describe())
		s.done <- struct{}{}
		if me.live {
			select {}
		}
		return
	}
	if s.keepLog {
		if len(s.log) < cap(s.log) {
			s.log = append(s.log, step{next.id, next.p.k, next.p.pcs, next.p.npc})
		}
	}
	if next != me {
		s.cur = next
		next.wake <- struct{}{}
		if !me.live {
			return
		}
		for {
			<-me.wake
			if !me.duty {
				break
			}
			return
		}
	}
}

// point announces the next operation of the running goroutine and returns when it may be executed.
// For a rendezvous it returns the partner.
//
//go:norace
func point(p pend) (me, other *g) {
	runtime.RaceDisable()
	me = s.cur
	p.npc = runtime.Callers(2, p.pcs[:])
	me.p = p
	sw(me)
	if me.duty {
		runtime.RaceEnable()
		return me, nil
	}
	if (p.k == kSend || p.k == kRecv) && p.ch.Cap() == 0 && !isClosed(p.ch) {
		want := kRecv
		if p.k == kRecv {
			want = kSend
		}
		other = partner(me, want, p.ch)
		other.duty = true
		other.wake <- struct{}{}
	}
	switch p.k {
	case kLock, kRWLock:
		obj(p.p).w = true
	case kRLock:
		obj(p.p).r++
	}
	me.p = pend{}
	runtime.RaceEnable()
	return me, other
}

// after completes a rendezvous.
//
//go:norace
func after(me, other *g) {
	if me == nil || (other == nil && !me.duty) {
		return
	}
	runtime.RaceDisable()
	if me.duty {
		me.duty = false
		me.p = pend{k: kYield, pcs: me.p.pcs, npc: me.p.npc}
		me.met <- struct{}{}
		<-me.wake
		me.p = pend{}
	} else {
		<-other.met
	}
	runtime.RaceEnable()
}

//go:norace
func on() bool { return s.active }

// Yield is a scheduling point.
//
//go:norace
func Yield() {
	if on() {
		point(pend{k: kYield})
	} else {
		runtime.Gosched()
	}
}

//go:norace
func Sleep(d time.Duration) {
	if on() {
		point(pend{k: kYield})
	} else {
		time.Sleep(d)
	}
}

// Y is a scheduling point after an atomic operation.
//
//go:norace
func Y[T any](v T) T {
	if on() {
		point(pend{k: kYield})
	}
	return v
}

//go:norace
func Send[C ~chan T | ~chan<- T, T any](ch C, v T) {
	var me, o *g
	if on() {
		me, o = point(pend{k: kSend, ch: reflect.ValueOf(ch)})
	}
	ch <- v
	after(me, o)
}

//go:norace
func Recv[C ~chan T | ~<-chan T, T any](ch C) T {
	var me, o *g
	if on() {
		me, o = point(pend{k: kRecv, ch: reflect.ValueOf(ch)})
	}
	v := <-ch
	after(me, o)
	return v
}

//go:norace
func Recv2[C ~chan T | ~<-chan T, T any](ch C) (T, bool) {
	var me, o *g
	if on() {
		me, o = point(pend{k: kRecv, ch: reflect.ValueOf(ch)})
	}
	v, ok := <-ch
	after(me, o)
	return v, ok
}

//go:norace
func Close[C ~chan T | ~chan<- T, T any](ch C) {
	if on() {
		runtime.RaceDisable()
		s.closed[s.nclosed] = reflect.ValueOf(ch)
		s.nclosed++
		runtime.RaceEnable()
	}
	close(ch)
}

// Case is one case of a select statement.
type Case struct {
	k  kind
	ch reflect.Value
}

//go:norace
func CaseSend(ch interface{}) Case { return Case{kSend, reflect.ValueOf(ch)} }

//go:norace
func CaseRecv(ch interface{}) Case { return Case{kRecv, reflect.ValueOf(ch)} }

//go:norace
func Select(def bool, cs ...Case) {
	if on() {
		point(pend{k: kSelect, def: def, cs: cs})
	}
}

//go:norace
func Lock(m *sync.Mutex) {
	if on() {
		point(pend{k: kLock, p: unsafe.Pointer(m)})
	}
	m.Lock()
}

//go:norace
func TryLock(m *sync.Mutex) bool {
	if on() {
		point(pend{k: kYield})
	}
	ok := m.TryLock()
	if ok && on() {
		obj(unsafe.Pointer(m)).w = true
	}
	return ok
}

//go:norace
func Unlock(m *sync.Mutex) {
	if on() {
		obj(unsafe.Pointer(m)).w = false
	}
	m.Unlock()
}

//go:norace
func RWLock(m *sync.RWMutex) {
	if on() {
		point(pend{k: kRWLock, p: unsafe.Pointer(m)})
	}
	m.Lock()
}

//go:norace
func RWUnlock(m *sync.RWMutex) {
	if on() {
		obj(unsafe.Pointer(m)).w = false
	}
	m.Unlock()
}

//go:norace
func RLock(m *sync.RWMutex) {
	if on() {
		point(pend{k: kRLock, p: unsafe.Pointer(m)})
	}
	m.RLock()
}

//go:norace
func RUnlock(m *sync.RWMutex) {
	if on() {
		obj(unsafe.Pointer(m)).r--
	}
	m.RUnlock()
}

//go:norace
func WgAdd(w *sync.WaitGroup, n int) {
	if on() {
		obj(unsafe.Pointer(w)).n += n
	}
	w.Add(n)
}

//go:norace
func WgDone(w *sync.WaitGroup) {
	if on() {
		obj(unsafe.Pointer(w)).n--
	}
	w.Done()
}

//go:norace
func WgWait(w *sync.WaitGroup) {
	if on() {
		point(pend{k: kWg, p: unsafe.Pointer(w)})
	}
	w.Wait()
}

func WgGo(w *sync.WaitGroup, f func()) {
	WgAdd(w, 1)
	Go(func() {
		defer WgDone(w)
		f()
	})
}

//go:norace
func onceBegin(o *sync.Once) {
	if on() {
		point(pend{k: kOnce, p: unsafe.Pointer(o)})
		if st := obj(unsafe.Pointer(o)); !st.done {
			st.running = true
		}
	}
}

//go:norace
func onceEnd(o *sync.Once) {
	if on() {
		st := obj(unsafe.Pointer(o))
		st.running, st.done = false, true
	}
}

func OnceDo(o *sync.Once, f func()) {
	onceBegin(o)
	defer onceEnd(o)
	o.Do(f)
}

//go:norace
func newG() *g {
	if s.ng == maxG {
		fatal("too many goroutines")
	}
	x := &g{id: s.ng, wake: make(chan struct{}, 1), met: make(chan struct{}, 1), live: true}
	x.p.npc = runtime.Callers(2, x.p.pcs[:])
	s.gs[s.ng] = x
	s.ng++
	s.liveN++
	return x
}

// Go starts a managed goroutine.
//
//go:norace
func Go(f func()) {
	if !on() {
		go f()
		return
	}
	runtime.RaceDisable()
	x := newG()
	runtime.RaceEnable()
	go run(x, f)
	runtime.RaceDisable()
	me := s.cur
	me.p = pend{k: kYield}
	me.p.npc = runtime.Callers(1, me.p.pcs[:])
	sw(me)
	me.p = pend{}
	runtime.RaceEnable()
}

//go:norace
func waitStart(x *g) {
	runtime.RaceDisable()
	<-x.wake
	x.p = pend{}
	runtime.RaceEnable()
}

//go:norace
func ended(x *g, cls, why string) {
	runtime.RaceDisable()
	if why != "" {
		setFail(cls, why)
	}
	x.live = false
	s.liveN--
	runtime.RaceEnable()
	runtime.RaceReleaseMerge(unsafe.Pointer(&s.sync))
	runtime.RaceDisable()
	if x.id == 0 {
		s.mainDone = true
		s.freeRun = true // what remains after the caller got its result is not branched on
	}
	if why != "" {
		s.done <- struct{}{}
		runtime.RaceEnable()
		return
	}
	sw(x)
	runtime.RaceEnable()
}

func run(x *g, f func()) {
	waitStart(x)
	normal := false
	defer func() {
		if normal {
			ended(x, "", "")
			return
		}
		if r := recover(); r != nil {
			ended(x, "goroutine-panic", fmt.Sprintf("panic in goroutine: %v\n%s", r, firstLines(string(debug.Stack()), 16)))
		} else {
			ended(x, "", "")
		}
	}()
	f()
	normal = true
}

func firstLines(t string, n int) string {
	l := strings.Split(t, "\n")
	if len(l) > n {
		l = l[:n]
	}
	return strings.Join(l, "\n")
}

// Config of an exploration.
type Config struct {
	Preempt  int // maximal number of preemptions, <0: unbounded
	MaxExecs int
	MaxPts   int
	Deadline time.Time
	Replay   []int
}

// Result of an exploration.
type Result struct {
	Execs, Points, MaxChoices int
	Complete                  bool
	Class, Fail               string
	Schedule                  []int
	Log                       string
	Outcomes                  map[string]int
	Seconds                   float64
}

// Explore runs all schedules of the job built by setup. setup returns the body (run as goroutine 0) and the check run
// after every goroutine has ended; check returns the outcome of the execution.
func Explore(cfg Config, setup func() (body func(), check func() (string, error))) (res Result) {
	t0 := time.Now()
	res.Outcomes = map[string]int{}
	if s.trace == nil {
		s.trace = make([]choice, maxTrace)
	}
	var prefix []choice
	for _, i := range cfg.Replay {
		prefix = append(prefix, choice{idx: i, n: -1})
	}
	if cfg.MaxPts == 0 {
		cfg.MaxPts = 20000
	}
	for {
		cls, fail, outcome := once(cfg, prefix, setup, cfg.Replay != nil)
		res.Execs++
		res.Points += s.points
		if s.nt > res.MaxChoices {
			res.MaxChoices = s.nt
		}
		if fail != "" {
			res.Class, res.Fail = cls, fail
			var idx []int
			for i := 0; i < s.nt; i++ {
				idx = append(idx, s.trace[i].idx)
			}
			for len(idx) > 0 && idx[len(idx)-1] == 0 {
				idx = idx[:len(idx)-1]
			}
			res.Schedule = idx
			for _, st := range s.log {
				res.Log += fmt.Sprintf(" g%d:%s@%s", st.id, kindName[st.k], where(st.pcs[:st.npc]))
			}
			break
		}
		if len(res.Outcomes) < 10000 {
			res.Outcomes[outcome]++
		}
		if cfg.Replay != nil {
			res.Complete = true
			break
		}
		// backtrack: deepest choice with an untried alternative within the bound
		pre := 0
		cost := make([]int, s.nt+1)
		for i := 0; i < s.nt; i++ {
			cost[i] = pre
			if s.trace[i].first && s.trace[i].idx > 0 {
				pre++
			}
		}
		k := -1
		for i := s.nt - 1; i >= 0; i-- {
			c := s.trace[i]
			if c.idx+1 < c.n && (cfg.Preempt < 0 || !c.first || cost[i] < cfg.Preempt) {
				k = i
				break
			}
		}
		if k < 0 {
			res.Complete = true
			break
		}
		prefix = append(prefix[:0], s.trace[:k+1]...)
		prefix[k].idx++
		if (cfg.MaxExecs > 0 && res.Execs >= cfg.MaxExecs) || (!cfg.Deadline.IsZero() && time.Now().After(cfg.Deadline)) {
			break
		}
	}
	res.Seconds = time.Since(t0).Seconds()
	return res
}

func once(cfg Config, prefix []choice, setup func() (func(), func() (string, error)), keepLog bool) (cls, fail, outcome string) {
	body, check := setup()
	races := runtime.RaceErrors()
	begin(cfg, prefix, keepLog)
	go run(s.gs[0], body)
	finish()
	cls, fail = s.failCls, s.fail
	if fail == "" {
		if n := runtime.RaceErrors() - races; n > 0 {
			return "data-race", fmt.Sprintf("%d data race(s) on shared state", n), ""
		}
		o, err := check()
		if err != nil {
			cls, fail = "result", err.Error()
			if f, ok := err.(interface{ FailClass() string }); ok {
				cls = f.FailClass()
			}
		}
		outcome = o
	}
	return
}

//go:norace
func begin(cfg Config, prefix []choice, keepLog bool) {
	for i := 0; i < s.ng; i++ {
		s.gs[i] = nil
	}
	for i := 0; i < s.nobj; i++ {
		s.objs[i] = lockState{}
	}
	for i := 0; i < s.nclosed; i++ {
		s.closed[i] = nil
	}
	s.ng, s.liveN, s.nobj, s.nclosed = 0, 0, 0, 0
	if keepLog {
		// lengths are unknown for a replay given as indices
		for i := range prefix {
			prefix[i].n = -1
		}
	}
	s.prefix = prefix
	s.nt, s.preempts, s.points, s.fail, s.failCls, s.mainDone, s.freeRun = 0, 0, 0, "", "", false, false
	s.maxPts, s.keepLog, s.log = cfg.MaxPts, keepLog, s.log[:0]
	if keepLog && s.log == nil {
		s.log = make([]step, 0, 4000)
	}
	s.done = make(chan struct{}, 1)
	x := newG()
	s.cur = x
	s.active = true
}

//go:norace
func finish() {
	runtime.RaceDisable()
	s.gs[0].wake <- struct{}{}
	<-s.done
	s.active = false
	runtime.RaceEnable()
	runtime.RaceAcquire(unsafe.Pointer(&s.sync))
}

// Add changes a counter of the harness. Only one managed goroutine runs at a time, so this needs no synchronisation,
// and it adds none that could hide a race of the code under test.
//
//go:norace
func Add(p *int, d int) int { *p += d; return *p }

//go:norace
func Get(p *int) int { return *p }

// fatal ends the process: the code under test might recover from a panic.
func fatal(why string) {
	os.Stderr.WriteString("vsched: " + why + "\n")
	os.Exit(3)
}
