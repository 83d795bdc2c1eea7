package main

import (
	"bytes"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"math"
	"net"
	"net/http"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"
	"sync"
	"syscall"
	"time"

	"github.com/mlnoga/nightlight/internal/fits"
	"github.com/mlnoga/nightlight/internal/ops"
	_ "github.com/mlnoga/nightlight/internal/ops/hsl"
	_ "github.com/mlnoga/nightlight/internal/ops/post"
	_ "github.com/mlnoga/nightlight/internal/ops/pre"
	_ "github.com/mlnoga/nightlight/internal/ops/ref"
	_ "github.com/mlnoga/nightlight/internal/ops/rgb"
	_ "github.com/mlnoga/nightlight/internal/ops/stack"
	_ "github.com/mlnoga/nightlight/internal/ops/stretch"
	"github.com/mlnoga/nightlight/internal/zzverif/vx"
)

const patience = 30 * time.Second // for answers which are due at once

// server is a running job server with its own working directory.
type server struct {
	dir, url string
	addr     string
	cmd      *exec.Cmd
	out      *bytes.Buffer
	done     chan struct{}
}

func (s *server) alive() bool {
	select {
	case <-s.done:
		return false
	default:
		return true
	}
}

func (s *server) stop() {
	if s.alive() {
		s.cmd.Process.Kill()
	}
	<-s.done
	os.RemoveAll(s.dir)
}

func (s *server) ping() error {
	r, err := (&http.Client{Timeout: patience}).Get(s.url + "/api/v1/ping")
	if err != nil {
		return err
	}
	b, err := io.ReadAll(r.Body)
	r.Body.Close()
	var m map[string]string
	if err != nil || r.StatusCode != 200 || json.Unmarshal(b, &m) != nil || m["message"] != "pong" {
		return fmt.Errorf("health check answers %d %q (%v)", r.StatusCode, b, err)
	}
	return nil
}

// frames are the files in the working directory of every server.
var frames map[string][]byte

var portMutex sync.Mutex
var lastPort = 2000 // below the ports which clients are given

func freePort() int {
	portMutex.Lock()
	defer portMutex.Unlock()
	for {
		lastPort++
		syscall.ForkLock.RLock() // a process started meanwhile would keep the port open
		l, err := net.Listen("tcp", fmt.Sprintf(":%d", lastPort))
		if err == nil {
			l.Close()
		}
		syscall.ForkLock.RUnlock()
		if err == nil {
			return lastPort
		}
	}
}

func start(scratch, binary string) *server {
	for try := 0; ; try++ {
		dir, err := os.MkdirTemp(scratch, "srv")
		if err != nil {
			panic(err)
		}
		for n, b := range frames {
			os.MkdirAll(filepath.Dir(dir+"/"+n), 0755)
			if err := os.WriteFile(dir+"/"+n, b, 0644); err != nil {
				panic(err)
			}
		}
		port := freePort()
		s := &server{dir: dir, addr: fmt.Sprintf("127.0.0.1:%d", port), url: fmt.Sprintf("http://127.0.0.1:%d", port), out: &bytes.Buffer{}, done: make(chan struct{})}
		s.cmd = exec.Command(binary, "-port", fmt.Sprint(port), "-log", "", "-stMemory", "500", "serve")
		s.cmd.Dir, s.cmd.Stdout, s.cmd.Stderr = dir, s.out, s.out
		s.cmd.Env = append(os.Environ(), "GIN_MODE=release", "GORACE=halt_on_error=1", "GOMAXPROCS=4")
		s.cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
		if err := s.cmd.Start(); err != nil {
			panic(err)
		}
		go func() {
			s.cmd.Wait()
			close(s.done)
		}()
		for t := time.Now(); time.Since(t) < patience && s.alive(); time.Sleep(2 * time.Millisecond) {
			c, err := net.Dial("tcp", s.addr)
			if err == nil {
				c.Close()
				if s.ping() == nil && s.alive() {
					return s
				}
			}
		}
		out := s.out.String()
		s.stop()
		if try > 10 {
			panic("the server does not start: " + out)
		}
	}
}

// request is something a client does.
type request struct {
	name        string
	body        string
	contentType string
	kind        kind
	say         string // something the answer has to mention
	short       bool   // the client disconnects before having sent the whole body
}

type kind int

const (
	good      kind = iota // executed without error
	failing               // executed, with error
	malformed             // refused
	either                // the server survives
)

type answer struct {
	status int
	body   string
	err    error
}

func (s *server) post(r request) (a answer) {
	if r.short {
		c, err := net.Dial("tcp", s.addr)
		if err != nil {
			return answer{err: err}
		}
		fmt.Fprintf(c, "POST /api/v1/job HTTP/1.1\r\nHost: x\r\nContent-Type: %s\r\nContent-Length: %d\r\n\r\n%s", r.contentType, len(r.body)+10, r.body)
		c.(*net.TCPConn).CloseWrite()
		io.ReadAll(c)
		c.Close()
		return answer{}
	}
	resp, err := (&http.Client{Timeout: patience}).Post(s.url+"/api/v1/job", r.contentType, strings.NewReader(r.body))
	if err != nil {
		return answer{err: err}
	}
	defer resp.Body.Close()
	b, err := io.ReadAll(resp.Body)
	return answer{resp.StatusCode, string(b), err}
}

// written lists the files which were not there at the start, or changed.
func (s *server) written() string {
	var l []string
	filepath.Walk(s.dir, func(p string, i os.FileInfo, err error) error {
		if err == nil && i.Mode().IsRegular() {
			n := p[len(s.dir)+1:]
			b, err := os.ReadFile(p)
			if err != nil || !bytes.Equal(b, frames[n]) {
				l = append(l, fmt.Sprintf("%s %x", n, vx.Hash(b)))
			}
		}
		return nil
	})
	sort.Strings(l)
	return strings.Join(l, "; ")
}

// clean removes what jobs have written.
func (s *server) clean() {
	filepath.Walk(s.dir, func(p string, i os.FileInfo, err error) error {
		if err == nil && !i.IsDir() {
			if n := p[len(s.dir)+1:]; frames[n] == nil {
				os.Remove(p)
			} else if b, err := os.ReadFile(p); err != nil || !bytes.Equal(b, frames[n]) {
				os.WriteFile(p, frames[n], 0644)
			}
		}
		return nil
	})
}

// lines makes logs comparable, in which frames take turns in any order.
func lines(s string) string {
	l := strings.Split(s, "\n")
	sort.Strings(l)
	return strings.Join(l, "\n")
}

// judge decides on the answer to a single request.
func judge(r request, a answer) error {
	if r.short {
		return nil // nobody there to read it
	}
	if a.err != nil {
		return vx.Fail("no-answer", "%v, after %q", a.err, a.body)
	}
	if r.kind == malformed {
		if a.status < 400 || a.status > 499 {
			return vx.Fail("malformed", "status %d: %q", a.status, a.body)
		}
		return nil
	}
	if r.kind == either && a.status >= 400 && a.status < 500 {
		return nil
	}
	if a.status != 200 {
		return vx.Fail("status", "%d: %q", a.status, a.body)
	}
	// the job is echoed
	start := strings.IndexByte(a.body, '{')
	var echo, posted ops.OpSequence
	if err := json.Unmarshal([]byte(r.body), &posted); err != nil {
		return vx.Fail("accepted", "%q", r.body)
	}
	var raw json.RawMessage
	if start < 0 || json.NewDecoder(strings.NewReader(a.body[start:])).Decode(&raw) != nil || json.Unmarshal(raw, &echo) != nil {
		return vx.Fail("echo", "no job in answer %q", a.body)
	}
	e, _ := json.Marshal(&echo)
	p, _ := json.Marshal(&posted)
	if !bytes.Equal(e, p) {
		return vx.Fail("echo", "answer echoes job %s, expected %s", e, p)
	}
	log := a.body[start+len(raw):]
	if r.kind != either && strings.Contains(strings.ToLower(log), "error") != (r.kind == failing) {
		return vx.Fail("log", "%q", log)
	}
	if !strings.Contains(log, r.say) {
		return vx.Fail("log", "%q does not mention %s", log, r.say)
	}
	return nil
}

// check judges the answer, and whether the server goes on.
func (s *server) check(r request, a answer) error {
	if err := judge(r, a); err != nil {
		select { // gives it time to die
		case <-s.done:
		case <-time.After(time.Second):
		}
		if !s.alive() {
			return vx.Fail("died", "%v; %s", err, tail(s.out))
		}
		return err
	}
	if err := s.ping(); err != nil {
		return vx.Fail("health", "%v; %s", err, tail(s.out))
	}
	if !s.alive() {
		return vx.Fail("died", "%s", tail(s.out))
	}
	return nil
}

func tail(b *bytes.Buffer) string {
	s := b.String()
	if i := strings.Index(s, "panic"); i >= 0 {
		s = s[i:]
	} else if i := strings.Index(s, "DATA RACE"); i >= 0 {
		s = s[i:]
	}
	if len(s) > 1500 {
		s = s[:1500]
	}
	return s
}

func job(steps ...string) string {
	return `{"type":"seq","steps":[` + strings.Join(steps, ",") + `]}`
}

func load(name string) string { return fmt.Sprintf(`{"type":"load","id":0,"fileName":%q}`, name) }
func save(name string) string { return fmt.Sprintf(`{"type":"save","filePattern":%q}`, name) }

func gray(w, h, seed int) *fits.Image {
	d := make([]float32, w*h)
	for i := range d {
		d[i] = 10 + float32(i%7+seed)
		if i%13 == 0 {
			d[i] = 40
		}
	}
	return fits.NewImageFromNaxisn([]int32{int32(w), int32(h)}, d)
}

func fitsBytes(scratch string, f *fits.Image) []byte {
	n := scratch + "/tmp.fits"
	if err := f.WriteFile(n); err != nil {
		panic(err)
	}
	b, err := os.ReadFile(n)
	if err != nil {
		panic(err)
	}
	return b
}

func main() {
	vx.Main("P29", "model_checking", func(c *vx.C) {
		bin, race := os.Getenv("VX_NIGHTLIGHT"), os.Getenv("VX_NIGHTLIGHT_RACE")
		nan := gray(8, 8, 0)
		for i := range nan.Data {
			nan.Data[i] = float32(math.NaN())
		}
		color := fits.NewImageFromNaxisn([]int32{8, 8, 3}, append(append(append([]float32{}, gray(8, 8, 0).Data...), gray(8, 8, 2).Data...), gray(8, 8, 3).Data...))
		constant := gray(8, 8, 0)
		for i := range constant.Data {
			constant.Data[i] = 0.5
		}
		a := fitsBytes(c.Scratch, gray(8, 8, 0))
		frames = map[string][]byte{
			"a.fits":        a,
			"b.fits":        fitsBytes(c.Scratch, gray(8, 8, 1)),
			"many/1.fits":   a,
			"many/2.fits":   fitsBytes(c.Scratch, gray(8, 8, 2)),
			"many/3.fits":   fitsBytes(c.Scratch, gray(8, 8, 3)),
			"many/4.fits":   fitsBytes(c.Scratch, gray(8, 8, 4)),
			"many/5.fits":   fitsBytes(c.Scratch, gray(8, 8, 5)),
			"mixed/1.fits":  a,
			"mixed/2.fits":  fitsBytes(c.Scratch, gray(16, 4, 1)),
			"ones/1.fits":   fitsBytes(c.Scratch, gray(1, 1, 0)),
			"ones/2.fits":   fitsBytes(c.Scratch, gray(1, 1, 1)),
			"torn.fits":     a[:len(a)-2880],
			"one.fits":      fitsBytes(c.Scratch, gray(1, 1, 0)),
			"nan.fits":      fitsBytes(c.Scratch, nan),
			"color.fits":    fitsBytes(c.Scratch, color),
			"constant.fits": fitsBytes(c.Scratch, constant),
			"text.fits":     []byte("hello"),
			"empty.fits":    {},
		}
		const js = "application/json"
		mean := `{"type":"stack","mode":1}`
		menu := []request{
			{"good", job(load("a.fits"), `{"type":"scaleOffset","scale":2,"offset":1}`, save("good.fits")), js, good, "a.fits", false},
			{"other good", job(load("b.fits"), save("other.fits"), save("other.jpg")), js, good, "b.fits", false},
			{"missing file", job(load("nofile.fits"), save("missing.fits")), js, failing, "nofile.fits", false},
			{"malformed", `{"type":"seq","steps":[` + load("a.fits") + `,` + save("malformed.fits"), js, malformed, "", false},
			{"crash?", job(load("one.fits"), `{"type":"starDetect"}`, save("crash.fits")), js, either, "", false},
			{"stack", job(`{"type":"loadMany","filePatterns":["many/*.fits"]}`, `{"type":"scaleOffset","scale":2}`, mean, save("stack.fits")), js, good, "many/5.fits", false},

			{"crash 2?", job(`{"type":"loadMany","filePatterns":["ones/*.fits"]}`, `{"type":"selectRef","target":1,"mode":"%location"}`, `{"type":"matchHist","mode":2}`, save("crash%d.fits")), js, either, "", false},
			{"unknown step", job(load("a.fits"), save("unknown.fits"), `{"type":"nope"}`), js, malformed, "", false},
			{"no match", job(`{"type":"loadMany","filePatterns":["nope*.fits"]}`, save("nomatch.fits")), js, failing, "nope*", false},
			{"forbidden", job(load("../x.fits"), save("forbidden.fits")), js, failing, "", false},
			{"save fails", job(load("a.fits"), save("nodir/x.fits")), js, failing, "nodir", false},
			{"torn", job(load("torn.fits"), save("torn-out.fits")), js, failing, "", false},
			{"mixed sizes", job(`{"type":"loadMany","filePatterns":["mixed/*.fits"]}`, mean, save("mixed.fits")), js, failing, "", false},
			{"form", "type=seq&steps=1", "application/x-www-form-urlencoded", malformed, "", false},
			{"empty body", "", js, malformed, "", false},
			{"empty form", "", "application/x-www-form-urlencoded", malformed, "", false},
			{"trailing text", job(load("a.fits"), save("trailing.fits")) + "]}", js, malformed, "", false},
			{"two jobs", job(load("a.fits"), save("two1.fits")) + job(load("a.fits"), save("two2.fits")), js, malformed, "", false},
			{"job as text", job(load("a.fits"), save("text.fits")), "text/plain", either, "", false},
			{"job as form", job(load("a.fits"), save("form.fits")), "application/x-www-form-urlencoded", either, "", false},
			{"disconnect", job(load("a.fits"), save("disconnect.fits")), js, malformed, "", true},
			{"list", "[" + load("a.fits") + "," + save("list.fits") + "]", js, malformed, "", false},
			{"wrong parameter", job(load("a.fits"), `{"type":"gamma","gamma":"x"}`, save("wrong.fits")), js, malformed, "", false},
			{"no steps", job(), js, either, "", false},
		}

		// outcome of every request to a fresh server
		type outcome struct {
			status       int
			body, writes string
		}
		alone := make([]outcome, len(menu))
		c.Shards("alone", len(menu), func(s *vx.S) {
			r := menu[s.ID]
			s.Check(func() string { return "request: " + r.name }, func() error {
				srv := start(c.Scratch, bin)
				defer srv.stop()
				if err := srv.ping(); err != nil {
					return vx.Fail("health", "%v", err)
				}
				a := srv.post(r)
				if err := srv.check(r, a); err != nil {
					return err
				}
				w := srv.written()
				if r.kind == good && w == "" || (r.kind == malformed || r.kind == failing) && w != "" {
					return vx.Fail("files", "written: %q", w)
				}
				if (r.name == "job as text" || r.name == "job as form") && (w != "") != (a.status == 200) {
					return vx.Fail("files", "status %d, written %q", a.status, w)
				}
				if r.name == "stack" {
					for i := 1; i <= 5; i++ {
						if !strings.Contains(a.body, fmt.Sprintf("many/%d.fits", i)) {
							return vx.Fail("log", "frame %d missing in %q", i, a.body)
						}
					}
				}
				alone[s.ID] = outcome{a.status, lines(a.body), w}
				s.Outcome(vx.Hash([]byte(fmt.Sprint(alone[s.ID]))))
				s.States(2)
				s.Transitions(1)
				return nil
			})
		})

		// histories
		var hist [][]int
		core := 6
		if c.Thorough {
			core = 14
		}
		for i := range menu {
			for j := range menu {
				hist = append(hist, []int{i, j})
			}
		}
		for i := 0; i < core; i++ {
			for j := 0; j < core; j++ {
				for k := 0; k < core; k++ {
					hist = append(hist, []int{i, j, k})
				}
			}
		}
		// long histories: each request many times, all of them forwards and backwards
		for i := range menu {
			hist = append(hist, []int{i, i, i, i, i, i, i, i, i, i})
		}
		var up, down []int
		for i := range menu {
			up, down = append(up, i), append(down, len(menu)-1-i)
		}
		hist = append(hist, append(append([]int(nil), up...), down...), append(append([]int(nil), down...), up...), append(append(append([]int(nil), up...), up...), up...))
		c.Shards("histories", len(hist), func(s *vx.S) {
			h := hist[s.ID]
			s.Check(func() string {
				l := []string{}
				for _, i := range h {
					l = append(l, menu[i].name)
				}
				return "requests: " + strings.Join(l, ", ")
			}, func() error {
				srv := start(c.Scratch, bin)
				defer srv.stop()
				for _, i := range h {
					s.States(1)
					s.Transitions(1)
					a := srv.post(menu[i])
					if err := srv.check(menu[i], a); err != nil {
						return err
					}
					got := outcome{a.status, lines(a.body), srv.written()}
					s.Outcome(vx.Hash([]byte(fmt.Sprint(got))))
					if alone[i].status != 0 && got != alone[i] {
						return vx.Fail("history", "%s gives %+v, alone %+v", menu[i].name, got, alone[i])
					}
					srv.clean()
				}
				return nil
			})
		})
		c.Bound("histories: every request alone, every pair of %d requests, every triple of %d, each request ten times, and all of them forwards and backwards, each history on a server of its own", len(menu), core)

		// every kind of step on several frames
		kinds := strings.Fields("HSLUnsharpMask align backExtract badPixel bin calibrate debandHoriz debandVert debayer exportStats filter gamma gammaPP gaussianBlur hslApplyLum hslGamma hslGammaPP hslMidtones hslNeutralizeBackground hslRotateHue hslSCNR hslSaturationGamma hslScaleBlack hslScaleOffsetChannel hslSelectiveSaturation hslStretch hsluvToRGB load loadMany matchHist midtones normRange rgbBalance rgbCombine rgbToHSLuv save scaleBlack scaleOffset selectRef seq stack stackBatches starDetect stretch unsharpMask")
		inputs := []string{load("a.fits"), load("color.fits"), load("one.fits"), load("nan.fits"), load("constant.fits"), load("empty.fits"), load("text.fits"),
			`{"type":"loadMany","filePatterns":["many/*.fits"]}`, `{"type":"loadMany","filePatterns":["mixed/*.fits","torn.fits"]}`}
		c.Shards("steps", len(kinds), func(s *vx.S) {
			srv := start(c.Scratch, bin)
			defer func() { srv.stop() }()
			for _, in := range inputs {
				for _, step := range []string{fmt.Sprintf(`{"type":%q}`, kinds[s.ID]), fmt.Sprintf(`{"type":%q,"sigma":0.5,"gamma":0.5,"gridSize":2,"binSize":3,"percentile":50,"window":3,"location":0.1,"scale":0.2,"mid":1,"channel":"R","factor":0.5,"offset":0.5,"gain":0.5,"mode":1,"target":1,"minStars":1,"dark":"a.fits","flat":"b.fits"}`, kinds[s.ID])} {
					for _, more := range []string{"", `{"type":"starDetect","radius":2},{"type":"selectRef"},`} {
						s.States(1)
						s.Transitions(1)
						r := request{"step", strings.Replace(job(in, more+step, save("step%d.fits")), ",,", ",", -1), js, either, "", false}
						s.Check(func() string { return "job " + r.body }, func() error {
							a := srv.post(r)
							if err := srv.check(r, a); err != nil {
								srv.stop()
								srv = start(c.Scratch, bin)
								return err
							}
							s.Outcome(vx.Hash([]byte(lines(a.body))))
							srv.clean()
							return nil
						})
					}
				}
			}
		})
		c.Bound("%d kinds of steps, with default and other parameters, on %d inputs, with and without star detection before", len(kinds), len(inputs))

		// concurrent jobs: each one loads from a pipe, so that its progress is controlled
		pipe := func(i int) string { return fmt.Sprintf("p%d.fits", i) }
		type conc struct {
			name string
			body func(i int) string
			feed []byte
			kind kind
		}
		concs := []conc{
			{"good", func(i int) string {
				return job(load(pipe(i)), fmt.Sprintf(`{"type":"scaleOffset","scale":%d}`, i+2), save(fmt.Sprintf("c%d.fits", i)))
			}, frames["many/4.fits"], good},
			{"save fails", func(i int) string { return job(load(pipe(i)), save(fmt.Sprintf("nodir%d/x.fits", i))) }, frames["a.fits"], failing},
			{"torn", func(i int) string { return job(load(pipe(i)), save(fmt.Sprintf("c%d.fits", i))) }, frames["torn.fits"], failing},
			{"crash?", func(i int) string {
				return job(load(pipe(i)), `{"type":"starDetect"}`, save(fmt.Sprintf("c%d.fits", i)))
			}, frames["one.fits"], either},
			{"stack", func(i int) string {
				return job(fmt.Sprintf(`{"type":"loadMany","filePatterns":[%q,"many/*.fits"]}`, pipe(i)), `{"type":"calibrate","dark":"b.fits"}`, mean, save(fmt.Sprintf("c%d.fits", i)))
			}, frames["many/5.fits"], good},
			{"malformed", func(i int) string { return `{"type":"seq","steps":[` + load(pipe(i)) }, nil, malformed},
		}
		// run executes the jobs js in the given order of events: job i is started at its first, fed at its second occurrence
		run := func(binary string, js []int, order []int) (res []outcome, err error) {
			srv := start(c.Scratch, binary)
			defer srv.stop()
			answers := make([]chan answer, len(js))
			pipes := make([]*os.File, len(js))
			res = make([]outcome, len(js))
			finish := func(i int) error {
				k := concs[js[i]]
				var a answer
				select {
				case a = <-answers[i]:
				case <-time.After(patience):
					return vx.Fail("progress", "no answer to job %d (%s)", i, k.name)
				}
				if err := srv.check(request{k.name, k.body(i), "application/json", k.kind, "", false}, a); err != nil {
					return err
				}
				res[i] = outcome{a.status, lines(a.body), srv.written()}
				srv.clean()
				return nil
			}
			for _, i := range order {
				k := concs[js[i]]
				if answers[i] != nil { // feed
					if pipes[i] == nil {
						continue // refused already
					}
					pipes[i].Write(k.feed)
					pipes[i].Close()
					if err := finish(i); err != nil {
						return nil, err
					}
					continue
				}
				// start
				name := srv.dir + "/" + pipe(i)
				if err := syscall.Mkfifo(name, 0644); err != nil {
					panic(err)
				}
				answers[i] = make(chan answer, 1)
				go func(i int) {
					answers[i] <- srv.post(request{"", concs[js[i]].body(i), "application/json", concs[js[i]].kind, "", false})
				}(i)
				if k.kind == malformed {
					if err := finish(i); err != nil {
						return nil, err
					}
					continue
				}
				for t := time.Now(); pipes[i] == nil; time.Sleep(time.Millisecond) { // until the job reads its pipe
					f, err := os.OpenFile(name, os.O_WRONLY|syscall.O_NONBLOCK, 0)
					if err == nil {
						pipes[i] = f
						defer f.Close()
					} else if !errors.Is(err, syscall.ENXIO) || time.Since(t) > patience || !srv.alive() {
						return nil, vx.Fail("progress", "job %d (%s) does not start within %v: %v, server alive %v, %s", i, k.name, time.Since(t), err, srv.alive(), tail(srv.out))
					}
				}
				if err := srv.ping(); err != nil {
					return nil, vx.Fail("health", "%v; %s", err, tail(srv.out))
				}
			}
			return res, nil
		}
		orders := func(n int) (l [][]int) {
			var rec func(o []int, left []int)
			rec = func(o []int, left []int) {
				done := true
				for i := range left {
					if left[i] > 0 {
						done = false
						left[i]--
						rec(append(append([]int{}, o...), i), left)
						left[i]++
					}
				}
				if done {
					l = append(l, o)
				}
			}
			left := make([]int, n)
			for i := range left {
				left[i] = 2
			}
			rec(nil, left)
			return l
		}
		type task struct{ js, order []int }
		var tasks []task
		add := func(n, max int) {
			for _, o := range orders(n) {
				var rec func(js []int)
				rec = func(js []int) {
					if len(js) == n {
						tasks = append(tasks, task{append([]int{}, js...), o})
						return
					}
					for k := 0; k < max; k++ {
						rec(append(js, k))
					}
				}
				rec(nil)
			}
		}
		add(2, len(concs))
		if c.Thorough {
			add(3, 4)
		} else {
			add(3, 2)
		}
		single := make([][3]outcome, len(concs)) // by kind and number of the job
		c.Shards("piped alone", len(concs), func(s *vx.S) {
			for i := 0; i < 3; i++ {
				s.Check(func() string { return fmt.Sprintf("job %d: %s", i, concs[s.ID].name) }, func() error {
					js, order := []int{s.ID, s.ID, s.ID}, []int{i, i}
					res, err := run(bin, js, order)
					if err == nil {
						single[s.ID][i] = res[i]
					}
					return err
				})
			}
		})
		c.Shards("concurrent", len(tasks), func(s *vx.S) {
			t := tasks[s.ID]
			s.Check(func() string {
				l := []string{}
				for i, j := range t.js {
					l = append(l, fmt.Sprintf("job %d: %s", i, concs[j].name))
				}
				return fmt.Sprintf("%s; started and fed in the order %v", strings.Join(l, ", "), t.order)
			}, func() error {
				res, err := run(bin, t.js, t.order)
				if err != nil {
					return err
				}
				s.States(len(t.order))
				s.Transitions(len(t.order))
				s.Outcome(vx.Hash([]byte(fmt.Sprint(res))))
				for i, r := range res {
					if want := single[t.js[i]][i]; want.status != 0 && r != want {
						return vx.Fail("concurrent", "job %d gives %+v, alone %+v", i, r, want)
					}
				}
				return nil
			})
		})
		c.Bound("concurrency: every order of starting and feeding 2 of %d kinds of jobs, and 3 of some; %d runs", len(concs), len(tasks))

		// unsynchronised accesses
		var races []task
		for i := range concs {
			for j := range concs {
				races = append(races, task{[]int{i, j}, []int{0, 1, 0, 1}})
			}
		}
		c.Shards("races", len(races)+len(menu), func(s *vx.S) {
			if s.ID < len(races) {
				t := races[s.ID]
				s.Check(func() string {
					return fmt.Sprintf("races of concurrent jobs %s and %s", concs[t.js[0]].name, concs[t.js[1]].name)
				}, func() error {
					_, err := run(race, t.js, t.order)
					return err
				})
				return
			}
			r := menu[s.ID-len(races)]
			s.Check(func() string { return "races of job " + r.name }, func() error {
				srv := start(c.Scratch, race)
				defer srv.stop()
				return srv.check(r, srv.post(r))
			})
		})
		c.Bound("%d runs of the server with race detection", len(races)+len(menu))
	})
}
