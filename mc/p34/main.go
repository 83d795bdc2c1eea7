package main

import (
	"bufio"
	"bytes"
	"fmt"
	"io"
	"net"
	"net/http"
	"net/url"
	"os"
	"os/exec"
	"path"
	"path/filepath"
	"regexp"
	"sort"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"time"

	"github.com/mlnoga/nightlight/internal/fits"
	"github.com/mlnoga/nightlight/internal/zzverif/vx"
)

const patience = 30 * time.Second
const marker = "CONFIDENTIAL-OUTSIDE" // contents of files outside the working directory
const api = "/api/v1/files/"

// server is a running server with its own working directory, which has neighbors.
type server struct {
	dir, addr string
	cmd       *exec.Cmd
	done      chan struct{}
	conn      net.Conn
	rd        *bufio.Reader
}

var portMutex sync.Mutex
var lastPort = 3000

func freePort() int {
	portMutex.Lock()
	defer portMutex.Unlock()
	for {
		lastPort++
		syscall.ForkLock.RLock()
		l, err := net.Listen("tcp", fmt.Sprintf(":%d", lastPort))
		if err == nil {
			l.Close()
		}
		syscall.ForkLock.RUnlock()
		if err == nil {
			return lastPort
		}
	}
}

var files map[string][]byte

func start(scratch string) *server {
	for try := 0; ; try++ {
		outer, err := os.MkdirTemp(scratch, "srv")
		if err != nil {
			panic(err)
		}
		dir := outer + "/work"
		put := func(n string, b []byte) {
			os.MkdirAll(filepath.Dir(n), 0755)
			if err := os.WriteFile(n, b, 0644); err != nil {
				panic(err)
			}
		}
		put(outer+"/secret.txt", []byte(marker))
		put(outer+"/work-not/secret.txt", []byte(marker))
		put(outer+"/other/"+marker+".txt", []byte(marker))
		for n, b := range files {
			put(dir+"/"+n, b)
		}
		os.MkdirAll(dir+"/nothing", 0755)
		port := freePort()
		s := &server{dir: dir, addr: fmt.Sprintf("127.0.0.1:%d", port), done: make(chan struct{})}
		s.cmd = exec.Command(os.Getenv("VX_NIGHTLIGHT"), "-port", fmt.Sprint(port), "-log", "", "-stMemory", "500", "serve")
		s.cmd.Dir = dir
		s.cmd.Env = append(os.Environ(), "GIN_MODE=release", "GOMAXPROCS=4")
		s.cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
		if err := s.cmd.Start(); err != nil {
			panic(err)
		}
		go func() {
			s.cmd.Wait()
			close(s.done)
		}()
		for t := time.Now(); time.Since(t) < patience && s.alive(); time.Sleep(2 * time.Millisecond) {
			if a := s.do("GET", "/api/v1/ping", nil, ""); a.err == nil && a.status == 200 && s.alive() {
				return s
			}
		}
		s.stop()
		if try > 10 {
			panic("the server does not start")
		}
	}
}

func (s *server) alive() bool {
	select {
	case <-s.done:
		return false
	default:
		return true
	}
}

func (s *server) stop() {
	s.cmd.Process.Kill()
	<-s.done
	if s.conn != nil {
		s.conn.Close()
	}
	os.RemoveAll(filepath.Dir(s.dir))
}

type answer struct {
	status int
	header http.Header
	body   []byte
	err    error
}

// do sends exactly the given target.
func (s *server) do(method, target string, header []string, body string) (a answer) {
	for try := 0; try < 2; try++ {
		if s.conn == nil {
			if s.conn, a.err = net.Dial("tcp", s.addr); a.err != nil {
				s.conn = nil
				return a
			}
			s.rd = bufio.NewReader(s.conn)
		}
		s.conn.SetDeadline(time.Now().Add(patience))
		h := ""
		for _, x := range header {
			h += x + "\r\n"
		}
		if body != "" {
			h += "Content-Type: application/json\r\n"
		}
		fmt.Fprintf(s.conn, "%s %s HTTP/1.1\r\nHost: x\r\n%sContent-Length: %d\r\n\r\n%s", method, target, h, len(body), body)
		r, err := http.ReadResponse(s.rd, &http.Request{Method: method})
		if err == nil {
			a.status, a.header = r.StatusCode, r.Header
			a.body, err = io.ReadAll(r.Body)
			r.Body.Close()
			if r.Close {
				s.conn.Close()
				s.conn = nil
			}
		} else {
			s.conn.Close()
			s.conn = nil
		}
		if a.err = err; err == nil {
			break
		}
	}
	return a
}

// tree lists the contents of the working directory and its neighbors.
func (s *server) tree() string {
	var l []string
	filepath.Walk(filepath.Dir(s.dir), func(p string, i os.FileInfo, err error) error {
		if err == nil && i.Mode().IsRegular() {
			b, _ := os.ReadFile(p)
			l = append(l, fmt.Sprintf("%s %x", p, vx.Hash(b)))
		} else if err == nil {
			l = append(l, p)
		}
		return nil
	})
	sort.Strings(l)
	return strings.Join(l, "\n")
}

// entries of a directory of the working directory
func (s *server) entries(dir string) (l []string) {
	ds, err := os.ReadDir(s.dir + "/" + dir)
	if err != nil {
		return nil
	}
	for _, d := range ds {
		n := d.Name()
		if d.IsDir() {
			n += "/"
		}
		l = append(l, n)
	}
	sort.Strings(l)
	return l
}

var reLink = regexp.MustCompile(`<a href="([^"]*)">`)

func listing(body []byte) (l []string) {
	for _, m := range reLink.FindAllSubmatch(body, -1) {
		h := strings.ReplaceAll(string(m[1]), "&amp;", "&")
		if u, err := url.Parse(h); err == nil {
			h = u.Path
		}
		l = append(l, strings.TrimPrefix(h, "./"))
	}
	sort.Strings(l)
	return l
}

func every(b []byte) (s string) {
	for _, c := range b {
		s += fmt.Sprintf("%%%02x", c)
	}
	return s
}

func spellings(n string) (l []string) {
	parts := strings.Split(n, "/")
	var a, b, c []string
	for i, p := range parts {
		a = append(a, url.PathEscape(p))
		b = append(b, every([]byte(p)))
		if i%2 == 0 {
			c = append(c, strings.ToUpper(every([]byte(p))))
		} else {
			c = append(c, url.PathEscape(p))
		}
	}
	return []string{strings.Join(a, "/"), strings.Join(b, "/"), strings.Join(c, "/")}
}

func job(name, out string) string {
	return fmt.Sprintf(`{"type":"seq","steps":[{"type":"load","fileName":%q},{"type":"save","filePattern":%q}]}`, name, out)
}

func fitsBytes(scratch string, n int) []byte {
	d := make([]float32, 64)
	for i := range d {
		d[i] = float32((i*7+n*13)%31) + float32(i)/8
	}
	p := fmt.Sprintf("%s/frame%d.fits", scratch, n)
	f := fits.NewImageFromNaxisn([]int32{8, 8}, d)
	if err := f.WriteFile(p); err != nil {
		panic(err)
	}
	b, err := os.ReadFile(p)
	if err != nil {
		panic(err)
	}
	return b
}

func main() {
	vx.Main("P34", "model_checking", func(c *vx.C) {
		c.Rule = "each request is sent to a real server process, byte for byte as enumerated; the answer is compared with the file"
		large := make([]byte, 3<<20+77)
		for i := range large {
			large[i] = byte(i>>11) ^ byte(i*7)
		}
		files = map[string][]byte{
			"a.txt": []byte("file a"), "b c.txt": []byte("with blank"), "50%.txt": []byte("percent"), "50%25.txt": []byte("percent twice"), "é.txt": []byte("accent"), "q?x=1.txt": []byte("query"), "h#1.txt": []byte("hash"),
			"plus+.txt": []byte("plus"), "empty.txt": {}, "sub/x.txt": []byte("file x in sub"), "sub/deep/y.fits": []byte("y\x00\xff\r\n"), ".hidden": []byte("dot"), "..dots.txt": []byte("two dots"), "a..b.txt": []byte("inner dots"),
			"back\\slash.txt": []byte("backslash"), "UPPER.TXT": []byte("upper"), "semi;colon.txt": []byte("semi"), "amp&lt<.html": []byte("<b>page</b>"), "large.bin": large, "sub/notsecret.txt": []byte("not so secret"), "x.gz": []byte("\x1f\x8bnot really"),
			"out.jpg": []byte("\xff\xd8\xff\xe0image"), "noext": []byte("plain"), "work": []byte("named like the directory"),
			"A.fits": fitsBytes(c.Scratch, 1), "B.fits": fitsBytes(c.Scratch, 2), "idx.d/x": []byte("directory named like a page"), "sub/page.html": []byte("<html>"),
		}
		var names []string
		for n := range files {
			names = append(names, n)
		}
		sort.Strings(names)

		// every file, by all its spellings, completely and in parts
		ranges := []string{"", "0-0", "2-4", "3-", "-2", "0-100000000", "1048576-2097151"}
		c.Shards("files", len(names), func(s *vx.S) {
			n := names[s.ID]
			srv := start(c.Scratch)
			defer srv.stop()
			for _, sp := range spellings(n) {
				for _, r := range ranges {
					for _, method := range []string{"GET", "HEAD"} {
						s.Check(func() string { return fmt.Sprintf("%s %s%s range %q", method, api, sp, r) }, func() error {
							var h []string
							if r != "" {
								h = append(h, "Range: bytes="+r)
							}
							a := srv.do(method, api+sp, h, "")
							if a.err != nil {
								return vx.Fail("answer", "%v", a.err)
							}
							want, status := files[n], 200
							if r != "" {
								lo, hi := 0, len(want)-1
								p := strings.Split(r, "-")
								if p[0] == "" {
									k, _ := strconv.Atoi(p[1])
									if lo = len(want) - k; lo < 0 {
										lo = 0
									}
								} else {
									lo, _ = strconv.Atoi(p[0])
									if k, err := strconv.Atoi(p[1]); err == nil && k < hi {
										hi = k
									}
								}
								if lo >= len(want) {
									if a.status != 416 && !(len(want) == 0 && a.status < 300) {
										return vx.Fail("range", "status %d", a.status)
									}
									return nil
								}
								want, status = want[lo:hi+1], 206
							}
							if status == 206 && a.status == 200 { // ranges are optional
								want, status = files[n], 200
							}
							if a.status != status {
								return vx.Fail("missing", "status %d, expected %d", a.status, status)
							}
							if method == "GET" && !bytes.Equal(a.body, want) {
								return vx.Fail("content", "%d bytes %.50q, expected %d bytes %.50q", len(a.body), a.body, len(want), want)
							}
							if method == "HEAD" && (len(a.body) > 0 || a.header.Get("Content-Length") != fmt.Sprint(len(want))) {
								return vx.Fail("content", "length %s with %d bytes, expected %d", a.header.Get("Content-Length"), len(a.body), len(want))
							}
							s.States(1)
							s.Transitions(1)
							s.Outcome(vx.Hash(a.status, len(a.body)))
							return nil
						})
					}
				}
			}
		})

		// every path up to a length
		alphabet := []string{"", ".", "..", "%2e%2e", ".%2E", "a.txt", "sub", "x.txt", "secret.txt", "..%2f", "%2e%2e%2fsecret.txt", "..%5c", "..\\", "work", "work-not", "%00", "nothing", "..%2f..%2fother", "index.html"}
		depth := 3
		if c.Thorough {
			depth = 4
		}
		prefixes := []string{api, "/api/v1/files", "/api/v1/files/../files/", "//api/v1/files/", "/js/"}
		c.Shards("paths", len(alphabet)*len(prefixes), func(s *vx.S) {
			srv := start(c.Scratch)
			defer srv.stop()
			prefix := prefixes[s.ID%len(prefixes)]
			var rec func(l []string)
			rec = func(l []string) {
				raw := strings.Join(l, "/")
				s.Check(func() string { return fmt.Sprintf("GET %s%s", prefix, raw) }, func() error {
					a := srv.do("GET", prefix+raw, nil, "")
					if a.err != nil {
						return vx.Fail("answer", "%v", a.err)
					}
					if bytes.Contains(a.body, []byte(marker)) {
						return vx.Fail("outside", "the answer contains a file from outside: %.200q", a.body)
					}
					s.States(1)
					s.Transitions(1)
					s.Outcome(vx.Hash(a.status, a.body))
					if prefix != api {
						if a.status == 200 && prefix != "/js/" && prefix != "/api/v1/files" {
							for _, e := range listing(a.body) {
								if e == "work-not/" || e == "secret.txt" {
									return vx.Fail("outside", "lists %s", e)
								}
							}
						}
						return nil
					}
					dec, err := url.PathUnescape(raw)
					if err != nil {
						return nil
					}
					clean := path.Clean("/" + dec)
					plain := raw == dec // canonical spelling of something
					for i, x := range l {
						if x == "." || x == ".." || x == "" && i+1 < len(l) || x == "index.html" || strings.Contains(x, "\\") {
							plain = false
						}
					}
					want, isFile := files[strings.TrimPrefix(clean, "/")]
					info, err := os.Stat(srv.dir + clean)
					isDir := err == nil && info.IsDir() && !strings.Contains(clean, "\x00")
					isFile = isFile && !strings.Contains(clean, "\x00")
					switch {
					case a.status == 200 && isFile:
						if !bytes.Equal(a.body, want) {
							return vx.Fail("content", "%.100q, expected %.100q", a.body, want)
						}
					case a.status == 200 && isDir:
						if got, want := listing(a.body), srv.entries(clean); strings.Join(got, "\n") != strings.Join(want, "\n") {
							return vx.Fail("listing", "%q, expected %q", got, want)
						}
					case a.status == 200:
						return vx.Fail("content", "there is no %s, but the answer is %.100q", clean, a.body)
					case plain && isFile && !strings.HasSuffix(dec, "/") && a.status != 200:
						return vx.Fail("missing", "status %d", a.status)
					case plain && isDir && (dec == "" || strings.HasSuffix(dec, "/")) && a.status != 200:
						return vx.Fail("missing", "status %d", a.status)
					case plain && !isFile && !isDir && a.status != 404:
						return vx.Fail("status", "status %d for a missing file", a.status)
					}
					return nil
				})
				if len(l) < depth {
					for _, x := range alphabet {
						rec(append(append([]string{}, l...), x))
					}
				}
			}
			rec([]string{alphabet[s.ID/len(prefixes)]})
		})
		c.Bound("every file of %d by 3 spellings, completely and by %d ranges; every path of <= %d of %d components after %d prefixes", len(names), len(ranges), depth, len(alphabet), len(prefixes))

		// methods: only a posted job does anything
		methods := []string{"GET", "HEAD", "POST", "PUT", "DELETE", "PATCH", "OPTIONS", "TRACE", "PROPFIND", "MOVE", "get"}
		routes := []string{"/", "/index.html", "/js/", "/js/blocks.js", "/icons/favicon.svg", "/blockly/placeholder.js", "/api", "/api/v1", "/api/v1/", "/api/v1/ping", "/api/v1/ping/", "/api/v1/job", "/api/v1/job/", "/api/v1/jobs", "/API/v1/job", "/api/v2/job",
			"/job", api, api + "a.txt", api + "new.txt", api + "sub/", api + "sub/x.txt", "/nowhere", "/a.txt", "/api/v1/file/a.txt"}
		fixed := map[string]string{"/": "index.html", "/index.html": "index.html", "/js/blocks.js": "js/blocks.js", "/icons/favicon.svg": "icons/favicon.svg"}
		web := "/repo/web/"
		if r := os.Getenv("VX_REPO"); r != "" {
			web = r + "/web/"
		}
		filepath.Walk(web, func(p string, i os.FileInfo, err error) error {
			if err == nil && i.Mode().IsRegular() {
				n := p[len(web):]
				if strings.HasPrefix(n, "js/") || strings.HasPrefix(n, "icons/") || strings.HasPrefix(n, "blockly/") {
					r := "/" + (&url.URL{Path: n}).EscapedPath()
					if _, ok := fixed[r]; !ok {
						routes = append(routes, r)
						fixed[r] = n
					}
				}
			}
			return nil
		})
		c.Shards("methods", len(routes), func(s *vx.S) {
			route := routes[s.ID]
			for _, m := range methods {
				for _, body := range []string{"", job("A.fits", "made.fits"), "{"} {
					s.Check(func() string { return fmt.Sprintf("%s %s with body %q", m, route, body) }, func() error {
						srv := start(c.Scratch)
						defer srv.stop()
						before := srv.tree()
						a := srv.do(m, route, nil, body)
						if a.err != nil {
							return vx.Fail("answer", "%v", a.err)
						}
						after := srv.tree()
						runs := m == "POST" && route == "/api/v1/job" && strings.HasSuffix(body, "]}")
						if runs != (after != before) {
							return vx.Fail("executed", "status %d, the working directory changed: %v", a.status, after != before)
						}
						if runs {
							if a.status != 200 {
								return vx.Fail("status", "%d", a.status)
							}
							if b, _ := os.ReadFile(srv.dir + "/made.fits"); len(b) == 0 {
								return vx.Fail("executed", "no output")
							}
						}
						if a.status >= 500 && m != "TRACE" {
							return vx.Fail("status", "%d", a.status)
						}
						if a.status < 300 && a.header.Get("Access-Control-Allow-Origin") != "*" {
							return vx.Fail("origin", "other pages may not read the answer: %v", a.header)
						}
						if m == "OPTIONS" && (a.status != 204 || a.header.Get("Access-Control-Allow-Origin") != "*" || !strings.Contains(a.header.Get("Access-Control-Allow-Methods"), "POST") || !strings.Contains(strings.ToLower(a.header.Get("Access-Control-Allow-Headers")), "content-type")) {
							return vx.Fail("preflight", "status %d %v", a.status, a.header)
						}
						if n, ok := fixed[route]; ok && m == "GET" {
							want, err := os.ReadFile(web + n)
							if err != nil {
								return vx.Fail("page", "%v", err)
							}
							if a.status != 200 || !bytes.Equal(a.body, want) {
								return vx.Fail("page", "status %d, %d bytes, expected those of %s (%d)", a.status, len(a.body), n, len(want))
							}
							if n == "index.html" && !strings.HasPrefix(a.header.Get("Content-Type"), "text/html") {
								return vx.Fail("page", "content type %s", a.header.Get("Content-Type"))
							}
						}
						if m == "GET" && (route == "/nowhere" || route == "/a.txt" || route == "/api/v2/job" || route == "/api/v1/file/a.txt" || route == api+"new.txt") && a.status != 404 {
							return vx.Fail("status", "%d", a.status)
						}
						if (m == "PUT" || m == "DELETE" || m == "PATCH" || m == "get") && a.status < 300 {
							return vx.Fail("status", "%d", a.status)
						}
						s.States(1)
						s.Transitions(1)
						s.Outcome(vx.Hash(a.status, m, route))
						return nil
					})
				}
			}
		})
		c.Bound("%d methods on %d routes with 3 bodies; the pages and scripts of the editor as they are in the repository", len(methods), len(routes))

		// histories of jobs and requests: answers are what is on disk
		actions := []string{"job A", "job B", "failing job", "get", "head", "part", "list", "remove", "get with date"}
		n := 3
		if c.Thorough {
			n = 4
		}
		c.Shards("histories", len(actions)*len(actions), func(s *vx.S) {
			srv := start(c.Scratch)
			defer srv.stop()
			var run func(l []int)
			run = func(l []int) {
				s.Check(func() string {
					var d []string
					for _, i := range l {
						d = append(d, actions[i])
					}
					return strings.Join(d, ", ")
				}, func() error {
					out := srv.dir + "/out.fits"
					os.Remove(out)
					stamp := ""
					for _, i := range l {
						disk, err := os.ReadFile(out)
						status := 200
						if err != nil {
							status = 404
						}
						var a answer
						switch actions[i] {
						case "job A", "job B":
							src := actions[i][4:] + ".fits"
							a = srv.do("POST", "/api/v1/job", nil, job(src, "out.fits"))
							if b, _ := os.ReadFile(out); a.err != nil || a.status != 200 || len(b) != len(files[src]) {
								return vx.Fail("job", "status %d %v", a.status, a.err)
							}
						case "failing job":
							a = srv.do("POST", "/api/v1/job", nil, job("nofile.fits", "out.fits"))
							if b, _ := os.ReadFile(out); a.err != nil || !bytes.Equal(b, disk) {
								return vx.Fail("job", "status %d %v", a.status, a.err)
							}
						case "get":
							a = srv.do("GET", api+"out.fits", nil, "")
							if a.err != nil || a.status != status || status == 200 && !bytes.Equal(a.body, disk) {
								return vx.Fail("stale", "status %d, %d bytes, on disk %d", a.status, len(a.body), len(disk))
							}
							stamp = a.header.Get("Last-Modified")
						case "get with date": // the client has seen the file: same file, or new contents
							if stamp == "" {
								break
							}
							a = srv.do("GET", api+"out.fits", []string{"If-Modified-Since: " + stamp}, "")
							if a.err != nil || a.status != 304 && (a.status != status || status == 200 && !bytes.Equal(a.body, disk)) || a.status == 304 && status != 200 {
								return vx.Fail("stale", "status %d, %d bytes, on disk %d", a.status, len(a.body), len(disk))
							}
						case "head":
							a = srv.do("HEAD", api+"out.fits", nil, "")
							if a.err != nil || a.status != status || status == 200 && a.header.Get("Content-Length") != fmt.Sprint(len(disk)) {
								return vx.Fail("stale", "status %d %v, on disk %d", a.status, a.header, len(disk))
							}
						case "part":
							a = srv.do("GET", api+"out.fits", []string{"Range: bytes=2880-2999"}, "")
							if a.err != nil || status == 404 && a.status != 404 || status == 200 && (a.status != 206 || !bytes.Equal(a.body, disk[2880:3000])) {
								return vx.Fail("stale", "status %d, %d bytes", a.status, len(a.body))
							}
						case "list":
							a = srv.do("GET", api, nil, "")
							if got, want := listing(a.body), srv.entries("/"); a.err != nil || strings.Join(got, "\n") != strings.Join(want, "\n") {
								return vx.Fail("listing", "%q, expected %q", got, want)
							}
						case "remove":
							os.Remove(out)
						}
						s.Transitions(1)
					}
					s.States(len(l))
					return nil
				})
				if len(l) < n {
					for i := range actions {
						run(append(append([]int{}, l...), i))
					}
				}
			}
			run([]int{s.ID / len(actions), s.ID % len(actions)})
		})
		c.Bound("all histories of 2..%d of %d actions", n, len(actions))
	})
}
