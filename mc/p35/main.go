package main

import (
	"bufio"
	"fmt"
	"io"
	"net"
	"net/http"
	"net/url"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"sort"
	"strings"
	"sync"
	"syscall"
	"time"

	"github.com/mlnoga/nightlight/internal/fits"
	"github.com/mlnoga/nightlight/internal/zzverif/vx"
)

const patience = 60 * time.Second
const marker = "CONFIDENTIAL-OUTSIDE" // contents of files outside the jail
const api = "/api/v1/files/"

var portMutex sync.Mutex
var lastPort = 20000 // other checks use ports from 3000

func freePort() int {
	portMutex.Lock()
	defer portMutex.Unlock()
	for {
		lastPort++
		syscall.ForkLock.RLock()
		l, err := net.Listen("tcp", fmt.Sprintf(":%d", lastPort))
		if err == nil {
			l.Close()
		}
		syscall.ForkLock.RUnlock()
		if err == nil {
			return lastPort
		}
	}
}

// server is a running server in a user namespace of its own
type server struct {
	addr string
	cmd  *exec.Cmd
	done chan struct{}
	err  error
}

// The user namespace in which servers run: there, the superuser may change the file system root and, among the given number of
// IDs, its user.
var ids int

func namespace() *syscall.SysProcAttr {
	m := []syscall.SysProcIDMap{{ContainerID: 0, HostID: 0, Size: ids}}
	return &syscall.SysProcAttr{Cloneflags: syscall.CLONE_NEWUSER, UidMappings: m, GidMappings: m, GidMappingsEnableSetgroups: ids > 1, Pdeathsig: syscall.SIGKILL}
}

// start runs the server with the given flags. Returns nil if it gives up with an error.
func start(cwd string, attr *syscall.SysProcAttr, flags ...string) (*server, error) {
	for try := 0; try < 5; try++ {
		port := freePort()
		s := &server{addr: fmt.Sprintf("127.0.0.1:%d", port), done: make(chan struct{})}
		s.cmd = exec.Command(os.Getenv("VX_NIGHTLIGHT"), append([]string{"-port", fmt.Sprint(port), "-log", "", "-stMemory", "500"}, append(flags, "serve")...)...)
		s.cmd.Dir = cwd
		s.cmd.Env = append(os.Environ(), "GIN_MODE=release", "GOMAXPROCS=4")
		s.cmd.SysProcAttr = attr
		var out strings.Builder
		s.cmd.Stderr = &out
		if err := s.cmd.Start(); err != nil {
			return nil, err
		}
		go func() {
			s.err = s.cmd.Wait()
			close(s.done)
		}()
		for t := time.Now(); time.Since(t) < patience; time.Sleep(2 * time.Millisecond) {
			a := s.do("GET", "/api/v1/ping", "")
			select {
			case <-s.done:
				if strings.Contains(out.String(), "address already in use") {
					break
				}
				if s.err == nil {
					return nil, vx.Fail("ended", "the server ended without an error")
				}
				return nil, nil
			default:
			}
			if a.err == nil && a.status == 200 {
				return s, nil
			}
		}
		s.stop()
	}
	return nil, fmt.Errorf("the server neither starts nor ends")
}

func (s *server) stop() {
	s.cmd.Process.Kill()
	<-s.done
}

type answer struct {
	status int
	body   string
	err    error
}

func (s *server) do(method, target string, body string) (a answer) {
	conn, err := net.DialTimeout("tcp", s.addr, patience)
	if err != nil {
		return answer{err: err}
	}
	defer conn.Close()
	conn.SetDeadline(time.Now().Add(patience))
	fmt.Fprintf(conn, "%s %s HTTP/1.1\r\nHost: x\r\nConnection: close\r\nContent-Type: application/json\r\nContent-Length: %d\r\n\r\n%s", method, target, len(body), body)
	r, err := http.ReadResponse(bufio.NewReader(conn), &http.Request{Method: method})
	if err != nil {
		return answer{err: err}
	}
	defer r.Body.Close()
	b, err := io.ReadAll(r.Body)
	return answer{r.StatusCode, string(b), err}
}

var reLink = regexp.MustCompile(`<a href="([^"]*)">`)

func listing(body string) string {
	var l []string
	for _, m := range reLink.FindAllStringSubmatch(body, -1) {
		h := strings.ReplaceAll(m[1], "&amp;", "&")
		if u, err := url.Parse(h); err == nil {
			h = u.Path
		}
		l = append(l, strings.TrimSuffix(strings.TrimPrefix(h, "./"), "/"))
	}
	sort.Strings(l)
	return strings.Join(l, " ")
}

func entries(dir string) string {
	var l []string
	ds, _ := os.ReadDir(dir)
	for _, d := range ds {
		l = append(l, d.Name())
	}
	sort.Strings(l)
	return strings.Join(l, " ")
}

func job(name, out string) string {
	return fmt.Sprintf(`{"type":"seq","steps":[{"type":"load","fileName":%q},{"type":"save","filePattern":%q}]}`, name, out)
}

func check(err error) {
	if err != nil {
		panic(err)
	}
}

// jail creates the directories: a jail with links that lead out of it, unless it really is the root, and its neighbors.
// With decoys, the jail contains a copy of its own surroundings.
func jail(scratch string, image []byte, decoys bool) (outer string) {
	outer, err := os.MkdirTemp(scratch, "jail")
	check(err)
	check(os.Chmod(outer, 0o755))
	put := func(n, b string, mode os.FileMode) {
		check(os.MkdirAll(filepath.Dir(n), 0o777))
		check(os.WriteFile(n, []byte(b), mode))
		check(os.Chmod(n, mode))
	}
	put(outer+"/secret.txt", marker, 0o644)
	put(outer+"/inside.txt", marker, 0o644)
	put(outer+"/secret.fits", string(image), 0o644)
	put(outer+"/other/a.txt", marker, 0o644)
	j := outer + "/jail"
	put(j+"/a.txt", "a in the jail", 0o644)
	put(j+"/inside.txt", "inside the jail", 0o644)
	put(j+"/img.fits", string(image), 0o644)
	put(j+"/sub/x.txt", "x in the jail", 0o644)
	put(j+"/private.txt", "private", 0o600)
	if decoys {
		for _, d := range []string{"/jail", "/jail/sub", "/other", "/link", "/rlink"} {
			put(j+outer+d+"/a.txt", "decoy", 0o644)
			put(j+d+"/a.txt", "decoy", 0o644)
		}
		put(j+outer+"/secret.txt", "decoy secret", 0o644)
	}
	for l, to := range map[string]string{"abs.txt": "/inside.txt", "up.txt": "../../../../../../../../../../inside.txt", "out.txt": outer + "/secret.txt", "outrel.txt": "../secret.txt", "other.txt": "../other/a.txt",
		"absimg.fits": "/img.fits", "outimg.fits": outer + "/secret.fits", "outimgrel.fits": "../secret.fits"} {
		check(os.Symlink(to, j+"/"+l))
	}
	check(os.Chmod(j, 0o777))
	check(os.Chmod(j+"/sub", 0o777))
	check(os.Symlink(j, outer+"/link"))
	check(os.Symlink("jail", outer+"/rlink"))
	check(os.Symlink("nowhere", outer+"/dangling"))
	check(os.Symlink("loop", outer+"/loop"))
	check(os.MkdirAll(outer+"/with space,%d", 0o755))
	check(os.Symlink("../jail", outer+"/with space,%d/to jail"))
	return outer
}

// spelling is a way to name the jail. OUT stands for the directory the jail is in
type spelling struct {
	cwd, chroot string
	ok          bool
}

var spellings = []spelling{
	{"OUT/jail", "", true}, {"OUT", "OUT/jail", true}, {"OUT", "OUT/jail/", true}, {"OUT", "jail", true}, {"OUT", "./jail", true}, {"OUT", "jail/", true}, {"OUT", "jail/.", true}, {"OUT", "jail/sub/..", true}, {"OUT", "other/../jail", true},
	{"OUT", "link", true}, {"OUT", "rlink", true}, {"OUT", "OUT/link", true}, {"OUT", "OUT/rlink/", true}, {"OUT/jail", ".", true}, {"OUT/jail", "./", true}, {"OUT/jail/sub", "..", true}, {"OUT/jail", "../jail", true}, {"OUT/jail", "OUT/jail", true},
	{"OUT/other", "../jail", true}, {"OUT", "/OUT/jail", true}, {"OUT", "OUT//jail", true}, {"OUT", "with space,%d/to jail", true}, {"OUT", "OUT/with space,%d/to jail", true}, {"OUT/link", ".", true}, {"/", "OUT/jail", true},
	{"OUT", "missing", false}, {"OUT", "OUT/missing", false}, {"OUT", "secret.txt", false}, {"OUT", "OUT/secret.txt", false}, {"OUT", "dangling", false}, {"OUT", "loop", false}, {"OUT", "missing/../jail", false}, {"OUT", "secret.txt/../jail", false}, {"OUT", " jail", false}, {"OUT", "jail ", false},
}

// verify asks the server for everything in its working directory, which is the given directory.
func verify(s *server, outer string, confined, decoys bool, uid int64) error {
	j := outer + "/jail"
	get := func(n string) answer { return s.do("GET", api+n, "") }
	a := get("")
	if want := entries(j); a.err != nil || a.status != 200 || listing(a.body) != want {
		return vx.Fail("directory", "listing %d %q instead of %q, %v", a.status, listing(a.body), want, a.err)
	}
	gone := "" // not to be found
	want := map[string]string{"a.txt": "a in the jail", "inside.txt": "inside the jail", "sub/x.txt": "x in the jail", "private.txt": "private",
		"abs.txt": "inside the jail", "up.txt": "inside the jail", "out.txt": gone, "outrel.txt": gone, "other.txt": gone, "missing.txt": gone, "../secret.txt": gone, "%2e%2e/secret.txt": gone}
	if uid > 0 {
		want["private.txt"] = gone
	}
	if decoys {
		want["out.txt"] = "decoy secret"
		want["other.txt"] = "decoy"
	}
	if !confined {
		want["abs.txt"], want["up.txt"] = gone, gone
		want["out.txt"], want["outrel.txt"], want["other.txt"] = marker, marker, marker
	}
	for n, w := range want {
		a := get(n)
		if a.err != nil || (a.status == 200) != (w != gone) || a.status == 200 && a.body != w {
			return vx.Fail("file", "%s is answered with status %d %.100q, expected %q %v", n, a.status, a.body, w, a.err)
		}
	}
	jobs := map[string]bool{"img.fits": true, "absimg.fits": confined, "outimg.fits": !confined, "outimgrel.fits": !confined}
	for n, ok := range jobs {
		out := "made-" + n
		if a := s.do("POST", "/api/v1/job", job(n, out)); a.err != nil || a.status != 200 {
			return vx.Fail("job", "status %d %v", a.status, a.err)
		}
		i, err := os.Lstat(j + "/" + out)
		if ok != (err == nil) {
			return vx.Fail("job", "job that loads %s: expected to succeed %v, output %v", n, ok, err)
		}
		if err == nil {
			owner := int64(i.Sys().(*syscall.Stat_t).Uid)
			if uid >= 0 && owner != uid || uid < 0 && owner != int64(os.Getuid()) {
				return vx.Fail("user", "output belongs to user %d", owner)
			}
		}
		os.Remove(j + "/" + out)
	}
	// the process itself: no thread keeps another user
	ts, _ := filepath.Glob(fmt.Sprintf("/proc/%d/task/*/status", s.cmd.Process.Pid))
	for _, t := range ts {
		b, err := os.ReadFile(t)
		if err != nil {
			continue
		}
		for _, l := range strings.Split(string(b), "\n") {
			if f := strings.Fields(l); len(f) == 5 && f[0] == "Uid:" && uid >= 0 {
				for _, x := range f[1:] {
					if x != fmt.Sprint(uid) {
						return vx.Fail("user", "a thread has users %v", f[1:])
					}
				}
			}
		}
	}
	return nil
}

func main() {
	vx.Main("P35", "model_checking", func(c *vx.C) {
		c.Rule = "each server is a real process in a user namespace; it is judged by what can be reached through it"
		for p := c.Scratch; strings.HasPrefix(p, "/tmp/") && p != "/tmp"; p = filepath.Dir(p) {
			os.Chmod(p, 0o755)
		}
		os.Chmod(filepath.Dir(os.Getenv("VX_NIGHTLIGHT")), 0o755)
		for _, ids = range []int{65536, 1, 0} {
			if ids == 0 {
				break
			}
			p := exec.Command("/bin/true")
			p.SysProcAttr = namespace()
			if p.Run() == nil {
				break
			}
		}
		unprivileged := &syscall.SysProcAttr{Credential: &syscall.Credential{Uid: 65534, Gid: 65534}, Pdeathsig: syscall.SIGKILL}
		t := exec.Command("/bin/true")
		t.SysProcAttr = unprivileged
		if t.Run() != nil {
			unprivileged = nil
		}
		p := c.Scratch + "/image.fits"
		d := make([]float32, 64)
		for i := range d {
			d[i] = float32(i * 7 % 31)
		}
		check(fits.NewImageFromNaxisn([]int32{8, 8}, d).WriteFile(p))
		image, err := os.ReadFile(p)
		check(err)

		uids := []int64{-1, 0, 1000, 65534, 1, 70000, 1<<32 - 1, 1 << 31, 1 << 32, 1<<32 + 1000, 1<<32 + 65534, 1 << 62}
		if ids == 0 { // no way to try
			c.Bound("no user namespaces here: nothing but refusals")
		}
		c.Bound("%d spellings of the directory, with and without decoys inside, x users %v, of which %d exist; each as superuser of a user namespace and without privileges", len(spellings), uids, ids)
		c.Shards("confinement", len(spellings)*2, func(s *vx.S) {
			sp, decoys := spellings[s.ID/2], s.ID%2 == 1
			for _, uid := range uids {
				for _, privileged := range []bool{true, false} {
					if privileged && ids == 0 || !privileged && unprivileged == nil {
						continue
					}
					s.Check(func() string {
						return fmt.Sprintf("-chroot %q -setuid %d in %s, decoys %v, as superuser %v", sp.chroot, uid, sp.cwd, decoys, privileged)
					}, func() error {
						outer := jail(c.Scratch, image, decoys)
						defer os.RemoveAll(outer)
						sub := func(x string) string { return strings.ReplaceAll(x, "OUT", outer) }
						var flags []string
						if sp.chroot != "" {
							flags = append(flags, "-chroot", sub(sp.chroot))
						}
						if uid >= 0 {
							flags = append(flags, "-setuid", fmt.Sprint(uid))
						}
						attr := namespace()
						expected := sp.ok && uid < int64(ids)
						user := uid
						if !privileged {
							attr = unprivileged
							expected = sp.chroot == "" && (uid == -1 || uid == 65534)
							user = 65534
						}
						srv, err := start(sub(sp.cwd), attr, flags...)
						if err != nil {
							return err
						}
						s.States(1)
						s.Outcome(vx.Hash(srv != nil, uid, s.ID))
						if srv != nil {
							defer srv.stop()
						}
						if (srv != nil) != expected {
							return vx.Fail("started", "the server runs: %v", srv != nil)
						}
						if srv == nil {
							return nil
						}
						s.Transitions(20)
						return verify(srv, outer, sp.chroot != "", decoys && sp.chroot != "", user)
					})
				}
			}
		})
	})
}
