package main

import (
	"encoding/binary"
	"encoding/json"
	"fmt"
	"io"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"syscall"

	"github.com/mlnoga/nightlight/internal/fits"
	"github.com/mlnoga/nightlight/internal/ops"
	"github.com/mlnoga/nightlight/internal/ops/pre"
	"github.com/mlnoga/nightlight/internal/ops/ref"
	"github.com/mlnoga/nightlight/internal/stats"
	"github.com/mlnoga/nightlight/internal/zzverif/vx"
)

const side = 8

// node is a file or directory of the tree, as the test knows it.
type node struct {
	dirs  map[string]*node
	value int // for files, the number stored in it
}

// inside is what the working directory contains.
var inside = &node{dirs: map[string]*node{
	"a.fits":      {value: 1},
	"b.fits":      {value: 2},
	"c.fits":      {value: 3},
	"..a":         {value: 4},
	"a..b.fits":   {value: 5},
	".h.fits":     {value: 6},
	"\\..":        {value: 7},
	"a b.fits":    {value: 8},
	"~":           {value: 9},
	"...":         {dirs: map[string]*node{"a.fits": {value: 10}}},
	"sub":         {dirs: map[string]*node{"a.fits": {value: 11}, "b.fits": {value: 12}, "sub": {dirs: map[string]*node{"a.fits": {value: 13}, "..a": {value: 14}, "sub": {dirs: map[string]*node{"a.fits": {value: 15}}}}}}},
	"s":           {dirs: map[string]*node{"a.fits": {value: 16}, "d.fits": {value: 17}}},
	"s2":          {dirs: map[string]*node{"d.fits": {value: 18}}},
	"[ab].fits":   {value: 19},
	"%7Ea.fits":   {value: 20},
	"*":           {dirs: map[string]*node{"a.fits": {value: 21}}},
	"outside.txt": {dirs: map[string]*node{}},
}}

// pixels are the pixel values of file number v.
func pixels(v int) []float32 {
	d := make([]float32, side*side)
	for i := range d {
		d[i] = 64
	}
	d[0] = float32(v)
	d[side+1] = 65
	return d
}

func write(name string, v int) {
	f := fits.NewImageFromNaxisn([]int32{side, side}, pixels(v))
	if err := f.WriteFile(name); err != nil {
		panic(err)
	}
}

func build(dir string, n *node) {
	if err := os.MkdirAll(dir, 0755); err != nil {
		panic(err)
	}
	for name, c := range n.dirs {
		if c.dirs != nil {
			build(dir+"/"+name, c)
		} else {
			write(dir+"/"+name, c.value)
		}
	}
}

// watcher notices files being opened in the given directories.
type watcher struct {
	fd   int
	dirs map[int32]string
	buf  []byte
}

func watch(dirs []string) *watcher {
	fd, err := syscall.InotifyInit1(syscall.IN_NONBLOCK)
	if err != nil {
		panic(err)
	}
	w := &watcher{fd: fd, dirs: map[int32]string{}, buf: make([]byte, 1<<16)}
	for _, d := range dirs {
		wd, err := syscall.InotifyAddWatch(fd, d, syscall.IN_OPEN|syscall.IN_ACCESS|syscall.IN_MODIFY|syscall.IN_DELETE)
		if err != nil {
			panic(err)
		}
		w.dirs[int32(wd)] = d
	}
	return w
}

// opened lists the files opened since the last call.
func (w *watcher) opened() (l []string) {
	for {
		n, err := syscall.Read(w.fd, w.buf)
		if err != nil || n <= 0 {
			return l
		}
		for b := w.buf[:n]; len(b) >= 16; {
			wd, mask, size := int32(binary.LittleEndian.Uint32(b)), binary.LittleEndian.Uint32(b[4:]), binary.LittleEndian.Uint32(b[12:])
			name := strings.TrimRight(string(b[16:16+size]), "\x00")
			b = b[16+size:]
			if mask&syscall.IN_ISDIR == 0 {
				l = append(l, w.dirs[wd]+"/"+name)
			}
		}
	}
}

// match is matching of shell wildcards, for the patterns used here.
func match(pat, s string) bool {
	if pat == "" {
		return s == ""
	}
	switch pat[0] {
	case '*':
		for i := 0; i <= len(s); i++ {
			if match(pat[1:], s[i:]) {
				return true
			}
		}
		return false
	case '?':
		return s != "" && match(pat[1:], s[1:])
	case '[':
		end := strings.IndexByte(pat, ']')
		return s != "" && strings.IndexByte(pat[1:end], s[0]) >= 0 && match(pat[end+1:], s[1:])
	case '\\':
		return len(pat) > 1 && s != "" && s[0] == pat[1] && match(pat[2:], s[1:])
	}
	return s != "" && s[0] == pat[0] && match(pat[1:], s[1:])
}

// forbidden says that a name is absolute or goes through a parent directory.
func forbidden(name string) bool {
	if strings.HasPrefix(name, "/") {
		return true
	}
	for _, c := range strings.Split(name, "/") {
		if c == ".." {
			return true
		}
	}
	return false
}

// undecided says that the program may refuse a name: it contains two dots, but not as a parent directory.
func undecided(name string) bool { return strings.Contains(name, "..") }

type found struct {
	path  string
	value int // 0 for directories
}

// resolve lists what a name or pattern refers to in the tree.
// A pattern like "x/../y" may be refused, or be taken as "y": then the file is not read through the parent directory.
func resolve(name string, glob bool) (l []found) {
	comps := strings.Split(name, "/")
	mustDir := comps[len(comps)-1] == "" || comps[len(comps)-1] == "." // the last directory itself
	type at struct {
		n    *node
		path string
		up   *at
	}
	cur := []at{{inside, "", nil}}
	for _, c := range comps {
		if c == "" || c == "." {
			var next []at
			for _, a := range cur {
				if a.n.dirs != nil {
					next = append(next, a)
				}
			}
			cur = next
			continue
		}
		var next []at
		for i := range cur {
			a := &cur[i]
			if c == ".." {
				if a.n.dirs != nil && a.up != nil {
					next = append(next, *a.up)
				}
				continue
			}
			var names []string
			for n := range a.n.dirs {
				if n == c && !glob || glob && match(c, n) {
					names = append(names, n)
				}
			}
			sort.Strings(names)
			for _, n := range names {
				next = append(next, at{a.n.dirs[n], a.path + "/" + n, a})
			}
		}
		cur = next
	}
	for _, a := range cur {
		if mustDir && a.n.dirs == nil {
			continue
		}
		l = append(l, found{a.path, a.n.value})
	}
	return l
}

func newContext() *ops.Context {
	c := ops.NewContext(io.Discard, 100, stats.LSEMeanStdDev)
	c.MaxThreads = 1
	return c
}

func input() (*fits.Image, error) {
	d := make([]float32, side*side)
	for i := range d {
		d[i] = 4096
	}
	d[side+1] = 4100
	return fits.NewImageFromNaxisn([]int32{side, side}, d), nil
}

// run executes a step with one input frame, or none.
func run(o ops.Operator, withInput bool) (c *ops.Context, fs []*fits.Image, errs []error, err error) {
	c = newContext()
	var ins []ops.Promise
	if withInput {
		ins = []ops.Promise{input}
	}
	outs, err := o.MakePromises(ins, c)
	if err != nil {
		return c, nil, nil, err
	}
	for _, p := range outs {
		f, err := p()
		fs, errs = append(fs, f), append(errs, err)
	}
	return c, fs, errs, nil
}

// used finds out which file a step has used with its single output, 0 for none.
type user struct {
	name string
	make func(name string) ops.Operator
	ins  bool
	used func(c *ops.Context, f *fits.Image) (int, error)
}

func whole(x float32) (int, error) {
	if x < 0.9 || x > 63.1 || x-float32(int(x+0.5)) > 0.01 || float32(int(x+0.5))-x > 0.01 {
		return 0, fmt.Errorf("value %v is not from a file", x)
	}
	return int(x + 0.5), nil
}

var users = []user{
	{"load", func(n string) ops.Operator { return ops.NewOpLoad(7, n) }, false, func(c *ops.Context, f *fits.Image) (int, error) {
		if f.ID != 7 {
			return 0, fmt.Errorf("ID is %d", f.ID)
		}
		return whole(f.Data[0])
	}},
	{"dark", func(n string) ops.Operator { return pre.NewOpCalibrate(n, "") }, true, func(c *ops.Context, f *fits.Image) (int, error) {
		return whole(4096 - f.Data[0])
	}},
	{"flat", func(n string) ops.Operator { return pre.NewOpCalibrate("", n) }, true, func(c *ops.Context, f *fits.Image) (int, error) {
		return whole(64 * f.Data[1] / f.Data[0])
	}},
	{"reference", func(n string) ops.Operator {
		return ref.NewOpSelectReference(ref.SRHisto, n, pre.NewOpStarDetect(1, 10, -1, 1.4, ""))
	}, true, func(c *ops.Context, f *fits.Image) (int, error) {
		if c.MatchHisto == nil {
			return 0, fmt.Errorf("no reference")
		}
		return whole(c.MatchHisto.Min())
	}},
	{"alignment reference", func(n string) ops.Operator {
		return ref.NewOpSelectReference(ref.SRAlign, n, pre.NewOpStarDetect(1, 10, -1, 1.4, ""))
	}, true, func(c *ops.Context, f *fits.Image) (int, error) {
		if c.AlignStars == nil {
			return 0, fmt.Errorf("no reference")
		}
		return 0, nil // not told
	}},
}

// parts are the components names are built from.
var parts = []string{"", ".", "..", "...", "..a", "a..b.fits", "a.fits", "sub", "s", "*", "?.fits", "[ab].fits", "*.fits", ".*", "s*", "\\..", ".\\.", "[.][.]", "~", "..\\", "a b.fits", "%7Ea.fits", "x"}

func names(depth int) (l []string) {
	var rec func(prefix string, depth int)
	rec = func(prefix string, depth int) {
		for _, p := range parts {
			l = append(l, prefix+p)
			if depth > 1 {
				rec(prefix+p+"/", depth-1)
			}
		}
	}
	rec("", depth)
	return l
}

func main() {
	vx.Main("P22", "model_checking", func(c *vx.C) {
		stats.LSEstimator = stats.LSEMeanStdDev

		// directories around the working directory, with files of the same names
		root, err := filepath.EvalSymlinks(c.Scratch)
		if err != nil {
			panic(err)
		}
		root += "/w"
		dir := root
		outside := []string{dir}
		for _, d := range []string{"o1", "o2", "o3", "o4"} {
			dir += "/" + d
			outside = append(outside, dir)
		}
		inner := dir + "/in"
		build(inner, inside)
		v := 30
		for _, d := range append([]string{}, outside...) {
			for _, s := range []string{"", "/sub", "/in2"} {
				os.MkdirAll(d+s, 0755)
				for _, n := range []string{"a.fits", "b.fits", "..a"} {
					write(d+s+"/"+n, v)
				}
				v++
				if s != "" {
					outside = append(outside, d+s)
				}
			}
		}
		if err := os.Chdir(inner); err != nil {
			panic(err)
		}
		w := watch(outside)
		w.opened()
		// the watcher sees what it should
		if f, err := os.Open("../a.fits"); err != nil {
			panic(err)
		} else {
			f.Close()
		}
		if l := w.opened(); len(l) != 1 || l[0] != outside[4]+"/a.fits" {
			panic(fmt.Sprint("files opened are not observed: ", l))
		}

		depth, depthMany := 3, 3
		if c.Thorough {
			depth, depthMany = 4, 4
		}
		all := names(depth)
		for _, n := range names(2) {
			all = append(all, "/"+n, "//"+n, inner+"/"+n, root+"/o1/"+n, "./../in/"+n, "sub/../"+n, "../../../../../w/o1/"+n)
		}
		all = append(all, inner, root, "/", "//", "\\/a.fits", "a.fits\x00", "../a.fits\x00", "C:\\a.fits", "file://"+inner+"/a.fits", "file:a.fits", strings.Repeat("sub/", 3)+"a.fits", strings.Repeat("./", 500)+"a.fits", strings.Repeat("x", 300))

		// steps that read one file
		c.Serial("single", 1, func(s *vx.S) {
			for _, u := range users {
				for _, name := range all {
					if u.name != "load" && name == "" {
						continue // no file requested
					}
					s.States(1)
					s.Check(func() string { return fmt.Sprintf("%s from %q", u.name, name) }, func() error {
						w.opened()
						ctx, fs, errs, err := run(u.make(name), u.ins)
						if l := w.opened(); len(l) > 0 {
							return vx.Fail("outside", "reads %v", l)
						}
						if err == nil && len(fs) != 1 {
							return vx.Fail("outputs", "%d", len(fs))
						}
						if err == nil {
							err = errs[0]
						}
						files := resolve(name, false)
						if forbidden(name) {
							if err == nil {
								return vx.Fail("refuse", "no error")
							}
							return nil
						}
						if err != nil {
							if len(files) == 1 && files[0].value > 0 && !undecided(name) {
								return vx.Fail("refused", "%v", err)
							}
							return nil
						}
						if len(files) != 1 || files[0].value == 0 {
							return vx.Fail("missing", "no error, although there is no such file")
						}
						k, err := u.used(ctx, fs[0])
						if err != nil {
							return vx.Fail("unused", "%v", err)
						}
						s.Transitions(1)
						s.Outcome(uint64(k))
						if k != files[0].value && u.name != "alignment reference" {
							return vx.Fail("other", "used file with value %d, expected %d", k, files[0].value)
						}
						return nil
					})
				}
			}
			c.Bound("%d names for each of %d steps which read a file", len(all), len(users))
		})

		many := func(s *vx.S, patterns []string, viaJSON bool) error {
			w.opened()
			var o ops.Operator = ops.NewOpLoadMany(patterns)
			if viaJSON {
				b, err := json.Marshal(map[string]interface{}{"type": "seq", "steps": []interface{}{map[string]interface{}{"type": "loadMany", "filePatterns": patterns}}})
				if err != nil {
					return vx.Fail("json", "%v", err)
				}
				var q ops.OpSequence
				if err := json.Unmarshal(b, &q); err != nil {
					return vx.Fail("json", "%v", err)
				}
				o = &q
			}
			_, fs, errs, err := run(o, false)
			if l := w.opened(); len(l) > 0 {
				return vx.Fail("outside", "reads %v", l)
			}
			var must, may []found
			for _, p := range patterns {
				if strings.HasPrefix(p, "/") {
					continue
				}
				for _, f := range resolve(p, true) {
					may = append(may, f)
					if f.value > 0 && !undecided(f.path) && !undecided(p) && !strings.Contains(p, "//") && !strings.Contains(p, "/./") { // the library does not expand wildcards before these
						must = append(must, f)
					}
				}
			}
			if err != nil {
				if len(must) > 0 {
					return vx.Fail("refused", "%v, expected %v", err, must)
				}
				return nil
			}
			if len(fs) == 0 {
				return vx.Fail("empty", "no error, although there are no files")
			}
			s.Transitions(len(fs))
			s.Outcome(vx.Hash([]byte(fmt.Sprint(may, must, len(fs)))))
			// outputs have to be in the order of may, and contain all of must
			j, m := 0, 0
			for i, f := range fs {
				if errs[i] != nil { // only for directories
					for j < len(may) && may[j].value != 0 {
						if m < len(must) && must[m] == may[j] {
							return vx.Fail("failed", "output %d fails with %v, expected files %v", i, errs[i], may)
						}
						j++
					}
					if j == len(may) {
						return vx.Fail("failed", "output %d fails with %v, expected files %v", i, errs[i], may)
					}
				} else {
					if f.ID != i {
						return vx.Fail("number", "output %d has number %d", i, f.ID)
					}
					k, err := whole(f.Data[0])
					if err != nil {
						return vx.Fail("content", "%v", err)
					}
					for j < len(may) && may[j].value != k {
						if m < len(must) && must[m] == may[j] {
							return vx.Fail("files", "output %d is file number %d, expected files %v", i, k, may)
						}
						j++
					}
					if j == len(may) {
						return vx.Fail("files", "output %d is file number %d, expected files %v", i, k, may)
					}
				}
				if m < len(must) && must[m] == may[j] {
					m++
				}
				j++
			}
			if m < len(must) {
				return vx.Fail("lost", "%d files, expected %v", len(fs), must)
			}
			return nil
		}
		manyNames := names(depthMany)
		for _, n := range names(2) {
			manyNames = append(manyNames, "/"+n, "//"+n, inner+"/"+n, root+"/o1/"+n, root+"/*/"+n, "../in/"+n, "./../*/"+n, "sub/../"+n, "*/../"+n, "*/../../*/"+n)
		}
		c.Serial("patterns", 1, func(s *vx.S) {
			for _, n := range manyNames {
				s.States(1)
				s.Check(func() string { return fmt.Sprintf("loading %q", n) }, func() error { return many(s, []string{n}, false) })
			}
			c.Bound("%d patterns", len(manyNames))
		})
		menu := []string{"a.fits", "b.fits", "*.fits", "s*/*.fits", "../a.fits", "../*.fits", inner + "/a.fits", "nope*.fits", "sub/[ab].fits", "..*", "./c.fits", "sub", ""}
		c.Serial("lists", 1, func(s *vx.S) {
			max := 3
			if c.Thorough {
				max = 4
			}
			var l []string
			var rec func()
			rec = func() {
				ps := append([]string{}, l...)
				for _, via := range []bool{false, true} {
					s.States(1)
					s.Check(func() string { return fmt.Sprintf("loading all of %q", ps) }, func() error { return many(s, ps, via) })
				}
				if len(l) < max {
					for _, p := range menu {
						l = append(l, p)
						rec()
						l = l[:len(l)-1]
					}
				}
			}
			rec()
			for _, n := range []int{7, 16, 33, 70, 129, 300} {
				for start := range menu {
					for step := 1; step < len(menu); step += 3 {
						var ps []string
						for i := 0; i < n; i++ {
							ps = append(ps, menu[(start+i*step)%len(menu)])
						}
						s.Check(func() string { return fmt.Sprintf("loading all of %q", ps) }, func() error { return many(s, ps, n%2 == 0) })
					}
				}
			}
			c.Bound("all lists of up to %d of %d patterns, directly and from a job", max, len(menu))
		})
	})
}
