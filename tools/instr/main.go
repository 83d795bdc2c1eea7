// instr rewrites the synchronisation operations of packages so that they are routed to the controlled scheduler vsched.
// The rewriting is purely local (tokens are replaced in place, line numbers stay); memory accesses are left to the race detector.
package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"go/ast"
	"go/importer"
	"go/parser"
	"go/token"
	"go/types"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"
)

const vpath = "github.com/mlnoga/nightlight/internal/zzverif/vsched"

type pkg struct {
	ImportPath, Dir, Export string
	GoFiles                 []string
	ImportMap               map[string]string
}

type edit struct {
	at, end, seq int
	text         string
}

type file struct {
	src   []byte
	fset  *token.FileSet
	info  *types.Info
	edits []edit
	used  map[string]bool
	skip  map[ast.Node]bool
}

func (f *file) off(p token.Pos) int { return f.fset.Position(p).Offset }
func (f *file) ins(p token.Pos, s string) {
	f.edits = append(f.edits, edit{f.off(p), f.off(p), len(f.edits), s})
}
func (f *file) rep(a, b token.Pos, s string) {
	f.edits = append(f.edits, edit{f.off(a), f.off(b), len(f.edits), s})
}
func (f *file) text(n ast.Node) string { return string(f.src[f.off(n.Pos()):f.off(n.End())]) }

func die(format string, a ...interface{}) {
	fmt.Fprintf(os.Stderr, "instr: "+format+"\n", a...)
	os.Exit(2)
}

func main() {
	repo := flag.String("repo", "/repo", "")
	out := flag.String("out", "", "")
	jsonFile := flag.String("json", "", "")
	flag.Parse()
	os.MkdirAll(*out, 0o777)
	args := []string{"list", "-export", "-deps", "-json=ImportPath,Dir,Export,GoFiles,ImportMap"}
	for _, a := range flag.Args() {
		args = append(args, "./"+a)
	}
	cmd := exec.Command("go", args...)
	cmd.Dir = *repo
	cmd.Stderr = os.Stderr
	b, err := cmd.Output()
	if err != nil {
		die("go list: %v", err)
	}
	byPath := map[string]pkg{}
	dec := json.NewDecoder(strings.NewReader(string(b)))
	for {
		var p pkg
		if err := dec.Decode(&p); err == io.EOF {
			break
		} else if err != nil {
			die("go list output: %v", err)
		}
		byPath[p.ImportPath] = p
	}
	repl := map[string]string{}
	fset := token.NewFileSet()
	for _, a := range flag.Args() {
		var p pkg
		for _, q := range byPath {
			if q.Dir == filepath.Join(*repo, a) {
				p = q
			}
		}
		if p.Dir == "" {
			die("package %s not found", a)
		}
		imp := importer.ForCompiler(fset, "gc", func(path string) (io.ReadCloser, error) {
			if m, ok := p.ImportMap[path]; ok {
				path = m
			}
			return os.Open(byPath[path].Export)
		})
		var files []*ast.File
		srcs := [][]byte{}
		for _, g := range p.GoFiles {
			src, err := os.ReadFile(filepath.Join(p.Dir, g))
			if err != nil {
				die("%v", err)
			}
			af, err := parser.ParseFile(fset, filepath.Join(p.Dir, g), src, parser.ParseComments|parser.SkipObjectResolution)
			if err != nil {
				die("%v", err)
			}
			files = append(files, af)
			srcs = append(srcs, src)
		}
		info := &types.Info{Types: map[ast.Expr]types.TypeAndValue{}, Selections: map[*ast.SelectorExpr]*types.Selection{}, Uses: map[*ast.Ident]types.Object{}}
		conf := types.Config{Importer: imp, Sizes: types.SizesFor("gc", "amd64")}
		if _, err := conf.Check(p.ImportPath, fset, files, info); err != nil {
			die("type check: %v", err)
		}
		for i, af := range files {
			f := &file{src: srcs[i], fset: fset, info: info, used: map[string]bool{}, skip: map[ast.Node]bool{}}
			f.walk(af)
			if len(f.edits) == 0 {
				continue
			}
			if strings.Contains(string(f.src[:f.off(af.Package)]), "//go:build") {
				fmt.Fprintf(os.Stderr, "instr: %s has build constraints, left as is\n", p.GoFiles[i])
				continue
			}
			o := filepath.Join(*out, strings.ReplaceAll(a, "/", "_")+"_"+p.GoFiles[i])
			if err := os.WriteFile(o, f.render(af), 0o666); err != nil {
				die("%v", err)
			}
			repl[filepath.Join(p.Dir, p.GoFiles[i])] = o
		}
	}
	j, _ := json.Marshal(repl)
	os.WriteFile(*jsonFile, j, 0o666)
}

func (f *file) render(af *ast.File) []byte {
	sort.SliceStable(f.edits, func(i, j int) bool {
		if f.edits[i].at != f.edits[j].at {
			return f.edits[i].at < f.edits[j].at
		}
		return f.edits[i].seq < f.edits[j].seq
	})
	var b strings.Builder
	name := f.fset.Position(af.Package).Filename
	fmt.Fprintf(&b, "//go:build go1.21\n\n//line %s:1\n", name)
	pos := 0
	pkgEnd := f.off(af.Name.End())
	imported := false
	for _, e := range f.edits {
		if e.at < pos {
			die("overlapping edits in %s at offset %d (%q)", name, e.at, e.text)
		}
		if !imported && e.at >= pkgEnd {
			b.Write(f.src[pos:pkgEnd])
			b.WriteString("; import vsched \"" + vpath + "\"")
			pos, imported = pkgEnd, true
		}
		b.Write(f.src[pos:e.at])
		b.WriteString(e.text)
		pos = e.end
	}
	b.Write(f.src[pos:])
	b.WriteString("\n")
	var us []string
	for u := range f.used {
		us = append(us, u)
	}
	sort.Strings(us)
	for _, u := range us {
		b.WriteString("var _ = " + u + "\n")
	}
	b.WriteString("var _ = vsched.Yield\n")
	return []byte(b.String())
}

func isChan(t types.Type) bool {
	if t == nil {
		return false
	}
	_, ok := t.Underlying().(*types.Chan)
	return ok
}

// fn returns the full name of the called function, e.g. "(*sync.Mutex).Lock" or "time.Sleep".
func (f *file) fn(c *ast.CallExpr) string {
	switch x := ast.Unparen(c.Fun).(type) {
	case *ast.SelectorExpr:
		if o, ok := f.info.Uses[x.Sel].(*types.Func); ok {
			return o.FullName()
		}
	case *ast.Ident:
		switch o := f.info.Uses[x].(type) {
		case *types.Func:
			return o.FullName()
		case *types.Builtin:
			return "builtin." + o.Name()
		}
	}
	return ""
}

// recv rewrites the receiver part of a method call X.M(args) into prefix(&X, args), leaving X and args in place.
func (f *file) method(c *ast.CallExpr, to string) {
	sel := ast.Unparen(c.Fun).(*ast.SelectorExpr)
	s := f.info.Selections[sel]
	if s == nil {
		return
	}
	path := ""
	t := s.Recv()
	for _, i := range s.Index()[:len(s.Index())-1] {
		if p, ok := t.Underlying().(*types.Pointer); ok {
			t = p.Elem()
		}
		fl := t.Underlying().(*types.Struct).Field(i)
		path += "." + fl.Name()
		t = fl.Type()
	}
	amp := "&"
	if _, ok := t.Underlying().(*types.Pointer); ok {
		amp = ""
	}
	if _, ok := t.Underlying().(*types.Interface); ok {
		return
	}
	f.ins(c.Pos(), "vsched."+to+"("+amp)
	sep := ""
	if len(c.Args) > 0 {
		sep = ", "
	}
	f.rep(sel.X.End(), c.Lparen+1, path+sep)
}

var methods = map[string]string{
	"(*sync.Mutex).Lock": "Lock", "(*sync.Mutex).Unlock": "Unlock", "(*sync.Mutex).TryLock": "TryLock",
	"(*sync.RWMutex).Lock": "RWLock", "(*sync.RWMutex).Unlock": "RWUnlock", "(*sync.RWMutex).RLock": "RLock", "(*sync.RWMutex).RUnlock": "RUnlock",
	"(*sync.WaitGroup).Add": "WgAdd", "(*sync.WaitGroup).Done": "WgDone", "(*sync.WaitGroup).Wait": "WgWait", "(*sync.WaitGroup).Go": "WgGo",
	"(*sync.Once).Do": "OnceDo",
}

var funcs = map[string]string{"time.Sleep": "Sleep", "runtime.Gosched": "Yield", "runtime.NumCPU": "NumCPU", "runtime.GOMAXPROCS": "GOMAXPROCS",
	"runtime/debug.FreeOSMemory": "FreeOSMemory",
	"math/rand.Perm": "Perm", "math/rand/v2.Perm": "Perm", "math/rand.Shuffle": "Shuffle", "math/rand/v2.Shuffle": "Shuffle"}

func (f *file) walk(root ast.Node) {
	var stack []ast.Node
	ast.Inspect(root, func(n ast.Node) bool {
		if n == nil {
			stack = stack[:len(stack)-1]
			return true
		}
		var parent ast.Node
		if len(stack) > 0 {
			parent = stack[len(stack)-1]
		}
		stack = append(stack, n)
		switch x := n.(type) {
		case *ast.SendStmt:
			if f.skip[x] {
				return true
			}
			f.ins(x.Pos(), "vsched.Send(")
			f.rep(x.Arrow, x.Arrow+2, ",")
			f.insEnd(x.End(), ")")
		case *ast.UnaryExpr:
			if x.Op != token.ARROW || f.skip[x] {
				return true
			}
			two := false
			switch p := parent.(type) {
			case *ast.AssignStmt:
				two = len(p.Lhs) == 2 && len(p.Rhs) == 1
			case *ast.ValueSpec:
				two = len(p.Names) == 2 && len(p.Values) == 1
			}
			if two {
				f.rep(x.OpPos, x.OpPos+2, "vsched.Recv2(")
			} else {
				f.rep(x.OpPos, x.OpPos+2, "vsched.Recv(")
			}
			f.insEnd(x.End(), ")")
		case *ast.RangeStmt:
			if isChan(f.info.Types[x.X].Type) {
				tok := x.Tok.String()
				switch {
				case x.Key == nil:
					f.rep(x.For, x.X.Pos(), "for { _, _vok := vsched.Recv2(")
				case tok == ":=":
					f.rep(x.For, x.X.Pos(), "for { "+f.text(x.Key)+", _vok := vsched.Recv2(")
				default:
					f.rep(x.For, x.X.Pos(), "for { var _vok bool; "+f.text(x.Key)+", _vok = vsched.Recv2(")
				}
				f.rep(x.X.End(), x.Body.Lbrace+1, "); if !_vok { break };")
			}
		case *ast.SelectStmt:
			def := "false"
			cases := ""
			for _, s := range x.Body.List {
				cc := s.(*ast.CommClause)
				switch y := cc.Comm.(type) {
				case nil:
					def = "true"
				case *ast.SendStmt:
					f.skip[y] = true
					cases += ", vsched.CaseSend(" + f.text(y.Chan) + ")"
				default:
					ast.Inspect(y, func(m ast.Node) bool {
						if u, ok := m.(*ast.UnaryExpr); ok && u.Op == token.ARROW && !f.skip[u] {
							f.skip[u] = true
							cases += ", vsched.CaseRecv(" + f.text(u.X) + ")"
							return false
						}
						return true
					})
				}
			}
			if _, ok := parent.(*ast.LabeledStmt); !ok {
				f.ins(x.Pos(), "vsched.Select("+def+cases+"); ")
			}
		case *ast.GoStmt:
			f.goStmt(x)
		case *ast.CallExpr:
			name := f.fn(x)
			if to, ok := methods[name]; ok {
				f.method(x, to)
				return true
			}
			if to, ok := funcs[name]; ok {
				if sel, ok := ast.Unparen(x.Fun).(*ast.SelectorExpr); ok {
					f.used[f.text(sel)] = true
					f.rep(x.Fun.Pos(), x.Fun.End(), "vsched."+to)
				}
				return true
			}
			if name == "builtin.close" {
				f.rep(x.Fun.Pos(), x.Fun.End(), "vsched.Close")
			}
			if strings.HasPrefix(name, "sync/atomic.") || strings.HasPrefix(name, "(*sync/atomic.") {
				if _, stmt := parent.(*ast.ExprStmt); !stmt {
					if _, isDefer := parent.(*ast.DeferStmt); !isDefer {
						f.ins(x.Pos(), "vsched.Y(")
						f.insEnd(x.End(), ")")
					}
				}
			}
		}
		return true
	})
}

// insEnd inserts after everything already placed at this offset by enclosing nodes is kept outside: nested nodes close first.
func (f *file) insEnd(p token.Pos, s string) {
	// nested constructs are visited later, their closing text must come first
	f.edits = append(f.edits, edit{f.off(p), f.off(p), -1 - len(f.edits), s})
}

func (f *file) goStmt(x *ast.GoStmt) {
	c := x.Call
	plain := false
	if f.fn(c) != "" && strings.HasPrefix(f.fn(c), "builtin.") {
		plain = true
	}
	if tv, ok := f.info.Types[c.Fun]; ok && tv.IsType() {
		plain = true
	}
	if _, managed := methods[f.fn(c)]; managed || plain {
		f.rep(x.Go, x.Go+2, "vsched.Go(func() {")
		f.insEnd(x.End(), "})")
		return
	}
	f.rep(x.Go, x.Go+2, "{ _vf :=")
	call := "_vf("
	if len(c.Args) == 0 {
		f.rep(c.Lparen, c.Rparen+1, "; vsched.Go(func() { _vf() }) }")
		return
	}
	prev := c.Lparen
	for i, a := range c.Args {
		tv := f.info.Types[a]
		if i > 0 {
			call += ", "
		}
		if tv.Value != nil || tv.IsNil() {
			f.rep(prev, a.End(), "")
			call += f.text(a)
		} else {
			f.rep(prev, a.Pos(), fmt.Sprintf("; _v%d := ", i))
			call += fmt.Sprintf("_v%d", i)
		}
		prev = a.End()
	}
	if c.Ellipsis.IsValid() {
		call += "..."
	}
	f.rep(prev, c.Rparen+1, "; vsched.Go(func() { "+call+") }) }")
}
