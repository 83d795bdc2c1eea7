package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"math"
	"os"
	"os/exec"
	"reflect"
	"regexp"
	"sort"
	"strconv"
	"strings"

	"github.com/mlnoga/nightlight/internal/ops"
	_ "github.com/mlnoga/nightlight/internal/ops/hsl"
	"github.com/mlnoga/nightlight/internal/ops/post"
	_ "github.com/mlnoga/nightlight/internal/ops/pre"
	"github.com/mlnoga/nightlight/internal/ops/ref"
	_ "github.com/mlnoga/nightlight/internal/ops/rgb"
	"github.com/mlnoga/nightlight/internal/ops/stack"
	_ "github.com/mlnoga/nightlight/internal/ops/stretch"
	"github.com/mlnoga/nightlight/internal/zzverif/vx"
)

// what the editor offers, and programs composed of it
type field struct {
	Name, Kind          string
	Options             [][]interface{}
	Min, Max, Precision *float64
	Value               interface{}
}
type definition struct {
	Type       string
	Statements []string
	Fields     []field
}
type block struct {
	Type     string                 `json:"type"`
	Fields   map[string]interface{} `json:"fields,omitempty"`
	Inputs   map[string]*block      `json:"inputs,omitempty"`
	Next     *block                 `json:"next,omitempty"`
	Disabled bool                   `json:"disabled,omitempty"`
}
type program struct {
	Tops []*block `json:"tops"`
}
type page struct {
	URL     string  `json:"url"`
	Program program `json:"program"`
	Chunks  [][]int `json:"chunks"`
}
type request struct {
	Programs []program `json:"programs"`
	Pages    []page    `json:"pages"`
}
type answer struct {
	Blocks  []definition
	Toolbox []string
	Codes   []code
	Pages   []struct {
		Error, URL string
		Fetched    []struct{ URL, Method, ContentType, Body string }
		Alerts     []string
		Shown, Log []string
	}
	Fatal string
}
type code struct {
	Code, Error string
	Values      map[string]interface{} // of the fields of the first block
}

func web() string {
	if r := os.Getenv("VX_REPO"); r != "" {
		return r + "/web"
	}
	return "/repo/web"
}

// editor runs the scripts of the editor.
func editor(scratch string, r request) (a answer) {
	f, err := os.CreateTemp(scratch, "request")
	if err != nil {
		panic(err)
	}
	defer os.Remove(f.Name())
	if err := json.NewEncoder(f).Encode(r); err != nil {
		panic(err)
	}
	f.Close()
	cmd := exec.Command("node", os.Getenv("VERIF_DIR")+"/mc/p33/editor.js", web(), f.Name())
	var stderr bytes.Buffer
	cmd.Stderr = &stderr
	out, err := cmd.Output()
	if err != nil {
		panic(fmt.Sprintf("node: %v %s", err, stderr.String()))
	}
	if err := json.Unmarshal(out, &a); err != nil {
		panic(fmt.Sprintf("node: %v %.300s", err, out))
	}
	return a
}

// decode reads a job like the server does, and returns it as generic JSON.
func decode(c code) (steps []interface{}, err error) {
	if c.Error != "" {
		return nil, vx.Fail("generator", "the editor fails: %s", c.Error)
	}
	var op ops.OpSequence
	if err := json.Unmarshal([]byte(c.Code), &op); err != nil {
		return nil, vx.Fail("refused", "job %s is refused: %v", c.Code, err)
	}
	b, err := json.Marshal(&op)
	if err != nil {
		return nil, vx.Fail("refused", "job %s cannot be printed: %v", c.Code, err)
	}
	var m map[string]interface{}
	if err := json.Unmarshal(b, &m); err != nil {
		return nil, vx.Fail("refused", "job %s is printed as %s: %v", c.Code, b, err)
	}
	steps, _ = m["steps"].([]interface{})
	return steps, nil
}

func single(c code) (map[string]interface{}, error) {
	steps, err := decode(c)
	if err != nil {
		return nil, err
	}
	if len(steps) != 1 {
		return nil, vx.Fail("steps", "job %s has %d steps", c.Code, len(steps))
	}
	return steps[0].(map[string]interface{}), nil
}

// leaves lists the parameters of a step by name.
func leaves(m map[string]interface{}) map[string]interface{} {
	l := map[string]interface{}{}
	for k, v := range m {
		if a, ok := v.([]interface{}); ok && len(a) == 1 {
			v = a[0]
		}
		l[k] = v
	}
	return l
}

func differing(a, b map[string]interface{}) (l []string) {
	for k := range a {
		if !reflect.DeepEqual(a[k], b[k]) {
			l = append(l, k)
		}
	}
	for k := range b {
		if _, ok := a[k]; !ok {
			l = append(l, k)
		}
	}
	sort.Strings(l)
	return l
}

// meaning of labels, by type of step and parameter
var meanings = map[string][]struct {
	re *regexp.Regexp
	v  interface{}
}{
	"stack.mode": {
		{regexp.MustCompile(`(?i)\bMAD\b`), int(stack.StMADSigma)}, {regexp.MustCompile(`(?i)^median`), int(stack.StMedian)}, {regexp.MustCompile(`(?i)winsor`), int(stack.StWinsorSigma)},
		{regexp.MustCompile(`(?i)^sigma`), int(stack.StSigma)}, {regexp.MustCompile(`(?i)^mean`), int(stack.StMean)}, {regexp.MustCompile(`(?i)linear`), int(stack.StLinearFit)}, {regexp.MustCompile(`(?i)^auto`), int(stack.StAuto)}},
	"stack.weighting": {
		{regexp.MustCompile(`(?i)equal`), int(stack.StWeightNone)}, {regexp.MustCompile(`(?i)exposure`), int(stack.StWeightExposure)}, {regexp.MustCompile(`(?i)noise`), int(stack.StWeightInverseNoise)}, {regexp.MustCompile(`(?i)HFR`), int(stack.StWeightInverseHFR)}},
	"matchHist.mode": {
		{regexp.MustCompile(`(?i)disabled`), int(post.HNMNone)}, {regexp.MustCompile(`(?i)black`), int(post.HNMLocBlack)}, {regexp.MustCompile(`(?i)location and scale`), int(post.HNMLocScale)}, {regexp.MustCompile(`(?i)^location`), int(post.HNMLocation)}},
	"align.oobMode": {
		{regexp.MustCompile(`(?i)not-a-number|NaN`), int(post.OOBModeNaN)}, {regexp.MustCompile(`(?i)reference`), int(post.OOBModeRefLocation)}, {regexp.MustCompile(`(?i)this frame|own`), int(post.OOBModeOwnLocation)}},
	"selectRef.target": {
		{regexp.MustCompile(`(?i)^align`), int(ref.SRAlign)}, {regexp.MustCompile(`(?i)^hist`), int(ref.SRHisto)}},
	"selectRef.mode": {
		{regexp.MustCompile(`(?i)HFR`), "%starsHFR"}, {regexp.MustCompile(`(?i)location`), "%location"}, {regexp.MustCompile(`(?i)RGB`), "%rgb"}},
	"debayer.channel": {
		{regexp.MustCompile(`(?i)^no`), ""}, {regexp.MustCompile(`(?i)^red`), "R"}, {regexp.MustCompile(`(?i)^green`), "G"}, {regexp.MustCompile(`(?i)^blue`), "B"}},
	"hslScaleOffsetChannel.channelID": {
		{regexp.MustCompile(`(?i)^hue`), 0}, {regexp.MustCompile(`(?i)^sat`), 1}, {regexp.MustCompile(`(?i)^lum`), 2}},
}

func same(got, want interface{}) bool {
	switch w := want.(type) {
	case int:
		g, ok := got.(float64)
		return ok && g == float64(w)
	case float64:
		g, ok := got.(float64)
		return ok && float32(g) == float32(w)
	}
	return reflect.DeepEqual(got, want)
}

// choice is a value of a field.
type choice struct {
	label string
	value interface{}
}

var texts = []string{"", "x.fits", "a b/c.fits", "q\"\\'/<&>é 星 😀.fits", "%starsHFR", "out%04d.fits", "[a-z]?*.fits", "null", "7", "{}", "\t", "\u2028", strings.Repeat("long", 100)}

func (f field) choices() (l []choice) {
	switch f.Kind {
	case "field_dropdown":
		for _, o := range f.Options {
			l = append(l, choice{fmt.Sprint(o[0]), o[1]})
		}
	case "field_input":
		for _, t := range texts {
			l = append(l, choice{t, t})
		}
	default:
		lo, hi, step := 0.0, 360.0, 1.0
		if f.Min != nil {
			lo = *f.Min
		}
		if f.Max != nil {
			hi = *f.Max
		}
		if f.Precision != nil && *f.Precision > 0 {
			step = *f.Precision
		}
		for i := 0; ; i++ {
			x := lo + float64(i)*step
			if x > hi+1e-9 || i > 5000 {
				break
			}
			x, _ = strconv.ParseFloat(strconv.FormatFloat(x, 'f', 6, 64), 64)
			l = append(l, choice{"", x})
		}
	}
	return l
}

var slotTypes = map[string]string{"debayer": "debayer", "save": "save", "starDetect": "starDetect"}

func main() {
	vx.Main("P33", "model_checking", func(c *vx.C) {
		c.Rule = "each program of blocks is run through the editor's own scripts and the job is read like the server does"
		a := editor(c.Scratch, request{})
		if a.Fatal != "" {
			a.Blocks, a.Toolbox = nil, nil
		}
		defs := map[string]definition{}
		for _, d := range a.Blocks {
			defs[d.Type] = d
		}
		byOp := map[string]string{} // block by type of step
		// blocks on their own
		c.Serial("palette", 1+len(a.Toolbox), func(s *vx.S) {
			if s.ID == 0 {
				s.Check(func() string { return "the editor's scripts" }, func() error {
					if a.Fatal != "" || len(a.Toolbox) == 0 {
						return vx.Fail("scripts", "the editor does not start: %s", a.Fatal)
					}
					return nil
				})
				return
			}
			t := a.Toolbox[s.ID-1]
			s.Check(func() string { return "block " + t }, func() error {
				if _, ok := defs[t]; !ok {
					return vx.Fail("palette", "block %s of the palette is not defined", t)
				}
				m, err := single(editor(c.Scratch, request{Programs: []program{{[]*block{{Type: t}}}}}).Codes[0])
				if err != nil {
					return err
				}
				op := fmt.Sprint(m["type"])
				if o := byOp[op]; o != "" && o != t {
					return vx.Fail("palette", "blocks %s and %s are the same step %s", o, t, op)
				}
				byOp[op] = t
				s.States(1)
				s.Transitions(1)
				s.Outcome(vx.Hash([]byte(fmt.Sprint(m))))
				return nil
			})
		})
		if len(byOp) == 0 {
			return
		}
		opOf := map[string]string{}
		for o, b := range byOp {
			opOf[b] = o
		}

		// every value of every field, with every choice of the lists and extreme values of the other fields
		type task struct {
			def   definition
			field int
		}
		var tasks []task
		for _, t := range a.Toolbox {
			for i := range defs[t].Fields {
				tasks = append(tasks, task{defs[t], i})
			}
		}
		c.Shards("fields", len(tasks), func(s *vx.S) {
			t := tasks[s.ID]
			f := t.def.Fields[t.field]
			cs := f.choices()
			// contexts: choices of the other fields
			contexts := []map[string]interface{}{{}}
			for j, o := range t.def.Fields {
				if j == t.field {
					continue
				}
				oc := o.choices()
				switch o.Kind {
				case "field_dropdown":
				case "field_input":
					oc = oc[1:3]
				default:
					oc = []choice{oc[0], oc[len(oc)-1]}
				}
				var l []map[string]interface{}
				for _, m := range contexts {
					for _, x := range oc {
						n := map[string]interface{}{o.Name: x.value}
						for k, v := range m {
							n[k] = v
						}
						l = append(l, n)
					}
				}
				contexts = l
				if len(contexts) > 400 {
					contexts = contexts[:400]
				}
			}
			var ps []program
			for _, m := range contexts {
				for _, x := range cs {
					n := map[string]interface{}{f.Name: x.value}
					for k, v := range m {
						n[k] = v
					}
					ps = append(ps, program{[]*block{{Type: t.def.Type, Fields: n}}})
				}
			}
			if len(ps) > 60000 {
				ps = ps[:60000/len(cs)*len(cs)]
			}
			codes := editor(c.Scratch, request{Programs: ps}).Codes
			matters := false
			for k := 0; k < len(ps); k += len(cs) {
				k := k
				s.Check(func() string {
					return fmt.Sprintf("block %s: every value of %s, with the other fields as in %v", t.def.Type, f.Name, ps[k].Tops[0].Fields)
				}, func() error {
					var ms []map[string]interface{}
					for i, x := range cs {
						m, err := single(codes[k+i])
						if err != nil {
							return err
						}
						if m["type"] != opOf[t.def.Type] {
							return vx.Fail("type", "job %s", codes[k+i].Code)
						}
						if g, ok := codes[k+i].Values[f.Name]; !ok || !same(g, x.value) && !(f.Kind != "field_dropdown" && f.Kind != "field_input" && math.Abs(g.(float64)-x.value.(float64)) < 1e-6) {
							return vx.Fail("field", "field %s cannot be set to %v, is %v", f.Name, x.value, g)
						}
						ms = append(ms, leaves(m))
					}
					s.States(len(cs))
					s.Transitions(len(cs))
					// which parameter does it set?
					key := ""
					for _, m := range ms[1:] {
						for _, d := range differing(ms[0], m) {
							if key != "" && d != key {
								return vx.Fail("parameter", "field %s changes both %s and %s", f.Name, key, d)
							}
							key = d
						}
					}
					if key == "" { // e.g. a file name which the chosen mode does not use
						return nil
					}
					matters = true
					if _, ok := ms[0][f.Name]; ok && key != f.Name {
						return vx.Fail("parameter", "field %s sets %s", f.Name, key)
					}
					seen := map[string]string{}
					for i, x := range cs {
						got := ms[i][key]
						want := x.value
						if f.Kind == "field_dropdown" {
							want = nil
							if n, err := strconv.ParseFloat(x.label, 64); err == nil {
								want = n
							}
							for _, m := range meanings[opOf[t.def.Type]+"."+key] {
								if want == nil && m.re.MatchString(x.label) {
									want = m.v
								}
							}
							if want == nil && x.label == fmt.Sprint(x.value) {
								want = x.value
							}
							if o, ok := seen[fmt.Sprint(got)]; ok && f.Name == key {
								return vx.Fail("choice", "choices %q and %q of %s both give %v", o, x.label, f.Name, got)
							}
							seen[fmt.Sprint(got)] = x.label
						}
						if want != nil && !same(got, want) {
							return vx.Fail("value", "field %s is %v (%s), the server reads %s=%v from %s", f.Name, x.value, x.label, key, got, codes[k+i].Code)
						}
					}
					s.Outcome(vx.Hash([]byte(fmt.Sprint(ms))))
					return nil
				})
			}
			s.Check(func() string { return fmt.Sprintf("block %s: effect of %s", t.def.Type, f.Name) }, func() error {
				if !matters && len(cs) > 1 {
					return vx.Fail("ignored", "field %s has no effect on the job", f.Name)
				}
				return nil
			})
		})

		// parameters which the block does not offer
		c.Shards("defaults", len(a.Toolbox), func(s *vx.S) {
			d := defs[a.Toolbox[s.ID]]
			s.Check(func() string { return "other parameters of block " + d.Type }, func() error {
				cd := editor(c.Scratch, request{Programs: []program{{[]*block{{Type: d.Type}}}}}).Codes[0]
				m, err := single(cd)
				if err != nil {
					return err
				}
				def, err := single(code{Code: fmt.Sprintf(`{"type":%q}`, m["type"])})
				if err != nil {
					return err
				}
				l, dl := leaves(m), leaves(def)
				offered := map[string]bool{}
				for _, st := range d.Statements {
					offered[st] = true
				}
				for _, f := range d.Fields { // the parameters which the fields change
					cs := f.choices()
					var ps []program
					for _, x := range cs {
						ps = append(ps, program{[]*block{{Type: d.Type, Fields: map[string]interface{}{f.Name: x.value}}}})
					}
					for _, x := range editor(c.Scratch, request{Programs: ps}).Codes {
						m, err := single(x)
						if err != nil {
							return err
						}
						for _, k := range differing(l, leaves(m)) {
							offered[k] = true
						}
					}
				}
				s.States(1)
				s.Transitions(len(d.Fields))
				for _, k := range differing(l, dl) {
					if !offered[k] && !(len(d.Fields) > 0 && k == d.Fields[0].Name) {
						return vx.Fail("default", "parameter %s is %v, default %v, and cannot be changed", k, l[k], dl[k])
					}
				}
				return nil
			})
		})

		// chains: every sequence, with every set of disabled blocks
		palette := a.Toolbox
		type alone struct {
			step map[string]interface{}
			err  error
		}
		steps := map[string]alone{}
		{
			var ps []program
			for _, t := range palette {
				ps = append(ps, program{[]*block{{Type: t}}})
			}
			for i, cd := range editor(c.Scratch, request{Programs: ps}).Codes {
				m, err := single(cd)
				steps[palette[i]] = alone{m, err}
			}
		}
		type chain struct {
			l    []string
			mask int
		}
		mk := func(l []string, mask int) *block {
			var first *block
			for i := len(l) - 1; i >= 0; i-- {
				first = &block{Type: l[i], Next: first, Disabled: mask>>i&1 != 0}
			}
			return first
		}
		expect := func(l []string, mask int) (want []interface{}) {
			for i, t := range l {
				if mask>>i&1 == 0 {
					want = append(want, steps[t].step)
				}
			}
			return want
		}
		c.Shards("chains", len(palette), func(s *vx.S) {
			var chains []chain
			var rec func(l []string, n, masks int)
			rec = func(l []string, n, masks int) {
				for m := 0; m < masks && m < 1<<len(l); m++ {
					chains = append(chains, chain{append([]string{}, l...), m})
				}
				if len(l) < n {
					for _, t := range palette {
						rec(append(l, t), n, masks)
					}
				}
			}
			if c.Thorough {
				rec([]string{palette[s.ID]}, 3, 8)
			} else {
				rec([]string{palette[s.ID]}, 2, 4)
				rec([]string{palette[s.ID]}, 3, 1)
			}
			for n := 4; n <= 40; n++ { // long ones
				l := []string{}
				for i := 0; i < n; i++ {
					l = append(l, palette[(s.ID+i*i)%len(palette)])
				}
				chains = append(chains, chain{l, 0}, chain{l, 0x5a5a5a5a5a & (1<<n - 1)})
			}
			var ps []program
			for _, ch := range chains {
				ps = append(ps, program{[]*block{mk(ch.l, ch.mask)}})
			}
			for i, cd := range editor(c.Scratch, request{Programs: ps}).Codes {
				ch, cd := chains[i], cd
				s.Check(func() string { return fmt.Sprintf("blocks %v, disabled %b", ch.l, ch.mask) }, func() error {
					want := expect(ch.l, ch.mask)
					if len(want) == 0 && cd.Error == "" && cd.Code == "" {
						return nil // nothing to run
					}
					got, err := decode(cd)
					if err != nil {
						return err
					}
					if len(got) == 1 && len(want) != 1 { // a sequence within the sequence
						if m := got[0].(map[string]interface{}); m["type"] == "seq" {
							got, _ = m["steps"].([]interface{})
						}
					}
					s.States(1)
					s.Transitions(len(ch.l))
					if !reflect.DeepEqual(got, want) {
						return vx.Fail("chain", "job %s\nis read as %v\nexpected %v", cd.Code, got, want)
					}
					return nil
				})
			}
		})

		// blocks in blocks
		type slot struct{ block, name string }
		var slots []slot
		for _, t := range palette {
			for _, n := range defs[t].Statements {
				slots = append(slots, slot{t, n})
			}
		}
		c.Shards("slots", len(slots), func(s *vx.S) {
			sl := slots[s.ID]
			var inner [][]string
			if op, ok := slotTypes[sl.name]; ok {
				if b := byOp[op]; b != "" {
					inner = append(inner, []string{b})
				}
			} else {
				for _, x := range palette {
					inner = append(inner, []string{x})
					for _, y := range palette {
						inner = append(inner, []string{x, y})
						if x != y {
							inner = append(inner, []string{y, y, x})
						}
					}
				}
			}
			inner = append(inner, nil)
			surround := []string{""}
			if len(palette) > 2 {
				surround = append(surround, palette[0], palette[len(palette)-1])
			}
			type tc struct {
				in     []string
				mask   int
				around string
			}
			var tcs []tc
			var ps []program
			for _, in := range inner {
				for mask := 0; mask < 2; mask++ {
					if mask == 1 && len(in) == 0 {
						continue
					}
					for _, ar := range surround {
						b := &block{Type: sl.block, Inputs: map[string]*block{}}
						if x := mk(in, mask); x != nil {
							b.Inputs[sl.name] = x
						}
						if ar != "" {
							b = &block{Type: ar, Next: b}
							b.Next.Next = &block{Type: ar}
						}
						tcs = append(tcs, tc{in, mask, ar})
						ps = append(ps, program{[]*block{b}})
					}
				}
			}
			for i, cd := range editor(c.Scratch, request{Programs: ps}).Codes {
				t, cd := tcs[i], cd
				s.Check(func() string {
					return fmt.Sprintf("block %s with %v (disabled %b) in %s, between two %q", sl.block, t.in, t.mask, sl.name, t.around)
				}, func() error {
					got, err := decode(cd)
					if err != nil {
						return err
					}
					n, at := 1, 0
					if t.around != "" {
						n, at = 3, 1
					}
					s.States(1)
					s.Transitions(1 + len(t.in))
					if len(got) != n {
						return vx.Fail("slot", "job %s has %d steps", cd.Code, len(got))
					}
					if n == 3 && (!reflect.DeepEqual(got[0], interface{}(steps[t.around].step)) || !reflect.DeepEqual(got[2], got[0])) {
						return vx.Fail("slot", "job %s is read as %v", cd.Code, got)
					}
					m := got[at].(map[string]interface{})
					want := expect(t.in, t.mask)
					var w interface{}
					if _, ok := slotTypes[sl.name]; ok {
						if len(want) == 1 {
							w = want[0]
						}
					} else if len(want) > 0 {
						w = map[string]interface{}{"type": "seq", "steps": want}
					}
					if w == nil { // empty: no step, or a sequence without steps
						if x, ok := m[sl.name].(map[string]interface{}); ok && x["type"] == "seq" {
							if l, _ := x["steps"].([]interface{}); len(l) > 0 {
								return vx.Fail("slot", "job %s is read as %v", cd.Code, got)
							}
						}
						return nil
					}
					if !reflect.DeepEqual(m[sl.name], w) {
						return vx.Fail("slot", "job %s\nis read with %s=%v\nexpected %v", cd.Code, sl.name, m[sl.name], w)
					}
					for k, v := range steps[sl.block].step {
						if k != sl.name && !reflect.DeepEqual(m[k], v) {
							return vx.Fail("slot", "job %s has %s=%v", cd.Code, k, m[k])
						}
					}
					return nil
				})
			}
		})

		// the page: posts the program to the server it came from, and shows the answer however it is split
		var pages []page
		body := []byte("a<é☆😀>\n&b")
		origins := []string{"http://localhost:8080/", "http://localhost:9000/index.html", "http://192.168.1.5/", "https://stars.example:8443/"}
		prog := func(i int) program { return program{[]*block{mk([]string{palette[i%len(palette)], palette[(i+3)%len(palette)]}, 0)}} }
		split := func(mask int) (l [][]int) {
			l = [][]int{nil}
			for i, b := range body {
				l[len(l)-1] = append(l[len(l)-1], int(b))
				if mask>>i&1 != 0 && i+1 < len(body) {
					l = append(l, nil)
				}
			}
			return l
		}
		for i, o := range origins {
			for p := range palette {
				pages = append(pages, page{o, prog(p), split(i)})
			}
		}
		for mask := 0; mask < 1<<(len(body)-1); mask++ {
			if !c.Thorough && mask%4 != 1 && mask > 1024 {
				continue
			}
			pages = append(pages, page{origins[mask%len(origins)], prog(mask), split(mask)})
		}
		const per = 128
		c.Shards("page", (len(pages)+per-1)/per, func(s *vx.S) {
			l := pages[s.ID*per:]
			if len(l) > per {
				l = l[:per]
			}
			var ps []program
			for _, p := range l {
				ps = append(ps, p.Program)
			}
			a := editor(c.Scratch, request{Pages: l, Programs: ps})
			for i := range l {
				i := i
				s.Check(func() string {
					return fmt.Sprintf("page %s runs %s, answered in pieces %v", l[i].URL, a.Codes[i].Code, l[i].Chunks)
				}, func() error {
					r := a.Pages[i]
					if r.Error != "" {
						return vx.Fail("page", "%s", r.Error)
					}
					s.States(len(l[i].Chunks))
					s.Transitions(2)
					want := l[i].URL[:strings.Index(l[i].URL[8:], "/")+8] + "/api/v1/job"
					if len(r.Fetched) != 1 || r.Fetched[0].Method != "POST" || r.Fetched[0].URL != want || r.Fetched[0].Body != a.Codes[i].Code {
						return vx.Fail("post", "the page posts %+v, expected %s to %s", r.Fetched, a.Codes[i].Code, want)
					}
					if !strings.HasPrefix(r.Fetched[0].ContentType, "application/json") {
						return vx.Fail("post", "content type %q", r.Fetched[0].ContentType)
					}
					shown := false
					for _, x := range r.Shown {
						shown = shown || strings.HasSuffix(x, a.Codes[i].Code)
					}
					if !shown {
						return vx.Fail("shown", "the code is not shown: %q", r.Shown)
					}
					if len(r.Alerts) > 0 || len(r.Log) != 1 || r.Log[0] != string(body) {
						return vx.Fail("log", "shows %q, alerts %q", r.Log, r.Alerts)
					}
					return nil
				})
			}
		})
		c.Bound("%d blocks, every value of every field in all combinations of lists and extremes of the other fields (<= 400), all chains of <= 3 blocks, with all sets of disabled blocks up to 2 (thorough 3), chains up to 40, blocks in blocks; %d page runs", len(palette), len(pages))
	})
}
