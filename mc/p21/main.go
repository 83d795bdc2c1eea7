package main

import (
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"math"
	"os"
	"reflect"
	"sort"
	"strings"

	"github.com/mlnoga/nightlight/internal/fits"
	"github.com/mlnoga/nightlight/internal/ops"
	"github.com/mlnoga/nightlight/internal/ops/hsl"
	"github.com/mlnoga/nightlight/internal/ops/post"
	"github.com/mlnoga/nightlight/internal/ops/pre"
	"github.com/mlnoga/nightlight/internal/ops/ref"
	"github.com/mlnoga/nightlight/internal/ops/rgb"
	"github.com/mlnoga/nightlight/internal/ops/stack"
	"github.com/mlnoga/nightlight/internal/ops/stretch"
	"github.com/mlnoga/nightlight/internal/star"
	"github.com/mlnoga/nightlight/internal/stats"
	"github.com/mlnoga/nightlight/internal/zzverif/vx"
)

// kinds are all kinds of steps the program offers, with their defaults.
var kinds = []func() ops.Operator{
	func() ops.Operator { return post.NewOpMatchHistogramDefault() },
	func() ops.Operator { return post.NewOpAlignDefault() },
	func() ops.Operator { return pre.NewOpCalibrateDefaults() },
	func() ops.Operator { return pre.NewOpBadPixelDefaults() },
	func() ops.Operator { return pre.NewOpDebayerDefaults() },
	func() ops.Operator { return pre.NewOpScaleOffsetDefault() },
	func() ops.Operator { return pre.NewOpBinDefaults() },
	func() ops.Operator { return pre.NewOpBackExtractDefault() },
	func() ops.Operator { return pre.NewOpStarDetectDefault() },
	func() ops.Operator { return pre.NewOpDebandHorizDefaults() },
	func() ops.Operator { return pre.NewOpDebandVertDefaults() },
	func() ops.Operator { return rgb.NewOpRGBCombineDefault() },
	func() ops.Operator { return rgb.NewOpRGBBalanceDefault() },
	func() ops.Operator { return rgb.NewOpRGBToHSLuvDefault() },
	func() ops.Operator { return rgb.NewOpHSLuvToRGBDefault() },
	func() ops.Operator { return stack.NewOpStackBatchesDefault() },
	func() ops.Operator { return stack.NewOpStackDefault() },
	func() ops.Operator { return hsl.NewOpHSLApplyLumDefault() },
	func() ops.Operator { return hsl.NewOpHSLScaleOffsetChannelDefault() },
	func() ops.Operator { return hsl.NewOpHSLNeutralizeBackgroundDefault() },
	func() ops.Operator { return hsl.NewOpHSLSaturationGammaDefault() },
	func() ops.Operator { return hsl.NewOpHSLSelectiveSaturationDefault() },
	func() ops.Operator { return hsl.NewOpHSLRotateHueDefault() },
	func() ops.Operator { return hsl.NewOpHSLSCNRDefault() },
	func() ops.Operator { return hsl.NewOpHSLMidtonesDefault() },
	func() ops.Operator { return hsl.NewOpHSLGammaDefault() },
	func() ops.Operator { return hsl.NewOpHSLGammaPPDefault() },
	func() ops.Operator { return hsl.NewOpHSLUnsharpMaskDefault() },
	func() ops.Operator { return hsl.NewOpHSLScaleBlackDefault() },
	func() ops.Operator { return hsl.NewOpHSLStretchIterativeDefault() },
	func() ops.Operator { return ref.NewOpExportStatsDefault() },
	func() ops.Operator { return ref.NewOpFilterDefault() },
	func() ops.Operator { return ref.NewOpSelectReferenceDefault() },
	func() ops.Operator { return stretch.NewOpNormalizeRangeDefault() },
	func() ops.Operator { return stretch.NewOpStretchIterativeDefault() },
	func() ops.Operator { return stretch.NewOpMidtonesDefault() },
	func() ops.Operator { return stretch.NewOpGammaDefault() },
	func() ops.Operator { return stretch.NewOpGammaPPDefault() },
	func() ops.Operator { return stretch.NewOpScaleBlackDefault() },
	func() ops.Operator { return stretch.NewOpGaussianBlurDefault() },
	func() ops.Operator { return stretch.NewOpUnsharpMaskDefault() },
	func() ops.Operator { return ops.NewOpLoadDefault() },
	func() ops.Operator { return ops.NewOpLoadManyDefault() },
	func() ops.Operator { return ops.NewOpSaveDefault() },
	func() ops.Operator { return ops.NewOpSequenceDefault() },
}

// internal are fields which are state of a running step, not parameters.
var internal = map[string]bool{"OpStack.RefFrameLoc": true, "OpAlign.Aligner": true, "OpSequence.StepsRaw": true, "OpUnaryBase.Apply": true}

// params lists the parameters of the step in struct v.
func params(v reflect.Value, f func(name string, v reflect.Value)) {
	t := v.Type()
	for i := 0; i < t.NumField(); i++ {
		fld := t.Field(i)
		if fld.Anonymous {
			params(v.Field(i), f)
		} else if fld.PkgPath == "" && !internal[t.Name()+"."+fld.Name] && fld.Type.Kind() != reflect.Func {
			f(fld.Name, v.Field(i))
		}
	}
}

// dump describes a value, independently of JSON.
func dump(v reflect.Value) string {
	switch v.Kind() {
	case reflect.Ptr, reflect.Interface:
		if v.IsNil() {
			return "nil"
		}
		return dump(v.Elem())
	case reflect.Struct:
		s := v.Type().Name() + "{"
		params(v, func(name string, v reflect.Value) { s += name + ":" + dump(v) + " " })
		return s + "}"
	case reflect.Slice:
		s := "["
		for i := 0; i < v.Len(); i++ {
			s += dump(v.Index(i)) + ","
		}
		return s + "]"
	case reflect.Float32:
		return fmt.Sprintf("%08x", math.Float32bits(float32(v.Float())))
	case reflect.String:
		return fmt.Sprintf("%q", v.String())
	case reflect.Int, reflect.Int32, reflect.Int64:
		return fmt.Sprint(v.Int())
	case reflect.Bool:
		return fmt.Sprint(v.Bool())
	}
	panic("parameter of kind " + v.Kind().String())
}

func dumpOp(o ops.Operator) string { return dump(reflect.ValueOf(o)) }

type setting struct {
	desc string
	set  func(o reflect.Value) // on the struct
}

func field(o reflect.Value, name string) (r reflect.Value) {
	params(o, func(n string, v reflect.Value) {
		if n == name && n != "Type" {
			r = v
		}
	})
	return r
}

// settings enumerates parameter values for type t.
func settings(t reflect.Type, wild bool) (vals []func(v reflect.Value)) {
	add := func(f func(v reflect.Value)) { vals = append(vals, f) }
	switch t.Kind() {
	case reflect.Int, reflect.Int32, reflect.Int64:
		l := []int64{1, 2}
		if wild {
			l = []int64{0, 1, 2, 3, 5, -7, math.MaxInt32, math.MinInt32}
		}
		for _, x := range l {
			x := x
			add(func(v reflect.Value) { v.SetInt(x) })
		}
	case reflect.Float32:
		l := []float32{0.15, 1.5}
		if wild {
			l = []float32{0, float32(math.Copysign(0, -1)), 1, -1.5, 0.1, 1.0 / 3, 3.4028235e38, -3.4028235e38, 1e-45, 1e21, 1e-7, 16777217, 0.99999994}
		}
		for _, x := range l {
			x := x
			add(func(v reflect.Value) { v.SetFloat(float64(x)) })
		}
	case reflect.String:
		l := []string{"R", "x.fits"}
		if wild {
			l = []string{"", "x", "out%05d.fits", "a b/c.fits", "q\"\\'/<&>\u2028\n\t\r\x00\x7f é 星 😀", "%starsHFR", "%location", "7", "null", "{}", "../x", strings.Repeat("long", 300)}
		}
		for _, x := range l {
			x := x
			add(func(v reflect.Value) { v.SetString(x) })
		}
	case reflect.Bool:
		add(func(v reflect.Value) { v.SetBool(true) })
		add(func(v reflect.Value) { v.SetBool(false) })
	case reflect.Slice:
		if t.Elem().Kind() != reflect.String {
			break
		}
		for _, x := range [][]string{nil, {}, {"a"}, {"", "*.fits", "\"[a-z]?\\*"}} {
			x := x
			add(func(v reflect.Value) { v.Set(reflect.ValueOf(x)) })
		}
	case reflect.Ptr:
		add(func(v reflect.Value) { v.Set(reflect.Zero(t)) })
		for _, k := range kinds {
			k := k
			if reflect.TypeOf(k()) != t {
				continue
			}
			add(func(v reflect.Value) { v.Set(reflect.ValueOf(k())) })
			for _, s := range single(k, wild) {
				s := s
				add(func(v reflect.Value) {
					o := reflect.ValueOf(k())
					s.set(o.Elem())
					v.Set(o)
				})
			}
		}
	case reflect.Struct:
		for i := 0; i < t.NumField(); i++ {
			i := i
			for _, f := range settings(t.Field(i).Type, wild) {
				f := f
				add(func(v reflect.Value) { f(v.Field(i)) })
			}
		}
	default:
		panic("no values for " + t.String())
	}
	return vals
}

// single lists all settings of one parameter of a kind of step.
func single(k func() ops.Operator, wild bool) (l []setting) {
	if _, ok := k().(*ops.OpSequence); ok {
		return nil // steps are enumerated separately
	}
	params(reflect.ValueOf(k()).Elem(), func(name string, v reflect.Value) {
		if name == "Type" {
			return
		}
		for i, f := range settings(v.Type(), wild) {
			f := f
			l = append(l, setting{fmt.Sprintf("%s=#%d", name, i), func(o reflect.Value) { f(field(o, name)) }})
		}
	})
	return l
}

func names(k func() ops.Operator) (l []string) {
	params(reflect.ValueOf(k()).Elem(), func(name string, v reflect.Value) {
		if name != "Type" {
			l = append(l, name)
		}
	})
	return l
}

// keys lists the names of the parameters in a JSON text, sorted.
func keys(b []byte) string {
	var g interface{}
	if err := json.Unmarshal(b, &g); err != nil {
		return err.Error()
	}
	var rec func(g interface{}) string
	rec = func(g interface{}) string {
		m, ok := g.(map[string]interface{})
		if !ok {
			return ""
		}
		var l []string
		for k, v := range m {
			l = append(l, k+rec(v))
		}
		sort.Strings(l)
		return "(" + strings.Join(l, " ") + ")"
	}
	return rec(g)
}

func encode(o ops.Operator) ([]byte, error) { return json.MarshalIndent(o, "", "  ") }

func decode(b []byte) (*ops.OpSequence, error) {
	var s ops.OpSequence
	if err := json.Unmarshal(b, &s); err != nil {
		return nil, err
	}
	return &s, nil
}

// through writes a step as part of a job and reads it back.
func through(o ops.Operator) (ops.Operator, []byte, error) {
	job := ops.NewOpSequence(o)
	b, err := encode(job)
	if err != nil {
		return nil, nil, vx.Fail("encode", "%v", err)
	}
	s, err := decode(b)
	if err != nil {
		return nil, nil, vx.Fail("decode", "%v: %s", err, b)
	}
	if a, b := dumpOp(job), dumpOp(s); a != b {
		return nil, nil, vx.Fail("parameters", "%s became %s", a, b)
	}
	again, err := encode(s)
	if err != nil || string(again) != string(b) {
		return nil, nil, vx.Fail("encode-again", "%s then %s (%v)", b, again, err)
	}
	return s.Steps[0], b, nil
}

func frame(id int, color bool) *fits.Image {
	dims, n := []int32{12, 10}, 120
	if color {
		dims, n = []int32{12, 10, 3}, 360
	}
	d := make([]float32, n)
	for i := range d {
		x, y := i%12, i/12%10
		d[i] = 0.2 + 0.05*float32((i*7+id*3)%13)/13
		if (x-4)*(x-4)+(y-4)*(y-4) <= 2 {
			d[i] += 0.5
		}
		if i >= 240 {
			d[i] += 0.4
		}
		if i == 27 {
			d[i] = 0.9
		}
	}
	f := fits.NewImageFromNaxisn(dims, d)
	f.ID, f.Exposure = id, 2
	f.Stars = []star.Star{{Index: 52, X: 4, Y: 4, Value: 0.7, Mass: 3, HFR: 1.2}, {Index: 27, X: 3, Y: 2, Value: 0.5, Mass: 1, HFR: 0.7},
		{Index: 9, X: 9, Y: 0, Value: 0.4, Mass: 0.9, HFR: 0.7}, {Index: 99, X: 3, Y: 8, Value: 0.3, Mass: 0.8, HFR: 0.7}, {Index: 82, X: 10, Y: 6, Value: 0.2, Mass: 0.7, HFR: 0.6}}
	f.HFR = 1
	f.MedianDiffStats = stats.NewStats([]float32{-0.1, -0.05, 0, 0.05, 0.1}, 5) // else estimated from random samples
	return f
}

// behave runs a step on test frames and describes the results.
func behave(o ops.Operator) (r string) {
	for _, color := range []bool{false, true} {
		c := ops.NewContext(io.Discard, 100, stats.LSEMeanStdDev)
		c.MaxThreads = 1
		c.AlignNaxisn, c.AlignStars, c.AlignHFR = []int32{12, 10}, frame(1, false).Stars, 1
		if _, ok := o.(*post.OpAlign); ok {
			for i := range c.AlignStars {
				c.AlignStars[i].X++
			}
		}
		c.MatchHisto = stats.NewStats([]float32{0.1, 0.2, 0.3, 0.5}, 2)
		if _, ok := o.(*ref.OpSelectReference); ok {
			c.AlignStars, c.MatchHisto = nil, nil
		}
		if color {
			c.LumFrame = frame(9, false)
		}
		n := 1
		switch o.(type) {
		case *stack.OpStack, *stack.OpStackBatches, *rgb.OpRGBCombine, *ref.OpSelectReference:
			n = 3
		case *ops.OpLoad, *ops.OpLoadMany:
			n = 0
		}
		var ins []ops.Promise
		for i := 0; i < n; i++ {
			f := frame(i, color)
			if _, ok := o.(*ref.OpFilter); ok {
				f.Stars = f.Stars[:1]
			}
			ins = append(ins, func() (*fits.Image, error) { return f, nil })
		}
		outs, err := o.MakePromises(ins, c)
		r += fmt.Sprintf("%d outputs, error %v; ", len(outs), err)
		for _, p := range outs {
			f, err := p()
			if err != nil || f == nil {
				r += fmt.Sprintf("result %v error %v; ", f == nil, err)
				continue
			}
			r += fmt.Sprintf("%v %d %v %v %016x; ", f.Naxisn, f.ID, f.Exposure, f.Stars, vx.HashF(f.Data))
		}
		r += fmt.Sprintf("align %v %v match %v; ", c.AlignHFR, len(c.AlignStars), c.MatchHisto != nil)
	}
	return r
}

// steps compares a decoded job with what generic JSON decoding says.
func steps(o ops.Operator, j interface{}) error {
	m, ok := j.(map[string]interface{})
	if !ok {
		return errors.New("not an object")
	}
	t, has := m["type"]
	seq, isSeq := o.(*ops.OpSequence)
	if has && t != nil && t != o.GetType() {
		if isSeq && len(seq.Steps) == 1 { // single step
			return steps(seq.Steps[0], j)
		}
		return fmt.Errorf("type %v became %s", t, o.GetType())
	}
	if !isSeq {
		return nil
	}
	l, _ := m["steps"].([]interface{})
	if len(l) != len(seq.Steps) {
		return fmt.Errorf("%d steps became %d", len(l), len(seq.Steps))
	}
	for i := range l {
		if err := steps(seq.Steps[i], l[i]); err != nil {
			return err
		}
	}
	return nil
}

func robust(b []byte) error {
	s, err := decode(b)
	if err != nil {
		return nil
	}
	var g interface{}
	if err := json.Unmarshal(b, &g); err != nil {
		return vx.Fail("malformed", "accepted %q", b)
	}
	if g != nil {
		if err := steps(s, g); err != nil {
			return vx.Fail("steps", "%v in %q", err, b)
		}
	}
	b2, err := encode(s)
	if err != nil {
		return vx.Fail("robust-encode", "%v", err)
	}
	s2, err := decode(b2)
	if err != nil || dumpOp(s) != dumpOp(s2) {
		return vx.Fail("robust-again", "%q reads as %s, then as %s (%v)", b, dumpOp(s), b2, err)
	}
	return nil
}

// texts are job texts to damage.
func texts() (l []string) {
	for _, o := range []ops.Operator{
		ops.NewOpSequence(),
		ops.NewOpSequence(ops.NewOpLoad(3, "a.fits"), ops.NewOpSave("b.jpg", ops.EM0_255, 2.2)),
		ops.NewOpSequence(ops.NewOpLoadMany([]string{"a*", "b"}), stack.NewOpStackBatches(ops.NewOpSequence(pre.NewOpStarDetect(3, 5, 1, 2, "s%d.fits"), stack.NewOpStack(stack.StMedian, stack.StWeightInverseHFR, 1, 2)))),
		ops.NewOpSequence(ops.NewOpSequence(ops.NewOpSequence(), stretch.NewOpGamma(2)), ref.NewOpSelectReference(ref.SRHisto, "%location", nil), rgb.NewOpRGBBalanceDefault()),
		ops.NewOpSequence(pre.NewOpBadPixel(1, 2, pre.NewOpDebayer("G", "RGGB")), pre.NewOpBackExtract(4, 1, 2, 1, "")),
	} {
		b, err := json.Marshal(o)
		if err != nil {
			panic(err)
		}
		l = append(l, string(b))
	}
	return l
}

func main() {
	if os.Getenv("P21_GOLDEN") != "" { // print the defaults, to update golden.go
		for _, k := range kinds {
			b, _ := json.Marshal(k())
			fmt.Printf("\t%q: {%q,\n\t\t%q},\n", k().GetType(), dumpOp(k()), keys(b))
		}
		return
	}
	vx.Main("P21", "model_checking", func(c *vx.C) {
		stats.LSEstimator = stats.LSEMeanStdDev
		if err := os.Chdir(c.Scratch); err != nil {
			panic(err)
		}
		for i := 0; i < 3; i++ {
			if err := frame(i, false).WriteFile([]string{"x.fits", "a", "dark.fits"}[i]); err != nil {
				panic(err)
			}
		}

		// every kind of step, every pair of parameters
		c.Shards("parameters", len(kinds), func(s *vx.S) {
			k := kinds[s.ID]
			t := k().GetType()
			s.Check(func() string { return "registration of " + t }, func() error {
				f := ops.GetOperatorFactory(t)
				if f == nil || dumpOp(f()) != dumpOp(k()) || reflect.TypeOf(f()) != reflect.TypeOf(k()) {
					return vx.Fail("registered", "step kind %s", t)
				}
				if d := dumpOp(k()); d != golden[t][0] {
					return vx.Fail("default", "defaults of %s are %s, documented %s", t, d, golden[t][0])
				}
				b, err := json.Marshal(k())
				if got := keys(b); err != nil || got != golden[t][1] {
					return vx.Fail("keys", "parameters of %s in a job are %s, so far %s (%v)", t, got, golden[t][1], err)
				}
				return nil
			})
			l := append([]setting{{"defaults", func(reflect.Value) {}}}, single(k, true)...)
			for i, a := range l {
				for _, b := range l[i:] {
					s.States(1)
					s.Check(func() string { return fmt.Sprintf("%s with %s, %s", t, a.desc, b.desc) }, func() error {
						o := k()
						a.set(reflect.ValueOf(o).Elem())
						b.set(reflect.ValueOf(o).Elem())
						got, text, err := through(o)
						if err != nil {
							return err
						}
						s.Outcome(vx.Hash(text))
						if reflect.TypeOf(got) != reflect.TypeOf(o) {
							return vx.Fail("kind", "%T became %T", o, got)
						}
						return nil
					})
				}
			}
		})
		c.Bound("%d kinds of steps, all pairs of parameter values", len(kinds))

		// missing parameters
		c.Shards("missing", len(kinds), func(s *vx.S) {
			k := kinds[s.ID]
			t := k().GetType()
			if t == "seq" {
				return
			}
			ns := names(k)
			moderate := single(k, false)
			for mask := 0; mask < 1<<len(ns); mask++ {
				for variant := 0; variant < 2; variant++ {
					s.States(1)
					s.Check(func() string { return fmt.Sprintf("%s with parameters %b of %v given", t, mask, ns) }, func() error {
						full, want := k(), k()
						for i, n := range ns {
							var vs []setting
							for _, m := range moderate {
								if strings.HasPrefix(m.desc, n+"=") {
									vs = append(vs, m)
								}
							}
							v := vs[(len(vs)-1)*variant]
							v.set(reflect.ValueOf(full).Elem())
							if mask>>i&1 == 1 {
								v.set(reflect.ValueOf(want).Elem())
							}
						}
						b, err := json.Marshal(full)
						if err != nil {
							return vx.Fail("encode", "%v", err)
						}
						var m map[string]json.RawMessage
						if err := json.Unmarshal(b, &m); err != nil || len(m) != len(ns)+1 {
							return vx.Fail("encode", "%v parameters %v in %s (%v)", len(ns), ns, b, err)
						}
						// the parameter in the text belonging to a name is found by changing it
						text := map[string]json.RawMessage{"type": m["type"]}
						for i, n := range ns {
							if mask>>i&1 == 0 {
								continue
							}
							for key, val := range m {
								if strings.EqualFold(key, jsonName(reflect.TypeOf(k()).Elem(), n)) {
									text[key] = val
								}
							}
						}
						b, _ = json.Marshal(map[string]interface{}{"steps": []interface{}{text}})
						got, err := decode(b)
						if err != nil {
							return vx.Fail("decode", "%v: %s", err, b)
						}
						if len(got.Steps) != 1 || dumpOp(got.Steps[0]) != dumpOp(want) {
							return vx.Fail("missing", "%s reads as %s, expected %s", b, dumpOp(got), dumpOp(want))
						}
						return nil
					})
				}
			}
		})

		// wrong types of values
		c.Shards("types", len(kinds), func(s *vx.S) {
			k := kinds[s.ID]
			t := reflect.TypeOf(k()).Elem()
			values := map[string]string{"null": "null", "bool": "true", "int": "3", "frac": "1.5", "huge": "1e99", "string": `"x"`, "list": "[1]", "object": "{}"}
			for _, n := range append(names(k), "Type") {
				if n == "Steps" {
					continue
				}
				var key string
				if key = "type"; n != "Type" {
					key = jsonName(t, n)
				}
				f := reflect.ValueOf(k()).Elem()
				kind := reflect.String
				if n != "Type" {
					kind = field(f, n).Kind()
				}
				for vn, v := range values {
					text := fmt.Sprintf(`{"type":"seq","steps":[{"type":%q,%q:%s}]}`, k().GetType(), key, v)
					s.Check(func() string { return text }, func() error {
						_, err := decode([]byte(text))
						ok := vn == "null"
						switch kind {
						case reflect.Int, reflect.Int32, reflect.Int64:
							ok = ok || vn == "int"
						case reflect.Float32:
							ok = ok || vn == "int" || vn == "frac"
						case reflect.String:
							ok = ok || vn == "string" && n != "Type"
						case reflect.Slice:
							ok = ok || vn == "list" && field(f, n).Type() != reflect.TypeOf([]string{}) && false
						default:
							ok = ok || vn == "object"
						}
						if n == "Type" {
							ok = false
						}
						if n == "Type" && vn == "null" {
							return robust([]byte(text)) // the second key may be ignored
						}
						if (err == nil) != ok {
							return vx.Fail("type", "error %v", err)
						}
						return robust([]byte(text))
					})
				}
			}
		})

		// nesting
		c.Serial("nesting", 1, func(s *vx.S) {
			leaves := []func() ops.Operator{
				func() ops.Operator { return stretch.NewOpGamma(1.25) },
				func() ops.Operator { return ops.NewOpSave("x%d.fits", ops.EM0_1, 2) },
				func() ops.Operator {
					return ref.NewOpSelectReference(ref.SRHisto, "x.fits", pre.NewOpStarDetect(1, 2, 3, 4, "s"))
				},
			}
			max := 3
			if c.Thorough {
				max = 4
			}
			var trees func(depth, nodes int) [][]func() ops.Operator // lists of steps
			node := func(depth, nodes int) (l []func() ops.Operator) {
				if nodes == 1 {
					l = append(l, leaves...)
				}
				if depth > 0 {
					for _, inner := range trees(depth-1, nodes-1) {
						inner := inner
						mk := func() *ops.OpSequence {
							q := ops.NewOpSequence()
							for _, f := range inner {
								q.Append(f())
							}
							return q
						}
						l = append(l, func() ops.Operator { return mk() }, func() ops.Operator { return stack.NewOpStackBatches(mk()) })
					}
				}
				return l
			}
			trees = func(depth, nodes int) (l [][]func() ops.Operator) {
				if nodes == 0 {
					return [][]func() ops.Operator{nil}
				}
				for first := 1; first <= nodes; first++ {
					for _, f := range node(depth, first) {
						for _, rest := range trees(depth, nodes-first) {
							l = append(l, append([]func() ops.Operator{f}, rest...))
						}
					}
				}
				return l
			}
			count := 0
			for nodes := 0; nodes <= max; nodes++ {
				for _, l := range trees(3, nodes) {
					count++
					q := ops.NewOpSequence()
					for _, f := range l {
						q.Append(f())
					}
					s.Check(func() string { return "job " + dumpOp(q) }, func() error {
						_, _, err := through(q)
						if err != nil {
							return err
						}
						b, _ := json.Marshal(q)
						got, err := decode(b)
						if err != nil || dumpOp(got) != dumpOp(q) {
							return vx.Fail("nesting", "%s became %s (%v)", dumpOp(q), dumpOp(got), err)
						}
						return nil
					})
				}
			}
			// long and deep jobs
			for _, n := range []int{10, 33, 64, 100, 257, 1000} {
				for kind := 0; kind < 4; kind++ {
					q := ops.NewOpSequence()
					for i := 0; i < n; i++ {
						if kind == 0 {
							q.Append(stretch.NewOpGamma(float32(i) + 0.5))
						} else if kind == 1 {
							q.Append(leaves[i%len(leaves)]())
						} else if kind == 2 {
							q = ops.NewOpSequence(q, stretch.NewOpGamma(float32(i)+0.5))
						} else {
							q = ops.NewOpSequence(stack.NewOpStackBatches(ops.NewOpSequence(q, leaves[i%len(leaves)]())))
						}
						if i >= 100 && kind >= 2 {
							break
						}
					}
					s.Check(func() string { return fmt.Sprintf("job of %d steps, arrangement %d", n, kind) }, func() error {
						if _, _, err := through(q); err != nil {
							return err
						}
						b, _ := json.Marshal(q)
						got, err := decode(b)
						if err != nil || dumpOp(got) != dumpOp(q) {
							return vx.Fail("nesting", "%s became %s (%v)", dumpOp(q), dumpOp(got), err)
						}
						return nil
					})
				}
			}
			s.States(count)
			c.Bound("jobs of up to 1000 steps, nested up to 100 deep")
			c.Bound("%d nested jobs with up to %d steps", count, max)
		})

		// behaviour and independence
		c.Shards("behaviour", len(kinds), func(s *vx.S) {
			k := kinds[s.ID]
			t := k().GetType()
			if t == "exportStats" || t == "save" || t == "seq" {
				return // judged below, or in the structure phases
			}
			ns := names(k)
			moderate := single(k, false)
			build := func(variant int) ops.Operator {
				o := k()
				for i, n := range ns {
					var vs []setting
					for _, m := range moderate {
						if strings.HasPrefix(m.desc, n+"=") {
							vs = append(vs, m)
						}
					}
					if variant < 4 {
						vs[(len(vs)-1)*((variant&1+i*(variant>>1))&1)].set(reflect.ValueOf(o).Elem())
					} else if i == (variant-4)/2 {
						vs[(len(vs)-1)*((variant-4)%2)].set(reflect.ValueOf(o).Elem())
					}
				}
				noFiles(o)
				return o
			}
			var all []string
			for v := 0; v < 4+2*len(ns); v++ {
				s.States(1)
				s.Check(func() string { return fmt.Sprintf("behaviour of %s", dumpOp(build(v))) }, func() error {
					b, err := json.Marshal(ops.NewOpSequence(build(v)))
					if err != nil {
						return vx.Fail("encode", "%v", err)
					}
					q1, err1 := decode(b)
					q2, err2 := decode(b)
					if err1 != nil || err2 != nil {
						return vx.Fail("decode", "%v %v", err1, err2)
					}
					a1, a2 := q1.Steps[0], q2.Steps[0]
					want := behave(build(v))
					all = append(all, want)
					s.Outcome(vx.Hash([]byte(want)))
					if got := behave(a1); got != want {
						return vx.Fail("behaviour", "after reading %s: %s, expected %s", b, got, want)
					}
					// change the first one
					w := (v + 1) % (4 + 2*len(ns))
					other := build(w)
					params(reflect.ValueOf(other).Elem(), func(name string, val reflect.Value) {
						if name != "Type" {
							f := field(reflect.ValueOf(a1).Elem(), name)
							if val.Kind() == reflect.Ptr && !val.IsNil() && !f.IsNil() && f.Type() != reflect.TypeOf(&ops.OpSequence{}) {
								params(val.Elem(), func(n string, v reflect.Value) {
									if n != "Type" {
										field(f.Elem(), n).Set(v)
									}
								})
								return
							}
							f.Set(val)
						}
					})
					before := dumpOp(build(v))
					if dumpOp(a2) != before {
						return vx.Fail("independent", "changing the first job to %s changed the second to %s, expected %s", dumpOp(a1), dumpOp(a2), before)
					}
					if got := behave(a2); got != want {
						return vx.Fail("independent-behaviour", "second job behaves as %s, expected %s", got, want)
					}
					if t == "align" || t == "selectRef" || t == "calibrate" {
						return nil // have state from the first run
					}
					if got, want := behave(a1), behave(build(w)); got != want {
						return vx.Fail("own", "%s, read and changed to %s: %s, expected %s", b, dumpOp(other), got, want)
					}
					return nil
				})
			}
			sort.Strings(all)
			distinct := 0
			for i := range all {
				if i == 0 || all[i] != all[i-1] {
					distinct++
				}
			}
			s.Transitions(distinct)
		})

		// steps that write files
		c.Serial("files", 1, func(s *vx.S) {
			for i, name := range []string{"s%d.fits", "deep/x.fits", "s%03d.jpg", "é.tiff"} {
				for mode := ops.EMMinMax; mode <= ops.EM0_65535; mode++ {
					s.Check(func() string { return fmt.Sprintf("saving to %s, mode %d", name, mode) }, func() error {
						var out [2]string
						for j := range out {
							var o ops.Operator = ops.NewOpSave(name, mode, float32(i+1))
							if j == 1 {
								var err error
								if o, _, err = through(o); err != nil {
									return err
								}
							}
							dir := fmt.Sprintf("%s/save%d", c.Scratch, j)
							os.MkdirAll(dir, 0755)
							os.Chdir(dir)
							r := behave(o)
							es, _ := os.ReadDir(".")
							for _, e := range es {
								b, _ := os.ReadFile(e.Name())
								r += fmt.Sprintf("%s %016x; ", e.Name(), vx.Hash(b))
							}
							os.Chdir(c.Scratch)
							os.RemoveAll(dir)
							out[j] = r
						}
						if out[0] != out[1] {
							return vx.Fail("save", "%s, expected %s", out[1], out[0])
						}
						return nil
					})
				}
			}
			for _, name := range []string{"", "st.html", "deep/x.html"} {
				s.Check(func() string { return fmt.Sprintf("exporting statistics to %q", name) }, func() error {
					var out [2]string
					for j := range out {
						var o ops.Operator = ref.NewOpExportStats(name)
						if j == 1 {
							var err error
							if o, _, err = through(o); err != nil {
								return err
							}
						}
						os.Remove(c.Scratch + "/st.html")
						out[j] = behave(o)
						b, _ := os.ReadFile("st.html")
						out[j] += fmt.Sprint(len(b))
					}
					if out[0] != out[1] {
						return vx.Fail("export", "%s, expected %s", out[1], out[0])
					}
					return nil
				})
			}
		})

		// damaged and foreign texts
		ts := texts()
		chars := "{}[]\",:0a-.n \\\x00e"
		c.Shards("damaged", len(ts), func(s *vx.S) {
			t := ts[s.ID]
			for i := 0; i < len(t); i++ {
				s.States(1)
				s.Check(func() string { return fmt.Sprintf("text %q cut at %d", t, i) }, func() error {
					if q, err := decode([]byte(t[:i])); err == nil {
						return vx.Fail("cut", "reads as %s", dumpOp(q))
					}
					return nil
				})
				for _, ch := range []byte(chars) {
					for kind := 0; kind < 3; kind++ {
						var b string
						switch kind {
						case 0:
							b = t[:i] + string(ch) + t[i+1:]
						case 1:
							b = t[:i] + string(ch) + t[i:]
						case 2:
							b = t[:i] + t[i+1:]
						}
						s.States(1)
						s.Check(func() string { return fmt.Sprintf("damaged text %q", b) }, func() error { return robust([]byte(b)) })
						if kind == 2 {
							break
						}
					}
				}
			}
			s.Check(func() string { return "text followed by something" }, func() error {
				for _, x := range []string{"x", "{}", "]", "null", ","} {
					if _, err := decode([]byte(t + x)); err == nil {
						return vx.Fail("trailing", "%q accepted", t+x)
					}
				}
				return nil
			})
		})
		c.Bound("%d texts, every truncation and every replacement, insertion and deletion of a character", len(ts))
		c.Serial("unknown", 1, func(s *vx.S) {
			bad := []string{`{"type":"nope"}`, `{"type":""}`, `{}`, `{"type":"Seq"}`, `{"type":"gamma "}`, `null`, `1`, `"gamma"`, `[]`, `{"type":null}`, `{"type":1}`, `{"type":["gamma"]}`, `{"gamma":2}`}
			for _, b := range bad {
				for _, wrap := range []string{`{"type":"seq","steps":[%s]}`, `{"steps":[%s]}`, `{"type":"seq","steps":[{"type":"gamma"},%s]}`, `{"type":"seq","steps":[%s,{"type":"gamma"}]}`,
					`{"type":"seq","steps":[{"type":"seq","steps":[{"type":"seq","steps":[%s]}]}]}`, `{"type":"seq","steps":[{"type":"stackBatches","perBatch":{"type":"seq","steps":[%s]}}]}`} {
					text := fmt.Sprintf(wrap, b)
					s.Check(func() string { return "job " + text }, func() error {
						if q, err := decode([]byte(text)); err == nil {
							return vx.Fail("unknown", "reads as %s", dumpOp(q))
						}
						return nil
					})
				}
			}
			for _, text := range []string{``, ` `, `1`, `"seq"`, `[]`, `[{"type":"gamma"}]`, `true`, `{"type":"nope"}`, `{"type":"nope","steps":[]}`, `{"type":"seq","steps":{}}`, `{"type":"seq","steps":1}`, `{"type":"seq","steps":"gamma"}`, `{"type":1,"steps":[]}`,
				`{"type":"stackBatches","perBatch":{"type":"nope"}}`, `{"type":"seq","steps":[{"type":"stackBatches","perBatch":{"type":"nope","steps":[]}}]}`} {
				s.Check(func() string { return "job " + text }, func() error {
					if q, err := decode([]byte(text)); err == nil {
						return vx.Fail("unknown", "reads as %s", dumpOp(q))
					}
					return nil
				})
			}
			// a single step is not lost
			for _, k := range kinds {
				s.Check(func() string { return "job of the single step " + k().GetType() }, func() error {
					b, _ := json.Marshal(k())
					q, err := decode(b)
					if k().GetType() == "seq" {
						if err != nil || len(q.Steps) != 0 {
							return vx.Fail("single", "%v", err)
						}
						return nil
					}
					if err == nil && (len(q.Steps) != 1 || dumpOp(q.Steps[0]) != dumpOp(k())) {
						return vx.Fail("single", "%s reads as %s", b, dumpOp(q))
					}
					return nil
				})
			}
			// reading into the same job again replaces its steps
			for _, a := range ts {
				for _, b := range ts {
					s.Check(func() string { return fmt.Sprintf("reading %s and then %s", a, b) }, func() error {
						var q ops.OpSequence
						if err := json.Unmarshal([]byte(a), &q); err != nil {
							return err
						}
						if err := json.Unmarshal([]byte(b), &q); err != nil {
							return err
						}
						fresh, err := decode([]byte(b))
						if err != nil || dumpOp(fresh) != dumpOp(&q) {
							return vx.Fail("again", "reads as %s", dumpOp(&q))
						}
						return nil
					})
				}
			}
		})
	})
}

// noFiles keeps steps from writing files.
func noFiles(o ops.Operator) {
	switch o := o.(type) {
	case *pre.OpStarDetect:
		if o.Save != nil {
			o.Save.FilePattern = ""
		}
	case *pre.OpBackExtract:
		if o.Save != nil {
			o.Save.FilePattern = ""
		}
	case *ref.OpSelectReference:
		if o.StarDetect != nil {
			o.StarDetect.BadPixelSigma = -1 // the noise of loaded files is estimated from random samples
			if o.StarDetect.Save != nil {
				o.StarDetect.Save.FilePattern = ""
			}
		}
	}
}

// jsonName is the name of a parameter in a job.
func jsonName(t reflect.Type, name string) string {
	if f, ok := t.FieldByName(name); ok {
		if tag := strings.Split(f.Tag.Get("json"), ",")[0]; tag != "" {
			return tag
		}
	}
	return name
}
