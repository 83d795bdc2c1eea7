// P31: the command line runs the job its flags describe.
package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"math"
	"os"
	"os/exec"
	"path/filepath"
	"reflect"
	"sort"
	"strings"
	"syscall"
	"time"

	"github.com/mlnoga/nightlight/internal/fits"
	"github.com/mlnoga/nightlight/internal/zzverif/vx"
)

type obj = map[string]interface{}
type list = []interface{}

// settings are the values of flags, by name.
type settings map[string]string

func (s settings) get(name string) string {
	if v, ok := s[name]; ok {
		return v
	}
	for _, f := range flags {
		if f.name == name {
			return f.def
		}
	}
	panic(name)
}

func (s settings) num(name string) interface{} {
	var v json.Number
	if err := json.Unmarshal([]byte(s.get(name)), &v); err != nil {
		panic(err)
	}
	f, _ := v.Float64()
	return f
}

func (s settings) percent(name string) interface{} {
	return s.num(name).(float64) / 100
}

// auto is the value of a flag for a file name, where %auto means the name of the output with another suffix.
func (s settings) auto(name, suffix string) string {
	v := s.get(name)
	if v != "%auto" {
		return v
	}
	out := s.get("out")
	if out == "" {
		return ""
	}
	dir, base := filepath.Split(out)
	if i := strings.LastIndex(base, "."); i >= 0 {
		base = base[:i]
	}
	return dir + base + suffix
}

// flag is a documented flag with its default, and other values.
type flagSpec struct {
	name, def string
	others    []string
}

var flags = []flagSpec{
	{"out", "out.fits", []string{"other.fits", "sub/x.fit", "a.b.fits", "noext", "", "dir.x/noext", "o%d.fits"}},
	{"jpg", "%auto", []string{"p.jpg", "", "sub/p.jpeg"}},
	{"jpgGamma", "1", []string{"2.2", "0.5"}},
	{"tiff", "", []string{"%auto", "t.tif"}},
	{"log", "", []string{"%auto", "l.log"}},
	{"pre", "", []string{"pre%04d.fits"}},
	{"stars", "", []string{"stars%04d.fits"}},
	{"back", "", []string{"back%04d.fits"}},
	{"post", "", []string{"post%04d.fits"}},
	{"batch", "", []string{"batch%04d.fits"}},
	{"dark", "", []string{"dark.fits"}},
	{"flat", "", []string{"flat.fits"}},
	{"debayer", "", []string{"R", "G", "B"}},
	{"cfa", "RGGB", []string{"GRBG", "GBRG", "BGGR"}},
	{"debandH", "0", []string{"50", "12.5"}},
	{"debandV", "0", []string{"50", "12.5"}},
	{"debandHWindow", "128", []string{"64", "0"}},
	{"debandVWindow", "128", []string{"64", "0"}},
	{"debandHSigma", "3", []string{"2.5", "0"}},
	{"debandVSigma", "3", []string{"2.5", "0"}},
	{"binning", "0", []string{"1", "2", "3"}},
	{"bpSigLow", "3", []string{"0", "4.5"}},
	{"bpSigHigh", "5", []string{"0", "4.5"}},
	{"starSig", "15", []string{"10", "0"}},
	{"starBpSig", "-1", []string{"0", "3", "5"}},
	{"starInOut", "1.4", []string{"1.25", "0"}},
	{"starRadius", "16", []string{"8", "0"}},
	{"backGrid", "0", []string{"256"}},
	{"backHFRFactor", "4", []string{"2", "0.5"}},
	{"backSigma", "1.5", []string{"3"}},
	{"backClip", "0", []string{"2"}},
	{"minStars", "0", []string{"3"}},
	{"blurSigma", "0", []string{"1.5"}},
	{"usmSigma", "1", []string{"1.5"}},
	{"usmGain", "0", []string{"0.75"}},
	{"usmThresh", "1", []string{"2"}},
	{"alignK", "20", []string{"50", "0"}},
	{"alignT", "1", []string{"2.5"}},
	{"lsEst", "3", []string{"0", "1", "2", "4"}},
	{"normHist", "4", []string{"0", "1", "2", "3"}},
	{"stMode", "6", []string{"0", "1", "2", "3", "4", "5"}},
	{"stSigLow", "2.75", []string{"2"}},
	{"stSigHigh", "2.75", []string{"2"}},
	{"stWeight", "0", []string{"1", "2"}},
	{"stMemory", "", []string{"100"}},
	{"histoRef", "%starsHFR", []string{"%location", "1", "ref.fits"}},
	{"alignRef", "%starsHFR", []string{"%location", "1", "ref.fits"}},
	{"neutSigmaLow", "-1", []string{"1.5"}},
	{"neutSigmaHigh", "-1", []string{"2.5"}},
	{"balBlock", "16", []string{"8"}},
	{"balBorder", "0.1", []string{"0.2"}},
	{"balSkipBright", "0", []string{"0.25"}},
	{"balSkipDim", "0.5", []string{"0.75"}},
	{"balShR", "1", []string{"0.9"}},
	{"balShG", "1", []string{"0.8"}},
	{"balShB", "1", []string{"0.7"}},
	{"balHiR", "1", []string{"0.6"}},
	{"balHiG", "1", []string{"0.5"}},
	{"balHiB", "1", []string{"0.4"}},
	{"chromaGamma", "1", []string{"1.5"}},
	{"chromaSigma", "1", []string{"2"}},
	{"chromaFrom", "295", []string{"200"}},
	{"chromaTo", "40", []string{"30"}},
	{"chromaBy", "1", []string{"-1"}},
	{"rotFrom", "100", []string{"110"}},
	{"rotTo", "190", []string{"180"}},
	{"rotBy", "0", []string{"-30"}},
	{"rotSigma", "1", []string{"2"}},
	{"scnr", "0", []string{"0.5"}},
	{"autoLoc", "10", []string{"0", "20"}},
	{"autoScale", "0.4", []string{"0", "1"}},
	{"midtone", "0", []string{"2"}},
	{"midBlack", "2", []string{"3"}},
	{"gamma", "1", []string{"2.5"}},
	{"ppGamma", "1", []string{"1.5"}},
	{"ppSigma", "1", []string{"2"}},
	{"preScale", "1", []string{"0.5"}},
	{"preOffset", "0", []string{"-100"}},
	{"lumScale", "1", []string{"0.5"}},
	{"lumOffset", "0", []string{"0.25"}},
	{"scaleBlack", "0", []string{"5"}},
	{"exportStats", "%auto", []string{"", "e.html"}},
}

// The documented processing chains.

func save(pattern string, mode int, gamma interface{}) obj {
	return obj{"type": "save", "filePattern": pattern, "saveMode": float64(mode), "gamma": gamma}
}

func seq(steps ...interface{}) obj { return obj{"type": "seq", "steps": steps} }

// chain is the job of a command, with the values of its flags.
func chain(command string, s settings, files list) obj {
	switch command { // defaults depending on the command
	case "stats":
		s = with(with(s, "bpSigLow", "0"), "bpSigHigh", "0")
		fallthrough
	case "rgb":
		if s.num("starBpSig").(float64) < 0 {
			s = with(s, "starBpSig", "0")
		}
		if s.get("normHist") == "4" {
			s = with(s, "normHist", "0")
		}
	case "stack":
		if s.num("starBpSig").(float64) < 0 {
			s = with(s, "starBpSig", "5")
		}
		if s.get("normHist") == "4" {
			s = with(s, "normHist", "2")
		}
	}
	load := obj{"type": "loadMany", "filePatterns": files}
	debayer := obj{"type": "debayer", "channel": s.get("debayer"), "colorFilterArray": s.get("cfa")}
	stars := obj{"type": "starDetect", "radius": s.num("starRadius"), "sigma": s.num("starSig"), "badPixelSigma": s.num("starBpSig"), "inOutRatio": s.num("starInOut"), "save": save(s.get("stars"), 0, 1.0)}
	pre := seq(
		obj{"type": "calibrate", "dark": s.get("dark"), "flat": s.get("flat")},
		obj{"type": "badPixel", "sigmaLow": s.num("bpSigLow"), "sigmaHigh": s.num("bpSigHigh"), "debayer": debayer},
		debayer,
		obj{"type": "debandHoriz", "percentile": s.num("debandH"), "window": s.num("debandHWindow"), "sigma": s.num("debandHSigma")},
		obj{"type": "debandVert", "percentile": s.num("debandV"), "window": s.num("debandVWindow"), "sigma": s.num("debandVSigma")},
		obj{"type": "scaleOffset", "scale": s.num("preScale"), "offset": s.num("preOffset")},
		obj{"type": "bin", "binSize": s.num("binning")},
		stars,
		obj{"type": "backExtract", "gridSize": s.num("backGrid"), "hfrFactor": s.num("backHFRFactor"), "sigma": s.num("backSigma"), "clip": s.num("backClip"), "save": save(s.get("back"), 0, 1.0)},
		obj{"type": "exportStats", "fileName": s.auto("exportStats", ".html")},
		save(s.get("pre"), 0, 1.0),
	)
	ref := func(target int, mode string) obj {
		return obj{"type": "selectRef", "target": float64(target), "mode": mode, "starDetect": stars}
	}
	align := func(oob int) obj {
		return obj{"type": "align", "k": s.num("alignK"), "threshold": s.num("alignT"), "oobMode": float64(oob)}
	}
	saves := func(mode int) list {
		return list{save(s.get("out"), 0, 1.0), save(s.auto("tiff", ".tif"), mode, 1.0), save(s.auto("jpg", ".jpg"), mode, s.num("jpgGamma"))}
	}
	switch command {
	case "stats":
		return seq(load, pre)
	case "stack":
		return seq(append(list{load,
			obj{"type": "stackBatches", "perBatch": seq(
				pre,
				ref(1, s.get("histoRef")),
				ref(0, s.get("alignRef")),
				obj{"type": "filter", "minStars": s.num("minStars")},
				obj{"type": "matchHist", "mode": s.num("normHist")},
				align(0),
				save(s.get("post"), 0, 1.0),
				obj{"type": "stack", "mode": s.num("stMode"), "weighting": s.num("stWeight"), "sigmaLow": s.num("stSigLow"), "sigmaHigh": s.num("stSigHigh")},
				stars,
				save(s.get("batch"), 0, 1.0),
			)},
			stars}, saves(3)...)...)
	case "stretch":
		return seq(append(list{load,
			obj{"type": "normRange"},
			obj{"type": "stretch", "location": s.percent("autoLoc"), "scale": s.percent("autoScale")},
			obj{"type": "midtones", "mid": s.num("midtone"), "black": s.num("midBlack")},
			obj{"type": "gamma", "gamma": s.num("gamma")},
			obj{"type": "gammaPP", "gamma": s.num("ppGamma"), "sigma": s.num("ppSigma")},
			obj{"type": "scaleBlack", "location": s.percent("scaleBlack")},
			stars,
			ref(0, s.get("alignRef")),
			align(2),
			obj{"type": "gaussianBlur", "sigma": s.num("blurSigma")},
			obj{"type": "unsharpMask", "sigma": s.num("usmSigma"), "gain": s.num("usmGain"), "threshold": s.num("usmThresh")},
		}, saves(1)...)...)
	case "rgb":
		color := func(p string) obj {
			return obj{"R": s.num(p + "R"), "G": s.num(p + "G"), "B": s.num(p + "B")}
		}
		return seq(append(list{load,
			stars,
			ref(0, "%rgb"),
			obj{"type": "rgbCombine"},
			obj{"type": "rgbBalance", "block": s.num("balBlock"), "border": s.num("balBorder"), "skipBright": s.num("balSkipBright"), "skipDim": s.num("balSkipDim"), "shadows": color("balSh"), "highlights": color("balHi")},
			obj{"type": "rgbToHSLuv"},
			obj{"type": "hslApplyLum"},
			obj{"type": "HSLUnsharpMask", "sigma": s.num("usmSigma"), "gain": s.num("usmGain"), "threshold": s.num("usmThresh")},
			obj{"type": "hslNeutralizeBackground", "sigmaLow": s.num("neutSigmaLow"), "sigmaHigh": s.num("neutSigmaHigh")},
			obj{"type": "hslSaturationGamma", "gamma": s.num("chromaGamma"), "sigma": s.num("chromaSigma")},
			obj{"type": "hslSelectiveSaturation", "from": s.num("chromaFrom"), "to": s.num("chromaTo"), "factor": s.num("chromaBy")},
			obj{"type": "hslRotateHue", "from": s.num("rotFrom"), "to": s.num("rotTo"), "offset": s.num("rotBy"), "sigma": s.num("rotSigma")},
			obj{"type": "hslSCNR", "factor": s.num("scnr")},
			obj{"type": "hslStretch", "location": s.percent("autoLoc"), "scale": s.percent("autoScale")},
			obj{"type": "hslMidtones", "mid": s.num("midtone"), "black": s.num("midBlack")},
			obj{"type": "hslGamma", "gamma": s.num("gamma")},
			obj{"type": "hslGammaPP", "gamma": s.num("ppGamma"), "sigma": s.num("ppSigma")},
			obj{"type": "hslScaleOffsetChannel", "channelID": 2.0, "scale": s.num("lumScale"), "offset": s.num("lumOffset")},
			obj{"type": "hslScaleBlack", "location": s.percent("scaleBlack")},
			obj{"type": "hsluvToRGB"},
		}, saves(1)...)...)
	}
	panic(command)
}

func with(s settings, name, value string) settings {
	t := settings{name: value}
	for k, v := range s {
		if k != name {
			t[k] = v
		}
	}
	return t
}

// differs describes the first difference between what is and what is wanted; numbers are kept with single precision.
func differs(path string, got, want interface{}) string {
	switch w := want.(type) {
	case obj:
		g, ok := got.(obj)
		if !ok {
			return fmt.Sprintf("%s is %v", path, got)
		}
		if t, ok := w["type"].(string); ok {
			path += "/" + t
		}
		keys := map[string]bool{}
		for k := range w {
			keys[k] = true
		}
		for k := range g {
			keys[k] = true
		}
		l := []string{}
		for k := range keys {
			l = append(l, k)
		}
		sort.Strings(l)
		for _, k := range l {
			if _, ok := w[k]; !ok {
				continue // parameters without a flag
			}
			if d := differs(path+"."+k, g[k], w[k]); d != "" {
				return d
			}
		}
		return ""
	case list:
		g, ok := got.(list)
		if !ok {
			return fmt.Sprintf("%s is %v", path, got)
		}
		for i := range w {
			if i >= len(g) {
				return fmt.Sprintf("%s has %d entries, expected %d", path, len(g), len(w))
			}
			if d := differs(fmt.Sprintf("%s[%d]", path, i), g[i], w[i]); d != "" {
				return d
			}
		}
		if len(g) != len(w) {
			return fmt.Sprintf("%s has %d entries, expected %d", path, len(g), len(w))
		}
		return ""
	case float64:
		g, ok := got.(float64)
		if ok && (g == w || math.Abs(g-w) <= 1e-6*math.Abs(w)) {
			return ""
		}
	default:
		if reflect.DeepEqual(got, want) {
			return ""
		}
	}
	return fmt.Sprintf("%s is %v, expected %v", path, got, want)
}

type result struct {
	status int
	out    string
	err    error
}

var binary = os.Getenv("VX_NIGHTLIGHT")

func command(dir string, args ...string) (r result) {
	cmd := exec.Command(binary, args...)
	cmd.Dir = dir
	cmd.Env = append(os.Environ(), "GOMAXPROCS=2")
	cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
	var b bytes.Buffer
	cmd.Stdout, cmd.Stderr = &b, &b
	if err := cmd.Start(); err != nil {
		panic(err)
	}
	t := time.AfterFunc(60*time.Second, func() { cmd.Process.Kill() })
	err := cmd.Wait()
	if !t.Stop() {
		return result{-1, b.String(), vx.Fail("hang", "%v does not end", args)}
	}
	if _, ok := err.(*exec.ExitError); err != nil && !ok {
		panic(err)
	}
	return result{cmd.ProcessState.ExitCode(), b.String(), nil}
}

// job finds the printed job.
func (r result) job() (obj, string, error) {
	const head = "Running JSON job:"
	i := strings.Index(r.out, head)
	if i < 0 {
		return nil, "", vx.Fail("no-job", "no job is printed, but %q", tail(r.out))
	}
	var raw json.RawMessage
	if err := json.NewDecoder(strings.NewReader(r.out[i+len(head):])).Decode(&raw); err != nil {
		return nil, "", vx.Fail("no-job", "the printed job is no JSON: %v", err)
	}
	var o obj
	if err := json.Unmarshal(raw, &o); err != nil {
		return nil, "", vx.Fail("no-job", "the printed job is no object: %v", err)
	}
	return o, string(raw), nil
}

func tail(s string) string {
	if len(s) > 300 {
		return s[len(s)-300:]
	}
	return s
}

// sky is a frame with stars.
func sky(n int, w, h int) *fits.Image {
	f := fits.NewImageFromNaxisn([]int32{int32(w), int32(h)}, nil)
	rnd := uint32(12345 + 77*n)
	for i := range f.Data {
		rnd ^= rnd << 13
		rnd ^= rnd >> 17
		rnd ^= rnd << 5
		f.Data[i] = 100 + 10*float32(n) + float32(rnd%8)
	}
	for k, s := range [][3]float64{{0.25, 0.3, 900}, {0.7, 0.25, 700}, {0.45, 0.7, 1200}, {0.8, 0.75, 500}, {0.2, 0.8, 600}} {
		cx, cy := int(s[0]*float64(w))+n, int(s[1]*float64(h))+n%2
		for y := -4; y <= 4; y++ {
			for x := -4; x <= 4; x++ {
				if px, py := cx+x, cy+y; px >= 0 && px < w && py >= 0 && py < h {
					f.Data[py*w+px] += float32(s[2] * (1 + 0.2*float64(n) + 0.05*float64(k)) * math.Exp(-float64(x*x+y*y)/2.5))
				}
			}
		}
	}
	f.Exposure = float32(10 * (n + 1))
	return f
}

var inputs map[string][]byte

func prepare(scratch string) {
	dir := scratch + "/prep"
	os.MkdirAll(dir, 0755)
	must := func(err error) {
		if err != nil {
			panic(err)
		}
	}
	for n := 0; n < 4; n++ {
		must(sky(n, 64, 48).WriteFile(fmt.Sprintf("%s/l%d.fits", dir, n)))
	}
	ref := sky(1, 64, 48)
	must(ref.WriteFile(dir + "/ref.fits"))
	dark, flat := sky(0, 64, 48), sky(0, 64, 48)
	for i := range dark.Data {
		dark.Data[i], flat.Data[i] = float32(i%5), 1+0.1*float32(i%3)
	}
	must(dark.WriteFile(dir + "/dark.fits"))
	must(flat.WriteFile(dir + "/flat.fits"))
	inputs = map[string][]byte{}
	l, _ := filepath.Glob(dir + "/*")
	for _, n := range l {
		b, err := os.ReadFile(n)
		must(err)
		inputs[filepath.Base(n)] = b
	}
	b := inputs["l1.fits"]
	inputs["torn.fits"] = b[:len(b)/2]
	inputs["text.fits"] = []byte("this is no image")
	inputs["empty.fits"] = nil
	os.RemoveAll(dir)
}

// place makes a directory with the inputs.
func place(scratch string) string {
	dir, err := os.MkdirTemp(scratch, "d")
	if err != nil {
		panic(err)
	}
	for n, b := range inputs {
		if err := os.WriteFile(dir+"/"+n, b, 0644); err != nil {
			panic(err)
		}
	}
	os.Mkdir(dir+"/sub", 0755)
	os.Mkdir(dir+"/dir.x", 0755)
	return dir
}

// outputs describes what has been written, except for logs.
func outputs(dir string) map[string]uint64 {
	m := map[string]uint64{}
	filepath.Walk(dir, func(p string, i os.FileInfo, err error) error {
		n, _ := filepath.Rel(dir, p)
		if _, ok := inputs[n]; err == nil && i.Mode().IsRegular() && !ok && !strings.HasSuffix(n, ".log") && n != "job.json" {
			b, _ := os.ReadFile(p)
			if strings.HasSuffix(n, ".html") { // the order of the rows is that of completion
				l := strings.Split(string(b), "\n")
				sort.Strings(l)
				m[n] = vx.Hash([]byte(strings.Join(l, "\n")))
			} else {
				m[n] = vx.Hash(b)
			}
			if len(b) == 0 {
				m[n] = 0
			}
		}
		return nil
	})
	return m
}

// arguments are the command line for the settings.
func arguments(s settings, command string, files ...string) (args []string) {
	l := []string{}
	for k := range s {
		l = append(l, k)
	}
	sort.Strings(l)
	if _, ok := s["log"]; !ok {
		args = append(args, "-log", "")
	}
	for _, k := range l {
		args = append(args, "-"+k+"="+s[k])
	}
	return append(append(args, command), files...)
}

// sensible settings for the inputs: deterministic, with stars.
var sensible = settings{"lsEst": "0", "starBpSig": "0", "starSig": "2", "starRadius": "5", "starInOut": "1.1", "stMemory": "500", "balBlock": "4"}

func main() {
	vx.Main("P31", "model_checking", func(c *vx.C) {
		prepare(c.Scratch)
		commands := []string{"stats", "stack", "stretch", "rgb"}
		type change struct {
			s settings
		}
		var changes []settings
		changes = append(changes, settings{})
		for _, f := range flags {
			for _, v := range f.others {
				changes = append(changes, settings{f.name: v})
			}
			if f.name != "stMemory" {
				changes = append(changes, settings{f.name: f.def})
			}
		}
		singles := len(changes)
		for i, f := range flags {
			for _, g := range flags[:i] {
				if c.Thorough || f.name == "out" || g.name == "out" || (i%7 == len(g.name)%7) {
					changes = append(changes, settings{f.name: f.others[0], g.name: g.others[len(g.others)-1]})
				}
			}
		}
		// all flags at once
		for k := 0; k < 3; k++ {
			all := settings{}
			for _, f := range flags {
				all[f.name] = f.others[k%len(f.others)]
			}
			changes = append(changes, all)
		}
		// jobs: the inputs do not matter, as none exists
		empty, err := os.MkdirTemp(c.Scratch, "empty")
		if err != nil {
			panic(err)
		}
		stride := 16
		for _, cmd := range commands {
			cmd := cmd
			c.Shards("flags, "+cmd, (len(changes)+stride-1)/stride, func(s *vx.S) {
				for k := s.ID * stride; k < (s.ID+1)*stride && k < len(changes); k++ {
					set := changes[k]
					files := []string{"x.fits", "y*.fits"}[:1+k%2]
					dir := empty
					if v := set.get("log"); v != "" { // creates a file
						dir, _ = os.MkdirTemp(c.Scratch, "log")
						os.Mkdir(dir+"/sub", 0755)
						os.Mkdir(dir+"/dir.x", 0755)
						defer os.RemoveAll(dir)
					}
					s.Check(func() string { return fmt.Sprint(arguments(set, cmd, files...)) }, func() error {
						r := command(dir, arguments(set, cmd, files...)...)
						if r.err != nil {
							return r.err
						}
						got, _, err := r.job()
						if err != nil {
							return err
						}
						s.States(1)
						s.Outcome(vx.Hash(fmt.Sprint(got)))
						want := list{}
						for _, f := range files {
							want = append(want, f)
						}
						if d := differs("job", got, chain(cmd, set, want)); d != "" {
							return vx.Fail("job", "%s", d)
						}
						if r.status == 0 {
							return vx.Fail("status", "success without any input file")
						}
						if l := set.auto("log", ".log"); l != "" {
							b, err := os.ReadFile(dir + "/" + l)
							if err != nil || !strings.Contains(string(b), "Running JSON job:") {
								return vx.Fail("log", "the log file %s does not hold the log: %v", l, err)
							}
						}
						return nil
					})
				}
			})
			c.Bound("%s: every flag with every listed other value, %d pairs of flags, and all flags at once", cmd, len(changes)-singles-3)
		}

		files := map[string][]string{"stats": {"l0.fits", "l1.fits", "l2.fits"}, "stack": {"l0.fits", "l1.fits", "l2.fits"}, "stretch": {"l1.fits"}, "rgb": {"l0.fits", "l1.fits", "l2.fits"}}
		// the printed job reproduces the outputs
		type rerun struct {
			cmd string
			s   settings
		}
		var reruns []rerun
		for _, cmd := range commands {
			for i, ch := range changes[:singles] {
				if _, ok := ch["stMemory"]; ok || (i%2 == 1 && !c.Thorough && len(ch) == 1 && flagKind(ch) == "number") {
					continue
				}
				m := settings{"tiff": "%auto"}
				for k, v := range sensible {
					m[k] = v
				}
				for k, v := range ch {
					if k == "lsEst" && v == "3" || k == "starBpSig" {
						continue // draws pixels at random
					}
					m[k] = v
				}
				reruns = append(reruns, rerun{cmd, m})
			}
		}
		c.Shards("reproduction", len(reruns), func(s *vx.S) {
			r := reruns[s.ID]
			s.Check(func() string { return fmt.Sprint(arguments(r.s, r.cmd, files[r.cmd]...)) }, func() error {
				a, b := place(c.Scratch), place(c.Scratch)
				defer os.RemoveAll(a)
				defer os.RemoveAll(b)
				ra := command(a, arguments(r.s, r.cmd, files[r.cmd]...)...)
				if ra.err != nil {
					return ra.err
				}
				_, raw, err := ra.job()
				if err != nil {
					return err
				}
				if err := os.WriteFile(b+"/job.json", []byte(raw), 0644); err != nil {
					panic(err)
				}
				rb := command(b, "-log", "", "-lsEst", r.s.get("lsEst"), "-stMemory", "500", "-job", "job.json", "run")
				if rb.err != nil {
					return rb.err
				}
				oa, ob := outputs(a), outputs(b)
				s.States(2)
				s.Transitions(2)
				s.Outcome(vx.Hash(fmt.Sprint(oa)))
				if (ra.status == 0) != (rb.status == 0) {
					return vx.Fail("reproduction", "the command exits with %d, its job with %d: %q and %q", ra.status, rb.status, tail(ra.out), tail(rb.out))
				}
				if !reflect.DeepEqual(oa, ob) {
					return vx.Fail("reproduction", "the command writes %v, its job %v", oa, ob)
				}
				if ra.status == 0 {
					set := with(r.s, "jpg", r.s.get("jpg"))
					want := []string{}
					if r.cmd != "stats" {
						want = append(want, set.get("out"), set.auto("tiff", ".tif"), set.auto("jpg", ".jpg"))
					}
					if r.cmd == "stats" || r.cmd == "stack" {
						want = append(want, set.auto("exportStats", ".html"))
					}
					for _, w := range want {
						if !strings.HasSuffix(w, ".html") {
							w = strings.Replace(w, "%d", "0", 1)
						}
						if h, ok := oa[w]; w != "" && (!ok || h == 0) {
							return vx.Fail("output", "success, but %s has not been written: %v", w, oa)
						}
					}
				}
				return nil
			})
		})
		c.Bound("reproduction: %d command lines, and the jobs they print", len(reruns))

		// exit status
		type trial struct {
			what string
			args []string
			good bool
			open int // number of frames to be loaded, if good
			prep func(dir string)
		}
		var trials []trial
		try := func(good bool, what string, ch settings, cmd string, files ...string) {
			m := settings{}
			for k, v := range sensible {
				m[k] = v
			}
			for k, v := range ch {
				m[k] = v
			}
			trials = append(trials, trial{what: what, args: arguments(m, cmd, files...), good: good, open: len(files)})
		}
		for _, cmd := range commands {
			fs := files[cmd]
			try(true, "plain", nil, cmd, fs...)
			try(true, "calibrated", settings{"dark": "dark.fits", "flat": "flat.fits"}, cmd, fs...)
			try(false, "no inputs", nil, cmd)
			try(false, "missing inputs", nil, cmd, "none0.fits", "none1.fits", "none2.fits")
			for i := range fs {
				for _, bad := range []string{"torn.fits", "text.fits", "empty.fits"} {
					l := append([]string{}, fs...)
					l[i] = bad
					try(false, "damaged input", nil, cmd, l...)
				}
			}
			for _, f := range []string{"dark", "flat"} {
				for _, v := range []string{"none.fits", "torn.fits", "text.fits"} {
					try(cmd == "stretch" || cmd == "rgb", "bad "+f, settings{f: v}, cmd, fs...)
				}
			}
			for _, f := range []string{"out", "jpg", "tiff", "stars", "exportStats", "pre", "post", "batch", "back"} {
				used := f == "stars" || (cmd == "stats" || cmd == "stack") && (f == "exportStats" || f == "pre" || f == "back") || cmd != "stats" && (f == "out" || f == "jpg" || f == "tiff") || cmd == "stack" && (f == "post" || f == "batch")
				ext := map[string]string{"jpg": ".jpg", "tiff": ".tif", "exportStats": ".html"}[f]
				if ext == "" {
					ext = ".fits"
				}
				more := settings{f: "nodir/x%d" + ext, "backGrid": "16"}
				if f != "jpg" && f != "out" {
					more["jpg"] = ""
				}
				if f == "out" {
					more["jpg"], more["exportStats"] = "", ""
				}
				try(!used, "unwritable "+f, more, cmd, fs...)
			}
			try(true, "profiled", settings{"memprofile": "mem.prof", "cpuprofile": "cpu.prof"}, cmd, fs...)
			try(false, "unwritable profile", settings{"memprofile": "nodir/mem.prof"}, cmd, fs...)
			try(false, "unwritable profile", settings{"cpuprofile": "nodir/cpu.prof"}, cmd, fs...)
			try(false, "unwritable log", settings{"log": "nodir/x.log"}, cmd, fs...)
		}
		try(false, "two channels only", nil, "rgb", "l0.fits", "l1.fits")
		try(false, "bad reference", settings{"alignRef": "none.fits"}, "stack", files["stack"]...)
		try(false, "bad reference", settings{"histoRef": "7"}, "stack", files["stack"]...)
		try(false, "no stars", settings{"starSig": "1000"}, "stack", files["stack"]...)
		try(false, "unknown command", nil, "frobnicate", "l0.fits")
		try(false, "missing job", settings{"job": "none.json"}, "run")
		try(false, "no job", nil, "run")
		for i, j := range []string{"", "{", "[]", "7", `{"type":"frob"}`, `{"type":"seq","steps":[{"type":"frob"}]}`, `{"type":"seq","steps":[{"type":"load","fileName":"none.fits"}]}`, `{"type":"seq","steps":[{"type":"load","fileName":"torn.fits"},{"type":"save","filePattern":"x.fits"}]}`, `{"type":"seq","steps":[{"type":"load","fileName":"l0.fits"},{"type":"save","filePattern":"nodir/x.fits"}]}`, `{"type":"seq","steps":[{"type":"load","fileName":"l0.fits"},{"type":"save","filePattern":"x.fits"}]}`} {
			j := j
			trials = append(trials, trial{what: "job " + j, args: []string{"-log", "", "-job", "j.json", "run"}, good: i == 9, prep: func(dir string) { os.WriteFile(dir+"/j.json", []byte(j), 0644) }})
		}
		// files named like commands
		for _, cmd := range commands {
			for _, name := range commands {
				name := name
				m := settings{}
				for k, v := range sensible {
					m[k] = v
				}
				trials = append(trials, trial{what: "with an unrelated file " + name, args: arguments(m, cmd, files[cmd]...), good: true, open: len(files[cmd]), prep: func(dir string) {
					os.WriteFile(dir+"/"+name, inputs["l3.fits"], 0644)
				}})
			}
			m := settings{}
			for k, v := range sensible {
				m[k] = v
			}
			trials = append(trials, trial{what: "pattern", args: arguments(m, cmd, "l["+strings.Repeat("01", 1)+"].fits", "l2.fits"), good: true, open: 3})
			trials = append(trials, trial{what: "pattern", args: arguments(m, cmd, "l0.fits", "l1.fits", "l?.fits")[:], good: true, open: 6})
		}
		c.Shards("status", len(trials), func(s *vx.S) {
			t := trials[s.ID]
			s.Check(func() string { return fmt.Sprintf("%s: %v", t.what, t.args) }, func() error {
				dir := place(c.Scratch)
				defer os.RemoveAll(dir)
				if t.prep != nil {
					t.prep(dir)
				}
				before := outputs(dir)
				r := command(dir, t.args...)
				if r.err != nil {
					return r.err
				}
				s.States(1)
				s.Transitions(1)
				s.Outcome(vx.Hash(t.what, r.status))
				if rgb := strings.Contains(fmt.Sprint(t.args), " rgb "); rgb && t.open > 4 {
					return nil // more channels than there are colors
				}
				if t.good != (r.status == 0) {
					return vx.Fail("status", "exits with %d: %q", r.status, tail(r.out))
				}
				if t.good && t.open > 0 {
					if n := strings.Count(r.out, ": Loaded "); n < t.open || strings.Contains(r.out, fmt.Sprintf("%d: Loaded ", t.open)) {
						return vx.Fail("loaded", "not %d frames are loaded: %q", t.open, tail(r.out))
					}
				}
				_ = before
				return nil
			})
		})
		c.Bound("exit status: %d command lines with good, missing and damaged inputs, failing saves, and bad jobs", len(trials))
	})
}

// flagKind tells numbers from names.
func flagKind(s settings) string {
	for k := range s {
		for _, f := range flags {
			if f.name == k {
				var v float64
				if json.Unmarshal([]byte(f.def), &v) == nil {
					return "number"
				}
			}
		}
	}
	return "name"
}
