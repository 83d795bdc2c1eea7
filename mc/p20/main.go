// P20: pipelines give the same images, statistics tables and errors for every interleaving and every thread limit.
package main

import (
	"encoding/json"
	"fmt"
	"io"
	"math"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"sync"

	"github.com/mlnoga/nightlight/internal/fits"
	"github.com/mlnoga/nightlight/internal/ops"
	_ "github.com/mlnoga/nightlight/internal/ops/hsl"
	_ "github.com/mlnoga/nightlight/internal/ops/post"
	_ "github.com/mlnoga/nightlight/internal/ops/pre"
	_ "github.com/mlnoga/nightlight/internal/ops/ref"
	_ "github.com/mlnoga/nightlight/internal/ops/rgb"
	_ "github.com/mlnoga/nightlight/internal/ops/stack"
	_ "github.com/mlnoga/nightlight/internal/ops/stretch"
	"github.com/mlnoga/nightlight/internal/stats"
	"github.com/mlnoga/nightlight/internal/zzverif/sx"
	"github.com/mlnoga/nightlight/internal/zzverif/vsched"
	"github.com/mlnoga/nightlight/internal/zzverif/vx"
)

// sky is a frame with a few stars, shifted and scaled differently for each number.
func sky(n int, w, h int) *fits.Image {
	f := fits.NewImageFromNaxisn([]int32{int32(w), int32(h)}, nil)
	rnd := uint32(12345 + 77*n)
	for i := range f.Data {
		rnd ^= rnd << 13
		rnd ^= rnd >> 17
		rnd ^= rnd << 5
		f.Data[i] = 100 + 10*float32(n) + float32(rnd%8)
	}
	stars := [][3]float64{{0.25, 0.3, 900}, {0.7, 0.25, 700}, {0.45, 0.7, 1200}, {0.8, 0.75, 500}, {0.2, 0.8, 600}}
	for k, s := range stars {
		if k >= 4+n%2 {
			break
		}
		cx, cy := math.Floor(s[0]*float64(w))+float64(n), math.Floor(s[1]*float64(h))+float64(n%2)
		for y := -4; y <= 4; y++ {
			for x := -4; x <= 4; x++ {
				px, py := int(cx)+x, int(cy)+y
				if px >= 0 && px < w && py >= 0 && py < h {
					f.Data[py*w+px] += float32(s[2] * (1 + 0.2*float64(n)) * math.Exp(-float64(x*x+y*y)/2.5))
				}
			}
		}
	}
	f.Exposure = float32(10 * (n + 1))
	f.Stats = stats.NewStats(f.Data, f.Naxisn[0])
	return f
}

var inputs sync.Once

// prepare writes the inputs into the current directory.
func prepare(w, h int) {
	inputs.Do(func() {
		must := func(err error) {
			if err != nil {
				panic(err)
			}
		}
		must(os.Mkdir("out", 0755))
		for n := 0; n < 6; n++ {
			must(sky(n, w, h).WriteFile(fmt.Sprintf("light%d.fits", n)))
		}
		dark, flat := sky(0, w, h), sky(0, w, h)
		for i := range dark.Data {
			dark.Data[i], flat.Data[i] = float32(i%5), 1+0.1*float32(i%3)
		}
		must(dark.WriteFile("dark.fits"))
		must(flat.WriteFile("flat.fits"))
		must(sky(0, w/2, h).WriteFile("small.fits"))
		for n := 0; n < 2; n++ {
			c := fits.NewImageFromNaxisn([]int32{int32(w), int32(h), 3}, nil)
			for ch := 0; ch < 3; ch++ {
				for i, v := range sky(n, w, h).Data {
					c.Data[ch*w*h+i] = v * float32(ch+3) / 10000
				}
			}
			must(c.WriteFile(fmt.Sprintf("color%d.fits", n)))
		}
		b, err := os.ReadFile("light1.fits")
		must(err)
		must(os.WriteFile("torn.fits", b[:len(b)-2880], 0644))
		empty := sky(0, w, h)
		for i := range empty.Data {
			empty.Data[i] = 100 + float32(i%3)
		}
		must(empty.WriteFile("empty.fits"))
	})
}

func clean() {
	l, _ := filepath.Glob("out/*")
	for _, f := range l {
		os.Remove(f)
	}
}

// Steps which share state between frames.
const (
	calibrate  = `{"type":"calibrate","dark":"dark.fits","flat":"flat.fits"}`
	badPixel   = `{"type":"badPixel"}`
	stars      = `{"type":"starDetect","radius":4,"sigma":2,"badPixelSigma":0,"inOutRatio":1.2}`
	selHisto   = `{"type":"selectRef","target":1,"mode":"%location"}`
	selAlign   = `{"type":"selectRef","target":0,"mode":"%starsHFR"}`
	selNumber  = `{"type":"selectRef","target":0,"mode":"2"}`
	selFile    = `{"type":"selectRef","target":0,"mode":"light3.fits","starDetect":` + stars + `}`
	selHFile   = `{"type":"selectRef","target":1,"mode":"light3.fits"}`
	filter     = `{"type":"filter","minStars":5}`
	matchHisto = `{"type":"matchHist","mode":3}`
	align      = `{"type":"align","k":20,"threshold":1,"oobMode":0}`
	alignRef   = `{"type":"align","k":20,"threshold":1,"oobMode":1}`
	alignOwn   = `{"type":"align","k":20,"threshold":1,"oobMode":2}`
	export     = `{"type":"exportStats","fileName":"out/stats.html"}`
	export2    = `{"type":"exportStats","fileName":"out/stats2.html"}`
	save       = `{"type":"save","filePattern":"out/f%d.fits","saveMode":0}`
	saveAfter  = `{"type":"save","filePattern":"out/g%d.fits","saveMode":0}`
	saveNoDir  = `{"type":"save","filePattern":"nodir/f%d.fits","saveMode":0}`
	mean       = `{"type":"stack","mode":1,"weighting":1,"sigmaLow":2,"sigmaHigh":2}`
	sigma      = `{"type":"stack","mode":2,"weighting":0,"sigmaLow":1,"sigmaHigh":1}`
)

func seq(steps ...string) string {
	return `{"type":"seq","steps":[` + strings.Join(steps, ",") + `]}`
}

func load(files ...string) string {
	b, _ := json.Marshal(files)
	return fmt.Sprintf(`{"type":"loadMany","filePatterns":%s}`, b)
}

func lights(n int) string {
	var l []string
	for i := 0; i < n; i++ {
		l = append(l, fmt.Sprintf("light%d.fits", i))
	}
	return load(l...)
}

func batches(steps ...string) string {
	return `{"type":"stackBatches","perBatch":` + seq(steps...) + `}`
}

type pipeline struct {
	name  string
	job   string
	w, h  int
	perm  []int // order in which frames are assigned to batches
	bound int   // preemptions
}

// perform runs the job and describes everything it results in.
func perform(job string, threads int) string {
	var op ops.OpSequence
	if err := json.Unmarshal([]byte(job), &op); err != nil {
		panic(err)
	}
	c := ops.NewContext(io.Discard, 1, stats.LSEMeanStdDev)
	c.MaxThreads = threads
	ps, err := op.MakePromises(nil, c)
	if err != nil {
		return "refused: " + err.Error()
	}
	fs, err := ops.MaterializeAll(ps, c.MaxThreads, false)
	var l []string
	if err != nil {
		// which of several errors comes first, and how often the same one is mentioned, is free
		texts := map[string]bool{}
		for _, t := range strings.FieldsFunc(err.Error(), func(r rune) bool { return r == ';' || r == '\n' }) {
			texts[strings.TrimSpace(t)] = true
		}
		var e []string
		for t := range texts {
			e = append(e, t)
		}
		sort.Strings(e)
		l = append(l, "errors: "+strings.Join(e, "; "))
	} else {
		for i, f := range fs {
			if f == nil {
				l = append(l, fmt.Sprintf("result %d none", i))
			} else {
				l = append(l, fmt.Sprintf("result %d: frame %d, %v, %d stars, HFR %g, exposure %g, transformation %v, residual %g, pixels %x", i, f.ID, f.Naxisn, len(f.Stars), f.HFR, f.Exposure, f.Trans, f.Residual, vx.HashF(f.Data)))
			}
		}
	}
	return strings.Join(l, "\n")
}

// written describes the files in the output directory.
func written() (res string) {
	l, _ := filepath.Glob("out/*")
	sort.Strings(l)
	for _, n := range l {
		b, err := os.ReadFile(n)
		if err != nil {
			return err.Error()
		}
		if strings.HasSuffix(n, ".html") { // the order of rows is free
			rows := strings.Split(string(b), "\n")
			sort.Strings(rows)
			res += fmt.Sprintf("\n%s: %d lines %x", n, len(rows), vx.Hash(strings.Join(rows, "\n")))
		} else {
			res += fmt.Sprintf("\n%s: %x", n, vx.Hash(b))
		}
	}
	return res
}

var pipelines = []pipeline{
	{name: "calibrated frames", job: seq(lights(3), calibrate, save), bound: 2},
	{name: "calibration with mismatched flat", job: seq(lights(3), `{"type":"calibrate","dark":"dark.fits","flat":"small.fits"}`, save), bound: 2},
	{name: "calibration with missing dark", job: seq(lights(3), `{"type":"calibrate","dark":"none.fits","flat":"flat.fits"}`, save), bound: 2},
	{name: "stars and statistics", job: seq(lights(3), stars, export, save), bound: 2},
	{name: "two exports", job: seq(lights(2), export, stars, export2), bound: 2},
	{name: "matched histograms", job: seq(lights(3), selHisto, matchHisto, save), bound: 2},
	{name: "matched to a file", job: seq(lights(3), selHFile, matchHisto, save), bound: 2},
	{name: "aligned frames", job: seq(lights(3), stars, selAlign, align, save), bound: 2},
	{name: "aligned to a numbered frame", job: seq(lights(3), stars, selNumber, alignOwn, save), bound: 2},
	{name: "aligned to a file", job: seq(lights(3), stars, selFile, align, save), bound: 2},
	{name: "both references", job: seq(lights(3), stars, selHisto, selAlign, matchHisto, alignRef, save), bound: 1},
	{name: "aligned, mean stack", job: seq(lights(3), stars, selAlign, align, export, mean), bound: 2},
	{name: "filtered", job: seq(lights(4), stars, filter, selAlign, align, mean), bound: 1},
	{name: "everything", job: seq(lights(3), calibrate, stars, export, selHisto, selAlign, matchHisto, align, saveAfter, mean, stars, save), bound: 1},
	{name: "everything, 4 frames", job: seq(lights(4), calibrate, badPixel, stars, export, selHisto, selAlign, matchHisto, align, sigma, stars), bound: 1},
	{name: "torn frame", job: seq(load("light0.fits", "torn.fits", "light2.fits"), calibrate, stars, export, save), bound: 2},
	{name: "torn frame before selection", job: seq(load("light0.fits", "torn.fits", "light2.fits"), stars, selAlign, align, save), bound: 2},
	{name: "two torn frames", job: seq(load("torn.fits", "light0.fits", "torn.fits"), stars, selAlign, align, mean), bound: 2},
	{name: "frame without stars", job: seq(load("light0.fits", "empty.fits", "light2.fits"), stars, selAlign, align, save), bound: 2},
	{name: "frames without stars only", job: seq(load("empty.fits", "empty.fits"), stars, selAlign, align, save), bound: 2},
	{name: "frame of another size", job: seq(load("light0.fits", "small.fits", "light2.fits"), calibrate, stars, mean), bound: 2},
	{name: "failing save", job: seq(lights(3), calibrate, saveNoDir, mean), bound: 2},
	{name: "reference missing", job: seq(lights(3), stars, `{"type":"selectRef","target":0,"mode":"none.fits"}`, align), bound: 2},
	{name: "other preprocessing", job: seq(lights(2), badPixel, `{"type":"debandHoriz","percentile":50,"window":8,"sigma":2}`, `{"type":"debandVert","percentile":50,"window":8,"sigma":2}`, `{"type":"scaleOffset","scale":2,"offset":1}`, stars, `{"type":"backExtract","gridSize":8,"hfrFactor":4,"sigma":1.5,"clip":1}`, `{"type":"bin","binSize":2}`, save), bound: 1},
	{name: "debayered", job: seq(lights(2), `{"type":"badPixel","sigmaLow":3,"sigmaHigh":3,"debayer":{"type":"debayer","channel":"R","colorFilterArray":"RGGB"}}`, `{"type":"debayer","channel":"G","colorFilterArray":"RGGB"}`, save), bound: 1},
	{name: "stretched", job: seq(lights(2), `{"type":"normRange"}`, `{"type":"stretch","location":0.1,"scale":0.01}`, `{"type":"midtones","mid":0.4,"black":0.1}`, `{"type":"gamma","gamma":1.5}`, `{"type":"gammaPP","gamma":1.5,"sigma":1}`, `{"type":"scaleBlack","black":0.1}`, `{"type":"gaussianBlur","sigma":1}`, `{"type":"unsharpMask","sigma":1,"gain":1,"threshold":1}`, save, `{"type":"save","filePattern":"out/p%d.jpg"}`, `{"type":"save","filePattern":"out/t%d.tif","saveMode":1}`), bound: 1},
	{name: "colors", job: seq(load("color0.fits", "color1.fits"), `{"type":"rgbToHSLuv"}`, `{"type":"HSLUnsharpMask","sigma":1,"gain":1,"threshold":1}`, `{"type":"hslNeutralizeBackground","sigmaLow":0.75,"sigmaHigh":1}`, `{"type":"hslSaturationGamma","gamma":1.5,"sigma":1}`, `{"type":"hslSelectiveSaturation","from":10,"to":100,"factor":1.2}`, `{"type":"hslRotateHue","from":10,"to":100,"offset":10,"lthres":1}`, `{"type":"hslSCNR","factor":0.5}`, `{"type":"hslMidtones","mid":0.4,"black":0.1}`, `{"type":"hslGamma","gamma":1.5}`, `{"type":"hslGammaPP","gamma":1.5,"sigma":1}`, `{"type":"hslScaleOffsetChannel","channelID":2,"scale":1,"offset":0}`, `{"type":"hslScaleBlack","location":0.1}`, `{"type":"hsluvToRGB"}`, save, `{"type":"save","filePattern":"out/p%d.jpg"}`, `{"type":"save","filePattern":"out/t%d.tif","saveMode":1}`), bound: 1},
	{name: "colors combined", job: seq(load("light0.fits", "light1.fits", "light2.fits"), stars, `{"type":"selectRef","target":0,"mode":"%rgb"}`, `{"type":"rgbCombine"}`, save), bound: 2},
	{name: "stack in one batch", job: seq(lights(3), batches(calibrate, stars, selAlign, align, mean), save), bound: 1},
	{name: "stack in three batches", w: 208, h: 208, perm: []int{0, 1, 2, 3, 4}, job: seq(lights(5), batches(calibrate, stars, selHisto, selAlign, matchHisto, align, export, mean), stars, save), bound: 1},
	{name: "stack in three batches, another assignment", w: 208, h: 208, perm: []int{4, 0, 3, 1, 2}, job: seq(lights(5), batches(calibrate, stars, selAlign, align, saveAfter, mean), save), bound: 1},
}

func job(p pipeline, threads, bound int) sx.Job {
	if p.w == 0 {
		p.w, p.h = 32, 32
	}
	return sx.Job{Name: fmt.Sprintf("%s, %d threads", p.name, threads), Preempt: bound, NumCPU: threads, OneOutcome: true, Group: p.name, Setup: func() (func(), func() (string, error)) {
		prepare(p.w, p.h)
		clean()
		stats.LSEstimator = stats.LSEMeanStdDev
		vsched.PermHook = func(n int) []int {
			if n != len(p.perm) {
				l := make([]int, n)
				for i := range l {
					l[i] = i
				}
				return l
			}
			return append([]int{}, p.perm...)
		}
		var out string
		return func() { out = perform(p.job, threads) }, func() (string, error) {
			return out + written(), nil
		}
	}}
}

func main() {
	var quick, deep []sx.Job
	for _, p := range pipelines {
		for _, threads := range []int{1, 2, 3} {
			if p.perm != nil && threads != 2 {
				continue // would give other batches
			}
			quick = append(quick, job(p, threads, p.bound))
			deep = append(deep, job(p, threads, p.bound+1))
		}
	}
	jobs := quick
	if len(os.Args) > 1 && os.Args[1] == "thorough" {
		jobs = deep
	}
	if sx.Worker(jobs) {
		return
	}
	vx.Main("P20", "model_checking", func(c *vx.C) {
		seconds := 12
		if c.Thorough {
			seconds = 4 // times 15
		}
		sx.Phase(c, "pipelines", jobs, seconds)
	})
}
