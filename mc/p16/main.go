package main

import (
	"errors"
	"fmt"
	"io"
	"math"
	"os"
	"strconv"

	"github.com/mlnoga/nightlight/internal/fits"
	"github.com/mlnoga/nightlight/internal/ops"
	"github.com/mlnoga/nightlight/internal/ops/pre"
	"github.com/mlnoga/nightlight/internal/ops/ref"
	"github.com/mlnoga/nightlight/internal/star"
	"github.com/mlnoga/nightlight/internal/stats"
	"github.com/mlnoga/nightlight/internal/zzverif/fx"
	"github.com/mlnoga/nightlight/internal/zzverif/sx"
	"github.com/mlnoga/nightlight/internal/zzverif/vsched"
	"github.com/mlnoga/nightlight/internal/zzverif/vx"
)

// kind of an input frame
type kind struct {
	drop  bool // filtered out by an earlier step
	fail  bool // fails to load
	stars int
	hfr   float32
	loc   float32
}

func (k kind) String() string {
	if k.drop {
		return "dropped"
	}
	if k.fail {
		return "failing"
	}
	return fmt.Sprintf("%d*/%g@%g", k.stars, k.hfr, k.loc)
}

func frame(id int, k kind) *fits.Image {
	f := fits.NewImage()
	f.ID = id
	f.Naxisn = []int32{2, int32(2 + id)}
	n := 2 * (2 + id)
	f.Pixels = int32(n)
	f.Data = make([]float32, n)
	for i := range f.Data { // mean is loc, standard deviation 1+id
		f.Data[i] = k.loc + float32(1+id)*float32(1-2*(i%2))
	}
	f.Stats = stats.NewStats(f.Data, 2)
	for i := 0; i < k.stars; i++ {
		f.Stars = append(f.Stars, star.Star{Index: int32(id), X: float32(id) + 0.5, Y: float32(i), Mass: 100 - float32(i), HFR: k.hfr})
	}
	f.HFR = k.hfr
	return f
}

func score(k kind) float32 {
	if k.stars == 0 || k.hfr == 0 {
		return 0
	}
	return float32(k.stars) / k.hfr
}

// acceptable lists which frames the rule may name; nil means that selection has to fail.
func acceptable(mode string, ks []kind) (res []int) {
	for _, k := range ks {
		if k.fail {
			return nil
		}
	}
	if mode == "%rgb" && len(ks) > 3 {
		if ks[3].drop {
			return nil
		}
		return []int{3}
	}
	if mode == "%starsHFR" || mode == "%rgb" {
		best := float32(-1)
		for i, k := range ks {
			if k.drop {
				continue
			}
			if s := score(k); s > best {
				best, res = s, []int{i}
			} else if s == best {
				res = append(res, i)
			}
		}
		return res
	}
	if mode == "%location" {
		var ls []float64
		for _, k := range ks {
			if !k.drop {
				ls = append(ls, float64(k.loc))
			}
		}
		if len(ls) == 0 {
			return nil
		}
		for i := range ls {
			for j := i; j > 0 && ls[j] < ls[j-1]; j-- {
				ls[j], ls[j-1] = ls[j-1], ls[j]
			}
		}
		// any value between the two middle ones is a median
		lo, hi := ls[(len(ls)-1)/2], ls[len(ls)/2]
		for i, k := range ks {
			if !k.drop && float64(k.loc) >= lo && float64(k.loc) <= hi {
				res = append(res, i)
			}
		}
		return res
	}
	n, err := strconv.Atoi(mode)
	if err == nil && n >= 0 && n < len(ks) && !ks[n].drop {
		return []int{n}
	}
	return nil
}

// which frame do the results describe? -1 when none
func chosen(target ref.SelRefTarget, c *ops.Context, ks []kind) (ids []int, err error) {
	if target == ref.SRHisto {
		if c.MatchHisto == nil {
			return nil, nil
		}
		for i, k := range ks {
			if !k.drop && !k.fail && fx.Near(c.MatchHisto.Location(), float64(k.loc), 0) && fx.Near(c.MatchHisto.Scale(), float64(1+i), 1e-5) {
				ids = append(ids, i)
			}
		}
		if ids == nil {
			return nil, vx.Fail("foreign", "the histogram reference has location %g and scale %g, no input frame has", c.MatchHisto.Location(), c.MatchHisto.Scale())
		}
		return ids, nil
	}
	if c.AlignNaxisn == nil {
		return nil, nil
	}
	id := int(c.AlignNaxisn[1]) - 2
	if id < 0 || id >= len(ks) || c.AlignNaxisn[0] != 2 {
		return nil, vx.Fail("foreign", "the alignment reference has dimensions %v, no input frame has", c.AlignNaxisn)
	}
	if c.AlignHFR != ks[id].hfr || len(c.AlignStars) != ks[id].stars {
		return nil, vx.Fail("mixed", "alignment reference mixes frames: dimensions of frame %d, which has %v, but %d stars, HFR %g", id, ks[id], len(c.AlignStars), c.AlignHFR)
	}
	for _, s := range c.AlignStars {
		if int(s.Index) != id {
			return nil, vx.Fail("mixed", "alignment reference mixes frames: dimensions of frame %d, stars of frame %d", id, s.Index)
		}
	}
	return []int{id}, nil
}

type trial struct {
	c      *ops.Context
	ks     []kind
	calls  []int
	outs   []*fits.Image
	errs   []error
	given  []bool
	mkErr  error
	target []ref.SelRefTarget
	modes  []string
}

func newTrial(ks []kind, threads int, targets []ref.SelRefTarget, modes []string) *trial {
	stats.LSEstimator = stats.LSEMeanStdDev
	c := ops.NewContext(io.Discard, 100, stats.LSEMeanStdDev)
	c.MaxThreads = threads
	return &trial{c: c, ks: ks, calls: make([]int, len(ks)), outs: make([]*fits.Image, len(ks)), errs: make([]error, len(ks)), given: make([]bool, len(ks)), target: targets, modes: modes}
}

func (t *trial) operators() (os []ops.Operator) {
	for i := range t.target {
		os = append(os, ref.NewOpSelectReference(t.target[i], t.modes[i], pre.NewOpStarDetectDefault()))
	}
	return os
}

// promises for frames [from,to)
func (t *trial) promises(os []ops.Operator, from, to int) (ps []ops.Promise, err error) {
	for i := from; i < to; i++ {
		i := i
		ps = append(ps, func() (*fits.Image, error) {
			vsched.Add(&t.calls[i], 1)
			vsched.Yield()
			if t.ks[i].fail {
				return nil, errors.New("cannot load")
			}
			if t.ks[i].drop {
				return nil, nil
			}
			return frame(i, t.ks[i]), nil
		})
	}
	for _, o := range os {
		if ps, err = o.MakePromises(ps, t.c); err != nil {
			return nil, err
		}
	}
	if len(ps) != to-from {
		return nil, fmt.Errorf("%d promises for %d frames", len(ps), to-from)
	}
	for k := range ps {
		i, p := from+k, ps[k]
		ps[k] = func() (*fits.Image, error) {
			f, err := p()
			t.given[i], t.outs[i], t.errs[i] = true, f, err
			if f != nil { // later steps process the frame in place
				for j := range f.Data {
					f.Data[j] = f.Data[j]*3 + 1
				}
				f.Stats.UpdateCachedWith(3, 1)
			}
			return f, err
		}
	}
	return ps, nil
}

// verify judges the frames delivered so far; first is the number of frames among which the reference is selected.
func (t *trial) verify(first int) (string, error) {
	if t.mkErr != nil {
		return "", vx.Fail("promise", "%v", t.mkErr)
	}
	fail := false
	out := ""
	for i := range t.target {
		if t.modes[i] == "" {
			continue
		}
		want := acceptable(t.modes[i], t.ks[:first])
		if want == nil {
			fail = true
			continue
		}
		if fail {
			continue
		}
		got, err := chosen(t.target[i], t.c, t.ks[:first])
		if err != nil {
			return "", err
		}
		ok := false
		for _, w := range want {
			for _, g := range got {
				ok = ok || g == w
			}
		}
		if !ok {
			return "", vx.Fail("selection", "mode %s picks frame %v for target %d, the rule names one of %v", t.modes[i], got, t.target[i], want)
		}
		out += fmt.Sprint(" ref", got)
	}
	for i := range t.ks {
		if fail || t.ks[i].fail {
			if !t.given[i] {
				return "", vx.Fail("undelivered", "frame %d was never asked for", i)
			}
			if t.errs[i] == nil {
				return "", vx.Fail("continued", "frame %d passed although no reference can be selected", i)
			}
			out += " err"
			continue
		}
		if t.errs[i] != nil {
			return "", vx.Fail("refused", "frame %d: %v", i, t.errs[i])
		}
		if t.calls[i] != 1 {
			return "", vx.Fail("materialized", "frame %d was produced %d times", i, t.calls[i])
		}
		if t.ks[i].drop {
			if t.outs[i] != nil {
				return "", vx.Fail("order", "frame %d was filtered out, but frame %d is delivered in its place", i, t.outs[i].ID)
			}
			out += " -"
			continue
		}
		if t.outs[i] == nil {
			return "", vx.Fail("lost", "frame %d is not delivered", i)
		}
		if t.outs[i].ID != i {
			return "", vx.Fail("order", "frame %d is delivered in place of frame %d", t.outs[i].ID, i)
		}
		if !fx.Near(t.outs[i].Stats.Location(), 3*float64(t.ks[i].loc)+1, 1e-5) {
			return "", vx.Fail("twice", "frame %d was delivered twice", i)
		}
		out += " ok"
	}
	return out, nil
}

// concurrent explores the schedules of all frames evaluated in batches.
func concurrent(ks []kind, threads int, targets []ref.SelRefTarget, modes []string, batch, preempt int) sx.Job {
	return sx.Job{Name: fmt.Sprintf("frames %v, batches of %d, %d threads, targets %v modes %v, preemptions<=%d", ks, batch, threads, targets, modes, preempt), Preempt: preempt, OneOutcome: true,
		Setup: func() (func(), func() (string, error)) {
			t := newTrial(ks, threads, targets, modes)
			body := func() {
				os := t.operators()
				for from := 0; from < len(ks); from += batch {
					to := from + batch
					if to > len(ks) {
						to = len(ks)
					}
					ps, err := t.promises(os, from, to)
					if err != nil {
						t.mkErr = err
						return
					}
					ops.MaterializeAll(ps, threads, false)
				}
			}
			return body, func() (string, error) {
				n := batch
				if n > len(ks) {
					n = len(ks)
				}
				return t.verify(n)
			}
		}}
}

var align, histo = []ref.SelRefTarget{ref.SRAlign}, []ref.SelRefTarget{ref.SRHisto}
var both = []ref.SelRefTarget{ref.SRHisto, ref.SRAlign}

func jobs() (js []sx.Job) {
	a, b, cc, d := kind{stars: 4, hfr: 2, loc: 10}, kind{stars: 9, hfr: 3, loc: 30}, kind{stars: 6, hfr: 3, loc: 20}, kind{drop: true}
	z, bad := kind{loc: 25}, kind{fail: true}
	sets := [][]kind{{a}, {z}, {a, b}, {b, a}, {a, cc}, {z, z}, {d, a}, {b, d}, {d, d}, {bad, a}, {a, bad}}
	sets3 := [][]kind{{a, b, cc}, {d, b, a}, {a, d, b}, {z, cc, a}, {a, bad, b}}
	for _, m := range []string{"%starsHFR", "%location", "%rgb", "0", "1", "7"} {
		for _, set := range sets {
			for th := 1; th <= 2; th++ {
				js = append(js, concurrent(set, th, align, []string{m}, len(set), deep(2, 1)))
			}
			js = append(js, concurrent(set, 2, histo, []string{m}, len(set), deep(2, 1)))
		}
	}
	for _, m := range [][]string{{"%starsHFR", "%starsHFR"}, {"%location", "%starsHFR"}, {"1", "%location"}, {"", "%starsHFR"}, {"%starsHFR", ""}} {
		for _, set := range sets {
			js = append(js, concurrent(set, 2, both, m, len(set), deep(1, 0)))
		}
		for _, set := range sets3 {
			js = append(js, concurrent(set, 2, both, m, 3, 0), concurrent(set, 3, both, m, 3, 0), concurrent(set, 2, both, m, 2, 0))
		}
	}
	for _, m := range []string{"%starsHFR", "%location", "2"} {
		for _, set := range sets3 {
			js = append(js, concurrent(set, 2, align, []string{m}, 3, 1), concurrent(set, 3, align, []string{m}, 3, 1), concurrent(set, 2, histo, []string{m}, 2, 1))
		}
	}
	js = append(js, concurrent([]kind{a, b, cc, z}, 2, align, []string{"%rgb"}, 4, 0), concurrent([]kind{b, a, z, cc}, 4, align, []string{"%rgb"}, 4, 0), concurrent([]kind{a, b, cc, z}, 2, both, []string{"%starsHFR", "%starsHFR"}, 2, 0))
	return js
}

func starImage() []float32 {
	d := make([]float32, 64*48)
	for i := range d {
		d[i] = 100 + float32((i*7+i/64*3)%5)
	}
	for _, p := range [][2]int{{12, 12}, {40, 14}, {30, 34}, {50, 30}} {
		for dy := -4; dy <= 4; dy++ {
			for dx := -4; dx <= 4; dx++ {
				d[p[0]+dx+(p[1]+dy)*64] += float32(3000 * math.Exp(-float64(dx*dx+dy*dy)/4))
			}
		}
	}
	return d
}

func writeFits(name string, naxisn []int, data []float32) {
	cards := []string{fx.KV("SIMPLE", "T"), fx.KV("BITPIX", "-32"), fx.KV("NAXIS", fmt.Sprint(len(naxisn)))}
	for i, n := range naxisn {
		cards = append(cards, fx.KV(fmt.Sprintf("NAXIS%d", i+1), fmt.Sprint(n)))
	}
	raw := make([]fx.Raw, len(data))
	for i, v := range data {
		raw[i].F = float64(v)
	}
	if err := os.WriteFile(name, append(fx.HeaderBytes(cards), fx.Pad2880(fx.EncodeData(-32, raw))...), 0o666); err != nil {
		panic(err)
	}
}

func main() {
	js := jobs()
	if sx.Worker(js) {
		return
	}
	vx.Main("P16", "model_checking", func(c *vx.C) {
		os.Chdir(c.Scratch)
		stats.LSEstimator = stats.LSEMeanStdDev
		alpha := []kind{{drop: true}, {loc: 10}, {stars: 2, hfr: 2, loc: 10}, {stars: 3, hfr: 1, loc: 20}, {stars: 4, hfr: 4, loc: 40}, {stars: 6, hfr: 2, loc: 30}, {stars: 5, loc: 20}}
		if c.Thorough {
			alpha = append(alpha, kind{fail: true}, kind{stars: 1, hfr: 0.5, loc: -10}, kind{stars: 1, hfr: 50, loc: 1e6})
		}
		modes := []string{"%starsHFR", "%location", "%rgb", "0", "1", "2", "3", "4", "-1", "99"}
		nmax := 4
		c.Bound("frames: every sequence of 1..%d out of %v; modes %v; both targets; frames requested in every order (up to 3 frames, else in both directions)", nmax, alpha, modes)
		for n := 1; n <= nmax; n++ {
			n := n
			total := 1
			for i := 0; i < n; i++ {
				total *= len(alpha)
			}
			c.Shards(fmt.Sprintf("rules, %d frames", n), 64, func(s *vx.S) {
				for v := s.ID; v < total; v += 64 {
					ks := make([]kind, n)
					for i, x := 0, v; i < n; i++ {
						ks[i], x = alpha[x%len(alpha)], x/len(alpha)
					}
					var orders [][]int
					if n <= 3 {
						fx.Perms(n, func(p []int) { orders = append(orders, append([]int(nil), p...)) })
					} else {
						orders = [][]int{{0, 1, 2, 3}, {3, 2, 1, 0}}
					}
					for mi, m := range modes {
						for tg := 0; tg < 3; tg++ {
							tgt, md := align, []string{m}
							if tg == 1 {
								tgt = histo
							} else if tg == 2 {
								tgt, md = both, []string{m, modes[(mi*3+v)%len(modes)]}
							}
							seen := ""
							for oi, order := range orders {
								s.Check(func() string { return fmt.Sprintf("frames %v, targets %v, modes %v, order %v", ks, tgt, md, order) }, func() error {
									t := newTrial(ks, 1, tgt, md)
									ps, err := t.promises(t.operators(), 0, n)
									if err != nil {
										return vx.Fail("promise", "%v", err)
									}
									for _, i := range order {
										ps[i]()
									}
									o, err := t.verify(n)
									if err != nil {
										return err
									}
									s.Outcome(vx.Hash(v, md, o))
									if oi > 0 && o != seen {
										return vx.Fail("order-dependent", "requested in order %v the result is %s, in order %v %s", orders[0], seen, order, o)
									}
									seen = o
									return nil
								})
							}
						}
					}
				}
			})
		}
		many := []int{5, 8, 17, 33, 40, 65, 70, 101, 129, 150, 257, 300}
		c.Bound("%v frames, the best, the middle one and ties at every seventh place, requested in both directions", many)
		c.Shards("many", len(many), func(s *vx.S) {
			n := many[s.ID]
			for at := 0; at < n; at += 1 + n/7 {
				ks := make([]kind, n)
				for i := range ks {
					ks[i] = kind{stars: 1 + i%3, hfr: 4, loc: float32(1000 + i*37%n)}
				}
				ks[at] = kind{stars: 9, hfr: 1, loc: 999}
				last := n - 1 - at
				if last != at {
					ks[last].drop = true
				}
				for _, m := range []string{"%starsHFR", "%location", "%rgb", fmt.Sprint(n - 1), fmt.Sprint(at), fmt.Sprint(n)} {
					for tg := 0; tg < 2; tg++ {
						for dir := 0; dir < 2; dir++ {
							s.Check(func() string {
								return fmt.Sprintf("%d frames, best is %d, %d is dropped, mode %s, target %d, direction %d", n, at, last, m, tg, dir)
							}, func() error {
								tgt := align
								if tg == 1 {
									tgt = histo
								}
								t := newTrial(ks, 1, tgt, []string{m})
								ps, err := t.promises(t.operators(), 0, n)
								if err != nil {
									return vx.Fail("promise", "%v", err)
								}
								for i := range ps {
									if dir == 1 {
										i = n - 1 - i
									}
									ps[i]()
								}
								o, err := t.verify(n)
								if err != nil {
									return err
								}
								s.Outcome(vx.Hash(n, at, m, tg, o))
								return nil
							})
						}
					}
				}
			}
		})
		c.Bound("reference given by file: readable, missing, torn, forbidden, empty name; 1..3 frames, both targets, every order")
		writeFits("ref.fits", []int{64, 48}, starImage())
		b, _ := os.ReadFile("ref.fits")
		os.WriteFile("torn.fits", b[:5000], 0o666)
		names := []string{"ref.fits", "./ref.fits", "none.fits", "torn.fits", "/etc/passwd", "../ref.fits", ""}
		c.Shards("file", len(names), func(s *vx.S) {
			for n := 1; n <= 3; n++ {
				for tg := 0; tg < 2; tg++ {
					fx.Perms(n, func(p []int) {
						order := append([]int(nil), p...)
						s.Check(func() string {
							return fmt.Sprintf("%d frames, reference %q, target %d, order %v", n, names[s.ID], tg, order)
						}, func() error {
							ks := []kind{{stars: 2, hfr: 2, loc: 10}, {stars: 3, hfr: 1, loc: 20}, {loc: 5}}[:n]
							t := newTrial(ks, 2, []ref.SelRefTarget{ref.SelRefTarget(tg)}, []string{names[s.ID]})
							ps, err := t.promises(t.operators(), 0, n)
							if err != nil {
								return vx.Fail("promise", "%v", err)
							}
							for _, i := range order {
								ps[i]()
							}
							s.Outcome(vx.Hash(n, tg, names[s.ID]))
							ok := s.ID < 2 || s.ID == 6
							for i := range ks {
								if ok && (t.errs[i] != nil || t.outs[i] == nil || t.outs[i].ID != i || t.calls[i] != 1) {
									return vx.Fail("delivery", "frame %d: %v, produced %d times", i, t.errs[i], t.calls[i])
								}
								if !ok && t.errs[i] == nil {
									return vx.Fail("continued", "frame %d passed although the reference cannot be loaded", i)
								}
							}
							if s.ID >= 2 {
								return nil
							}
							if tg == 0 {
								ff, err := fits.NewImageFromFile("ref.fits", 0, io.Discard)
								if err != nil {
									return err
								}
								ff, err = pre.NewOpStarDetectDefault().Apply(ff, t.c)
								if err != nil || len(ff.Stars) == 0 {
									return fmt.Errorf("no stars in the reference file")
								}
								if fmt.Sprint(t.c.AlignNaxisn) != "[64 48]" || fmt.Sprint(t.c.AlignStars) != fmt.Sprint(ff.Stars) || t.c.AlignHFR != ff.HFR {
									return vx.Fail("file", "reference has dimensions %v and %d stars, HFR %g", t.c.AlignNaxisn, len(t.c.AlignStars), t.c.AlignHFR)
								}
							} else {
								sum := 0.0
								for _, v := range starImage() {
									sum += float64(v)
								}
								if t.c.MatchHisto == nil || !fx.Near(t.c.MatchHisto.Location(), sum/(64*48), 1e-3) {
									return vx.Fail("file", "histogram reference is not that of the file")
								}
							}
							return nil
						})
					})
				}
			}
		})
		sx.Phase(c, "schedules", js, 5)
	})
}

// deep picks the preemption bound by tier.
func deep(thorough, quick int) int {
	for _, a := range os.Args {
		if a == "thorough" {
			return thorough
		}
	}
	return quick
}
