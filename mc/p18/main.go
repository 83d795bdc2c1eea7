package main

import (
	"errors"
	"fmt"
	"io"
	"math"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
	"sync"

	"github.com/mlnoga/nightlight/internal/fits"
	"github.com/mlnoga/nightlight/internal/ops"
	"github.com/mlnoga/nightlight/internal/ops/stack"
	"github.com/mlnoga/nightlight/internal/stats"
	"github.com/mlnoga/nightlight/internal/zzverif/fx"
	"github.com/mlnoga/nightlight/internal/zzverif/vsched"
	"github.com/mlnoga/nightlight/internal/zzverif/vx"
)

// scenario of one run of the real batching operator
type scenario struct {
	n, avail, cpus int
	dark, flat     bool
	shape          int // 0 mono, 1 colour planes, 2 one axis, 3 alternating wide and tall frames
	mode           stack.StackMode
	drop           int // mask of frames dropped inside their batch
	dropIn         int // mask of frames dropped before batching
	failFrame      int // frame that fails, or -1
	failBatch      int // batch whose result fails, or -1
	nilBatch       int // batch without result, or -1
	twoStep        bool
}

func (sc scenario) String() string {
	s := fmt.Sprintf("%d frames, memory for %d frames, %d processors, shape %d, mode %d", sc.n, sc.avail, sc.cpus, sc.shape, sc.mode)
	if sc.dark {
		s += ", dark"
	}
	if sc.flat {
		s += ", flat"
	}
	if sc.drop != 0 || sc.dropIn != 0 {
		s += fmt.Sprintf(", dropped %b inside and %b before", sc.drop, sc.dropIn)
	}
	if sc.failFrame >= 0 {
		s += fmt.Sprintf(", frame %d fails", sc.failFrame)
	}
	if sc.failBatch >= 0 {
		s += fmt.Sprintf(", batch %d fails", sc.failBatch)
	}
	if sc.nilBatch >= 0 {
		s += fmt.Sprintf(", batch %d has no result", sc.nilBatch)
	}
	return s
}

func plain(n, avail, cpus int) scenario {
	return scenario{n: n, avail: avail, cpus: cpus, mode: stack.StMean, failFrame: -1, failBatch: -1, nilBatch: -1}
}

// watch is a step that records what passes it.
type watch struct {
	ops.OpBase
	make func(ins []ops.Promise, c *ops.Context) ([]ops.Promise, error)
}

func (w *watch) MakePromises(ins []ops.Promise, c *ops.Context) ([]ops.Promise, error) {
	return w.make(ins, c)
}

func step(f func(ins []ops.Promise, c *ops.Context) ([]ops.Promise, error)) ops.Operator {
	return &watch{OpBase: ops.OpBase{Type: "watch"}, make: f}
}

// value of a pixel of a frame: exactly representable, different frames are told apart by every sum of them
func value(id, px int) float32 { return float32(int(1)<<uint(id%12)) + float32(px%5)*float32(id%3) }

var templates [12 * 3][]float32
var templatesMu sync.Mutex

var pool = sync.Pool{New: func() interface{} { return make([]float32, 1<<18) }}

func template(id, n int) []float32 {
	templatesMu.Lock()
	defer templatesMu.Unlock()
	k := id % len(templates)
	if templates[k] == nil {
		templates[k] = make([]float32, 1<<18)
		for p := range templates[k] {
			templates[k][p] = value(k, p)
		}
	}
	return templates[k][:n]
}

func exposure(id int) float32 { return float32(10 + id*id) }

func axes(shape, pixels int) [][]int32 {
	switch shape {
	case 1:
		return [][]int32{{int32(pixels / 6), 2, 3}}
	case 2:
		return [][]int32{{int32(pixels)}}
	case 3:
		w := int32(pixels / 16)
		return [][]int32{{w, 16}, {16, w}}
	}
	return [][]int32{{int32(pixels / 4), 4}}
}

func run(sc scenario) (key uint64, err error) {
	// the largest frames of which the given number fits
	pixels := (1 << 20) / (4 * sc.avail) / 48 * 48
	if (1<<20)/(4*pixels) != sc.avail {
		return 0, nil // not possible with this granularity
	}
	ax := axes(sc.shape, pixels)
	c := ops.NewContext(io.Discard, 1, stats.LSEMeanStdDev)
	c.StackMemoryMB = 1
	c.MaxThreads = 2
	if sc.dark {
		c.DarkFrame = fits.NewImageFromNaxisn(ax[0], nil)
	}
	if sc.flat {
		c.FlatFrame = fits.NewImageFromNaxisn(ax[0], nil)
	}
	var mu sync.Mutex
	var taken [][]float32
	defer func() {
		for _, d := range taken {
			pool.Put(d)
		}
	}()
	runs := make([]int, sc.n)
	ins := make([]ops.Promise, sc.n)
	for i := range ins {
		i := i
		ins[i] = func() (*fits.Image, error) {
			mu.Lock()
			runs[i]++
			mu.Unlock()
			if i == sc.failFrame {
				return nil, fmt.Errorf("frame %d is unreadable", i)
			}
			if sc.dropIn>>uint(i)&1 == 1 {
				return nil, nil
			}
			d := pool.Get().([]float32)
			mu.Lock()
			taken = append(taken, d)
			mu.Unlock()
			f := fits.NewImageFromNaxisn(ax[i%len(ax)], d[:pixels])
			f.ID, f.Exposure = i, exposure(i)
			copy(f.Data, template(i, len(f.Data)))
			return f, nil
		}
	}
	var sizes, threads []int
	var members [][]int
	first := step(func(in []ops.Promise, c *ops.Context) ([]ops.Promise, error) {
		b := len(sizes)
		sizes = append(sizes, len(in))
		threads = append(threads, c.MaxThreads)
		members = append(members, nil)
		out := make([]ops.Promise, len(in))
		for k := range in {
			k := k
			out[k] = func() (*fits.Image, error) {
				f, err := in[k]()
				if err != nil || f == nil {
					return f, err
				}
				mu.Lock()
				members[b] = append(members[b], f.ID)
				mu.Unlock()
				if sc.drop>>uint(f.ID)&1 == 1 {
					return nil, nil
				}
				return f, nil
			}
		}
		return out, nil
	})
	var results []*fits.Image
	last := step(func(in []ops.Promise, c *ops.Context) ([]ops.Promise, error) {
		b := len(sizes) - 1
		if len(in) != 1 {
			return nil, errors.New("several results")
		}
		return []ops.Promise{func() (*fits.Image, error) {
			if b == sc.failBatch {
				return nil, fmt.Errorf("batch %d cannot be saved", b)
			}
			f, err := in[0]()
			if err != nil || f == nil {
				return f, err
			}
			if b == sc.nilBatch {
				return nil, nil
			}
			copied := *f
			if sc.mode != stack.StMean {
				copied.Data = append([]float32(nil), f.Data...)
			}
			results = append(results, &copied)
			return f, nil
		}}, nil
	})
	op := stack.NewOpStackBatches(ops.NewOpSequence(first, stack.NewOpStack(sc.mode, stack.StWeightNone, 2.75, 2.75), last))
	ps, err := op.MakePromises(ins, c)
	var res *fits.Image
	if err == nil {
		if len(ps) != 1 {
			return 0, vx.Fail("promises", "%d results promised", len(ps))
		}
		res, err = ps[0]()
	}

	used := map[int]bool{}
	exp := float32(0)
	for i := 0; i < sc.n; i++ {
		if (sc.drop|sc.dropIn)>>uint(i)&1 == 0 {
			used[i] = true
			exp += exposure(i)
		}
	}
	fits2 := func(t, b, batches int) bool { // documented memory needs of batches of b frames with t threads
		need := b + t
		if sc.dark {
			need++
		}
		if sc.flat {
			need++
		}
		if batches > 1 {
			need += 2
		}
		return need <= sc.avail
	}
	key = vx.Hash(fmt.Sprint(sizes), fmt.Sprint(members), err != nil)
	if err != nil {
		if len(sizes) == 0 && sc.failFrame < 0 && sc.dropIn != 1<<uint(sc.n)-1 && fits2(1, 2, 2) {
			return key, vx.Fail("refused", "stacking refused although two frames, one thread and the two extra frames fit: %v", err)
		}
		legit := sc.failFrame >= 0 || sc.failBatch >= 0 || sc.nilBatch >= 0 || sc.shape == 3 || !fits2(1, 2, 2) || len(used) == 0
		for _, m := range members { // a batch of which every frame is dropped
			any := false
			for _, id := range m {
				any = any || used[id]
			}
			legit = legit || !any
		}
		if !legit {
			return key, vx.Fail("error", "failed without a reason: %v", err)
		}
		return key, nil
	}
	if sc.failFrame >= 0 || sc.failBatch >= 0 && sc.failBatch < len(sizes) {
		return key, vx.Fail("error-lost", "a failing batch was not reported, batches %v", sizes)
	}
	if sc.nilBatch >= 0 && sc.nilBatch < len(sizes) {
		if res == nil {
			return key, nil // nothing claimed
		}
		for _, id := range members[sc.nilBatch] {
			if used[id] {
				delete(used, id)
				exp -= exposure(id)
			}
		}
	}
	if res == nil {
		if len(used) == 0 {
			return key, nil
		}
		return key, vx.Fail("no-result", "no result and no error")
	}
	// every frame in exactly one batch
	seen := map[int]int{}
	for _, m := range members {
		for _, id := range m {
			seen[id]++
		}
	}
	total := 0
	for b, n := range sizes {
		total += n
		if n == 0 {
			return key, vx.Fail("empty-batch", "batch %d has no frames: %v", b, sizes)
		}
		if threads[b] < 1 || !fits2(threads[b], n, len(sizes)) {
			return key, vx.Fail("memory", "batch of %d frames with %d threads, %d batches, exceeds the memory for %d frames", n, threads[b], len(sizes), sc.avail)
		}
	}
	if total != sc.n {
		return key, vx.Fail("lost", "batches %v hold %d frames instead of %d", sizes, total, sc.n)
	}
	for i := 0; i < sc.n; i++ {
		want := 1
		if sc.dropIn>>uint(i)&1 == 1 {
			want = 0
		}
		if seen[i] != want {
			return key, vx.Fail("lost", "frame %d was used in %d batches: %v", i, seen[i], members)
		}
		if runs[i] != 1 {
			return key, vx.Fail("runs", "frame %d was processed %d times", i, runs[i])
		}
	}
	// the result
	if sc.shape == 3 && sc.n > 1 {
		return key, vx.Fail("dimensions", "frames of different dimensions were combined")
	}
	if !fx.EqI32(res.Naxisn, ax[0]...) || len(res.Data) != pixels {
		return key, vx.Fail("dimensions", "result is %v with %d values, want %v", res.Naxisn, len(res.Data), ax[0])
	}
	if math.Abs(float64(res.Exposure-exp)) > 1e-3 {
		return key, vx.Fail("exposure", "total exposure %g, the frames used have %g", res.Exposure, exp)
	}
	var ids []int
	for id := range used {
		ids = append(ids, id)
	}
	sort.Ints(ids)
	counts := make([]int, len(sizes))
	nUsed := 0
	for b, m := range members {
		for _, id := range m {
			if used[id] {
				counts[b]++
				nUsed++
			}
		}
	}
	for p := 0; p < pixels; p++ {
		if p > 200 && p%97 != 0 && p < pixels-20 {
			continue
		}
		want := 0.0
		if sc.mode == stack.StMean {
			for _, id := range ids {
				want += float64(value(id, p))
			}
			want /= float64(len(ids))
		} else {
			r := 0
			for b := range sizes {
				if b == sc.nilBatch {
					continue
				}
				want += float64(results[r].Data[p]) * float64(counts[b])
				r++
			}
			want /= float64(nUsed)
		}
		if math.Abs(float64(res.Data[p])-want) > 1e-5*math.Abs(want)+1e-6 {
			return key, vx.Fail("value", "pixel %d is %g, want %g; batches %v, %d frames used of each", p, res.Data[p], want, members, counts)
		}
	}
	// statistics describe the result
	if got, want := res.Stats.Mean(), mean(res.Data); math.Abs(float64(got)-want) > 1e-3*math.Abs(want) {
		return key, vx.Fail("stats", "mean of the result is reported as %g, is %g", got, want)
	}
	return key, nil
}

// permutations chosen for the goroutine that asks for one
var chosen sync.Map

func gid() string {
	var b [64]byte
	return strings.Fields(string(b[:runtime.Stack(b[:], false)]))[1]
}

func mean(d []float32) float64 {
	s := 0.0
	for _, v := range d {
		s += float64(v)
	}
	return s / float64(len(d))
}

func main() {
	vx.Main("P18", "model_checking", func(c *vx.C) {
		debug.SetGCPercent(1000)
		debug.SetMemoryLimit(6 << 30)
		stats.LSEstimator = stats.LSEMeanStdDev
		vsched.PermHook = func(m int) []int {
			if p, ok := chosen.Load(gid()); ok {
				if len(p.([]int)) != m {
					panic("unexpected permutation")
				}
				return append([]int(nil), p.([]int)...)
			}
			p := make([]int, m) // a fixed one where it is not enumerated
			a := 1
			for _, x := range []int{5, 7, 3} {
				if m%x != 0 {
					a = x
				}
			}
			for i := range p {
				p[i] = (i*a + m/2) % m
			}
			return p
		}
		check := func(s *vx.S, sc scenario) {
			s.Check(sc.String, func() error {
				k, err := run(sc)
				s.Outcome(k)
				return err
			})
		}
		maxN, maxA := 14, 24
		if c.Thorough {
			maxN, maxA = 40, 60
		}
		c.Bound("partition: every number of frames 1..%d, memory for 1..%d frames, 1, 2, 3, 4 and 8 processors, with and without dark and flat in memory, mono, colour and one-axis frames", maxN, maxA)
		for _, cpus := range []int{1, 2, 3, 4, 8} {
			cpus := cpus
			vsched.SetNumCPU(cpus)
			c.Shards(fmt.Sprintf("partition-%d", cpus), maxN, func(s *vx.S) {
				for avail := 1; avail <= maxA; avail++ {
					for v := 0; v < 6; v++ {
						if !c.Thorough && cpus != 1 && cpus != 4 && v != 0 && v != 2 {
							continue
						}
						sc := plain(s.ID+1, avail, cpus)
						sc.dark, sc.flat = v == 1 || v == 2, v == 2 || v == 3
						if v >= 4 {
							sc.shape = v - 3
						}
						check(s, sc)
					}
				}
			})
		}
		vsched.SetNumCPU(1)
		many := []int{33, 65, 129}
		c.Bound("%v frames in batches of various sizes, mean and median", many)
		c.Shards("many", len(many)*2, func(s *vx.S) {
			for _, avail := range []int{6, 17, 70} {
				sc := plain(many[s.ID/2], avail, 1)
				if s.ID%2 == 1 {
					sc.mode = stack.StMedian
				}
				check(s, sc)
			}
		})
		dn := 7
		if c.Thorough {
			dn = 9
		}
		c.Bound("drops: every set of frames dropped inside their batch, and every set dropped before batching, of up to %d frames; mean and median", dn)
		c.Shards("drops", dn*4, func(s *vx.S) {
			n, v := 1+s.ID%dn, s.ID/dn
			for mask := 0; mask < 1<<uint(n); mask++ {
				for _, avail := range []int{5, 6, 7, 12} {
					sc := plain(n, avail, 1)
					if v&1 == 1 {
						sc.mode = stack.StMedian
					}
					if v&2 == 0 {
						sc.drop = mask
					} else {
						sc.dropIn = mask
						sc.drop = mask / 2 &^ mask
					}
					check(s, sc)
				}
			}
		})
		c.Bound("failures: every failing frame, every failing batch, every batch without result, for up to 10 frames in up to 5 batches; frames of different dimensions")
		c.Shards("failures", 10, func(s *vx.S) {
			n := s.ID + 1
			for _, avail := range []int{5, 6, 7, 9, 14} {
				for k := 0; k < n; k++ {
					sc := plain(n, avail, 1)
					sc.failFrame = k
					check(s, sc)
					sc = plain(n, avail, 1)
					sc.failBatch = k
					check(s, sc)
					sc = plain(n, avail, 1)
					sc.nilBatch = k
					check(s, sc)
				}
				sc := plain(n, avail, 1)
				sc.shape = 3
				check(s, sc)
			}
			s.Check(func() string { return "no per-batch steps" }, func() error {
				c := ops.NewContext(io.Discard, 1, stats.LSEMeanStdDev)
				op := stack.NewOpStackBatchesDefault()
				op.PerBatch = nil
				ps, err := op.MakePromises([]ops.Promise{func() (*fits.Image, error) { return fits.NewImageFromNaxisn([]int32{4, 4}, nil), nil }}, c)
				if err == nil {
					_, err = ps[0]()
				}
				if err == nil {
					return vx.Fail("error", "batching without per-batch steps is accepted")
				}
				return nil
			})
		})
		pn := 6
		if c.Thorough {
			pn = 7
		}
		c.Bound("assignment: every permutation of 3..%d frames over batches (the random source is replaced by enumeration), without and with one dropped frame", pn)
		c.Shards("assignment", 32, func(s *vx.S) {
			for n := 3; n <= pn; n++ {
				i := 0
				for _, avail := range []int{5, 6, 7} {
					for drop := 0; drop <= n; drop++ {
						if drop > 1 && drop < n && n > 5 && !c.Thorough {
							continue
						}
						fx.Perms(n, func(perm []int) {
							i++
							if i%32 != s.ID {
								return
							}
							q := append([]int(nil), perm...)
							s.Check(func() string { return fmt.Sprintf("order %v, memory for %d, dropped %d", q, avail, drop-1) }, func() error {
								g := gid()
								chosen.Store(g, q)
								defer chosen.Delete(g)
								sc := plain(n, avail, 1)
								if drop > 0 {
									sc.drop = 1 << uint(drop-1)
								}
								k, err := run(sc)
								s.Outcome(vx.Hash(k, fmt.Sprint(q)))
								return err
							})
						})
					}
				}
			}
		})
	})
}
