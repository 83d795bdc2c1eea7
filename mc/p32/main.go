package main

import (
	"fmt"
	"math"
	"sort"
	"time"

	"github.com/mlnoga/nightlight/internal/stats"
	"github.com/mlnoga/nightlight/internal/zzverif/vx"
	"github.com/valyala/fastrand"
)

var modeNames = []string{"mean and standard deviation", "median and MAD", "IKSS", "clipped median and Qn", "histogram peak"}

type result struct {
	loc, scale float32
	panicked   interface{}
	hung       bool
}

// estimate runs the selected estimator with a deadline.
func estimate(data []float32, w int, deadline time.Duration) result {
	ch := make(chan result, 1)
	d := append([]float32{}, data...)
	go func() {
		var r result
		defer func() {
			if p := recover(); p != nil {
				r.panicked = p
			}
			ch <- r
		}()
		s := stats.NewStats(d, int32(w))
		r.loc, r.scale = s.Location(), s.Scale()
		for i := range d {
			if math.Float32bits(d[i]) != math.Float32bits(data[i]) {
				panic("the image has been changed")
			}
		}
	}()
	select {
	case r := <-ch:
		return r
	case <-time.After(deadline):
		return result{hung: true}
	}
}

var drawNames = []string{"even draws", "random draws"}

// stream returns draws from [0..n): balanced ones, where in blocks of 16*n draws each number occurs 16 times, or random ones.
func stream(kind int) func(n uint32) uint32 {
	x := uint32(2463534242 + 977*kind)
	next := func(n uint32) uint32 {
		x ^= x << 13
		x ^= x >> 17
		x ^= x << 5
		return uint32((uint64(x) * uint64(n)) >> 32)
	}
	if kind > 0 {
		return next
	}
	type block struct {
		numbers []uint32
		pos     int
	}
	blocks := map[uint32]*block{}
	last, b := uint32(0), (*block)(nil)
	return func(n uint32) uint32 {
		if n != last {
			if last, b = n, blocks[n]; b == nil {
				b = &block{numbers: make([]uint32, 16*n), pos: int(16 * n)}
				blocks[n] = b
			}
		}
		if b.pos == len(b.numbers) {
			b.pos = 0
			for i := range b.numbers {
				j := next(uint32(i) + 1)
				b.numbers[i] = b.numbers[j]
				b.numbers[j] = uint32(i) % n
			}
		}
		b.pos++
		return b.numbers[b.pos-1]
	}
}

func finite(x float32) bool { return !math.IsNaN(float64(x)) && !math.IsInf(float64(x), 0) }

// judge checks the estimate against what holds whatever pixels are sampled.
func judge(mode int, data []float32, r result) error {
	if r.hung {
		return vx.Fail("hang", "no answer")
	}
	if r.panicked != nil {
		return vx.Fail("crash", "%v", r.panicked)
	}
	n := len(data)
	lo, hi, sum := math.Inf(1), math.Inf(-1), 0.0
	ok := true
	for _, x := range data {
		ok = ok && finite(x)
		lo, hi, sum = math.Min(lo, float64(x)), math.Max(hi, float64(x)), sum+float64(x)
	}
	if !ok {
		return nil // only has to answer
	}
	loc, scale := float64(r.loc), float64(r.scale)
	span := hi - lo
	big := math.Max(math.Abs(lo), math.Abs(hi))
	if big > 1e18 || span > 0 && span < 1e-30 {
		// sums of squares exceed the range of numbers
		if math.IsNaN(loc) || loc < lo-1e-6*big || loc > hi+1e-6*big {
			return vx.Fail("range", "location %g outside [%g, %g]", loc, lo, hi)
		}
		return nil
	}
	eps := 1e-6*big + 1e-37
	if math.IsNaN(loc) || loc < lo-eps || loc > hi+eps {
		return vx.Fail("range", "location %g outside [%g, %g]", loc, lo, hi)
	}
	if math.IsNaN(scale) || scale < 0 || scale > 2.3*span+eps {
		return vx.Fail("scale", "scale %g for pixels in [%g, %g]", scale, lo, hi)
	}
	if span == 0 {
		if math.Abs(loc-lo) > eps || scale > eps {
			return vx.Fail("constant", "location %g and scale %g for pixels of value %g", loc, scale, lo)
		}
		return nil
	}
	sorted := append([]float32{}, data...)
	sort.Slice(sorted, func(i, j int) bool { return sorted[i] < sorted[j] })
	med := float64(sorted[n/2])
	// the fraction of pixels below, at and above the median decides whether sampling finds it for sure
	below, above := 0, 0
	for _, x := range data {
		if float64(x) < med {
			below++
		} else if float64(x) > med {
			above++
		}
	}
	const samples = 128 * 1024
	margin := 40 * 0.5 / math.Sqrt(samples) // 40 standard deviations
	certain := float64(below)/float64(n) < 0.5-margin && float64(above)/float64(n) < 0.5-margin
	switch mode {
	case stats_MeanStdDev:
		mean, va := sum/float64(n), 0.0
		for _, x := range data {
			va += (float64(x) - mean) * (float64(x) - mean)
		}
		sd := math.Sqrt(va / float64(n))
		if math.Abs(loc-mean) > 2*eps || math.Abs(scale-sd) > 2e-3*sd+4*eps {
			return vx.Fail("mean", "mean %g and standard deviation %g, expected %g and %g", loc, scale, mean, sd)
		}
	case stats_MedianMAD:
		if !certain {
			return nil
		}
		if loc != med {
			return vx.Fail("median", "location %g, expected the median %g", loc, med)
		}
		var dev []float64
		for _, x := range data {
			dev = append(dev, math.Abs(float64(x-float32(med))))
		}
		sort.Float64s(dev)
		// deviations between which the sampled median lies for sure
		q := func(f float64) float64 {
			i := int(f * float64(n))
			if i < 0 {
				i = 0
			}
			if i > n-1 {
				i = n - 1
			}
			return dev[i]
		}
		l, h := 1.4826*q(0.5-margin-1e-9), 1.4826*q(0.5+margin)
		if scale < l-1e-5*l-eps || scale > h+1e-5*h+eps {
			return vx.Fail("mad", "scale %g, expected %g to %g", scale, l, h)
		}
	case stats_SCMedianQn:
		// with most pixels at one value, this one is the location
		same := n - below - above
		if float64(same)/float64(n) > 0.5+margin {
			if loc != med {
				return vx.Fail("majority", "location %g, but most pixels have value %g", loc, med)
			}
		}
		if want, ok := qn(data, 0.25, margin); ok && math.Abs(scale-want) > 1e-4*want+2*eps {
			return vx.Fail("qn", "scale %g, expected Qn %g", scale, want)
		}
		if want, ok := clipped(data, span, margin); ok && math.Abs(loc-want) > 2*eps {
			return vx.Fail("clipped", "location %g, expected the clipped median %g", loc, want)
		}
	case stats_Histogram:
		// the peak away from the extremes
		const bins = 4096
		count := map[int]int{}
		max := 0
		for _, x := range data {
			b := int(math.Floor((float64(x)-lo)/span*(bins-1) + 0.5))
			if b > 0 && b < bins-1 {
				count[b]++
				if count[b] > max {
					max = count[b]
				}
			}
		}
		if max == 0 {
			return nil // all pixels at the extremes
		}
		width := span / (bins - 1)
		if width < 100*eps {
			return nil
		}
		found := false
		for _, x := range data { // values near the border of bins may be counted elsewhere
			f := (float64(x) - lo) / width
			if math.Abs(f-math.Floor(f)-0.5) < 0.01 {
				return nil
			}
		}
		for b, k := range count {
			found = found || k == max && math.Abs(loc-(lo+width*float64(b))) <= 0.1*width
		}
		if !found {
			return vx.Fail("peak", "location %g is not the peak of the histogram of pixels in [%g, %g]", loc, lo, hi)
		}
		// the scale takes up 68.27% of the pixels, unless an extreme is reached before
		in := func(r float64) (k int) {
			for _, x := range data {
				if math.Abs(float64(x)-loc) <= r {
					k++
				}
			}
			return k
		}
		need := math.Floor(0.6827 * float64(n))
		if float64(in(scale+0.6*width)) < need && loc-scale > lo+0.6*width && loc+scale < hi-0.6*width {
			return vx.Fail("interval", "scale %g around %g includes %d of %d pixels", scale, loc, in(scale+0.6*width), n)
		}
		if scale > 1.6*width && float64(in(scale-1.6*width)) >= need {
			return vx.Fail("interval", "scale %g around %g is too large", scale, loc)
		}
	case stats_IKSS:
		same := n - below - above
		if 2*same > n && (loc != med || scale != 0) {
			return vx.Fail("majority", "location %g, scale %g, but most pixels have value %g", loc, scale, med)
		}
		if l, sc, ok := ikss(sorted); ok && (math.Abs(loc-l) > 2*eps || math.Abs(scale-sc) > 1e-3*sc+2*eps) {
			return vx.Fail("ikss", "location %g and scale %g, expected %g and %g", loc, scale, l, sc)
		}
	}
	return nil
}

type weighted struct{ v, w float64 }

// quantile finds the value which sampling from l has at the given fraction, if that is certain.
func quantile(l []weighted, f, margin float64) (v float64, ok bool) {
	sort.Slice(l, func(i, j int) bool { return l[i].v < l[j].v })
	total, cum := 0.0, 0.0
	for _, x := range l {
		total += x.w
	}
	lo := -1
	for i, x := range l {
		cum += x.w
		if lo < 0 && cum/total > f-margin {
			lo = i
		}
		if cum/total > f+margin {
			return l[lo].v, l[lo].v == x.v
		}
	}
	return 0, false
}

// qn finds the quantile of the differences of pixels, if it does not depend on how pairs are drawn.
func qn(data []float32, f, margin float64) (float64, bool) {
	if len(data) < 2 {
		return 0, true
	}
	var uniform, ordered []weighted
	for i := range data {
		for j := 0; j < i; j++ {
			d := math.Abs(float64(data[i] - data[j]))
			uniform = append(uniform, weighted{d, 1})
			ordered = append(ordered, weighted{d, 1 / float64(i)})
		}
	}
	a, ok1 := quantile(uniform, f, margin)
	b, ok2 := quantile(ordered, f, margin)
	return 2.21914 * a, ok1 && ok2 && a == b
}

// clipped is the median, sigma-clipped iteratively.
func clipped(data []float32, span, margin float64) (loc float64, ok bool) {
	median := func(data []float32) (float64, bool) {
		var l []weighted
		for _, x := range data {
			l = append(l, weighted{float64(x), 1})
		}
		return quantile(l, 0.5, margin)
	}
	loc, ok1 := median(data)
	scale, ok2 := qn(data, 0.25, margin)
	if !ok1 || !ok2 {
		return 0, false
	}
	for i := 0; ; i++ {
		var in []float32
		for _, x := range data {
			d := math.Abs(float64(x) - loc)
			if scale > 0 && math.Abs(d-2*scale) < 1e-3*scale {
				return 0, false // on the border
			}
			if d <= 2*scale {
				in = append(in, x)
			}
		}
		newLoc, ok1 := median(in)
		newScale, ok2 := qn(in, 0.25, margin)
		if !ok1 || !ok2 {
			return 0, false
		}
		newScale *= 1.134
		change := math.Abs(newLoc-loc) + math.Abs(newScale-scale)
		if change > 0 && change < 1e-3*span {
			return 0, false // whether this is convergence depends on rounding
		}
		if change == 0 || i >= 10 {
			return loc, i < 10 && change == 0
		}
		loc, scale = newLoc, newScale
	}
}

// ikss are the iterative k-sigma estimates of sorted pixels, if rounding does not matter.
func ikss(xs []float32) (loc, scale float64, ok bool) {
	bwmv := func(xs []float32, m float64) float64 {
		var mads []float64
		for _, x := range xs {
			mads = append(mads, math.Abs(float64(x)-m))
		}
		sort.Float64s(mads)
		mad := mads[len(mads)/2]
		if len(mads)%2 == 0 && mads[len(mads)/2-1] != mad {
			return math.NaN() // depends on which median is taken
		}
		if mad == 0 {
			return 0
		}
		num, den := 0.0, 0.0
		for _, x := range xs {
			y := (float64(x) - m) / (9 * mad)
			if math.Abs(math.Abs(y)-1) < 1e-4 {
				return math.NaN()
			}
			if math.Abs(y) < 1 {
				num += (float64(x) - m) * (float64(x) - m) * math.Pow(1-y*y, 4)
				den += (1 - y*y) * (1 - 5*y*y)
			}
		}
		return float64(len(xs)) * num / (den * den)
	}
	s0 := 1.0
	for {
		if len(xs) == 0 {
			return 0, 0, false
		}
		if len(xs)%2 == 0 && xs[len(xs)/2] != xs[len(xs)/2-1] {
			return 0, 0, false // either one is a median
		}
		m := float64(xs[len(xs)/2])
		s := math.Sqrt(bwmv(xs, m))
		if math.IsNaN(s) || math.IsInf(s, 0) || s > 0 && s < 1e-5 || math.Abs(s0-s) < 1e-4*s && s0 != s {
			return 0, 0, false
		}
		if s == 0 {
			return m, 0, true
		}
		if s0-s < s*1e-6 {
			return m, 0.991 * s, true
		}
		s0 = s
		var in []float32
		for _, x := range xs {
			d := math.Abs(float64(x) - m)
			if math.Abs(d-4*s) < 1e-3*s {
				return 0, 0, false
			}
			if d < 4*s {
				in = append(in, x)
			}
		}
		xs = in
	}
}

const (
	stats_MeanStdDev = iota
	stats_MedianMAD
	stats_IKSS
	stats_SCMedianQn
	stats_Histogram
)

func main() {
	vx.Main("P32", "model_checking", func(c *vx.C) {
		hanging := 0 // endless loops still running
		try := func(s *vx.S, mode int, data []float32, w int, desc string) {
			s.States(1)
			var failed error
			s.Check(func() string {
				if desc != "" {
					return fmt.Sprintf("%s of %s", modeNames[mode], desc)
				}
				return fmt.Sprintf("%s of pixels %v", modeNames[mode], data)
			}, func() error {
				if failed != nil || hanging > 3 {
					return failed // enough shown
				}
				r := estimate(data, w, 20*time.Second)
				if r.hung {
					hanging++
				}
				s.Transitions(1)
				s.Outcome(vx.HashF([]float32{r.loc, float32(mode)}))
				// the estimators draw pixels at random: what has failed once counts
				if err := judge(mode, data, r); failed == nil {
					failed = err
				}
				return failed
			})
		}
		nan, inf := float32(math.NaN()), float32(math.Inf(1))
		grids := []struct {
			name   string
			values []float32
			size   int // largest image
			extra  int // added in the thorough tier
		}{
			{"small numbers", []float32{0, 1, 3}, 6, 1},
			{"signs and fractions", []float32{-2, -0.5, 0.25, 1000}, 4, 2},
			{"special values", []float32{0, 1, nan, inf, -inf}, 4, 1},
			{"extreme values", []float32{0, 1, 1e-45, 1e-38, 1e38, -1e38, 1e20}, 3, 1},
			{"camera values", []float32{0, 255, 4095, 65535, 65534}, 4, 1},
			{"near values", []float32{16777216, 16777218, 16777220}, 5, 1},
		}
		// the estimator and the random draws are selected globally, so they are explored one after the other
		type selection struct{ mode, draws int }
		var selections []selection
		for mode := range modeNames {
			for draws := range drawNames {
				if draws == 0 || mode == stats_SCMedianQn {
					selections = append(selections, selection{mode, draws})
				}
			}
		}
		for _, sel := range selections {
			mode, draws := sel.mode, sel.draws
			fastrand.Open = func() func(n uint32) uint32 { return stream(draws) }
			name := modeNames[mode]
			if mode == stats_SCMedianQn {
				name += " with " + drawNames[draws]
			}
			for _, g := range grids {
				g := g
				size := g.size
				if draws > 0 && size > 2 && !c.Thorough {
					size--
				}
				if c.Thorough {
					size += g.extra
				}
				stride := 32
				total := 0
				for n, p := 1, len(g.values); n <= size; n, p = n+1, p*len(g.values) {
					total += p
				}
				c.Shards(fmt.Sprintf("%s, %s", name, g.name), (total+stride-1)/stride, func(s *vx.S) {
					stats.LSEstimator = stats.LSEstimatorMode(mode)
					for k := s.ID * stride; k < (s.ID+1)*stride && k < total; k++ {
						r, n, p := k, 1, len(g.values)
						for r >= p {
							r -= p
							n, p = n+1, p*len(g.values)
						}
						data := make([]float32, n)
						for i := range data {
							data[i] = g.values[r%len(g.values)]
							r /= len(g.values)
						}
						try(s, mode, data, n, "")
					}
				})
				c.Bound("%s: all images of up to %d pixels out of %v", name, size, g.values)
			}
			// larger images in which few pixels lie close to the location
			var fam []struct {
				desc string
				data []float32
			}
			add := func(desc string, data []float32) {
				fam = append(fam, struct {
					desc string
					data []float32
				}{desc, data})
			}
			limit := 64
			if c.Thorough {
				limit = 512
			}
			for n := 8; n <= limit; n *= 2 {
				for _, mid := range []int{0, 1, 2, 3} {
					for _, lowPart := range []int{1, n / 4, n / 2, 3 * n / 4, n - 1} {
						for order := 0; order < 3; order++ {
							d := []float32{}
							for i := 0; i < n; i++ {
								v := float32(0)
								if i >= lowPart {
									v = 100
								}
								d = append(d, v)
							}
							for i := 0; i < mid; i++ {
								d = append(d, 50+float32(i))
							}
							switch order {
							case 1:
								for i, j := 0, len(d)-1; i < j; i, j = i+1, j-1 {
									d[i], d[j] = d[j], d[i]
								}
							case 2:
								sort.Slice(d, func(i, j int) bool { return (i*7)%5 < (j*7)%5 })
							}
							add(fmt.Sprintf("%d pixels of 0, %d of 100, %d between, order %d", lowPart, n-lowPart, mid, order), d)
						}
					}
				}
				for _, bad := range []float32{nan, inf, -inf} {
					for k := 0; k <= n; k += n / 4 {
						d := make([]float32, n)
						for i := range d {
							d[i] = float32(i % 5)
							if i < k {
								d[i] = bad
							}
						}
						add(fmt.Sprintf("%d of %d pixels %v", k, n, bad), d)
					}
				}
				// outliers growing exponentially
				d := make([]float32, n)
				for i := range d {
					d[i] = float32(math.Pow(1.5, float64(i%60)))
				}
				add(fmt.Sprintf("%d exponential pixels", n), d)
			}
			// pixels around the location, with outliers on either side
			for _, n := range []int{15, 31} {
				if draws > 0 && !c.Thorough {
					break
				}
				for lo := 0; lo <= 3; lo++ {
					for hi := 0; hi <= 3; hi++ {
						for _, dist := range []float32{0.08, 0.12, 0.16, 0.2, 0.25, 0.3, 0.4} {
							for _, power := range []float64{1, 2, 3} {
								var d []float32
								for i := 0; i < n; i++ {
									u := float64(2*i-n+1) / float64(n-1)
									d = append(d, float32(0.5+0.1*math.Copysign(math.Pow(math.Abs(u), power), u)))
								}
								for i := 0; i < lo; i++ {
									d = append(d, 0.5-dist-0.003*float32(i))
								}
								for i := 0; i < hi; i++ {
									d = append(d, 0.5+dist+0.002*float32(i))
								}
								add(fmt.Sprintf("%d pixels with %d low and %d high outliers at %g, power %g", n, lo, hi, dist, power), d)
							}
						}
					}
				}
			}
			c.Shards(name+", larger images", len(fam), func(s *vx.S) {
				stats.LSEstimator = stats.LSEstimatorMode(mode)
				try(s, mode, fam[s.ID].data, len(fam[s.ID].data), fam[s.ID].desc)
			})
			c.Bound("%s: %d families of larger images", name, len(fam))
		}
	})
}
