package main

import (
	"fmt"
	"io"
	"math"

	"github.com/mlnoga/nightlight/internal/fits"
	"github.com/mlnoga/nightlight/internal/ops"
	"github.com/mlnoga/nightlight/internal/ops/hsl"
	"github.com/mlnoga/nightlight/internal/ops/stretch"
	"github.com/mlnoga/nightlight/internal/stats"
	"github.com/mlnoga/nightlight/internal/zzverif/fx"
	"github.com/mlnoga/nightlight/internal/zzverif/vx"
)

func ctx() *ops.Context { return ops.NewContext(io.Discard, 100, stats.LSEMeanStdDev) }

// fold mirrors any coordinate into [0, n).
func fold(n, x int) int {
	p := 2 * n
	x = ((x % p) + p) % p
	if x >= n {
		x = p - 1 - x
	}
	return x
}

// blur is the reference: a separable convolution with mirrored borders, per plane.
func blur(d []float32, w, h int, k []float32) []float64 {
	r := len(k) / 2
	out := make([]float64, len(d))
	tmp := make([]float64, w*h)
	for p := 0; p < len(d); p += w * h {
		for y := 0; y < h; y++ {
			for x := 0; x < w; x++ {
				s := 0.0
				for i := -r; i <= r; i++ {
					s += float64(d[p+y*w+fold(w, x+i)]) * float64(k[i+r])
				}
				tmp[y*w+x] = s
			}
		}
		for y := 0; y < h; y++ {
			for x := 0; x < w; x++ {
				s := 0.0
				for i := -r; i <= r; i++ {
					s += tmp[fold(h, y+i)*w+x] * float64(k[i+r])
				}
				out[p+y*w+x] = s
			}
		}
	}
	return out
}

func image(w, h, planes int, d []float32, known int) *fits.Image {
	naxisn := []int32{int32(w), int32(h)}
	if planes > 1 {
		naxisn = append(naxisn, int32(planes))
	}
	f := fits.NewImageFromNaxisn(naxisn, append([]float32(nil), d...))
	f.ID, f.Exposure = 3, 1.5
	f.Stats = stats.NewStats(f.Data, int32(w))
	if known&1 == 1 {
		f.Stats.Min()
		f.Stats.Location()
	}
	return f
}

func result(f, r *fits.Image, err error, w, h, n int) error {
	if err != nil || r != f || r.ID != 3 || r.Exposure != 1.5 || len(r.Data) != n || r.Naxisn[0] != int32(w) || r.Naxisn[1] != int32(h) {
		return vx.Fail("result", "result %v error %v", r, err)
	}
	again := stats.NewStats(append([]float32(nil), r.Data...), int32(w))
	tol := 1e-5 * (math.Abs(float64(again.Max())) + math.Abs(float64(again.Min())) + 1e-6)
	if !(math.Abs(float64(r.Stats.Min()-again.Min())) <= tol && math.Abs(float64(r.Stats.Max()-again.Max())) <= tol && math.Abs(float64(r.Stats.Location()-again.Location())) <= tol) {
		return vx.Fail("stats", "minimum %g maximum %g location %g reported, pixels %v", r.Stats.Min(), r.Stats.Max(), r.Stats.Location(), r.Data)
	}
	return nil
}

func checkBlur(s *vx.S, w, h, planes int, d []float32, sigma float32, k []float32, known int) error {
	f := image(w, h, planes, d, known)
	r, err := stretch.NewOpGaussianBlur(sigma).Apply(f, ctx())
	if err := result(f, r, err, w, h, len(d)); err != nil {
		return err
	}
	s.Outcome(vx.HashF(r.Data))
	want := blur(d, w, h, k)
	mag, sumIn, sumOut, constant := 0.0, 0.0, 0.0, true
	for i, v := range d {
		mag = math.Max(mag, math.Abs(float64(v)))
		sumIn += float64(v)
		sumOut += float64(r.Data[i])
		constant = constant && v == d[0]
	}
	for i, v := range r.Data {
		if !(math.Abs(float64(v)-want[i]) <= 1e-5*mag) {
			return vx.Fail("blur", "pixel %d is %g, expected %g; result %v, expected %v", i, v, want[i], r.Data, want)
		}
		if constant && !(math.Abs(float64(v)-float64(d[0])) <= 1e-5*mag) {
			return vx.Fail("constant", "constant image of %g became %v", d[0], r.Data)
		}
	}
	if !(math.Abs(sumIn-sumOut) <= 1e-5*mag*float64(len(d))) {
		return vx.Fail("total", "total brightness %g became %g", sumIn, sumOut)
	}
	return nil
}

func checkMask(s *vx.S, w, h, planes int, d []float32, sigma, gain, thr float32, k []float32, known int, lum bool) error {
	f := image(w, h, planes, d, known)
	n := len(d)
	base := 0
	var r *fits.Image
	var err error
	if lum {
		base = n / 3 * 2
		r, err = hsl.NewOpHSLUnsharpMask(sigma, gain, thr).Apply(f, ctx())
	} else {
		r, err = stretch.NewOpUnsharpMask(sigma, gain, thr).Apply(f, ctx())
	}
	if err := result(f, r, err, w, h, n); err != nil {
		return err
	}
	s.Outcome(vx.HashF(r.Data))
	part := append([]float32(nil), d[base:]...)
	if !fx.SameBits(r.Data[:base], d[:base]) {
		return vx.Fail("channels", "hue or saturation changed from %v to %v", d[:base], r.Data[:base])
	}
	if gain == 0 || sigma == 0 {
		if !fx.SameBits(r.Data, d) {
			return vx.Fail("neutral", "pixels changed from %v to %v", d, r.Data)
		}
		return nil
	}
	st := stats.NewStats(part, int32(w))
	loc, sc := float64(st.Location()), float64(st.Scale())
	at := loc + sc*float64(thr)
	b := blur(part, w, h, k)
	mag := math.Max(math.Abs(float64(st.Min())), math.Abs(float64(st.Max())))
	for i, v := range part {
		got := float64(r.Data[base+i])
		want := math.Min(math.Max(float64(v)+(float64(v)-b[i])*float64(gain), float64(st.Min())), float64(st.Max()))
		tol := 1e-5 * mag * (1 + math.Abs(float64(gain)))
		isLow, isHigh := got == float64(v), math.Abs(got-want) <= tol
		near := math.Abs(float64(v)-at) <= 1e-5*(mag+math.Abs(sc*float64(thr)))
		switch {
		case near && isLow && float32(v) != st.Location()+st.Scale()*thr, near && isHigh:
		case float64(v) < at && !isLow:
			return vx.Fail("below", "pixel %d: %g is below the threshold %g, but became %g", i, v, at, got)
		case float64(v) >= at && !isHigh:
			return vx.Fail("mask", "pixel %d: %g (blurred %g, limits %g to %g, threshold %g) became %g, expected %g", i, v, b[i], st.Min(), st.Max(), at, got, want)
		}
	}
	return nil
}

func main() {
	vx.Main("P24", "model_checking", func(c *vx.C) {
		stats.LSEstimator = stats.LSEMeanStdDev
		sigmas := []float32{1e-3, 0.1, 0.2, 0.21, 0.22, 0.25, 0.3, 0.5, 0.7, 1, 1.5, 2, 3, 5}
		c.Serial("kernels", 1, func(s *vx.S) {
			for i := 1; i <= 1300; i++ {
				sigma := float32(i) / 100
				if i > 1200 {
					sigma = float32(i-1200) / 2 // up to 50
				} else if i > 1000 {
					sigma = float32(i-1000) / 1000
				}
				s.Check(func() string { return fmt.Sprintf("kernel of sigma %g", sigma) }, func() error {
					k := stretch.GaussianKernel1D(sigma)
					if len(k)%2 != 1 {
						return vx.Fail("kernel-size", "%d weights: %v", len(k), k)
					}
					r := len(k) / 2
					sum, norm := 0.0, 0.0
					area := func(j int) float64 {
						phi := func(x float64) float64 { return 0.5 * math.Erfc(-x/math.Sqrt2/float64(sigma)) }
						j = -int(math.Abs(float64(j)))
						return phi(float64(j)+0.5) - phi(float64(j)-0.5)
					}
					for j := -r; j <= r; j++ {
						norm += area(j)
					}
					for j, v := range k {
						sum += float64(v)
						if v != k[len(k)-1-j] || !(v > 0) {
							return vx.Fail("kernel-symmetric", "weights %v", k)
						}
						if want := area(j-r) / norm; math.Abs(want-float64(v)) > 3e-6 {
							return vx.Fail("kernel-gauss", "weights %v: weight %d is %g, expected %g", k, j, v, want)
						}
					}
					if math.Abs(sum-1) > 1e-5 {
						return vx.Fail("kernel-sum", "weights %v add up to %g", k, sum)
					}
					if norm+2*area(r+1) < 0.98 { // the code stops one short of one percent on either side
						return vx.Fail("kernel-short", "weights %v cover only %g of the distribution", k, norm)
					}
					s.Outcome(vx.HashF(k))
					return nil
				})
			}
		})
		maxN := 9
		if c.Thorough {
			maxN = 14
		}
		c.Shards("blur", maxN*maxN, func(s *vx.S) {
			w, h := s.ID%maxN+1, s.ID/maxN+1
			if w*h < 2 {
				return // statistics need two pixels
			}
			for _, sg := range sigmas {
				for _, planes := range []int{1, 2, 3} {
					n := w * h * planes
					for p := -2; p < n; p++ {
						d := make([]float32, n)
						for i := range d {
							if p == -2 {
								d[i] = 0.37
							} else if p == -1 {
								d[i] = float32((i*7919)%101) - 30
							}
						}
						if p >= 0 {
							d[p] = 1
						}
						s.States(1)
						s.Check(func() string { return fmt.Sprintf("blur sigma %g of %dx%dx%d image %v", sg, w, h, planes, d) },
							func() error { return checkBlur(s, w, h, planes, d, sg, kernel(sg), p) })
					}
				}
			}
		})
		c.Bound("impulses at every position, of all image sizes up to %dx%d x 1 to 3 planes x %d sigmas", maxN, maxN, len(sigmas))
		// sizes of real frames and wide kernels
		big := [][3]int{{330, 270, 1}, {90, 701, 1}, {701, 90, 1}, {2100, 3, 1}, {3, 2100, 1}, {60, 41, 3}}
		bigSigma := []float32{1.5, 7, 13, 21, 40}
		c.Shards("large", len(big)*len(bigSigma), func(s *vx.S) {
			b, sg := big[s.ID%len(big)], bigSigma[s.ID/len(big)]
			n := b[0] * b[1] * b[2]
			d, e := make([]float32, n), make([]float32, n)
			for i := range d {
				d[i] = 0.37
				e[i] = float32((i*7919)%1013) / 1013
			}
			for _, i := range []int{0, n / 2, n - 1} {
				e[i] = 50
			}
			for k, x := range [][]float32{d, e} {
				s.Check(func() string { return fmt.Sprintf("blur sigma %g of %v image %d", sg, b, k) },
					func() error { return checkBlur(s, b[0], b[1], b[2], x, sg, kernel(sg), s.ID+k) })
				for _, lum := range []bool{false, true} {
					if lum && b[2] != 3 {
						continue
					}
					s.Check(func() string { return fmt.Sprintf("unsharp mask sigma %g of %v image %d", sg, b, k) },
						func() error { return checkMask(s, b[0], b[1], b[2], x, sg, 1.5, 1, kernel(sg), s.ID+k, lum) })
				}
			}
		})
		c.Bound("images %v x sigmas %v: constant, and patterned with bright spots", big, bigSigma)
		type shape struct{ w, h, planes int }
		shapes := []shape{{2, 1, 1}, {1, 3, 1}, {3, 2, 1}, {2, 3, 1}, {2, 1, 3}, {3, 1, 3}, {1, 2, 3}, {4, 2, 1}, {2, 1, 2}, {2, 2, 2}, {2, 1, 4}}
		if c.Thorough {
			shapes = append(shapes, shape{3, 3, 1}, shape{5, 2, 1}, shape{2, 5, 1})
		}
		alpha := []float32{0.25, 0.5, 0.75}
		c.Shards("mask", len(shapes)*9, func(s *vx.S) {
			sh := shapes[s.ID/9]
			n := sh.w * sh.h * sh.planes
			k := len(alpha)
			if n > 8 && !c.Thorough {
				k = 2
			}
			fx.Vectors(n, k, func(v []int) {
				if n > 1 && v[0]*3+v[1] != s.ID%9 {
					return
				}
				d := make([]float32, n)
				for i := range d {
					d[i] = alpha[v[i]]
				}
				for _, sg := range []float32{0, 0.1, 0.5, 1.5, 4} {
					for _, g := range []float32{-0.5, 0, 0.3, 2, 50} {
						for ti, thr := range []float32{-2, 0, 1, 3} {
							for _, lum := range []bool{false, true} {
								if lum && (sh.planes != 3 || sg == 0) {
									continue
								}
								if (sg == 0 || g == 0) && ti > 0 {
									continue
								}
								s.States(1)
								s.Check(func() string {
									return fmt.Sprintf("unsharp mask sigma %g gain %g threshold %g (luminance %v) of %dx%dx%d image %v", sg, g, thr, lum, sh.w, sh.h, sh.planes, d)
								}, func() error {
									return checkMask(s, sh.w, sh.h, sh.planes, d, sg, g, thr, kernel(sg), ti+v[n-1], lum)
								})
							}
						}
					}
				}
			})
		})
		// larger images: a ramp with a bright spot at every position
		c.Shards("mask-spot", 12, func(s *vx.S) {
			const w, h = 12, 11
			for p := s.ID; p < w*h; p += 12 {
				for _, planes := range []int{1, 2, 3} {
					d := make([]float32, w*h*planes)
					for i := range d {
						d[i] = float32(i%(w*h))/400 + float32(i/(w*h))
					}
					d[len(d)-w*h+p] += 0.8
					for _, sg := range []float32{0.3, 1, 2.5} {
						for _, g := range []float32{-0.5, 0.5, 3} {
							for _, thr := range []float32{-1, 0.5, 4} {
								for _, lum := range []bool{false, true} {
									if lum && planes != 3 {
										continue
									}
									s.States(1)
									s.Check(func() string {
										return fmt.Sprintf("unsharp mask sigma %g gain %g threshold %g (luminance %v) of %dx%dx%d ramp with spot at %d", sg, g, thr, lum, w, h, planes, p)
									}, func() error { return checkMask(s, w, h, planes, d, sg, g, thr, kernel(sg), p, lum) })
								}
							}
						}
					}
				}
			}
		})
	})
}

// kernel returns the kernel of the code, which the first phase judges.
func kernel(sg float32) []float32 {
	if sg == 0 {
		return []float32{1}
	}
	return stretch.GaussianKernel1D(sg)
}
