package main

import (
	"bytes"
	"fmt"
	"image"
	"image/color"
	"image/jpeg"
	"io"
	"math"
	"os"
	"path/filepath"
	"strings"

	"github.com/mlnoga/nightlight/internal/fits"
	"github.com/mlnoga/nightlight/internal/ops"
	"github.com/mlnoga/nightlight/internal/stats"
	"github.com/mlnoga/nightlight/internal/zzverif/fx"
	"github.com/mlnoga/nightlight/internal/zzverif/vx"
	"golang.org/x/image/tiff"
)

func ctx() *ops.Context { return ops.NewContext(io.Discard, 100, stats.LSESCMedianQn) }

// reference tone curve, in [0,1]
func tone(v float32, min, max, gamma float64) float64 {
	t := (float64(v) - min) / (max - min)
	if t != t || t < 0 {
		t = 0
	}
	if t > 1 {
		t = 1
	}
	if gamma != 1 {
		t = math.Pow(t, 1/gamma)
	}
	return t
}

func mk(w, h, ch int, data []float32) *fits.Image {
	ax := []int32{int32(w), int32(h)}
	if ch == 3 {
		ax = append(ax, 3)
	}
	return fits.NewImageFromNaxisn(ax, data)
}

// compareTiff checks a decoded TIFF against the reference tone curve
func compareTiff(b []byte, img *fits.Image, w, h, ch int, min, max, gamma float64) error {
	m, err := tiff.Decode(bytes.NewReader(b))
	if err != nil {
		return vx.Fail("tiff-unreadable", "%v", err)
	}
	if m.Bounds().Dx() != w || m.Bounds().Dy() != h {
		return vx.Fail("bounds", "%v want %dx%d", m.Bounds(), w, h)
	}
	for y := 0; y < h; y++ {
		for x := 0; x < w; x++ {
			var got [3]float64
			switch c := m.At(x, y).(type) {
			case color.Gray16:
				got = [3]float64{float64(c.Y), float64(c.Y), float64(c.Y)}
			case color.RGBA64:
				if c.A != 65535 {
					return vx.Fail("alpha", "alpha %d", c.A)
				}
				got = [3]float64{float64(c.R), float64(c.G), float64(c.B)}
			case color.NRGBA64:
				got = [3]float64{float64(c.R), float64(c.G), float64(c.B)}
			default:
				return vx.Fail("depth", "sample type %T is not 16 bit", c)
			}
			for k := 0; k < ch; k++ {
				v := img.Data[k*w*h+y*w+x]
				want := 65535 * tone(v, min, max, gamma)
				tol := 1.01
				if gamma != 1 && want > 0 { // float32 evaluation of the curve near zero
					tol += 65535 * (tone(v*(1+2e-7)+float32(2e-7*math.Max(math.Abs(min), math.Abs(max))), min, max, gamma) - tone(v*(1-2e-7)-float32(2e-7*math.Max(math.Abs(min), math.Abs(max))), min, max, gamma))
				} else {
					tol += 65535 * 4e-7 * (math.Abs(float64(v)) + math.Abs(min)) / math.Abs(max-min)
				}
				if math.IsInf(float64(v), 0) || v != v {
					tol = 1.01
				}
				if math.Abs(got[k]-want) > tol {
					return vx.Fail("tone", "pixel %d,%d channel %d value %g -> %g want %g (min %g max %g gamma %g)", x, y, k, v, got[k], want, min, max, gamma)
				}
			}
		}
	}
	return nil
}

func writeTiff(img *fits.Image, ch int, min, max, gamma float64) ([]byte, error) {
	var b bytes.Buffer
	var err error
	if ch == 3 {
		err = img.WriteTIFF16(&b, float32(min), float32(max), float32(gamma))
	} else {
		err = img.WriteMonoTIFF16(&b, float32(min), float32(max), float32(gamma))
	}
	return b.Bytes(), err
}

func pattern(n, k int, lo, hi float32) []float32 {
	d := make([]float32, n)
	for i := range d {
		d[i] = lo + (hi-lo)*float32((i*7919+k*104729)%65537)/65536
	}
	return d
}

func main() {
	vx.Main("P05", "model_checking", func(c *vx.C) {
		ranges := [][2]float64{{0, 1}, {0, 255}, {0, 65535}, {-2, 3}, {0.25, 0.5}, {1000, 1001}}
		gammas := []float64{1, 2, 2.2, 0.5, 3}
		c.Bound("tone curve: all 2x2 mono images over a 12-value alphabet (below, at, inside, at, above the range, NaN, infinities), all RGB pixels over the same alphabet, %d ranges x %d gammas", len(ranges), len(gammas))
		c.Shards("tiff-tone", len(ranges)*len(gammas), func(s *vx.S) {
			r, g := ranges[s.ID%len(ranges)], gammas[s.ID/len(ranges)]
			a := []float32{}
			for _, t := range []float64{-0.5, -1e-3, 0, 1e-4, 0.1, 0.5, 0.75, 1, 1.0001, 7} {
				a = append(a, float32(r[0]+t*(r[1]-r[0])))
			}
			a = append(a, float32(math.NaN()), float32(math.Inf(1)), float32(math.Inf(-1)))
			fx.Vectors(3, len(a), func(v []int) {
				s.Check(func() string {
					return fmt.Sprintf("RGB pixel %g,%g,%g range %v gamma %g", a[v[0]], a[v[1]], a[v[2]], r, g)
				}, func() error {
					img := mk(1, 1, 3, []float32{a[v[0]], a[v[1]], a[v[2]]})
					b, err := writeTiff(img, 3, r[0], r[1], g)
					if err != nil {
						return vx.Fail("write", "%v", err)
					}
					s.Outcome(vx.Hash(b))
					return compareTiff(b, img, 1, 1, 3, r[0], r[1], g)
				})
				for _, q := range []int{0, 5, 10} {
					if q > 0 && !c.Thorough {
						break
					}
					s.Check(func() string { return fmt.Sprintf("mono pixels %v+%d range %v gamma %g", v, q, r, g) }, func() error {
						img := mk(2, 2, 1, []float32{a[v[0]], a[v[1]], a[v[2]], a[(v[0]+v[1]+q)%len(a)]})
						b, err := writeTiff(img, 1, r[0], r[1], g)
						if err != nil {
							return vx.Fail("write", "%v", err)
						}
						s.Outcome(vx.Hash(b))
						return compareTiff(b, img, 2, 2, 1, r[0], r[1], g)
					})
				}
			})
		})
		// geometry: every pixel and channel at its place, through the save step, and loaded back
		maxW, maxH := 20, 6
		if c.Thorough {
			maxW, maxH = 40, 12
		}
		c.Bound("geometry: all sizes 1..%d x 1..%d plus large strips, mono and RGB, every value-range mode of the save step; loaded back with the program's own reader", maxW, maxH)
		c.Shards("tiff-geometry", maxH, func(s *vx.S) {
			dir := filepath.Join(c.Scratch, fmt.Sprint("g", s.ID))
			os.MkdirAll(dir, 0755)
			h := s.ID + 1
			ws := []int{}
			for w := 1; w <= maxW; w++ {
				ws = append(ws, w)
			}
			if h <= 3 {
				ws = append(ws, 255, 256, 257, 1023, 1365, 2049, 4097)
			}
			for _, w := range ws {
				for _, ch := range []int{1, 3} {
					for mode := ops.EMMinMax; mode <= ops.EM0_65535; mode++ {
						for _, g := range []float64{1, 2.2} {
							s.Check(func() string { return fmt.Sprintf("%dx%dx%d mode %d gamma %g", w, h, ch, mode, g) }, func() error {
								lo, hi := 0.0, []float64{1, 1, 255, 65535}[mode]
								data := pattern(w*h*ch, w+h, float32(lo), float32(hi))
								if mode == ops.EMMinMax {
									data = pattern(w*h*ch, w*h, -3.5, 120)
									mn, mx := data[0], data[0]
									for _, d := range data {
										if d < mn {
											mn = d
										}
										if d > mx {
											mx = d
										}
									}
									lo, hi = float64(mn), float64(mx)
								}
								img := mk(w, h, ch, append([]float32{}, data...))
								img.ID = 5
								fn := filepath.Join(dir, "x.tif")
								os.Remove(fn)
								if _, err := ops.NewOpSave(fn, mode, float32(g)).Apply(img, ctx()); err != nil {
									return vx.Fail("write", "%v", err)
								}
								if !fx.SameBits(img.Data, data) {
									return vx.Fail("image-modified", "saving changed the image")
								}
								b, err := os.ReadFile(fn)
								if err != nil {
									return vx.Fail("write", "%v", err)
								}
								s.States(1)
								s.Transitions(1)
								s.Outcome(vx.Hash(b))
								if lo == hi {
									return nil // a constant image has no range to map
								}
								if err := compareTiff(b, img, w, h, ch, lo, hi, g); err != nil {
									return err
								}
								back, err := fits.NewImageFromFile(fn, 1, io.Discard)
								if err != nil {
									return vx.Fail("reload", "%v", err)
								}
								m, _ := tiff.Decode(bytes.NewReader(b))
								return compareLoaded(back, m, w, h, ch, 16)
							})
						}
					}
				}
			}
		})
		tl := [][2]int{{1021, 1033}, {70001, 3}, {3, 70001}, {5000, 40}, {40, 5000}}
		c.Bound("large TIFF and JPEG images %v: written, compared pixel by pixel (JPEG: 16x16 tiles), TIFF loaded back", tl)
		c.Shards("large", 2*len(tl), func(s *vx.S) {
			w, h, ch := tl[s.ID/2][0], tl[s.ID/2][1], 1+s.ID%2*2
			fn := filepath.Join(c.Scratch, fmt.Sprintf("large%d.tif", s.ID))
			s.Check(func() string { return fmt.Sprintf("TIFF %dx%dx%d", w, h, ch) }, func() error {
				img := mk(w, h, ch, pattern(w*h*ch, 1, -3.5, 120))
				b, err := writeTiff(img, ch, -3.5, 100, 1)
				if w > 65535 || h > 65535 {
					if err == nil {
						if err = compareTiff(b, img, w, h, ch, -3.5, 100, 1); err != nil {
							return vx.Fail("truncated", "an image too large for the encoder was accepted: %v", err)
						}
					}
					b = longTiff(w, h, ch) // written by something else, it can be loaded
				} else if err != nil {
					return vx.Fail("write", "%v", err)
				} else if err := compareTiff(b, img, w, h, ch, -3.5, 100, 1); err != nil {
					return err
				}
				s.States(1)
				s.Transitions(1)
				s.Outcome(vx.Hash(w, h, ch))
				if err := os.WriteFile(fn, b, 0644); err != nil {
					panic(err)
				}
				defer os.Remove(fn)
				back, err := fits.NewImageFromFile(fn, 1, io.Discard)
				if err != nil {
					return vx.Fail("reload", "%v", err)
				}
				m, _ := tiff.Decode(bytes.NewReader(b))
				return compareLoaded(back, m, w, h, ch, 16)
			})
			if w > 65535 || h > 65535 { // more than a JPEG can hold
				return
			}
			s.Check(func() string { return fmt.Sprintf("JPEG %dx%dx%d", w, h, ch) }, func() error {
				d := make([]float32, w*h*ch)
				at := func(k, x, y int) float32 { return float32((x/16*7+y/16*13+k*5)%11) / 10 }
				for k := 0; k < ch; k++ {
					for y := 0; y < h; y++ {
						for x := 0; x < w; x++ {
							d[k*w*h+y*w+x] = at(k, x, y)
						}
					}
				}
				img := mk(w, h, ch, d)
				var b bytes.Buffer
				var err error
				if ch == 3 {
					err = img.WriteJPG(&b, 0, 1, 1, 95)
				} else {
					err = img.WriteMonoJPG(&b, 0, 1, 1, 95)
				}
				if err != nil {
					return vx.Fail("write", "%v", err)
				}
				s.Outcome(vx.Hash(b.Bytes()))
				m, err := jpeg.Decode(&b)
				if err != nil {
					return vx.Fail("jpeg-unreadable", "%v", err)
				}
				if m.Bounds().Dx() != w || m.Bounds().Dy() != h {
					return vx.Fail("bounds", "%v", m.Bounds())
				}
				for y := 4; y < h; y += 8 {
					for x := 4; x < w; x += 8 {
						rr, gg, bb, _ := m.At(x, y).RGBA()
						got := [3]float64{float64(rr >> 8), float64(gg >> 8), float64(bb >> 8)}
						for k := 0; k < 3; k++ {
							if want := 255 * float64(at(k%ch, x, y)); math.Abs(got[k]-want) > 8 {
								return vx.Fail("tone", "jpeg pixel %d,%d channel %d is %g want %g", x, y, k, got[k], want)
							}
						}
					}
				}
				return nil
			})
		})
		// reader: TIFF variants written independently
		c.Bound("reader: gray and RGB(A) TIFFs of 8 and 16 bit, three compressions, predictor on and off, all sizes 1..9 x 1..7; all pairs of sample values from a boundary alphabet; palettes must be refused or loaded, never crash")
		c.Shards("tiff-read", 7, func(s *vx.S) {
			dir := filepath.Join(c.Scratch, fmt.Sprint("r", s.ID))
			os.MkdirAll(dir, 0755)
			fn := filepath.Join(dir, "y.tiff")
			h := s.ID + 1
			for w := 1; w <= 9; w++ {
				for kind := 0; kind < 6; kind++ {
					for comp := 0; comp < 3; comp++ {
						s.Check(func() string { return fmt.Sprintf("read %dx%d kind %d compression %d", w, h, kind, comp) }, func() error {
							m := gen(kind, w, h, func(i int) uint16 { return uint16((i*7919 + 257*kind) % 65536) })
							var b bytes.Buffer
							if err := tiff.Encode(&b, m, &tiff.Options{Compression: []tiff.CompressionType{tiff.Uncompressed, tiff.Deflate, tiff.Deflate}[comp], Predictor: comp == 2}); err != nil {
								return nil // not a TIFF our encoder can produce
							}
							os.WriteFile(fn, b.Bytes(), 0644)
							back, err := fits.NewImageFromFile(fn, 2, io.Discard)
							if err != nil {
								return vx.Fail("reload", "%v", err)
							}
							s.States(1)
							s.Transitions(1)
							s.Outcome(vx.HashF(back.Data))
							ref, _ := tiff.Decode(bytes.NewReader(b.Bytes()))
							return compareLoaded(back, ref, w, h, map[bool]int{true: 1, false: 3}[kind < 2], 0)
						})
					}
				}
				s.Check(func() string { return fmt.Sprintf("palette image %dx%d", w, h) }, func() error {
					m := image.NewPaletted(image.Rect(0, 0, w, h), color.Palette{color.Black, color.White, color.RGBA{200, 10, 20, 255}})
					var b bytes.Buffer
					if err := tiff.Encode(&b, m, nil); err != nil {
						return nil
					}
					os.WriteFile(fn, b.Bytes(), 0644)
					back, err := fits.NewImageFromFile(fn, 2, io.Discard)
					s.Outcome(vx.Hash("pal", w, h, err == nil))
					if err == nil && (back == nil || len(back.Data) == 0 || len(back.Data) != int(back.Pixels)) {
						return vx.Fail("palette", "accepted without pixels")
					}
					return nil
				})
			}
			vals := []uint16{0, 1, 127, 128, 255, 256, 257, 32767, 32768, 65279, 65534, 65535}
			if s.ID == 0 {
				fx.Vectors(3, len(vals), func(v []int) {
					for kind := 0; kind < 6; kind++ {
						s.Check(func() string { return fmt.Sprintf("samples %v kind %d", v, kind) }, func() error {
							m := gen(kind, 1, 1, func(i int) uint16 { return vals[v[i%3]] })
							var b bytes.Buffer
							tiff.Encode(&b, m, nil)
							os.WriteFile(fn, b.Bytes(), 0644)
							back, err := fits.NewImageFromFile(fn, 2, io.Discard)
							if err != nil {
								return vx.Fail("reload", "%v", err)
							}
							s.Outcome(vx.HashF(back.Data))
							ref, _ := tiff.Decode(bytes.NewReader(b.Bytes()))
							return compareLoaded(back, ref, 1, 1, map[bool]int{true: 1, false: 3}[kind < 2], 0)
						})
					}
				})
			}
		})
		// JPEG: 16x16 flat tiles keep their value within the lossy tolerance
		c.Bound("JPEG: 1..3 x 1..3 tiles of 16x16 flat pixels, all assignments of a value alphabet to the first tiles, mono and RGB, 3 ranges x 3 gammas")
		c.Shards("jpeg", 9, func(s *vx.S) {
			r := [][2]float64{{0, 1}, {-2, 3}, {0, 65535}}[s.ID%3]
			g := []float64{1, 2.2, 0.5}[s.ID/3]
			nv := 8
			val := func(k int) float32 {
				if k == nv-1 {
					return float32(math.NaN())
				}
				return float32(r[0] + []float64{-1, 0, 0.02, 0.3, 0.6, 1, 2}[k]*(r[1]-r[0]))
			}
			for _, ch := range []int{1, 3} {
				fx.Vectors(3, nv, func(v []int) {
					for tiles := 0; tiles < 3; tiles++ {
						tw, th := []int{3, 1, 2}[tiles], []int{1, 3, 2}[tiles]
						if tiles == 2 && (v[0]+v[1]+v[2])%3 != 0 && !c.Thorough {
							continue
						}
						s.Check(func() string {
							return fmt.Sprintf("jpeg %dx%d tiles values %v channels %d range %v gamma %g", tw, th, v, ch, r, g)
						}, func() error {
							w, h := tw*16, th*16
							d := make([]float32, w*h*ch)
							at := func(k, x, y int) float32 { // channels get different tiles
								t := (y/16)*tw + x/16
								return val((v[(t+k)%3] + (t/3)*2) % nv)
							}
							for k := 0; k < ch; k++ {
								for y := 0; y < h; y++ {
									for x := 0; x < w; x++ {
										d[k*w*h+y*w+x] = at(k, x, y)
									}
								}
							}
							img := mk(w, h, ch, d)
							var b bytes.Buffer
							var err error
							if ch == 3 {
								err = img.WriteJPG(&b, float32(r[0]), float32(r[1]), float32(g), 95)
							} else {
								err = img.WriteMonoJPG(&b, float32(r[0]), float32(r[1]), float32(g), 95)
							}
							if err != nil {
								return vx.Fail("write", "%v", err)
							}
							s.Outcome(vx.Hash(b.Bytes()))
							m, err := jpeg.Decode(&b)
							if err != nil {
								return vx.Fail("jpeg-unreadable", "%v", err)
							}
							if m.Bounds().Dx() != w || m.Bounds().Dy() != h {
								return vx.Fail("bounds", "%v", m.Bounds())
							}
							for y := 4; y < h; y += 8 {
								for x := 4; x < w; x += 8 {
									rr, gg, bb, _ := m.At(x, y).RGBA()
									got := [3]float64{float64(rr >> 8), float64(gg >> 8), float64(bb >> 8)}
									for k := 0; k < 3; k++ {
										want := 255 * tone(at(k%ch, x, y), r[0], r[1], g)
										if math.Abs(got[k]-want) > 6 {
											return vx.Fail("tone", "jpeg pixel %d,%d channel %d is %g want %g", x, y, k, got[k], want)
										}
									}
								}
							}
							return nil
						})
					}
				})
			}
		})
		// suffix dispatch and frame numbers
		c.Bound("names: 24 suffix spellings x 7 placeholder forms x 7 frame numbers x mono/RGB")
		c.Serial("names", 1, func(s *vx.S) {
			dir := filepath.Join(c.Scratch, "n")
			os.MkdirAll(dir, 0755)
			exts := []string{"fits", "fit", "fts", "fits.gz", "fit.gz", "fts.gz", "fits.gzip", "fit.gzip", "fts.gzip", "tif", "tiff", "jpg", "jpeg", "FITS", "Fit", "FITS.GZ", "TIF", "Tiff", "JPG", "JPEG", "fts.GZIP", "tIf", "jPg", "FIT"}
			forms := []struct {
				pat  string
				want func(id int) string
			}{
				{"plain", func(int) string { return "plain" }},
				{"n%d", func(id int) string { return fmt.Sprintf("n%d", id) }},
				{"n%04d", func(id int) string { return fmt.Sprintf("n%04d", id) }},
				{"%02d", func(id int) string { return fmt.Sprintf("%02d", id) }},
				{"a.fits.%d", func(id int) string { return fmt.Sprintf("a.fits.%d", id) }},
				{"p%6dq", func(id int) string { return fmt.Sprintf("p%6dq", id) }},
				{"%d.tif.jpg", func(id int) string { return fmt.Sprintf("%d.tif.jpg", id) }},
			}
			for _, ext := range exts {
				for _, f := range forms {
					for _, id := range []int{0, 1, 9, 42, 9999, 123456, -1} {
						for _, ch := range []int{1, 3} {
							s.Check(func() string { return fmt.Sprintf("name %s.%s frame %d channels %d", f.pat, ext, id, ch) }, func() error {
								img := mk(3, 2, ch, pattern(6*ch, 1, 0, 1))
								img.ID = id
								want := filepath.Join(dir, f.want(id)+"."+ext)
								os.Remove(want)
								if _, err := ops.NewOpSave(filepath.Join(dir, f.pat+"."+ext), ops.EM0_1, 1).Apply(img, ctx()); err != nil {
									return vx.Fail("write", "%v", err)
								}
								b, err := os.ReadFile(want)
								if err != nil {
									es, _ := os.ReadDir(dir)
									n := ""
									for _, e := range es {
										n += " " + e.Name()
									}
									return vx.Fail("name", "no file %s; directory has%.200s", filepath.Base(want), n)
								}
								os.Remove(want)
								s.States(1)
								s.Transitions(1)
								s.Outcome(vx.Hash(f.pat, ext, id, ch))
								kind := "?"
								switch {
								case bytes.HasPrefix(b, []byte("SIMPLE  =")):
									kind = "fits"
								case bytes.HasPrefix(b, []byte{0x1f, 0x8b}):
									kind = "gz"
								case bytes.HasPrefix(b, []byte("II*\x00")), bytes.HasPrefix(b, []byte("MM\x00*")):
									kind = "tiff"
								case bytes.HasPrefix(b, []byte{0xff, 0xd8, 0xff}):
									kind = "jpeg"
								}
								l, exp := strings.ToLower(ext), "fits"
								switch {
								case strings.HasSuffix(l, "gz") || strings.HasSuffix(l, "gzip"):
									exp = "gz"
								case strings.HasPrefix(l, "tif"):
									exp = "tiff"
								case strings.HasPrefix(l, "jp"):
									exp = "jpeg"
								}
								if kind != exp {
									return vx.Fail("file-type", "%s holds %s data", filepath.Base(want), kind)
								}
								return nil
							})
						}
					}
				}
			}
			// every frame of a job gets its own file
			for _, n := range []int{1, 2, 3, 4, 5, 16, 70, 130, 300, 1100} {
				s.Check(func() string { return fmt.Sprintf("job of %d frames", n) }, func() error {
					var ps []ops.Promise
					for k := 0; k < n; k++ {
						img := mk(2, 2, 1, []float32{float32(k), 1, 2, 3})
						img.ID = k
						ps = append(ps, func() (*fits.Image, error) { return img, nil })
					}
					outs, err := ops.NewOpSave(filepath.Join(dir, "j%03d.fits"), ops.EM0_1, 1).MakePromises(ps, ctx())
					if err == nil {
						_, err = ops.MaterializeAll(outs, 2, false)
					}
					if err != nil {
						return vx.Fail("write", "%v", err)
					}
					for k := 0; k < n; k++ {
						l, err := fits.NewImageFromFile(filepath.Join(dir, fmt.Sprintf("j%03d.fits", k)), 0, io.Discard)
						if err != nil || l.Data[0] != float32(k) {
							return vx.Fail("name", "frame %d: %v", k, err)
						}
					}
					return nil
				})
			}
		})
	})
}

// longTiff is an uncompressed little-endian TIFF with 32 bit dimensions and 16 bit samples.
func longTiff(w, h, ch int) []byte {
	var b bytes.Buffer
	put := func(n int, v int) {
		for ; n > 0; n-- {
			b.WriteByte(byte(v))
			v >>= 8
		}
	}
	size := w * h * ch * 2
	b.WriteString("II*\x00")
	put(4, 8+size+8)
	for i := 0; i < w*h*ch; i++ {
		put(2, i*7919%65536)
	}
	for k := 0; k < 4; k++ { // bits per sample, when there is more than one
		put(2, 16)
	}
	bits, photo := 16, 1
	if ch == 3 {
		bits, photo = 8+size, 2
	}
	es := [][4]int{{256, 4, 1, w}, {257, 4, 1, h}, {258, 3, ch, bits}, {259, 3, 1, 1}, {262, 3, 1, photo}, {273, 4, 1, 8}, {277, 3, 1, ch}, {278, 4, 1, h}, {279, 4, 1, size}}
	put(2, len(es))
	for _, e := range es {
		put(2, e[0])
		put(2, e[1])
		put(4, e[2])
		put(4, e[3])
	}
	put(4, 0)
	return b.Bytes()
}

func gen(kind, w, h int, v func(i int) uint16) image.Image {
	r := image.Rect(0, 0, w, h)
	var m image.Image
	i := 0
	n := func() uint16 { i++; return v(i - 1) }
	switch kind {
	case 0:
		g := image.NewGray(r)
		m = g
		for y := 0; y < h; y++ {
			for x := 0; x < w; x++ {
				g.SetGray(x, y, color.Gray{uint8(n())})
			}
		}
	case 1:
		g := image.NewGray16(r)
		m = g
		for y := 0; y < h; y++ {
			for x := 0; x < w; x++ {
				g.SetGray16(x, y, color.Gray16{n()})
			}
		}
	case 2:
		g := image.NewRGBA(r)
		m = g
		for y := 0; y < h; y++ {
			for x := 0; x < w; x++ {
				g.SetRGBA(x, y, color.RGBA{uint8(n()), uint8(n()), uint8(n()), 255})
			}
		}
	case 3:
		g := image.NewRGBA64(r)
		m = g
		for y := 0; y < h; y++ {
			for x := 0; x < w; x++ {
				g.SetRGBA64(x, y, color.RGBA64{n(), n(), n(), 65535})
			}
		}
	case 4:
		g := image.NewNRGBA(r)
		m = g
		for y := 0; y < h; y++ {
			for x := 0; x < w; x++ {
				g.SetNRGBA(x, y, color.NRGBA{uint8(n()), uint8(n()), uint8(n()), 255})
			}
		}
	case 5:
		g := image.NewNRGBA64(r)
		m = g
		for y := 0; y < h; y++ {
			for x := 0; x < w; x++ {
				g.SetNRGBA64(x, y, color.NRGBA64{n(), n(), n(), 65535})
			}
		}
	}
	return m
}

func samples(c color.Color) ([3]float64, int) {
	switch c := c.(type) {
	case color.Gray:
		return [3]float64{float64(c.Y)}, 8
	case color.Gray16:
		return [3]float64{float64(c.Y)}, 16
	case color.RGBA:
		return [3]float64{float64(c.R), float64(c.G), float64(c.B)}, 8
	case color.RGBA64:
		return [3]float64{float64(c.R), float64(c.G), float64(c.B)}, 16
	case color.NRGBA:
		return [3]float64{float64(c.R), float64(c.G), float64(c.B)}, 8
	case color.NRGBA64:
		return [3]float64{float64(c.R), float64(c.G), float64(c.B)}, 16
	}
	panic(fmt.Sprintf("%T", c))
}

func compareLoaded(f *fits.Image, m image.Image, w, h, ch, bits int) error {
	ax := []int32{int32(w), int32(h)}
	if ch == 3 {
		ax = append(ax, 3)
	}
	if !fx.EqI32(f.Naxisn, ax...) || len(f.Data) != w*h*ch || int(f.Pixels) != w*h*ch {
		return vx.Fail("dimensions", "loaded axes %v with %d samples, want %v", f.Naxisn, len(f.Data), ax)
	}
	mn, mx, sum := math.Inf(1), math.Inf(-1), 0.0
	for y := 0; y < h; y++ {
		for x := 0; x < w; x++ {
			v, b := samples(m.At(x, y))
			if bits != 0 && b != bits {
				return vx.Fail("depth", "%d bits", b)
			}
			for k := 0; k < ch; k++ {
				g := float64(f.Data[k*w*h+y*w+x])
				if g != v[k] {
					return vx.Fail("sample", "pixel %d,%d channel %d loaded as %g, stored %g", x, y, k, g, v[k])
				}
				mn, mx, sum = math.Min(mn, g), math.Max(mx, g), sum+g
			}
		}
	}
	if f.Stats == nil || float64(f.Stats.Min()) != mn || float64(f.Stats.Max()) != mx || math.Abs(float64(f.Stats.Mean())-sum/float64(len(f.Data))) > 1e-3*(1+mx) {
		return vx.Fail("stats", "statistics %v, want min %g max %g mean %g", f.Stats, mn, mx, sum/float64(len(f.Data)))
	}
	return nil
}
