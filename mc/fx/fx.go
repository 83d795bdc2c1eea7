// Package fx holds reference encoders and comparison helpers shared by the checks. It does not use the code under test.
package fx

import (
	"bytes"
	"compress/gzip"
	"encoding/binary"
	"fmt"
	"io"
	"math"
	"runtime/debug"
	"syscall"
	"unsafe"
)

// Card formats one 80-character header card.
func Card(format string, a ...interface{}) string {
	s := fmt.Sprintf(format, a...)
	if len(s) > 80 {
		panic("card too long: " + s)
	}
	return s + string(bytes.Repeat([]byte{' '}, 80-len(s)))
}

// KV formats a fixed-format key/value card.
func KV(key, value string) string { return Card("%-8s= %20s", key, value) }

// HeaderBytes joins cards (adding END) and pads to the block size.
func HeaderBytes(cards []string) []byte {
	var b bytes.Buffer
	for _, c := range cards {
		b.WriteString(Card("%s", trimRight(c)))
	}
	b.WriteString(Card("END"))
	for b.Len()%2880 != 0 {
		b.WriteByte(' ')
	}
	return b.Bytes()
}

func trimRight(s string) string {
	for len(s) > 0 && s[len(s)-1] == ' ' {
		s = s[:len(s)-1]
	}
	return s
}

// Raw is one raw sample: I for the integer formats, F for the float formats.
type Raw struct {
	I int64
	F float64
}

// EncodeData encodes raw samples big-endian in the given BITPIX.
func EncodeData(bitpix int, raw []Raw) []byte {
	var b bytes.Buffer
	for _, r := range raw {
		switch bitpix {
		case 8:
			b.WriteByte(byte(r.I))
		case 16:
			binary.Write(&b, binary.BigEndian, int16(r.I))
		case 32:
			binary.Write(&b, binary.BigEndian, int32(r.I))
		case 64:
			binary.Write(&b, binary.BigEndian, r.I)
		case -32:
			binary.Write(&b, binary.BigEndian, math.Float32bits(float32(r.F)))
		case -64:
			binary.Write(&b, binary.BigEndian, math.Float64bits(r.F))
		}
	}
	return b.Bytes()
}

// Pad2880 pads data to a block boundary with zero bytes.
func Pad2880(b []byte) []byte {
	for len(b)%2880 != 0 {
		b = append(b, 0)
	}
	return b
}

// Gz compresses.
func Gz(b []byte) []byte {
	var o bytes.Buffer
	w := gzip.NewWriter(&o)
	w.Write(b)
	w.Close()
	return o.Bytes()
}

// Chunks is a reader which delivers Data in the given read sizes (then full reads). A size 0 delivers (0,nil).
// When EOFWithData is set the final bytes are returned together with io.EOF. ErrAt>=0 makes reads fail at that offset.
type Chunks struct {
	Data        []byte
	Sizes       map[int]int // call index -> max bytes
	EOFWithData bool
	ErrAt       int
	Err         error
	ErrWithData bool
	call, pos   int
	Short       int // if >0, every call without entry delivers at most Short bytes
	Calls       int
}

func (c *Chunks) Read(p []byte) (int, error) {
	i := c.call
	c.call++
	c.Calls++
	if len(p) == 0 {
		return 0, nil
	}
	max := len(p)
	if s, ok := c.Sizes[i]; ok && s < max {
		max = s
	} else if c.Short > 0 && c.Short < max {
		max = c.Short
	}
	rest := len(c.Data) - c.pos
	if c.Err != nil {
		if c.pos >= c.ErrAt {
			return 0, c.Err
		}
		if c.ErrAt-c.pos < rest {
			rest = c.ErrAt - c.pos
		}
	}
	if rest == 0 {
		return 0, io.EOF
	}
	if max > rest {
		max = rest
	}
	n := copy(p, c.Data[c.pos:c.pos+max])
	c.pos += n
	if c.Err != nil && c.ErrWithData && c.pos == c.ErrAt {
		return n, c.Err
	}
	if c.EOFWithData && c.pos == len(c.Data) && c.Err == nil {
		return n, io.EOF
	}
	return n, nil
}

// Near compares with a tolerance relative to mag.
func Near(got float32, want, mag float64) bool {
	g := float64(got)
	if math.IsNaN(want) {
		return math.IsNaN(g)
	}
	if math.IsInf(want, 0) || math.IsInf(g, 0) {
		return g == want || (math.Abs(want) > math.MaxFloat32 && math.IsInf(g, int(math.Copysign(1, want))))
	}
	return math.Abs(g-want) <= 4e-7*math.Max(mag, math.Abs(want))+3e-45
}

// SameBits compares two float32 slices bit by bit.
func SameBits(a, b []float32) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if math.Float32bits(a[i]) != math.Float32bits(b[i]) {
			return false
		}
	}
	return true
}

// Same compares two float32 slices treating all NaNs as equal.
func Same(a, b []float32) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] && !(a[i] != a[i] && b[i] != b[i]) {
			return false
		}
	}
	return true
}

func EqI32(a []int32, b ...int32) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

// Vectors calls f with every vector of length n over 0..k-1 (f must not keep v).
func Vectors(n, k int, f func(v []int)) {
	v := make([]int, n)
	for {
		f(v)
		i := n - 1
		for i >= 0 {
			v[i]++
			if v[i] < k {
				break
			}
			v[i] = 0
			i--
		}
		if i < 0 {
			return
		}
	}
}

// Perms calls f with every permutation of 0..n-1.
func Perms(n int, f func(p []int)) {
	p := make([]int, n)
	for i := range p {
		p[i] = i
	}
	var rec func(i int)
	rec = func(i int) {
		if i == n {
			f(p)
			return
		}
		for j := i; j < n; j++ {
			p[i], p[j] = p[j], p[i]
			rec(i + 1)
			p[i], p[j] = p[j], p[i]
		}
	}
	rec(0)
}

// Ungz decompresses a gzip stream completely and verifies that nothing follows it.
func Ungz(b []byte) ([]byte, error) {
	r, err := gzip.NewReader(bytes.NewReader(b))
	if err != nil {
		return nil, err
	}
	return io.ReadAll(r)
}

// Guarded calls fn with n values lying directly behind and directly before inaccessible memory, so that any access
// beyond the values faults.
func Guarded(n int, fn func(d []float32, atStart bool) error) error {
	const page = 4096
	pages := (n*4+page-1)/page + 2
	b, err := syscall.Mmap(-1, 0, pages*page, syscall.PROT_READ|syscall.PROT_WRITE, syscall.MAP_ANON|syscall.MAP_PRIVATE)
	if err != nil {
		panic(err)
	}
	defer syscall.Munmap(b)
	for _, g := range [][]byte{b[:page], b[(pages-1)*page:]} {
		if err := syscall.Mprotect(g, syscall.PROT_NONE); err != nil {
			panic(err)
		}
	}
	defer debug.SetPanicOnFault(debug.SetPanicOnFault(true))
	for _, off := range []int{page, (pages-1)*page - n*4} {
		d := (*[1 << 20]float32)(unsafe.Pointer(&b[off]))[:n:n]
		if err := fn(d, off == page); err != nil {
			return err
		}
	}
	return nil
}
