// Package fastrand stands in for github.com/valyala/fastrand in checks that enumerate streams of random draws:
// generators draw from the stream opened by Open, which is told the size of the interval drawn from.
package fastrand

import "time"

// Open starts a new stream of draws from [0..n). If nil, draws are seeded by the clock as in the original.
var Open func() func(n uint32) uint32

// RNG is a pseudorandom number generator.
type RNG struct {
	x    uint32
	draw func(n uint32) uint32
}

// Uint32 returns a pseudorandom uint32.
func (r *RNG) Uint32() uint32 {
	if Open != nil {
		return r.Uint32n(1<<32 - 1)
	}
	for r.x == 0 {
		x := time.Now().UnixNano()
		r.x = uint32((x >> 32) ^ x)
	}
	x := r.x
	x ^= x << 13
	x ^= x >> 17
	x ^= x << 5
	r.x = x
	return x
}

// Uint32n returns a pseudorandom uint32 in the range [0..maxN).
func (r *RNG) Uint32n(maxN uint32) uint32 {
	if Open != nil {
		if r.draw == nil {
			r.draw = Open()
		}
		return r.draw(maxN)
	}
	return uint32((uint64(r.Uint32()) * uint64(maxN)) >> 32)
}

// Seed sets the state to n.
func (r *RNG) Seed(n uint32) { r.x = n }

// Uint32 returns a pseudorandom uint32.
func Uint32() uint32 { return (&RNG{}).Uint32() }

// Uint32n returns a pseudorandom uint32 in the range [0..maxN).
func Uint32n(maxN uint32) uint32 { return (&RNG{}).Uint32n(maxN) }
