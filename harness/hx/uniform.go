package hx

import (
	"math/bits"
	"runtime/debug"
	"sync"

	"pgregory.net/rapid"
)

// rapid's own integer and choice generators strongly favour small values, which would starve the
// rarer alternatives; these are uniform and still shrink towards the first alternative.

var bitGens sync.Map

func bitGen(k int) *rapid.Generator[uint64] {
	if g, ok := bitGens.Load(k); ok {
		return g.(*rapid.Generator[uint64])
	}
	b := rapid.Bool()
	g := rapid.Custom(func(t *rapid.T) uint64 {
		var v uint64
		for i := 0; i < k; i++ {
			v <<= 1
			if b.Draw(t, "") {
				v |= 1
			}
		}
		return v
	})
	bitGens.Store(k, g)
	return g
}

func below(n uint64) *rapid.Generator[uint64] {
	if n <= 1 {
		return rapid.Just(uint64(0))
	}
	k := bits.Len64(n-1) + 4
	if n&(n-1) == 0 {
		k = bits.Len64(n - 1)
	}
	if k > 64 {
		k = 64
	}
	return rapid.Map(bitGen(k), func(v uint64) uint64 {
		hi, lo := bits.Mul64(v, n)
		return hi<<(64-k) | lo>>k
	})
}

// IntRange is uniform on [lo,hi].
func IntRange(lo, hi int) *rapid.Generator[int] {
	if hi < lo {
		Bug("IntRange(%d,%d)", lo, hi)
	}
	return rapid.Map(below(uint64(hi-lo)+1), func(v uint64) int { return lo + int(v) })
}

// Uint64Range is uniform on [lo,hi].
func Uint64Range(lo, hi uint64) *rapid.Generator[uint64] {
	return rapid.Map(below(hi-lo+1), func(v uint64) uint64 { return lo + v })
}

// SampledFrom picks an element uniformly.
func SampledFrom[E any](s []E) *rapid.Generator[E] {
	if len(s) == 0 {
		Bug("SampledFrom nothing\n%s", debug.Stack())
	}
	return rapid.Map(below(uint64(len(s))), func(v uint64) E { return s[v] })
}

// Chance is true once in n.
func Chance(rt *rapid.T, n int, label string) bool {
	return IntRange(0, n-1).Draw(rt, label) == n-1
}
