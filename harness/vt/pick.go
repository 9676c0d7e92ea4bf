package vt

import (
	"sync"

	"pgregory.net/rapid"
)

var picks sync.Map

// Pick draws an index below n with even odds: rapid's own integers and samples
// favour the small end.
func Pick(rt *rapid.T, n int, name string) int {
	if n <= 1 {
		return 0
	}
	g, ok := picks.Load(n)
	if !ok {
		bits := 3
		for m := n; m > 0; m >>= 1 {
			bits++
		}
		g, _ = picks.LoadOrStore(n, rapid.Custom(func(t *rapid.T) int {
			v := 0
			for range bits {
				v <<= 1
				if rapid.Bool().Draw(t, "b") {
					v |= 1
				}
			}
			return v % n
		}))
	}
	return g.(*rapid.Generator[int]).Draw(rt, name)
}

// Of draws one of the choices with even odds.
func Of[T any](rt *rapid.T, name string, of ...T) T { return of[Pick(rt, len(of), name)] }

// Chance is true once in n.
func Chance(rt *rapid.T, n int, name string) bool { return Pick(rt, n, name) == n-1 }

// From is a uniform choice out of a slice.
func From[T any](rt *rapid.T, of []T, name string) T { return of[Pick(rt, len(of), name)] }

// Int is a uniform choice out of lo..hi.
func Int(rt *rapid.T, lo, hi int, name string) int { return lo + Pick(rt, hi-lo+1, name) }

var text = sync.OnceValue(func() string {
	b := make([]byte, 8<<20)
	x := uint64(0x9E3779B97F4A7C15)
	for i := range b {
		x ^= x << 13
		x ^= x >> 7
		x ^= x << 17
		b[i] = byte(x >> 32)
	}
	return string(b)
})

// Text is n bytes (at most 7 MiB) that repeat nowhere; every key has its own.
func Text(key, n int) string {
	at := key * 977 % (1 << 20)
	return text()[at : at+n]
}

// BigSize draws a size at or past those of the buffers that files are copied with.
func BigSize(rt *rapid.T) int {
	return From(rt, []int{65535, 65536, 65537, 131072, 131073, 200003, 1<<20 - 1, 1<<20 + 7, 3<<20 + 1, 5 << 20}, "big size")
}
