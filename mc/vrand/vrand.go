// Package vrand replaces "math/rand" in the instrumented build. With a script
// set, both the global functions and every source made by NewSource draw their
// numbers from it; without one it is math/rand.
package vrand

import (
	"math/rand"
	"sync"
)

type (
	Rand     = rand.Rand
	Source   = rand.Source
	Source64 = rand.Source64
	Zipf     = rand.Zipf
)

var (
	mu     sync.Mutex
	script []bool // coin flips: true = "small" number (Float64()<0.5)
	pos    int
	on     bool
	draws  int
	g      = rand.New(&src{rand.NewSource(1)})
)

// SetCoins scripts the draws: each draw consumes one coin; true gives a value
// near 0, false one near 1. When the script is used up, draws give tail.
func SetCoins(c []bool) { mu.Lock(); script, pos, on, draws = c, 0, true, 0; mu.Unlock() }

// Off restores pseudo-random behaviour (fixed seed).
func Off() { mu.Lock(); on = false; g = rand.New(&src{rand.NewSource(1)}); mu.Unlock() }

// Draws returns how many numbers were drawn since SetCoins.
func Draws() int { mu.Lock(); defer mu.Unlock(); return draws }

type src struct{ s rand.Source }

func (s *src) Int63() int64 {
	mu.Lock()
	defer mu.Unlock()
	if !on {
		return s.s.Int63()
	}
	small := false
	if pos < len(script) {
		small = script[pos]
	}
	pos++
	draws++
	if small {
		return 1 << 20 // Float64 ~ 1e-10
	}
	return 1<<62 | (1<<53 - 1) - 1<<40 // Float64 close to (but below) 1
}
func (s *src) Seed(n int64) { s.s.Seed(n) }

func NewSource(seed int64) Source {
	// own the seed: runs must be reproducible
	return &src{rand.NewSource(42)}
}
func New(s Source) *Rand                                { return rand.New(s) }
func NewZipf(r *Rand, s, v float64, imax uint64) *Zipf { return rand.NewZipf(r, s, v, imax) }
func Seed(int64)                                        {}

var gm sync.Mutex

func with[T any](f func(*rand.Rand) T) T { gm.Lock(); defer gm.Unlock(); return f(g) }

func Int63() int64           { return with((*rand.Rand).Int63) }
func Uint32() uint32         { return with((*rand.Rand).Uint32) }
func Uint64() uint64         { return with((*rand.Rand).Uint64) }
func Int31() int32           { return with((*rand.Rand).Int31) }
func Int() int               { return with((*rand.Rand).Int) }
func Int63n(n int64) int64   { return with(func(r *rand.Rand) int64 { return r.Int63n(n) }) }
func Int31n(n int32) int32   { return with(func(r *rand.Rand) int32 { return r.Int31n(n) }) }
func Intn(n int) int         { return with(func(r *rand.Rand) int { return r.Intn(n) }) }
func Float64() float64       { return with((*rand.Rand).Float64) }
func Float32() float32       { return with((*rand.Rand).Float32) }
func Perm(n int) []int       { return with(func(r *rand.Rand) []int { return r.Perm(n) }) }
// the scripted draws would never end a rejection loop
var plain = rand.New(rand.NewSource(1))

func NormFloat64() float64 { gm.Lock(); defer gm.Unlock(); return plain.NormFloat64() }
func ExpFloat64() float64 { gm.Lock(); defer gm.Unlock(); return plain.ExpFloat64() }
func Shuffle(n int, swap func(i, j int)) {
	with(func(r *rand.Rand) int { r.Shuffle(n, swap); return 0 })
}
func Read(p []byte) (int, error) { gm.Lock(); defer gm.Unlock(); return g.Read(p) }
