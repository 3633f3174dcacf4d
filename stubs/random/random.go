// Package random is an offline stand-in for github.com/mmcloughlin/random,
// restricted to the API surface that trunnel uses.
package random

import (
	"math/rand"
	"time"
)

// Interface is the subset of the methods of *rand.Rand that trunnel relies on.
type Interface interface {
	Int() int
	Int31() int32
	Int31n(n int32) int32
	Int63() int64
	Int63n(n int64) int64
	Intn(n int) int
	Uint32() uint32
	Float32() float32
	Float64() float64
	Perm(n int) []int
	Read(p []byte) (n int, err error)
}

// New builds a time-seeded generator.
func New() Interface { return NewWithSeed(time.Now().UnixNano()) }

// NewWithSeed builds a seeded generator.
func NewWithSeed(seed int64) Interface { return rand.New(rand.NewSource(seed)) }
