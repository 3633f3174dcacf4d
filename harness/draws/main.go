// Searches for sets and outputs of a random source for which a draw is not in
// the set, does not end, or cannot reach part of the set.
package main

import (
	"fmt"
	"math"

	"github.com/mmcloughlin/random"

	"github.com/mmcloughlin/trunnel/internal/intervals"
	"github.com/mmcloughlin/trunnel/zzverif/lib"
)

var h *lib.H

func n(k int) int { return h.Rand.Intn(k) }

type span struct{ lo, hi uint64 }

// source mixes extreme and ordinary outputs, and gives up when asked too often
type source struct {
	random.Interface
	odds  int
	asked int
}

func (s *source) tick() {
	s.asked++
	if s.asked > 200000 {
		panic("the source was asked 200000 times")
	}
}

func (s *source) Int63() int64 {
	s.tick()
	v := s.Interface.Int63()
	if s.odds > 0 && n(s.odds) == 0 {
		return []int64{0, 1, math.MaxInt64, math.MaxInt64 - 1, 1 << 31, 1<<31 - 1, 1<<32 - 1, 1 << 62, v & 0xff, v << 55 & math.MaxInt64}[n(10)]
	}
	return v
}

func (s *source) Uint32() uint32 {
	s.tick()
	return s.Interface.Uint32()
}

func (s *source) Int31() int32 {
	s.tick()
	return s.Interface.Int31()
}

func (s *source) Int() int {
	s.tick()
	return s.Interface.Int()
}

func edge() uint64 {
	switch n(6) {
	case 0:
		return uint64(n(12))
	case 1:
		return math.MaxUint64 - uint64(n(12))
	case 2:
		return 1<<uint(n(64)) + uint64(n(5)) - 2
	case 3:
		return uint64(n(70000))
	}
	return h.Rand.Uint64()
}

func spans() []span {
	if n(12) == 0 {
		return []span{{0, math.MaxUint64}}
	}
	if n(12) == 0 {
		m := edge()
		if m < math.MaxUint64 {
			return []span{{0, m}, {m + 1, math.MaxUint64}}
		}
	}
	var ss []span
	for k := 1 + n(5); k > 0; k-- {
		s := span{edge(), edge()}
		if n(3) > 0 {
			s.hi = s.lo + uint64(n(4))
		}
		if s.hi < s.lo {
			s.lo, s.hi = s.hi, s.lo
		}
		ss = append(ss, s)
	}
	return ss
}

func inside(ss []span, x uint64) bool {
	for _, s := range ss {
		if s.lo <= x && x <= s.hi {
			return true
		}
	}
	return false
}

func set(ss []span) *intervals.Set {
	var is []intervals.Interval
	for _, s := range ss {
		is = append(is, intervals.Range(s.lo, s.hi))
	}
	return intervals.NewSet(is...)
}

func input(ss []span, seed int64) func() interface{} {
	return func() interface{} { return map[string]interface{}{"ranges": fmt.Sprint(ss), "seed": seed} }
}

func member() {
	ss := spans()
	s := set(ss)
	seed := h.Rand.Int63()
	src := &source{Interface: random.NewWithSeed(seed), odds: 1 + n(4)}
	h.Case("a draw", fmt.Sprint(ss), input(ss, seed), func() (string, string) {
		for k := 0; k < 30; k++ {
			src.asked = 0
			if x := s.RandomWithGenerator(src); !inside(ss, x) {
				return fmt.Sprint(x), "an element of the set"
			}
			if k == 0 {
				if x := s.Random(); !inside(ss, x) {
					return fmt.Sprint(x), "an element of the set"
				}
			}
		}
		for _, p := range ss {
			if !s.Contains(p.lo) || !s.Contains(p.hi) {
				return "the set changed", "the same set"
			}
		}
		return "", ""
	})
}

// every element of a small set turns up
func reach() {
	var ss []span
	left := 8
	for k := 1 + n(4); k > 0 && left > 0; k-- {
		w := n(left)
		lo := edge()
		if lo > math.MaxUint64-uint64(w) {
			lo = math.MaxUint64 - uint64(w)
		}
		ss = append(ss, span{lo, lo + uint64(w)})
		left -= w + 1
	}
	s := set(ss)
	seed := h.Rand.Int63()
	src := &source{Interface: random.NewWithSeed(seed)}
	h.Case("elements of a small set", fmt.Sprint(ss), input(ss, seed), func() (string, string) {
		seen := map[uint64]bool{}
		for k := 0; k < 1500; k++ {
			src.asked = 0
			x := s.RandomWithGenerator(src)
			if !inside(ss, x) {
				return fmt.Sprint(x), "an element of the set"
			}
			seen[x] = true
		}
		for _, p := range ss {
			for x := p.lo; ; x++ {
				if !seen[x] {
					return fmt.Sprintf("%d not drawn in 1500 draws", x), "every element can be drawn"
				}
				if x == p.hi {
					break
				}
			}
		}
		return "", ""
	})
}

// both halves of every large range turn up, and both values of every low bit
func halves() {
	w := uint(3 + n(61))
	var lo uint64
	if w < 63 {
		lo = h.Rand.Uint64() >> (uint(n(int(63-w))) + 1)
	}
	a := span{lo, lo + 1<<w - 1 - uint64(n(2))}
	ss := []span{a}
	if n(2) == 0 && a.hi < math.MaxUint64-(1<<w)-1 {
		ss = append(ss, span{a.hi + 2, a.hi + 1 + 1<<w})
	}
	if n(8) == 0 {
		ss = []span{{0, math.MaxUint64}}
		w = 64
	}
	s := set(ss)
	seed := h.Rand.Int63()
	src := &source{Interface: random.NewWithSeed(seed)}
	h.Case("parts of a large set", fmt.Sprint(ss), input(ss, seed), func() (string, string) {
		seen := map[string]bool{}
		for k := 0; k < 400; k++ {
			src.asked = 0
			x := s.RandomWithGenerator(src)
			if !inside(ss, x) {
				return fmt.Sprint(x), "an element of the set"
			}
			for i, p := range ss {
				if p.lo <= x && x <= p.hi {
					seen[fmt.Sprint(i, x-p.lo > (p.hi-p.lo)/2)] = true
					for b := uint(0); b+1 < w; b++ {
						seen[fmt.Sprint(i, "bit", b, (x-p.lo)>>b&1)] = true
					}
				}
			}
		}
		for i := range ss {
			for _, v := range []bool{false, true} {
				if !seen[fmt.Sprint(i, v)] {
					return fmt.Sprintf("half of %v not reached in 400 draws", ss[i]), "every element can be drawn"
				}
			}
			for b := uint(0); b+1 < w; b++ {
				for v := 0; v < 2; v++ {
					if !seen[fmt.Sprint(i, "bit", b, v)] {
						return fmt.Sprintf("bit %d of the distance from %d is never %d in 400 draws", b, ss[i].lo, v), "every element can be drawn"
					}
				}
			}
		}
		return "", ""
	})
}

func empty() {
	h.Case("a draw from the empty set", "", input(nil, 0), func() (obs, exp string) {
		defer func() { recover() }()
		x := intervals.NewSet().RandomWithGenerator(&source{Interface: random.NewWithSeed(1)})
		return fmt.Sprint(x), "refused"
	})
	s := intervals.IntType(8)
	s.Subtract(intervals.IntType(16))
	h.Case("a draw from an emptied set", "", input(nil, 0), func() (obs, exp string) {
		defer func() { recover() }()
		x := s.RandomWithGenerator(&source{Interface: random.NewWithSeed(1)})
		return fmt.Sprint(x), "refused"
	})
}

func main() {
	h = lib.New()
	empty()
	for !h.Expired() {
		for k := 0; k < 20; k++ {
			member()
		}
		reach()
		halves()
	}
	h.Done()
}
