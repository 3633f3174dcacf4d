// Searches for inputs on which the interval package disagrees with plain set
// arithmetic on sample points.
package main

import (
	"fmt"
	"math"
	"sort"

	"github.com/mmcloughlin/trunnel/internal/intervals"
	"github.com/mmcloughlin/trunnel/zzverif/lib"
)

type pair struct{ Lo, Hi uint64 }

var pool = []uint64{0, 1, 2, 3, 4, 5, 7, 8, 254, 255, 256, 65535, 65536, 1<<32 - 1, 1 << 32, 1<<63 - 1, 1 << 63, math.MaxUint64 - 3,
	math.MaxUint64 - 2, math.MaxUint64 - 1, math.MaxUint64}

func in(ps []pair, x uint64) int {
	n := 0
	for _, p := range ps {
		if p.Lo <= x && x <= p.Hi {
			n++
		}
	}
	return n
}

func points(lists ...[]pair) []uint64 {
	s := map[uint64]bool{0: true, 1: true, math.MaxUint64: true, math.MaxUint64 - 1: true, 1 << 63: true}
	for _, l := range lists {
		for _, p := range l {
			for _, v := range []uint64{p.Lo - 1, p.Lo, p.Lo + 1, p.Hi - 1, p.Hi, p.Hi + 1} {
				s[v] = true
			}
		}
	}
	var r []uint64
	for v := range s {
		r = append(r, v)
	}
	sort.Slice(r, func(i, j int) bool { return r[i] < r[j] })
	return r
}

func mk(ps []pair) []intervals.Interval {
	var is []intervals.Interval
	for _, p := range ps {
		switch {
		case p.Lo == p.Hi && p.Lo%2 == 0:
			is = append(is, intervals.Single(p.Lo))
		case p.Lo == 0 && p.Hi%2 == 0:
			is = append(is, intervals.OpenLeft(p.Hi))
		case p.Hi == math.MaxUint64 && p.Lo%2 == 0:
			is = append(is, intervals.OpenRight(p.Lo))
		default:
			is = append(is, intervals.Range(p.Lo, p.Hi))
		}
	}
	return is
}

func check(h *lib.H, a, b []pair) {
	key := fmt.Sprint(a, b)
	if len(a) == 0 && len(b) == 0 {
		key = ""
	}
	inp := func() interface{} { return map[string]interface{}{"a": a, "b": b} }
	pts := points(a, b)
	h.Case("set built from ranges a contains exactly their integers", key, inp, func() (string, string) {
		s := intervals.NewSet(mk(a)...)
		for _, x := range pts {
			if s.Contains(x) != (in(a, x) > 0) {
				return fmt.Sprintf("Contains(%d)=%v", x, s.Contains(x)), fmt.Sprint(in(a, x) > 0)
			}
		}
		return "", ""
	})
	h.Case("Overlaps(a)", key, inp, func() (string, string) {
		want := false
		for i := range a {
			for j := range a[:i] {
				if a[i].Lo <= a[j].Hi && a[j].Lo <= a[i].Hi {
					want = true
				}
			}
		}
		if got := intervals.Overlaps(mk(a)); got != want {
			return fmt.Sprint(got), fmt.Sprint(want)
		}
		return "", ""
	})
	h.Case("Simplify(a)", key, inp, func() (string, string) {
		r := intervals.Simplify(mk(a))
		var prev intervals.Interval
		for i, v := range r {
			// order and disjointness, seen through membership of end points
			if i > 0 {
				for _, x := range pts {
					if v.Contains(x) && prev.Contains(x) {
						return fmt.Sprintf("%v: ranges %d and %d share %d", r, i-1, i, x), "disjoint ranges"
					}
					for _, y := range pts {
						if prev.Contains(x) && v.Contains(y) && y < x {
							return fmt.Sprintf("%v not increasing", r), "increasing order"
						}
					}
				}
			}
			prev = v
		}
		for _, x := range pts {
			n := 0
			for _, v := range r {
				if v.Contains(x) {
					n++
				}
			}
			if (n > 0) != (in(a, x) > 0) {
				return fmt.Sprintf("%v: %d covered=%v", r, x, n > 0), fmt.Sprint(in(a, x) > 0)
			}
			if n > 1 {
				return fmt.Sprintf("%v: %d covered twice", r, x), "disjoint ranges"
			}
		}
		return "", ""
	})
	h.Case("a minus b", key, inp, func() (string, string) {
		s, t := intervals.NewSet(mk(a)...), intervals.NewSet(mk(b)...)
		s.Subtract(t)
		for _, x := range pts {
			if want := in(a, x) > 0 && in(b, x) == 0; s.Contains(x) != want {
				return fmt.Sprintf("Contains(%d)=%v", x, s.Contains(x)), fmt.Sprint(want)
			}
			if want := in(b, x) > 0; t.Contains(x) != want {
				return fmt.Sprintf("subtracted set changed: Contains(%d)=%v", x, t.Contains(x)), fmt.Sprint(want)
			}
		}
		// once more, from the result
		s.Subtract(t)
		u := intervals.NewSet(mk(a)...)
		u.Subtract(s)
		for _, x := range pts {
			if want := in(a, x) > 0 && in(b, x) > 0; u.Contains(x) != want {
				return fmt.Sprintf("a-(a-b): Contains(%d)=%v", x, u.Contains(x)), fmt.Sprint(want)
			}
		}
		return "", ""
	})
}

func basics(h *lib.H) {
	for n := uint(0); n <= 64; n++ {
		n := n
		h.Case("IntType(n)", fmt.Sprint("t", n), func() interface{} { return map[string]interface{}{"n": n} }, func() (string, string) {
			s := intervals.IntType(n)
			for i := uint(0); i < 64; i++ {
				for d := uint64(0); d < 3; d++ {
					x := uint64(1)<<i + d - 1
					want := n == 64 || x < uint64(1)<<n
					if s.Contains(x) != want {
						return fmt.Sprintf("Contains(%d)=%v", x, s.Contains(x)), fmt.Sprint(want)
					}
				}
			}
			x := uint64(math.MaxUint64)
			if s.Contains(x) != (n == 64) {
				return fmt.Sprintf("Contains(%d)=%v", x, s.Contains(x)), fmt.Sprint(n == 64)
			}
			return "", ""
		})
	}
	for _, l := range pool {
		for _, hi := range pool {
			l, hi := l, hi
			h.Case("Range(lo,hi)", fmt.Sprint("r", l, hi), func() interface{} { return pair{l, hi} }, func() (o, e string) {
				defer func() {
					if r := recover(); (r != nil) != (hi < l) {
						o, e = fmt.Sprintf("panic %v", r), fmt.Sprintf("panics exactly for reversed ranges")
					}
				}()
				v := intervals.Range(l, hi)
				if v.Size() != hi-l+1 || v.Single() != (l == hi) {
					return fmt.Sprintf("%v Size %d Single %v", v, v.Size(), v.Single()), fmt.Sprintf("size %d", hi-l+1)
				}
				return "", ""
			})
		}
	}
}

func main() {
	h := lib.New()
	defer h.Done()
	basics(h)
	// all lists of up to two ranges over a small pool, against all single ranges and the empty list
	small := []uint64{0, 1, 2, 3, math.MaxUint64 - 1, math.MaxUint64}
	var all []pair
	for i, l := range small {
		for _, r := range small[i:] {
			all = append(all, pair{l, r})
		}
	}
	check(h, nil, nil)
	for _, p := range all {
		check(h, []pair{p}, nil)
		check(h, nil, []pair{p})
		for _, q := range all {
			if h.Expired() {
				return
			}
			check(h, []pair{p}, []pair{q})
			check(h, []pair{p, q}, nil)
			check(h, []pair{{0, math.MaxUint64}}, []pair{p, q})
		}
	}
	for !h.Expired() {
		var l [2][]pair
		small := h.Rand.Intn(2) == 0
		for k := range l {
			for n := h.Rand.Intn(7); n > 0; n-- {
				var x, y uint64
				if small {
					x, y = uint64(h.Rand.Intn(12)), uint64(h.Rand.Intn(12))
				} else {
					x, y = pool[h.Rand.Intn(len(pool))], pool[h.Rand.Intn(len(pool))]
				}
				if x > y {
					x, y = y, x
				}
				l[k] = append(l[k], pair{x, y})
			}
		}
		check(h, l[0], l[1])
	}
}
