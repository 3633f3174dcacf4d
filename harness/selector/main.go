// Searches for vector lists and limits on which a selector returns something
// other than what it was given.
package main

import (
	"fmt"
	"math/rand"

	"github.com/mmcloughlin/trunnel/tv"
	"github.com/mmcloughlin/trunnel/zzverif/lib"
)

// make m vectors; when twins, many of them look alike
func vectors(r *rand.Rand, m int, twins bool) []tv.Vector {
	vs := make([]tv.Vector, m, m+r.Intn(4))
	for i := range vs {
		n := r.Intn(6)
		if !twins {
			n += 4
		}
		b := make([]byte, n)
		r.Read(b)
		if twins {
			for k := range b {
				b[k] &= 1
			}
		} else {
			b[0], b[1], b[2] = byte(i), byte(i>>8), byte(i>>16)
		}
		vs[i] = tv.NewVector(b)
		if r.Intn(3) == 0 {
			c := tv.NewConstraints()
			_ = c.Set("c", "x", int64(i))
			vs[i].Constraints = c
		}
	}
	return vs
}

func text(v tv.Vector) string {
	return fmt.Sprintf("%x %v", v.Data, v.Constraints)
}

func texts(vs []tv.Vector) []string {
	var r []string
	for _, v := range vs {
		r = append(r, text(v))
	}
	return r
}

func same(a, b []string) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

func main() {
	h := lib.New()
	sizes := []int{0, 1, 2, 3, 4, 5, 8, 10, 16, 17, 100}
	for i := 0; !h.Expired(); i++ {
		m := sizes[h.Rand.Intn(len(sizes))]
		if h.Rand.Intn(2) == 0 {
			m = h.Rand.Intn(40)
		}
		if h.Rand.Intn(60) == 0 {
			m = 3000 + h.Rand.Intn(3000)
		}
		n := h.Rand.Intn(m + 3)
		if h.Rand.Intn(3) == 0 {
			n = m - 1 + h.Rand.Intn(3)
		}
		if n < 0 {
			n = 0
		}
		twins := h.Rand.Intn(3) == 0
		vs := vectors(h.Rand, m, twins)
		before := texts(vs)
		inp := func() interface{} { return map[string]interface{}{"vectors": m, "limit": n, "twins": twins} }
		key := fmt.Sprint(m, n, twins, i%64)
		h.Case("exhaustive selection", key, inp, func() (string, string) {
			r := tv.Exhaustive.SelectVectors(vs)
			if !same(texts(r), before) {
				return fmt.Sprint(texts(r)), fmt.Sprint(before)
			}
			if !same(texts(vs), before) {
				return "the input was changed", "input unchanged"
			}
			return "", ""
		})
		sel := tv.RandomSampleSelector(n)
		for j := 0; j < 3; j++ {
			h.Case("random sample", key, inp, func() (string, string) {
				r := sel.SelectVectors(vs)
				got := texts(r)
				if !same(texts(vs), before) {
					return "the input was changed", "input unchanged"
				}
				if m <= n {
					if !same(got, before) {
						return fmt.Sprint(got), fmt.Sprint(before)
					}
					return "", ""
				}
				if len(r) != n {
					return fmt.Sprintf("%d vectors", len(r)), fmt.Sprintf("%d vectors", n)
				}
				left := map[string]int{}
				for _, t := range before {
					left[t]++
				}
				for k, t := range got {
					if left[t]--; left[t] < 0 {
						return fmt.Sprintf("vector %d, %s, selected more often than it occurs", k, t), "distinct positions of the input"
					}
				}
				return "", ""
			})
		}
	}
	h.Done()
}
