// Searches for sequences of operations on which the constraint store disagrees
// with a plain map of bindings.
package main

import (
	"fmt"
	"math"
	"strings"

	"github.com/mmcloughlin/trunnel/ast"
	"github.com/mmcloughlin/trunnel/tv"
	"github.com/mmcloughlin/trunnel/zzverif/lib"
)

type key struct{ s, k string }
type model map[key]int64

func (m model) copy() model {
	c := model{}
	for k, v := range m {
		c[k] = v
	}
	return c
}

var scopes = []string{"", "a", "b", "A", "ctx", "a.b", "a.", " ", "\x00", "é"}
var names = []string{"", "x", "y", "X", "b.x", ".x", "xx", "\x00", "len"}
var values = []int64{0, 1, 2, -1, 255, 256, 65535, 1 << 31, 1<<32 - 1, 1 << 32, math.MaxInt64, math.MinInt64, 42}

type run struct {
	h     *lib.H
	real  []tv.Constraints
	want  []model
	trace []string
	bad   [2]string
}

func (r *run) name() string { return names[r.h.Rand.Intn(len(names))] }

func (r *run) pick(few bool) (string, string, int64) {
	n, m, v := len(scopes), len(names), len(values)
	if few {
		n, m, v = 3, 3, 3
	}
	return scopes[r.h.Rand.Intn(n)], names[r.h.Rand.Intn(m)], values[r.h.Rand.Intn(v)]
}

func (r *run) fail(got, want string) {
	if r.bad[0] == "" {
		r.bad = [2]string{got, want}
	}
}

// compare looks at every binding of every store.
func (r *run) compare(extra []key) {
	for i := range r.real {
		seen := map[key]bool{}
		var ks []key
		for _, s := range scopes {
			for _, k := range names {
				ks = append(ks, key{s, k})
			}
		}
		for k := range r.want[i] {
			ks = append(ks, k)
		}
		ks = append(ks, extra...)
		for _, k := range ks {
			if seen[k] {
				continue
			}
			seen[k] = true
			w, wok := r.want[i][k]
			g, ok := r.real[i].Lookup(k.s, k.k)
			if ok != wok || (ok && g != w) {
				r.fail(fmt.Sprintf("store %d: Lookup(%q, %q) = %d, %v", i, k.s, k.k, g, ok), fmt.Sprintf("%d, %v", w, wok))
			}
			if g, ok := r.real[i].LookupRef(&ast.IDRef{Scope: k.s, Name: k.k}); ok != wok || (ok && g != w) {
				r.fail(fmt.Sprintf("store %d: LookupRef(%q, %q) = %d, %v", i, k.s, k.k, g, ok), fmt.Sprintf("%d, %v", w, wok))
			}
			if k.s == "" {
				if g, ok := r.real[i].LookupLocal(k.k); ok != wok || (ok && g != w) {
					r.fail(fmt.Sprintf("store %d: LookupLocal(%q) = %d, %v", i, k.k, g, ok), fmt.Sprintf("%d, %v", w, wok))
				}
			}
		}
	}
}

func (r *run) step(few bool) {
	R := r.h.Rand
	i, j := R.Intn(len(r.real)), R.Intn(len(r.real))
	c, w := r.real[i], r.want[i]
	s, k, v := r.pick(few)
	if R.Intn(40) == 0 {
		s += strings.Repeat("s", R.Intn(20))
		k += fmt.Sprint(R.Intn(50))
	}
	id := key{s, k}
	log := func(f string, a ...interface{}) { r.trace = append(r.trace, fmt.Sprintf(f, a...)) }
	put := func(m model, c tv.Constraints) {
		if len(r.real) < 6 {
			r.real, r.want = append(r.real, c), append(r.want, m)
		} else {
			n := R.Intn(6)
			log("store %d replaced", n)
			r.real[n], r.want[n] = c, m
		}
	}
	switch R.Intn(16) {
	case 0, 1, 2, 3:
		var err error
		if R.Intn(2) == 0 {
			log("%d.Set(%q,%q,%d)", i, s, k, v)
			err = c.Set(s, k, v)
		} else {
			log("%d.SetRef(%q.%q,%d)", i, s, k, v)
			err = c.SetRef(&ast.IDRef{Scope: s, Name: k}, v)
		}
		u, have := w[id]
		if (err != nil) != (have && u != v) {
			r.fail(fmt.Sprintf("error %v", err), fmt.Sprintf("error exactly when bound to another value (bound: %v, to %d)", have, u))
		}
		if !have {
			w[id] = v
		}
	case 4, 5, 6:
		var g int64
		if R.Intn(2) == 0 {
			log("%d.LookupOrCreate(%q,%q,%d)", i, s, k, v)
			g = c.LookupOrCreate(s, k, v)
		} else {
			log("%d.LookupOrCreateRef(%q.%q,%d)", i, s, k, v)
			g = c.LookupOrCreateRef(&ast.IDRef{Scope: s, Name: k}, v)
		}
		if _, have := w[id]; !have {
			w[id] = v
		}
		if g != w[id] {
			r.fail(fmt.Sprint(g), fmt.Sprint(w[id]))
		}
	case 7:
		if R.Intn(2) == 0 {
			s = ""
			log("%d.ClearLocal()", i)
			c.ClearLocal()
		} else {
			log("%d.ClearScope(%q)", i, s)
			c.ClearScope(s)
		}
		for k := range w {
			if k.s == s {
				delete(w, k)
			}
		}
	case 8, 9:
		log("%d.Clone()", i)
		put(w.copy(), c.Clone())
	case 10:
		log("%d.CloneGlobal()", i)
		m := w.copy()
		for k := range m {
			if k.s == "" {
				delete(m, k)
			}
		}
		put(m, c.CloneGlobal())
	case 11, 12, 13:
		log("%d.Merge(%d)", i, j)
		m := w.copy()
		clash := false
		for k, v := range r.want[j] {
			if u, ok := m[k]; ok && u != v {
				clash = true
			}
			m[k] = v
		}
		g, err := c.Merge(r.real[j])
		if (err != nil) != clash {
			r.fail(fmt.Sprintf("error %v", err), fmt.Sprintf("error exactly when the stores disagree (%v)", clash))
			return
		}
		if err == nil {
			put(m, g)
		}
	case 14:
		clash := false
		m := w.copy()
		for k, v := range r.want[j] {
			if u, ok := m[k]; ok && u != v {
				clash = true
			}
			m[k] = v
		}
		if clash {
			// how much of it is applied is not promised
			d := c.Clone()
			log("clone of %d.Update(%d)", i, j)
			if err := d.Update(r.real[j]); err == nil {
				r.fail("no error", "error as the stores disagree")
			}
			for k, u := range w {
				if g, ok := d.Lookup(k.s, k.k); !ok || g != u {
					r.fail(fmt.Sprintf("Lookup(%q,%q)=%d,%v after failed update", k.s, k.k, g, ok), fmt.Sprint(u))
				}
			}
			return
		}
		log("%d.Update(%d)", i, j)
		if err := c.Update(r.real[j]); err != nil {
			r.fail(fmt.Sprintf("error %v", err), "no error as the stores agree")
		}
		r.want[i] = m
	case 15:
		log("new")
		put(model{}, tv.NewConstraints())
	}
}

func main() {
	h := lib.New()
	for n := 0; !h.Expired(); n++ {
		r := &run{h: h, real: []tv.Constraints{tv.NewConstraints()}, want: []model{{}}}
		few := h.Rand.Intn(3) != 0
		steps := 1 + h.Rand.Intn(40)
		if h.Rand.Intn(50) == 0 {
			steps = 300
		}
		h.Case("a sequence of operations", fmt.Sprint(n), func() interface{} { return r.trace }, func() (string, string) {
			for i := 0; i < steps && r.bad[0] == ""; i++ {
				r.step(few)
				r.compare(nil)
			}
			return r.bad[0], r.bad[1]
		})
	}
	h.Done()
}
