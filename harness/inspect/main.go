// Searches for declarations on which package inspect disagrees with a direct
// reading of them. Modes: names, values, branches.
package main

import (
	"fmt"
	"math"
	"os"
	"strings"

	"github.com/mmcloughlin/trunnel/ast"
	"github.com/mmcloughlin/trunnel/inspect"
	"github.com/mmcloughlin/trunnel/zzverif/lib"
)

var h *lib.H

func n(k int) int { return h.Rand.Intn(k) }

func pick(xs ...string) string { return xs[n(len(xs))] }

// ---- names over several files

var idents = []string{"a", "b", "A", "aa", "c", "x_y", ""}

func name() string {
	if n(20) == 0 {
		return fmt.Sprintf("n%d", n(30))
	}
	return idents[n(len(idents)-1+n(2))]
}

func randomFile(dups bool) *ast.File {
	f := &ast.File{}
	used := map[string]bool{}
	fresh := func(kind string) (string, bool) {
		s := name()
		if used[kind+s] && !dups {
			return "", false
		}
		used[kind+s] = true
		return s, true
	}
	for k := n(4); k > 0; k-- {
		if s, ok := fresh("k"); ok {
			f.Constants = append(f.Constants, &ast.Constant{Name: s, Value: int64(n(2)) * []int64{1, 1 << 40, -1}[n(3)]})
		}
	}
	for k := n(4); k > 0; k-- {
		if s, ok := fresh("c"); ok {
			f.Contexts = append(f.Contexts, &ast.Context{Name: s, Members: []*ast.Field{{Name: "f", Type: ast.U8}}})
		}
	}
	for k := n(4); k > 0; k-- {
		if s, ok := fresh("s"); ok {
			st := &ast.Struct{Name: s}
			switch n(4) {
			case 0:
				st.Members = []ast.Member{}
			case 1:
				st.Members = []ast.Member{&ast.Field{Name: "x", Type: ast.U16}}
			}
			f.Structs = append(f.Structs, st)
		}
	}
	if n(6) == 0 {
		f.Pragmas = append(f.Pragmas, &ast.Pragma{Type: "trunnel", Options: []string{"x"}})
	}
	return f
}

func describe(fs []*ast.File) interface{} {
	var out []string
	for i, f := range fs {
		var b strings.Builder
		fmt.Fprintf(&b, "file %d:", i)
		for _, c := range f.Constants {
			fmt.Fprintf(&b, " const %s=%d", c.Name, c.Value)
		}
		for _, c := range f.Contexts {
			fmt.Fprintf(&b, " context %s", c.Name)
		}
		for _, s := range f.Structs {
			if s.Extern() {
				fmt.Fprintf(&b, " extern %s", s.Name)
			} else {
				fmt.Fprintf(&b, " struct %s(%d)", s.Name, len(s.Members))
			}
		}
		out = append(out, b.String())
	}
	return out
}

type table struct {
	structs  map[string]*ast.Struct
	contexts map[string]*ast.Context
	consts   map[string]int64
}

func newTable() *table {
	return &table{map[string]*ast.Struct{}, map[string]*ast.Context{}, map[string]int64{}}
}

// add says whether the file can be added, and adds it.
func (t *table) add(f *ast.File) bool {
	seen := map[string]bool{}
	dup := func(k string) bool {
		d := seen[k]
		seen[k] = true
		return d
	}
	for _, s := range f.Structs {
		if dup("s" + s.Name) {
			return false
		}
		if e, ok := t.structs[s.Name]; ok && e.Members != nil {
			return false
		}
	}
	for _, c := range f.Contexts {
		if dup("c" + c.Name) {
			return false
		}
		if _, ok := t.contexts[c.Name]; ok {
			return false
		}
	}
	for _, c := range f.Constants {
		if dup("k" + c.Name) {
			return false
		}
		if v, ok := t.consts[c.Name]; ok && v != c.Value {
			return false
		}
	}
	for _, s := range f.Structs {
		t.structs[s.Name] = s
	}
	for _, c := range f.Contexts {
		t.contexts[c.Name] = c
	}
	for _, c := range f.Constants {
		t.consts[c.Name] = c.Value
	}
	return true
}

func (t *table) check(r *inspect.Resolver) (string, string) {
	all := append([]string{"zz", "other"}, idents...)
	for i := 0; i < 30; i++ {
		all = append(all, fmt.Sprintf("n%d", i))
	}
	for _, k := range all {
		s, ok := r.Struct(k)
		if w, wok := t.structs[k]; ok != wok || s != w {
			return fmt.Sprintf("Struct(%q) = %v, %v", k, s, ok), fmt.Sprint(w, wok)
		}
		sn, err := r.StructNonExtern(k)
		if w, wok := t.structs[k]; (err == nil) != (wok && w.Members != nil) || (err == nil && sn != w) {
			return fmt.Sprintf("StructNonExtern(%q) = %v, %v", k, sn, err), fmt.Sprint(w, wok)
		}
		c, ok := r.Context(k)
		if w, wok := t.contexts[k]; ok != wok || c != w {
			return fmt.Sprintf("Context(%q) = %v, %v", k, c, ok), fmt.Sprint(w, wok)
		}
		v, ok := r.Constant(k)
		if w, wok := t.consts[k]; ok != wok || (ok && v != w) {
			return fmt.Sprintf("Constant(%q) = %v, %v", k, v, ok), fmt.Sprint(w, wok)
		}
	}
	left := map[*ast.Struct]bool{}
	for _, s := range t.structs {
		left[s] = true
	}
	for _, s := range r.Structs() {
		if !left[s] {
			return fmt.Sprintf("Structs() contains %v (again)", s), "each struct once"
		}
		delete(left, s)
	}
	if len(left) != 0 {
		return fmt.Sprintf("%d structs missing from Structs()", len(left)), "each struct once"
	}
	return "", ""
}

func names() {
	var fs []*ast.File
	dups := n(4) == 0
	for k := n(5); k > 0; k-- {
		fs = append(fs, randomFile(dups && n(3) == 0))
	}
	if n(10) == 0 && len(fs) > 0 {
		fs = append(fs, fs[n(len(fs))])
	}
	key := ""
	if len(fs) > 0 {
		key = fmt.Sprint(describe(fs))
	}
	h.Case("resolver over files", key, func() interface{} { return describe(fs) }, func() (string, string) {
		t := newTable()
		ok := true
		for _, f := range fs {
			if ok = t.add(f); !ok {
				break
			}
		}
		var r *inspect.Resolver
		var err error
		if len(fs) == 1 && n(2) == 0 {
			r, err = inspect.NewResolver(fs[0])
		} else {
			r, err = inspect.NewResolverFiles(fs)
		}
		if (err == nil) != ok {
			return fmt.Sprintf("error %v", err), fmt.Sprintf("accepted: %v", ok)
		}
		if err != nil {
			if r != nil {
				return "a resolver and an error", "no resolver"
			}
			return "", ""
		}
		return t.check(r)
	})
	var log []string
	h.Case("declarations one at a time", key, func() interface{} { return log }, func() (string, string) {
		t := newTable()
		r := inspect.NewResolverEmpty()
		for k := 1 + n(12); k > 0; k-- {
			f := randomFile(true)
			var err error
			one := &ast.File{}
			switch {
			case len(f.Structs) > 0 && n(3) == 0:
				one.Structs = f.Structs[:1]
				err = r.AddStruct(f.Structs[0])
			case len(f.Contexts) > 0 && n(2) == 0:
				one.Contexts = f.Contexts[:1]
				err = r.AddContext(f.Contexts[0])
			case len(f.Constants) > 0:
				one.Constants = f.Constants[:1]
				if n(2) == 0 {
					err = r.AddConstant(f.Constants[0])
				} else {
					err = r.SetConstant(f.Constants[0].Name, f.Constants[0].Value)
				}
			default:
				continue
			}
			log = append(log, fmt.Sprint(describe([]*ast.File{one})))
			if ok := t.add(one); ok != (err == nil) {
				return fmt.Sprintf("error %v", err), fmt.Sprintf("accepted: %v", ok)
			}
			if o, e := t.check(r); o != "" {
				return o, e
			}
		}
		return "", ""
	})
	h.Case("tables of one file", key, func() interface{} { return describe(fs) }, func() (string, string) {
		for _, f := range fs {
			ss, err := inspect.Structs(f)
			want := map[string]*ast.Struct{}
			for _, s := range f.Structs {
				want[s.Name] = s
			}
			if (err == nil) != (len(want) == len(f.Structs)) {
				return fmt.Sprintf("Structs: error %v", err), "error exactly on a repeated name"
			}
			if err == nil && fmt.Sprint(ss) != fmt.Sprint(want) {
				return fmt.Sprint(ss), fmt.Sprint(want)
			}
			cs, err := inspect.Contexts(f)
			wantC := map[string]*ast.Context{}
			for _, s := range f.Contexts {
				wantC[s.Name] = s
			}
			if (err == nil) != (len(wantC) == len(f.Contexts)) {
				return fmt.Sprintf("Contexts: error %v", err), "error exactly on a repeated name"
			}
			if err == nil && fmt.Sprint(cs) != fmt.Sprint(wantC) {
				return fmt.Sprint(cs), fmt.Sprint(wantC)
			}
			ks, err := inspect.Constants(f)
			wantK := map[string]int64{}
			for _, s := range f.Constants {
				wantK[s.Name] = s.Value
			}
			if (err == nil) != (len(wantK) == len(f.Constants)) {
				return fmt.Sprintf("Constants: error %v", err), "error exactly on a repeated name"
			}
			if err == nil && fmt.Sprint(ks) != fmt.Sprint(wantK) {
				return fmt.Sprint(ks), fmt.Sprint(wantK)
			}
		}
		return "", ""
	})
}

// ---- values

var ints = []int64{0, 1, 2, 3, 4, 5, 7, 8, 254, 255, 256, 257, 65535, 65536, 1<<32 - 1, 1 << 32, math.MaxInt64 - 1, math.MaxInt64}

type konst struct {
	Name  string
	Value int64
}

type world struct {
	ks     []konst
	ctx    []*ast.Context
	r      *inspect.Resolver
	consts map[string]int64
}

func newWorld() *world {
	w := &world{consts: map[string]int64{}}
	f := &ast.File{}
	for _, k := range []string{"A", "B", "C", "K"} {
		if n(3) > 0 {
			v := ints[n(len(ints))]
			w.ks = append(w.ks, konst{k, v})
			w.consts[k] = v
			f.Constants = append(f.Constants, &ast.Constant{Name: k, Value: v})
		}
	}
	for _, k := range []string{"ctx", "other"} {
		if n(3) > 0 {
			c := &ast.Context{Name: k}
			for j := n(4); j > 0; j-- {
				c.Members = append(c.Members, field())
			}
			w.ctx = append(w.ctx, c)
			f.Contexts = append(f.Contexts, c)
		}
	}
	var err error
	if w.r, err = inspect.NewResolver(f); err != nil {
		panic(err)
	}
	return w
}

func fieldType() ast.Type {
	switch n(9) {
	case 0:
		return &ast.NulTermString{}
	case 1:
		return &ast.StructRef{Name: "q"}
	case 2:
		return &ast.FixedArrayMember{Base: ast.U8, Size: &ast.IntegerLiteral{Value: 3}}
	case 3:
		return &ast.CharType{}
	case 4:
		return &ast.Ptr{}
	}
	t := &ast.IntType{Size: []uint{8, 16, 32, 64}[n(4)]}
	if n(4) == 0 {
		t.Constraint = &ast.IntegerList{Ranges: []*ast.IntegerRange{{Low: &ast.IntegerLiteral{Value: 1}}}}
	}
	return t
}

func field() *ast.Field {
	return &ast.Field{Name: pick("x", "y", "len", "X", ""), Type: fieldType()}
}

func (w *world) integer() ast.Integer {
	switch n(12) {
	case 0, 1, 2:
		return &ast.IntegerConstRef{Name: pick("A", "B", "C", "K", "a", "")}
	case 3:
		if n(6) == 0 {
			return []ast.Integer{nil, 5, int64(5), "A", &ast.IDRef{Name: "A"}, ast.IntegerLiteral{Value: 3}, &ast.EOS{}}[n(7)]
		}
	}
	return &ast.IntegerLiteral{Value: ints[n(len(ints))]}
}

func (w *world) value(i ast.Integer) (int64, bool) {
	switch i := i.(type) {
	case *ast.IntegerLiteral:
		return i.Value, true
	case *ast.IntegerConstRef:
		v, ok := w.consts[i.Name]
		return v, ok
	}
	return 0, false
}

func showInt(i ast.Integer) string {
	switch i := i.(type) {
	case *ast.IntegerLiteral:
		return fmt.Sprint(i.Value)
	case *ast.IntegerConstRef:
		return i.Name
	}
	return fmt.Sprintf("%T", i)
}

func showList(l *ast.IntegerList) string {
	var out []string
	for _, r := range l.Ranges {
		s := showInt(r.Low)
		if r.High != nil {
			s += ".." + showInt(r.High)
		}
		out = append(out, s)
	}
	return strings.Join(out, ", ")
}

func (w *world) list() *ast.IntegerList {
	l := &ast.IntegerList{}
	at := uint64(0)
	tidy := n(3) > 0
	for k := n(6); k > 0; k-- {
		if tidy {
			lo := at + uint64(n(4))*uint64(n(100))
			hi := lo
			g := &ast.IntegerRange{Low: &ast.IntegerLiteral{Value: int64(lo)}}
			if n(2) == 0 {
				hi = lo + uint64(n(60))
				g.High = &ast.IntegerLiteral{Value: int64(hi)}
			}
			at = hi + 1
			l.Ranges = append(l.Ranges, g)
			continue
		}
		g := &ast.IntegerRange{Low: w.integer()}
		if n(2) == 0 {
			g.High = w.integer()
		}
		l.Ranges = append(l.Ranges, g)
	}
	if tidy {
		h.Rand.Shuffle(len(l.Ranges), func(i, j int) { l.Ranges[i], l.Ranges[j] = l.Ranges[j], l.Ranges[i] })
	}
	return l
}

type span struct{ lo, hi uint64 }

func (w *world) spans(l *ast.IntegerList) ([]span, bool) {
	var ss []span
	for _, r := range l.Ranges {
		lo, ok := w.value(r.Low)
		if !ok {
			return nil, false
		}
		s := span{uint64(lo), uint64(lo)}
		if r.High != nil {
			hi, ok := w.value(r.High)
			if !ok {
				return nil, false
			}
			s.hi = uint64(hi)
		}
		if s.hi < s.lo {
			return nil, false
		}
		for _, t := range ss {
			if t.lo <= s.hi && s.lo <= t.hi {
				return nil, false
			}
		}
		ss = append(ss, s)
	}
	return ss, true
}

func inside(ss []span, x uint64) bool {
	for _, s := range ss {
		if s.lo <= x && x <= s.hi {
			return true
		}
	}
	return false
}

func points(lists ...[]span) []uint64 {
	out := []uint64{0, 1, 255, 256, 65535, 65536, 1<<32 - 1, 1 << 32, math.MaxInt64, math.MaxInt64 + 1, math.MaxUint64}
	for _, ss := range lists {
		for _, s := range ss {
			out = append(out, s.lo-1, s.lo, s.lo+1, s.hi-1, s.hi, s.hi+1, s.lo+(s.hi-s.lo)/2)
		}
	}
	return out
}

func values() {
	w := newWorld()
	i := w.integer()
	h.Case("an integer", fmt.Sprint(w.ks, showInt(i)), func() interface{} { return map[string]interface{}{"constants": w.ks, "integer": showInt(i)} },
		func() (string, string) {
			v, err := w.r.Integer(i)
			want, ok := w.value(i)
			if ok != (err == nil) || (ok && v != want) {
				return fmt.Sprint(v, err), fmt.Sprint(want, ok)
			}
			return "", ""
		})
	l := w.list()
	h.Case("an integer list", fmt.Sprint(w.ks, showList(l)), func() interface{} { return map[string]interface{}{"constants": w.ks, "list": showList(l)} },
		func() (string, string) {
			ss, ok := w.spans(l)
			before := showList(l)
			set, err := w.r.Intervals(l)
			if showList(l) != before {
				return "the list became " + showList(l), before
			}
			if ok != (err == nil) {
				return fmt.Sprintf("%v, error %v", set, err), fmt.Sprintf("accepted: %v", ok)
			}
			if err != nil {
				if set != nil {
					return "a set and an error", "no set"
				}
				return "", ""
			}
			for _, x := range points(ss) {
				if set.Contains(x) != inside(ss, x) {
					return fmt.Sprintf("Contains(%d) = %v", x, set.Contains(x)), fmt.Sprint(inside(ss, x))
				}
			}
			return "", ""
		})
	local := &ast.Struct{Name: "s"}
	for k := n(6); k > 0; k-- {
		switch n(5) {
		case 0:
			local.Members = append(local.Members, &ast.UnionMember{Name: pick("x", "y"), Cases: []*ast.UnionCase{{Members: []ast.Member{field()}}}})
		case 1:
			local.Members = append(local.Members, &ast.EOS{})
		default:
			local.Members = append(local.Members, field())
		}
	}
	ref := &ast.IDRef{Scope: pick("", "", "ctx", "other", "none"), Name: pick("x", "y", "len", "X", "z", "")}
	h.Case("a field reference", fmt.Sprint(ref.Scope, ".", ref.Name, len(local.Members), n(100000)), func() interface{} {
		var ms []string
		for _, m := range local.Members {
			if f, ok := m.(*ast.Field); ok {
				ms = append(ms, fmt.Sprintf("%s %T", f.Name, f.Type))
			} else {
				ms = append(ms, fmt.Sprintf("%T", m))
			}
		}
		cs := map[string][]string{}
		for _, c := range w.ctx {
			for _, f := range c.Members {
				cs[c.Name] = append(cs[c.Name], fmt.Sprintf("%s %T", f.Name, f.Type))
			}
		}
		return map[string]interface{}{"reference": ref, "local": ms, "contexts": cs}
	}, func() (string, string) {
		var fs []*ast.Field
		if ref.Scope == "" {
			for _, m := range local.Members {
				if f, ok := m.(*ast.Field); ok {
					fs = append(fs, f)
				}
			}
		} else {
			for _, c := range w.ctx {
				if c.Name == ref.Scope {
					fs = c.Members
				}
			}
		}
		var want *ast.IntType
		for _, f := range fs {
			if f.Name == ref.Name {
				want, _ = f.Type.(*ast.IntType)
				break
			}
		}
		got, err := w.r.IntType(ref, local)
		if (err == nil) != (want != nil) || got != want {
			return fmt.Sprintf("%p %v", got, err), fmt.Sprintf("%p", want)
		}
		return "", ""
	})
}

// ---- unions

func branches() {
	w := newWorld()
	size := []uint{8, 8, 16, 32, 64}[n(5)]
	it := &ast.IntType{Size: size}
	if n(4) == 0 {
		it.Constraint = w.list() // a value list of the tag has no say in which case is chosen
	}
	tag := &ast.Field{Name: "tag", Type: it}
	s := &ast.Struct{Name: "s", Members: []ast.Member{tag}}
	u := &ast.UnionMember{Name: "u", Tag: &ast.IDRef{Name: "tag"}}
	if n(6) == 0 && len(w.ctx) > 0 {
		u.Tag = &ast.IDRef{Scope: w.ctx[0].Name, Name: pick("x", "y")}
	}
	s.Members = append(s.Members, u)
	dflt := -1
	cases := n(6)
	if n(3) > 0 && cases > 0 {
		dflt = n(cases)
		if n(2) == 0 {
			dflt = cases - 1
		}
	}
	full := n(12) == 0
	at := uint64(0)
	for k := 0; k < cases; k++ {
		c := &ast.UnionCase{Members: []ast.Member{&ast.Field{Name: fmt.Sprint("f", k), Type: ast.U8}}}
		if k != dflt {
			if full {
				// a few ranges covering everything the tag can hold
				hi := uint64(math.MaxInt64)
				if size < 64 {
					hi = 1<<size - 1
				}
				g := &ast.IntegerRange{Low: &ast.IntegerLiteral{Value: int64(at)}, High: &ast.IntegerLiteral{Value: int64(hi)}}
				if k < cases-1 && at < hi {
					mid := at + (hi-at)/2
					g.High = &ast.IntegerLiteral{Value: int64(mid)}
					at = mid + 1
				}
				c.Case = &ast.IntegerList{Ranges: []*ast.IntegerRange{g}}
			} else {
				c.Case = w.list()
			}
		}
		u.Cases = append(u.Cases, c)
	}
	show := func() interface{} {
		var out []string
		for _, c := range u.Cases {
			if c.Case == nil {
				out = append(out, "default")
			} else {
				out = append(out, showList(c.Case))
			}
		}
		m := map[string]interface{}{"tag bits": size, "tag": u.Tag, "cases": out, "constants": w.ks}
		if it.Constraint != nil {
			m["tag values"] = showList(it.Constraint)
		}
		return m
	}
	h.Case("a union", fmt.Sprint(show()), show, func() (string, string) {
		var spans [][]span
		ok := true
		for _, c := range u.Cases {
			var ss []span
			if c.Case != nil {
				var k bool
				ss, k = w.spans(c.Case)
				ok = ok && k
			}
			spans = append(spans, ss)
		}
		bits := size
		if u.Tag.Scope != "" {
			t, err := w.r.IntType(u.Tag, s)
			if err != nil {
				ok = false
			} else {
				bits = t.Size
			}
		}
		b, err := inspect.NewBranches(w.r, s, u)
		if (err == nil) != ok {
			return fmt.Sprintf("error %v", err), fmt.Sprintf("accepted: %v", ok)
		}
		if err != nil {
			return "", ""
		}
		top := uint64(math.MaxUint64)
		if bits < 64 {
			top = 1<<bits - 1
		}
		all := b.All()
		nb := len(u.Cases)
		if len(all) != nb {
			return fmt.Sprintf("%d branches", len(all)), fmt.Sprint(nb)
		}
		for _, x := range points(spans...) {
			if x > top {
				continue
			}
			want := -1
			for k := range spans {
				if want < 0 && inside(spans[k], x) {
					want = k
				}
			}
			listed := want >= 0
			if want < 0 {
				want = dflt
			}
			br, found := b.Lookup(int64(x))
			if found != (want >= 0) {
				return fmt.Sprintf("Lookup(%d): found %v", x, found), fmt.Sprintf("case %d", want)
			}
			if found && br.Case != u.Cases[want] {
				return fmt.Sprintf("Lookup(%d) gives another case", x), fmt.Sprintf("case %d", want)
			}
			if found && !br.Set.Contains(x) {
				return fmt.Sprintf("set of the branch for %d does not contain it", x), "contains"
			}
			first := -1
			for k, a := range all {
				if first < 0 && a.Set.Contains(x) {
					first = k
				}
				for j, c := range u.Cases {
					if a.Case != c {
						continue
					}
					if j == dflt {
						if a.Set.Contains(x) == listed {
							return fmt.Sprintf("set of the default contains %d: %v", x, a.Set.Contains(x)), fmt.Sprint(!listed)
						}
					} else if a.Set.Contains(x) != inside(spans[j], x) {
						return fmt.Sprintf("set of case %d contains %d: %v", j, x, a.Set.Contains(x)), fmt.Sprint(inside(spans[j], x))
					}
				}
			}
			if (first >= 0) != found || (found && all[first].Case != br.Case) {
				return fmt.Sprintf("enumeration and lookup disagree on %d", x), "agreement"
			}
		}
		return "", ""
	})
}

func main() {
	h = lib.New()
	mode := map[string]func(){"names": names, "values": values, "branches": branches}[os.Args[1]]
	for !h.Expired() {
		mode()
	}
	h.Done()
}
