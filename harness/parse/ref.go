package main

import (
	"math/big"
	"unicode/utf8"

	"github.com/mmcloughlin/trunnel/ast"
)

// ref is a hand-written recursive descent reader of the trunnel grammar, used
// as oracle. It shares no code with the parser under test.
type ref struct {
	s    string
	ling []*ast.Struct // inline structs of the reading so far
	bad  bool          // some integer literal had no value
}

// refParse returns the tree the text spells, or nil if it is not in the language.
func refParse(s string) *ast.File {
	if !utf8.ValidString(s) {
		return nil
	}
	r := &ref{s: s}
	f := r.file()
	if r.bad {
		return nil
	}
	return f
}

const fail = -1

func (r *ref) at(p int) byte {
	if p < len(r.s) {
		return r.s[p]
	}
	return 0
}

func (r *ref) lit(p int, w string) int {
	if p >= 0 && len(r.s)-p >= len(w) && r.s[p:p+len(w)] == w {
		return p + len(w)
	}
	return fail
}

func (r *ref) skipOne(p int) int {
	if p >= len(r.s) {
		return fail
	}
	switch r.s[p] {
	case ' ', '\t', '\r', '\n':
		return p + 1
	case '/':
		if q := r.lit(p, "/*"); q != fail {
			for ; q < len(r.s); q++ {
				if e := r.lit(q, "*/"); e != fail {
					return e
				}
			}
			return fail
		}
		if q := r.lit(p, "//"); q != fail {
			for q < len(r.s) && r.s[q] != '\n' {
				q++
			}
			return q
		}
	}
	return fail
}

// sp skips optional space.
func (r *ref) sp(p int) int {
	if p == fail {
		return fail
	}
	for {
		q := r.skipOne(p)
		if q == fail {
			return p
		}
		p = q
	}
}

// sp1 skips mandatory space.
func (r *ref) sp1(p int) int {
	if p == fail {
		return fail
	}
	q := r.skipOne(p)
	if q == fail {
		return fail
	}
	return r.sp(q)
}

func letter(c byte) bool { return 'a' <= c && c <= 'z' || 'A' <= c && c <= 'Z' || c == '_' }
func upper(c byte) bool  { return 'A' <= c && c <= 'Z' || c == '_' }
func digit(c byte) bool  { return '0' <= c && c <= '9' }

func (r *ref) word(p int, first, rest func(byte) bool) (string, int) {
	if p == fail || p >= len(r.s) || !first(r.s[p]) {
		return "", fail
	}
	q := p + 1
	for q < len(r.s) && rest(r.s[q]) {
		q++
	}
	return r.s[p:q], q
}

func (r *ref) ident(p int) (string, int) {
	return r.word(p, letter, func(c byte) bool { return letter(c) || digit(c) })
}

func (r *ref) constIdent(p int) (string, int) {
	return r.word(p, upper, func(c byte) bool { return upper(c) || digit(c) })
}

func (r *ref) identList(p int) ([]string, int) {
	n, p := r.ident(p)
	if p == fail {
		return nil, fail
	}
	l := []string{n}
	for {
		n, q := r.ident(r.sp(r.lit(r.sp(p), ",")))
		if q == fail {
			return l, p
		}
		l, p = append(l, n), q
	}
}

var maxInt64 = new(big.Int).SetUint64(1<<63 - 1)

func (r *ref) number(p int) (int64, int) {
	if p == fail {
		return 0, fail
	}
	hex := func(c byte) bool { return digit(c) || 'a' <= c && c <= 'f' || 'A' <= c && c <= 'F' }
	oct := func(c byte) bool { return '0' <= c && c <= '7' }
	base, digits := 10, ""
	end := fail
	if d, e := r.word(r.lit(p, "0x"), hex, hex); e != fail {
		base, digits, end = 16, d, e
	} else if d, e := r.word(r.lit(p, "0"), oct, oct); e != fail {
		base, digits, end = 8, d, e
	} else if d, e := r.word(p, digit, digit); e != fail {
		base, digits, end = 10, d, e
		if len(d) > 1 && d[0] == '0' {
			base = 8 // leading zero announces octal, even when the digits deny it
		}
	} else {
		return 0, fail
	}
	v, ok := new(big.Int), true
	for i := 0; i < len(digits); i++ {
		c := int64(digits[i])
		switch {
		case c >= 'a':
			c -= 'a' - 10
		case c >= 'A':
			c -= 'A' - 10
		default:
			c -= '0'
		}
		if c >= int64(base) {
			ok = false
			break
		}
		v.Mul(v, big.NewInt(int64(base)))
		v.Add(v, big.NewInt(c))
	}
	if !ok || v.Cmp(maxInt64) > 0 {
		r.bad = true
		return 0, end
	}
	return v.Int64(), end
}

func (r *ref) integer(p int) (ast.Integer, int) {
	if n, q := r.constIdent(p); q != fail {
		return &ast.IntegerConstRef{Name: n}, q
	}
	if v, q := r.number(p); q != fail {
		return &ast.IntegerLiteral{Value: v}, q
	}
	return nil, fail
}

func (r *ref) intRange(p int) (*ast.IntegerRange, int) {
	lo, p := r.integer(p)
	if p == fail {
		return nil, fail
	}
	x := &ast.IntegerRange{Low: lo}
	if hi, q := r.integer(r.sp(r.lit(r.sp(p), ".."))); q != fail {
		x.High = hi
		return x, q
	}
	return x, p
}

func (r *ref) intList(p int) (*ast.IntegerList, int) {
	x, p := r.intRange(p)
	if p == fail {
		return nil, fail
	}
	l := &ast.IntegerList{Ranges: []*ast.IntegerRange{x}}
	for {
		x, q := r.intRange(r.sp(r.lit(r.sp(p), ",")))
		if q == fail {
			return l, p
		}
		l.Ranges = append(l.Ranges, x)
		p = q
	}
}

func (r *ref) idRef(p int) (*ast.IDRef, int) {
	n, q := r.ident(p)
	if q == fail {
		return nil, fail
	}
	if d := r.lit(q, "."); d != fail {
		// the scope is settled once the dot is seen
		m, e := r.ident(d)
		if e == fail {
			return nil, fail
		}
		return &ast.IDRef{Scope: n, Name: m}, e
	}
	return &ast.IDRef{Name: n}, q
}

func (r *ref) intType(p int) (*ast.IntType, int) {
	for _, w := range []struct {
		t string
		n uint
	}{{"u8", 8}, {"u16", 16}, {"u32", 32}, {"u64", 64}} {
		if q := r.lit(p, w.t); q != fail {
			return &ast.IntType{Size: w.n}, q
		}
	}
	return nil, fail
}

// try undoes pending inline structs when f does not match.
func (r *ref) try(f func() int) int {
	n := len(r.ling)
	q := f()
	if q == fail {
		r.ling = r.ling[:n:n]
	}
	return q
}

func (r *ref) structIdent(p int) (string, int) {
	return r.ident(r.sp1(r.lit(p, "struct")))
}

func (r *ref) withContext(p int) ([]string, int) {
	return r.identList(r.sp1(r.lit(r.sp1(r.lit(r.sp1(p), "with")), "context")))
}

func (r *ref) structDecl(p int) (s *ast.Struct, end int) {
	end = r.try(func() int {
		n, p := r.structIdent(p)
		if p == fail {
			return fail
		}
		s = &ast.Struct{Name: n, Members: []ast.Member{}}
		if c, q := r.withContext(p); q != fail {
			s.Contexts, p = c, q
		}
		p = r.lit(r.sp(p), "{")
		if p == fail {
			return fail
		}
		for {
			m, q := r.structMember(p)
			if q == fail {
				break
			}
			s.Members = append(s.Members, m)
			p = q
		}
		p = r.sp(p)
		if e, q := r.structEnding(p); q != fail {
			s.Members = append(s.Members, e)
			p = q
		}
		return r.lit(r.sp(p), "}")
	})
	return
}

func (r *ref) structRef(p int) (*ast.StructRef, int) {
	if s, q := r.structDecl(p); q != fail {
		r.ling = append(r.ling, s)
		return &ast.StructRef{Name: s.Name}, q
	}
	if n, q := r.structIdent(p); q != fail {
		return &ast.StructRef{Name: n}, q
	}
	return nil, fail
}

func (r *ref) arrayBase(p int) (ast.ArrayBase, int) {
	if t, q := r.intType(p); q != fail {
		return t, q
	}
	if q := r.lit(p, "char"); q != fail {
		return &ast.CharType{}, q
	}
	if s, q := r.structRef(p); q != fail {
		return s, q
	}
	return nil, fail
}

// array reads an array member; kind is the set of bracket contents allowed.
func (r *ref) array(p int, remainder bool) (f *ast.Field, end int) {
	end = r.try(func() int {
		b, p := r.arrayBase(p)
		if p == fail {
			return fail
		}
		n, p := r.ident(r.sp1(p))
		p = r.lit(r.sp(p), "[")
		if p == fail {
			return fail
		}
		if remainder {
			f = &ast.Field{Name: n, Type: &ast.VarArrayMember{Base: b}}
			return r.lit(r.sp(p), "]")
		}
		if i, q := r.integer(p); q != fail {
			if e := r.lit(q, "]"); e != fail {
				f = &ast.Field{Name: n, Type: &ast.FixedArrayMember{Base: b, Size: i}}
				return e
			}
		}
		c, q := r.lengthConstraint(p)
		f = &ast.Field{Name: n, Type: &ast.VarArrayMember{Base: b, Constraint: c}}
		return r.lit(q, "]")
	})
	return
}

func (r *ref) lengthConstraint(p int) (ast.LengthConstraint, int) {
	if i, q := r.integer(r.lit(p, "..-")); q != fail {
		return &ast.Leftover{Num: i}, q
	}
	if i, q := r.idRef(p); q != fail {
		return i, q
	}
	return nil, fail
}

func (r *ref) intField(p int) (*ast.Field, int) {
	t, p := r.intType(p)
	if p == fail {
		return nil, fail
	}
	n, p := r.ident(r.sp(p))
	if p == fail {
		return nil, fail
	}
	p = r.sp(p)
	if l, q := r.intList(r.sp(r.lit(r.sp1(r.lit(p, "IN")), "["))); q != fail {
		if e := r.lit(r.sp(q), "]"); e != fail {
			t.Constraint, p = l, e
		}
	}
	return &ast.Field{Name: n, Type: t}, p
}

func (r *ref) structField(p int) (f *ast.Field, end int) {
	end = r.try(func() int {
		s, p := r.structRef(p)
		n, p := r.ident(r.sp1(p))
		f = &ast.Field{Name: n, Type: s}
		return p
	})
	return
}

// plain reads the member kinds allowed in both structs and unions.
func (r *ref) plain(p int, inStruct bool) (ast.Member, int) {
	if f, q := r.array(p, false); q != fail {
		return f, q
	}
	if f, q := r.intField(p); q != fail {
		return f, q
	}
	if inStruct {
		if n, q := r.ident(r.sp1(r.lit(p, "@ptr"))); q != fail {
			return &ast.Field{Name: n, Type: &ast.Ptr{}}, q
		}
	}
	if n, q := r.ident(r.sp1(r.lit(p, "nulterm"))); q != fail {
		return &ast.Field{Name: n, Type: &ast.NulTermString{}}, q
	}
	if f, q := r.structField(p); q != fail {
		return f, q
	}
	if inStruct {
		if u, q := r.union(p); q != fail {
			return u, q
		}
	}
	return nil, fail
}

func (r *ref) structMember(p int) (m ast.Member, end int) {
	end = r.try(func() int {
		x, q := r.plain(r.sp(p), true)
		m = x
		return r.lit(r.sp(q), ";")
	})
	return
}

func (r *ref) unionField(p int) (m ast.Member, end int) {
	end = r.try(func() int {
		x, q := r.plain(r.sp(p), false)
		m = x
		return r.lit(r.sp(q), ";")
	})
	return
}

func (r *ref) structEnding(p int) (m ast.Member, end int) {
	end = r.try(func() int {
		p = r.sp(p)
		if f, q := r.array(p, true); q != fail {
			m = f
			return r.lit(r.sp(q), ";")
		}
		m = &ast.EOS{}
		return r.lit(r.sp(r.lit(p, "eos")), ";")
	})
	return
}

func (r *ref) union(p int) (u *ast.UnionMember, end int) {
	end = r.try(func() int {
		n, p := r.ident(r.sp1(r.lit(p, "union")))
		t, p := r.idRef(r.lit(r.sp(p), "["))
		p = r.sp(r.lit(p, "]"))
		if p == fail {
			return fail
		}
		u = &ast.UnionMember{Name: n, Tag: t}
		if c, q := r.lengthConstraint(r.sp1(r.lit(r.sp1(r.lit(p, "with")), "length"))); q != fail {
			u.Length, p = c, q
		}
		p = r.sp(r.lit(r.sp(p), "{"))
		if p == fail {
			return fail
		}
		for {
			c, q := r.unionCase(p)
			if q == fail {
				break
			}
			u.Cases = append(u.Cases, c)
			p = q
		}
		return r.lit(r.sp(p), "}")
	})
	return
}

func (r *ref) unionCase(p int) (c *ast.UnionCase, end int) {
	end = r.try(func() int {
		p = r.sp(p)
		c = &ast.UnionCase{}
		if l, q := r.intList(p); q != fail {
			c.Case, p = l, q
		} else if q := r.lit(p, "default"); q != fail {
			p = q
		} else {
			return fail
		}
		p = r.sp(r.lit(r.sp(p), ":"))
		if p == fail {
			return fail
		}
		if q := r.lit(r.sp(p), ";"); q != fail {
			return r.sp(q)
		}
		if q := r.lit(r.sp(r.lit(p, "fail")), ";"); q != fail {
			c.Members = []ast.Member{&ast.Fail{}}
			return r.sp(q)
		}
		if q := r.lit(r.sp(r.lit(p, "ignore")), ";"); q != fail {
			c.Members = []ast.Member{&ast.Ignore{}}
			return r.sp(q)
		}
		for {
			m, q := r.unionField(p)
			if q == fail {
				break
			}
			c.Members = append(c.Members, m)
			p = q
		}
		p = r.sp(p)
		if q := r.lit(r.sp(r.lit(p, "...")), ";"); q != fail {
			c.Members = append(c.Members, &ast.Ignore{})
			p = q
		} else {
			var f *ast.Field
			q := r.try(func() int {
				g, q := r.array(p, true)
				f = g
				return r.lit(r.sp(q), ";")
			})
			if q != fail {
				c.Members = append(c.Members, f)
				p = q
			}
		}
		return r.sp(p)
	})
	return
}

func (r *ref) context(p int) (*ast.Context, int) {
	n, p := r.ident(r.sp1(r.lit(p, "context")))
	p = r.sp(r.lit(r.sp1(p), "{"))
	if p == fail {
		return nil, fail
	}
	c := &ast.Context{Name: n}
	for {
		t, q := r.intType(r.sp(p))
		m, q := r.ident(r.sp1(q))
		q = r.sp(r.lit(r.sp(q), ";"))
		if q == fail {
			break
		}
		c.Members = append(c.Members, &ast.Field{Name: m, Type: t})
		p = q
	}
	p = r.lit(r.sp(p), "}")
	return c, r.optSemi(p)
}

// optSemi skips space and an optional semicolon; space alone is consumed too.
func (r *ref) optSemi(p int) int {
	p = r.sp(p)
	if q := r.lit(p, ";"); q != fail {
		return q
	}
	return p
}

func (r *ref) declaration(p int) (d interface{}, end int) {
	end = r.try(func() int {
		p = r.sp(p)
		if n, q := r.constIdent(r.sp1(r.lit(p, "const"))); q != fail {
			if v, q := r.number(r.sp(r.lit(r.sp(q), "="))); q != fail {
				if q = r.lit(r.sp(q), ";"); q != fail {
					d = &ast.Constant{Name: n, Value: v}
					return r.sp(q)
				}
			}
		}
		if c, q := r.context(p); q != fail {
			d = c
			return r.sp(q)
		}
		if s, q := r.structDecl(p); q != fail {
			d = s
			return r.sp(r.optSemi(q))
		}
		if n, q := r.structIdent(r.sp1(r.lit(p, "extern"))); q != fail {
			e := &ast.Struct{Name: n}
			if c, w := r.withContext(q); w != fail {
				e.Contexts, q = c, w
			}
			if q = r.lit(r.sp(q), ";"); q != fail {
				d = e
				return r.sp(q)
			}
		}
		if n, q := r.ident(r.sp1(r.lit(p, "trunnel"))); q != fail {
			o, q := r.identList(r.sp1(q))
			if q = r.lit(r.sp(q), ";"); q != fail {
				d = &ast.Pragma{Type: n, Options: o}
				return r.sp(q)
			}
		}
		return fail
	})
	return
}

func (r *ref) file() *ast.File {
	f := &ast.File{}
	p := r.sp(0)
	for {
		d, q := r.declaration(p)
		if q == fail {
			break
		}
		switch d := d.(type) {
		case *ast.Constant:
			f.Constants = append(f.Constants, d)
		case *ast.Context:
			f.Contexts = append(f.Contexts, d)
		case *ast.Struct:
			f.Structs = append(f.Structs, d)
		case *ast.Pragma:
			f.Pragmas = append(f.Pragmas, d)
		}
		p = q
	}
	if r.sp(p) != len(r.s) {
		return nil
	}
	f.Structs = append(f.Structs, r.ling...)
	return f
}
