package main

import "math/rand"

// encoder writes byte strings that the definitions mostly accept.
type encoder struct {
	set   *set
	r     *rand.Rand
	ctx   ctxvals
	depth int
	// how often a value is picked without regard to its constraint, in percent
	wild int
	out  []byte
}

type slot struct {
	at int
	w  uint
	v  uint64
}

func (e *encoder) pct(n int) bool { return e.r.Intn(100) < n }

// uses says how the rest of the struct refers to a field: as a count or length or tag.
func uses(ms []member, name string) (count, tag []rng, isCount, isTag bool) {
	for i := range ms {
		m := &ms[i]
		if m.K == "field" && m.Type.K == "counted" && m.Type.Ref.Scope == "" && m.Type.Ref.Name == name {
			isCount = true
		}
		if m.K == "union" {
			if m.Tag.Scope == "" && m.Tag.Name == name {
				isTag = true
				for _, c := range m.Cases {
					tag = append(tag, c.List...)
				}
			}
			if m.Len != nil && m.Len.Left == nil && m.Len.Scope == "" && m.Len.Name == name {
				isCount = true
			}
			for j := range m.Cases {
				_, t2, c2, g2 := uses(m.Cases[j].Members, name)
				tag, isCount, isTag = append(tag, t2...), isCount || c2, isTag || g2
			}
		}
	}
	return
}

func (e *encoder) fromList(l []rng) uint64 {
	r := l[e.r.Intn(len(l))]
	if r.Hi == nil || r.Hi.V < r.Lo.V {
		return uint64(r.Lo.V)
	}
	switch e.r.Intn(4) {
	case 0:
		return uint64(r.Lo.V)
	case 1:
		return uint64(r.Hi.V)
	}
	if d := uint64(r.Hi.V-r.Lo.V) + 1; d != 0 {
		return uint64(r.Lo.V) + e.r.Uint64()%d
	}
	return e.r.Uint64()
}

// near gives a value at or next to a bound of the list.
func (e *encoder) near(l []rng) uint64 {
	r := l[e.r.Intn(len(l))]
	v := r.Lo.V
	if r.Hi != nil && e.pct(50) {
		v = r.Hi.V
	}
	return uint64(v + int64(e.r.Intn(3)) - 1)
}

func (e *encoder) any(w uint) uint64 {
	switch e.r.Intn(5) {
	case 0:
		return uint64(e.r.Intn(8))
	case 1:
		return e.r.Uint64()
	case 2:
		return uint64(1)<<w - uint64(1+e.r.Intn(2))
	case 3:
		return uint64(1) << (w - 1)
	}
	return e.r.Uint64() >> uint(e.r.Intn(64))
}

func (e *encoder) integer(t *typ, tags []rng, isCount, isTag bool) uint64 {
	if e.pct(e.wild) {
		if t.Cons != nil && e.pct(60) {
			return e.near(t.Cons)
		}
		if isTag && len(tags) > 0 && e.pct(50) {
			return e.near(tags)
		}
		return e.any(t.W)
	}
	if isTag && len(tags) > 0 && e.pct(85) {
		for i := 0; i < 6; i++ {
			if v := e.fromList(tags); t.Cons == nil || in(v, t.Cons) {
				return v
			}
		}
	}
	if isCount {
		for i := 0; i < 6; i++ {
			if v := uint64(e.r.Intn(5)); t.Cons == nil || in(v, t.Cons) {
				return v
			}
		}
	}
	if t.Cons != nil {
		return e.fromList(t.Cons)
	}
	return e.any(t.W)
}

func (e *encoder) put(w uint, v uint64) {
	for i := int(w) - 8; i >= 0; i -= 8 {
		e.out = append(e.out, byte(v>>uint(i)))
	}
}

func (e *encoder) structure(name string) {
	if e.depth > 6 || len(e.out) > 2000 {
		return
	}
	e.depth++
	env := map[string]slot{}
	s := e.set.structs[name]
	e.members(s.Members, s.Members, env)
	e.depth--
}

func (e *encoder) value(r ref, env map[string]slot) uint64 {
	if r.Scope != "" {
		return e.ctx[r.Scope+"."+r.Name]
	}
	return env[r.Name].v
}

func (e *encoder) members(all, ms []member, env map[string]slot) {
	for i := range ms {
		m := &ms[i]
		switch m.K {
		case "field":
			if m.Type.K == "int" {
				_, tags, c, g := uses(all, m.Name)
				v := e.integer(m.Type, tags, c, g)
				if m.Type.W < 64 {
					v &= uint64(1)<<m.Type.W - 1
				}
				env[m.Name] = slot{len(e.out), m.Type.W, v}
				e.put(m.Type.W, v)
				continue
			}
			e.typ(m.Type, env)
		case "ignore":
			e.random(e.r.Intn(4))
		case "union":
			at := len(e.out)
			tag := e.value(m.Tag, env)
			k := -1
			for j := range m.Cases {
				if m.Cases[j].List != nil && in(tag, m.Cases[j].List) {
					k = j
					break
				}
				if m.Cases[j].List == nil && k < 0 {
					k = -2 - j
				}
			}
			if k <= -2 {
				k = -2 - k
			}
			if k >= 0 {
				e.members(all, m.Cases[k].Members, env)
			}
			if m.Len != nil && m.Len.Left == nil {
				n := uint64(len(e.out) - at)
				if sl, ok := env[m.Len.Name]; m.Len.Scope == "" && ok && !e.pct(e.wild) {
					// announce the length that came out
					for b := uint(0); b < sl.w/8; b++ {
						e.out[sl.at+int(b)] = byte(n >> (sl.w - 8 - 8*b))
					}
					sl.v = n
					env[m.Len.Name] = sl
				} else if m.Len.Scope != "" && !e.pct(e.wild) {
					// the context announces it: cut or fill up
					want := e.value(*m.Len, env)
					if want < 400 {
						for uint64(len(e.out)-at) < want {
							e.out = append(e.out, byte(e.r.Intn(256)))
						}
						e.out = e.out[:at+int(want)]
					}
				}
			}
		}
	}
}

func (e *encoder) random(n int) {
	for i := 0; i < n; i++ {
		e.out = append(e.out, byte(e.r.Intn(256)))
	}
}

func (e *encoder) typ(t *typ, env map[string]slot) {
	switch t.K {
	case "int":
		e.put(t.W, e.integer(t, nil, false, false))
	case "char":
		e.random(1)
	case "nul":
		for n := e.r.Intn(5); n > 0; n-- {
			e.out = append(e.out, byte(1+e.r.Intn(255)))
		}
		e.out = append(e.out, 0)
	case "struct":
		e.structure(t.Name)
	case "fixed":
		for i := int64(0); i < t.N.V; i++ {
			e.typ(t.Base, env)
		}
	case "counted":
		n := e.value(t.Ref, env)
		if n > 300 {
			n = uint64(e.r.Intn(5))
		}
		for i := uint64(0); i < n; i++ {
			e.typ(t.Base, env)
		}
	case "left", "rest":
		for n := e.r.Intn(4); n > 0; n-- {
			e.typ(t.Base, env)
		}
	}
}
