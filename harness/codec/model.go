package main

// Definitions as data; see defs/model.py.

type num struct {
	V int64  `json:"v"`
	S string `json:"s"`
}

type rng struct {
	Lo num  `json:"lo"`
	Hi *num `json:"hi"`
}

type ref struct {
	Scope string `json:"scope"`
	Name  string `json:"name"`
	Left  *num   `json:"left"`
}

type typ struct {
	K    string `json:"k"`
	W    uint   `json:"w"`
	Cons []rng  `json:"cons"`
	Name string `json:"name"`
	Base *typ   `json:"base"`
	N    num    `json:"n"`
	Ref  ref    `json:"ref"`
}

type member struct {
	K     string `json:"k"`
	Name  string `json:"name"`
	Type  *typ   `json:"type"`
	Tag   ref    `json:"tag"`
	Len   *ref   `json:"len"`
	Cases []kase `json:"cases"`
}

type kase struct {
	List    []rng    `json:"list"`
	Members []member `json:"members"`
}

type strukt struct {
	Name    string   `json:"name"`
	Ctx     []string `json:"ctx"`
	Extern  bool     `json:"extern"`
	Members []member `json:"members"`
}

type ctxfield struct {
	Name string `json:"name"`
	W    uint   `json:"w"`
}

type context struct {
	Name   string     `json:"name"`
	Fields []ctxfield `json:"fields"`
}

type file struct {
	Contexts []context `json:"contexts"`
	Structs  []strukt  `json:"structs"`
}

type set struct {
	ID       string   `json:"id"`
	Texts    []string `json:"texts"`
	Files    []file   `json:"files"`
	Loses    []string `json:"loses"`
	structs  map[string]*strukt
	contexts map[string]*context
}

func (s *set) index() {
	s.structs, s.contexts = map[string]*strukt{}, map[string]*context{}
	for i := range s.Files {
		f := &s.Files[i]
		for j := range f.Structs {
			if !f.Structs[j].Extern {
				s.structs[f.Structs[j].Name] = &f.Structs[j]
			}
		}
		for j := range f.Contexts {
			s.contexts[f.Contexts[j].Name] = &f.Contexts[j]
		}
	}
}

func in(v uint64, l []rng) bool {
	for _, r := range l {
		if r.Hi == nil && v == uint64(r.Lo.V) || r.Hi != nil && uint64(r.Lo.V) <= v && v <= uint64(r.Hi.V) {
			return true
		}
	}
	return false
}

// value is a decoded value: an integer, a string, a list or a struct.
type value struct {
	n      uint64
	s      string
	l      []value
	set    bool // the member was decoded (fields of other union branches are not)
	offset bool
}

// ctxvals maps context.field to its value.
type ctxvals map[string]uint64

// decoder reads data by the definitions.
type decoder struct {
	set     *set
	data    []byte
	ctx     ctxvals
	lenient bool // a tag no case names selects no members instead of failing
	open    bool // such a tag was met
	huge    bool // a count beyond the input was met
}

// structure decodes at pos, reading no further than end. It returns the
// members' values in order and the position after it, or ok = false.
func (d *decoder) structure(name string, pos, end int) (v value, next int, ok bool) {
	s := d.set.structs[name]
	env := map[string]uint64{}
	v.set = true
	v.l, next, ok = d.members(s.Members, env, pos, pos, end)
	return
}

func (d *decoder) lookup(r ref, env map[string]uint64) uint64 {
	if r.Scope != "" {
		return d.ctx[r.Scope+"."+r.Name]
	}
	return env[r.Name]
}

func (d *decoder) members(ms []member, env map[string]uint64, start, pos, end int) (vs []value, next int, ok bool) {
	for i := range ms {
		m := &ms[i]
		switch m.K {
		case "field":
			v, p, ok := d.typ(m.Type, env, start, pos, end)
			if !ok {
				return nil, 0, false
			}
			if m.Type.K == "int" {
				env[m.Name] = v.n
			}
			vs, pos = append(vs, v), p
		case "eos":
			if pos != end {
				return nil, 0, false
			}
		case "ignore":
			pos = end
		case "fail":
			return nil, 0, false
		case "union":
			limit := end
			if m.Len != nil {
				if m.Len.Left != nil {
					if int64(end-pos) < m.Len.Left.V {
						return nil, 0, false
					}
					limit = end - int(m.Len.Left.V)
				} else {
					n := d.lookup(*m.Len, env)
					if uint64(end-pos) < n {
						return nil, 0, false
					}
					limit = pos + int(n)
				}
			}
			tag := d.lookup(m.Tag, env)
			k := -1
			for j := range m.Cases {
				if m.Cases[j].List != nil && in(tag, m.Cases[j].List) {
					k = j
					break
				}
			}
			if k < 0 {
				for j := range m.Cases {
					if m.Cases[j].List == nil {
						k = j
						break
					}
				}
			}
			if k < 0 {
				d.open = true
				if !d.lenient {
					return nil, 0, false
				}
			}
			for j := range m.Cases {
				if j == k {
					cv, p, ok := d.members(m.Cases[j].Members, env, start, pos, limit)
					if !ok {
						return nil, 0, false
					}
					vs, pos = append(vs, cv...), p
				} else {
					vs = append(vs, make([]value, slots(m.Cases[j].Members))...)
				}
			}
			if m.Len != nil && pos != limit {
				return nil, 0, false
			}
		}
	}
	return vs, pos, true
}

// slots is the number of fields the members have.
func slots(ms []member) int {
	n := 0
	for i := range ms {
		switch ms[i].K {
		case "field":
			n++
		case "union":
			for j := range ms[i].Cases {
				n += slots(ms[i].Cases[j].Members)
			}
		}
	}
	return n
}

func (d *decoder) typ(t *typ, env map[string]uint64, start, pos, end int) (v value, next int, ok bool) {
	v.set = true
	switch t.K {
	case "int", "char":
		w := 1
		if t.K == "int" {
			w = int(t.W / 8)
		}
		if end-pos < w {
			return v, 0, false
		}
		for i := 0; i < w; i++ {
			v.n = v.n*256 + uint64(d.data[pos+i])
		}
		if t.Cons != nil && !in(v.n, t.Cons) {
			return v, 0, false
		}
		return v, pos + w, true
	case "nul":
		for i := pos; i < end; i++ {
			if d.data[i] == 0 {
				v.s = string(d.data[pos:i])
				return v, i + 1, true
			}
		}
		return v, 0, false
	case "ptr":
		v.n = uint64(pos - start)
		return v, pos, true
	case "struct":
		return d.structure(t.Name, pos, end)
	case "fixed", "counted":
		n := uint64(t.N.V)
		if t.K == "counted" {
			n = d.lookup(t.Ref, env)
		}
		if n > uint64(end-pos) {
			d.huge = true
		}
		for i := uint64(0); i < n; i++ {
			x, p, ok := d.typ(t.Base, env, start, pos, end)
			if !ok {
				return v, 0, false
			}
			v.l, pos = append(v.l, x), p
		}
		return v, pos, true
	case "left", "rest":
		limit := end
		if t.K == "left" {
			if int64(end-pos) < t.N.V {
				return v, 0, false
			}
			limit = end - int(t.N.V)
		}
		for pos < limit {
			x, p, ok := d.typ(t.Base, env, start, pos, limit)
			if !ok || p == pos {
				// no number of empty elements makes up the rest
				return v, 0, false
			}
			v.l, pos = append(v.l, x), p
		}
		return v, pos, true
	}
	panic("unknown type " + t.K)
}
