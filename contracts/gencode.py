"""Contracts for generated parsers (properties C08, C09), derived from the definitions they were generated from.

The meaning of the definitions is a set of recursive functions over the input bytes:
  NEXT_S(A, lo, hi, ctx)     position after an encoding of S that starts at lo and may read up to hi, or -1 if there is none
  fields of S                value, or start, end and number of elements, of each member, and whether its union branch was taken
  SEQ_T(.., n), REM_T(..)    position after n encodings of T in a row; number of encodings of T that fill lo..hi; -1 if none
  AT_T(.., k)                position of the k-th in a row
They are written from the definitions alone (defs/model.py), not from the generator.
"""
import z3
from gvc import core, fold
from gvc.core import I, B, Str, Ptr, SliceV, ArrayV, StructV, IfaceV, Unsupported, strlen, strof, fresh_const
from gvc.fold import Rec
from gvc.spec import Contract, Template

AR = z3.ArraySort(I, I)
T = z3.BoolVal(True)
Z = z3.IntVal


def be(A, p, n):
    """big-endian value of n bytes at p"""
    return z3.Sum(*[A[z3.simplify(p + i)] * 256 ** (n - 1 - i) for i in range(n)]) if n > 1 else A[z3.simplify(p)]


def bytes_ok(A, p, n):
    return [z3.And(A[z3.simplify(p + i)] >= 0, A[z3.simplify(p + i)] <= 255) for i in range(n)]


def bytes_in(f):
    """the elements of byte arrays that a formula mentions are bytes"""
    out, seen, todo = [], set(), [f]
    while todo:
        x = todo.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_select(x):
            out.append(z3.And(x >= 0, x <= 255))
        todo += x.children()
    return out


# first zero byte in lo..hi, or -1
nulpos = Rec('nulpos', [AR, I, I], I, unfold=lambda A, lo, hi: z3.If(lo >= hi, -1, z3.If(A[lo] == 0, lo, nulpos(A, z3.simplify(lo + 1), hi))),
             wf=lambda e, A, lo, hi: [z3.Or(e == -1, z3.And(lo <= e, e < hi, A[e] == 0))])


def ranged(e, lo, hi):
    return z3.Implies(lo <= hi, z3.Or(e == -1, z3.And(lo <= e, e <= hi)))


def inlist(v, l):
    return z3.Or(*[v == r['lo']['v'] if r['hi'] is None else z3.And(r['lo']['v'] <= v, v <= r['hi']['v']) for r in l])


class Fields:
    """the members of a struct, with unions flattened, as the generated type lists them"""

    def __init__(self, members):
        self.all = []
        self.walk(members)

    def walk(self, ms):
        for m in ms:
            if m['k'] == 'field':
                self.all.append(m)
            elif m['k'] == 'union':
                for c in m['cases']:
                    self.walk(c['members'])


class Set:
    def __init__(self, s, lenient=False):
        self.id, self.lenient = s['id'], lenient
        self.structs = {x['name']: x for f in s['files'] for x in f['structs'] if not x['extern']}
        self.contexts = {c['name']: c for f in s['files'] for c in f['contexts']}
        self.S = {n: SFun(self, x) for n, x in self.structs.items()}

    def go(self, n):
        from checks.gencode import camel
        return 'zzverif/g/%s.%s' % (self.id, camel(n))


def width(t):
    return 1 if t['k'] == 'char' else t['w'] // 8 if t['k'] == 'int' else None


class SFun:
    """the functions that give a struct its meaning"""

    def __init__(self, G, s):
        self.G, self.s = G, s
        self.ctxf = [(c, f['name']) for c in s['ctx'] for f in G.contexts[c]['fields']]
        self.sig = [AR, I, I] + [I] * len(self.ctxf)
        n = '%s_%s' % (G.id, s['name'])
        self.n = n
        self.NEXT = Rec('NEXT_' + n, self.sig, I, unfold=self.unfold, opaque=True, given=bytes_in,
                        wf=lambda e, A, lo, hi, *c: [z3.Implies(z3.And(*[x >= 0 for x in c]), ranged(e, lo, hi))])
        nxt = self.NEXT
        self.SEQ = Rec('SEQ_' + n, self.sig + [I], I, unfold=lambda A, lo, hi, *c: z3.If(c[-1] <= 0, lo, z3.If(
            nxt(A, lo, hi, *c[:-1]) < 0, -1, self.SEQ(A, nxt(A, lo, hi, *c[:-1]), hi, *(c[:-1] + (z3.simplify(c[-1] - 1),))))),
            wf=lambda e, A, lo, hi, *c: [z3.Implies(z3.And(*[x >= 0 for x in c[:-1]]), ranged(e, lo, hi))])

        def rem(A, lo, hi, *c):
            p = nxt(A, lo, hi, *c)
            r = self.REM(A, p, hi, *c)
            return z3.If(lo >= hi, 0, z3.If(p <= lo, -1, z3.If(r < 0, -1, 1 + r)))
        self.REM = Rec('REM_' + n, self.sig, I, unfold=rem, wf=lambda e, A, lo, hi, *c: [e >= -1])

        def at(A, lo, hi, *c):
            k = c[-1]
            b = self.AT(A, lo, hi, *(c[:-1] + (z3.simplify(k - 1),)))
            return z3.If(k <= 0, lo, z3.If(b < 0, -1, nxt(A, b, hi, *c[:-1])))
        self.AT = Rec('AT_' + n, self.sig + [I], I, unfold=at,
                      wf=lambda e, A, lo, hi, *c: [z3.Implies(z3.And(*[x >= 0 for x in c[:-1]]), ranged(e, lo, hi))])
        self.fields = Fields(s['members']).all
        self.fns = {}
        for i, m in enumerate(self.fields):
            for part, sort in self.parts(m['type']):
                self.fns[i, part] = z3.Function('%s_%s_%s' % (part, n, m['name']), *(self.sig + [sort]))

    @staticmethod
    def parts(t):
        k = t['k']
        out = [('SET', B)]
        if k in ('int', 'char', 'ptr'):
            return out + [('VAL', I)]
        if k == 'nul':
            return out + [('VAL', Str)]
        if k == 'struct':
            return out + [('LO', I), ('HI', I)]
        return out + [('LO', I), ('HI', I), ('CNT', I)]

    def unfold(self, *a):
        return Meaning(self, a).value()

    def definition(self, a):
        """what the functions of this struct are at one place"""
        m = Meaning(self, a)
        fs = [self.NEXT(*a) == m.value()]
        for i, d in enumerate(m.leaves):
            for part, v in d.items():
                fs.append(self.fns[i, part](*a) == v)
        return fs + m.facts


class Meaning:
    """reads a struct at one place, symbolically"""

    def __init__(self, F, a):
        self.F, self.G = F, F.G
        self.A, self.lo, self.hi = a[0], a[1], a[2]
        self.ctx = dict(zip(F.ctxf, a[3:]))
        self.leaves, self.facts = [], []
        self.ok, self.pos = self.members(F.s['members'], T, self.lo, self.hi, {})

    def value(self):
        return z3.If(self.ok, self.pos, -1)

    def lookup(self, r, env):
        return self.ctx[r['scope'], r['name']] if r['scope'] else env[r['name']]

    def members(self, ms, cond, pos, hi, env):
        ok = T
        for m in ms:
            k = m['k']
            if k == 'field':
                o, p, d = self.typ(m['type'], pos, hi, env)
                d['SET'] = z3.And(cond, ok, o)
                self.leaves.append(d)
                if m['type']['k'] == 'int':
                    env[m['name']] = d['VAL']
                ok, pos = z3.And(ok, o), p
            elif k == 'eos':
                ok = z3.And(ok, pos == hi)
            elif k == 'fail':
                ok = z3.BoolVal(False)
            elif k == 'ignore':
                pos = hi
            elif k == 'union':
                o, pos = self.union(m, z3.And(cond, ok), pos, hi, env)
                ok = z3.And(ok, o)
        return ok, z3.simplify(pos)

    def union(self, m, cond, pos, hi, env):
        limit, ok = hi, T
        if m['len'] is not None:
            n = Z(m['len']['left']['v']) if 'left' in m['len'] else self.lookup(m['len'], env)
            ok = n <= hi - pos
            limit = z3.simplify(hi - n if 'left' in m['len'] else pos + n)
        tag = self.lookup(m['tag'], env)
        # the first case that names the tag, else the default, wherever it stands
        conds, before = [], z3.BoolVal(False)
        for c in m['cases']:
            if c['list'] is None:
                conds.append(None)
                continue
            here = inlist(tag, c['list'])
            conds.append(z3.And(z3.Not(before), here))
            before = z3.Or(before, here)
        conds = [z3.Not(before) if c is None else c for c in conds]
        res = []
        for c, cc in zip(m['cases'], conds):
            o, p = self.members(c['members'], z3.And(cond, ok, cc), pos, limit, dict(env))
            if m['len'] is not None:
                o = z3.And(o, p == limit)
            res.append((cc, o, p))
        none_ok = z3.And(z3.BoolVal(self.G.lenient), T if m['len'] is None else pos == limit)
        any_ok = z3.Or(z3.And(z3.Not(z3.Or(*[c for c, _, _ in res])), none_ok), *[z3.And(c, o) for c, o, _ in res])
        p = pos
        for c, _, q in reversed(res):
            p = z3.If(c, q, p)
        return z3.And(ok, any_ok), (limit if m['len'] is not None else p)

    def args(self, F, lo, hi):
        return [self.A, lo, hi] + [self.ctx[k] for k in F.ctxf]

    def typ(self, t, pos, hi, env):
        k = t['k']
        if k in ('int', 'char'):
            n = width(t)
            v = be(self.A, pos, n)
            self.facts += [z3.Implies(pos + n <= hi, f) for f in bytes_ok(self.A, pos, n)]
            ok = pos + n <= hi
            if k == 'int' and t['cons']:
                ok = z3.And(ok, inlist(v, t['cons']))
            return ok, z3.simplify(pos + n), {'VAL': v}
        if k == 'nul':
            z = nulpos(self.A, pos, hi)
            return z >= 0, z3.simplify(z + 1), {'VAL': strof(self.A, pos, z3.simplify(z - pos))}
        if k == 'ptr':
            return T, pos, {'VAL': z3.simplify(pos - self.lo)}
        if k == 'struct':
            F = self.G.S[t['name']]
            e = F.NEXT(*self.args(F, pos, hi))
            return e >= 0, e, {'LO': pos, 'HI': hi}
        b = t['base']
        w = width(b)
        if k in ('fixed', 'counted'):
            n = Z(t['n']['v']) if k == 'fixed' else self.lookup(t['ref'], env)
            d = {'LO': pos, 'HI': hi, 'CNT': n}
            if w:
                return pos + w * n <= hi, z3.simplify(pos + w * n), d
            F = self.G.S[b['name']]
            e = F.SEQ(*(self.args(F, pos, hi) + [n]))
            return e >= 0, e, d
        limit, ok = hi, T
        if k == 'left':
            ok = pos + t['n']['v'] <= hi
            limit = z3.simplify(hi - t['n']['v'])
        if w:
            return z3.And(ok, (limit - pos) % w == 0), limit, {'LO': pos, 'HI': limit, 'CNT': (limit - pos) / w}
        F = self.G.S[b['name']]
        n = F.REM(*self.args(F, pos, limit))
        return z3.And(ok, n >= 0), limit, {'LO': pos, 'HI': limit, 'CNT': n}


# ------------------------------------------------------------------ values in memory
class View:
    """reads generated values in a state"""

    def __init__(self, S, st, heap=None, facts=None):
        self.S, self.st, self.heap, self.facts = S, st, heap, facts

    def load(self, p):
        return self.S.load(self.st, p, heap=self.heap, facts=self.facts)

    def field(self, p, i):
        return self.load(Ptr(p.root, p.T, p.ref, p.idx, p.path + (i,), self.S.prog.fields(p.T)[i]['type']))

    def elem(self, v, q):
        if isinstance(v, SliceV):
            return self.load(Ptr('E', v.elem, v.ref, z3.simplify(v.off + q)))
        t = self.S.prog.elem(v.t)
        return self.S.unflatten(t, [z3.Select(x, q) for x in v.leaves])

    def target(self, v):
        return v


def matches(V, F, a, p, gs):
    """the object p holds the value of struct F read at a: [(label, formula)]"""
    out = []
    fs = V.S.prog.fields(p.T)
    if len(fs) != len(F.fields):
        raise Unsupported('%s has %d fields, not %d' % (F.n, len(fs), len(F.fields)))
    for i, m in enumerate(F.fields):
        g = F.fns[i, 'SET'](*a)
        for lab, f in value(V, F, a, i, m['type'], V.field(p, i), gs):
            out.append((m['name'] + lab, z3.Implies(g, f)))
    return out


def value(V, F, a, i, t, v, gs):
    k = t['k']
    at = lambda part: F.fns[i, part](*a)
    if k in ('int', 'char', 'ptr', 'nul'):
        return [('', v == at('VAL'))]
    sub = lambda G, lo, hi: [a[0], lo, hi] + [dict(zip(F.ctxf, a[3:]))[x] for x in G.ctxf]
    if k == 'struct':
        G = F.G.S[t['name']]
        return [(' is given', v.ref != 0)] + [('.' + l, f) for l, f in matches(V, G, sub(G, at('LO'), at('HI')), v, gs)]
    b = t['base']
    out = []
    if isinstance(v, SliceV):
        out.append((' has as many elements', v.len == at('CNT')))
    if gs:
        q = gs[0]
        x = V.elem(v, q)
        out += [('[q]' + l, z3.Implies(z3.And(q >= 0, q < at('CNT')), f)) for l, f in element(V, F, a, b, x, at('LO'), at('HI'), q, gs[1:], sub)]
    return out


def element(V, F, a, b, x, lo, hi, q, gs, sub):
    w = width(b)
    if w:
        return [('', x == be(a[0], lo + w * q, w))]
    G = F.G.S[b['name']]
    g = sub(G, lo, hi)
    p = G.AT(*(g + [q]))
    return [(' is given', x.ref != 0)] + [('.' + l, f) for l, f in matches(V, G, sub(G, p, hi), x, gs)]


# ------------------------------------------------------------------ externals
def x_uint(n):
    def f(S, args, st, stack, ins, caller):
        s = args[1]
        S.oblige(st, 'binary: enough bytes', s.len >= n, 'safety')
        A = S.read(st, S.ver(st.heap, ('E', S.prog.tstr(s.elem), 0)), s.ref)
        st.assume(*bytes_ok(A, s.off, n))
        return [('ret', st, [be(A, s.off, n)])]
    return f


def x_uint_le(n):
    def f(S, args, st, stack, ins, caller):
        s = args[1]
        S.oblige(st, 'binary: enough bytes', s.len >= n, 'safety')
        A = S.read(st, S.ver(st.heap, ('E', S.prog.tstr(s.elem), 0)), s.ref)
        st.assume(*bytes_ok(A, s.off, n))
        return [('ret', st, [z3.Sum(*[A[z3.simplify(s.off + i)] * 256 ** i for i in range(n)])])]
    return f


def x_indexbyte(S, args, st, stack, ins, caller):
    s, c = args
    if S.decide(st, c == 0) is not True:
        raise Unsupported('bytes.IndexByte of another byte')
    A = S.read(st, S.ver(st.heap, ('E', S.prog.tstr(s.elem), 0)), s.ref)
    z = nulpos(A, s.off, z3.simplify(s.off + s.len))
    st.assume(*nulpos.facts(z))
    r = fresh_const('idx', I)
    st.assume(r == z3.If(z < 0, -1, z - s.off))
    return [('ret', st, [r])]


EXT = {'bytes.IndexByte': x_indexbyte}
for _n in (2, 4, 8):
    EXT['(encoding/binary.bigEndian).Uint%d' % (8 * _n)] = x_uint(_n)
    EXT['(encoding/binary.littleEndian).Uint%d' % (8 * _n)] = x_uint_le(_n)


def normalise(prog):
    """byte and uint8 are one type"""
    import re
    for t in prog.types:
        if isinstance(t, dict) and 'str' in t:
            t['str'] = re.sub(r'\bbyte\b', 'uint8', t['str'])


def strict(G, s, limited=False, seen=()):
    """what is left is always part of the input (an ignored rest outside a limited union is replaced by an empty slice)"""
    if s['name'] in seen:
        return True

    def ms(l, lim):
        for m in l:
            if m['k'] == 'ignore' and not lim:
                return False
            if m['k'] == 'union' and not all(ms(c['members'], lim or m['len'] is not None) for c in m['cases']):
                return False
            if m['k'] == 'field':
                t = m['type'].get('base', m['type'])
                if t['k'] == 'struct' and not strict(G, G.structs[t['name']], False, seen + (s['name'],)):
                    return False
        return True
    return ms(s['members'], limited)


GHOSTS = [('q', 'nat'), ('r', 'nat')]


def setup(env, sets, props, lenient=(), light=False):
    """light: only that parsers are safe, end and return a tail of the input; nothing is said of values"""
    env.externals.update(EXT)
    env.check_termination = True
    env.maxmake = 1 << 20
    env.merge = True
    env.phi_refs = False
    env.frames.append(frames)
    recs = [nulpos]
    parsers = {}

    def rounds(L):
        x = parsers.get(L.S.fn.name)
        if x is None or L.fn is not L.S.fn:
            return []
        F, root = x
        return [announced(L, F, m['type']) for m in F.fields if m['type']['k'] in ('fixed', 'counted')]
    env.rounds.append(rounds)
    for s in sets:
        G = Set(s, s['id'] in lenient)
        for n in G.structs:
            recs += add(env, G, n, props, parsers, light)
    return recs


def place(F, data, A, ctxs):
    """arguments of the functions of a struct read from a slice"""
    return [A, data.off, z3.simplify(data.off + data.len)] + [v for c in ctxs for v in c.vals]


def add(env, G, n, props, parsers, light):
    F = G.S[n]
    s = F.s
    name = '(*%s).Parse' % G.go(n)
    nctx = len(s['ctx'])
    tail = strict(G, s)

    def where(C):
        return place(F, C.args[1], C.arrs(C.args[1], old=True)[0], C.args[2:2 + nctx])

    def proving(C):
        return C.S.fn is C.fn and C.S.contract is C.ct

    def requires(C):
        if len(C.args) != 2 + nctx:
            raise Unsupported('the parse method does not take one argument per context')
        fs = [('a struct to fill in', C.args[0].ref != 0)]
        if proving(C) and not light:
            fs += F.definition(where(C))
        return fs

    def ensures(C):
        a = where(C)
        e = F.NEXT(*a)
        rest, err = C.res
        ok = err.tid == 0
        d = C.args[1]
        there = z3.And(rest.ref == d.ref, rest.off + rest.len == d.off + d.len, rest.off + rest.cap == d.off + d.cap)
        if light:
            return [('no more is left than there was', z3.Implies(ok, rest.len <= d.len)),
                    ('what is left is the tail of the input', z3.Implies(ok, there if tail else z3.Implies(rest.len > 0, there)))]
        out = [('accepts exactly what the definition allows', ok == (e >= 0)),
               ('returns what is left', z3.Implies(ok, rest.len == a[2] - e)),
               ('what is left is the tail of the input', z3.Implies(ok, there if tail else z3.Implies(rest.len > 0, there)))]
        if not proving(C):
            out += [('range', f) for f in F.NEXT.facts(e)]
        V = View(C.S, C.st)
        gs = [C.ghosts[g] for g, _ in GHOSTS]
        return out + [('field ' + l, z3.Implies(ok, f)) for l, f in matches(V, F, a, C.args[0], gs)]

    def W(C):
        t = C.S.prog.tstr(C.args[0].T)
        return [(('O', t, i), C.args[0].ref) for i in range(len(C.S.leaves(C.args[0].T)))]
    env.add(Contract(name, root=True, ghosts=GHOSTS, props=props, requires=requires, ensures=ensures, modifies=W))

    cname = 'zzverif/g/%s.Parse%s' % (G.id, G.go(n).split('.')[-1])

    def cwhere(C):
        if len(C.args) != 1 + nctx:
            raise Unsupported('the constructor does not take one argument per context')
        return place(F, C.args[0], C.arrs(C.args[0], old=True)[0], C.args[1:1 + nctx])

    def censures(C):
        a = cwhere(C)
        p, err = C.res
        ok = err.tid == 0
        if light:
            return [('a result or an error', ok == (p.ref != 0))]
        V = View(C.S, C.st)
        gs = [C.ghosts[g] for g, _ in GHOSTS]
        return [('fails exactly when parsing fails', ok == (F.NEXT(*a) >= 0)), ('a result or an error', ok == (p.ref != 0))] + [
            ('field ' + l, z3.Implies(ok, f)) for l, f in matches(V, F, a, p, gs)]
    env.add(Contract(cname, root=True, ghosts=GHOSTS, props=props, ensures=censures))

    # ---- invariants
    scope = (name,)
    BYTES = 'phi []uint8'

    def root(L):
        S = L.S
        d = S.args[1]
        ts = S.prog.tstr(d.elem)
        A = S.read(L.st, S.ver(S.old0.heap, ('E', ts, 0)), d.ref)
        return place(F, d, A, S.args[2:2 + nctx])

    parsers[name] = F, root

    def t_place(L, cur):
        ent = L.entryval('cur')
        return z3.And(cur.len <= ent.len, z3.Implies(cur.len > 0, z3.And(cur.ref == ent.ref, cur.off + cur.len == ent.off + ent.len)))
    env.templates.append(Template(name + ':place', scope, [('cur', BYTES)], t_place))
    for i, m in enumerate(F.fields):
        t = m['type']
        if 'base' not in t:
            continue
        site(env, F, G, name, scope, i, t, root, light)
    return [F.NEXT, F.SEQ, F.REM, F.AT]


def entryfield(L, i):
    return View(L.S, L.st, L.entry.heap, L.facts).field(L.S.args[0], i)


def frames(S, L, key):
    """the arrays that the fields of the receiver had before the loop"""
    if key[0] != 'E' or not S.args or not isinstance(S.args[0], Ptr) or S.prog.kind(S.args[0].T) != 'struct':
        return []
    out = []
    L.facts = []
    for i, f in enumerate(S.prog.fields(S.args[0].T)):
        if S.prog.kind(f['type']) == 'slice' and S.prog.tstr(S.prog.elem(f['type'])) == key[1]:
            e = entryfield(L, i).ref
            out.append(('field %d' % i, lambda r, e=e: z3.Or(r == e, r >= L.A)))
    return out


def announced(L, F, t):
    """the length of an array as the struct or the context has it"""
    if t['k'] == 'fixed':
        return Z(t['n']['v'])
    r = t['ref']
    S = L.S
    if r['scope']:
        n = F.s['ctx'].index(r['scope'])
        return S.args[2 + n].vals[[f['name'] for f in F.G.contexts[r['scope']]['fields']].index(r['name'])]
    return View(S, L.st, facts=L.facts).field(S.args[0], [m['name'] for m in F.fields].index(r['name']))


def site(env, F, G, name, scope, i, t, root, light):
    """invariants of the loop that reads array field i"""
    b = t['base']
    w = width(b)
    counted = t['k'] in ('fixed', 'counted')
    BYTES = 'phi []uint8'

    def view(L):
        return View(L.S, L.st, facts=L.facts)

    def ends(L, cur):
        ent = L.entryval('cur')
        return ent, z3.simplify(ent.off + ent.len)

    def sub(a, H, lo, hi):
        return [a[0], lo, hi] + [dict(zip(F.ctxf, a[3:]))[x] for x in H.ctxf]

    def t_pos(L, cur):
        a = root(L)
        ent, e = ends(L, cur)
        if w:
            return cur.len == ent.len - w * L.k
        H = G.S[b['name']]
        p = z3.simplify(e - cur.len)
        return p == H.AT(*(sub(a, H, ent.off, e) + [L.k]))

    def t_all(L, cur):
        # what the whole loop will come to is what the rest of it comes to
        a = root(L)
        ent, e = ends(L, cur)
        H = G.S[b['name']]
        p = z3.simplify(e - cur.len)
        if counted:
            n = F.fns[i, 'CNT'](*a)
            return H.SEQ(*(sub(a, H, ent.off, e) + [n])) == H.SEQ(*(sub(a, H, p, e) + [z3.simplify(n - L.k)]))
        r = H.REM(*sub(a, H, p, e))
        return H.REM(*sub(a, H, ent.off, e)) == z3.If(r < 0, -1, r + L.k)

    def t_count(L):
        return L.k <= announced(L, F, t)

    def t_len(L):
        v = view(L).field(L.S.args[0], i)
        if not isinstance(v, SliceV):
            return T
        return v.len == (L.k if t['k'] != 'counted' else announced(L, F, t))

    def t_len_k(L):
        v = view(L).field(L.S.args[0], i)
        if not isinstance(v, SliceV):
            return T
        return v.len == L.k

    def t_own(L):
        # the array is the one there was before the loop, or was made in it
        v, e = view(L).field(L.S.args[0], i), entryfield(L, i)
        if not isinstance(v, SliceV):
            return T
        return z3.Or(v.ref == e.ref, v.ref >= L.A)

    def t_elem(L, cur):
        a = root(L)
        ent, e = ends(L, cur)
        V = view(L)
        v = V.field(L.S.args[0], i)
        gs = [L.S.ghosts[g] for g, _ in GHOSTS]
        x = V.elem(v, gs[0])
        fs = [f for _, f in element(V, F, a, b, x, ent.off, e, gs[0], gs[1:], lambda H, lo, hi: sub(a, H, lo, hi))]
        if not w:
            fs.append(z3.And(x.ref >= L.S.alloc0, x.ref < L.st.alloc))
        return z3.Implies(gs[0] < L.k, z3.And(*fs))
    tag = '%s:%d:' % (name, i)
    add = lambda n, roles, f, early=False: env.templates.append(Template(tag + n, scope, roles, f, early=early))
    if not light:
        add('pos', [('cur', BYTES)], t_pos)
    if not w and not light:
        add('all', [('cur', BYTES)], t_all)
    if counted:
        add('count', [], t_count)
    add('len', [], t_len)
    add('lenk', [], t_len_k)
    add('own', [], t_own, True)
    if not light:
        add('elem', [('cur', BYTES)], t_elem)


def weight(G, F, depth=2, seen=()):
    """how many facts the contract of a struct states"""
    n = 0
    for m in F.fields:
        t = m['type']
        b = t.get('base', t)
        arr = 'base' in t
        if b['k'] == 'struct':
            n += 1 + (weight(G, G.S[b['name']], depth - arr, seen) if depth - arr > 0 else 2)
        else:
            n += 2 if arr else 1
    return n


def branches(ms):
    n = 1
    for m in ms:
        if m['k'] == 'union':
            n *= sum(branches(c['members']) for c in m['cases']) + 1
        elif m['k'] == 'field' and m['type']['k'] not in ('ptr',):
            n += 0
    return n


def cost(s):
    """rough cost of proving the parsers of a set: (facts stated, times the ways through)"""
    G = Set(s)
    ws = [(weight(G, F), branches(F.s['members'])) for F in G.S.values()]
    return max([w for w, _ in ws] or [0]), max([w * b for w, b in ws] or [0])
