"""Contracts for integer fields of test vectors (property C07): which values a field may have, and the vectors made for it.

The contracts of the resolver, of sets and of the stores of constraints that are used here are proved by the checks of C04, C01
and C06.  A number drawn from a set is in it (C02); it is remembered as the ghost `drawn`.
"""
import copy
import z3
from gvc.core import I, B, Str, StructV, Unsupported, fresh_const, lit
from gvc.spec import Contract, Template, random_invoker
from . import astspec as A
from . import values as V
from . import intervals as IV, resolver, constraints
from .constraints import View
from .vectors import digit, places, G_, P
from .resolver import KINDS, T, F
from .intervals import mem, M64

IT = 'ast.IntType'
K = KINDS[2]


def setup(env):
    prog = env.prog
    where = places(prog)
    if where is None:
        return
    held = lambda C, role, old=True: C.field(C.args[0], where[role], old)
    for m in (IV, resolver, V, constraints):
        m.setup(env)
    for c in env.contracts.values():
        c.trusted, c.props = True, []
    env.invokers.append(random_invoker)
    env.phi_refs = 'phis'

    def drawn(S, args, st, stack, ins, caller):
        s = args[0].vals[0]
        arrs = [S.read(st, S.ver(st.heap, ('E', S.prog.tstr(s.elem), i)), s.ref) for i in (0, 1)]
        S.oblige(st, 'something to draw from', s.len > 0, 'safety')
        v = fresh_const('drawn', I)
        st.assume(v >= 0, v < M64, mem(arrs, s.off, z3.simplify(s.off + s.len), v))
        st.ghost['drawn'] = v
        S.trusted.add('(internal/intervals.Set).RandomWithGenerator (C02)')
        return [('ret', st, [v])]
    name = '(internal/intervals.Set).RandomWithGenerator'
    env.contracts.pop(name, None)
    env.externals[name] = drawn

    def resolverof(C):
        D = copy.copy(C)
        D.args = [held(C, 'resolver')]
        return D
    there = lambda C: ('the generator is given', C.args[0].ref != 0)
    wide = lambda b: z3.Or(*[b == w for w in (8, 16, 32, 64)])
    size = lambda t: A.fld(IT, '.Size')(t)
    clist = lambda t: A.fld(IT, '.Constraint')(t)
    consts = lambda C: V.table(resolverof(C), K)

    def usable(C, t):
        d, v = consts(C)
        return V.valid(resolverof(C)) + [
            ('the type is given', z3.And(A.node(t), wide(size(t)))),
            ('its value list is given', z3.Or(clist(t) == 0, z3.And(V.oklist(clist(t)), V.ranges(clist(t)).len > 0))),
            ('constants are natural numbers', V.naturals(d, [v]))] + V.tree(C)

    def fits(x, n):
        return z3.Or(n == 64, z3.And(x >= 0, z3.Or(*[z3.And(n == w, x < 2 ** w) for w in (8, 16, 32)])))

    def listed(C, t, x):
        return z3.Or(clist(t) == 0, V.inlist(*V.ranges(clist(t)), consts(C)[1], x))
    ok = lambda C: C.res[-1].tid == 0

    def possible(C):
        x, t, g = C.args[1], C.args[2].ref, C.ghosts['x']
        return [('exactly the values of the width and the list', z3.Implies(z3.And(ok(C), g == V.u64(x)), C.res[0] == z3.And(
            fits(x, size(t)), listed(C, t, g))))]
    add = lambda n, k, **kw: env.add(Contract(n, nparams=k, props=['C07'], **kw)) if (
        n in prog.funcs and prog.funcs[n].has_body and len(prog.funcs[n].params) == k) else None
    add(G_ + 'valid', 3, ghosts=[('x', 'u64')], ensures=possible, requires=lambda C: [there(C)] + usable(C, C.args[2].ref))

    # ---- integers in bytes: contracts shown with the other pieces
    byte = lambda C, s, i: z3.Select(C.arrs(s)[0], z3.simplify(s.off + i))
    own = lambda C, r: ('storage of its own', z3.Or(r.len == 0, r.ref >= C.old.alloc))

    def be(C):
        x, bits = C.args
        r, j = C.res[0], C.ghosts['j']
        n = bits / 8
        return [('length', r.len == n), own(C, r), ('big-endian', z3.Implies(j < n, byte(C, r, z3.simplify(n - 1 - j)) == digit(x, j) % 256))]
    add(P + '.intbytes', 2, trusted=True, shown=True, ghosts=[('j', 'nat')], ensures=be, requires=lambda C: [('a width of whole bytes', wide(C.args[1]))])
    add(G_ + 'randint', 2, trusted=True, shown=True, requires=lambda C: [there(C), ('a width of whole bytes', wide(C.args[1]))],
        ensures=lambda C: [('length', C.res[0].len == C.args[1] / 8), own(C, C.res[0])])

    def start(C):
        C.st.ghost['drawn'] = z3.IntVal(-1)
        t = C.args[2].ref
        # one of the integers is a listed one, which shows that there is something to draw
        C.st.assume(z3.Implies(clist(t) != 0, C.ghosts['y'] == V.lo(z3.Select(V.ranges(clist(t)).arrs[0], V.ranges(clist(t)).lo), consts(C)[1])))

    def made(C):
        t = C.args[2].ref
        n, r = size(t), C.res[0]
        x, j, d = C.ghosts['x'], C.ghosts['j'], C.st.ghost['drawn']
        store = held(C, 'constraints')
        p, b = View(C.S, C.st, C.old.heap).look(store, lit(''), C.args[1])
        v = C.elem(r, z3.IntVal(0))
        data, cs = v.vals
        one = z3.And(ok(C), r.len > 0)
        spells = lambda y: z3.Implies(j < n / 8, byte(C, data, z3.simplify(n / 8 - 1 - j)) == digit(y, j) % 256)
        s64 = lambda y: z3.If(y >= 2 ** 63, y - M64, y)
        return [('at most one vector', z3.Implies(ok(C), r.len <= 1)),
                ('none only for a value that cannot be', z3.Implies(z3.And(ok(C), x == V.u64(b)), (r.len == 1) == z3.Or(
                    z3.Not(p), z3.And(fits(b, n), listed(C, t, x))))),
                ('the declared width', z3.Implies(one, data.len == n / 8)),
                ('the value asked for', z3.Implies(z3.And(one, p), spells(b))),
                ('a value of the list', z3.Implies(z3.And(one, z3.Not(p), clist(t) != 0), z3.And(
                    spells(s64(d)), d >= 0, z3.Implies(x == d, listed(C, t, x))))),
                ('the constraints at hand', z3.Implies(one, cs.ref == store.ref)),
                ('bytes of its own', z3.Implies(one, z3.Or(data.len == 0, data.ref >= C.old.alloc)))]
    add(G_ + 'intType', 3, root=True, ghosts=[('x', 'u64'), ('y', 'u64'), ('j', 'nat')], ensures=made, prepare=start, requires=lambda C: [
        there(C), ('there is a source', held(C, 'rnd').tid != 0)] + usable(C, C.args[2].ref))

    # ---- values of fields referred to
    ref = lambda C: C.args[1].ref
    scope, fname = A.fld('ast.IDRef', '.Scope'), A.fld('ast.IDRef', '.Name')
    X = KINDS[1]

    def target(C, r):
        """the type of the field the reference names, and whether it names an integer"""
        s = held(C, 'strct').ref
        d, v = V.table(resolverof(C), X)
        sc, n = scope(r), fname(r)
        f = z3.If(sc == lit(''), V.mfirst(*V.smembers(s), n), z3.If(
            z3.Select(d, sc), V.ffirst(*V.cmembers(V.ctx(z3.Select(d, sc), z3.Select(v, sc))), n), 0))
        return z3.And(f != 0, A.fld('ast.Field', '.Type.tid')(f) == V.INT[0]), A.fld('ast.Field', '.Type.pay')(f)

    def local(C, r):
        s, (found, t) = held(C, 'strct').ref, target(C, r)
        d, v = consts(C)
        return V.valid(resolverof(C)) + [
            ('the struct is given', z3.And(A.node(s), V.smembers(s).ok(), V.okmembers(*V.smembers(s)))),
            ('the type referred to is given', z3.Implies(found, z3.And(
                A.node(t), wide(size(t)), z3.Or(clist(t) == 0, z3.And(V.oklist(clist(t)), V.ranges(clist(t)).len > 0))))),
            ('constants are natural numbers', V.naturals(d, [v]))] + V.tree(C)

    def possibleref(C, r, x, g):
        found, t = target(C, r)
        return z3.Or(scope(r) == lit(''), z3.And(found, z3.Implies(g == V.u64(x), z3.And(fits(x, size(t)), listed(C, t, g)))))

    def context(C):
        x, g = C.args[2], C.ghosts['x']
        found, t = target(C, ref(C))
        return [('local fields are looked at later', z3.Implies(z3.And(ok(C), scope(ref(C)) == lit('')), C.res[0])),
                ('only for an integer', z3.Implies(z3.And(ok(C), scope(ref(C)) != lit('')), found)),
                ('exactly the values of the width and the list', z3.Implies(z3.And(ok(C), scope(ref(C)) != lit(''), g == V.u64(x)), C.res[0] == z3.And(
                    fits(x, size(t)), listed(C, t, g))))]
    add(G_ + 'validContext', 3, ghosts=[('x', 'u64')], ensures=context, requires=lambda C: [
        there(C), ('the reference is given', A.node(ref(C)))] + local(C, ref(C)))

    # ---- lengths of unions
    IDR = prog.tid('*ast.IDRef') + 1

    def measured(C):
        c, r, i, g = C.args[1], C.res[0], C.ghosts['i'], C.ghosts['x']
        v = C.elem(r, i)
        data, cs = v.vals
        at = z3.And(ok(C), i < r.len)
        p, n = View(C.S, C.st, C.st.heap).look(cs, scope(c.pay), fname(c.pay))
        return [('the length is recorded', z3.Implies(at, z3.And(p, n == data.len))),
                ('a length the field can have', z3.Implies(at, possibleref(C, c.pay, data.len, g))),
                ('no more vectors than before', z3.Implies(ok(C), r.len <= C.args[2].len))]
    add(G_ + 'lenconstrain', 3, root=True, ghosts=[('x', 'u64'), ('i', 'nat'), ('s', 'str'), ('k', 'str')], ensures=measured, requires=lambda C: [
        there(C), ('the reference is given', z3.Implies(C.args[1].tid == IDR, A.node(C.args[1].pay)))] + [
            (l, z3.Implies(C.args[1].tid == IDR, f)) for l, f in local(C, C.args[1].pay)])

    def sofar(L, v):
        if not L.S.fn.name.endswith('.lenconstrain'):
            raise Unsupported('another function')
        C, i, g = L.root, L.ghosts['i'], L.ghosts['x']
        r = C.args[1].pay
        data, cs = L.elem(v, i).vals
        w = View(L.S, L.st, L.st.heap)
        p, n = w.look(cs, scope(r), fname(r))
        inner = w.inner(cs, scope(r)).ref
        return [z3.Implies(i < v.len, z3.And(p, n == data.len, possibleref(C, r, data.len, g), cs.ref < L.st.alloc, inner < L.st.alloc)), v.len <= L.k]
    env.templates.append(Template('measured so far', (P,), [('v', 'any []tv.Vector')], sofar))

    def loaded(S, st, p, t, v, terms):
        """stores held by vectors are valid: every operation on stores keeps them so (C06)"""
        if prog.tstr(t) != 'tv.Constraints' or not S.fn.name.endswith('.lenconstrain'):
            return []
        S.trusted.add('stores held by vectors are valid')
        return [View(S, st, st.heap).wf(v)]
    env.loadhook = loaded

    # ---- arrays: as many elements as announced
    leaves = [l for l, _, _ in A._H[0].leaves(prog.tid('tv.generator'))]
    own_ = [('O', 'tv.generator', i) for i, l in enumerate(leaves) if l.split('.')[1] in (where['constraints'], where['strct'])]
    inner = prog.tstr(prog.elem(prog.tid('tv.Constraints')))
    kept = set(own_) | {('E', 'byte', 0)} | {(k, t) + x for t in ('tv.Constraints', inner) for k, x in (('MD', ()), ('MV', (0,)))} | {
        ('E', 'tv.Vector', i) for i in range(len(A._H[0].leaves(prog.tid('tv.Vector'))))}

    def counted(C, res):
        st = C.st
        if 'elements' in st.ghost:
            st.ghost['elements'] = z3.simplify(st.ghost['elements'] + 1)
    add(G_ + 'field', 2, trusted=True, modifies='any', touches=lambda S: kept, shape=counted, doc='changes only the generator\'s place and stores')

    def product(S, args, st, stack, ins, caller):
        S.trusted.add('tv.cross (the other contracts of C07)')
        return [('ret', st, [S.fresh(r['t'], 'cross', st) for r in prog.funcs[P + '.cross'].results])]
    env.externals[P + '.cross'] = product

    def select(S, m, recv, args, rt, st, stack, ins, c):
        if m != 'SelectVectors':
            return None
        S.trusted.add('Selector.SelectVectors returns')
        return [('ret', st, [S.fresh(prog.tid('[]tv.Vector'), 'selected', st)])]
    env.invokers.append(select)

    def begin(C):
        C.st.ghost['elements'] = z3.IntVal(0)

    def announced(C):
        c, n = C.args[2], C.st.ghost['elements']
        d, v = consts(C)
        store = held(C, 'constraints')
        p, b = View(C.S, C.st, C.old.heap).look(store, scope(c.pay), fname(c.pay))
        pos = lambda x: z3.If(x > 0, x, 0)
        fixed = z3.Or(c.tid == V.LIT[0], c.tid == V.REF[0])
        return [('as many elements as written', z3.Implies(z3.And(ok(C), fixed), n == pos(V.val(c.tid, c.pay, v)))),
                ('as many elements as the field says', z3.Implies(z3.And(ok(C), c.tid == IDR, p), n == pos(b)))]
    add(G_ + 'array', 3, root=True, ghosts=[('s', 'str'), ('k', 'str')], ensures=announced, prepare=begin, modifies='any', requires=lambda C: [
        there(C), ('a source and a selector', z3.And(held(C, 'rnd').tid != 0, held(C, 'selector').tid != 0)),
        ('the store is valid', z3.And(held(C, 'constraints').ref != 0, View(C.S, C.st, C.old.heap).wf(held(C, 'constraints')))),
        ('the length is given', z3.And(V.given(C.args[2].tid, C.args[2].pay), z3.Implies(C.args[2].tid == IDR, A.node(C.args[2].pay))))
    ] + V.valid(resolverof(C)) + V.tree(C))

    def elements(L):
        if not L.S.fn.name.endswith('.array'):
            raise Unsupported('another function')
        return [L.st.ghost['elements'] == L.k]
    env.templates.append(Template('elements', (P,), [], elements))

    def bounded(L, i, n):
        if not L.S.fn.name.endswith('.array'):
            raise Unsupported('another function')
        return [i == L.k, i <= z3.If(n > 0, n, 0)]
    env.templates.append(Template('up to', (P,), [('i', 'phi int64'), ('n', 'vis int64')], bounded))

    def left(L):
        if not L.S.fn.name.endswith('.array'):
            raise Unsupported('another function')
        nums = [(L.regs[n], v) for n, v in L.entry_phi.items() if n in L.fn.defs and prog.tstr(L.fn.defs[n]['t']) == 'int64']
        if not nums:
            raise Unsupported('no number counted')
        return [f for i, v in nums for f in (i == v - L.k, z3.Or(i >= 0, L.k == 0))]
    env.templates.append(Template('left', (P,), [], left))
