"""Contracts for the branches of a union (property C05).

What a set of integers contains is tracked for one arbitrary integer x by the ghost array `inset` (set -> contains x); orig(set)
is what it contained when it was made.  `inset` is the abstraction of the representation the contracts of internal/intervals
speak about: a set is only changed by its own methods (checked: package inspect never stores a set), has storage of its own
(an obligation added here), and each method changes no other set (its frame condition).
"""
import z3
from gvc.core import I, B, Str, Ptr, Unsupported
from gvc.fold import Fold
from gvc.spec import Contract, Template, mk_ghost
from gvc import core
from . import astspec as A
from . import values as V
from .resolver import P, R, T, F, KINDS, DB, DI
from .intervals import M64, pow2, mem

IV = 'internal/intervals'
SET = IV + '.Set'
AB = z3.ArraySort(I, B)
orig = z3.Function('set_orig', I, I, B)
UC, UM = 'ast.UnionCase', 'ast.UnionMember'
clist = lambda c: A.fld(UC, '.Case')(c)
cases = lambda u: A.List(UM, '.Cases', '*' + UC, u)
lists = lambda c, v, x: z3.And(clist(c) != 0, V.inlist(*V.ranges(clist(c)), v, x))
first = lambda a, b: z3.If(a != 0, a, b)
okcases = Fold('okcases', [I], [], B, T, op=z3.And, univ='all', elem=lambda c, e: z3.And(
    A.node(c[0]), z3.Or(clist(c[0]) == 0, V.oklist(clist(c[0])))))
lister = Fold('lister', [I], [DI, I], I, z3.IntVal(0), op=first, absorb=True, elem=lambda c, e: z3.If(lists(c[0], *e), c[0], 0))
dflt = Fold('dflt', [I], [], I, z3.IntVal(0), op=lambda a, b: z3.If(b != 0, b, a),
            elem=lambda c, e: z3.If(clist(c[0]) == 0, c[0], 0), wf=lambda e, a, i, j, x, v: [z3.Implies(e != 0, clist(e) == 0)])
ncases = Fold('ncases', [I], [], I, z3.IntVal(0), op=lambda a, b: a + b, elem=lambda c, e: z3.If(clist(c[0]) == 0, 0, 1))
sounds = Fold('sounds', [I], [DB, DI], B, T, op=z3.And, univ='all', elem=lambda c, e: z3.Or(
    clist(c[0]) == 0, V.sound(*V.ranges(clist(c[0])), *e)))
twice = Fold('twice', [I], [DI, I], B, F, op=z3.Or, univ='any', elem=lambda c, e: z3.And(
    clist(c[0]) != 0, V.times(*V.ranges(clist(c[0])), *e) >= 2))
# over branches: sets and cases
born = Fold('born', [I, I], [I], I, z3.IntVal(0), op=first, absorb=True, elem=lambda b, e: z3.If(orig(b[0], e[0]), b[1], 0))
agree = Fold('agree', [I, I], [AB, I], B, T, op=z3.And, univ='all', sk=True, elem=lambda b, e: z3.And(
    z3.Select(e[0], b[0]) == orig(b[0], e[1]), b[0] > 0, b[1] != 0))
apart = Fold('apart', [I, I], [I], B, T, op=z3.And, univ='all', sk=True, elem=lambda b, e: b[0] != e[0])
below = Fold('below', [I, I], [I], B, T, op=z3.And, univ='all', sk=True, elem=lambda b, e: z3.And(b[0] > 0, b[0] < e[0]))
right = Fold('right', [I, I], [DI, I], B, T, op=z3.And, univ='all', elem=lambda b, e: z3.And(
    clist(b[1]) != 0, orig(b[0], e[1]) == lists(b[1], *e)))
chosen = Fold('chosen', [I, I], [AB, I], I, z3.IntVal(0), op=first, absorb=True,
              elem=lambda b, e: z3.If(z3.Select(e[0], b[0]), b[1], 0),
              wf=lambda e, a, i, j, x, v: [z3.Implies(agree(a, i, j, *x), e == born(a, i, j, x[1]))])
# what every enumerated set has to contain: listed values, or for the default what is left
final = Fold('final', [I, I], [AB, DI, I, B], B, T, op=z3.And, univ='all', sk=True, elem=lambda b, e: z3.And(
    b[1] != 0, b[0] > 0, z3.Select(e[0], b[0]) == z3.If(clist(b[1]) != 0, lists(b[1], e[1], e[2]), e[3])))
usable = Fold('usable', [I, I], [], B, T, op=z3.And, univ='all', elem=lambda b, e: z3.And(b[0] > 0, b[1] != 0))


def proving(C):
    return C.S.fn is C.fn and C.S.contract is C.ct


def setup(env):
    prog = env.prog
    add = env.add
    PROPS = ['C05']

    # ---- sets, for one integer x
    def isnew(C, s):
        return z3.Or(s.ref == 0, s.ref >= C.old.alloc)

    def abstract(name, effect, own=None):
        ct = env.contracts[name]
        concrete = ct.ensures

        def ens(C):
            g = C.st.ghost.get('inset')
            if g is None or proving(C):
                return concrete(C) + ([('storage of its own', isnew(C, own(C)))] if own is not None else [])
            return effect(C, g)
        ct.ensures = ens
        if 'C05' not in ct.props:
            ct.props.append('C05')

    def made(holds):
        def eff(C, g):
            r = C.res[0].ref
            C.st.ghost['inset'] = z3.Store(g, r, holds(C))
            return [('non-nil and new', z3.And(r != 0, r >= C.old.alloc)),
                    ('contents', z3.And(orig(r, C.ghosts['x']) == z3.Select(C.st.ghost['inset'], r)))]
        return eff
    iv = lambda C, p: C.field(p, 'intervals')
    new = {}
    for n in ('.Simplify', '.thresholds', '.complement'):
        ct = env.contracts[IV + n]
        ct.props += [p for p in PROPS if p not in ct.props]
        ct.ensures = lambda C, f=ct.ensures: f(C) + [('result is new storage', isnew(C, C.res[0]))]
    abstract(IV + '.IntType', made(lambda C: C.ghosts['x'] < pow2(C.args[0])), lambda C: iv(C, C.res[0]))
    ct = env.contracts[IV + '.NewSet']
    ct.ensures = lambda C, f=ct.ensures: f(C) + [('storage of its own', isnew(C, iv(C, C.res[0])))]

    def subtracted(C, g):
        s, o = C.args[0].ref, C.args[1].ref
        C.st.ghost['inset'] = z3.Store(g, s, z3.And(z3.Select(g, s), z3.Not(z3.Select(g, o))))
        return []
    abstract('(*%s).Subtract' % SET, subtracted, lambda C: iv(C, C.args[0]))
    ct = env.contracts['(*%s).Subtract' % SET]
    creq = ct.requires
    ct.requires = lambda C: creq(C) if 'inset' not in C.st.ghost or proving(C) else [
        ('sets are given', z3.And(C.args[0].ref != 0, C.args[1].ref != 0))]
    # a set loaded as a whole (Contains takes it by value) contains x exactly when `inset` says so

    def loaded(S, st, p, t, v, terms):
        if 'inset' not in st.ghost or p.root != 'O' or p.path or prog.tstr(t) != SET:
            return []
        s = v.vals[0]
        a = [S.read(st, S.ver(st.heap, ('E', IV + '.Interval', i)), s.ref) for i in range(2)]
        return [mem(a, s.off, z3.simplify(s.off + s.len), S.ghosts['x']) == z3.Select(st.ghost['inset'], p.ref)]
    env.loadhook = loaded

    def abstract_list(C, g):
        l = V.ranges(C.args[1].ref)
        d, v = V.table(C, KINDS[2])
        r, x = C.res[0].ref, C.ghosts['x']
        ok = C.res[-1].tid == 0
        w = mk_ghost(C.S, C.st, core.fresh_name('w'), 'u64')
        C.st.ghost['$wit'] = (w,)
        snd = V.sound(*l, d, v)
        C.st.ghost['inset'] = z3.If(ok, z3.Store(g, r, V.inlist(*l, v, x)), g)
        return [('accepted only with known bounds in order', z3.Implies(ok, snd)),
                ('accepted only when no value is listed twice', z3.Implies(ok, V.times(*l, v, x) <= 1)),
                ('refused only for a reason', z3.Implies(z3.Not(ok), z3.Or(z3.Not(snd), V.times(*l, v, w) >= 2))),
                ('new', z3.Implies(ok, z3.And(r >= C.old.alloc, r != 0, orig(r, x) == V.inlist(*l, v, x))))]
    abstract('(*%s).Intervals' % R, abstract_list)
    ct = env.contracts['(*%s).Intervals' % R]

    # ---- building
    def stored_sets():
        for f in prog.funcs.values():
            if f.name.startswith((P + '.', '(%s.' % P, '(*%s.' % P)):
                for b in f.blocks:
                    for ins in b['instrs']:
                        if ins['op'] == 'store' and prog.tstr(ins['val']['t']) == SET:
                            raise Unsupported('package inspect stores a set')

    def prepare(C):
        stored_sets()
        C.st.ghost['inset'] = z3.Const('inset0', AB)

    def u64(x):
        return z3.If(x < 0, x + M64, x)

    def tagtype(C):
        """type of the tag's field: (found, size)"""
        r, s, u = C.args[0], C.args[1].ref, C.args[2].ref
        ref = A.fld(UM, '.Tag')(u)
        sc, n = A.fld('ast.IDRef', '.Scope')(ref), A.fld('ast.IDRef', '.Name')(ref)
        d, v = V.table(C, KINDS[1])
        f = z3.If(sc == core.lit(''), V.mfirst(*V.smembers(s), n), z3.If(
            z3.Select(d, sc), V.ffirst(*V.cmembers(V.ctx(z3.Select(d, sc), z3.Select(v, sc))), n), 0))
        tid, pay = A.fld('ast.Field', '.Type.tid')(f), A.fld('ast.Field', '.Type.pay')(f)
        return z3.And(f != 0, tid == V.INT[0]), pay

    def req(C):
        s, u = C.args[1].ref, C.args[2].ref
        found, t = tagtype(C)
        d, v = V.table(C, KINDS[2])
        return V.valid(C) + [
            ('constants are natural numbers', V.naturals(d, [v])),
            ('the struct is given', z3.And(A.node(s), V.smembers(s).ok(), V.okmembers(*V.smembers(s)))),
            ('the union is given', z3.And(A.node(u), A.node(A.fld(UM, '.Tag')(u)), cases(u).ok(), okcases(*cases(u)))),
            ('the tag is a machine integer', z3.Implies(found, z3.And(A.node(t), A.fld('ast.IntType', '.Size')(t) >= 0,
                                                                      A.fld('ast.IntType', '.Size')(t) <= 64))),
            ('the tree is as it was', A.unchanged(C, V.NODES + [UC, UM], V.LISTS + ['*' + UC]))]

    def built(C):
        u = C.args[2].ref
        x = C.ghosts['x']
        d, v = V.table(C, KINDS[2])
        ok = C.res[-1].tid == 0
        cs = cases(u)
        found, t = tagtype(C)
        r = C.res[0]
        bs = C.field(r, 'branches')
        a, b = C.arrs(bs), (bs.off, z3.simplify(bs.off + bs.len))
        g = C.st.ghost.get('inset')
        l, de = lister(*cs, v, x), dflt(*cs)
        fit = x < pow2(A.fld('ast.IntType', '.Size')(t))
        ws = C.st.ghost.get('$wit', ())
        why = z3.Or(z3.Not(found), z3.Not(sounds(*cs, d, v)), z3.Implies(ws[-1] == x, twice(*cs, v, x)) if ws else F)
        return [('built only with a tag of integer type', z3.Implies(ok, found)),
                ('built only from sound lists', z3.Implies(ok, sounds(*cs, d, v))),
                ('refused only for a reason', z3.Implies(z3.Not(ok), why)),
                ('the first case listing a value is chosen, else the default', z3.Implies(ok, z3.And(
                    z3.Implies(l != 0, chosen(a, *b, g, x) == l),
                    z3.Implies(z3.And(l == 0, fit), chosen(a, *b, g, x) == de)))),
                ('every set is right', z3.Implies(ok, final(a, *b, g, v, x, z3.And(fit, l == 0)))),
                ('one branch for every case', z3.Implies(ok, bs.len == ncases(*cs) + z3.If(de != 0, 1, 0))),
                ('branches are new', z3.If(ok, r.ref >= C.old.alloc, r.ref == 0))]
    add(Contract(P + '.NewBranches', root=True, nparams=3, ghosts=[('x', 'u64')], props=PROPS, requires=req, prepare=prepare, ensures=built))

    # ---- looking up
    def lookup(C):
        bs = C.field(C.args[0], 'branches', True)
        a, b = C.arrs(bs, True), (bs.off, z3.simplify(bs.off + bs.len))
        x = C.ghosts['x']
        c = chosen(a, *b, C.st.ghost['inset'], x)
        here = x == u64(C.args[1])
        return [('found exactly when some set contains the value', z3.Implies(here, C.res[1] == (c != 0))),
                ('the first such branch', z3.Implies(here, C.field(C.res[0], 'Case').ref == c)),
                ('its set contains the value', z3.Implies(z3.And(here, C.res[1]), z3.Select(
                    C.st.ghost['inset'], C.field(C.res[0], 'Set').ref)))]

    def bsok(C):
        bs = C.field(C.args[0], 'branches', True)
        return [('branches are given', z3.And(C.args[0].ref != 0, usable(C.arrs(bs, True), bs.off, z3.simplify(bs.off + bs.len))))]
    add(Contract('(*%s.Branches).Lookup' % P, root=True, nparams=2, ghosts=[('x', 'u64')], props=PROPS, requires=bsok, prepare=prepare, ensures=lookup))

    def all_(C):
        bs, r, q = C.field(C.args[0], 'branches', True), C.res[0], C.ghosts['q']
        return [('as many', r.len == bs.len), ('the same', z3.Implies(q < bs.len, z3.And(*[
            z3.Select(x, z3.simplify(bs.off + q)) == z3.Select(y, z3.simplify(r.off + q)) for x, y in zip(C.arrs(bs, True), C.arrs(r))])))]
    add(Contract('(*%s.Branches).All' % P, root=True, nparams=1, ghosts=[('q', 'nat')], props=PROPS, requires=lambda C: [
        ('branches are given', C.args[0].ref != 0)], ensures=all_))

    # ---- loops
    def tpl(name, roles, fn):
        env.templates.append(Template(name, (P,), roles, fn))
    CS = ('cs', 'rng []*' + UC)

    def field(L, p, name):
        for i, f in enumerate(prog.fields(p.t)):
            if f['name'] == name:
                return L.S.load(L.st, Ptr(p.root, p.T, p.ref, p.idx, p.path + (i,), f['type']), heap=L.st.heap)

    def consts(L):
        r = L.S.args[0]
        for i, f in enumerate(prog.fields(r.t)):
            if f['name'] == KINDS[2].table:
                m = L.S.load(L.st, Ptr(r.root, r.T, r.ref, r.idx, r.path + (i,), f['type']), heap=L.S.old0.heap)
                return L.S.mapdom(L.st, m, L.S.old0.heap), L.S.mapvals(L.st, m, L.S.old0.heap)[0]
        raise Unsupported('no resolver')

    def x(L):
        if 'inset' not in L.st.ghost or 'x' not in L.ghosts:
            raise Unsupported('no tracked integer')
        return L.ghosts['x']

    def blist(L, b):
        s = b if isinstance(b, core.SliceV) else field(L, b, 'branches')
        return L.arrs(s), s.off, z3.simplify(s.off + s.len)
    upto = lambda L, cs: (L.arrs(cs), cs.off, z3.simplify(cs.off + L.k))
    for nm, role in (('', 'vis *%s.Branches' % P), ('-list', 'phi []%s.Branch' % P)):
        BS = ('b', role)
        tpl('branches-so-far' + nm, [BS, CS], lambda L, b, cs: [born(*blist(L, b), x(L)) == lister(*upto(L, cs), consts(L)[1], x(L))])
        tpl('branches-agree' + nm, [BS], lambda L, b: [agree(*blist(L, b), L.st.ghost['inset'], x(L))])
        tpl('branches-right' + nm, [BS], lambda L, b: [right(*blist(L, b), consts(L)[1], x(L))])
        tpl('branches-count' + nm, [BS, CS], lambda L, b, cs: [
            blist(L, b)[2] - blist(L, b)[1] == ncases(*upto(L, cs))])
        tpl('branches-apart' + nm, [BS, ('d', 'vis *' + SET)], lambda L, b, d: [apart(*blist(L, b), d.ref)])
        tpl('branches-known' + nm, [BS], lambda L, b: [below(*blist(L, b), L.st.alloc)])
    tpl('default-set', [CS, ('d', 'vis *' + SET)], lambda L, cs, d: [
        z3.Select(L.st.ghost['inset'], d.ref) == z3.And(
            z3.Select(L.entry.ghost['inset'], d.ref), lister(*upto(L, cs), consts(L)[1], x(L)) == 0), d.ref > 0])
    tpl('default-case', [CS, ('d', 'phi *' + UC)], lambda L, cs, d: [d.ref == dflt(*upto(L, cs))])
    tpl('lists-sound', [CS], lambda L, cs: [sounds(*upto(L, cs), *consts(L))])
    tpl('not-chosen-yet', [('bs', 'rng []%s.Branch' % P)], lambda L, bs: [
        z3.Implies(x(L) == u64(L.S.args[1]), chosen(L.arrs(bs), bs.off, z3.simplify(bs.off + L.k), L.st.ghost['inset'], x(L)) == 0)])
