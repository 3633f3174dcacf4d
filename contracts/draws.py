"""Contracts for random draws from a set (property C02).

That every element can be drawn is shown with a ghost choice: `lucky` says that the source happens to produce the numbers this
proof asks for, and then the element drawn is the arbitrary ghost `t`.  The numbers asked for are given by a plan: for a set the
rank of t in it, for 64-bit numbers the number itself, for the source the halves of the number.  A lucky run asks the source only
as often as the plan has numbers, so it ends.
"""
import z3
from gvc.core import I, B, Ptr, Unsupported, fresh_const
from gvc.fold import Fold
from gvc.spec import Contract, Template, RANDOM
from gvc import core
from .intervals import P,  T, F, M64, sd, mem, fo, wfi

SET = P + '.Set'
M32 = 2 ** 32
size = lambda lo, hi: hi - lo + 1
wrap = lambda n: z3.If(n == M64, 0, n)      # sizes of sets of 64-bit numbers never exceed 2^64


def _totwf(e, a, i, j, x, v):
    return [z3.Implies(j <= i, e == 0), z3.Implies(sd(a, i, j), z3.And(e >= 0, z3.Implies(j > i, z3.And(e >= size(a[0][i], a[1][i]), e >= j - i, e <= a[1][j - 1] - a[0][i] + 1))))]


tot = Fold('tot', [I, I], [], I, z3.IntVal(0), elem=lambda v, e: size(v[0], v[1]), op=lambda a, b: a + b, wf=_totwf)


def _rankwf(e, a, i, j, x, v):
    s, x, lo, hi, last = tot(a, i, j), x[0], a[0][i], a[1][i], a[1][j - 1]
    return _totwf(s, a, i, j, (), v) + [z3.Implies(j <= i, e == 0), z3.Implies(sd(a, i, j), z3.And(
        e >= 0, e <= s, z3.Implies(mem(a, i, j, x), e < s), z3.Implies(j > i, z3.And(
            z3.Implies(x > last, z3.And(e == s, z3.Not(mem(a, i, j, x)))), z3.Implies(x < lo, z3.And(e == 0, z3.Not(mem(a, i, j, x)))),
            z3.Implies(x > hi, e >= size(lo, hi)), z3.Implies(z3.And(lo <= x, x <= hi), e == x - lo),
            z3.Implies(z3.And(s == last - lo + 1, lo <= x, x <= last), z3.And(e == x - lo, mem(a, i, j, x)))))))]


# how many elements lie below x
rank = Fold('rank', [I, I], [I], I, z3.IntVal(0), op=lambda a, b: a + b, wf=_rankwf, 
            elem=lambda v, e: z3.If(e[0] > v[1], size(v[0], v[1]), z3.If(e[0] < v[0], 0, e[0] - v[0])))


# always true; its facts say how the others come apart at k
cut = Fold('cut', [I, I], [I, I], B, T, op=z3.And, elem=lambda v, e: T, univ='all', sk=True, wf=lambda e, a, i, j, x, v: [
    z3.Implies(z3.And(i <= x[0], x[0] <= j, sd(a, i, j)), sd(a, x[0], j)),
    z3.Implies(z3.And(i <= x[0], x[0] <= j), z3.And(rank(a, i, j, x[1]) == rank(a, i, x[0], x[1]) + rank(a, x[0], j, x[1]), mem(a, i, j, x[1]) == z3.Or(
        mem(a, i, x[0], x[1]), mem(a, x[0], j, x[1]))))])


def _step(a, i, q, e, rec):
    return z3.And(rec, _at(a, i, q, e))


def _at(a, i, q, e):
    up, de, lo, hi = a
    k = z3.simplify(q + e[0])
    return z3.And(up[q] == wrap(tot([lo, hi], z3.simplify(i + e[0]), z3.simplify(k + 1))), de[q] == wrap(hi[k] - up[q] + 1))


steps = Fold('steps', [I, I, I, I], [I], B, T, step=_step, univ='all', shift=lambda e: [z3.IntVal(0), z3.IntVal(0), e[0], e[0]])
steps.univ_elem = _at


def proving(C):
    return C.S.fn is C.fn and C.S.contract is C.ct


# what the source is asked for so that it makes up the number t
PLANS = [lambda t: [(t % M32) * 2 ** 31, t / M32], lambda t: [t / M32, (t % M32) * 2 ** 31],
         lambda t: [(t / M32) * 2 ** 31, t % M32], lambda t: [t % M32, (t / M32) * 2 ** 31],
         lambda t: [t % M32, t / M32], lambda t: [t / M32, t % M32]]


def new(S, args, st, stack, ins, caller):
    r = S.fresh(ins['t'], 'rnd', st)
    st.assume(r.tid != 0)
    return [('ret', st, [r])]


def setup(env):
    for n in ('random.New', 'github.com/mmcloughlin/random.New'):
        env.externals[n] = new
    add = env.add
    PROPS = ['C02']
    X = lambda C: C.ghosts['t']
    ones = lambda m: z3.Or(*[m == 2 ** k - 1 for k in range(65)])
    lucky = lambda S: S.ghosts.get('lucky', 0) > 0
    env.bitones = ones

    def start(C):
        C.st.ghost['drawn'] = z3.IntVal(0)

    def wanted(S):
        """the number a lucky run needs from a draw"""
        return S.wanted if hasattr(S, 'wanted') else S.ghosts['t']

    def invoker(S, m, recv, args, rt, st, stack, ins, c):
        if 'drawn' not in st.ghost or m not in RANDOM or ('random.Interface' not in S.prog.tstr(rt) and 'rand' not in S.prog.tstr(rt)):
            return None
        S.trusted.add('random.Interface.' + m)
        _, lo, hi = RANDOM[m]
        v = fresh_const('rnd_' + m, I)
        st.assume(v >= lo, v <= hi)
        k = st.ghost['drawn']
        w = env.plan(wanted(S))
        ask = w[-1]
        for i in range(len(w) - 2, -1, -1):
            ask = z3.If(k == i, w[i], ask)
        S.oblige(st, 'a lucky run draws no more than planned', z3.Implies(lucky(S), z3.And(k >= 0, k < len(w))), 'safety')
        S.oblige(st, 'the planned number is in range of the source', z3.Implies(lucky(S), z3.And(ask >= lo, ask <= hi)), 'safety')
        st.assume(z3.Implies(lucky(S), v == ask))
        st.ghost['drawn'] = k + 1
        return [('ret', st, [v])]
    env.invokers.insert(0, invoker)

    def drawn(C, n, below):
        """effect of a call that draws a number"""
        S = C.S
        if proving(C):
            return [('a lucky draw gives the number wanted', z3.Implies(lucky(S), C.res[0] == X(C)))]
        C.st.ghost['drawn'] = z3.IntVal(99)
        return [('lucky', z3.Implies(lucky(S), C.res[0] == wanted(S)))]

    def may(C, below=None):
        if proving(C):
            return [('number wanted', z3.And(X(C) >= 0, X(C) < (M64 if below is None else below)))]
        S = C.S
        k = C.st.ghost.get('drawn')
        if k is None:
            return []
        w = wanted(S)
        return [('a lucky run draws once', z3.Implies(lucky(S), k == 0)),
                ('the number wanted can be drawn', z3.Implies(lucky(S), z3.And(w >= 0, w < (M64 if below is None else below))))]
    G = [('t', 'u64'), ('lucky', 'nat')]
    add(Contract(P + '.randuint64', nparams=1, ghosts=G, props=PROPS, prepare=start, variants=PLANS, requires=lambda C: [
        ('a source is given', C.args[0].tid != 0)] + may(C), ensures=lambda C: drawn(C, 1, None)))
    add(Contract(P + '.randuint64n', nparams=2, ghosts=G, props=PROPS, prepare=start, variants=PLANS, requires=lambda C: [
        ('a source is given', C.args[0].tid != 0), ('something is below the bound', C.args[1] > 0)] + may(C, C.args[1]),
        ensures=lambda C: [('below the bound', C.res[0] < C.args[1])] + drawn(C, 1, C.args[1])))

    def sets(C):
        return C.field(C.args[0], 'intervals', True)

    def prep(C):
        start(C)
        s = sets(C)
        C.S.wanted = rank(C.arrs(s, True), s.off, z3.simplify(s.off + s.len), X(C))

    def req(C):
        s = sets(C)
        return [('disjoint and increasing', fo(sd, C, s, old=True)), ('a source is given', C.args[1].tid != 0)] + (
            [('the element wanted is in the set', z3.Implies(lucky(C.S), fo(mem, C, s, X(C), old=True)))] if proving(C) else [])

    def ens(C):
        s = sets(C)
        a = C.arrs(s, True), s.off, z3.simplify(s.off + s.len), C.res[0]
        # the rank is mentioned for the facts it brings
        out = [('the element drawn is in the set', z3.And(mem(*a), rank(*a) >= 0) if proving(C) else mem(*a))]
        return out + ([('every element can be drawn', z3.Implies(lucky(C.S), C.res[0] == X(C)))] if proving(C) else [])
    add(Contract('(%s).RandomWithGenerator' % SET, root=True, nparams=2, ghosts=G, props=PROPS, prepare=prep, variants=PLANS,
                 requires=req, ensures=ens, panics=lambda C: sets(C).len == 0))

    def rnd(C):
        s = sets(C)
        return [('disjoint and increasing', fo(sd, C, s, old=True))]
    add(Contract('(%s).Random' % SET, root=True, nparams=1, props=PROPS, requires=rnd, panics=lambda C: sets(C).len == 0, ensures=lambda C: [
        ('the element drawn is in the set', fo(mem, C, sets(C), C.res[0], old=True))]))

    # invariants about sweeping edges play no part in draws
    for t in env.templates:
        if t.scope == (P,):
            t.scope = lambda S, L: L.fn.pkg == P and 'drawn' not in L.st.ghost

    def tpl(name, roles, fn):
        env.templates.append(Template(name, (P,), roles, fn))

    def g(L):
        if 'drawn' not in L.st.ghost:
            raise Unsupported('no draw')
        return L.ghosts['t']
    IS = '[]%s.Interval' % P
    tpl('no-draw-yet', [], lambda L: [z3.Implies(g(L) * 0 + L.ghosts['lucky'] > 0, L.st.ghost['drawn'] == 0)])
    tpl('mask-ones', [('m', 'phi uint64')], lambda L, m: [ones(m)])
    tpl('mask-covers', [('m', 'phi uint64'), ('n', 'vis uint64')], lambda L, m, n: [z3.Or(m == M64 - 1, 2 * m + 1 > n)])
    tpl('total-so-far', [('c', 'phi uint64'), ('s', 'vis ' + IS)], lambda L, c, s: [
        c == wrap(tot(L.arrs(s), s.off, z3.simplify(s.off + L.k)))])
    ST = '[]%s.step' % P
    matched = lambda L, st, s, k: steps(L.arrs(st) + L.arrs(s), st.off, z3.simplify(st.off + k), z3.simplify(s.off - st.off))
    tpl('steps-so-far', [('st', 'phi ' + ST), ('s', 'vis ' + IS)], lambda L, st, s: [st.len == L.k, matched(L, st, s, L.k)])
    tpl('steps-below', [('st', 'vis ' + ST), ('r', 'vis uint64')], lambda L, st, r: [
        z3.Implies(L.k > 0, r >= z3.Select(L.arrs(st)[0], z3.simplify(st.off + L.k - 1)))])

    def halves(L, s):
        a, i, j, k, t = L.arrs(s), s.off, z3.simplify(s.off + s.len), z3.simplify(s.off + L.k), g(L)
        inside = z3.And(L.k >= 0, L.k <= s.len)
        return [cut(a, i, j, k, t), z3.Implies(inside, sd(a, k, j)),
                z3.Implies(inside, rank(a, i, j, t) == rank(a, i, k, t) + rank(a, k, j, t)),
                z3.Implies(inside, mem(a, i, j, t) == z3.Or(mem(a, i, k, t), mem(a, k, j, t)))]
    tpl('cut-here', [('s', 'vis ' + IS)], halves)
    tpl('rest-of-draw', [('r', 'phi uint64'), ('s', 'vis ' + IS)], lambda L, r, s: [
        r == L.entryval('r') - tot(L.arrs(s), s.off, z3.simplify(s.off + L.k))])
