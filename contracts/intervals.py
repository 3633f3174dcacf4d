"""Contracts for internal/intervals (properties C01, C02).

Specification functions (folds over the elements q of a slice, i <= q < j):

  mem(is, x)    some interval contains x
  cnt(is, x)    number of intervals containing x
  wfi(is)       every interval has lo <= hi
  sd(is)        lo <= hi and each interval lies strictly above the one before
  eps(es, x)    net count of edges lying before x (start at or below x: +1, end below x: -1)
  nsum(es)      sum of edge directions
  pm(es)        all directions are +1 or -1
  sumcnt(iss,x) total of cnt over a list of interval lists, wfs(iss) all of them wfi
"""
import z3
from gvc.core import I, B, SliceV, Ptr, Unsupported
from gvc.fold import Fold
from gvc.spec import Contract, Template, random_invoker, mk_ghost
from gvc import core

P = 'internal/intervals'
M64 = 2 ** 64
F, T = z3.BoolVal(False), z3.BoolVal(True)
IVL = P + '.Interval'
U64 = (0, M64 - 1)


def inside(lo, hi, x):
    return z3.And(lo <= x, x <= hi)


def wfvals(arrs, q):
    return [z3.And(z3.Select(a, q) >= 0, z3.Select(a, q) < M64) for a in arrs]


wfi = Fold('wfi', [I, I], [], B, T, elem=lambda v, e: v[0] <= v[1], op=z3.And, comm=True, univ='all')
mem = Fold('mem', [I, I], [I], B, F, elem=lambda v, e: inside(v[0], v[1], e[0]), op=z3.Or, comm=True, univ='any')


def _sdstep(a, i, q, e, rec):
    lo, hi = a
    return z3.And(rec, lo[q] <= hi[q], z3.Implies(q > i, hi[q - 1] < lo[q]))


sd = Fold('sd', [I, I], [], B, T, step=_sdstep, univ='all',
          wf=lambda e, a, i, j, x, v: [z3.Implies(e, wfi(a, i, j))])
sd.univ_elem = lambda a, i, q, e: z3.And(a[0][q] <= a[1][q], z3.Implies(q > i, a[1][q - 1] < a[0][q]))


def _cntwf(e, a, i, j, ex, v):
    lo, hi = a
    return [e >= 0, z3.Implies(j >= i, e <= j - i), (e >= 1) == mem(a, i, j, *ex),
            z3.Implies(sd(a, i, j), z3.And(e <= 1, z3.Implies(e >= 1, z3.And(j > i, ex[0] <= hi[j - 1]))))]


cnt = Fold('cnt', [I, I], [I], I, z3.IntVal(0), elem=lambda v, e: z3.If(inside(v[0], v[1], e[0]), 1, 0),
           op=lambda a, b: a + b, comm=True, wf=_cntwf)


def before(x, d, v):
    """edge (x,d) is at or before value v"""
    return z3.If(d == 1, x <= v, x < v)


eps = Fold('eps', [I, I], [I], I, z3.IntVal(0), elem=lambda v, e: z3.If(before(v[0], v[1], e[0]), v[1], 0),
           op=lambda a, b: a + b, comm=True)
nsum = Fold('nsum', [I, I], [], I, z3.IntVal(0), elem=lambda v, e: v[1], op=lambda a, b: a + b, comm=True)
pm = Fold('pm', [I, I], [], B, T, elem=lambda v, e: z3.Or(v[1] == 1, v[1] == -1), op=z3.And, comm=True, univ='all')


class HV:
    """the interval contents of a heap, as seen by folds over lists of slices"""
    cache = {}

    def __init__(self, S, st, vers, cid):
        self.S, self.st, self.vers, self.id = S, st, vers, cid

    @classmethod
    def of(cls, C, old=True):
        S = C.S
        heap = C.old.heap if old else C.st.heap
        vers = [S.ver(heap, ('E', IVL, 0)), S.ver(heap, ('E', IVL, 1))]
        key = (id(S), vers[0].id, vers[1].id)
        if key not in cls.cache:
            cls.cache[key] = cls(S, C.st.copy(), vers, vers[0].id * 100000 + vers[1].id)
        return cls.cache[key]

    def arrs(self, ref):
        return [self.S.read(self.st, v, ref) for v in self.vers]


def _inner(f):
    def el(v, e, ver):
        ref, off, ln, cap = [z3.simplify(x) for x in v]
        if not isinstance(ver, HV):
            # lemma proofs: contents as an arbitrary function of the reference
            g = [z3.Function('G%d' % k, I, z3.ArraySort(I, I)) for k in range(2)]
            return f([h(ref) for h in g], off, off + ln, *e)
        return f(ver.arrs(ref), off, z3.simplify(off + ln), *e)
    return el


wfs = Fold('wfs', [I, I, I, I], [], B, T, elem=_inner(wfi), op=z3.And, univ='all', heapdep=True)
sumcnt = Fold('sumcnt', [I, I, I, I], [I], I, z3.IntVal(0), elem=_inner(cnt), op=lambda a, b: a + b, heapdep=True)


def fo(f, C, s, *ex, old=False, upto=None):
    """fold f over slice s (first `upto` elements)"""
    a = C.arrs(s, old) if isinstance(C, core.CallCtx) else C.arrs(s)
    n = s.len if upto is None else upto
    return f(a, s.off, z3.simplify(s.off + n), *ex)


def at_entry(f, L, role, *ex):
    """fold f over the value the variable had when the loop was entered"""
    s = L.entryval(role)
    return f(L.entry_arrs(s), s.off, z3.simplify(s.off + s.len), *ex)


def touched_E(*types):
    def f(S):
        keys = set()
        for t in types:
            for i in range(len(S.leaves(S.prog.tid(t)))):
                keys.add(('E', t, i))
        return keys
    return f


def witness(C, t):
    C.st.ghost['$wit'] = C.st.ghost.get('$wit', ()) + (t,)


def setup(env):
    env.invokers.append(random_invoker)
    add = env.add
    X = lambda C: C.ghosts['x']

    # --- intervaledges
    add(Contract(
        P + '.intervaledges', ghosts=[('x', 'u64')], nparams=1, props=['C01', 'C04', 'C05'],
        requires=lambda C: [('ranges are ordered', fo(wfi, C, C.args[0], old=True))],
        ensures=lambda C: [
            ('net edge count equals number of ranges containing x',
             fo(eps, C, C.res[0], X(C)) == fo(cnt, C, C.args[0], X(C), old=True)),
            ('edges balance', fo(nsum, C, C.res[0]) == 0),
            ('directions are +1 or -1', fo(pm, C, C.res[0])),
            ('result is new storage', z3.Or(C.res[0].ref == 0, C.res[0].ref >= C.old.alloc)),
        ],
        ))
    # --- thresholds
    def thr_req(C):
        t, ss = C.args
        hv = HV.of(C)
        return [('threshold is positive', t >= 1),
                ('ranges are ordered', wfs(C.arrs(ss, True), ss.off, ss.end, ver=hv))]

    def thr_ens(C):
        t, ss = C.args
        r = C.res[0]
        hv = HV.of(C)
        sc = lambda x: sumcnt(C.arrs(ss, True), ss.off, ss.end, x, ver=hv)
        if C.S.fn is C.fn and C.S.contract is C.ct:
            w = z3.Select(C.arrs(r)[0], r.off)      # proving: the first lower bound is the witness
            C.st.assume(*C.S.wfleaf(C.S.leaves(r.elem)[0][2], w, None))
        else:
            w = mk_ghost(C.S, C.st, core.fresh_name('w'), 'u64')
            witness(C, w)
        return [('exactly the integers covered often enough', fo(mem, C, r, X(C)) == (sc(X(C)) >= t)),
                ('disjoint and increasing', fo(sd, C, r)),
                ('a non-empty result names such an integer', z3.Implies(r.len > 0, z3.And(fo(mem, C, r, w), w >= 0, w < M64))),
                ('a non-empty result names a covered integer', z3.Implies(r.len > 0, sc(w) >= t)) if not (C.S.fn is C.fn and C.S.contract is C.ct) else
                ('a non-empty result covers something', z3.Implies(r.len > 0, fo(mem, C, r, w)))]

    add(Contract(P + '.thresholds', ghosts=[('x', 'u64')], nparams=2, props=['C01', 'C04', 'C05'],
                 requires=thr_req, ensures=thr_ens))
    # --- complement
    add(Contract(
        P + '.complement', ghosts=[('x', 'u64')], nparams=1, props=['C01', 'C05'],
        requires=lambda C: [('disjoint and increasing', fo(sd, C, C.args[0], old=True))],
        ensures=lambda C: [
            ('exactly the other integers', fo(mem, C, C.res[0], X(C)) == z3.Not(fo(mem, C, C.args[0], X(C), old=True))),
            ('disjoint and increasing', fo(sd, C, C.res[0]))],
        ))
    # --- API
    add(Contract(
        P + '.Simplify', ghosts=[('x', 'u64')], root=True, props=['C01'],
        requires=lambda C: [('ranges are ordered', fo(wfi, C, C.args[0], old=True))],
        ensures=lambda C: [
            ('same integers', fo(mem, C, C.res[0], X(C)) == fo(mem, C, C.args[0], X(C), old=True)),
            ('disjoint and increasing', fo(sd, C, C.res[0]))],
        ))

    def ov_ens(C):
        r, s = C.res[0], C.args[0]
        if C.S.fn is C.fn and C.S.contract is C.ct:
            ex = z3.Or(*[z3.And(fo(cnt, C, s, w, old=True) >= 2, w >= 0, w < M64) for w in C.st.ghost.get('$wit', ())])
        else:
            w = mk_ghost(C.S, C.st, core.fresh_name('w'), 'u64')
            witness(C, w)
            ex = fo(cnt, C, s, w, old=True) >= 2
        return [('no answer: no shared integer', z3.Implies(z3.Not(r), fo(cnt, C, s, X(C), old=True) <= 1)),
                ('yes answer: some shared integer', z3.Implies(r, ex))]
    add(Contract(
        P + '.Overlaps', ghosts=[('x', 'u64')], root=True, props=['C01', 'C04', 'C05'],
        requires=lambda C: [('ranges are ordered', fo(wfi, C, C.args[0], old=True))],
        ensures=ov_ens))

    def setiv(C, p, old=False):
        return C.field(p, 'intervals', old)
    SET = P + '.Set'
    def touched_set(S):
        k = touched_E(P + '.edge', IVL, '[]' + IVL)(S)
        for i in range(4):
            k.add(('O', SET, i))
        return k
    add(Contract(
        P + '.NewSet', ghosts=[('x', 'u64')], root=True, props=['C01', 'C04', 'C05'],
        requires=lambda C: [('ranges are ordered', fo(wfi, C, C.args[0], old=True))],
        ensures=lambda C: [
            ('non-nil and new', z3.And(C.res[0].ref != 0, C.res[0].ref >= C.old.alloc)),
            ('union of the ranges', fo(mem, C, setiv(C, C.res[0]), X(C)) == fo(mem, C, C.args[0], X(C), old=True)),
            ('disjoint and increasing', fo(sd, C, setiv(C, C.res[0])))],
        ))
    add(Contract(
        P + '.IntType', ghosts=[('x', 'u64')], root=True, props=['C01', 'C05'],
        requires=lambda C: [('width', C.args[0] <= 64)],
        ensures=lambda C: [
            ('non-nil and new', z3.And(C.res[0].ref != 0, C.res[0].ref >= C.old.alloc)),
            ('exactly the integers of that width',
             fo(mem, C, setiv(C, C.res[0]), X(C)) == (X(C) < pow2(C.args[0]))),
            ('disjoint and increasing', fo(sd, C, setiv(C, C.res[0])))],
        ))
    add(Contract(
        P + '.Bits', root=True, props=['C01'],
        requires=lambda C: [('width', C.args[0] <= 64)],
        ensures=lambda C: [('interval', z3.And(C.field(C.res[0], 'lo') == 0, C.field(C.res[0], 'hi') == pow2(C.args[0]) - 1))]))
    add(Contract(
        P + '.Range', root=True, props=['C01', 'C04', 'C05'], panics=lambda C: C.args[1] < C.args[0],
        ensures=lambda C: [('interval', z3.And(C.field(C.res[0], 'lo') == C.args[0], C.field(C.res[0], 'hi') == C.args[1]))]))
    for n, lo, hi in (('Single', 0, 0), ('OpenLeft', None, 0), ('OpenRight', 0, None)):
        add(Contract(P + '.' + n, root=True, props=['C01', 'C04', 'C05'], ensures=lambda C, lo=lo, hi=hi: [
            ('interval', z3.And(C.field(C.res[0], 'lo') == (C.args[0] if lo == 0 else 0),
                                C.field(C.res[0], 'hi') == (C.args[0] if hi == 0 else M64 - 1)))]))
    add(Contract('(%s).Contains' % IVL, root=True, props=['C01'], ensures=lambda C: [
        ('membership', C.res[0] == inside(C.field(C.args[0], 'lo'), C.field(C.args[0], 'hi'), C.args[1]))]))
    add(Contract('(%s).Size' % IVL, root=True, props=['C01'],
                 requires=lambda C: [C.field(C.args[0], 'lo') <= C.field(C.args[0], 'hi')],
                 ensures=lambda C: [('number of integers, modulo 2^64', C.res[0] == z3.If(
                     C.field(C.args[0], 'hi') - C.field(C.args[0], 'lo') + 1 == M64, 0,
                     C.field(C.args[0], 'hi') - C.field(C.args[0], 'lo') + 1))]))
    add(Contract('(%s).Single' % IVL, root=True, props=['C01'],
                 requires=lambda C: [C.field(C.args[0], 'lo') <= C.field(C.args[0], 'hi')],
                 ensures=lambda C: [('one integer', C.res[0] == (C.field(C.args[0], 'lo') == C.field(C.args[0], 'hi')))]))
    add(Contract(
        '(%s).Contains' % SET, root=True, props=['C01', 'C05'],
        ensures=lambda C: [('membership', C.res[0] == fo(mem, C, setiv(C, C.args[0]), C.args[1]))]))

    def sub_W(C):
        return [(('O', SET, i), C.args[0].ref) for i in range(4)]
    add(Contract(
        '(*%s).Subtract' % SET, ghosts=[('x', 'u64')], root=True, props=['C01', 'C05'],
        requires=lambda C: [('set is valid', z3.And(C.args[0].ref != 0, fo(sd, C, setiv(C, C.args[0], True), old=True))),
                            ('other set is valid', z3.And(C.args[1].ref != 0, fo(sd, C, setiv(C, C.args[1], True), old=True)))],
        ensures=lambda C: [
            ('difference', fo(mem, C, setiv(C, C.args[0]), X(C)) == z3.And(
                fo(mem, C, setiv(C, C.args[0], True), X(C), old=True),
                z3.Not(fo(mem, C, setiv(C, C.args[1], True), X(C), old=True)))),
            ('disjoint and increasing', fo(sd, C, setiv(C, C.args[0])))],
        modifies=sub_W, ))

    # ------------------------------------------------------------ invariants
    ES, IS, ISS = '[]%s.edge' % P, '[]%s.Interval' % P, '[][]%s.Interval' % P

    def tpl(name, roles, fn, scope=(P,)):
        env.templates.append(Template(name, scope, roles, fn))

    # edges built so far
    tpl('edges-of-prefix', [('es', 'phi ' + ES), ('is_', 'vis ' + IS)], lambda L, es, is_: [
        fo(eps, L, es, L.ghosts['x']) == at_entry(eps, L, 'es', L.ghosts['x']) + fo(cnt, L, is_, L.ghosts['x'], upto=L.k)])
    tpl('edges-balance', [('es', 'phi ' + ES)], lambda L, es: [fo(nsum, L, es) == 0])
    tpl('edges-pm', [('es', 'phi ' + ES)], lambda L, es: [fo(pm, L, es)])
    tpl('edges-of-prefix2', [('es', 'phi ' + ES), ('iss', 'vis ' + ISS)], lambda L, es, iss: [
        fo(eps, L, es, L.ghosts['x']) == sumcnt(L.root.arrs(iss, True), iss.off, z3.simplify(iss.off + L.k), L.ghosts['x'],
                                                 ver=HV.of(L.root))])
    # sweep
    ROLES = [('es', 'vis ' + ES), ('n', 'phi int')]
    tpl('sweep-n', ROLES, lambda L, es, n: [n == fo(nsum, L, es, upto=L.k)])
    tpl('sweep-nbound', [('n', 'phi int')], lambda L, n: [n <= L.k, n >= -L.k])
    tpl('sweep-inside', [('n', 'phi int'), ('ins', 'phi bool'), ('th', 'vis int')], lambda L, n, ins, th: [ins == (n >= th)])
    tpl('sweep-start', [('es', 'vis ' + ES), ('ins', 'phi bool'), ('start', 'phi uint64')],
        lambda L, es, ins, start: [z3.Implies(ins, z3.And(L.k > 0, start <= edge(L, es)[0]))])

    def edge(L, es):
        a = L.arrs(es)
        q = z3.simplify(es.off + L.k - 1)
        return z3.Select(a[0], q), z3.Select(a[1], q)

    def pending(L, es):
        x, d = edge(L, es)
        return z3.Or(L.k <= 0, before(x, d, L.ghosts['x']))
    tpl('sweep-pending', [('es', 'vis ' + ES), ('n', 'phi int'), ('res', 'phi ' + IS), ('ins', 'phi bool'), ('start', 'phi uint64')],
        lambda L, es, n, res, ins, start: [z3.Implies(pending(L, es), z3.And(
            fo(eps, L, es, L.ghosts['x'], upto=L.k) == n, z3.Not(fo(mem, L, res, L.ghosts['x'])),
            z3.Implies(ins, start <= L.ghosts['x'])))])
    tpl('sweep-settled', [('es', 'vis ' + ES), ('th', 'vis int'), ('res', 'phi ' + IS), ('ins', 'phi bool'), ('start', 'phi uint64')],
        lambda L, es, th, res, ins, start: [z3.Implies(z3.Not(pending(L, es)), (
            fo(eps, L, es, L.ghosts['x'], upto=L.k) >= th) == z3.Or(fo(mem, L, res, L.ghosts['x']),
                                                                     z3.And(ins, start <= L.ghosts['x'])))])

    def lasthi(L, res):
        return z3.Select(L.arrs(res)[1], z3.simplify(res.off + res.len - 1))
    tpl('sweep-sorted', [('res', 'phi ' + IS)], lambda L, res: [fo(sd, L, res)])
    tpl('sweep-gap', [('es', 'vis ' + ES), ('res', 'phi ' + IS), ('ins', 'phi bool'), ('start', 'phi uint64')],
        lambda L, es, res, ins, start: [z3.Implies(res.len > 0, z3.And(
            L.k > 0, z3.Or(lasthi(L, res) < edge(L, es)[0], z3.And(lasthi(L, res) == edge(L, es)[0], edge(L, es)[1] == -1)),
            z3.Implies(ins, lasthi(L, res) < start)))])
    # complement
    CR = [('c', 'phi ' + IS), ('s', 'phi uint64'), ('is_', 'vis ' + IS)]

    def upto(L, is_):
        """one past the last processed interval, as an unbounded integer"""
        return z3.If(L.k <= 0, 0, z3.Select(L.arrs(is_)[1], z3.simplify(is_.off + L.k - 1)) + 1)
    tpl('compl-s', CR, lambda L, c, s, is_: [s == z3.If(upto(L, is_) == M64, 0, upto(L, is_))])
    tpl('compl-mem', CR, lambda L, c, s, is_: [z3.If(
        L.ghosts['x'] < upto(L, is_),
        fo(mem, L, c, L.ghosts['x']) == z3.Not(fo(mem, L, is_, L.ghosts['x'], upto=L.k)),
        z3.And(z3.Not(fo(mem, L, c, L.ghosts['x'])), z3.Not(fo(mem, L, is_, L.ghosts['x'], upto=L.k))))])
    tpl('compl-last', CR, lambda L, c, s, is_: [z3.Implies(c.len > 0, lasthi(L, c) < upto(L, is_))])
    # membership scan, forwards, backwards, or with a flag
    tpl('found-so-far', [('is_', 'vis ' + IS), ('x', 'vis uint64'), ('f', 'phi bool')], lambda L, is_, x, f: [
        f == fo(mem, L, is_, x, upto=L.k)])
    tpl('not-yet-back', [('is_', 'vis ' + IS), ('x', 'vis uint64'), ('i', 'phi int')], lambda L, is_, x, i: [
        z3.Not(mem(L.arrs(is_), z3.simplify(is_.off + i + 1), is_.end, x))])
    tpl('not-yet', [('is_', 'vis ' + IS), ('x', 'vis uint64')], lambda L, is_, x: [z3.Not(fo(mem, L, is_, x, upto=L.k))])


def pow2(n):
    r = z3.IntVal(2 ** 64)
    for i in range(63, -1, -1):
        r = z3.If(n == i, z3.IntVal(2 ** i), r)
    return r
