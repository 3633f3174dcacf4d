"""Contracts for resolving integers, integer lists and field references (property C04).

lo(r), hi(r) are the bounds a range of the list stands for given the constants of the resolver; inlist(l, x) says that some
range contains x, times(l, x) counts them, sound(l) that every bound is known and no range is reversed.
"""
import z3
from gvc.core import I, B, Str, Unsupported, lit
from gvc.fold import Fold, MapAll
from gvc.spec import Contract, Template, mk_ghost
from gvc import core
from . import astspec as A
from .resolver import P, R, T, F, KINDS, nodes, DB, DI, ALL
from .intervals import mem, cnt, wfi, M64, witness

LIT, REF, FIELD, INT = [0], [0], [0], [0]
RNG = 'ast.IntegerRange'


def known(tid, pay, d):
    return z3.Or(tid == LIT[0], z3.And(tid == REF[0], z3.Select(d, A.fld('ast.IntegerConstRef', '.Name')(pay))))


def val(tid, pay, v):
    return z3.If(tid == LIT[0], A.fld('ast.IntegerLiteral', '.Value')(pay), z3.Select(v, A.fld('ast.IntegerConstRef', '.Name')(pay)))


def end(r, which):
    return A.fld(RNG, '.%s.tid' % which)(r), A.fld(RNG, '.%s.pay' % which)(r)


def u64(x):
    return z3.If(x < 0, x + M64, x)


def lo(r, v):
    return u64(val(*end(r, 'Low'), v))


def hi(r, v):
    return z3.If(end(r, 'High')[0] == 0, lo(r, v), u64(val(*end(r, 'High'), v)))


def good(r, d, v):
    return z3.And(known(*end(r, 'Low'), d), z3.Or(end(r, 'High')[0] == 0, known(*end(r, 'High'), d)), lo(r, v) <= hi(r, v))


def given(tid, pay):
    """a number in the tree is not a nil pointer"""
    return z3.Implies(z3.Or(tid == LIT[0], tid == REF[0]), A.node(pay))


def natural(tid, pay):
    """numbers are written without a sign"""
    return z3.Implies(tid == LIT[0], A.fld('ast.IntegerLiteral', '.Value')(pay) >= 0)


naturals = MapAll('naturals', Str, [I], [], lambda k, v, e: v[0] >= 0)


def fits(tid, pay, v):
    """stored values are 64-bit"""
    return z3.And(val(tid, pay, v) >= -2 ** 63, val(tid, pay, v) < 2 ** 63)


okrange = Fold('okrange', [I], [], B, T, op=z3.And, univ='all', elem=lambda x, e: z3.And(
    A.node(x[0]), given(*end(x[0], 'Low')), given(*end(x[0], 'High')), natural(*end(x[0], 'Low')), natural(*end(x[0], 'High'))))
sound = Fold('sound', [I], [DB, DI], B, T, op=z3.And, univ='all', elem=lambda x, e: good(x[0], *e))
within = lambda r, v, x: z3.And(lo(r, v) <= x, x <= hi(r, v))
inlist = Fold('inlist', [I], [DI, I], B, F, op=z3.Or, univ='any', elem=lambda x, e: within(x[0], *e))
times = Fold('times', [I], [DI, I], I, z3.IntVal(0), op=lambda a, b: a + b, elem=lambda x, e: z3.If(within(x[0], *e), 1, 0))


def _match(e, a, i, j, x, v):
    d, w, sh, g = x
    k = [a[1], a[2]], z3.simplify(i + sh), z3.simplify(j + sh)
    return [z3.Implies(e, z3.And(wfi(*k), mem(*k, g) == inlist([a[0]], i, j, w, g), cnt(*k, g) == times([a[0]], i, j, w, g),
                                 sound([a[0]], i, j, d, w)))]


match = Fold('match', [I, I, I], [DB, DI, I, I], B, T, op=z3.And, univ='all', wf=_match, shift=lambda e: [z3.IntVal(0), e[2], e[2]],
             elem=lambda x, e: z3.And(x[1] == lo(x[0], e[1]), x[2] == hi(x[0], e[1]), good(x[0], e[0], e[1])))
fname = lambda f: A.fld('ast.Field', '.Name')(f)
ffirst = Fold('ffirst', [I], [Str], I, z3.IntVal(0), op=lambda a, b: z3.If(a != 0, a, b), absorb=True,
              elem=lambda x, e: z3.If(fname(x[0]) == e[0], x[0], 0))
mfirst = Fold('mfirst', [I, I], [Str], I, z3.IntVal(0), op=lambda a, b: z3.If(a != 0, a, b), absorb=True,
              elem=lambda x, e: z3.If(z3.And(x[0] == FIELD[0], fname(x[1]) == e[0]), x[1], 0))
okmembers = Fold('okmembers', [I, I], [], B, T, op=z3.And, univ='all', elem=lambda x, e: z3.Implies(x[0] == FIELD[0], A.node(x[1])))
cmembers = lambda c: A.List('ast.Context', '.Members', '*ast.Field', c)
smembers = lambda s: A.List('ast.Struct', '.Members', 'ast.Member', s)
ctx = lambda d, v: z3.If(d, v, 0)
okcontexts = MapAll('okcontexts', Str, [B, I], [], lambda k, v, e: z3.Implies(v[0], z3.And(
    A.node(ctx(*v)), cmembers(ctx(*v)).ok(), nodes(*cmembers(ctx(*v))))))


def ranges(l):
    return A.List('ast.IntegerList', '.Ranges', '*' + RNG, l)


def typesof(prog):
    for b, n in ((LIT, '*ast.IntegerLiteral'), (REF, '*ast.IntegerConstRef'), (FIELD, '*ast.Field'), (INT, '*ast.IntType')):
        b[0] = prog.tid(n) + 1


def table(C, k, old=True):
    m = C.field(C.args[0], k.table, old)
    h = C.old.heap if old else C.st.heap
    return C.S.mapdom(C.st, m, h), C.S.mapvals(C.st, m, h)[0]


NODES = ['ast.IntegerLiteral', 'ast.IntegerConstRef', RNG, 'ast.IntegerList', 'ast.Field', 'ast.IntType', 'ast.IDRef', 'ast.Struct',
         'ast.Context']
LISTS = ['*' + RNG, '*ast.Field', 'ast.Member']


def tree(C):
    return [('the tree is as it was', A.unchanged(C, NODES, LISTS))]


def valid(C):
    r = C.args[0]
    out = [r.ref != 0]
    for k in KINDS:
        m = C.field(r, k.table, True)
        d, v = table(C, k)
        out += [m.ref != 0, k.set(d, [v])]
        if k.K == 'Context':
            out.append(okcontexts(ALL, [d, v]))
    return [('resolver is valid', z3.And(*out))]


def oklist(l):
    r = ranges(l)
    return z3.And(A.node(l), r.ok(), okrange(*r))


def proving(C):
    return C.S.fn is C.fn and C.S.contract is C.ct


def setup(env):
    prog = env.prog
    A.attach(prog)
    typesof(prog)
    add = env.add
    PROPS = ['C04', 'C05']
    X, K = KINDS[1], KINDS[2]
    ok = lambda C: C.res[-1].tid == 0

    def integer(C):
        i = C.args[1]
        d, v = table(C, K)
        return [('known exactly when written out or declared', ok(C) == known(i.tid, i.pay, d)),
                ('its value', z3.Implies(ok(C), C.res[0] == val(i.tid, i.pay, v)))]
    add(Contract('(*%s).Integer' % R, root=True, nparams=2, props=PROPS, ensures=integer, requires=lambda C: valid(C) + [
        ('the number is given', given(C.args[1].tid, C.args[1].pay))] + tree(C)))

    def lists(C):
        l = ranges(C.args[1].ref)
        d, v = table(C, K)
        x = C.ghosts['x']
        r = C.res[0]
        snd = sound(*l, d, v)
        if proving(C):
            ws = [w for w in C.st.ghost.get('$wit', ())]
            # shown for every x; the value found by the overlap test is one of them
            ov = z3.Implies(ws[-1] == x, z3.And(times(*l, v, x) >= 2, x >= 0, x < M64)) if ws else F
        else:
            w = mk_ghost(C.S, C.st, core.fresh_name('w'), 'u64')
            witness(C, w)
            ov = times(*l, v, w) >= 2
        iv = C.field(r, 'intervals')
        return [('accepted only with known bounds in order', z3.Implies(ok(C), snd)),
                ('accepted only when no value is listed twice', z3.Implies(ok(C), times(*l, v, x) <= 1)),
                ('refused only for a reason', z3.Implies(z3.Not(ok(C)), z3.Or(z3.Not(snd), ov))),
                ('exactly the listed values', z3.Implies(ok(C), z3.And(r.ref >= C.old.alloc, mem(
                    C.arrs(iv), iv.off, z3.simplify(iv.off + iv.len), x) == inlist(*l, v, x)))),
                ('no set with an error', z3.Implies(z3.Not(ok(C)), r.ref == 0))]
    add(Contract('(*%s).Intervals' % R, root=True, nparams=2, ghosts=[('x', 'u64')], props=PROPS, ensures=lists, requires=lambda C: valid(C) + [
        ('the list is given', oklist(C.args[1].ref)), ('constants are natural numbers', naturals(*[[d, [v]] for d, v in [table(C, K)]][0]))] + tree(C)))

    def target(C):
        """the field referred to, or 0"""
        ref, s = C.args[1].ref, C.args[2].ref
        sc, n = A.fld('ast.IDRef', '.Scope')(ref), A.fld('ast.IDRef', '.Name')(ref)
        d, v = table(C, X)
        return z3.If(sc == lit(''), mfirst(*smembers(s), n), z3.If(z3.Select(d, sc), ffirst(*cmembers(ctx(z3.Select(d, sc), z3.Select(v, sc))), n), 0))

    def inttype(C):
        f = target(C)
        tid, pay = A.fld('ast.Field', '.Type.tid')(f), A.fld('ast.Field', '.Type.pay')(f)
        return [('found exactly when the first such field is an integer', ok(C) == z3.And(f != 0, tid == INT[0])),
                ('its type', C.res[0].ref == z3.If(ok(C), pay, 0))]
    add(Contract('(*%s).IntType' % R, root=True, nparams=3, props=PROPS, ensures=inttype, requires=lambda C: valid(C) + [
        ('the reference is given', A.node(C.args[1].ref)),
        ('the struct is given', z3.And(A.node(C.args[2].ref), smembers(C.args[2].ref).ok(), okmembers(*smembers(C.args[2].ref))))] + tree(C)))

    def tpl(name, roles, fn):
        env.templates.append(Template(name, (P,), roles, fn))

    def consts(L):
        r = L.S.args[0]
        from gvc.core import Ptr
        for i, f in enumerate(prog.fields(r.t)):
            if f['name'] == K.table:
                m = L.S.load(L.st, Ptr(r.root, r.T, r.ref, r.idx, r.path + (i,), f['type']), heap=L.S.old0.heap)
                return L.S.mapdom(L.st, m, L.S.old0.heap), L.S.mapvals(L.st, m, L.S.old0.heap)[0]

    def matched(L, s, is_):
        d, v = consts(L)
        x = L.ghosts['x']
        a, b = L.arrs(s), L.arrs(is_)
        sh = z3.simplify(is_.off - s.off)
        hs = [x] + list(L.st.ghost.get('$wit', ()))
        return [match([a[0], b[0], b[1]], s.off, z3.simplify(s.off + L.k), d, v, sh, x)]
    tpl('bounds-so-far', [('s', 'rng []*' + RNG), ('is_', 'any []internal/intervals.Interval')], matched)
    name = lambda L: A.fld('ast.IDRef', '.Name')(L.S.args[1].ref)

    def idref(L):
        if prog.tstr(L.S.args[1].t) != 'ast.IDRef':
            raise Unsupported('no reference')
        return name(L)
    tpl('fields-so-far', [('s', 'rng []ast.Member'), ('fs', 'phi []*ast.Field')], lambda L, s, fs: [
        ffirst(L.arrs(fs), fs.off, z3.simplify(fs.off + fs.len), idref(L)) == mfirst(L.arrs(s), s.off, z3.simplify(s.off + L.k), idref(L))])
    tpl('fields-given', [('fs', 'phi []*ast.Field')], lambda L, fs: [nodes(L.arrs(fs), fs.off, z3.simplify(fs.off + fs.len))])
    tpl('no-field-yet', [('fs', 'rng []*ast.Field')], lambda L, fs: [ffirst(L.arrs(fs), fs.off, z3.simplify(fs.off + L.k), idref(L)) == 0])
    tpl('no-member-yet', [('s', 'rng []ast.Member')], lambda L, s: [mfirst(L.arrs(s), s.off, z3.simplify(s.off + L.k), idref(L)) == 0])
