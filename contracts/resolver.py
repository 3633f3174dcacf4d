"""Contracts for the name tables of package inspect (property C03).

For one file and one kind of declaration:  first(list, n) is the first declaration named n (0 when there is none), dup(list)
says that some name is declared twice.  Over files: at(files, n) is the last declaration of n, bad(files) says that some file
cannot follow those before it.
"""
import z3
from gvc.core import I, B, Str, MapV, Ptr, Unsupported, lit
from gvc.fold import Fold, MapAll
from gvc.spec import Contract, Template
from . import astspec as A

P = 'inspect'
R = P + '.Resolver'
T, F = z3.BoolVal(True), z3.BoolVal(False)
AI = z3.ArraySort(I, I)
ALL = z3.K(Str, T)
named = lambda K: A.fld('ast.' + K, '.Name')
extern = lambda r: A.fld('ast.Struct', '.Members.ref')(r) == 0
value = lambda r: A.fld('ast.Constant', '.Value')(r)
DB, DI = z3.ArraySort(Str, B), z3.ArraySort(Str, I)
nodes = Fold('nodes', [I], [], B, T, op=z3.And, univ='all', elem=lambda v, e: A.node(v[0]))


class Kind:
    """one of the three kinds of declaration"""

    def __init__(self, K, list_, table):
        self.K, self.list, self.table = K, list_, table
        self.mapt = 'map[string]' + ('int64' if K == 'Constant' else '*ast.' + K)
        name = lambda r: named(K)(r)
        val = (lambda r: value(r)) if K == 'Constant' else (lambda r: r)
        # what stands in the way of declaring r when the table has v
        stop = {'Struct': lambda v, r: z3.Not(extern(v)), 'Context': lambda v, r: T, 'Constant': lambda v, r: v != value(r)}[K]
        self.val, self.stop, self.name = val, stop, name
        L = K[:2]
        if K == 'Constant':
            L = 'Kt'
        has = self.has = Fold('has' + L, [I], [Str], B, F, op=z3.Or, univ='any', sk=True,
                              elem=lambda v, e: z3.And(v[0] != 0, name(v[0]) == e[0]))
        only = Fold('only' + L, [I], [Str, I], B, T, op=z3.And, univ='all', deep=3,
                    elem=lambda v, e: z3.Implies(z3.And(v[0] != 0, name(v[0]) == e[0]), v[0] == e[1]),
                    wf=lambda e, a, i, j, x, v: [
                        z3.Implies(z3.Not(has(a, i, j, x[0])), e), (first(a, i, j, x[0]) != 0) == has(a, i, j, x[0]),
                        z3.Implies(z3.And(z3.Not(dup(a, i, j)), x[1] == first(a, i, j, x[0])), e)])
        first = self.first = Fold('first' + L, [I], [Str], I, z3.IntVal(0), op=lambda a, b: z3.If(a != 0, a, b), uses=(only,),
                                  elem=lambda v, e: z3.If(name(v[0]) == e[0], v[0], 0),
                                  wf=lambda e, a, i, j, x, v: [
                                      (e != 0) == has(a, i, j, *x), z3.Implies(e != 0, name(e) == x[0]),
                                      z3.Implies(z3.And(e != 0, nodes(a, i, j)), A.node(e)),
                                      z3.Implies(z3.Not(dup(a, i, j)), only(a, i, j, x[0], e))])
        dup = self.dup = Fold('dup' + L, [I], [], B, F, step=lambda a, i, q, e, rec: z3.Or(
            rec, first(a, i, q, name(z3.Select(a[0], q))) != 0))
        dup.univ, dup.univ_elem = 'any', lambda a, i, q, e: first(a, i, q, name(z3.Select(a[0], q))) != 0
        # the table holds exactly the declarations of a list
        self.exact = MapAll('exact' + L, Str, [B, I], [AI, I, I], lambda k, v, e: z3.And(
            v[0] == (first([e[0]], e[1], e[2], k) != 0), z3.Implies(v[0], v[1] == val(first([e[0]], e[1], e[2], k)))))
        # the table holds those of a list and, under other names, those of an earlier table
        self.over = MapAll('over' + L, Str, [B, I, B, I], [AI, I, I], lambda k, v, e: z3.And(
            v[0] == z3.Or(v[2], first([e[0]], e[1], e[2], k) != 0), z3.Implies(
                v[0], v[1] == z3.If(first([e[0]], e[1], e[2], k) != 0, val(first([e[0]], e[1], e[2], k)), v[3]))))
        self.clash = Fold('clash' + L, [I], [DB, DI], B, F, op=z3.Or, univ='any', sk=True, elem=lambda v, e: z3.And(
            v[0] != 0, z3.Select(e[0], name(v[0])), stop(z3.Select(e[1], name(v[0])), v[0])))
        # whatever happens, an entry is kept, unless something could be declared over it
        self.kept = MapAll('kept' + L, Str, [B, I, B, I], [AI, I, I], lambda k, v, e: z3.Implies(v[2], z3.And(
            v[0], z3.Or(v[1] == v[3], z3.And(first([e[0]], e[1], e[2], k) != 0, z3.Not(stop(v[3], first([e[0]], e[1], e[2], k))),
                                             v[1] == val(first([e[0]], e[1], e[2], k)))))))
        # while another table is copied in: new, old, other table, keys done
        self.overlay = MapAll('overlay' + L, Str, [B, I, B, I, B, I, B], [], lambda k, v, e: z3.And(
            v[0] == z3.Or(v[2], v[6]), z3.Implies(v[0], v[1] == z3.If(v[6], v[5], v[3])), z3.Implies(v[6], v[4])))
        self.set = MapAll('set' + L, Str, [I], [], lambda k, v, e: T if K == 'Constant' else A.node(v[0]))
        self.at = Fold('at' + L, [I], [Str], I, z3.IntVal(0), op=lambda a, b: z3.If(b != 0, b, a),
                       elem=lambda v, e: first(*self.of(v[0]), e[0]))
        self.clash2 = Fold('clasht' + L, [I], [AI, I, I], B, F, op=z3.Or, univ='any', sk=True, elem=lambda v, e: z3.And(
            v[0] != 0, self.at([e[0]], e[1], e[2], name(v[0])) != 0, stop(val(self.at([e[0]], e[1], e[2], name(v[0]))), v[0])))
        self.held = MapAll('held' + L, Str, [B, I], [AI, I, I], lambda k, v, e: z3.And(
            v[0] == (self.at([e[0]], e[1], e[2], k) != 0), z3.Implies(v[0], v[1] == val(self.at([e[0]], e[1], e[2], k)))))

    def of(self, f):
        return A.List('ast.File', '.' + self.list, '*ast.' + self.K, f)

    def listok(self, f):
        l = self.of(f)
        return z3.And(l.ok(), nodes(*l))


KINDS = [Kind('Struct', 'Structs', 'structs'), Kind('Context', 'Contexts', 'contexts'), Kind('Constant', 'Constants', 'constants')]
okfile = lambda f: z3.And(A.node(f), *[k.listok(f) for k in KINDS])
okfiles = Fold('okfiles', [I], [], B, T, op=z3.And, univ='all', elem=lambda v, e: okfile(v[0]))


def _badfile(a, i, q):
    f = z3.Select(a[0], q)
    return z3.Or(*[z3.Or(k.dup(*k.of(f)), k.clash2(*k.of(f), a[0], i, q)) for k in KINDS])


badfiles = Fold('badfiles', [I], [], B, F, frame=False, step=lambda a, i, q, e, rec: z3.Or(rec, _badfile(a, i, q)))
badfiles.univ, badfiles.univ_elem = 'any', lambda a, i, q, e: _badfile(a, i, q)


def setup(env):
    prog = env.prog
    A.attach(prog)
    add = env.add
    PROPS = ['C03']
    NODES = ['ast.File', 'ast.Struct', 'ast.Context', 'ast.Constant']
    LISTS = ['*ast.Struct', '*ast.Context', '*ast.Constant']
    tree = lambda C: [('the tree is as it was', A.unchanged(C, NODES, LISTS))]

    def arrs(C, m, old=False):
        h = C.old.heap if old else C.st.heap
        return C.S.mapdom(C.st, m, h), C.S.mapvals(C.st, m, h)[0]

    def table(C, k, old=False, r=None):
        """domain and values of the table of a resolver"""
        m = C.field(C.args[0] if r is None else r, k.table, old)
        return arrs(C, m, old)

    def valid(C, r, old=True):
        out = [r.ref != 0]
        for k in KINDS:
            m = C.field(r, k.table, old)
            d, v = arrs(C, m, old)
            out += [m.ref != 0, k.set(d, [v])]
        return z3.And(*out)
    VALID = lambda C: [('resolver is valid', valid(C, C.args[0]))]
    ok = lambda C: C.res[-1].tid == 0

    def W(*ks):
        def w(C):
            out = []
            for k in ks:
                m = C.field(C.args[0], k.table, True)
                out += [(('MD', prog.tstr(m.t)), m.ref), (('MV', prog.tstr(m.t), 0), m.ref)]
            return out
        return w
    S, X, K = KINDS

    # ---- tables of one file
    for k in KINDS:
        def ens(C, k=k):
            l = k.of(C.args[0].ref)
            d, v = arrs(C, C.res[0])
            return [('error exactly on a repeated name', ok(C) == z3.Not(k.dup(*l))),
                    ('exactly the declared names', z3.Implies(ok(C), k.exact(ALL, [d, v], l.arrs[0], l.lo, l.hi))),
                    ('new table', z3.Implies(ok(C), C.res[0].ref >= C.old.alloc))]
        add(Contract(P + '.' + k.list, root=True, nparams=1, props=PROPS, ensures=ens,
                     requires=lambda C, k=k: [('the file is given', z3.And(A.node(C.args[0].ref), k.listok(C.args[0].ref)))] + tree(C)))

    # ---- single declarations
    def declare(k, name, val, ref):
        def ens(C):
            n, v = name(C), val(C)
            (d0, v0), (d1, v1) = table(C, k, True), table(C, k)
            stop = z3.And(z3.Select(d0, n), k.stop(z3.Select(v0, n), ref(C)) if k is not K else z3.Select(v0, n) != v)
            return [('refused exactly when it cannot be declared', ok(C) == z3.Not(stop)),
                    ('stored', z3.Implies(ok(C), z3.And(d1 == z3.Store(d0, n, T), v1 == z3.Store(v0, n, v)))),
                    ('refusal changes nothing', z3.Implies(z3.Not(ok(C)), z3.And(d1 == d0, v1 == v0))),
                    ('resolver stays valid', valid(C, C.args[0], False))]
        return ens
    for fn, k in (('AddStruct', S), ('AddContext', X), ('AddConstant', K)):
        add(Contract('(*%s).%s' % (R, fn), root=True, nparams=2, props=PROPS, modifies=W(k),
                     requires=lambda C: VALID(C) + [('declaration is given', A.node(C.args[1].ref))] + tree(C),
                     ensures=declare(k, lambda C, k=k: k.name(C.args[1].ref), lambda C, k=k: k.val(C.args[1].ref), lambda C: C.args[1].ref)))
    add(Contract('(*%s).SetConstant' % R, root=True, nparams=3, props=PROPS, modifies=W(K), requires=VALID,
                 ensures=declare(K, lambda C: C.args[1], lambda C: C.args[2], None)))

    # ---- files
    add(Contract(P + '.NewResolverEmpty', root=True, nparams=0, props=PROPS, ensures=lambda C: [
        ('new and valid', z3.And(C.res[0].ref >= C.old.alloc, valid(C, C.res[0], False)))] + [
        ('empty', z3.And(*[z3.And(table(C, k, r=C.res[0])[0] == z3.K(Str, F), C.field(C.res[0], k.table).ref >= C.old.alloc) for k in KINDS]))]))

    def added(C):
        f = C.args[1].ref
        bad, over, kept = [], [], []
        for k in KINDS:
            l = k.of(f)
            (d0, v0), (d1, v1) = table(C, k, True), table(C, k)
            bad += [k.dup(*l), k.clash(*l, d0, v0)]
            over.append(k.over(ALL, [d1, v1, d0, v0], l.arrs[0], l.lo, l.hi))
            kept.append(k.kept(ALL, [d1, v1, d0, v0], l.arrs[0], l.lo, l.hi))
        return [('refused exactly on a conflict', ok(C) == z3.Not(z3.Or(*bad))),
                ('adds exactly the declarations of the file', z3.Implies(ok(C), z3.And(*over))),
                ('keeps what cannot be declared again', z3.And(*kept)),
                ('resolver stays valid', valid(C, C.args[0], False))]
    add(Contract('(*%s).AddFile' % R, root=True, nparams=2, props=PROPS, modifies=W(*KINDS), ensures=added,
                 requires=lambda C: VALID(C) + [('the file is given', okfile(C.args[1].ref))] + tree(C)))

    def loaded(C):
        fs, r = C.args[0], C.res[0]
        a = C.arrs(fs, True)
        b = fs.off, z3.simplify(fs.off + fs.len)
        held = [k.held(ALL, table(C, k, r=r), a[0], *b) for k in KINDS]
        return [('fails exactly when some file cannot be added', ok(C) == z3.Not(badfiles(a, *b))),
                ('names stand for what was declared', z3.Implies(ok(C), z3.And(*held))),
                ('a valid resolver or none', z3.If(ok(C), valid(C, r, False), r.ref == 0))]
    add(Contract(P + '.NewResolverFiles', root=True, nparams=1, props=PROPS, ensures=loaded, requires=lambda C: [
        ('the files are given', okfiles(C.arrs(C.args[0], True), C.args[0].off, z3.simplify(C.args[0].off + C.args[0].len)))] + tree(C)))

    def loaded1(C):
        f, r = C.args[0].ref, C.res[0]
        ls = [k.of(f) for k in KINDS]
        exact = [k.exact(ALL, table(C, k, r=r), l.arrs[0], l.lo, l.hi) for k, l in zip(KINDS, ls)]
        return [('fails exactly on a repeated name', ok(C) == z3.Not(z3.Or(*[k.dup(*l) for k, l in zip(KINDS, ls)]))),
                ('names stand for what was declared', z3.Implies(ok(C), z3.And(*exact)))]
    add(Contract(P + '.NewResolver', root=True, nparams=1, props=PROPS, ensures=loaded1, requires=lambda C: [
        ('the file is given', okfile(C.args[0].ref))] + tree(C)))

    # ---- looking up
    def look(k):
        def ens(C):
            d, v = table(C, k, True)
            n = C.args[1]
            r = C.res[0].ref if k is not K else C.res[0]
            return [('found exactly when declared', C.res[1] == z3.Select(d, n)),
                    ('what was declared', r == z3.If(z3.Select(d, n), z3.Select(v, n), 0))]
        return ens

    def name_it(k):
        """at calls: the result is the term the contract equates it with"""
        def shape(C, res):
            d, v = table(C, k, True)
            t = z3.If(z3.Select(d, C.args[1]), z3.Select(v, C.args[1]), 0)
            C.st.assume(t == (res[0].ref if k is not K else res[0]))
            if k is K:
                return [t, z3.Select(d, C.args[1])]
            p = res[0]
            return [Ptr(p.root, p.T, t, p.idx, p.path, p.t), z3.Select(d, C.args[1])]
        return shape
    for fn, k in (('Struct', S), ('Context', X), ('Constant', K)):
        add(Contract('(*%s).%s' % (R, fn), root=True, nparams=2, props=PROPS + ['C04', 'C05'], requires=VALID, ensures=look(k), shape=name_it(k)))

    def defined(C):
        d, v = table(C, S, True)
        n = C.args[1]
        return [('found exactly when defined', ok(C) == z3.And(z3.Select(d, n), z3.Not(extern(z3.Select(v, n))))),
                ('what was declared', C.res[0].ref == z3.If(ok(C), z3.Select(v, n), 0))]
    add(Contract('(*%s).StructNonExtern' % R, root=True, nparams=2, props=PROPS, requires=lambda C: VALID(C) + tree(C), ensures=defined))

    # ---- loops
    def marrs(L, m, heap=None):
        h = heap or L.st.heap
        return L.S.mapdom(L.st, m, h), L.S.mapvals(L.st, m, h)[0]

    def field(L, r, name, heap):
        from gvc.core import Ptr
        for i, f in enumerate(prog.fields(r.t)):
            if f['name'] == name:
                return L.S.load(L.st, Ptr(r.root, r.T, r.ref, r.idx, r.path + (i,), f['type']), heap=heap)
    for k in KINDS:
        lt = 'rng []*ast.' + k.K

        def tpl(name, roles, fn, k=k):
            env.templates.append(Template(name + '-' + k.K, (P,), roles, fn))

        def sofar(L, s, m, k=k):
            a = L.arrs(s)
            hi = z3.simplify(s.off + L.k)
            return [k.exact(ALL, marrs(L, m), a[0], s.off, hi)]
        tpl('table-so-far', [('s', lt), ('m', 'vis ' + k.mapt)], sofar)
        tpl('no-repeats', [('s', lt)], lambda L, s, k=k: [z3.Not(k.dup(L.arrs(s), s.off, z3.simplify(s.off + L.k)))])

        def copying(L, r, k=k):
            its = [it for it in L.st.ghost.get('$active', ()) if prog.tstr(prog.under(it.obj.t)) == k.mapt]
            if not its:
                raise Unsupported('no traversal of a table')
            it = its[-1]
            m, m0 = field(L, r, k.table, L.st.heap), field(L, r, k.table, it.heap)
            d, v = marrs(L, m0, it.heap)
            dl, vl = marrs(L, it.obj, it.heap)
            seen = L.st.ghost[it.key]
            return [k.overlay(ALL, [*marrs(L, m), d, v, dl, vl, seen])]
        tpl('resolver-so-far', [('r', 'vis *' + R)], copying)

        def direct(L, s, r, k=k):
            m, m0 = field(L, r, k.table, L.st.heap), field(L, r, k.table, L.entry.heap)
            d, v = marrs(L, m0, L.entry.heap)
            a, hi = L.arrs(s), z3.simplify(s.off + L.k)
            return [k.over(ALL, [*marrs(L, m), d, v], a[0], s.off, hi), z3.Not(k.clash(a, s.off, hi, d, v))]
        tpl('resolver-so-far-direct', [('s', lt), ('r', 'vis *' + R)], direct)

        def noclash(L, r, k=k):
            its = [it for it in L.st.ghost.get('$active', ()) if prog.tstr(prog.under(it.obj.t)) == k.mapt]
            if not its:
                raise Unsupported('no traversal of a table')
            it = its[-1]
            m0 = field(L, r, k.table, it.heap)
            d, v = marrs(L, m0, it.heap)
            return [noclash_[k.K](ALL, [d, v, *marrs(L, it.obj, it.heap), L.st.ghost[it.key]])]
        tpl('no-clash', [('r', 'vis *' + R)], noclash)
        FS = 'rng []*ast.File'
        tpl('files-so-far', [('s', FS), ('r', 'vis *' + R)], lambda L, s, r, k=k: [
            k.held(ALL, marrs(L, field(L, r, k.table, L.st.heap)), L.arrs(s)[0], s.off, z3.simplify(s.off + L.k))])
        tpl('entries-set', [('r', 'vis *' + R)], lambda L, r, k=k: [k.set(*[f(x) for f, x in zip(
            (lambda d: d, lambda v: [v]), marrs(L, field(L, r, k.table, L.st.heap)))])])
    env.templates.append(Template('files-good', (P,), [('s', FS)], lambda L, s: [z3.Not(badfiles(L.arrs(s), s.off, z3.simplify(s.off + L.k)))]))


noclash_ = {}
for _k in KINDS:
    noclash_[_k.K] = MapAll('noclash' + _k.K, Str, [B, I, B, I, B], [], lambda k, v, e, _k=_k: z3.Implies(
        z3.And(v[4], v[0]), z3.Not(_k.stop(v[1], v[3])) if _k.K != 'Constant' else v[1] == v[3]))
