"""Contracts for the constraint store of package tv (property C06).

A store is a map of maps.  look(c, s, k) is the binding of name k in scope s.  Every scope's inner map belongs to that scope
and store alone (wfc): this is what keeps two scopes, or a store and its clone, from sharing storage.
"""
import z3
from gvc.core import I, B, Str, MapV, IfaceV, Unsupported, mapowner, mapownkey, lit, fresh_const
from gvc.fold import MapAll
from gvc.spec import Contract, Template
from gvc import core

P = 'tv'
CT = 'tv.Constraints'
T, F = z3.BoolVal(True), z3.BoolVal(False)

owned = MapAll('owned', Str, [I], [I], lambda k, v, e: z3.And(v[0] != 0, mapowner(v[0]) == e[0], mapownkey(v[0]) == k))
SA = z3.ArraySort(Str, B), z3.ArraySort(Str, I)
keptornew = MapAll('keptornew', Str, [I], [SA[0], SA[1], I],
                   lambda k, v, e: z3.Or(v[0] >= e[2], z3.And(z3.Select(e[0], k), z3.Select(e[1], k) == v[0])))
allnew = MapAll('allnew', Str, [I], [I], lambda k, v, e: v[0] >= e[0])


class View:
    """a heap in which stores are looked at"""

    def __init__(self, S, st, heap):
        self.S, self.st, self.heap = S, st, heap

    def dom(self, m):
        return self.S.mapdom(self.st, m, self.heap)

    def vals(self, m):
        return self.S.mapvals(self.st, m, self.heap)

    def inner(self, c, s):
        a = self.vals(c)[0]
        b = self.S.lastbound
        r = z3.Select(a, s)
        if b is not None:
            self.st.assume(z3.Implies(z3.And(c.ref != 0, z3.Select(self.dom(c), s)), z3.And(r >= 0, r < b)))
        return MapV(r, self.S.prog.elem(c.t))

    def look(self, c, s, k):
        i = self.inner(c, s)
        return z3.And(c.ref != 0, z3.Select(self.dom(c), s), i.ref != 0, z3.Select(self.dom(i), k)), z3.Select(self.vals(i)[0], k)

    def wf(self, c):
        return z3.Or(c.ref == 0, z3.And(owned(self.dom(c), self.vals(c), c.ref)))

    def refs_ok(self, c, alloc):
        return None


def same(a, b):
    """two optional values are equal"""
    return z3.And(a[0] == b[0], z3.Implies(a[0], a[1] == b[1]))


def conflict(a, b):
    return z3.And(a[0], b[0], a[1] != b[1])


def merged(a, b):
    return z3.Or(a[0], b[0]), z3.If(b[0], b[1], a[1])


def setup(env):
    prog = env.prog
    add = env.add
    PROPS = ['C06', 'C07']
    try:
        ct = prog.tid(CT)
    except Exception:
        ct = None
    inner_t = prog.tstr(prog.elem(ct))
    NM = '(' + CT + ').'

    def now(C):
        return View(C.S, C.st, C.st.heap)

    def old(C):
        return View(C.S, C.st, C.old.heap)
    SG, KG = (lambda C: C.ghosts['s']), (lambda C: C.ghosts['k'])
    G = [('s', 'str'), ('k', 'str')]

    def ok(C, i=None):
        return C.res[-1].tid == 0

    def wit(C):
        """the pair being looked at when the function gave up"""
        ik = C.st.ghost.get('$iterkey', {})
        s = [k for m, k in ik.values() if prog.tstr(prog.under(m.t)) == prog.tstr(prog.under(ct))]
        k = [k for m, k in ik.values() if prog.tstr(m.t) == inner_t]
        return (s[-1], k[-1]) if s and k else None

    def proving(C):
        return C.S.fn is C.fn and C.S.contract is C.ct

    def W_outer(C, c):
        return [(('MD', t), c.ref) for t in {prog.tstr(c.t), CT}] + [(('MV', t, 0), c.ref) for t in {prog.tstr(c.t), CT}]

    def W_inner(C, x):
        return [(('MD', inner_t), x), (('MV', inner_t, 0), x)]

    def store_ok(C, c):
        return [('store is valid', z3.And(c.ref != 0, old(C).wf(c)))]

    def arr2(v, c):
        return v.dom(c), v.vals(c)[0]

    # ---- lookups
    def lookup(key):
        def ens(C):
            p, v = old(C).look(C.args[0], *key(C))
            return [('found exactly when set', C.res[1] == p), ('value', C.res[0] == z3.If(p, v, 0))]
        return ens
    VALID = lambda C: [('store is valid', old(C).wf(C.args[0]))]
    ref = lambda C: (C.field(C.args[1], 'Scope', True), C.field(C.args[1], 'Name', True))
    reff = lambda C: [('reference is given', C.args[1].ref != 0)]
    add(Contract(P + '.NewConstraints', root=True, nparams=0, props=PROPS, ensures=lambda C: [
        ('new and empty', z3.And(C.res[0].ref >= C.old.alloc, now(C).dom(C.res[0]) == z3.K(Str, F))),
        ('valid', now(C).wf(C.res[0]))]))
    add(Contract(NM + 'Lookup', root=True, nparams=3, props=PROPS, ensures=lookup(lambda C: (C.args[1], C.args[2]))))
    add(Contract(NM + 'LookupLocal', root=True, nparams=2, props=PROPS, ensures=lookup(lambda C: (lit(''), C.args[1]))))
    add(Contract(NM + 'LookupRef', root=True, nparams=2, props=PROPS, requires=reff, ensures=lookup(ref)))

    # ---- setting
    def effect(C, c, s, k, v, okay):
        """binding s.k becomes v when okay, nothing else changes"""
        g = SG(C), KG(C)
        here = z3.And(g[0] == s, g[1] == k)
        o, n = old(C), now(C)
        return [('the binding is stored', z3.Implies(okay, z3.And(n.look(c, s, k)[0], n.look(c, s, k)[1] == v))),
                ('no other binding changes', z3.Implies(z3.Or(z3.Not(here), z3.Not(okay)), same(o.look(c, *g), n.look(c, *g)))),
                ('store stays valid', n.wf(c)),
                ('scopes keep their maps or get new ones', keptornew(n.dom(c), n.vals(c), *arr2(o, c), C.old.alloc))]

    def set_ens(key, val):
        def ens(C):
            c, (s, k), v = C.args[0], key(C), val(C)
            o = old(C).look(c, s, k)
            return [('refused exactly on a different value', ok(C) == z3.Not(z3.And(o[0], o[1] != v)))] + effect(C, c, s, k, v, ok(C))
        return ens

    def set_W(key):
        def W(C):
            c, (s, k) = C.args[0], key(C)
            o = old(C)
            d, i = z3.Select(o.dom(c), s), o.inner(c, s).ref
            return W_outer(C, c) + W_inner(C, lambda r: z3.And(d, r == i))
        return W
    k12 = lambda C: (C.args[1], C.args[2])
    add(Contract(NM + 'Set', root=True, nparams=4, ghosts=G, props=PROPS, requires=lambda C: store_ok(C, C.args[0]),
                 ensures=set_ens(k12, lambda C: C.args[3]), modifies=set_W(k12)))
    add(Contract(NM + 'SetRef', root=True, nparams=3, ghosts=G, props=PROPS, requires=lambda C: store_ok(C, C.args[0]) + reff(C),
                 ensures=set_ens(ref, lambda C: C.args[2]), modifies=set_W(ref)))

    def loc_ens(key, val):
        def ens(C):
            c, (s, k), v = C.args[0], key(C), val(C)
            o = old(C).look(c, s, k)
            w = z3.If(o[0], o[1], v)
            return [('existing value or the new one', C.res[0] == w)] + effect(C, c, s, k, w, T)
        return ens
    add(Contract(NM + 'LookupOrCreate', root=True, nparams=4, ghosts=G, props=PROPS, requires=lambda C: store_ok(C, C.args[0]),
                 ensures=loc_ens(k12, lambda C: C.args[3]), modifies=set_W(k12)))
    add(Contract(NM + 'LookupOrCreateRef', root=True, nparams=3, ghosts=G, props=PROPS,
                 requires=lambda C: store_ok(C, C.args[0]) + reff(C), ensures=loc_ens(ref, lambda C: C.args[2]), modifies=set_W(ref)))

    # ---- clearing
    def clear(scope):
        def ens(C):
            c, s, g = C.args[0], scope(C), (SG(C), KG(C))
            o, n = old(C), now(C)
            return [('the scope is gone', z3.Implies(g[0] == s, z3.Not(n.look(c, *g)[0]))),
                    ('other scopes are kept', z3.Implies(g[0] != s, same(o.look(c, *g), n.look(c, *g)))),
                    ('store stays valid', n.wf(c)),
                    ('scopes keep their maps', z3.Or(c.ref == 0, keptornew(n.dom(c), n.vals(c), *arr2(o, c), C.old.alloc)))]
        return ens
    for nm, np, sc in (('ClearScope', 2, lambda C: C.args[1]), ('ClearLocal', 1, lambda C: lit(''))):
        add(Contract(NM + nm, root=True, nparams=np, ghosts=G, props=PROPS, requires=VALID, ensures=clear(sc),
                     modifies=lambda C: W_outer(C, C.args[0])))

    # ---- update, clone, merge
    def clash(C, a, b):
        """on failure some name is bound to different values by a and b"""
        if proving(C):
            w = wit(C)
            g = SG(C), KG(C)
            return T if w is None and z3.is_true(z3.simplify(ok(C))) else z3.Implies(
                z3.And(w[0] == g[0], w[1] == g[1]) if w is not None else T, conflict(old(C).look(a, *g), old(C).look(b, *g)))
        w = fresh_const('ws', Str), fresh_const('wk', Str)
        C.st.ghost['$clash'] = w
        return conflict(old(C).look(a, *w), old(C).look(b, *w))

    def upd_ens(C):
        c, d = C.args
        g = SG(C), KG(C)
        a, b = old(C).look(c, *g), old(C).look(d, *g)
        n = now(C)
        return [('holds the bindings of both', z3.Implies(ok(C), same(n.look(c, *g), merged(a, b)))),
                ('succeeds only without disagreement', z3.Implies(ok(C), z3.Not(conflict(a, b)))),
                ('fails only on disagreement', z3.Implies(z3.Not(ok(C)), clash(C, c, d))),
                ('store stays valid', n.wf(c)),
                ('scopes keep their maps or get new ones', keptornew(n.dom(c), n.vals(c), *arr2(old(C), c), C.old.alloc))]
    mine = lambda c: lambda r: mapowner(r) == c.ref
    add(Contract(NM + 'Update', root=True, nparams=2, ghosts=G, props=PROPS,
                 requires=lambda C: store_ok(C, C.args[0]) + [('other store is valid', old(C).wf(C.args[1])),
                                                              ('stores are different', C.args[0].ref != C.args[1].ref)],
                 ensures=upd_ens, modifies=lambda C: W_outer(C, C.args[0]) + W_inner(C, mine(C.args[0]))))

    def new_store(C, r):
        return [('new storage throughout', z3.And(r.ref >= C.old.alloc, allnew(now(C).dom(r), now(C).vals(r), C.old.alloc))),
                ('valid', now(C).wf(r))]
    add(Contract(NM + 'Clone', root=True, nparams=1, ghosts=G, props=PROPS, requires=VALID, ensures=lambda C: [
        ('same bindings', same(now(C).look(C.res[0], SG(C), KG(C)), old(C).look(C.args[0], SG(C), KG(C))))] + new_store(C, C.res[0])))

    def cg(C):
        a = old(C).look(C.args[0], SG(C), KG(C))
        return [('same bindings outside the local scope', same(now(C).look(C.res[0], SG(C), KG(C)), (z3.And(SG(C) != lit(''), a[0]), a[1])))
                ] + new_store(C, C.res[0])
    add(Contract(NM + 'CloneGlobal', root=True, nparams=1, ghosts=G, props=PROPS, requires=VALID, ensures=cg))

    def mrg(C):
        g = SG(C), KG(C)
        a, b = old(C).look(C.args[0], *g), old(C).look(C.args[1], *g)
        r = C.res[0]
        return [('holds exactly the bindings of both', z3.Implies(ok(C), same(now(C).look(r, *g), merged(a, b)))),
                ('succeeds only without disagreement', z3.Implies(ok(C), z3.Not(conflict(a, b)))),
                ('no store with an error', z3.Implies(z3.Not(ok(C)), r.ref == 0))] + [
                (l, z3.Implies(ok(C), f)) for l, f in new_store(C, r)] + [
                ('fails only on disagreement', z3.Implies(z3.Not(ok(C)), mclash(C)))]

    def mclash(C):
        if not proving(C):
            return clash(C, C.args[0], C.args[1])
        w = C.st.ghost.get('$clash')
        g = SG(C), KG(C)
        t = T if w is None else z3.And(w[0] == g[0], w[1] == g[1])
        return z3.Implies(t, conflict(old(C).look(C.args[0], *g), old(C).look(C.args[1], *g)))
    add(Contract(NM + 'Merge', root=True, nparams=2, ghosts=G, props=PROPS, requires=lambda C: VALID(C) + [
        ('other store is valid', old(C).wf(C.args[1]))], ensures=mrg))

    # ---- loops over stores
    def frames(S, L, key):
        if key[0] not in ('MD', 'MV') or key[1] != inner_t:
            return []
        out = []
        for n, t in S.visible(L.fn, L.entry_regs, L.b):
            v = L.entry_regs.get(n)
            if isinstance(v, MapV) and prog.tstr(prog.under(v.t)) == prog.tstr(prog.under(ct)):
                out.append(('owned by ' + n, mine(v)))
        return out
    env.frames.append(frames)

    def tpl(name, roles, fn):
        env.templates.append(Template(name, (P,), roles, fn))
    rng = 'vis ' + CT

    def traversal(L, c):
        """the traversal of another store in progress, and that of one of its scopes"""
        outer = inner = None
        for it in L.st.ghost.get('$active', ()):
            if prog.tstr(prog.under(it.obj.t)) == prog.tstr(prog.under(ct)) and not it.obj.ref.eq(c.ref):
                outer, inner = it, None
            elif prog.tstr(it.obj.t) == inner_t:
                inner = it
        if outer is None or 's' not in L.ghosts:
            raise Unsupported('no traversal of a store')
        return outer, inner

    def upto(L, c, skip=lambda s: F):
        g = L.ghosts['s'], L.ghosts['k']
        outer, inner = traversal(L, c)
        o, n = View(L.S, L.st, outer.heap), View(L.S, L.st, L.st.heap)
        d = outer.obj
        a, b = o.look(c, *g), o.look(d, *g)
        seen = L.st.ghost[outer.key]

        def at(dn):
            dn = z3.And(dn, z3.Not(skip(g[0])))
            return [same(n.look(c, *g), (z3.Or(a[0], z3.And(dn, b[0])), z3.If(z3.And(dn, b[0]), b[1], a[1]))),
                    z3.Implies(dn, z3.Not(conflict(a, b)))]
        if inner is None or not here(L, inner):
            return at(z3.Select(seen, g[0]))
        m, cur = L.st.ghost['$iterkey'][outer.key]
        return at(z3.If(g[0] == cur, z3.Select(L.st.ghost[inner.key], g[1]), z3.Select(seen, g[0])))

    def here(L, it):
        """it is the iterator this loop advances, or that of an enclosing loop"""
        return it.id in L.entry_regs and L.entry_regs[it.id] is it
    tpl('store-so-far', [('c', rng)], upto)
    tpl('store-so-far-global', [('c', rng)], lambda L, c: upto(L, c, lambda s: s == lit('')))

    def before(L, c):
        """inside a traversal of one scope, a store that is left alone until the scope is complete"""
        outer, inner = traversal(L, c)
        if inner is None:
            raise Unsupported('no traversal of a scope')
        g = L.ghosts['s'], L.ghosts['k']
        return [same(View(L.S, L.st, L.st.heap).look(c, *g), View(L.S, L.st, L.entry.heap).look(c, *g))]
    tpl('store-as-before', [('c', rng)], before)

    def copying(L, m):
        """a new scope being filled from another"""
        k = L.ghosts['k']
        its = [it for it in L.st.ghost.get('$active', ()) if prog.tstr(it.obj.t) == inner_t and here(L, it)]
        if not its or its[-1].obj.ref.eq(m.ref):
            raise Unsupported('no traversal of a scope')
        it = its[-1]
        o, n = View(L.S, L.st, it.heap), View(L.S, L.st, L.st.heap)
        dn = z3.Select(L.st.ghost[it.key], k)
        at = lambda v, m: (z3.And(m.ref != 0, z3.Select(v.dom(m), k)), z3.Select(v.vals(m)[0], k))
        a, b = at(o, m), at(o, it.obj)
        return [same(at(n, m), (z3.Or(a[0], z3.And(dn, b[0])), z3.If(z3.And(dn, b[0]), b[1], a[1])))]
    tpl('scope-so-far', [('m', 'vis ' + inner_t)], copying)
    tpl('store-new', [('c', rng)], lambda L, c: [allnew(View(L.S, L.st, L.st.heap).dom(c), View(L.S, L.st, L.st.heap).vals(c), L.S.alloc0)])
    tpl('store-valid', [('c', rng)], lambda L, c: [View(L.S, L.st, L.st.heap).wf(c)])
    tpl('store-maps', [('c', rng)], lambda L, c: [keptornew(
        View(L.S, L.st, L.st.heap).dom(c), View(L.S, L.st, L.st.heap).vals(c),
        *[f(c) if i == 0 else f(c)[0] for i, f in enumerate((View(L.S, L.st, L.S.old0.heap).dom, View(L.S, L.st, L.S.old0.heap).vals))],
        L.S.alloc0)])
