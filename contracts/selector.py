"""Contracts for vector selection (property C17), on the compositions of exported functions in entry/tv."""
import z3
from gvc.core import I, B, SliceV, Unsupported, fresh_const
from gvc.fold import MapAll
from gvc.spec import Contract, Template, external

P = 'tv'
VS = '[]tv.Vector'
T = z3.BoolVal(True)

# a permutation of 0..n-1 held in an array: within range, and with an inverse
pinv = z3.Function('perm_inverse', I, I, I)
isperm = MapAll('isperm', I, [I], [I, I], lambda k, v, e: z3.Implies(
    z3.And(0 <= k, k < e[0]), z3.And(0 <= v[0], v[0] < e[0], pinv(e[1], v[0]) == k)))
ALLK = z3.K(I, T)


def perm_model(S, n, st):
    S.oblige(st, 'length of the permutation is not negative', n >= 0, 'safety')
    t = S.prog.tid('[]int')
    r = S.newref(st)
    arr = fresh_const('perm', z3.ArraySort(I, I))
    S.write(st, ('E', S.prog.tstr(S.prog.elem(t)), 0), r, arr)
    st.assume(isperm(ALLK, [arr], n, r))
    st.ghost['$perm'] = (arr, n)
    return [('ret', st, [SliceV(r, z3.IntVal(0), n, n, S.prog.elem(t))])]


@external('math/rand.Perm')
def x_perm(S, args, st, stack, ins, caller):
    return perm_model(S, args[0], st)


@external('(*math/rand.Rand).Perm')
def x_perm2(S, args, st, stack, ins, caller):
    return perm_model(S, args[1], st)


def setup(env):
    prog = env.prog
    for n in ('math/rand.Perm', '(*math/rand.Rand).Perm'):
        env.external_touches[n] = (lambda S: {('E', 'int', 0)},)

    def at(C, s, i, old=False):
        return [z3.Select(a, z3.simplify(s.off + i)) for a in C.arrs(s, old)]

    def eq(x, y):
        return z3.And(*[a == b for a, b in zip(x, y)])

    def whole(C, vs, r, c=T):
        q = C.ghosts['p']
        return [('every vector is kept', z3.Implies(c, r.len == vs.len)),
                ('in place and unaltered', z3.Implies(z3.And(c, q < vs.len), eq(at(C, r, q), at(C, vs, q, True))))]
    G = [('p', 'nat'), ('q', 'nat')]
    env.add(Contract(P + '.zzExhaustive', root=True, nparams=1, ghosts=G, props=['C17'], ensures=lambda C: whole(C, C.args[0], C.res[0])))

    def sample(C):
        n, vs = C.args
        r = C.res[0]
        g = [C.ghosts['p'], C.ghosts['q']]
        few = vs.len <= n
        perm = C.st.ghost.get('$perm')
        # where the vectors come from
        src = [z3.Select(perm[0], x) for x in g] if perm is not None else [z3.Int('any_p'), z3.Int('any_q')]
        inr = lambda x: z3.And(z3.Not(few), x < n)
        return whole(C, vs, r, few) + [
            ('exactly as many as asked for', z3.Implies(z3.Not(few), r.len == n)),
            ('each taken from the input', z3.Implies(inr(g[0]), z3.And(src[0] >= 0, src[0] < vs.len,
                                                                     eq(at(C, r, g[0]), at(C, vs, src[0], True))))),
            ('from distinct positions', z3.Implies(z3.And(inr(g[0]), inr(g[1]), g[0] != g[1]), src[0] != src[1]))]
    env.add(Contract(P + '.zzSample', root=True, nparams=2, ghosts=G, props=['C17'],
                     requires=lambda C: [('limit is not negative', C.args[0] >= 0)], ensures=sample))

    def tpl(name, roles, fn):
        env.templates.append(Template(name, (P,), roles, fn))

    def drawn(L, r, vs, count):
        perm = L.st.ghost.get('$perm')
        if perm is None:
            raise Unsupported('no permutation')
        out = []
        for q in ('p', 'q'):
            q = L.ghosts[q]
            A, V = L.arrs(r), L.arrs(vs)
            out.append(z3.Implies(z3.And(0 <= q, q < count), z3.And(*[
                z3.Select(a, z3.simplify(r.off + q)) == z3.Select(v, z3.simplify(vs.off + z3.Select(perm[0], q))) for a, v in zip(A, V)])))
        return out
    tpl('drawn-so-far', [('r', 'any ' + VS), ('vs', 'vis ' + VS)], lambda L, r, vs: drawn(L, r, vs, L.k))

    def copied(L, r, vs):
        q = L.ghosts['p']
        A, V = L.arrs(r), L.arrs(vs)
        return [z3.Implies(z3.And(0 <= q, q < L.k), z3.And(*[
            z3.Select(a, z3.simplify(r.off + q)) == z3.Select(v, z3.simplify(vs.off + q)) for a, v in zip(A, V)]))]
    tpl('copied-so-far', [('r', 'any ' + VS), ('vs', 'vis ' + VS)], copied)
