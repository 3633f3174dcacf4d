"""Contracts for the pieces test vectors are made of (property C07): encoders, random strings and byte strings, products.

The recursion over the definitions that puts them together is out of reach here and only searched; see checks/c07.py.
"""
import z3
from gvc.core import I, B, SliceV, MapV, Unsupported, fresh_const
from gvc.spec import Contract, Template, new_error, random_invoker

P = 'tv'
G_ = '(*tv.generator).'
VS = '[]tv.Vector'
BS = '[]byte'
T = z3.BoolVal(True)


def digit(x, i):
    """x without its last i bytes, for i up to 8"""
    e = x / 256 ** 8
    for k in range(7, -1, -1):
        e = z3.If(i == k, x / 256 ** k if k else x, e)
    return e


# product of numbers that are not negative; its facts are given where they are needed, which keeps products away from the solver
mul = z3.Function('product', I, I, I)


def facts(n, k, i):
    """true of products with n, for k and i not negative"""
    return [mul(0, n) == 0, mul(1, n) == n, mul(k + 1, n) == mul(k, n) + n, mul(k, n) >= 0, mul(i, n) >= 0,
            z3.Implies(i < k, mul(i, n) + n <= mul(k, n)), z3.Implies(k < i, mul(k, n) + n <= mul(i, n))]


def merge(S, args, st, stack, ins, caller):
    """a new store or an error; C06 shows that nothing else changes"""
    t = S.prog.tid('tv.Constraints')
    bad, ok = st.copy(), st
    r = S.newref(ok)
    ts = S.tuple_types(ins) if hasattr(S, 'tuple_types') else None
    nil = S.zero(S.prog.tid('error'))
    return [('ret', ok, [MapV(r, t), nil]), ('ret', bad, [MapV(z3.IntVal(0), t), new_error(S, bad)])]


ROLES = {'resolver': '*inspect.Resolver', 'constraints': 'tv.Constraints', 'strct': '*ast.Struct', 'selector': 'tv.Selector', 'rnd': 'random.Interface'}


def places(prog):
    """the fields of the generator by what they hold, whatever they are called; None when one is missing"""
    if 'tv.generator' not in prog.tindex:
        return None
    fs = prog.fields(prog.tid('tv.generator'))
    out = {r: [f['name'] for f in fs if prog.tstr(f['type']).endswith(t)] for r, t in ROLES.items()}
    return {r: ns[0] for r, ns in out.items()} if all(len(ns) == 1 for ns in out.values()) else None


def setup(env):
    prog = env.prog
    where = places(prog)
    rnd = (where or {'rnd': 'rnd'})['rnd']
    PROPS = ['C07']

    def add(name, n, **kw):
        fn = prog.funcs.get(name)
        # a helper that is gone, or takes other parameters, is covered by the search only
        if fn is not None and fn.has_body and len(fn.params) == n:
            env.add(Contract(name, root=True, nparams=n, props=PROPS, **kw))
    env.phi_refs = 'phis'
    env.invokers.append(random_invoker)
    env.externals['(tv.Constraints).Merge'] = merge
    fresh = lambda C, r: ('storage of its own', z3.Or(r.len == 0, r.ref >= C.old.alloc))
    byte = lambda C, s, i, old=False: z3.Select(C.arrs(s, old)[0], z3.simplify(s.off + i))
    src = lambda C: ('there is a source', C.field(C.args[0], rnd, True).tid != 0)
    there = lambda C: ('the generator is given', C.args[0].ref != 0)
    wide = lambda b: z3.Or(*[b == w for w in (8, 16, 32, 64)])

    # ---- integers
    def be(C):
        x, bits = C.args
        r, j = C.res[0], C.ghosts['j']
        n = bits / 8
        return [('as many bytes as declared', r.len == n), fresh(C, r),
                ('big-endian', z3.Implies(j < n, byte(C, r, z3.simplify(n - 1 - j)) == digit(x, j) % 256))]
    add(P + '.intbytes', 2, ghosts=[('j', 'nat')], requires=lambda C: [('a width of whole bytes', wide(C.args[1]))], ensures=be)
    add(G_ + 'randint', 2, requires=lambda C: [there(C), src(C), ('a width of whole bytes', wide(C.args[1]))],
        ensures=lambda C: [('as many bytes as declared', C.res[0].len == C.args[1] / 8), fresh(C, C.res[0])])

    # ---- random lengths and strings
    within = lambda C: [there(C), src(C), ('bounds in order', z3.And(0 <= C.args[1], C.args[1] <= C.args[2], C.args[2] < 2 ** 20))]
    add(G_ + 'randbtw', 3, requires=within, ensures=lambda C: [('between the bounds', z3.And(C.args[1] <= C.res[0], C.res[0] <= C.args[2]))])
    add(G_ + 'randbytes', 3, requires=within, ensures=lambda C: [
        ('length between the bounds', z3.And(C.args[1] <= C.res[0].len, C.res[0].len <= C.args[2])), fresh(C, C.res[0])])

    def nul(C):
        r, j = C.res[0], C.ghosts['j']
        return [('length between the bounds', z3.And(C.args[1] + 1 <= r.len, r.len <= C.args[2] + 1)), fresh(C, r),
                ('ends in NUL', byte(C, r, r.len - 1) == 0),
                ('no NUL before the end', z3.Implies(j < r.len - 1, byte(C, r, j) != 0))]
    add(G_ + 'randnulterm', 3, ghosts=[('j', 'nat')], requires=within, ensures=nul)

    # ---- vectors
    def data(v):
        return v.vals[0]

    def cat(view, r, u, w, x, old):
        """bytes of r are those of u and then those of w, as of the call"""
        d, a, b = data(r), data(u), data(w)
        return z3.And(d.len == a.len + b.len,
                      z3.Implies(x < a.len, view(d, x) == old(a, x)), z3.Implies(x < b.len, view(d, a.len + x) == old(b, x)))
    GX = [('i', 'nat'), ('j', 'nat'), ('x', 'nat')]

    def product(C):
        a, b = C.args
        r, i, j, x = C.res[0], C.ghosts['i'], C.ghosts['j'], C.ghosts['x']
        ok = C.res[1].tid == 0
        at = z3.And(ok, i < a.len, j < b.len)
        return [('one for every pair', z3.Implies(ok, r.len == mul(a.len, b.len))),
                ('the bytes of the first and then those of the second', z3.Implies(at, cat(
                    lambda s, q: byte(C, s, q), C.elem(r, mul(i, b.len) + j), C.elem(a, i, True), C.elem(b, j, True), x, lambda s, q: byte(C, s, q, True))))]
    add(P + '.cross', 2, ghosts=GX, requires=lambda C: [('a product that fits in memory', C.args[0].len * C.args[1].len < 2 ** 20)], ensures=product)

    # ---- loops
    def tpl(name, scope, roles, fn, **kw):
        env.templates.append(Template(name, (P,), roles, fn, **kw))

    def need(L, *names):
        if any(n not in L.ghosts for n in names):
            raise Unsupported('another function')
    at = lambda L, s, i: z3.Select(L.arrs(s)[0], z3.simplify(s.off + i))
    named = lambda L, n: L.S.fn.name.endswith(n)

    def shifted(L, x):
        if not named(L, '.intbytes'):
            raise Unsupported('another function')
        return [x == digit(L.S.args[0], L.k), L.k <= 8]
    tpl('shifted', 0, [('x', 'phi int64')], shifted)

    def digits(L, b):
        if not named(L, '.intbytes'):
            raise Unsupported('another function')
        n, j = L.S.args[1] / 8, L.ghosts['j']
        return [z3.Implies(z3.And(j < L.k, j < n), at(L, b, z3.simplify(n - 1 - j)) == digit(L.S.args[0], j) % 256)]
    tpl('digits', 0, [('b', 'any ' + BS)], digits)

    def leading(L, b):
        if not named(L, '.intbytes'):
            raise Unsupported('another function')
        n, j = L.S.args[1] / 8, L.ghosts['j']
        return [z3.Implies(z3.And(j < n, n - 1 - j < L.k), at(L, b, z3.simplify(n - 1 - j)) == digit(L.S.args[0], j) % 256)]
    tpl('leading', 0, [('b', 'any ' + BS)], leading)

    def letters(L, b):
        if not named(L, '.randnulterm'):
            raise Unsupported('another function')
        j = L.ghosts['j']
        return [z3.Implies(j < L.k, at(L, b, j) != 0)]
    tpl('letters', 0, [('b', 'any ' + BS)], letters)

    def ended(L, b):
        if not named(L, '.randnulterm'):
            raise Unsupported('another function')
        return [at(L, b, z3.simplify(b.len - 1)) == 0]
    tpl('ended', 0, [('b', 'any ' + BS)], ended)

    def know(L, k):
        n = L.S.args[1].len
        L.st.assume(*[z3.Implies(k >= 0, f) for f in facts(n, k, L.ghosts['i'])])

    def rows(L, p):
        if not named(L, '.cross'):
            raise Unsupported('another function')
        know(L, L.k)
        return [p.len == mul(L.k, L.S.args[1].len)]
    tpl('rows', 0, [('p', 'any ' + VS)], rows)

    def columns(L, p, o):
        if not named(L, '.cross'):
            raise Unsupported('another function')
        know(L, o)
        return [p.len == mul(o, L.S.args[1].len) + L.k]
    tpl('columns', 0, [('p', 'any ' + VS), ('o', 'vis int')], columns)

    def pairs(L, p):
        if not named(L, '.cross'):
            raise Unsupported('another function')
        a, b = L.S.args
        i, j, x = (L.ghosts[n] for n in 'ijx')
        know(L, L.k)
        pos = mul(i, b.len) + j
        C = L.root
        byte0 = lambda s, q: z3.Select(C.arrs(s, True)[0], z3.simplify(s.off + q))
        return [z3.Implies(z3.And(i < a.len, j < b.len, pos < p.len), cat(
            lambda s, q: at(L, s, q), L.elem(p, pos), C.elem(a, i, True), C.elem(b, j, True), x, byte0))]
    tpl('pairs', 0, [('p', 'any ' + VS)], pairs)
