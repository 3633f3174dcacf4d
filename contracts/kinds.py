"""Contracts for the kinds of fields of test vectors (property C07): a field is made the way its declared type says.

Functions that make a kind of field are seen through what they are asked for and what they return: the last call is remembered
as the ghost `made` (which function, its arguments and its result).  The contracts of the resolver and of the stores of
constraints are proved by the checks of C04 and C06.
"""
import copy
import z3
from gvc.core import I, Ptr, Unsupported, fresh_const, lit
from gvc.spec import Contract, random_invoker
from . import astspec as A
from . import values as V
from . import intervals as IV, resolver, constraints
from .constraints import View
from .vectors import places, G_, P
from .resolver import KINDS, extern

NONE = z3.IntVal(-1)


def setup(env, whole=False):
    prog = env.prog
    where = places(prog)
    if where is None:
        return
    held = lambda C, role, old=True: C.field(C.args[0], where[role], old)
    for m in (IV, resolver, V, constraints):
        m.setup(env)
    for c in env.contracts.values():
        c.trusted, c.props = True, []
    env.invokers.append(random_invoker)
    env.phi_refs = 'phis'
    have = lambda n, k: n in prog.funcs and prog.funcs[n].has_body and len(prog.funcs[n].params) == k

    def add(n, k, **kw):
        if have(n, k):
            env.add(Contract(n, nparams=k, props=['C07'], **kw))
    tag = lambda t: prog.tid('*ast.' + t) + 1
    there = lambda C: ('the generator is given', C.args[0].ref != 0)
    ok = lambda C: C.res[-1].tid == 0
    own = lambda C, r: ('storage of its own', z3.Or(r.len == 0, r.ref >= C.old.alloc))
    byte = lambda C, s, i: z3.Select(C.arrs(s)[0], z3.simplify(s.off + i))

    # ---- what the parts may change
    leaves = [l for l, _, _ in A._H[0].leaves(prog.tid('tv.generator'))]
    at = [('O', 'tv.generator', i) for i, l in enumerate(leaves) if l.split('.')[1] == where['constraints']]
    inner = prog.tstr(prog.elem(prog.tid('tv.Constraints')))
    stores = {(k, t) + x for t in ('tv.Constraints', inner) for k, x in (('MD', ()), ('MV', (0,)))}
    vecs = {('E', 'byte', 0)} | {('E', 'tv.Vector', i) for i in range(len(A._H[0].leaves(prog.tid('tv.Vector'))))}

    # ---- parts
    PARTS = {'intType': (3, 1), 'array': (3, 2), 'structure': (2, 3), 'union': (2, 4), 'members': (3, 5), 'field': (2, 6)}

    def flat(a):
        if isinstance(a, Ptr):
            return [a.ref]
        if hasattr(a, 'tid'):
            return [a.tid, a.pay]
        if hasattr(a, 'len'):
            return [a.ref, a.len]
        return [a]

    def remember(n):
        def shape(C, res):
            g = C.st.ghost
            if 'made' not in g:
                return
            ints = [x for a in C.args[1:] for x in flat(a) if x.sort() == I]
            if n == 'array':
                ints = ints[:4]
            g['made'] = z3.IntVal(PARTS[n][1])
            g['strct'] = held(C, 'strct').ref
            for k, x in zip('abcd', ints + [NONE] * 4):
                g[k] = x
            for a in C.args[1:]:
                if z3.is_expr(a) and a.sort() != I:
                    g['str'] = a
            g['ref'], g['len'] = res[0].ref, res[0].len
        return shape

    def part(n):
        add(G_ + n, PARTS[n][0], trusted=True, modifies='any', shape=remember(n), touches=lambda S: set(at) | stores | vecs,
            doc='asked for by the declared type; the struct at hand is the same afterwards')

    def begin(C):
        g = C.st.ghost
        for k in ('made', 'strct', 'a', 'b', 'c', 'd', 'ref', 'len'):
            g[k] = NONE
        g['str'] = lit('')

    def by(C, n, *want, **kw):
        """the result is what function n made of these arguments"""
        if not have(G_ + n, PARTS[n][0]):
            return z3.BoolVal(True)
        g, r = C.st.ghost, C.res[0]
        fs = [g['made'] == PARTS[n][1], r.len == g['len'], z3.Or(r.len == 0, r.ref == g['ref'])]
        fs += [g[k] == x for k, x in zip('abcd', want) if x is not None]
        if 'name' in kw:
            fs.append(g['str'] == kw['name'])
        return z3.And(*fs)

    def resolverof(C):
        D = copy.copy(C)
        D.args = [held(C, 'resolver')]
        return D
    around = lambda C: [there(C), ('there is a source', held(C, 'rnd').tid != 0)] + V.valid(resolverof(C)) + V.tree(C)

    # ---- fields
    FT = lambda f: (A.fld('ast.Field', '.Type.tid')(f), A.fld('ast.Field', '.Type.pay')(f))
    at2 = lambda T, n, x: (A.fld('ast.' + T, '.%s.tid' % n)(x), A.fld('ast.' + T, '.%s.pay' % n)(x))

    def one(C):
        r, store = C.res[0], held(C, 'constraints')
        data, cs = C.elem(r, z3.IntVal(0)).vals
        return r.len == 1, data, cs.ref == store.ref

    def kinds(C):
        f = C.args[1].ref
        t, p = FT(f)
        name = A.fld('ast.Field', '.Name')(f)
        single, data, same = one(C)
        j = C.ghosts['j']
        d, v = V.table(resolverof(C), KINDS[0])
        is_ = lambda T: z3.And(ok(C), t == tag(T))
        sn = A.fld('ast.StructRef', '.Name')(p)
        out = [('a pointer takes no bytes', z3.Implies(is_('Ptr'), z3.And(single, data.len == 0, same))),
               ('a string ends in its only NUL', z3.Implies(is_('NulTermString'), z3.And(
                   single, same, data.len > 0, byte(C, data, data.len - 1) == 0, z3.Implies(j < data.len - 1, byte(C, data, j) != 0)))),
               ('an integer of its type', z3.Implies(is_('IntType'), by(C, 'intType', p, name=name))),
               ('a character is an integer', z3.Implies(is_('CharType'), by(C, 'intType', name=name))),
               ('a nested struct is the one named', z3.Implies(is_('StructRef'), z3.And(
                   by(C, 'structure', z3.Select(v, sn)), z3.Select(d, sn), z3.Not(extern(z3.Select(v, sn)))))),
               ('an array of its base and size', z3.Implies(is_('FixedArrayMember'), by(
                   C, 'array', *(at2('FixedArrayMember', 'Base', p) + at2('FixedArrayMember', 'Size', p))))),
               ('an array of its base and count', z3.Implies(is_('VarArrayMember'), by(
                   C, 'array', *(at2('VarArrayMember', 'Base', p) + at2('VarArrayMember', 'Constraint', p)))))]
        return out

    def nul(C):
        r, j = C.res[0], C.ghosts['j']
        return [('length', z3.And(C.args[1] + 1 <= r.len, r.len <= C.args[2] + 1)), own(C, r), ('ends in NUL', byte(C, r, r.len - 1) == 0),
                ('no NUL before the end', z3.Implies(j < r.len - 1, byte(C, r, j) != 0))]
    within = lambda C: [there(C), ('bounds in order', z3.And(0 <= C.args[1], C.args[1] <= C.args[2], C.args[2] < 2 ** 20))]
    add(G_ + 'randnulterm', 3, trusted=True, shown=True, ghosts=[('j', 'nat')], requires=within, ensures=nul)
    add(G_ + 'randbytes', 3, trusted=True, shown=True, requires=within, ensures=lambda C: [
        ('length', z3.And(C.args[1] <= C.res[0].len, C.res[0].len <= C.args[2])), own(C, C.res[0])])
    for n in PARTS:
        part(n)
    root = dict(root=True, ghosts=[('j', 'nat')], prepare=begin, modifies='any')
    if not whole:
        given = ('IntType', 'CharType', 'Ptr', 'NulTermString', 'StructRef', 'FixedArrayMember', 'VarArrayMember')
        add(G_ + 'field', 2, ensures=kinds, requires=lambda C: around(C) + [
            ('the field is given', A.node(C.args[1].ref)), ('its type is given', z3.Implies(
                z3.Or(*[FT(C.args[1].ref)[0] == tag(t) for t in given]), A.node(FT(C.args[1].ref)[1])))], **root)
        return

    # ---- members and structs
    def member(C):
        m, r = C.args[1], C.res[0]
        single, data, same = one(C)
        is_ = lambda T: z3.And(ok(C), m.tid == tag(T))
        return [('a field by its type', z3.Implies(is_('Field'), by(C, 'field', m.pay))),
                ('a union as such', z3.Implies(is_('UnionMember'), by(C, 'union', m.pay))),
                ('nothing after the end', z3.Implies(is_('EOS'), z3.And(single, data.len == 0, same))),
                ('nothing passes a failure', z3.Implies(is_('Fail'), r.len == 0))]
    add(G_ + 'member', 2, ensures=member, requires=around, **root)

    def struct(C):
        g, s = C.st.ghost, C.args[1].ref
        lo = A.fld('ast.Struct', '.Members.ref')(s), A.fld('ast.Struct', '.Members.len')(s)
        return [('its members', z3.Implies(ok(C), by(C, 'members', None, z3.IntVal(1), *lo))),
                ('references are to its own fields', z3.Implies(z3.And(ok(C), have(G_ + 'members', 3)), g['strct'] == s)),
                ('the struct around it is back', z3.Implies(ok(C), held(C, 'strct', False).ref == held(C, 'strct').ref))]
    add(G_ + 'structure', 2, ensures=struct, requires=lambda C: around(C) + [
        ('the struct is given', A.node(C.args[1].ref)),
        ('the store is valid', View(C.S, C.st, C.old.heap).wf(held(C, 'constraints')))], **root)

    def loaded(S, st, p, t, v, terms):
        """stores held by vectors and by the generator are valid: every operation on stores keeps them so (C06)"""
        if prog.tstr(t) != 'tv.Constraints' or not S.fn.name.endswith('.structure'):
            return []
        S.trusted.add('stores held by vectors are valid')
        return [View(S, st, st.heap).wf(v), v.ref != 0]
    env.loadhook = loaded


def wholes(env):
    setup(env, True)
