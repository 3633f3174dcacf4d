"""Contracts for the emitted corpus tests and fuzz entry points (property C16).

What is printed is ghost state.  A name printed right after the word Test, Fuzz or Parse is recorded as such; bytes printed
belong to the name printed last.  Everything is said about one arbitrary Go name n and one arbitrary byte string d, so about
all of them.  Vectors are counted, so that none may be dropped, repeated or handed to another type.
"""
import re
import z3
from gvc.core import I, B, Str, SliceV, IfaceV, Unsupported, strof, strlen, lit, fresh_const, strcat
from gvc.fold import Fold
from gvc.spec import Contract, Template, external, new_error
from gvc import core

P = 'gen'
T, F = z3.BoolVal(True), z3.BoolVal(False)
H = lambda k, s: z3.Function('H0_' + k, I, z3.ArraySort(I, s))
lower, camel = z3.Function('lower', Str, Str), z3.Function('camel', Str, Str)
goname = lambda t: camel(lower(t))
DOM = z3.ArraySort(Str, B)
size = z3.Function('maplen_tv.Constraints', DOM, I)
WORDS = ('Test', 'Fuzz', 'Parse')


def text0(v):
    return strof(H('E_byte_0', I)(v[0]), v[1], v[2])


LEAVES = 5
fixed = Fold('fixed', [I] * LEAVES, [], B, F, op=z3.Or, univ='any', elem=lambda v, e: size(
    z3.Function('H0_MD_tv.Constraints', I, DOM)(v[4])) > 0)
numV = Fold('numV', [I] * LEAVES, [Str], I, z3.IntVal(0), op=lambda a, b: a + b, elem=lambda v, e: z3.If(text0(v) == e[0], 1, 0))


def vecs(s):
    return [H('E_tv.Vector_%d' % i, I)(s[1]) for i in range(LEAVES)], s[2], s[2] + s[3]


def free(s, n):
    """a suite for the type n with no constraints"""
    return z3.And(goname(s[0]) == n, z3.Not(fixed(*vecs(s))))


anyF = Fold('anyF', [Str, I, I, I], [Str], B, F, op=z3.Or, univ='any', elem=lambda s, e: free(s, e[0]))
allF = Fold('allF', [Str, I, I, I], [], B, T, op=z3.And, univ='all', elem=lambda s, e: z3.Not(fixed(*vecs(s))))
numS = Fold('numS', [Str, I, I, I], [Str, Str], I, z3.IntVal(0), op=lambda a, b: a + b,
            elem=lambda s, e: z3.If(free(s, e[0]), numV(*vecs(s), e[1]), 0))


@external('strings.ToLower')
def x_lower(S, args, st, stack, ins, caller):
    r = lower(args[0])
    st.assume(strlen(r) >= 0, strlen(r) <= core.MAXLEN)
    return [('ret', st, [r])]


@external('github.com/serenize/snaker.SnakeToCamel')
def x_camel(S, args, st, stack, ins, caller):
    r = camel(args[0])
    st.assume(strlen(r) >= 0, strlen(r) <= core.MAXLEN)
    return [('ret', st, [r])]


def literal(x):
    for s, (c, _) in core._lits.items():
        if c.eq(x):
            return s
    return None


def parts(x):
    """a string as literal pieces and other terms"""
    x = z3.simplify(x)
    if z3.is_app(x) and x.decl().eq(strcat):
        return parts(x.arg(0)) + parts(x.arg(1))
    s = literal(x)
    return [s if s is not None else x]


def operands(S, st, sl):
    n = z3.simplify(sl.len)
    if not z3.is_int_value(n) or n.as_long() > 8:
        raise Unsupported('printing an unknown number of values')
    a = [S.read(st, S.ver(st.heap, ('E', S.prog.tstr(sl.elem), i)), sl.ref) for i in range(2)]
    out = []
    for q in range(n.as_long()):
        tid, pay = [z3.simplify(z3.Select(x, z3.simplify(sl.off + q))) for x in a]
        if not z3.is_int_value(tid) or not z3.is_app(pay):
            raise Unsupported('printing a value of unknown type')
        t = S.prog.tstr(tid.as_long() - 1)
        if pay.decl().name() != 'box_%s' % t:
            raise Unsupported('printing a value of type %s' % t)
        if t == 'string':
            out += [parts(pay.arg(0))]
        elif t in ('[]byte', '[]uint8'):
            out += [[SliceV(*pay.children(), S.prog.tid('byte'))]]
        else:
            raise Unsupported('printing a value of type %s' % t)
    return out


def emit(S, st, pieces):
    """what printing literal text, names and bytes in turn amounts to"""
    g = st.ghost
    before = ''
    for x in pieces:
        if isinstance(x, str):
            before = x
            continue
        if isinstance(x, SliceV):
            arr = S.read(st, S.ver(st.heap, ('E', S.prog.tstr(x.elem), 0)), x.ref)
            hit = z3.And(g['pr_last'] == g['pr_n'], strof(arr, x.off, x.len) == g['pr_d'])
            g['pr_num'] = z3.simplify(g['pr_num'] + z3.If(hit, 1, 0))
        else:
            for w in WORDS:
                if re.search(r'(^|\W)%s$' % w, before):
                    g['pr_' + w] = z3.Or(g['pr_' + w], x == g['pr_n'])
            g['pr_last'] = x
        before = ''


def formatted(fmt, ops):
    out, ops = [], list(ops)
    for k, t in [kt for f in parts(fmt) for kt in (enumerate(re.split(r'(%%|%#v|%[a-z])', f)) if isinstance(f, str) else [(0, f)])]:
        if k % 2 == 0:
            out.append(t)
        elif t == '%%':
            out.append('%')
        elif not ops:
            raise Unsupported('more verbs than values')
        else:
            o = ops.pop(0)
            if isinstance(o[0], SliceV) != (t == '%#v') or t not in ('%#v', '%s', '%v'):
                raise Unsupported('verb %s' % t)
            out += o
    return join(out)


def join(xs):
    out = []
    for x in xs:
        if isinstance(x, str) and out and isinstance(out[-1], str):
            out[-1] += x
        else:
            out.append(x)
    return out


def printed(S, st, pieces, k):
    if 'pr_n' not in st.ghost:
        raise Unsupported('printing where no output is kept')
    emit(S, st, pieces)
    n = fresh_const('printed', I)
    st.assume(n >= 0)
    return [('ret', st, [n, IfaceV(z3.IntVal(0), z3.IntVal(0))][:k])]


@external('fmt.Fprintf')
def x_fprintf(S, args, st, stack, ins, caller):
    return printed(S, st, formatted(args[1], operands(S, st, args[2])), 2)


@external('fmt.Fprint')
def x_fprint(S, args, st, stack, ins, caller):
    ops = operands(S, st, args[1])
    if any(isinstance(o[0], SliceV) for o in ops):
        raise Unsupported('bytes printed as a list')
    return printed(S, st, join(sum(ops, [])), 2)


@external('(*bytes.Buffer).WriteString')
def x_writestring(S, args, st, stack, ins, caller):
    return printed(S, st, join(parts(args[1])), 2)


@external('(*bytes.Buffer).WriteByte')
def x_writebyte(S, args, st, stack, ins, caller):
    return printed(S, st, ['?'], 2)[:1] and [('ret', st, [IfaceV(z3.IntVal(0), z3.IntVal(0))])]


@external('io.WriteString')
def x_iowritestring(S, args, st, stack, ins, caller):
    return printed(S, st, join(parts(args[1])), 2)


def fresh_bytes(S, st):
    r = S.newref(st)
    n = fresh_const('textlen', I)
    st.assume(n >= 0, n <= core.MAXLEN)
    return SliceV(r, z3.IntVal(0), n, n, S.prog.tid('byte'))


@external('(*bytes.Buffer).Bytes')
def x_bytes(S, args, st, stack, ins, caller):
    return [('ret', st, [fresh_bytes(S, st)])]


@external('(*bytes.Buffer).String')
def x_string(S, args, st, stack, ins, caller):
    r = fresh_const('text', Str)
    st.assume(strlen(r) >= 0, strlen(r) <= core.MAXLEN)
    return [('ret', st, [r])]


@external('golang.org/x/tools/imports.Process')
def x_imports(S, args, st, stack, ins, caller):
    s2 = st.copy()
    z = SliceV(*[z3.IntVal(0)] * 4, S.prog.tid('byte'))
    return [('ret', st, [fresh_bytes(S, st), IfaceV(z3.IntVal(0), z3.IntVal(0))]), ('ret', s2, [z, new_error(S, s2)])]


def setup(env):
    add = env.add

    def prepare(C):
        g = C.st.ghost
        g['pr_n'], g['pr_d'], g['pr_last'] = C.ghosts['n'], C.ghosts['d'], lit('')
        g['pr_num'] = z3.IntVal(0)
        for w in WORDS:
            g['pr_' + w] = F

    def given(C):
        return [('corpus is given', C.args[1].ref != 0), ('the name is that of no package', C.args[0] != C.ghosts['n']),
                ('the name is not empty', C.ghosts['n'] != lit(''))]

    def all_(C, fold, k, *extra):
        s = C.field(C.args[1], 'Suites', True)
        return fold(C.arrs(s, True)[:k], s.off, z3.simplify(s.off + s.len), *extra)

    def wants(word):
        def f(C):
            g, n, d = C.st.ghost, C.ghosts['n'], C.ghosts['d']
            ok = C.res[1].tid == 0
            want = all_(C, anyF, 4, n)
            r = [('a %s for the type when it has a suite without constraints' % word, z3.Implies(z3.And(ok, want), g['pr_' + word])),
                 ('no %s for any other' % word, z3.Implies(z3.And(ok, g['pr_' + word]), want)),
                 ('it calls the parser of the type', z3.Implies(ok, g['pr_Parse'] == want))]
            if word == 'Test':
                r += [('each vector as often as the type has it', z3.Implies(ok, g['pr_num'] == all_(C, numS, 4, n, d)))]
            else:
                r += [('no vectors', z3.Implies(ok, g['pr_num'] == 0))]
            return r
        return f
    gh = [('n', 'str'), ('d', 'str')]
    add(Contract('gen.CorpusTests', root=True, nparams=2, ghosts=gh, props=['C16'], requires=given, prepare=prepare, ensures=wants('Test')))
    add(Contract('gen.Fuzzers', root=True, nparams=2, ghosts=gh, props=['C16'], requires=given, prepare=prepare, ensures=wants('Fuzz')))

    def constrained(C):
        s = C.args[0]
        return [('says whether a vector has constraints', C.res[0] == fixed(C.arrs(s, True), s.off, z3.simplify(s.off + s.len)))]
    add(Contract('gen.constrained', root=False, nparams=1, props=['C16'], ensures=constrained))

    def tpl(name, roles, fn):
        env.templates.append(Template(name, (P,), roles, fn))

    def g(L, n):
        if 'pr_n' not in L.st.ghost:
            raise Unsupported('nothing printed')
        return L.st.ghost[n], L.entry.ghost[n]
    RS, RV = 'rng+ []tv.Suite', 'rng+ []tv.Vector'
    upto = lambda L, s, fold, k, *extra: fold(L.arrs(s)[:k], s.off, z3.simplify(s.off + L.k), *extra)
    for w in WORDS:
        tpl('said-' + w, [('s', RS)], lambda L, s, w=w: [
            g(L, 'pr_' + w)[0] == z3.Or(g(L, 'pr_' + w)[1], upto(L, s, anyF, 4, L.st.ghost['pr_n']))])
        tpl('same-' + w, [], lambda L, w=w: [g(L, 'pr_' + w)[0] == g(L, 'pr_' + w)[1]])
    tpl('same-last', [], lambda L: [g(L, 'pr_last')[0] == g(L, 'pr_last')[1]])
    tpl('same-num', [], lambda L: [g(L, 'pr_num')[0] == g(L, 'pr_num')[1]])
    tpl('suite-vectors', [('s', RS)], lambda L, s: [
        g(L, 'pr_num')[0] == g(L, 'pr_num')[1] + upto(L, s, numS, 4, L.st.ghost['pr_n'], L.st.ghost['pr_d'])])
    tpl('vectors', [('s', RV)], lambda L, s: [
        g(L, 'pr_num')[0] == g(L, 'pr_num')[1] + z3.If(g(L, 'pr_last')[0] == L.st.ghost['pr_n'], upto(L, s, numV, LEAVES, L.st.ghost['pr_d']), 0)])
    tpl('counted', [('n', 'phi int'), ('s', RV)], lambda L, n, s: [z3.And(n >= 0, (n > 0) == upto(L, s, fixed, LEAVES))])
    for name, r in (('suites', RS), ('vectors', RV)):
        tpl('within-' + name, [('n', 'phi int'), ('s', r)], lambda L, n, s: [n <= s.len])
    # suites picked from others
    whole = lambda L, s, fold, k, *extra: fold(L.arrs(s)[:k], s.off, z3.simplify(s.off + s.len), *extra)
    gn = lambda L: (L.ghosts['n'], L.ghosts['d'])
    picked = [('r', 'phi []tv.Suite'), ('s', RS)]
    tpl('picked-free', picked, lambda L, r, s: [whole(L, r, allF, 4)])
    tpl('picked-types', picked, lambda L, r, s: [whole(L, r, anyF, 4, gn(L)[0]) == upto(L, s, anyF, 4, gn(L)[0])])
    tpl('picked-vectors', picked, lambda L, r, s: [whole(L, r, numS, 4, *gn(L)) == upto(L, s, numS, 4, *gn(L))])
    tpl('none-so-far', [('s', RV)], lambda L, s: [z3.Not(upto(L, s, fixed, LEAVES))])
