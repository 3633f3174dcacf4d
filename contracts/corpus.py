"""Contracts for the corpus of package tv (property C14).

The file system is ghost state: which paths were written and with what, which directories were made, and whether any call
failed.  Contents are those of the heap on entry, which the code must not change.
"""
import z3
from gvc.core import I, B, Str, SliceV, IfaceV, ArrayV, Unsupported, strof, strlen, lit, fresh_const
from gvc.fold import Fold
from gvc.spec import Contract, Template, external, new_error
from gvc import core

P = 'tv'
T, F = z3.BoolVal(True), z3.BoolVal(False)
joinp = z3.Function('path_join', Str, Str, Str)
parent = z3.Function('path_parent', Str, Str)
last = z3.Function('path_last', Str, Str)
sha, unsha = z3.Function('sha256_of', Str, Str), z3.Function('sha256_preimage', Str, Str)
hexn, unhex = z3.Function('hex_of', Str, Str), z3.Function('hex_inverse', Str, Str)
osfs = z3.Int('osfs')
basefs = z3.Function('basefs', I, Str, I)
A1 = z3.ArraySort(I, I)
H = lambda k, s: z3.Function('H0_' + k, I, z3.ArraySort(I, s))


def text0(ref, off, n):
    return strof(H('E_byte_0', I)(ref), off, n)


anyV = Fold('anyV', [I, I, I], [Str, Str], B, F, elem=lambda v, e: joinp(e[0], hexn(sha(text0(*v)))) == e[1], op=z3.Or, univ='any')
corpusdir = lambda base, t: joinp(joinp(base, t), lit('corpus'))
anyS = Fold('anyS', [Str, I, I, I], [Str, Str], B, F, op=z3.Or, univ='any', elem=lambda v, e: anyV(
    [H('E_tv.Vector_%d' % i, I)(v[1]) for i in range(3)], v[2], v[2] + v[3], corpusdir(e[0], v[0]), e[1]))
anyD = Fold('anyD', [Str], [Str, Str], B, F, op=z3.Or, univ='any', elem=lambda v, e: corpusdir(e[0], v[0]) == e[1])
hasT = Fold('hasT', [Str], [Str], B, F, op=z3.Or, univ='any', elem=lambda v, e: v[0] == e[0])


def split(st, p):
    """facts about a joined path"""
    if z3.is_app(p) and p.decl().eq(joinp):
        st.assume(parent(p) == p.arg(0), last(p) == p.arg(1))
        split(st, p.arg(0))


def under(base, p):
    if z3.is_app(p) and p.decl().eq(joinp):
        return joinp(under(base, p.arg(0)), p.arg(1))
    return joinp(base, p)


def place(S, st, fs, path):
    """where a path of a file system really is"""
    p = path
    f = fs
    while z3.is_app(f) and f.decl().eq(basefs):
        p = under(f.arg(1), p)
        f = f.arg(0)
    if not f.eq(osfs):
        raise Unsupported('unknown file system')
    split(st, p)
    return p


def content(S, st, sl):
    a = S.read(st, S.ver(st.heap, ('E', S.prog.tstr(sl.elem), 0)), sl.ref)
    return strof(a, sl.off, sl.len)


@external('path/filepath.Join', 'path.Join')
def x_join(S, args, st, stack, ins, caller):
    sl = args[0]
    n = z3.simplify(sl.len)
    if not z3.is_int_value(n) or not 1 <= n.as_long() <= 6:
        raise Unsupported('joining an unknown number of paths')
    a = S.read(st, S.ver(st.heap, ('E', 'string', 0)), sl.ref)
    xs = [z3.simplify(z3.Select(a, z3.simplify(sl.off + i))) for i in range(n.as_long())]
    r = xs[0]
    for x in xs[1:]:
        r = joinp(r, x)
    st.assume(strlen(r) >= 0, strlen(r) <= core.MAXLEN)
    split(st, r)
    return [('ret', st, [r])]


@external('crypto/sha256.Sum256')
def x_sum(S, args, st, stack, ins, caller):
    c = content(S, st, args[0])
    arr = fresh_const('digest', A1)
    st.assume(strof(arr, z3.IntVal(0), z3.IntVal(32)) == sha(c), unsha(sha(c)) == c)
    return [('ret', st, [ArrayV(ins['t'], [arr])])]


@external('encoding/hex.EncodeToString')
def x_hex(S, args, st, stack, ins, caller):
    c = content(S, st, args[0])
    r = hexn(c)
    st.assume(unhex(r) == c, strlen(r) >= 0, strlen(r) <= core.MAXLEN)
    return [('ret', st, [r])]


@external('github.com/spf13/afero.NewOsFs')
def x_osfs(S, args, st, stack, ins, caller):
    return [('ret', st, [IfaceV(z3.IntVal(700001), osfs)])]


@external('github.com/spf13/afero.NewBasePathFs')
def x_basefs(S, args, st, stack, ins, caller):
    return [('ret', st, [IfaceV(z3.IntVal(700001), basefs(args[0].pay, args[1]))])]


def outcome(S, st, effect):
    """a call that works, or fails and says so"""
    e = new_error(S, st)
    s2 = st.copy()
    effect(st)
    s2.ghost['fs_failed'] = T
    return [('ret', st, [IfaceV(z3.IntVal(0), z3.IntVal(0))]), ('ret', s2, [e])]


def mkdir(S, st, fs, path):
    p = place(S, st, fs, path)

    def eff(s):
        s.ghost['fs_dirs'] = z3.Store(s.ghost['fs_dirs'], p, T)
    return outcome(S, st, eff)


def write(S, st, fs, path, data):
    p = place(S, st, fs, path)
    c = content(S, st, data)
    S.oblige(st, 'the directory was made before writing into it', z3.Select(st.ghost['fs_dirs'], parent(p)), 'safety')

    def eff(s):
        s.ghost['fs_written'] = z3.Store(s.ghost['fs_written'], p, T)
        s.ghost['fs_content'] = z3.Store(s.ghost['fs_content'], p, c)
    return outcome(S, st, eff)


def fs_invoker(S, m, recv, args, rt, st, stack, ins, c):
    if 'afero.Fs' not in S.prog.tstr(rt) or 'fs_dirs' not in st.ghost:
        return None
    if m in ('MkdirAll', 'Mkdir'):
        S.trusted.add('afero.Fs.' + m)
        return mkdir(S, st, recv.pay, args[0])
    return None


@external('(github.com/spf13/afero.Afero).WriteFile', '(*github.com/spf13/afero.Afero).WriteFile')
def x_afero_write(S, args, st, stack, ins, caller):
    return write(S, st, args[0].vals[0].pay, args[1], args[2])


@external('github.com/spf13/afero.WriteFile')
def x_write(S, args, st, stack, ins, caller):
    return write(S, st, args[0].pay, args[1], args[2])


@external('os.MkdirAll', 'os.Mkdir')
def x_os_mkdir(S, args, st, stack, ins, caller):
    return mkdir(S, st, osfs, args[0])


@external('os.WriteFile', 'io/ioutil.WriteFile')
def x_os_write(S, args, st, stack, ins, caller):
    return write(S, st, osfs, args[0], args[1])


def setup(env):
    prog = env.prog
    env.invokers.append(fs_invoker)
    add = env.add
    SU = 'tv.Suite'

    def sarr(C, s, old=True):
        return C.arrs(s, old)

    # ---- collecting
    def suites(C, c, old=False):
        return C.field(c, 'Suites', old)

    def W_c(C):
        return [(('O', 'tv.Corpus', i), C.args[0].ref) for i in range(len(C.S.leaves(prog.tid('tv.Corpus'))))]

    def added(C, typ, vs):
        o, n, q = suites(C, C.args[0], True), suites(C, C.args[0]), C.ghosts['q']
        a, b = C.arrs(o, True), C.arrs(n)
        end = [z3.Select(x, z3.simplify(n.off + o.len)) for x in b]
        return [('one more suite', n.len == o.len + 1),
                ('earlier suites stay', z3.Implies(q < o.len, z3.And(*[
                    z3.Select(x, z3.simplify(o.off + q)) == z3.Select(y, z3.simplify(n.off + q)) for x, y in zip(a, b)]))),
                ('the new suite comes last', z3.And(end[0] == typ, end[1] == vs.ref, end[2] == vs.off, end[3] == vs.len))]
    given = lambda C: [('corpus is given', C.args[0].ref != 0)]
    # appending may use spare room of the list of suites
    W_s = lambda C: W_c(C) + [(('E', SU, i), suites(C, C.args[0], True).ref) for i in range(5)]
    add(Contract('(*tv.Corpus).AddSuite', root=True, nparams=2, ghosts=[('q', 'nat')], props=['C14'], requires=given, modifies=W_s,
                 ensures=lambda C: added(C, C.args[1].vals[0], C.args[1].vals[1])))
    add(Contract('(*tv.Corpus).AddVectors', root=True, nparams=3, ghosts=[('q', 'nat')], props=['C14'], requires=given, modifies=W_s,
                 ensures=lambda C: added(C, C.args[1], C.args[2])))

    def vectors(C):
        s, n, r, q = C.args[0].vals[0], C.args[1], C.res[0], C.ghosts['q']
        a = C.arrs(s, True)
        at = [z3.Select(x, z3.simplify(s.off + q)) for x in a]
        first = z3.And(q < s.len, at[0] == n, z3.Not(hasT(a[:1], s.off, z3.simplify(s.off + q), n)))
        return [('the first suite of that type', z3.Implies(first, z3.And(
                    z3.Or(r.len == at[3], False), z3.Implies(at[3] > 0, z3.And(r.ref == at[1], r.off == at[2]))))),
                ('nothing when there is none', z3.Implies(z3.Not(hasT(a[:1], s.off, z3.simplify(s.off + s.len), n)), r.len == 0))]
    add(Contract('(tv.Corpus).Vectors', root=True, nparams=2, ghosts=[('q', 'nat')], props=['C14'], ensures=vectors))

    # ---- writing
    def prepare(C):
        g = C.st.ghost
        g['fs_written'], g['fs_dirs'] = z3.K(Str, F), z3.K(Str, F)
        g['fs_content'] = z3.Const('disk_before', z3.ArraySort(Str, Str))
        g['fs_failed'] = F

    def wrote(C):
        c, d, p = C.args[0], C.args[1], C.ghosts['p']
        s = suites(C, c, True)
        a = C.arrs(s, True)
        g = C.st.ghost
        end = z3.simplify(s.off + s.len)
        ok = C.res[0].tid == 0
        want = anyS(a[:4], s.off, end, d, p)
        have = z3.Select(g['fs_written'], p)
        return [('error exactly when something could not be written', ok == z3.Not(g['fs_failed'])),
                ('every vector has its file', z3.Implies(z3.And(ok, want), have)),
                ('no other file is written', z3.Implies(have, want)),
                ('files hold the bytes they are named after', z3.Implies(have, z3.Select(g['fs_content'], p) == unsha(unhex(last(p))))),
                ('directories are those of the types', z3.And(
                    z3.Implies(z3.And(ok, anyD(a[:1], s.off, end, d, p)), z3.Select(g['fs_dirs'], p)),
                    z3.Implies(z3.Select(g['fs_dirs'], p), anyD(a[:1], s.off, end, d, p))))]
    add(Contract('tv.WriteCorpus', root=True, nparams=2, ghosts=[('p', 'str')], props=['C14'], requires=given, prepare=prepare, ensures=wrote))

    # ---- loops
    def tpl(name, roles, fn):
        env.templates.append(Template(name, (P,), roles, fn))

    def g(L, n):
        if n not in L.st.ghost or 'p' not in L.ghosts:
            raise Unsupported('no file system')
        return L.st.ghost[n], L.entry.ghost[n], L.ghosts['p']

    def upto(L, s, fold, n, k, *extra):
        now, then, p = g(L, n)
        return [z3.Select(now, p) == z3.Or(z3.Select(then, p), fold(L.arrs(s)[:k], s.off, z3.simplify(s.off + L.k), *extra, p))]
    base = lambda L: L.S.args[1]
    RS, RV = 'rng []tv.Suite', 'rng []tv.Vector'
    tpl('suites-written', [('s', RS)], lambda L, s: upto(L, s, anyS, 'fs_written', 4, base(L)))
    tpl('suites-dirs', [('s', RS)], lambda L, s: upto(L, s, anyD, 'fs_dirs', 1, base(L)))
    tpl('vectors-written', [('s', RV), ('d', 'vis string')], lambda L, s, d: upto(L, s, anyV, 'fs_written', 3, under(base(L), d)))

    def named(L):
        now, _, p = g(L, 'fs_written')
        return [z3.Implies(z3.Select(now, p), z3.Select(L.st.ghost['fs_content'], p) == unsha(unhex(last(p))))]
    tpl('named-by-content', [], named)
    tpl('no-failure', [], lambda L: [z3.Not(g(L, 'fs_failed')[0])])
    tpl('none-so-far', [('s', RS), ('n', 'vis string')], lambda L, s, n: [
        z3.Not(hasT(L.arrs(s)[:1], s.off, z3.simplify(s.off + L.k), n))])
