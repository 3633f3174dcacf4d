"""Contracts for package parse and the reading functions of the parser package (properties C12, C13)."""
import z3
from gvc.core import I, B, Str, SliceV, IfaceV, Ptr, Unsupported, strof, strlen, fresh_const
from gvc.fold import Fold
from gvc.spec import Contract, Template, external, new_error
from gvc import core

P, PP = 'parse', 'parse/internal/parser'
F, T = z3.BoolVal(False), z3.BoolVal(True)

# what a text means: accepted or not, and its tree
pok = z3.Function('accepted', Str, B)
ptree = z3.Function('tree_of_text', Str, I)
treeof = z3.Function('tree_at', I, I)
# files and readers
open_ok = z3.Function('open_ok', Str, B)
close_ok = z3.Function('close_ok', Str, B)
fread_ok = z3.Function('file_read_ok', Str, B)
fcontent = z3.Function('file_content', Str, Str)
rread_ok = z3.Function('reader_ok', I, B)
rcontent = z3.Function('reader_content', I, Str)
fname = z3.Function('file_name', I, Str)


def fok(n):
    return z3.And(open_ok(n), fread_ok(n), pok(fcontent(n)), close_ok(n))


allfok = Fold('allfok', [Str], [], B, T, elem=lambda v, e: fok(v[0]), op=z3.And, univ='all')


@external('os.Open')
def x_open(S, args, st, stack, ins, caller):
    n = args[0]
    e = new_error(S, st)
    s2 = st.copy()
    out = []
    st.assume(open_ok(n))
    r = S.newref(st)
    st.assume(r != 0, fname(r) == n, rcontent(r) == fcontent(n), rread_ok(r) == fread_ok(n))
    t = S.prog.tid('*os.File')
    if S.feasible(st, T):
        out.append(('ret', st, [S.unflatten(t, [r]), IfaceV(z3.IntVal(0), z3.IntVal(0))]))
    s2.assume(z3.Not(open_ok(n)))
    if S.feasible(s2, T):
        out.append(('ret', s2, [S.unflatten(t, [z3.IntVal(0)]), e]))
    return out


@external('(*os.File).Close')
def x_close(S, args, st, stack, ins, caller):
    S.oblige(st, 'a closed file was opened', args[0].ref != 0, 'safety')
    ok = close_ok(fname(args[0].ref))
    e = new_error(S, st)
    return [('ret', st, [IfaceV(z3.If(ok, 0, e.tid), z3.If(ok, 0, e.pay))])]


@external('io/ioutil.ReadAll', 'io.ReadAll')
def x_readall(S, args, st, stack, ins, caller):
    r = args[0]
    e = new_error(S, st)
    t = S.prog.tid('[]byte')
    b = S.newref(st)
    s = rcontent(r.pay)
    arr = fresh_const('read', z3.ArraySort(I, I))
    S.write(st, ('E', S.prog.tstr(S.prog.elem(t)), 0), b, arr)
    n = strlen(s)
    st.assume(n >= 0, n <= core.MAXLEN, strof(arr, z3.IntVal(0), n) == s)
    ok = rread_ok(r.pay)
    return [('ret', st, [SliceV(b, z3.IntVal(0), n, n, S.prog.elem(t)), IfaceV(z3.If(ok, 0, e.tid), z3.If(ok, 0, e.pay))])]


@external('os.ReadFile', 'io/ioutil.ReadFile')
def x_readfile(S, args, st, stack, ins, caller):
    n = args[0]
    r = S.newref(st)
    st.assume(rcontent(r) == fcontent(n), rread_ok(r) == z3.And(open_ok(n), fread_ok(n), close_ok(n)))
    return x_readall(S, [IfaceV(z3.IntVal(1), r)], st, stack, ins, caller)


@external('strings.NewReader', 'bytes.NewBufferString')
def x_newreader(S, args, st, stack, ins, caller):
    r = S.newref(st)
    st.assume(rcontent(r) == args[0], rread_ok(r))
    t = ins['t'] if 't' in ins else None
    return [('ret', st, [S.unflatten(S.prog.tid('*strings.Reader'), [r])])]


def setup(env):
    prog = env.prog
    bytes_ = lambda S: {('E', prog.tstr(prog.elem(prog.tid('[]byte'))), 0)}
    for n in ('io/ioutil.ReadAll', 'io.ReadAll', 'os.ReadFile', 'io/ioutil.ReadFile'):
        env.external_touches[n] = (bytes_,)
    FT = prog.tid('*ast.File') + 1
    NF = None

    def leaf(C, r, i):
        return z3.Function('sealed_%d' % i, I, C.S.leaves(prog.tid('ast.File'))[i][1])(r)

    def sealed(C, r, st=None, heap=None):
        """the file object at r still has the field values it was built with"""
        S = C.S
        ls = S.leaves(prog.tid('ast.File'))
        h = heap if heap is not None else C.st.heap
        return z3.And(*[S.read(C.st, S.ver(h, ('O', 'ast.File', i)), r) == leaf(C, r, i) for i in range(len(ls))])

    def tree(C, r, text):
        return [('a tree is returned', r != 0), ('it is the tree of the text', treeof(r) == ptree(text)),
                ('it is not altered afterwards', sealed(C, r))]

    def val_ok(C, v, text):
        return [('a tree is returned', z3.And(v.tid == FT, v.pay != 0)), ('it is the tree of the text', treeof(v.pay) == ptree(text)),
                ('it is not altered afterwards', sealed(C, v.pay))]

    def when(c, fs):
        return [(l, z3.Implies(c, f)) for l, f in fs]

    def text_of(C, b):
        return strof(C.arrs(b, True)[0], b.off, b.len)

    def iface_result(ok, text):
        def ens(C):
            k, t = ok(C), text(C)
            return [('error exactly when it cannot be read or parsed', (C.res[1].tid == 0) == k)] + when(k, val_ok(C, C.res[0], t))
        return ens

    def ptr_result(ok, text):
        def ens(C):
            k, t = ok(C), text(C)
            return [('error exactly when it cannot be read or parsed', (C.res[1].tid == 0) == k)] + when(k, tree(C, C.res[0].ref, t)) + [
                ('no tree with an error', z3.Implies(z3.Not(k), C.res[0].ref == 0))]
        return ens

    NOOPT = lambda C, n: [('no parser options', C.args[n].len == 0)]
    PROPS = ['C12', 'C13']
    add = env.add
    add(Contract(PP + '.Parse', trusted=True, nparams=3, props=PROPS, requires=lambda C: NOOPT(C, 2),
                 ensures=iface_result(lambda C: pok(text_of(C, C.args[1])), lambda C: text_of(C, C.args[1])),
                 touches=lambda S: touched(S)))

    def touched(S):
        return {('O', 'ast.File', i) for i in range(len(S.leaves(prog.tid('ast.File'))))}
    add(Contract(PP + '.ParseReader', root=True, nparams=3, props=PROPS, requires=lambda C: NOOPT(C, 2),
                 ensures=iface_result(lambda C: z3.And(rread_ok(C.args[1].pay), pok(rcontent(C.args[1].pay))),
                                      lambda C: rcontent(C.args[1].pay))))
    add(Contract(PP + '.ParseFile', root=True, nparams=2, props=PROPS, requires=lambda C: NOOPT(C, 1),
                 ensures=iface_result(lambda C: fok(C.args[0]), lambda C: fcontent(C.args[0]))))
    add(Contract(P + '.File', root=True, nparams=1, props=PROPS,
                 ensures=ptr_result(lambda C: fok(C.args[0]), lambda C: fcontent(C.args[0]))))
    add(Contract(P + '.Reader', root=True, nparams=2, props=PROPS,
                 ensures=ptr_result(lambda C: z3.And(rread_ok(C.args[1].pay), pok(rcontent(C.args[1].pay))),
                                    lambda C: rcontent(C.args[1].pay))))
    add(Contract(P + '.String', root=True, nparams=1, props=PROPS,
                 ensures=ptr_result(lambda C: pok(C.args[0]), lambda C: C.args[0])))

    def files(C):
        ns, fs, q = C.args[0], C.res[0], C.ghosts['q']
        a = C.arrs(ns, True)
        ok = allfok(a, ns.off, z3.simplify(ns.off + ns.len))
        n = z3.Select(a[0], ns.off + q)
        r = z3.Select(C.arrs(fs)[0], fs.off + q)
        return [('error exactly when some file cannot be read or parsed', (C.res[1].tid == 0) == ok),
                ('no trees with an error', z3.Implies(z3.Not(ok), z3.And(fs.len == 0, fs.ref == 0))),
                ('one tree per file', z3.Implies(ok, fs.len == ns.len))] + when(z3.And(ok, q < ns.len), tree(C, r, fcontent(n)))
    add(Contract(P + '.Files', root=True, nparams=1, ghosts=[('q', 'nat')], props=PROPS, ensures=files))

    # invariants of the loop over files
    def tpl(name, roles, fn):
        env.templates.append(Template(name, (P,), roles, fn))

    NS, FS = '[]string', '[]*ast.File'

    def done(L, fs, ns, grow):
        q = L.ghosts.get('q')
        if q is None:
            return []
        n = z3.Select(L.arrs(ns)[0], ns.off + q)
        r = z3.Select(L.arrs(fs)[0], fs.off + q)
        C = core.CallCtx(L.S, L.S.contract, L.st, (), L.S.old0, L.fn)
        return [z3.Implies(q < L.k, z3.And(*[f for _, f in tree(C, r, fcontent(n))]))]
    tpl('trees-so-far', [('fs', 'any ' + FS), ('ns', 'rng ' + NS)], lambda L, fs, ns: done(L, fs, ns, 0))
    tpl('trees-apart', [('fs', 'any ' + FS), ('ns', 'rng ' + NS)], lambda L, fs, ns: [fs.ref >= L.S.alloc0])
    tpl('all-ok-so-far', [('ns', 'rng ' + NS)], lambda L, ns: [allfok(L.arrs(ns), ns.off, z3.simplify(ns.off + L.k))])
    tpl('files-old', [('fs', 'any ' + FS)], lambda L, fs: [z3.Implies(
        L.ghosts['q'] < L.k, z3.Select(L.arrs(fs)[0], fs.off + L.ghosts['q']) < L.st.alloc)] if 'q' in L.ghosts else [])
