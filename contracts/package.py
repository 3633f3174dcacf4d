"""Contract for generating a package (property C15).

The four producers (parser source, corpus, test source, fuzz source) and the file system are given assumed contracts: each works, or
reports an error.  What gen.Package makes of their results is verified for every combination of outcomes.
"""
import z3
from gvc.core import I, B, Str, SliceV, IfaceV, Ptr, FuncV, Unsupported, strof, lit, fresh_const
from gvc.spec import Contract, new_error
from gvc import core
from . import corpus as K
from .emission import fresh_bytes

T, F = z3.BoolVal(True), z3.BoolVal(False)
Z = lambda: IfaceV(z3.IntVal(0), z3.IntVal(0))
source = z3.Function('parser_source', Str, I, I, I, Str)
tests = z3.Function('test_source', Str, I, Str)
fuzz = z3.Function('fuzz_source', Str, I, Str)
FILES = 'gen-marshallers.go', 'gen-marshallers_test.go', 'gen-fuzz.go'


def failing(S, st, ok, nothing):
    """a call that works, or fails and says so"""
    s2 = st.copy()
    s2.ghost['pk_failed'] = T
    return [('ret', st, ok(st) + [Z()]), ('ret', s2, nothing + [new_error(S, s2)])]


def text(S, content):
    def f(st):
        b = fresh_bytes(S, st)
        key = ('E', S.prog.tstr(b.elem), 0)
        arr = fresh_const('source', z3.ArraySort(I, I))
        S.write(st, key, b.ref, arr)
        st.assume(strof(arr, b.off, b.len) == content)
        return [b]
    return f


def nobytes(S):
    return [SliceV(*[z3.IntVal(0)] * 4, S.prog.tid('byte'))]


def setup(env):
    prog = env.prog

    def x_marshallers(S, args, st, stack, ins, caller):
        fs = args[1]
        return failing(S, st, text(S, source(args[0], fs.ref, fs.off, fs.len)), nobytes(S))

    def notimpl(S, st):
        return S.load(st, S.globalptr('fault.ErrNotImplemented', prog.globals['fault.ErrNotImplemented']))

    def x_corpus(S, args, st, stack, ins, caller):
        fs = args[0]
        g = st.ghost
        S.oblige(st, 'vectors are made for the files given', z3.And(fs.ref == g['pk_fs'].ref, fs.off == g['pk_fs'].off, fs.len == g['pk_fs'].len), 'call')
        ct = prog.tid('tv.Corpus')
        out = []
        st.assume(notimpl(S, st).tid != 0)
        s1, s2, s3 = st, st.copy(), st.copy()
        r = S.newref(s1)
        s1.ghost['pk_corpus'], s1.ghost['pk_supported'] = r, T
        out.append(('ret', s1, [Ptr('O', ct, r), Z()]))
        nul = Ptr('O', ct, z3.IntVal(0))
        s2.ghost['pk_supported'] = F
        e = notimpl(S, s2)
        out.append(('ret', s2, [nul, e]))
        s3.ghost['pk_failed'] = T
        e3 = notimpl(S, s3)
        n = new_error(S, s3)
        s3.assume(n.pay != e3.pay)
        out.append(('ret', s3, [nul, n]))
        return out

    def known(S, st, c):
        S.oblige(st, 'the corpus used is the one made', c.ref == st.ghost['pk_corpus'], 'call')

    def x_write_corpus(S, args, st, stack, ins, caller):
        known(S, st, args[0])
        return failing(S, st, lambda s: [], [])

    def x_tests(S, args, st, stack, ins, caller):
        known(S, st, args[1])
        return failing(S, st, text(S, tests(args[0], args[1].ref)), nobytes(S))

    def x_fuzz(S, args, st, stack, ins, caller):
        known(S, st, args[1])
        return failing(S, st, text(S, fuzz(args[0], args[1].ref)), nobytes(S))

    def x_write(S, args, st, stack, ins, caller):
        p = args[0]
        c = K.content(S, st, args[1])

        def eff(s):
            s.ghost['pk_written'] = z3.Store(s.ghost['pk_written'], p, T)
            s.ghost['pk_content'] = z3.Store(s.ghost['pk_content'], p, c)
            return []
        return failing(S, st, eff, [])

    X = env.externals
    X['gen.Marshallers'], X['tv.GenerateFiles'], X['tv.WriteCorpus'] = x_marshallers, x_corpus, x_write_corpus
    X['gen.CorpusTests'], X['gen.Fuzzers'] = x_tests, x_fuzz
    X['io/ioutil.WriteFile'] = X['os.WriteFile'] = x_write

    def x_rand(S, args, st, stack, ins, caller):
        return [('ret', st, [IfaceV(z3.IntVal(700002), fresh_const('source', I))])]
    X['github.com/mmcloughlin/random.NewWithSeed'] = x_rand

    def x_opt(S, args, st, stack, ins, caller):
        return [('ret', st, [FuncV('tv.WithRandom$1', [args[0]])])]
    X['tv.WithRandom'] = x_opt

    def config(cfg):
        names = [f['name'] for f in prog.fields(prog.tid('gen.Config'))]
        return [cfg.vals[names.index(n)] for n in ('Package', 'Dir')]

    def prepare(C):
        g = C.st.ghost
        g['pk_written'], g['pk_content'] = z3.K(Str, F), z3.Const('disk_before', z3.ArraySort(Str, Str))
        g['pk_failed'], g['pk_supported'], g['pk_corpus'] = F, F, z3.IntVal(-1)
        g['pk_fs'] = C.args[1]
        for x in FILES:
            K.split(C.st, K.joinp(config(C.args[0])[1], lit(x)))

    def done(C):
        cfg, fs = C.args
        pkg, d = config(cfg)
        g, p = C.st.ghost, C.ghosts['p']
        ok = C.res[0].tid == 0
        P, T_, Z_ = [K.joinp(d, lit(n)) for n in FILES]
        w, c = g['pk_written'], g['pk_content']
        has = lambda x: z3.Select(w, x)
        sup = g['pk_supported']
        holds = lambda x, s: z3.Implies(z3.And(has(x)), z3.Select(c, x) == s)
        return [('error exactly when something failed', ok == z3.Not(g['pk_failed'])),
                ('the parser file is written', z3.Implies(ok, has(P))),
                ('the test file is written exactly when there are vectors', z3.Implies(ok, has(T_) == sup)),
                ('the fuzz file is written exactly when there are vectors', z3.Implies(ok, has(Z_) == sup)),
                ('no other file is written', z3.Implies(has(p), z3.Or(p == P, p == T_, p == Z_))),
                ('no test or fuzz file without vectors', z3.Implies(z3.Or(has(T_), has(Z_)), sup)),
                ('the parser file holds the parsers', holds(P, source(pkg, fs.ref, fs.off, fs.len))),
                ('the test file holds the tests', holds(T_, tests(pkg, g['pk_corpus']))),
                ('the fuzz file holds the entry points', holds(Z_, fuzz(pkg, g['pk_corpus'])))]
    env.add(Contract('gen.Package', root=True, nparams=2, ghosts=[('p', 'str')], props=['C15'], prepare=prepare, ensures=done))
