"""Contracts on the value-building functions of the parser (properties C10, C11, C12).

Which function belongs to which place of the grammar is read from the table the parser runs with (grammar.py); the
functions' preconditions (types of the captured values) are inferred from the reference grammar and the result types
declared here, so the preconditions follow from the postconditions of the functions that ran before.
"""
import re

import z3
from gvc.core import I, B, SliceV, Ptr, MapV, IfaceV, StructV, Unsupported, lit, strof
from gvc.fold import Fold
from gvc.spec import Contract, Template, external, new_error
from gvc import core
from . import grammar as G

P = 'parse/internal/parser'
ANY = 'interface{}'
F, T = z3.BoolVal(False), z3.BoolVal(True)
PTR = lambda t: ('ptr', 'ast.' + t)
INTS = PTR('IntegerConstRef'), PTR('IntegerLiteral')

# result type of every action
RESULTS = {
    ('File', 0): PTR('File'),
    ('Declaration', 0): ('label', 'd'),
    ('ConstDeclaration', 0): PTR('Constant'),
    ('ContextDeclaration', 0): PTR('Context'),
    ('ContextMember', 0): PTR('Field'),
    ('StructDeclaration', 0): ('label', 's'),
    ('StructDecl', 0): PTR('Struct'),
    ('StructIdentifier', 0): ('label', 'n'),
    ('ExternDeclaration', 0): PTR('Struct'),
    ('PragmaDeclaration', 0): PTR('Pragma'),
    ('ContextRefs', 0): ('label', 'ns'),
    ('StructMember', 0): ('label', 'm'),
    ('StructEnding', 0): ('label', 'e'),
    ('StructEOS', 0): PTR('EOS'),
    ('SMArray', 0): ('label', 'a'),
    ('SMFixedArray', 0): PTR('Field'),
    ('SMVarArray', 0): PTR('Field'),
    ('LengthConstraint', 0): ('label', 'l'),
    ('Leftover', 0): PTR('Leftover'),
    ('SMRemainder', 0): PTR('Field'),
    ('ArrayBase', 0): ('label', 't'),
    ('SMInteger', 0): PTR('Field'),
    ('SMPosition', 0): PTR('Field'),
    ('SMString', 0): PTR('Field'),
    ('SMStruct', 0): PTR('Field'),
    ('SMUnion', 0): PTR('UnionMember'),
    ('UnionLength', 0): ('label', 'l'),
    ('UnionMember', 0): PTR('UnionCase'),
    ('UnionCase', 0): ('label', 'l'),
    ('UnionCase', 1): G.NIL,
    ('UnionBody', 0): G.NIL,
    ('UnionBody', 1): ('val', '[]ast.Member'),
    ('UnionBody', 2): ('val', '[]ast.Member'),
    ('UnionBody', 3): ('label', 'fs'),
    ('UnionFields', 0): ('val', '[]ast.Member'),
    ('UnionField', 0): ('label', 'm'),
    ('ExtentSpec', 0): PTR('Ignore'),
    ('ExtentSpec', 1): ('label', 'r'),
    ('StructRef', 0): PTR('StructRef'),
    ('StructRef', 1): PTR('StructRef'),
    ('CharType', 0): PTR('CharType'),
    ('IntType', 0): PTR('IntType'),
    ('IntConstraint', 0): ('label', 'l'),
    ('IntList', 0): PTR('IntegerList'),
    ('IntListMember', 0): PTR('IntegerRange'),
    ('Integer', 0): ('label', 'i'),
    ('IntegerConstRef', 0): PTR('IntegerConstRef'),
    ('IntegerLiteral', 0): PTR('IntegerLiteral'),
    ('IDRef', 0): PTR('IDRef'),
    ('IdentifierList', 0): ('val', '[]string'),
    ('Identifier', 0): ('val', 'string'),
    ('ConstIdentifier', 0): ('val', 'string'),
    ('IntLiteral', 0): ('val', 'int64'),
}

FOLDS = {}


class HeapView:
    """contents of []interface{} backing arrays in one heap, for folds over lists of tuples"""
    cache = {}

    def __init__(self, S, st, vers, cid):
        self.S, self.st, self.vers, self.id = S, st, vers, cid

    @classmethod
    def of(cls, C, old=True):
        S = C.S
        heap = C.old.heap if old else C.st.heap
        vers = [S.ver(heap, ('E', ANY, 0)), S.ver(heap, ('E', ANY, 1))]
        key = (id(S), vers[0].id, vers[1].id)
        if key not in cls.cache:
            cls.cache[key] = cls(S, C.st.copy(), vers, vers[0].id * 100000 + vers[1].id)
        return cls.cache[key]

    def arrs(self, ref):
        return [self.S.read(self.st, v, ref) for v in self.vers]


class DummyView:
    def arrs(self, ref):
        return [z3.Function('GI%d' % k, I, z3.ArraySort(I, I))(ref) for k in range(2)]


def parts(ts, pay, n, sorts):
    return [z3.Function('unbox_%s_%d' % (ts, i), I, sorts[i])(pay) for i in range(n)]


def has_type(tids, ty, tid, pay, view, alloc=None):
    """formula: the interface value (tid, pay) has type ty"""
    k = ty[0]
    if k == 'nil':
        return tid == 0
    if k == 'ptr':
        f = [tid == tids['*' + ty[1]], pay != 0]
        if alloc is not None:
            f.append(pay < alloc)
        return z3.And(*f)
    if k == 'val':
        return tid == tids[ty[1]]
    if k == 'bytes':
        return tid == tids['[]byte']
    if k == 'lit':
        # contents of the bytes matter only where an action reads them; see lit_fact
        return tid == tids['[]byte']
    if k == 'or':
        return z3.Or(*[has_type(tids, x, tid, pay, view, alloc) for x in ty[1]])
    if k == 'list':
        r, o, n, c = parts('[]' + ANY, pay, 4, [I] * 4)
        a = view.arrs(r)
        return z3.And(tid == tids['[]' + ANY], listfold(tids, ty[1])(a, o, z3.simplify(o + n), *([] if flat(ty[1]) else []),
                                                                    ver=None if flat(ty[1]) else view))
    if k == 'tuple':
        r, o, n, c = parts('[]' + ANY, pay, 4, [I] * 4)
        a = view.arrs(r)
        fs = [tid == tids['[]' + ANY], n == len(ty[1])]
        for i, x in enumerate(ty[1]):
            if x is not None and x[0] not in ('list', 'or', 'tuple') or i == 3 or (x[0] == 'or' and all(y[0] == 'ptr' for y in x[1])):
                q = z3.simplify(o + i)
                fs.append(has_type(tids, x, z3.Select(a[0], q), z3.Select(a[1], q), view, alloc))
        return z3.And(*fs)
    raise Unsupported('type %s' % (ty,))


def flat(ty):
    return ty[0] in ('nil', 'ptr', 'val', 'bytes', 'lit') or ty[0] == 'or' and all(flat(x) for x in ty[1])


def listfold(tids, ty):
    """every element of a list has type ty"""
    name = 'all_' + re.sub(r'[^A-Za-z0-9]+', '_', repr(ty))
    f = FOLDS.get(name)
    if f is None:
        if flat(ty):
            f = Fold(name, [I, I], [], B, T, elem=lambda v, e: has_type(tids, ty, v[0], v[1], None), op=z3.And, univ='all')
        else:
            f = Fold(name, [I, I], [], B, T, op=z3.And, univ='all', heapdep=True,
                     elem=lambda v, e, ver: has_type(tids, ty, v[0], v[1], ver if isinstance(ver, HeapView) else DummyView()))
        FOLDS[name] = f
    return f


def cnt_fold(tid):
    name = 'count_%d' % tid
    f = FOLDS.get(name)
    if f is None:
        f = FOLDS[name] = Fold(name, [I, I], [], I, z3.IntVal(0), elem=lambda v, e: z3.If(v[0] == tid, 1, 0),
                               op=lambda a, b: a + b, wf=lambda e, a, i, j, x, v: [e >= 0, z3.Implies(j >= i, e <= j - i)])
    return f


# ------------------------------------------------------------------ number readers
pint = z3.Function('parseint', core.Str, I, I, I)
pint_ok = z3.Function('parseint_ok', core.Str, I, I, B)


@external('strconv.ParseInt')
def x_parseint(S, args, st, stack, ins, caller):
    s, b, n = args
    v = pint(s, b, n)
    ok = pint_ok(s, b, n)
    w = z3.If(n == 0, 64, n)
    st.assume(v >= -2 ** 63, v < 2 ** 63)
    e = new_error(S, st)
    return [('ret', st, [v, IfaceV(z3.If(ok, 0, e.tid), z3.If(ok, 0, e.pay))])]


@external('strconv.Atoi')
def x_atoi(S, args, st, stack, ins, caller):
    s = args[0]
    for t in ('8', '16', '32', '64'):
        st.assume(pint(lit(t), 10, 0) == int(t), pint_ok(lit(t), 10, 0))
    return x_parseint(S, [s, z3.IntVal(10), z3.IntVal(0)], st, stack, ins, caller)


# ------------------------------------------------------------------ views
class A:
    """an action's view of its captured values"""

    def __init__(self, C, info, fn, labels, types):
        self.C, self.info, self.fn, self.labels, self.types = C, info, fn, labels, types
        self.S, self.prog = C.S, C.S.prog

    def top(self):
        vs = self.C.field(self.C.args[0], self.info.vstack, True)
        return vs, self.C.elem(vs, z3.simplify(vs.len - 1), True)

    def lab(self, l):
        _, m = self.top()
        return self.C.mapget(m, lit(self.labels[l]), True)[0]

    def ptrval(self, T, pay):
        return self.S.unflatten(self.prog.tid('*' + T), [pay])

    def unbox(self, ts, l):
        v = self.lab(l)
        t = self.prog.tid(ts)
        terms = [z3.Function('unbox_%s_%d' % (ts, i), I, so)(v.pay) for i, (_, so, _) in enumerate(self.S.leaves(t))]
        self.C.st.assume(z3.Implies(v.tid == self.S.typeid(t), z3.And(*self.S.wf(t, terms, self.C.old.alloc))))
        return self.S.unflatten(t, terms)

    def str(self, l):
        return self.unbox('string', l)

    def tup(self, l, i):
        return self.C.elem(self.unbox('[]' + ANY, l), i, True)

    def text(self):
        cur = self.C.field(self.C.args[0], self.info.cur, True)
        t = self.C.field(cur, self.info.text)
        arr = self.C.arrs(t, True)[0]
        return strof(arr, t.off, t.len)


class Info:
    def __init__(self, prog):
        p = prog
        self.vstack = 'vstack'
        self.cur = self.fieldof(p, P + '.parser', lambda ts: ts == P + '.current')
        self.text = self.fieldof(p, P + '.current', lambda ts: ts == '[]byte' or ts == '[]uint8')
        self.state = 'state'
        self.sd = P + '.storeDict'
        ks = set()
        for f in p.funcs.values():
            if f.pkg != P:
                continue
            for b in f.blocks:
                for ins in b['instrs']:
                    m = ins.get('map') if ins['op'] == 'mapupdate' else ins.get('x') if ins['op'] == 'lookup' else None
                    k = ins.get('key') if ins['op'] == 'mapupdate' else ins.get('index')
                    if m and p.tstr(m['t']) == self.sd and k and k['k'] == 'const':
                        ks.add(k.get('s'))
        self.keys = ks

    def fieldof(self, p, t, pred):
        xs = [f['name'] for f in p.fields(p.tid(t)) if pred(p.tstr(f['type']))]
        if len(xs) != 1:
            raise Unsupported('field of %s' % t)
        return xs[0]


def setup(env, match, types, labtypes):
    prog = env.prog
    info = Info(prog)
    env.parser_info = info
    names = ['*ast.' + t for t in ('File', 'Constant', 'Context', 'Field', 'Struct', 'Pragma', 'EOS', 'Leftover', 'UnionMember', 'UnionCase',
                                   'Ignore', 'StructRef', 'CharType', 'IntType', 'IntegerList', 'IntegerRange', 'IntegerConstRef',
                                   'IntegerLiteral', 'IDRef', 'Fail', 'Ptr', 'NulTermString', 'FixedArrayMember', 'VarArrayMember')]
    names += ['[]ast.Member', '[]string', 'string', 'int64', '[]byte', '[]' + ANY]
    tids = {}
    for n in names:
        try:
            tids[n] = prog.tid(n) + 1
        except Exception:
            tids[n] = prog.tid(n.replace('byte', 'uint8')) + 1
    env.parser_tids = tids
    linger = ('list', PTR('Struct'))

    def view(C):
        return HeapView.of(C)

    def state_list(C, old=True):
        """the list of pending declarations: (slice, present)"""
        cur = C.field(C.args[0], info.cur, old)
        m = C.field(cur, info.state)
        v, dom = C.mapget(m, lit(sorted(info.keys)[0]), old)
        t = prog.tid('[]' + ANY)
        terms = [z3.Function('unbox_[]%s_%d' % (ANY, i), I, I)(v.pay) for i in range(4)]
        C.st.assume(z3.Implies(v.tid == C.S.typeid(t), z3.And(*C.S.wf(t, terms, C.old.alloc if old else C.st.alloc))))
        z = C.S.flatten(C.S.zero(t), t)
        return C.S.unflatten(t, [z3.If(dom, a, b) for a, b in zip(terms, z)]), dom, v, m

    def requires_for(key, fn, labels, extra=None):
        def req(C):
            a = A(C, info, fn, labels, None)
            out = []

            def need(lab, f):
                # when verifying the function itself, later clauses are read under the earlier ones
                out.append((lab, f))
                if C.S.fn is C.fn and C.S.contract is C.ct:
                    C.st.assume(f)
            need('parser is not nil', C.args[0].ref != 0)
            vs = C.field(C.args[0], info.vstack, True)
            need('some values are captured', vs.len >= 1)
            if labels:
                m = C.elem(vs, z3.simplify(vs.len - 1), True)
                need('captured values exist', m.ref != 0)
                for l in labels:
                    ty = labtypes[key][l]
                    need('%s is captured' % l, C.mapget(m, lit(labels[l]), True)[1])
                    v = a.lab(l)
                    need('%s holds a value of its type' % l, has_type(tids, ty, v.tid, v.pay, view(C), C.old.alloc))
                    for f in lit_facts(C, v, ty):
                        need('%s spells one of its alternatives' % l, f)
            if extra:
                for x in extra(C, a):
                    need(*x)
            return out
        return req

    def lit_facts(C, v, ty):
        alts = ty[1] if ty[0] == 'or' else [ty]
        if not all(x[0] == 'lit' for x in alts):
            return []
        ts = '[]byte' if '[]byte' in tnames else '[]uint8'
        r, o, n, c = parts(ts, v.pay, 4, [I] * 4)
        arr = C.S.read(C.st, C.ver(('E', ts[2:], 0), True), r)
        return [z3.Or(*[z3.And(strof(arr, o, n) == lit(x[1]), n == len(x[1]),
                               *[z3.Select(arr, o + i) == ch for i, ch in enumerate(x[1].encode())]) for x in alts])]
    tnames = set(tids)

    # ---- result specifications
    def eqv(C, a, t, got, want):
        """formula(s): field value got equals want"""
        S = C.S
        if callable(want):
            return want(got)
        if isinstance(got, IfaceV):
            return [z3.And(got.tid == want.tid, got.pay == want.pay)]
        if isinstance(got, Ptr):
            return [got.ref == (want.ref if isinstance(want, Ptr) else want)]
        if isinstance(got, SliceV):
            if want is None:
                return [got.ref == 0, got.len == 0]
            q = C.ghosts['q']
            g, w = C.arrs(got), C.arrs(want, True)
            return [got.len == want.len, z3.Implies(q < got.len, z3.And(*[
                z3.Select(x, got.off + q) == z3.Select(y, want.off + q) for x, y in zip(g, w)]))]
        return [got == want]

    def obj(C, a, what, val, T, fields, fresh=False):
        """val (interface) is a pointer to a T with exactly these field values"""
        out = [('%s is a %s' % (what, T), z3.And(val.tid == tids['*' + T], val.pay != 0))]
        if fresh:
            out.append(('%s is a new object' % what, val.pay >= C.old.alloc))
        p = a.ptrval(T, val.pay)
        have = [f['name'] for f in prog.fields(prog.tid(T))]
        for f in have:
            if f not in fields:
                raise Unsupported('%s has a field %s the specification does not know' % (T, f))
        for f, w in fields.items():
            got = C.field(p, f)
            for i, e in enumerate(eqv(C, a, None, got, w)):
                out.append(('%s.%s is what was written%s' % (T, f, '' if i == 0 else ' (contents)'), e))
        return out

    def sub(C, a, what, T, fields):
        def g(got):
            return [f for _, f in obj(C, a, what, got, T, fields)]
        return g

    def noerr(C):
        return [('no error', z3.And(C.res[1].tid == 0))]

    NILV = IfaceV(z3.IntVal(0), z3.IntVal(0))

    def opt(C, v, then, els=NILV):
        """then if v is present, els otherwise; both single terms or interfaces"""
        if isinstance(then, IfaceV):
            return IfaceV(z3.If(v.tid != 0, then.tid, els.tid), z3.If(v.tid != 0, then.pay, els.pay))
        return z3.If(v.tid != 0, then, els)

    def listof(C, a, l, ts, tail=None, head=None, pick=None, nonnil=True):
        """slice holding (head,) elements of list l in order (, tail if present)"""
        src = a.unbox('[]' + ANY, l)
        q = C.ghosts['q']

        def g(got):
            w = C.arrs(src, True)
            gg = C.arrs(got)
            h = 0 if head is None else 1
            n = src.len + h
            conv = (lambda t, p: [t, p]) if len(gg) == 2 else (lambda t, p: [p])
            fs = []
            if tail is None:
                fs.append(got.len == n)
            else:
                tv = a.lab(tail)
                fs.append(got.len == z3.If(tv.tid == 0, n, n + 1))
                fs.append(z3.Implies(tv.tid != 0, z3.And(*[z3.Select(x, got.off + n) == y for x, y in zip(gg, conv(tv.tid, tv.pay))])))
            if head is not None:
                fs.append(z3.And(*[z3.Select(x, got.off) == y for x, y in zip(gg, head)]))
            t, p = z3.Select(w[0], src.off + q), z3.Select(w[1], src.off + q)
            el = pick(t, p) if pick else conv(t, p)
            fs.append(z3.Implies(q < src.len, z3.And(*[z3.Select(x, got.off + q + h) == y for x, y in zip(gg, el)])))
            if nonnil:
                fs.append(got.ref != 0)
            return fs
        return g

    def pick3(C, ts=None):
        """element 3 of a tuple"""
        def g(t, p):
            r, o, n, c = parts('[]' + ANY, p, 4, [I] * 4)
            arr = view(C).arrs(r)
            pay = z3.Select(arr[1], o + 3)
            if ts == 'string':
                return [z3.Function('unbox_string_0', I, core.Str)(pay)]
            return [pay]
        return g

    def same(l):
        return lambda C, a: [('value is passed through', z3.And(C.res[0].tid == a.lab(l).tid, C.res[0].pay == a.lab(l).pay))]

    def nilres(C, a):
        return [('no value', C.res[0].tid == 0)]

    def boxed(C, ts):
        v = C.res[0]
        t = prog.tid(ts)
        terms = [z3.Function('unbox_%s_%d' % (ts, i), I, so)(v.pay) for i, (_, so, _) in enumerate(C.S.leaves(t))]
        return [('value is a %s' % ts, v.tid == tids[ts])], C.S.unflatten(t, terms)

    def members_of(C, T):
        f, s = boxed(C, '[]ast.Member')
        m = C.elem(s, 0)
        return f + [('exactly one member', s.len == 1), ('it is the directive', z3.And(m.tid == tids['*' + T], m.pay != 0))]

    def ctxs(C, a):
        """context names of an optional (__ ContextRefs) tuple"""
        v = a.lab('ctx')
        t3 = a.tup('ctx', 1)
        terms = [z3.Function('unbox_[]string_%d' % i, I, I)(t3.pay) for i in range(4)]
        src = C.S.unflatten(prog.tid('[]string'), terms)
        q = C.ghosts['q']

        def g(got):
            w, gg = C.arrs(src, True), C.arrs(got)
            return [z3.Implies(v.tid == 0, got.len == 0),
                    z3.Implies(v.tid != 0, z3.And(got.len == src.len, z3.Implies(z3.And(q < got.len), z3.Select(gg[0], got.off + q)
                                                                                 == z3.Select(w[0], src.off + q))))]
        return g

    def e_struct(C, a):
        return obj(C, a, 'value', C.res[0], 'ast.Struct', {
            'Name': a.str('n'), 'Contexts': ctxs(C, a), 'Members': listof(C, a, 'ms', None, tail='e')}) + noerr(C)

    def e_extern(C, a):
        return obj(C, a, 'value', C.res[0], 'ast.Struct', {
            'Name': a.str('n'), 'Contexts': ctxs(C, a), 'Members': lambda got: [got.ref == 0, got.len == 0]}) + noerr(C)

    def e_idlist(C, a):
        f, s = boxed(C, '[]string')
        return f + [('identifiers as written (%d)' % i, x) for i, x in enumerate(
            listof(C, a, 'ns', None, head=[a.str('n')], pick=pick3(C, 'string'))(s))] + noerr(C)

    def e_ufields(C, a):
        f, s = boxed(C, '[]ast.Member')
        return f + [('members as written (%d)' % i, x) for i, x in enumerate(listof(C, a, 'ms', None, tail='e')(s))] + noerr(C)

    def e_text(C, a):
        f, s = boxed(C, 'string')
        return f + [('the text matched', s == a.text())] + noerr(C)

    def e_int(C, a):
        f, v = boxed(C, 'int64')
        ok = pint_ok(a.text(), 0, 64)
        return f + [('the number written', z3.Implies(ok, v == pint(a.text(), 0, 64))),
                    ('an error exactly when the number is out of range', (C.res[1].tid == 0) == ok)]

    def e_inttype(C, a):
        v = a.lab('b')
        ts = '[]byte' if '[]byte' in tnames else '[]uint8'
        r, o, n, c = parts(ts, v.pay, 4, [I] * 4)
        arr = C.S.read(C.st, C.ver(('E', ts[2:], 0), True), r)
        txt = strof(arr, o, n)
        sz = z3.IntVal(0)
        for w in ('8', '16', '32', '64'):
            sz = z3.If(txt == lit(w), int(w), sz)
        return obj(C, a, 'value', C.res[0], 'ast.IntType', {'Size': sz, 'Constraint': z3.IntVal(0)}, fresh=True) + noerr(C)

    def e_sminteger(C, a):
        t, c = a.lab('t'), a.lab('cst')
        ip = a.ptrval('ast.IntType', t.pay)
        return obj(C, a, 'value', C.res[0], 'ast.Field', {'Name': a.str('n'), 'Type': t}) + [
            ('width unchanged', C.field(ip, 'Size') == C.field(ip, 'Size', True)),
            ('constraint as written', C.field(ip, 'Constraint').ref == z3.If(c.tid != 0, c.pay, C.field(ip, 'Constraint', True).ref))] + noerr(C)

    def m_sminteger(C, a):
        return [(('O', 'ast.IntType', i), a.lab('t').pay) for i in range(len(C.S.leaves(prog.tid('ast.IntType'))))]

    def e_union(C, a):
        l = a.lab('l')
        return obj(C, a, 'value', C.res[0], 'ast.UnionMember', {
            'Name': a.str('n'), 'Tag': a.lab('t').pay, 'Length': opt(C, l, l), 'Cases': listof(C, a, 'cs', None)}) + noerr(C)

    def e_ucase(C, a):
        c, fs = a.lab('cse'), a.lab('fs')
        src = a.unbox('[]ast.Member', 'fs')
        q = C.ghosts['q']

        def g(got):
            w, gg = C.arrs(src, True), C.arrs(got)
            return [z3.If(fs.tid == 0, got.len == 0, got.len == src.len),
                    z3.Implies(z3.And(fs.tid != 0, q < got.len), z3.And(*[z3.Select(x, got.off + q) == z3.Select(y, src.off + q)
                                                                         for x, y in zip(gg, w)]))]
        return obj(C, a, 'value', C.res[0], 'ast.UnionCase', {
            'Case': z3.If(c.tid == 0, z3.IntVal(0), c.pay), 'Members': g}) + noerr(C)

    def field(inner):
        return lambda C, a: obj(C, a, 'value', C.res[0], 'ast.Field', {'Name': a.str('n'), 'Type': inner(C, a)}) + noerr(C)

    def e_range(C, a):
        hi = a.lab('hi')
        return obj(C, a, 'value', C.res[0], 'ast.IntegerRange', {
            'Low': a.lab('lo'), 'High': opt(C, hi, a.tup('hi', 3))}) + noerr(C)

    def e_idref(C, a):
        s = a.lab('s')
        sc = z3.Function('unbox_string_0', I, core.Str)(a.tup('s', 0).pay)
        return obj(C, a, 'value', C.res[0], 'ast.IDRef', {'Scope': z3.If(s.tid != 0, sc, lit('')), 'Name': a.str('n')}) + noerr(C)

    def e_srefdecl(C, a):
        sp = a.ptrval('ast.Struct', a.lab('s').pay)
        return obj(C, a, 'value', C.res[0], 'ast.StructRef', {'Name': C.field(sp, 'Name', True)}) + noerr(C)

    KINDS = (('Constants', 'ast.Constant'), ('Contexts', 'ast.Context'), ('Structs', 'ast.Struct'), ('Pragmas', 'ast.Pragma'))

    def file_extra(C, a):
        ds = a.unbox('[]' + ANY, 'ds')
        L, dom, v, m = state_list(C)
        return [('pending declarations are structs', z3.Implies(dom, has_type(tids, linger, v.tid, v.pay, view(C)))),
                ('pending declarations are stored apart', z3.Implies(dom, z3.Or(L.ref == 0, L.ref != ds.ref))),
                ('not too many declarations', ds.len + L.len <= core.MAXLEN)]

    def e_file(C, a):
        ds = a.unbox('[]' + ANY, 'ds')
        L, dom, v, m = state_list(C)
        d, l = C.arrs(ds, True), C.arrs(L, True)
        q = C.ghosts['q']
        out = [('value is a file', z3.And(C.res[0].tid == tids['*ast.File'], C.res[0].pay != 0))]
        p = a.ptrval('ast.File', C.res[0].pay)
        for f, ty in KINDS:
            n = cnt_fold(tids['*' + ty])
            got = C.field(p, f)
            g = C.arrs(got)[0]
            nd = n(d, ds.off, z3.simplify(ds.off + ds.len))
            out.append(('number of %s' % f, got.len == nd + n(l, L.off, z3.simplify(L.off + L.len))))
            pos = n(d, ds.off, z3.simplify(ds.off + q))
            out.append(('%s holds each top-level declaration of its kind in order' % f, z3.Implies(
                z3.And(q < ds.len, z3.Select(d[0], ds.off + q) == tids['*' + ty]),
                z3.Select(g, got.off + pos) == z3.Select(d[1], ds.off + q))))
            pos = n(l, L.off, z3.simplify(L.off + q))
            out.append(('%s then holds each nested declaration in order' % f, z3.Implies(
                z3.And(q < L.len, z3.Select(l[0], L.off + q) == tids['*' + ty]),
                z3.Select(g, got.off + nd + pos) == z3.Select(l[1], L.off + q))))
        return out + noerr(C)

    def m_file(C, a):
        ds = a.unbox('[]' + ANY, 'ds')
        return [(('E', ANY, i), ds.ref) for i in range(2)]

    SPEC = {
        ('File', 0): (e_file, m_file, file_extra),
        ('ConstDeclaration', 0): lambda C, a: obj(C, a, 'value', C.res[0], 'ast.Constant', {
            'Name': a.str('n'), 'Value': a.unbox('int64', 'v')}) + noerr(C),
        ('ContextDeclaration', 0): lambda C, a: obj(C, a, 'value', C.res[0], 'ast.Context', {
            'Name': a.str('n'), 'Members': listof(C, a, 'fs', None, nonnil=False)}) + noerr(C),
        ('ContextMember', 0): lambda C, a: obj(C, a, 'value', C.res[0], 'ast.Field', {'Name': a.str('n'), 'Type': a.lab('t')}) + noerr(C),
        ('StructDecl', 0): e_struct,
        ('ExternDeclaration', 0): e_extern,
        ('PragmaDeclaration', 0): lambda C, a: obj(C, a, 'value', C.res[0], 'ast.Pragma', {
            'Type': a.str('n'), 'Options': a.unbox('[]string', 'opts')}) + noerr(C),
        ('StructEOS', 0): lambda C, a: obj(C, a, 'value', C.res[0], 'ast.EOS', {}) + noerr(C),
        ('SMFixedArray', 0): field(lambda C, a: sub(C, a, 'type', 'ast.FixedArrayMember', {'Base': a.lab('b'), 'Size': a.lab('s')})),
        ('SMVarArray', 0): field(lambda C, a: sub(C, a, 'type', 'ast.VarArrayMember', {'Base': a.lab('b'), 'Constraint': a.lab('l')})),
        ('SMRemainder', 0): field(lambda C, a: sub(C, a, 'type', 'ast.VarArrayMember', {'Base': a.lab('b'), 'Constraint': NILV})),
        ('Leftover', 0): lambda C, a: obj(C, a, 'value', C.res[0], 'ast.Leftover', {'Num': a.lab('i')}) + noerr(C),
        ('SMInteger', 0): (e_sminteger, m_sminteger, None),
        ('SMPosition', 0): field(lambda C, a: sub(C, a, 'type', 'ast.Ptr', {})),
        ('SMString', 0): field(lambda C, a: sub(C, a, 'type', 'ast.NulTermString', {})),
        ('SMStruct', 0): field(lambda C, a: a.lab('s')),
        ('SMUnion', 0): e_union,
        ('UnionMember', 0): e_ucase,
        ('UnionCase', 1): lambda C, a: nilres(C, a) + noerr(C),
        ('UnionBody', 0): lambda C, a: nilres(C, a) + noerr(C),
        ('UnionBody', 1): lambda C, a: members_of(C, 'ast.Fail') + noerr(C),
        ('UnionBody', 2): lambda C, a: members_of(C, 'ast.Ignore') + noerr(C),
        ('UnionFields', 0): e_ufields,
        ('ExtentSpec', 0): lambda C, a: obj(C, a, 'value', C.res[0], 'ast.Ignore', {}) + noerr(C),
        ('StructRef', 0): e_srefdecl,
        ('StructRef', 1): lambda C, a: obj(C, a, 'value', C.res[0], 'ast.StructRef', {'Name': a.str('n')}) + noerr(C),
        ('CharType', 0): lambda C, a: obj(C, a, 'value', C.res[0], 'ast.CharType', {}) + noerr(C),
        ('IntType', 0): e_inttype,
        ('IntList', 0): lambda C, a: obj(C, a, 'value', C.res[0], 'ast.IntegerList', {
            'Ranges': listof(C, a, 'ms', None, head=[a.lab('m').pay], pick=pick3(C))}) + noerr(C),
        ('IntListMember', 0): e_range,
        ('IntegerConstRef', 0): lambda C, a: obj(C, a, 'value', C.res[0], 'ast.IntegerConstRef', {'Name': a.str('n')}) + noerr(C),
        ('IntegerLiteral', 0): lambda C, a: obj(C, a, 'value', C.res[0], 'ast.IntegerLiteral', {'Value': a.unbox('int64', 'v')}) + noerr(C),
        ('IDRef', 0): e_idref,
        ('IdentifierList', 0): e_idlist,
        ('Identifier', 0): e_text,
        ('ConstIdentifier', 0): e_text,
        ('IntLiteral', 0): e_int,
    }

    used = {}
    for key, (fn, labels) in match.acts.items():
        sp = SPEC.get(key)
        if sp is None:
            r = RESULTS[key]
            assert r[0] == 'label', key
            sp = (lambda l: lambda C, a: same(l)(C, a) + noerr(C))(r[1])
        ens, mod, extra = sp if isinstance(sp, tuple) else (sp, None, None)
        # one function may serve several places of the grammar
        cname = fn if fn not in used else '%s#%s%d' % (fn, key[0], key[1])
        used[fn] = 1
        ct = Contract(
            fn, ghosts=[('q', 'nat')], root=True, nparams=1,
            props=['C10', 'C12'] + (['C11'] if key[0] in ('File', 'StructRef') else []),
            requires=requires_for(key, fn, labels, extra),
            ensures=(lambda ens, fn, labels: lambda C: ens(C, A(C, info, fn, labels, None)))(ens, fn, labels),
            modifies=(lambda mod, fn, labels: lambda C: mod(C, A(C, info, fn, labels, None)) if mod else [])(mod, fn, labels),
            doc='action %d of rule %s' % (key[1], key[0]))
        env.contracts[cname] = ct

    # ---- the state action: one more pending declaration
    for key, (fn, labels) in match.states.items():
        def s_extra(C, a):
            L, dom, v, m = state_list(C)
            return [('state exists', m.ref != 0),
                    ('pending declarations are structs', z3.Implies(dom, has_type(tids, linger, v.tid, v.pay, view(C)))),
                    ('not too many declarations', L.len < core.MAXLEN)]

        def s_ens(C, fn=fn, labels=labels):
            a = A(C, info, fn, labels, None)
            s = a.lab('s')
            L, dom, v, m = state_list(C)
            L2, dom2, v2, m2 = state_list(C, False)
            q, kk = C.ghosts['q'], C.ghosts['kk']
            w, g = C.arrs(L, True), C.arrs(L2)
            at = lambda arr, i: [z3.Select(x, i) for x in arr]
            o1, d1 = C.mapget(m, kk, True)
            o2, d2 = C.mapget(m2, kk, False)
            return [('no error', C.res[0].tid == 0),
                    ('state store is the same', m2.ref == m.ref),
                    ('a list is stored', z3.And(dom2, v2.tid == tids['[]' + ANY])),
                    ('one more pending declaration', L2.len == L.len + 1),
                    ('it is the struct just read, last', z3.And(*[x == y for x, y in zip(at(g, L2.off + L.len), [s.tid, s.pay])])),
                    ('earlier ones are kept', z3.Implies(q < L.len, z3.And(*[x == y for x, y in zip(at(g, L2.off + q), at(w, L.off + q))]))),
                    ('nothing else in the store changes', z3.Implies(kk != lit(sorted(info.keys)[0]), z3.And(
                        d1 == d2, o1.tid == o2.tid, o1.pay == o2.pay)))]

        def s_mod(C):
            L, dom, v, m = state_list(C)
            out = [(('E', ANY, i), L.ref) for i in range(2)]
            out += [(('MD', info.sd), m.ref)] + [(('MV', info.sd, i), m.ref) for i in range(2)]
            return out
        env.contracts[fn] = Contract(
            fn, ghosts=[('q', 'nat'), ('kk', 'str')], root=True, nparams=1, props=['C10', 'C11', 'C12'],
            requires=requires_for(('StructRef', 0), fn, labels, s_extra), ensures=s_ens, modifies=s_mod,
            doc='pending declarations')

    # ------------------------------------------------------------ loop invariants
    def scope(S, L):
        return S.fn.pkg == P

    def tpl(name, roles, fn):
        env.templates.append(Template(name, scope, roles, fn))
    LST = '[]' + ANY

    def pointwise(conv):
        def f(L, out, src):
            q = L.ghosts.get('q')
            if q is None:
                return []
            e = L.entryval('out')
            h = e.len
            w = [L.S.read(L.st, L.S.ver(L.root.old.heap, ('E', ANY, i)), src.ref) for i in range(2)]
            g = L.arrs(out)
            t, p = z3.Select(w[0], src.off + q), z3.Select(w[1], src.off + q)
            return [z3.Implies(q < L.k, z3.And(*[z3.Select(x, out.off + h + q) == y for x, y in zip(g, conv(L, t, p))]))]
        return f

    def keep(L, out):
        """elements there at loop entry stay"""
        e = L.entryval('out')
        g, w = L.arrs(out), L.entry_arrs(e)
        return [z3.Implies(e.len > 0, z3.And(*[z3.Select(x, out.off) == z3.Select(y, e.off) for x, y in zip(g, w)]))]
    OUT = '[]*ast.Field|[]*ast.UnionCase|[]*ast.IntegerRange|[]string|[]ast.Member|[]interface{}'
    tpl('list-len', [('out', 'any ' + OUT)], lambda L, out: [out.len == L.entryval('out').len + L.k])
    tpl('list-first', [('out', 'any ' + OUT)], keep)
    tpl('list-nonnil', [('out', 'any ' + OUT)], lambda L, out: [out.ref != 0])
    tpl('list-fresh', [('out', 'any ' + OUT)], lambda L, out: [out.ref >= L.S.alloc0])
    PT = '[]*ast.Field|[]*ast.UnionCase'
    tpl('list-ptrs', [('out', 'any ' + PT), ('src', 'rng ' + LST)], pointwise(lambda L, t, p: [p]))
    tpl('list-members', [('out', 'any []ast.Member'), ('src', 'rng ' + LST)], pointwise(lambda L, t, p: [t, p]))

    def t3(ts):
        def conv(L, t, p):
            r, o, n, c = parts('[]' + ANY, p, 4, [I] * 4)
            arr = view(L.root).arrs(r)
            pay = z3.Select(arr[1], o + 3)
            return [z3.Function('unbox_string_0', I, core.Str)(pay)] if ts == 'string' else [pay]
        return conv
    tpl('list-tuple-ptr', [('out', 'any []*ast.IntegerRange'), ('src', 'rng ' + LST)], pointwise(t3('ptr')))
    tpl('list-tuple-str', [('out', 'any []string'), ('src', 'rng ' + LST)], pointwise(t3('string')))

    # file: sublists by kind, in a new File object or in separate variables
    for f, ty in KINDS:
        n = cnt_fold(tids['*' + ty])

        def sel(L, got, src, n=n, ty=ty, part='pos'):
            q = L.ghosts.get('q')
            if q is None:
                return []
            w = L.arrs(src)
            cur, ent = got
            g = L.arrs(cur)[0]
            if part == 'len':
                return [cur.len == ent.len + n(w, src.off, z3.simplify(src.off + L.k))]
            if part == 'keep':
                eg = L.entry_arrs(ent)[0]
                return [z3.Implies(q < ent.len, z3.Select(g, cur.off + q) == z3.Select(eg, ent.off + q))]
            fs = []
            qs = [q]
            # positions in the concatenation of the top-level and the nested declarations
            ds = A(L.root, info, None, match.acts[('File', 0)][1], None).unbox('[]' + ANY, 'ds') if L.S.contract.doc == 'action 0 of rule File' else None
            if ds is not None:
                qs.append(z3.simplify(ds.len + q))
            for x in qs:
                if part == 'mono':
                    fs.append(z3.Implies(x < L.k, n(w, src.off, z3.simplify(src.off + x)) + z3.If(z3.Select(w[0], src.off + x) == tids['*' + ty], 1, 0)
                                         <= n(w, src.off, z3.simplify(src.off + L.k))))
                    continue
                fs.append(z3.Implies(z3.And(x < L.k, z3.Select(w[0], src.off + x) == tids['*' + ty]),
                                     z3.Select(g, cur.off + ent.len + n(w, src.off, z3.simplify(src.off + x))) == z3.Select(w[1], src.off + x)))
            return fs

        for part in ('len', 'pos', 'keep', 'mono'):
            tpl('file-%s-%s' % (f, part), [('v', 'any []*' + ty), ('src', 'rng ' + LST)],
                lambda L, v, src, sel=sel, part=part: sel(L, (v, L.entryval('v')), src, part=part))
