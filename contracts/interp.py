"""Contracts for the interpreter that walks the grammar table (properties C10, C11, C12).

What a node accepts is given by the usual meaning of parsing expressions: does(e, o) says whether the node e matches the text at
offset o, ends(e, o) where the match ends. parseExpr is proved to compute both, one kind of node at a time, with the
functions it calls executed in place and its own contract used for the nodes below.

Nodes are those of the parser's table: that every child is there and of a known kind, that character ranges come in pairs, and
that every rule referred to exists is evaluated on the table itself (grammar.py, nodes()).
"""
import copy

import z3
from gvc.core import I, B, Str, SliceV, Ptr, MapV, IfaceV, StructV, FuncV, Unsupported, fresh_const, lit, runes, runeat, strof
from gvc.fold import Rec
from gvc.spec import Contract, Template, external, new_error
from gvc import core

P = 'parse/internal/parser'
PP = P + '.'
R = '(*%s.parser).' % P
NAME = R + 'parseExpr'
ANY = 'interface{}'
T, F = z3.BoolVal(True), z3.BoolVal(False)
AI = z3.ArraySort(I, I)
KINDS = ('seqExpr', 'choiceExpr', 'zeroOrMoreExpr', 'oneOrMoreExpr', 'zeroOrOneExpr', 'notExpr', 'andExpr', 'labeledExpr', 'actionExpr',
         'ruleRefExpr', 'stateCodeExpr', 'litMatcher', 'charClassMatcher', 'anyMatcher')
MUTABLE = ('pt', 'cur', 'depth', 'vstack', 'rstack', 'maxFailPos', 'maxFailExpected', 'maxFailInvertExpected')

# meaning of nodes (type, reference) at an offset
does = z3.Function('does', I, I, I, B)
ends = z3.Function('ends', I, I, I, I)
# the character at a place of the text and its width: array, place, end of the text
chr_ = z3.Function('char_at', AI, I, I, I)
wid = z3.Function('char_width', AI, I, I, I)
low = z3.Function('lower', I, I)
inclass = z3.Function('in_class', I, I, B)
# children of lists in the table: array, place
ntid = z3.Function('node_type', I, I, I)
npay = z3.Function('node_ref', I, I, I)
isnode = z3.Function('in_table', I, B)
# the list of rules: its array, the rule at a place; rules by name, and their place in the list
isrules = z3.Function('is_rules', I, B)
ruleat = z3.Function('rule_at', I, I)
named = z3.Function('named', Str, B)
ruleof = z3.Function('rule_of', Str, I)
nameof = z3.Function('name_of', I, Str)
ruleidx = z3.Function('rule_index', Str, I)
nrules = z3.Int('number_of_rules')
# arrays holding pending declarations
ispend = z3.Function('pending', I, B)
# the name a node captures under; nodes that capture nothing under a name in the list they are in
labelof = z3.Function('label_of', I, Str)
keeps = z3.Function('keeps', I, I, Str, B)
# which place of the stack of captured values a map belongs to
slot = z3.Function('slot', I, I)
EOF, BAD = 0xfffd, 0xfffd

child = lambda a, i: (ntid(a, i), npay(a, i))
# nodes j..e of list a one after the other from o on: do they match, and where does the last one end
seqok = Rec('seqok', [I, I, I, I], B, unfold=lambda a, j, e, o: z3.If(j >= e, T, z3.And(
    does(*child(a, j), o), seqok(a, z3.simplify(j + 1), e, ends(*child(a, j), o)))))
seqend = Rec('seqend', [I, I, I, I], I, unfold=lambda a, j, e, o: z3.If(j >= e, o, seqend(a, z3.simplify(j + 1), e, ends(*child(a, j), o))))
seqkeeps = Rec('seqkeeps', [I, I, I, Str], B, unfold=lambda a, j, e, l: z3.If(j >= e, T, z3.And(
    keeps(*child(a, j), l), seqkeeps(a, z3.simplify(j + 1), e, l))))
# the first of the nodes j..e of list a that matches
altok = Rec('altok', [I, I, I, I], B, unfold=lambda a, j, e, o: z3.If(j >= e, F, z3.Or(does(*child(a, j), o), altok(a, z3.simplify(j + 1), e, o))))
altend = Rec('altend', [I, I, I, I], I, unfold=lambda a, j, e, o: z3.If(j >= e, o, z3.If(
    does(*child(a, j), o), ends(*child(a, j), o), altend(a, z3.simplify(j + 1), e, o))))
# end of as many matches in a row as there are
rest = Rec('rest', [I, I, I], I, unfold=lambda t, p, o: z3.If(does(t, p, o), rest(t, p, ends(t, p, o)), o))
hi = z3.Int('text_end')
text = z3.Const('text', AI)
at0 = z3.Int('text_start')
CH = lambda o: chr_(text, z3.simplify(at0 + o), hi)
WD = lambda o: wid(text, z3.simplify(at0 + o), hi)
fold_ = lambda ic, c: z3.If(ic, low(c), c)
# characters j.. of a literal from o on
litok = Rec('litok', [Str, B, I, I], B, unfold=lambda s, ic, j, o: z3.If(j >= runes(s), T, z3.And(
    fold_(ic, CH(o)) == runeat(s, j), litok(s, ic, z3.simplify(j + 1), z3.simplify(o + WD(o))))))
litend = Rec('litend', [Str, B, I, I], I, unfold=lambda s, ic, j, o: z3.If(j >= runes(s), o, litend(s, ic, z3.simplify(j + 1), z3.simplify(o + WD(o)))))
# is c among the characters, ranges, classes j..e
one = Rec('among', [AI, I, I, I], B, unfold=lambda A, j, e, c: z3.If(j >= e, F, z3.Or(A[j] == c, one(A, z3.simplify(j + 1), e, c))))
rng = Rec('among_ranges', [AI, I, I, I], B, unfold=lambda A, j, e, c: z3.If(j >= e, F, z3.Or(
    z3.And(A[j] <= c, c <= A[z3.simplify(j + 1)]), rng(A, z3.simplify(j + 2), e, c))))
cls = Rec('among_classes', [AI, I, I, I], B, unfold=lambda A, j, e, c: z3.If(j >= e, F, z3.Or(inclass(A[j], c), cls(A, z3.simplify(j + 1), e, c))))


def eof(o):
    return z3.And(CH(o) == EOF, WD(o) == 0)


# ------------------------------------------------------------------ external functions
def x_decode(S, args, st, stack, ins, caller):
    b = args[0]
    A = S.read(st, S.ver(st.heap, ('E', 'byte', 0)), b.ref)
    at, end = z3.simplify(b.off), z3.simplify(b.off + b.len)
    st.assume(z3.Implies(z3.And(b.ref == z3.Int('fix_data_0')), A == text))
    c, w = chr_(A, at, end), wid(A, at, end)
    st.assume(c >= 0, c <= 0x10ffff, w >= 0, w <= 4, w <= b.len, (w == 0) == (b.len == 0), z3.Implies(w == 0, c == EOF))
    return [('ret', st, [c, w])]


def x_lower(S, args, st, stack, ins, caller):
    r = low(args[0])
    st.assume(r >= 0, r <= 0x10ffff)
    return [('ret', st, [r])]


def x_is(S, args, st, stack, ins, caller):
    return [('ret', st, [inclass(args[0].ref, args[1])])]


def fresh_results(S, args, st, stack, ins, caller, name):
    raise Unsupported(name)


def x_text(S, args, st, stack, ins, caller):
    return [('ret', st, [S.fresh(S.prog.tid('string'), 'text', st)])]


def x_len(S, args, st, stack, ins, caller):
    n = fresh_const('len', I)
    st.assume(n >= 0, n <= core.MAXLEN)
    return [('ret', st, [n])]


def x_write(S, args, st, stack, ins, caller):
    return [('ret', st, [fresh_const('n', I), S.zero(S.prog.tid('error'))])]


def x_quote(S, args, st, stack, ins, caller):
    n = fresh_const('quoted', I)
    st.assume(n >= args[0].len + 2, n < core.MAXLEN)
    return [('ret', st, [SliceV(S.newref(st), z3.IntVal(0), n, n, args[0].elem)])]


def x_errorf(S, args, st, stack, ins, caller):
    return [('ret', st, [new_error(S, st)])]


def x_get(S, args, st, stack, ins, caller):
    """a map nobody else holds, emptied before it was put back"""
    p = S.prog
    t = p.tid(PP + 'storeDict')
    m = S.i_makemap(None, None, {'t': t}, st)
    return [('ret', st, [IfaceV(z3.IntVal(S.typeid(t)), m.ref, (t, m))])]


def x_put(S, args, st, stack, ins, caller):
    """whoever gets the map next may do anything with it"""
    v = args[1]
    if v.known is None or not isinstance(v.known[1], MapV):
        raise Unsupported('something else is put in the pool')
    m = v.known[1]
    k = st.ghost.get('$K')
    if k is not None:
        S.oblige(st, 'a map put in the pool is empty', z3.Or(m.ref == 0, z3.Not(z3.Select(S.mapdom(st, m), k))), 'post')
    ts = S.prog.tstr(m.t)
    S.write(st, ('MD', ts), m.ref, fresh_const('pooled', S.keysort(('MD', ts))))
    for i in range(len(S.leaves(S.prog.elem(m.t)))):
        S.write(st, ('MV', ts, i), m.ref, fresh_const('pooled', S.keysort(('MV', ts, i))))
    return [('ret', st, [])]


EXT = {
    'unicode/utf8.DecodeRune': x_decode, 'unicode.ToLower': x_lower, 'unicode.Is': x_is, 'strconv.AppendQuote': x_quote,
    '(*bytes.Buffer).WriteString': x_write, '(*bytes.Buffer).Len': x_len, '(*bytes.Buffer).String': x_text,
    'sort.Strings': lambda S, args, st, stack, ins, caller: [('ret', st, [])], 'errors.New': x_errorf, 'fmt.Sprintf': x_text, 'fmt.Printf': x_write, 'fmt.Errorf': x_errorf, 'strconv.Itoa': x_text, 'strings.Repeat': x_text, 'strings.Join': x_text,
    '(*sync.Pool).Get': x_get, '(*sync.Pool).Put': x_put,
}


# ------------------------------------------------------------------ the parser object
class View:
    def __init__(self, S, st, heap, p, alloc=None):
        self.S, self.st, self.hp, self.p, self.alloc = S, st, heap, p, alloc

    def load(self, path, t):
        return self.S.load(self.st, Ptr('O', self.p.T, self.p.ref, None, path, t), heap=self.hp, alloc=self.alloc)

    def get(self, *names):
        pr, t, path = self.S.prog, self.p.t, ()
        for n in names:
            for i, f in enumerate(pr.fields(t)):
                if f['name'] == n:
                    path, t = path + (i,), f['type']
                    break
            else:
                raise Unsupported('no field ' + n)
        return self.load(path, t)

    off = property(lambda s: s.get('pt', 'position', 'offset'))
    rn = property(lambda s: s.get('pt', 'rn'))
    w = property(lambda s: s.get('pt', 'w'))
    vstack = property(lambda s: s.get('vstack'))
    rstack = property(lambda s: s.get('rstack'))
    state = property(lambda s: s.get('cur', 'state'))

    def obj(self, ptr):
        return self.S.load(self.st, Ptr('O', ptr.T, ptr.ref, None, (), ptr.t), heap=self.hp, alloc=self.alloc)

    def errs(self):
        return self.obj(self.get('errs'))

    def frame(self, i):
        """captured values at place i of the stack"""
        v = self.vstack
        return self.S.load(self.st, Ptr('E', v.elem, v.ref, z3.simplify(v.off + i)), heap=self.hp, alloc=self.alloc)

    def at(self, m, k):
        """(present, type, value) of key k of a map"""
        x, ok = self.S.mapget(self.st, m, k, heap=self.hp, alloc=self.alloc)
        return ok, x.tid, x.pay


def same(a, b):
    return z3.And(a[0] == b[0], z3.Implies(a[0], z3.And(a[1] == b[1], a[2] == b[2])))


def setup(env, props=('C10', 'C11', 'C12')):
    prog = env.prog
    fn = prog.funcs.get(NAME)
    if fn is None:
        raise Unsupported('no ' + NAME)
    env.externals.update(EXT)
    env.invokers.append(lambda S, m, recv, args, rt, st, stack, ins, c: x_text(S, args, st, stack, ins, c) if m == 'Error' else None)
    env.merge = True
    PT = prog.tid('*' + PP + 'parser')
    FIELDS = prog.fields(prog.elem(PT))
    sd, vm = PP + 'storeDict', 'map[string]interface{}'
    tids = {k: prog.tid('*' + PP + k) + 1 for k in KINDS}
    known = lambda t, p: z3.And(z3.Or(*[t == x for x in tids.values()]), p != 0)
    nodes = {PP + k for k in KINDS} | {PP + 'rule'}

    # ---- what is known of the table
    def loaded(S, st, p, t, v, terms):
        out = []
        if p.root == 'E' and prog.tstr(p.T) == ANY:
            i = z3.simplify(p.idx)
            out.append(z3.Implies(isnode(p.ref), z3.And(terms[0] == ntid(p.ref, i), terms[1] == npay(p.ref, i), known(terms[0], terms[1]))))
        if p.root == 'E' and prog.tstr(p.T) == vm:
            out.append(z3.Or(terms[0] == 0, slot(terms[0]) == p.idx))
        if p.root == 'E' and prog.tstr(p.T) == '*' + PP + 'rule':
            out.append(z3.Implies(isrules(p.ref), terms[0] == ruleat(p.idx)))
        if p.root == 'O' and prog.tstr(p.T) == PP + 'grammar' and isinstance(v, SliceV):
            out += [isrules(v.ref), v.len == nrules, nrules >= 1, v.off == 0]
            for k in ('$N',):
                if k in st.ghost:
                    N = st.ghost[k]
                    out.append(z3.Implies(named(N), z3.And(0 <= ruleidx(N), ruleidx(N) < nrules, ruleat(ruleidx(N)) == ruleof(N), nameof(ruleof(N)) == N)))
        if p.root == 'O' and prog.tstr(p.T) in (PP + 'rule', PP + 'ruleRefExpr') and len(p.path) == 1 and prog.fields(p.T)[p.path[0]]['name'] == 'name':
            out.append(named(terms[0]))
            if prog.tstr(p.T) == PP + 'rule':
                out += [nameof(p.ref) == terms[0], ruleof(terms[0]) == p.ref, ruleat(ruleidx(terms[0])) == p.ref]
            else:
                out.append(terms[0] != lit(''))
        if p.root == 'O' and prog.tstr(p.T) in nodes:
            if isinstance(v, SliceV) and prog.tstr(v.elem) == ANY:
                out += [isnode(v.ref), v.ref != 0]
            if isinstance(v, IfaceV):
                out.append(known(v.tid, v.pay))
            if prog.tstr(p.T) == PP + 'labeledExpr' and len(p.path) == 1 and prog.fields(p.T)[p.path[0]]['name'] == 'label':
                out.append(terms[0] == labelof(p.ref))
        return out
    env.loadhook = loaded

    def stored(S, st, p, t, v, terms):
        if p.root == 'E' and prog.tstr(p.T) == vm:
            r, mine = terms[0], st.ghost.get('$slotted', ())
            if S.decide(st, r == 0) is True:
                return
            if S.decide(st, r >= S.alloc0) is True and not any(r.eq(x) for x in mine) and S.decide(st, slot(r) == p.idx) is None:
                # a new map finds its place
                st.ghost['$slotted'] = mine + (r,)
                st.assume(slot(r) == p.idx)
                return
            S.oblige(st, 'captured values keep their place', slot(r) == p.idx, 'post')
    env.storehook = stored
    env.newhook = lambda r: [z3.Not(ispend(r)), z3.Not(isnode(r)), z3.Not(isrules(r))]
    env.nonnull.add('*' + PP + 'rule')
    env.closed_ifaces.add(PP + 'Cloner')
    env.loose_slice |= {n for n in prog.funcs if n.startswith((PP, '(*' + PP))}
    env.maplen_facts = lambda S, st, m, n: [z3.Implies(n == 0, z3.Not(z3.Select(S.mapdom(st, m), st.ghost[k]))) for k in ('$l', '$K') if k in st.ghost]

    # ---- functions kept in the table
    def run(S, f, args, st, ins, c):
        """actions and state code: the code of the table, under contract in parser_actions.py"""
        if len(args) != 1 or not isinstance(args[0], Ptr) or prog.tstr(args[0].t) != PP + 'parser':
            return None
        v = View(S, st, st.heap, args[0])
        txt, pos, K = v.get('cur', 'text'), v.get('cur', 'pos', 'offset'), st.ghost['$K']
        e = new_error(S, st)
        bad = fresh_const('fails', B)
        err = IfaceV(z3.If(bad, e.tid, 0), z3.If(bad, e.pay, 0))
        st.ghost['raised'] = z3.Or(st.ghost['raised'], bad)
        st.ghost['ran'] = S.fnterm(f)
        st.ghost['runs'] = z3.simplify(st.ghost['runs'] + 1)
        st.ghost['ran_from'], st.ghost['ran_to'], st.ghost['ran_in'] = txt.off, z3.simplify(txt.off + txt.len), txt.ref
        st.ghost['ran_pos'] = pos
        st.ghost['top'] = v.frame(v.vstack.len - 1).ref
        a = v.at(v.state, K)
        st.ghost['was_there'], st.ghost['was_tid'], st.ghost['was_pay'] = a
        res = [err]
        if len(prog.types[prog.under(f.t)]['results'] if f.t is not None else [0]) == 2 or ins_results(prog, ins) == 2:
            x = IfaceV(fresh_const('made_tid', I), fresh_const('made', I))
            st.assume(x.tid >= 0)
            st.ghost['made_tid'], st.ghost['made'] = x.tid, x.pay
            res = [x, err]
        # the pending declarations may change
        m = v.state
        alloc0 = st.alloc
        st.alloc = fresh_const('alloc', I)
        st.assume(st.alloc >= alloc0)
        S.write(st, ('MD', sd), m.ref, fresh_const('pend', S.keysort(('MD', sd))))
        for i in range(2):
            S.write(st, ('MV', sd, i), m.ref, fresh_const('pend', S.keysort(('MV', sd, i))))
            key = ('E', ANY, i)
            S.touched.add(key)
            FN = z3.Function(core.fresh_name('H_pend'), I, S.keysort(key))
            st.heap[key] = core.Ver('frame', prev=S.ver(st.heap, key), keep=core.mkkeep(alloc0, [ispend]), fn=FN, key=key, val=[ispend], refbound=st.alloc)
        st.ghost['la_there'], st.ghost['la_tid'], st.ghost['la_pay'] = v.at(m, K)
        return [('ret', st, res)]
    env.funcvalues.append(run)

    # ---- contract
    fixed = [f['name'] for f in FIELDS if f['name'] not in MUTABLE]

    def fixc(S, name, t):
        return [z3.Const('fix_%s_%d' % (name, i), so) for i, (s, so, _) in enumerate(S.leaves(t))]

    def stats(v):
        st = v.obj(v.get('Stats'))
        return st.vals[[f['name'] for f in prog.fields(st.t)].index('ChoiceAltCnt')]

    def constants(v, f):
        x = v.S.flatten(v.get(f['name']), f['type'])
        return z3.And(*[a == b for a, b in zip(x, fixc(v.S, f['name'], f['type']))])
    def found(v, N):
        r, there = v.S.mapget(v.st, v.get('rules'), N, heap=v.hp, alloc=v.alloc)
        return z3.Implies(named(N), z3.And(there, r.ref == ruleof(N), ruleof(N) != 0))
    VALID = [('there is a parser', lambda v: v.p.ref != 0)] + [
        ('%s stays' % f['name'], lambda v, f=f: constants(v, f)) for f in FIELDS if f['name'] in fixed] + [
        ('counters are there', lambda v: z3.And(v.get('Stats').ref != 0, stats(v).ref != 0)),
        ('errors can be kept', lambda v: v.get('errs').ref != 0),
        ('rules are found', lambda v: found(v, v.st.ghost['$N'])),
        ('no memory of results', lambda v: z3.Not(v.get('memoize'))),
        ('no trace output', lambda v: z3.Not(v.get('debug'))),
        ('no limit', lambda v: v.get('maxExprCnt') == 2 ** 64 - 1),
        ('position in the text', lambda v: z3.And(0 <= v.off, v.off + v.w <= v.get('data').len, v.w >= 0)),
        ('current character', lambda v: z3.And(v.rn == CH(v.off), v.w == WD(v.off))),
        ('text', lambda v: z3.And(at0 == v.get('data').off, hi == v.get('data').off + v.get('data').len)),
        ('some rule is being read', lambda v: v.rstack.len >= 1),
        ('values can be captured', lambda v: z3.And(v.vstack.len >= 1, v.vstack.off == 0, v.frame(v.vstack.len - 1).ref != 0)),
        ('pending declarations are kept', lambda v: v.state.ref != 0),
        ('errors are kept', lambda v: z3.Implies(v.st.ghost['raised'], v.errs().len >= 1))]

    def valid(v):
        return [(l, f(v)) for l, f in VALID]
    old = lambda C: View(C.S, C.st, C.old.heap, C.args[0], C.old.alloc)
    new = lambda C: View(C.S, C.st, C.st.heap, C.args[0])
    G = [('q', 'nat'), ('l', 'str'), ('K', 'str'), ('j', 'nat'), ('N', 'str')]
    LAB = tids['labeledExpr']
    after = lambda st: (st.ghost['la_there'], st.ghost['la_tid'], st.ghost['la_pay'])

    def bind(C, names):
        """the contracts hold for any fixed values; a parser made in the function at hand has its own"""
        if C.S.contract.name not in (R + 'parse', PP + 'Parse'):
            return
        st, S, v = C.st, C.S, old(C)
        done = st.ghost.get('$bound', ())
        for f in FIELDS:
            if f['name'] in names and f['name'] not in done:
                st.assume(constants(v, f))
                if f['name'] == 'data':
                    d = v.get('data')
                    st.assume(at0 == d.off, hi == d.off + d.len, text == S.read(st, S.ver(C.old.heap, ('E', 'byte', 0)), d.ref))
        st.ghost['$bound'] = tuple(set(done) | set(names))

    def requires(C):
        bind(C, fixed)
        e = C.args[1]
        return [('a node of the table', known(e.tid, e.pay))] + valid(old(C))

    def ensures(C):
        a, b, e = old(C), new(C), C.args[1]
        q, l, K = C.ghosts['q'], C.ghosts['l'], C.ghosts['K']
        val, ok = C.res
        o = a.off
        V, W = a.vstack, b.vstack
        top = V.len - 1
        A0, A1 = a.frame(q), b.frame(q)
        return [('matches exactly when the node does', ok == does(e.tid, e.pay, o)),
                ('stops where the match ends', z3.Implies(ok, z3.And(b.off == ends(e.tid, e.pay, o), b.off >= o))),
                ('a failed attempt leaves the position', z3.Implies(z3.Not(ok), b.off == o)),
                ('a failed attempt leaves the pending declarations', z3.Implies(z3.Not(ok), same(b.at(b.state, K), a.at(a.state, K)))),
                ('captured values are stacked as before', z3.And(W.len == V.len, b.frame(top).ref == a.frame(top).ref)),
                ('captured values below are untouched', z3.Implies(q < top, z3.And(A0.ref == A1.ref, same(b.at(A1, l), a.at(A0, l))))),
                ('no value without a match', z3.Implies(z3.Not(ok), z3.And(val.tid == 0, val.pay == 0))),
                ('other captured values stay', z3.Implies(keeps(e.tid, e.pay, l), same(b.at(b.frame(top), l), a.at(a.frame(top), l)))),
                ('the value is captured', z3.Implies(z3.And(ok, e.tid == LAB, labelof(e.pay) == l, l != lit('')), same(
                    b.at(b.frame(top), l), (T, val.tid, val.pay)))),
                ('rules are stacked as before', b.rstack.len == a.rstack.len),
                ('pending declarations are in the same place or a new one', z3.Or(b.state.ref == a.state.ref, b.state.ref >= C.old.alloc)),
                ('no error is lost', b.errs().len >= a.errs().len)] + valid(b)

    leaves = lambda S, t: len(S.leaves(prog.tid(t)))
    anyref = lambda r: T

    def part(S, *names):
        """places of parts of the parser"""
        t, path = prog.elem(PT), ()
        for n in names:
            i = [f['name'] for f in prog.fields(t)].index(n)
            path, t = path + (i,), prog.fields(t)[i]['type']
        start, n, _, _ = S.locate(prog.elem(PT), path)
        return [('O', PP + 'parser', i) for i in range(start, start + n)]
    CNT = ('map[string]map[string]int', 'map[string]int')

    def changed(S, what=('pt', 'cur', 'depth', 'vstack', 'rstack', 'maxFailPos', 'maxFailExpected', 'maxFailInvertExpected', 'errors', 'count',
                         'values', 'wanted', 'rules', 'choices', 'state', 'pending')):
        """(place, what of it may change)"""
        out = []
        for w in what:
            if w == 'errors':
                out += [(('O', PP + 'errList', i), 'errs') for i in range(4)] + [(('E', 'error', i), None) for i in range(2)]
            elif w == 'count':
                out.append((('O', PP + 'Stats', 0), 'Stats'))
            elif w == 'values':
                out += [(('E', vm, 0), None), (('MD', vm), None), (('MV', vm, 0), None), (('MV', vm, 1), None)]
            elif w == 'rules_':
                out += [(k, 'parser') for k in part(S, 'rules')]
            elif w == 'slots':
                out += [(('E', vm, 0), None)]
            elif w == 'wanted':
                out += [(('E', 'string', 0), None)]
            elif w == 'rules':
                out += [(('E', '*' + PP + 'rule', 0), None)]
            elif w == 'choices':
                out += [(('MD', m), None) for m in CNT] + [(('MV', m, 0), None) for m in CNT]
            elif w == 'state':
                out += [(('MD', sd), 'state'), (('MV', sd, 0), 'state'), (('MV', sd, 1), 'state')]
            elif w == 'pending':
                out += [(('E', ANY, i), 'pending') for i in range(2)]
            else:
                out += [(k, 'parser') for k in part(S, *w.split('.'))]
        return out

    def frame_of(what=None, parser=True):
        def f(C):
            if not parser:
                return [(k, ispend if w == 'pending' else anyref) for k, w in changed(C.S, what)]
            v = old(C)
            at = {'parser': v.p.ref, 'errs': v.get('errs').ref, 'Stats': v.get('Stats').ref, 'state': v.state.ref, 'pending': ispend, None: anyref}
            return [(k, at[w]) for k, w in (changed(C.S) if what is None else changed(C.S, what))]
        return f
    modifies = frame_of()

    # ---- what loops change: what the function may change, or what the parser held when the loop was entered
    def loopframes(S, L, key):
        if NAME not in S.contract.name or key not in {k for k, _ in changed(S)}:
            return []
        v = View(S, L.st, L.entry.heap, S.args[0], L.entry.alloc)
        if key[1] == sd:
            r = v.state.ref
            return [('state', lambda x: x == r)]
        w = dict(changed(S))[key]
        at = {'parser': v.p.ref, 'errs': v.get('errs').ref, 'Stats': v.get('Stats').ref}
        if w in at:
            r = at[w]
            return [('object', lambda x: x == r)]
        return [('listed', ispend if w == 'pending' else anyref)]
    env.frames.append(loopframes)

    def insts(S, args, st):
        v = View(S, st, st.heap, args[0])
        return {'q': [z3.simplify(v.vstack.len - 2)]}
    def record(C, res):
        """keeps the results of the calls made"""
        st, S = C.st, C.S
        if 'calls' not in st.ghost:
            return
        K = st.ghost['$K']
        a, b = old(C), new(C)
        S.oblige(st, 'nothing happens to pending declarations between attempts', same(a.at(a.state, K), after(st)), 'post')
        n, v = st.ghost['calls'], res[0]
        st.ghost['hist_tid'], st.ghost['hist_pay'] = z3.Store(st.ghost['hist_tid'], n, v.tid), z3.Store(st.ghost['hist_pay'], n, v.pay)
        st.ghost['calls'] = z3.simplify(n + 1)
        st.ghost['matched'] = res[1]
        st.ghost['la_there'], st.ghost['la_tid'], st.ghost['la_pay'] = b.at(b.state, K)
    GHOST = ('raised', 'ran', 'ran_from', 'ran_to', 'ran_in', 'ran_pos', 'top', 'was_there', 'was_tid', 'was_pay', 'made', 'made_tid')

    busy = []

    def touching(name):
        """places written, new objects included; the memory of results is never in use"""
        def f(S):
            if name in busy:
                return set()
            busy.append(name)
            try:
                out = set(env.static_touched(S, name)) | {k for k, _ in changed(S)}
            finally:
                busy.pop()
            return {k for k in out if 'map[interface{}]' not in k[1]}
        return f
    touches = touching(NAME + '#all')
    prog.funcs[NAME + '#all'] = fn
    env.add(Contract(NAME, requires=requires, ensures=ensures, modifies=modifies, by_name=True, ghosts=G, insts=insts, trusted=True, touches=touches,
                     modghosts=GHOST, nparams=2, shape=record, shown=True, doc='shown for each kind of node'))

    # ---- functions that keep the parser's books; executed in place where they no longer look like this
    def prep(C):
        C.st.ghost['$K'], C.st.ghost['$l'], C.st.ghost['$N'] = C.ghosts['K'], C.ghosts['l'], C.ghosts['N']

    def helper(name, n, what, requires, ensures, **kw):
        if R + name in prog.funcs:
            prog.funcs[R + name + '#all'] = prog.funcs[R + name]
            env.add(Contract(R + name, requires=requires, ensures=ensures, modifies=frame_of(what), touches=touching(R + name + '#all'),
                             by_name=True, ghosts=G, nparams=n, props=list(props), prepare=prep, **kw))
    there = lambda C: [('there is a parser', C.args[0].ref != 0), ('no trace output', z3.Not(old(C).get('debug')))]
    names = {f['name']: f['type'] for f in FIELDS}

    helper('addErrAt', 4, ('errors',), lambda C: there(C) + [('errors can be kept', old(C).get('errs').ref != 0)],
           lambda C: [('one more error', new(C).errs().len == old(C).errs().len + 1)])
    helper('failAt', 4, ('maxFailPos', 'maxFailExpected', 'wanted'), there, lambda C: [])

    def read_req(C):
        bind(C, ['data'])
        v = old(C)
        d = v.get('data')
        return there(C) + [('errors can be kept', v.get('errs').ref != 0), ('position', z3.And(v.off >= 0, v.w >= 0, v.off + v.w <= d.len)),
                           ('data stays', z3.And(*[x == y for x, y in zip(C.S.flatten(d, names['data']), fixc(C.S, 'data', names['data']))])),
                           ('text', z3.And(at0 == d.off, hi == d.off + d.len, text == C.S.read(C.st, C.S.ver(C.old.heap, ('E', 'byte', 0)), d.ref)))]

    def read_ens(C):
        a, b = old(C), new(C)
        return [('next character', z3.And(b.off == a.off + a.w, b.rn == CH(b.off), b.w == WD(b.off), b.w >= 0, b.off + b.w <= b.get('data').len)),
                ('width', (b.w == 0) == (b.off == b.get('data').len)), ('no error is lost', b.errs().len >= a.errs().len)]
    helper('read', 1, ('pt', 'errors'), read_req, read_ens)

    def push_req(C):
        v = old(C)
        return there(C) + [('values', v.vstack.off == 0)]

    def push_ens(C):
        a, b = old(C), new(C)
        q, l = C.ghosts['q'], C.ghosts['l']
        n = a.vstack.len
        return [('one more', z3.And(b.vstack.len == n + 1, b.vstack.off == 0, b.frame(n).ref != 0, slot(b.frame(n).ref) == n)),
                ('nothing captured yet', z3.Not(b.at(b.frame(n), l)[0])),
                ('others stay', z3.Implies(q < n, b.frame(q).ref == a.frame(q).ref)),
                ('last one stays', z3.Implies(n > 0, b.frame(n - 1).ref == a.frame(n - 1).ref))]
    helper('pushV', 1, ('vstack', 'slots'), push_req, push_ens)

    def pop_req(C):
        v = old(C)
        return there(C) + [('values', z3.And(v.vstack.off == 0, v.vstack.len >= 1))]

    def pop_ens(C):
        a, b = old(C), new(C)
        q = C.ghosts['q']
        n = a.vstack.len - 1
        return [('one less', z3.And(b.vstack.len == n, b.vstack.off == 0)),
                ('others stay', z3.Implies(q < n, b.frame(q).ref == a.frame(q).ref)),
                ('last one stays', z3.Implies(n > 0, b.frame(n - 1).ref == a.frame(n - 1).ref))]
    helper('popV', 1, ('vstack', 'slots'), pop_req, pop_ens)
    helper('cloneState', 1, ('state',), there, lambda C: [
        ('a new one', z3.And(C.res[0].ref != 0, C.res[0].ref >= C.old.alloc)), ('same declarations', same(new(C).at(C.res[0], C.ghosts['K']), old(C).at(old(C).state, C.ghosts['K']))),
        ('the old one stays', same(new(C).at(new(C).state, C.ghosts['K']), old(C).at(old(C).state, C.ghosts['K'])))])

    helper('restoreState', 2, ('state', 'cur.state'), lambda C: there(C) + [('another one', z3.And(C.args[1].ref != 0, C.args[1].ref != old(C).state.ref))],
           lambda C: [('put in place', new(C).state.ref == C.args[1].ref),
                      ('as saved', same(new(C).at(C.args[1], C.ghosts['K']), old(C).at(C.args[1], C.ghosts['K'])))])
    helper('incChoiceAltCnt', 3, ('choices',), lambda C: there(C) + [('a rule is read', z3.And(old(C).rstack.len >= 1)), ('counters', z3.And(
        old(C).get('Stats').ref != 0, stats(old(C)).ref != 0)), ('node', C.args[1].ref != 0)], lambda C: [])

    # ---- from the text to the first rule
    if R + 'buildRulesTable' in prog.funcs:
        env.add(Contract(R + 'buildRulesTable', requires=lambda C: [('there is a parser', C.args[0].ref != 0), ('there is a grammar', C.args[1].ref != 0)],
                         ensures=lambda C: [('rules are found', found(new(C), C.ghosts['N'])), ('there is a table', new(C).get('rules').ref != 0)],
                         modifies=frame_of(('rules_',)), touches=touching(R + 'buildRulesTable#all'), by_name=True, ghosts=G, nparams=2, props=list(props), prepare=prep))
        prog.funcs[R + 'buildRulesTable#all'] = prog.funcs[R + 'buildRulesTable']

    def start_req(C):
        v = old(C)
        return [('there is a parser', v.p.ref != 0), ('there is a grammar', C.args[1].ref != 0),
                ('counters are there', z3.And(v.get('Stats').ref != 0, stats(v).ref != 0)), ('errors can be kept', v.get('errs').ref != 0),
                ('no error yet', z3.And(v.errs().len == 0, z3.Not(v.st.ghost['raised']))), ('at the start', z3.And(v.off == 0, v.w == 0)),
                ('no memory of results', z3.Not(v.get('memoize'))), ('no trace output', z3.Not(v.get('debug'))), ('no limit', v.get('maxExprCnt') == 2 ** 64 - 1),
                ('nothing captured yet', z3.And(v.vstack.len == 0, v.vstack.off == 0)), ('no rule yet', v.rstack.len == 0),
                ('pending declarations are kept', v.state.ref != 0), ('the first rule is read', z3.And(named(v.get('entrypoint')), v.get('entrypoint') == v.st.ghost['$N']))]

    def outcome(C, p):
        val, err = C.res
        st, g = C.st, C.st.ghost
        rt = prog.tid(PP + 'rule')
        e = C.S.load(st, Ptr('O', rt, ruleof(p), None, (1 + [f['name'] for f in prog.fields(rt)].index('expr') - 1,), prog.tid(ANY)), heap=C.old.heap, alloc=C.old.alloc)
        return [('no error only if the text matches', z3.Implies(err.tid == 0, does(e.tid, e.pay, z3.IntVal(0)))),
                ('an error raised while building the tree is reported', z3.Implies(g['raised'], err.tid != 0)),
                ('the tree is what the first rule yields', z3.Implies(err.tid == 0, z3.And(g['calls'] == 1, val.tid == g['hist_tid'][0], val.pay == g['hist_pay'][0])))]

    def start_ens(C):
        v = new(C)
        rt = prog.tid(PP + 'rule')
        return outcome(C, old(C).get('entrypoint')) + [('an error if there is one', (C.res[1].tid == 0) == z3.And(C.st.ghost['matched'], v.errs().len == 0))]

    def prep_ghosts(C):
        prep(C)
        st = C.st
        for n in GHOST:
            st.ghost[n] = z3.Const('g_' + n, B if n in ('raised', 'was_there') else I)
        st.ghost['calls'] = st.ghost['runs'] = z3.IntVal(0)
        st.ghost['hist_tid'], st.ghost['hist_pay'] = z3.Const('hist_tid', AI), z3.Const('hist_pay', AI)
        st.ghost['matched'] = z3.Const('matched', B)
        st.ghost['la_there'], st.ghost['la_tid'], st.ghost['la_pay'] = F, z3.IntVal(0), z3.IntVal(0)

    def prep_start(C):
        prep_ghosts(C)
        st, v = C.st, old(C)
        st.ghost['la_there'], st.ghost['la_tid'], st.ghost['la_pay'] = v.at(v.state, C.ghosts['K'])
        st.assume(v.get('entrypoint') == C.ghosts['N'])
    ALLOF = ('rules_', 'pt', 'cur', 'depth', 'vstack', 'rstack', 'maxFailPos', 'maxFailExpected', 'maxFailInvertExpected', 'errors', 'count',
             'values', 'wanted', 'rules', 'choices', 'state', 'pending')
    if R + 'parse' in prog.funcs:
        prog.funcs[R + 'parse#all'] = prog.funcs[R + 'parse']
    env.add(Contract(R + 'parse', root=True, requires=start_req, ensures=start_ens, modifies=frame_of(ALLOF), touches=touching(R + 'parse#all'), by_name=True, ghosts=G,
                     prepare=prep_start, nparams=2, props=list(props), modghosts=GHOST + ('calls', 'runs', 'hist_tid', 'hist_pay', 'matched')))

    def prep_text(C):
        prep_ghosts(C)
        C.st.ghost['raised'] = F
        C.st.assume(named(C.ghosts['N']), C.ghosts['N'] == nameof(ruleat(z3.IntVal(0))))
    env.nonnull.add('*' + PP + 'grammar')
    if PP + 'Parse' in prog.funcs:
        prog.funcs[PP + 'Parse#all'] = prog.funcs[PP + 'Parse']
    env.add(Contract(PP + 'Parse', root=True, requires=lambda C: [('no options', C.args[2].len == 0)], ensures=lambda C: outcome(C, C.ghosts['N']), modifies=frame_of(
        ('errors', 'values', 'wanted', 'rules', 'choices', 'pending'), False), touches=touching(PP + 'Parse#all'), by_name=True, ghosts=G, prepare=prep_text, nparams=3, props=list(props)))

    # ---- meaning of the node at hand, and what its value has to be
    def field(C, node, name):
        return C.field(node, name, True)

    def meaning(C, kind, node, o):
        """(matches, end) in terms of the children"""
        S = C.S
        if kind in ('seqExpr', 'choiceExpr'):
            s = field(C, node, 'exprs' if kind == 'seqExpr' else 'alternatives')
            a, f, n = s.ref, s.off, s.len
            return (seqok(a, f, z3.simplify(f + n), o), seqend(a, f, z3.simplify(f + n), o)) if kind == 'seqExpr' else (
                altok(a, f, z3.simplify(f + n), o), altend(a, f, z3.simplify(f + n), o))
        if kind in ('zeroOrMoreExpr', 'oneOrMoreExpr', 'zeroOrOneExpr', 'notExpr', 'andExpr', 'labeledExpr', 'actionExpr'):
            e = field(C, node, 'expr')
            d, n = does(e.tid, e.pay, o), ends(e.tid, e.pay, o)
            return {'zeroOrMoreExpr': (T, rest(e.tid, e.pay, o)), 'oneOrMoreExpr': (d, rest(e.tid, e.pay, o)), 'zeroOrOneExpr': (T, z3.If(d, n, o)),
                    'notExpr': (z3.Not(d), o), 'andExpr': (d, o), 'labeledExpr': (d, n), 'actionExpr': (d, n)}[kind]
        if kind == 'ruleRefExpr':
            name = field(C, node, 'name')
            # what is known of the rules for every name, here for this one
            C.st.assume(found(old(C), name))
            rt = prog.tid(PP + 'rule')
            e = field(C, Ptr('O', rt, ruleof(name), None, (), rt), 'expr')
            return does(e.tid, e.pay, o), ends(e.tid, e.pay, o)
        if kind == 'stateCodeExpr':
            return T, o
        if kind == 'anyMatcher':
            return z3.Not(eof(o)), o + WD(o)
        if kind == 'litMatcher':
            s, ic = field(C, node, 'val'), field(C, node, 'ignoreCase')
            return litok(s, ic, z3.IntVal(0), o), litend(s, ic, z3.IntVal(0), o)
        if kind == 'charClassMatcher':
            c = fold_(field(C, node, 'ignoreCase'), CH(o))
            cs, rs, us = (field(C, node, n) for n in ('chars', 'ranges', 'classes'))
            C.st.assume(rs.len % 2 == 0)
            arr = lambda s: C.arrs(s, True)[0]
            hit = z3.Or(*[g(arr(x), x.off, z3.simplify(x.off + x.len), c) for g, x in ((one, cs), (rng, rs), (cls, us))])
            return z3.And(z3.Not(eof(o)), hit != field(C, node, 'inverted')), o + WD(o)
        raise Unsupported(kind)

    def prepare(kind):
        def f(C):
            S, st = C.S, C.st
            for n in GHOST:
                st.ghost[n] = z3.Const('g_' + n, B if n in ('raised', 'was_there') else I)
            st.ghost['$K'], st.ghost['$l'], st.ghost['$N'] = C.ghosts['K'], C.ghosts['l'], C.ghosts['N']
            st.ghost['calls'] = st.ghost['runs'] = z3.IntVal(0)
            st.ghost['matched'] = F
            st.ghost['hist_tid'], st.ghost['hist_pay'] = z3.Const('hist_tid', AI), z3.Const('hist_pay', AI)
            v = old(C)
            st.ghost['la_there'], st.ghost['la_tid'], st.ghost['la_pay'] = v.at(v.state, C.ghosts['K'])
            e = C.args[1]
            st.assume(e.tid == tids[kind])
            t = prog.tid('*' + PP + kind)
            node = Ptr('O', prog.elem(t), e.pay, None, (), prog.elem(t))
            args = [C.args[0], IfaceV(z3.IntVal(tids[kind]), e.pay, (t, node))]
            C.args = args
            S.node = node
            st.assume(z3.Const('text', AI) == S.read(st, S.ver(st.heap, ('E', 'byte', 0)), z3.Int('fix_data_0')))
            o = old(C).off
            m, end = meaning(C, kind, node, o)
            st.assume(does(e.tid, e.pay, o) == m, ends(e.tid, e.pay, o) == end)
            l = C.ghosts['l']
            k = T
            if kind == 'seqExpr':
                x = field(C, node, 'exprs')
                k = seqkeeps(x.ref, x.off, z3.simplify(x.off + x.len), l)
            elif kind == 'labeledExpr':
                k = l != labelof(e.pay)
            elif kind == 'actionExpr':
                x = field(C, node, 'expr')
                k = keeps(x.tid, x.pay, l)
            st.assume(keeps(e.tid, e.pay, l) == k)
            return args
        return f

    def content(C, v, name):
        t = prog.tid(name)
        return v.known[1] if v.known is not None and v.known[0] == t else C.S.unbox(t, v.pay, C.st)

    def value(C, kind):
        """what the node's value is made of, what becomes of pending declarations"""
        a, b, g = old(C), new(C), C.st.ghost
        val, ok = C.res
        j, l, K = C.ghosts['j'], C.ghosts['l'], C.ghosts['K']
        o, n = a.off, g['calls']
        ht, hp = g['hist_tid'], g['hist_pay']
        last = z3.simplify(n - 1)
        out = []
        if kind in ('litMatcher', 'charClassMatcher', 'anyMatcher'):
            x, d = content(C, val, '[]byte'), a.get('data')
            out.append(('the value is the text matched', z3.Implies(ok, z3.And(
                val.tid == prog.tid('[]byte') + 1, x.ref == d.ref, x.off == d.off + o, x.len == ends(C.args[1].tid, C.args[1].pay, o) - o))))
        if kind in ('seqExpr', 'zeroOrMoreExpr', 'oneOrMoreExpr'):
            x = content(C, val, '[]' + ANY)
            arr = C.arrs(x)
            out += [('the value is a list', z3.Implies(ok, val.tid == prog.tid('[]' + ANY) + 1)),
                    ('one value per match', z3.Implies(ok, x.len == (n if kind == 'seqExpr' else last))),
                    ('values in order', z3.Implies(z3.And(ok, j < x.len), z3.And(arr[0][x.off + j] == ht[j], arr[1][x.off + j] == hp[j])))]
        if kind == 'seqExpr':
            s = field(C, C.S.node, 'exprs')
            m = s.off + j
            top = b.frame(b.vstack.len - 1)
            out += [('every node of the list', z3.Implies(ok, n == s.len)),
                    ('captured values are there', z3.Implies(z3.And(
                        ok, j < s.len, ntid(s.ref, m) == LAB, labelof(npay(s.ref, m)) == l, l != lit(''),
                        seqkeeps(s.ref, z3.simplify(m + 1), z3.simplify(s.off + s.len), l)), same(b.at(top, l), (T, ht[j], hp[j]))))]
        if kind in ('choiceExpr', 'labeledExpr', 'ruleRefExpr', 'zeroOrOneExpr'):
            out.append(('the value of what matched', z3.Implies(ok, z3.And(val.tid == ht[last], val.pay == hp[last]))))
        if kind in ('labeledExpr', 'ruleRefExpr', 'zeroOrOneExpr', 'notExpr', 'andExpr', 'actionExpr'):
            out.append(('one attempt', n == 1))
        if kind in ('actionExpr', 'stateCodeExpr'):
            c, d = field(C, C.S.node, 'run'), a.get('data')
            out += [('the node\'s function is called once', z3.If(ok, z3.And(g['runs'] == 1, g['ran'] == C.S.fnterm(c)), g['runs'] == 0)),
                    ('with the captured values', z3.Implies(ok, g['top'] == b.frame(b.vstack.len - 1).ref))]
            if kind == 'actionExpr':
                out += [('with the text matched', z3.Implies(ok, z3.And(
                            g['ran_in'] == d.ref, g['ran_from'] == d.off + o, g['ran_to'] == d.off + ends(C.args[1].tid, C.args[1].pay, o), g['ran_pos'] == o))),
                        ('its result is the value', z3.Implies(ok, z3.And(val.tid == g['made_tid'], val.pay == g['made']))),
                        ('actions leave pending declarations', z3.Implies(ok, same(b.at(b.state, K), (g['was_there'], g['was_tid'], g['was_pay']))))]
        else:
            out.append(('no function of the table is called', g['runs'] == 0))
        if kind in ('notExpr', 'andExpr', 'litMatcher', 'charClassMatcher', 'anyMatcher'):
            out.append(('pending declarations stay', same(b.at(b.state, K), a.at(a.state, K))))
        elif kind != 'actionExpr':
            out.append(('pending declarations are those of the parts', z3.Implies(ok, same(b.at(b.state, K), after(C.st)))))
        return out

    for kind in KINDS:
        n = '%s#%s' % (NAME, kind)
        prog.funcs[n] = fn
        f2 = copy.copy(fn)
        prog.funcs[n] = f2
        env.add(Contract(n, root=True, props=list(props), requires=requires, ensures=lambda C, kind=kind: ensures(C) + value(C, kind), modifies=modifies,
                         by_name=True, ghosts=G, prepare=prepare(kind), touches=touches, nparams=2))
    templates(env, VALID, LAB)


def templates(env, valid, LAB):
    def tpl(name, roles, fn, **kw):
        env.templates.append(Template(name, lambda S, L: PP in L.fn.name and '#all' not in S.fn.name, roles, fn, **kw))

    def views(L):
        S = L.S
        if '#' not in S.contract.name:
            raise Unsupported('another function')
        p = S.args[0]
        return View(S, L.st, S.old0.heap, p, S.old0.alloc), View(S, L.st, L.st.heap, p), S.contract.name.split('#')[1]

    for i, (l, f) in enumerate(valid):
        tpl('valid%d' % i, [], lambda L, f=f: [f(views(L)[1])], early=True)

    def stacks(L):
        a, b, kind = views(L)
        top = a.vstack.len - 1
        return [b.vstack.len == a.vstack.len, b.frame(top).ref == a.frame(top).ref]
    tpl('stack', [], stacks)

    def below(L):
        a, b, kind = views(L)
        q, l = L.ghosts['q'], L.ghosts['l']
        A0, A1 = a.frame(q), b.frame(q)
        return [z3.Implies(q < a.vstack.len - 1, z3.And(A0.ref == A1.ref, same(b.at(A1, l), a.at(A0, l))))]
    tpl('below', [], below)
    tpl('rules', [], lambda L: [views(L)[1].rstack.len == views(L)[0].rstack.len])
    tpl('errors', [], lambda L: [views(L)[1].errs().len >= views(L)[0].errs().len])
    tpl('state place', [], lambda L: [z3.Or(views(L)[1].state.ref == views(L)[0].state.ref, views(L)[1].state.ref >= L.S.alloc0)])

    def place(L):
        a, b, kind = views(L)
        e = View(L.S, L.st, L.entry.heap, b.p, L.entry.alloc)
        return [z3.Or(b.state.ref == e.state.ref, b.state.ref >= L.A)]
    tpl('state place in the loop', [], place, early=True)

    def twice(L, i):
        return [i == 2 * L.k]
    tpl('pairs', [('i', 'phi int')], twice)

    def seq(L):
        a, b, kind = views(L)
        if kind != 'seqExpr':
            raise Unsupported('another kind')
        s = L.root.field(L.S.node, 'exprs', True)
        j, e = z3.simplify(s.off + L.k), z3.simplify(s.off + s.len)
        return [seqok(s.ref, j, e, b.off) == seqok(s.ref, s.off, e, a.off), seqend(s.ref, j, e, b.off) == seqend(s.ref, s.off, e, a.off), L.k <= s.len]
    tpl('sequence', [], seq)

    def forward(L):
        a, b, kind = views(L)
        return [b.off >= a.off]
    tpl('forward', [], forward)

    def alt(L):
        a, b, kind = views(L)
        if kind != 'choiceExpr':
            raise Unsupported('another kind')
        s = L.root.field(L.S.node, 'alternatives', True)
        j, e = z3.simplify(s.off + L.k), z3.simplify(s.off + s.len)
        return [altok(s.ref, j, e, a.off) == altok(s.ref, s.off, e, a.off), altend(s.ref, j, e, a.off) == altend(s.ref, s.off, e, a.off),
                b.off == a.off, L.k <= s.len]
    tpl('choice', [], alt)

    def unchanged(L):
        a, b, kind = views(L)
        K = L.ghosts['K']
        return [same(b.at(b.state, K), a.at(a.state, K))]
    tpl('state as before', [], unchanged)

    def values(L, v):
        a, b, kind = views(L)
        g, j, arr = L.st.ghost, L.ghosts['j'], L.arrs(v)
        return [v.len == L.k, z3.Or(v.ref == 0, z3.And(v.ref >= L.S.alloc0, z3.Not(ispend(v.ref)))),
                z3.Implies(j < L.k, z3.And(arr[0][v.off + j] == g['hist_tid'][j], arr[1][v.off + j] == g['hist_pay'][j]))]
    tpl('values', [('v', 'any []' + ANY)], values)
    tpl('values placed', [('v', 'any []' + ANY)], lambda L, v: values(L, v)[1:])

    def calls(L):
        views(L)
        return [L.st.ghost['calls'] == L.k]
    tpl('calls', [], calls)

    def pend(L):
        a, b, kind = views(L)
        g = L.st.ghost
        return [same(b.at(b.state, L.ghosts['K']), (g['la_there'], g['la_tid'], g['la_pay']))]
    tpl('pending', [], pend)

    def others(L):
        a, b, kind = views(L)
        top, l, e = a.vstack.len - 1, L.ghosts['l'], L.S.args[1]
        return [z3.Implies(keeps(e.tid, e.pay, l), same(b.at(b.frame(top), l), a.at(a.frame(top), l)))]
    tpl('other captured values', [], others)

    def keeping(L):
        a, b, kind = views(L)
        if kind != 'seqExpr':
            raise Unsupported('another kind')
        s = L.root.field(L.S.node, 'exprs', True)
        return [z3.Implies(seqkeeps(s.ref, s.off, z3.simplify(s.off + s.len), L.ghosts['l']), seqkeeps(
            s.ref, z3.simplify(s.off + L.k), z3.simplify(s.off + s.len), L.ghosts['l']))]
    tpl('keeping', [], keeping)

    def captured(L):
        a, b, kind = views(L)
        if kind != 'seqExpr':
            raise Unsupported('another kind')
        s = L.root.field(L.S.node, 'exprs', True)
        j, l, g = L.ghosts['j'], L.ghosts['l'], L.st.ghost
        m, e = s.off + j, z3.simplify(s.off + s.len)
        top = b.frame(b.vstack.len - 1)
        return [z3.Implies(z3.And(j < L.k, ntid(s.ref, m) == LAB, labelof(npay(s.ref, m)) == l, l != lit(''), seqkeeps(s.ref, z3.simplify(m + 1), e, l)), z3.And(
            seqkeeps(s.ref, z3.simplify(s.off + L.k), e, l), same(b.at(top, l), (T, g['hist_tid'][j], g['hist_pay'][j]))))]
    tpl('captured', [], captured)

    def more(L):
        a, b, kind = views(L)
        if kind not in ('zeroOrMoreExpr', 'oneOrMoreExpr'):
            raise Unsupported('another kind')
        e = L.root.field(L.S.node, 'expr', True)
        return [rest(e.tid, e.pay, b.off) == rest(e.tid, e.pay, a.off)]
    tpl('repetition', [], more)

    def once(L, v):
        a, b, kind = views(L)
        if kind != 'oneOrMoreExpr':
            raise Unsupported('another kind')
        e = L.root.field(L.S.node, 'expr', True)
        return [z3.If(v.len == 0, z3.And(b.off == a.off, same(b.at(b.state, L.ghosts['K']), a.at(a.state, L.ghosts['K']))), does(e.tid, e.pay, a.off))]
    tpl('once', [('v', 'any []interface{}')], once)

    # loops that go on as long as a flag says so
    def going(L, v, f):
        a, b, kind = views(L)
        if kind not in ('zeroOrMoreExpr', 'oneOrMoreExpr'):
            raise Unsupported('another kind')
        e = L.root.field(L.S.node, 'expr', True)
        g, j, arr = L.st.ghost, L.ghosts['j'], L.arrs(v)
        return [v.len == z3.If(f, L.k, L.k - 1), z3.Or(v.ref == 0, z3.And(v.ref >= L.S.alloc0, z3.Not(ispend(v.ref)))),
                z3.Implies(j < v.len, z3.And(arr[0][v.off + j] == g['hist_tid'][j], arr[1][v.off + j] == g['hist_pay'][j])),
                z3.Implies(z3.Not(f), z3.Not(does(e.tid, e.pay, b.off)))]
    tpl('going on', [('v', 'any []' + ANY), ('f', 'phi bool')], going)
    tpl('until', [('v', 'any []' + ANY), ('f', 'phi bool')], lambda L, v, f: going(L, v, z3.Not(f)))

    def literal(L):
        a, b, kind = views(L)
        if kind != 'litMatcher':
            raise Unsupported('another kind')
        s, ic = L.root.field(L.S.node, 'val', True), L.root.field(L.S.node, 'ignoreCase', True)
        z = z3.IntVal(0)
        return [litok(s, ic, L.k, b.off) == litok(s, ic, z, a.off), litend(s, ic, L.k, b.off) == litend(s, ic, z, a.off), L.k <= runes(s)]
    tpl('literal', [], literal)

    def counter(L):
        ks = [k for k in L.st.ghost if k.startswith('siter_%s_' % L.fn.name)]
        if len(ks) != 1:
            raise Unsupported('no loop over characters')
        return [L.st.ghost[ks[0]] == L.k]
    tpl('characters', [], counter)

    def members(which):
        def f(L):
            a, b, kind = views(L)
            if kind != 'charClassMatcher':
                raise Unsupported('another kind')
            C = L.root
            c = fold_(C.field(L.S.node, 'ignoreCase', True), CH(a.off))
            s = C.field(L.S.node, which, True)
            A = C.arrs(s, True)[0]
            g = {'chars': one, 'ranges': rng, 'classes': cls}[which]
            k = 2 * L.k if which == 'ranges' else L.k
            j, e = z3.simplify(s.off + k), z3.simplify(s.off + s.len)
            return [g(A, j, e, c) == g(A, s.off, e, c), k <= s.len, b.off == a.off]
        return f
    for w in ('chars', 'ranges', 'classes'):
        tpl('not among ' + w, [], members(w))

    def listed(L):
        S, N = L.S, L.ghosts['N']
        ms = [x for x in L.regs.values() if isinstance(x, MapV) and S.prog.tstr(x.t) == 'map[string]*' + PP + 'rule']
        b = View(S, L.st, L.st.heap, S.args[0])
        m = b.get('rules')
        r, there = S.mapget(L.st, m, N)
        return [m.ref >= S.alloc0, z3.Implies(z3.And(named(N), L.k > ruleidx(N)), z3.And(there, r.ref == ruleof(N), ruleof(N) != 0))]
    tpl('rules so far', [], listed)

    # ---- copying the pending declarations
    def copied(L, m, it):
        S = L.S
        b = View(S, L.st, L.st.heap, S.args[0])
        K = L.ghosts['K']
        vis = L.st.ghost[it.key]
        x, y = b.at(m, K), b.at(it.obj, K)
        return [z3.If(z3.Select(vis, K), same(x, y), z3.Not(x[0]))]
    tpl('emptied', [('it', 'iter')], emptied)
    tpl('copy', [('m', 'vis ' + PP + 'storeDict'), ('it', 'iter')], copied)


def emptied(L, it):
    K = L.ghosts['K']
    dom = L.S.mapdom(L.st, it.obj)
    return [z3.Implies(z3.Select(L.st.ghost[it.key], K), z3.Not(z3.Select(dom, K))), z3.Implies(z3.Select(dom, K), z3.Select(it.dom, K))]


def ins_results(prog, ins):
    t = ins.get('t')
    return len(prog.types[t]['elems']) if t is not None and t >= 0 and prog.kind(t) == 'tuple' else 1
