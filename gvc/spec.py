"""Contracts, invariant templates and models of external functions."""
import itertools
import z3
from . import core, fold
from .core import (I, B, Str, Unsupported, SliceV, StructV, IfaceV, Ptr, MapV, FuncV, ArrayV, TupleV, fresh_const,
                   fresh_name, Ver, Snap, lit, strlen, strcat)


class Contract:
    def __init__(self, name, requires=None, ensures=None, modifies=None, ghosts=(), panics=None, props=(), root=False,
                 prepare=None, shape=None, trusted=False, touches=None, results=None, maypanic_only=False, insts=None,
                 modghosts=(), nparams=None, variants=(), doc='', by_name=False, shown=False):
        self.name, self.requires, self.ensures, self.modifies = name, requires, ensures, modifies
        self.ghosts, self.panics, self.props, self.root = list(ghosts), panics, list(props), root
        self.prepare, self.shape, self.trusted = prepare, shape, trusted
        self._touches = touches
        self.results = results
        self.maypanic_only = maypanic_only
        self.insts = insts
        self.modghosts = modghosts
        self.nparams = nparams
        self.doc = doc
        self.variants = variants    # alternative plans tried in turn until one proves the contract
        self.by_name = by_name      # ghosts are taken from the caller's ghosts of the same name only
        self.shown = shown          # proved under other names, one case at a time
        self.enabled = True

    def usable(self, S, callee):
        if not self.enabled:
            return False
        if self.nparams is not None and callee is not None and len(callee.params) != self.nparams:
            return False
        return True

    def touched(self, S):
        t = self._touches
        if callable(t):
            return t(S)
        if t is None and self.name in S.prog.funcs:
            return S.env.static_touched(S, self.name)
        return t or set()

    def result_types(self, S):
        return [S.prog.tid(t) for t in self.results]

    def own_ghosts(self, S, st):
        g = {}
        for n, k in self.ghosts:
            g[n] = mk_ghost(S, st, n, k)
        return g

    def ghost_instances(self, S, args, st):
        if not self.ghosts:
            return [{}]
        mine = dict(S.contract.ghosts)
        lists = []
        extra = self.insts(S, args, st) if self.insts else {}
        for n, k in self.ghosts:
            vals = [S.ghosts[m] for m, k2 in S.contract.ghosts if k2 == k and (not self.by_name or m == n)]
            vals += extra.get(n, [])
            vals += S.opts.get('ghost_extra', {}).get(k, [])
            if not vals:
                vals = [mk_ghost(S, st, fresh_name(n), k)]
            lists.append(vals)
        names = [n for n, _ in self.ghosts]
        return [dict(zip(names, c)) for c in itertools.product(*lists)]


def mk_ghost(S, st, n, k):
    if k == 'u64':
        c = z3.Const('ghost_' + n, I)
        st.assume(c >= 0, c < 2 ** 64)
        return c
    if k == 'int':
        return z3.Const('ghost_' + n, I)
    if k == 'nat':
        c = z3.Const('ghost_' + n, I)
        st.assume(c >= 0)
        return c
    if k == 'str':
        return z3.Const('ghost_' + n, Str)
    raise Unsupported('ghost kind ' + k)


class Template:
    """an invariant candidate for loops; roles are bound by type to loop variables and visible values"""

    def __init__(self, name, scope, roles, fn, limit=64, early=False):
        self.early = early        # used already while frames are being found
        self.name, self.scope, self.roles, self.fn, self.limit = name, scope, roles, fn, limit

    def applies(self, S, L):
        if callable(self.scope):
            return self.scope(S, L)
        return any(L.fn.pkg == s or L.fn.name == s or S.fn.name == s for s in self.scope)

    def bindings(self, S, L):
        p = S.prog
        phis = [(i['name'], i['t']) for i in L.phi_instrs()]
        vis = None
        lists = []
        for role, spec in self.roles:
            where, _, ts = spec.partition(' ')
            cands = []
            if where in ('phi', 'any'):
                cands += [n for n, t in phis + L.cells() if self.tmatch(p, t, ts)]
            if where in ('vis', 'any'):
                if vis is None:
                    vis = S.visible(L.fn, L.entry_regs, L.b)
                cands += [n for n, t in vis if self.tmatch(p, t, ts)]
            if where in ('rng', 'rng+'):
                # slices whose length bounds the loop; any visible one if there is none
                if vis is None:
                    vis = S.visible(L.fn, L.entry_regs, L.b)
                names = [n for n, t in vis if self.tmatch(p, t, ts)]
                hit = set()
                for q in L.bound_names():
                    if q[0] == 'l':
                        hit.add(q[1])
                    elif q[0] == 'r':
                        d = L.fn.defs.get(q[1])
                        if d is not None and d['op'] == 'call' and d['call'].get('fn', {}).get('name') == 'len':
                            hit.add(d['call']['args'][0].get('name'))
                names = [n for n in names if n in hit] or names
                if where == 'rng+' and not any(n in hit for n in names):
                    # slices read again in each round from a variable or through a pointer
                    names = names + [('*', n, i) for n, t in vis if isinstance(L.entry_regs.get(n), core.Ptr) and p.kind(p.elem(t)) == 'struct'
                                     for i, f in enumerate(p.fields(p.elem(t))) if self.tmatch(p, f['type'], ts)]
                cands += names
            if where == 'cell':
                # content of an addressed local variable
                if vis is None:
                    vis = S.visible(L.fn, L.entry_regs, L.b)
                cands += [('*', n) for n, t in vis if p.kind(t) == 'ptr' and self.tmatch(p, p.elem(t), ts)]
            if where == 'iter':
                cands += [n for n, ins in L.fn.defs.items() if ins['op'] == 'range' and n in L.entry_regs]
            lists.append(cands)
        names = [r for r, _ in self.roles]
        out = []
        for c in itertools.islice(itertools.product(*lists), self.limit):
            if len({x for x in c}) != len(c):
                continue
            out.append(dict(zip(names, c)))
        return out

    def tmatch(self, p, t, ts):
        return any(p.tstr(t) == x or p.tstr(p.under(t)) == x for x in ts.split('|'))

    def evaluate(self, L, bd):
        vals = {}
        L.bd = bd
        for k, n in bd.items():
            if isinstance(n, tuple):
                vals[k] = L.v(n)
            else:
                vals[k] = L.regs[n]
        return self.fn(L, **vals)


def names_in(x, kind):
    """names of the package variables or functions an instruction mentions"""
    if isinstance(x, dict):
        if x.get('k') == kind:
            yield x['name']
        else:
            for v in x.values():
                yield from names_in(v, kind)
    elif isinstance(x, list):
        for v in x:
            yield from names_in(v, kind)


def plain(fn, o):
    if o.get('k') == 'func':
        return True
    if o.get('k') == 'reg':
        d = fn.defs[o['name']]
        return d['op'] in ('changetype', 'makeiface') and plain(fn, d['x'])
    return False


class Env:
    def __init__(self, prog):
        self.prog = prog
        self.contracts = {}
        self.templates = []
        self.externals = dict(EXTERNALS)
        self.invokers = []
        self.funcvalues = []
        self.nonnull = set()
        self.loadhook = None
        self.storehook = None
        self.closed_ifaces = set()     # interfaces taken to be implemented by types of their own package only     # called before a value is stored
        self.newhook = None       # what is known of every new reference
        self.bitones = None
        self.plan = None
        self.globalids = {}
        self.check_termination = False
        self.merge = False
        self.rounds = []          # bounds on the number of rounds of loops
        self.phi_refs = True      # loops may write what their variables refer to
        self.maxmake = 4 * core.MAXLEN
        self.strict_slice = True
        self.loose_slice = set()        # functions that may extend a slice into its capacity
        self.iterkeys = []
        self.initers = []
        self.frames = []
        self._touch = {}
        self.external_touches = {}

    def static_touched(self, S, name, seen=None):
        """heap keys a function may write, from its SSA and that of its callees"""
        c = self._touch.get(name)
        if c is not None:
            return c
        top = seen is None
        seen = seen if seen is not None else set()
        if name in seen:
            return set()
        seen.add(name)
        out = set()
        ct = self.contract_for(name)
        if ct is not None and ct._touches is not None:
            return set(ct._touches(S) if callable(ct._touches) else ct._touches)
        fn = self.prog.funcs.get(name)
        if fn is None or not fn.has_body:
            for f in self.external_touches.get(name, ()):
                out |= f(S)
            return out
        p = self.prog

        def E(t):
            out.update(('E', p.tstr(t), i) for i in range(len(S.leaves(t))))

        def O(t):
            if p.kind(t) == 'array':
                E(p.elem(t))
                return
            out.update(('O', p.tstr(t), i) for i in range(len(S.leaves(t))))
        for b in fn.blocks:
            for ins in b['instrs']:
                op = ins['op']
                for f in names_in(ins, 'func'):
                    out |= self.static_touched(S, f, seen)
                try:
                    if op == 'alloc':
                        O(p.elem(ins['t']))
                    elif op == 'makeslice':
                        E(p.elem(ins['t']))
                    elif op == 'convert' and p.kind(ins['t']) == 'slice':
                        E(p.elem(ins['t']))
                    elif op in ('makemap', 'mapupdate'):
                        t = ins['t'] if op == 'makemap' else ins['map']['t']
                        out.add(('MD', p.tstr(t)))
                        out.update(('MV', p.tstr(t), i) for i in range(len(S.leaves(p.elem(t)))))
                    elif op == 'store':
                        o = ins['addr']
                        while True:
                            if o['k'] == 'global':
                                O(p.elem(o['t']))
                                break
                            d = fn.defs.get(o['name'])
                            if d is not None and d['op'] == 'fieldaddr':
                                o = d['x']
                                continue
                            if d is not None and d['op'] == 'indexaddr':
                                if p.kind(d['x']['t']) == 'slice':
                                    E(p.elem(d['x']['t']))
                                    break
                                o = d['x']
                                continue
                            O(p.elem(o['t']))
                            E(p.elem(o['t'])) if False else None
                            break
                    elif op in ('call', 'defer'):
                        c = ins['call']
                        if 'invoke' in c:
                            for t, ms in p.methods.items():
                                if c['invoke'] in ms and ms[c['invoke']] in p.funcs:
                                    out |= self.static_touched(S, ms[c['invoke']], seen)
                            for f in self.external_touches.get('invoke:' + c['invoke'], ()):
                                out |= f(S)
                            continue
                        f = c['fn']
                        if f['k'] == 'builtin':
                            if f['name'] == 'append':
                                E(p.elem(ins['t']))
                            elif f['name'] == 'copy':
                                E(p.elem(c['args'][0]['t']))
                            elif f['name'] == 'delete':
                                out.add(('MD', p.tstr(c['args'][0]['t'])))
                        elif f['k'] == 'func':
                            if f['name'].startswith('sort.'):
                                for a in c['args']:
                                    d = fn.defs.get(a.get('name'))
                                    if d is not None and d['op'] == 'makeiface' and p.kind(d['x']['t']) == 'slice':
                                        E(p.elem(d['x']['t']))
                except Unsupported:
                    pass
        if top:
            self._touch[name] = out
        return out

    def add(self, ct):
        self.contracts[ct.name] = ct
        return ct

    def contract_for(self, name):
        c = self.contracts.get(name)
        return c if c is not None and c.enabled else None

    def external(self, name):
        return self.externals.get(name) or EXTERNALS.get(name)

    def invoke(self, S, m, recv, args, rt, st, stack, ins, c):
        for h in self.invokers:
            r = h(S, m, recv, args, rt, st, stack, ins, c)
            if r is not None:
                return r
        return None

    def funcvalue(self, S, f, args, st, ins, c):
        for h in self.funcvalues:
            r = h(S, f, args, st, ins, c)
            if r is not None:
                return r
        return None

    def const_global(self, name):
        """(init function, operand) when a package variable is only ever assigned where it is declared, a plain function value"""
        if not hasattr(self, '_consts'):
            uses, stores = {}, {}
            for fn in self.prog.funcs.values():
                for b in fn.blocks or ():
                    for ins in b['instrs']:
                        if ins['op'] == 'store' and ins['addr'].get('k') == 'global':
                            stores.setdefault(ins['addr']['name'], []).append((fn, ins['val']))
                            if ins['val'].get('k') != 'global':
                                continue
                        if ins['op'] == 'unop' and ins['uop'] == '*' and ins['x'].get('k') == 'global':
                            continue
                        for g in names_in(ins, 'global'):
                            uses.setdefault(g, []).append(ins)
            self._consts = {}
            for g, ss in stores.items():
                if len(ss) == 1 and g not in uses and ss[0][0].name.endswith('.init') and plain(ss[0][0], ss[0][1]):
                    self._consts[g] = ss[0]
        return self._consts.get(name)

    def framepreds(self, S, L, key):
        return [x for f in self.frames for x in f(S, L, key)]

    def iter_exit_facts(self, S, st, m, vis, dom):
        return []

    def maplen_facts(self, S, st, m, n):
        return []

    def init_state(self, S, st):
        for f in self.initers:
            f(S, st)


# ---------------------------------------------------------------- externals
EXTERNALS = {}
errmsg = z3.Function('errmsg', I, Str)


def external(*names):
    def deco(f):
        for n in names:
            EXTERNALS[n] = f
        return f
    return deco


def new_error(S, st, msg=None):
    pay = S.newref(st)
    if msg is not None:
        st.assume(errmsg(pay) == msg)
    return IfaceV(z3.IntVal(800001), pay)


@external('errors.New', 'github.com/pkg/errors.New')
def x_errors_new(S, args, st, stack, ins, caller):
    return [('ret', st, [new_error(S, st, args[0])])]


@external('fmt.Errorf', 'github.com/pkg/errors.Errorf')
def x_errorf(S, args, st, stack, ins, caller):
    return [('ret', st, [new_error(S, st)])]


@external('github.com/pkg/errors.Wrap', 'github.com/pkg/errors.WithMessage', 'github.com/pkg/errors.Wrapf',
          'github.com/pkg/errors.WithStack')
def x_wrap(S, args, st, stack, ins, caller):
    e = args[0]
    d = S.decide(st, e.tid == 0)
    if d is True:
        return [('ret', st, [IfaceV(z3.IntVal(0), z3.IntVal(0))])]
    n = new_error(S, st)
    if d is False:
        return [('ret', st, [n])]
    return [('ret', st, [IfaceV(z3.If(e.tid == 0, 0, n.tid), z3.If(e.tid == 0, 0, n.pay))])]


@external('fmt.Sprintf', 'fmt.Sprint', 'strconv.Itoa', 'strconv.FormatUint', 'strconv.FormatInt', 'strings.Join')
def x_sprintf(S, args, st, stack, ins, caller):
    r = fresh_const('sprintf', Str)
    st.assume(strlen(r) >= 0, strlen(r) <= core.MAXLEN)
    return [('ret', st, [r])]


# --- sorting --------------------------------------------------------------
def eval_less(S, st, call):
    """evaluate a pure boolean call on st's heap: returns (facts, term)"""
    s2 = st.copy()
    n = len(s2.pc)
    outs = call(s2)
    cases = []
    for kind, s3, res in outs:
        if kind != 'ret':
            raise Unsupported('comparison may panic')
        cond = z3.And(*s3.pc[n:]) if len(s3.pc) > n else z3.BoolVal(True)
        cases.append((cond, res[0]))
    t = fresh_const('less', B)
    return [z3.Implies(c, t == r) for c, r in cases] + [z3.Or(*[c for c, _ in cases])], t


def sort_model(S, st, sl, less, stack):
    """permute sl in place; less(st, i, j) gives outcomes of comparing positions i and j"""
    ts = S.prog.tstr(sl.elem)
    nl = len(S.leaves(sl.elem))
    group = fresh_name('perm')
    news = []
    lo, hi = sl.off, z3.simplify(sl.off + sl.len)
    for i in range(nl):
        key = ('E', ts, i)
        A = S.read(st, S.ver(st.heap, key), sl.ref)
        N = fresh_const('sorted_%s_%d' % (ts, i), A.sort())
        S.typed(key, N.decl().name())
        fold.PERM[N.decl().name()] = {'base': A, 'lo': lo, 'hi': hi, 'group': group}
        news.append((key, N))
    base = [fold.PERM[N.decl().name()]['base'] for _, N in news]
    fold.FWD.setdefault(base[0].get_id(), []).append({'base': base, 'new': [N for _, N in news], 'lo': lo, 'hi': hi})
    pre = st.copy()
    for key, N in news:
        S.write(st, key, sl.ref, N)
    post = st.copy()
    done = {}
    quiet = {'on': False}

    def rel(base, i, j, final=False):
        fin, S.final = S.final, final
        try:
            return eval_less(S, base, lambda s: less(s, i, j))
        finally:
            S.final = fin

    # the comparison must be a strict weak order for sorting to mean anything
    if S.final:
        st3 = pre.copy()
        a, b, c = (fresh_const(x, I) for x in 'abc')
        for q in (a, b, c):
            st3.assume(q >= 0, q < sl.len)
        t = {}
        for x, y in (('a', 'b'), ('b', 'a'), ('b', 'c'), ('c', 'b'), ('a', 'c'), ('c', 'a'), ('a', 'a')):
            d = {'a': a, 'b': b, 'c': c}
            f, term = rel(st3, d[x], d[y], True)
            st3.assume(*f)
            t[x + y] = term
        S.oblige(st3.copy(), 'sort order is irreflexive and transitive', z3.And(
            z3.Not(t['aa']), z3.Implies(z3.And(t['ab'], t['bc']), t['ac']),
            z3.Implies(z3.And(z3.Not(t['ab']), z3.Not(t['bc'])), z3.Not(t['ac']))), 'post')

    def hook(q):
        k = q.get_id()
        if k in done:
            return done[k][1]
        i = z3.simplify(q - sl.off)
        done[k] = (q, [])
        f, term = rel(post, i, z3.simplify(i - 1))
        r = [z3.Implies(z3.And(i > 0, i < sl.len), z3.And(*f)), z3.Implies(z3.And(i > 0, i < sl.len), z3.Not(term))]
        # well-typedness of both elements
        for (key, N), (_, so, tag) in zip(news, S.leaves(sl.elem)):
            for qq in (q, z3.simplify(q - 1)):
                r += S.wfleaf(tag, z3.Select(N, qq), None)
        done[k] = (q, r)
        return r

    for key, N in news:
        fold.HOOKS[N.decl().name()] = hook
    return [('ret', st, [])]


@external('sort.Sort', 'sort.Stable')
def x_sort(S, args, st, stack, ins, caller):
    x = args[0]
    if x.known is None:
        raise Unsupported('sort of unknown value')
    t, v = x.known
    if not isinstance(v, SliceV):
        raise Unsupported('sort of non-slice')
    ms = S.prog.methods.get(t)
    # Len and Swap must be the plain ones: check them symbolically
    check_len_swap(S, st, t, v, ms, stack, ins, caller)

    def less(s, i, j):
        return S.call_named(ms['Less'], [v, i, j], s, stack + (('sort', ins.get('pos')),), ins, (), None, caller)
    return sort_model(S, st, v, less, stack)


def check_len_swap(S, st, t, v, ms, stack, ins, caller):
    if not S.final:
        return
    s2 = st.copy()
    for kind, s3, res in S.call_named(ms['Len'], [v], s2, stack, ins, (), None, caller):
        S.oblige(s3, 'Len reports the number of elements', res[0] == v.len if kind == 'ret' else z3.BoolVal(False), 'post')
    s2 = st.copy()
    i, j, q = fresh_const('i', I), fresh_const('j', I), fresh_const('q', I)
    s2.assume(i >= 0, i < v.len, j >= 0, j < v.len)
    before = [S.read(s2, S.ver(s2.heap, ('E', S.prog.tstr(v.elem), n)), v.ref) for n in range(len(S.leaves(v.elem)))]
    for kind, s3, res in S.call_named(ms['Swap'], [v, i, j], s2, stack, ins, (), None, caller):
        after = [S.read(s3, S.ver(s3.heap, ('E', S.prog.tstr(v.elem), n)), v.ref) for n in range(len(S.leaves(v.elem)))]
        oi, oj = z3.simplify(v.off + i), z3.simplify(v.off + j)
        g = z3.And(*[x == z3.Store(z3.Store(a, oi, z3.Select(a, oj)), oj, z3.Select(a, oi)) for a, x in zip(before, after)])
        S.oblige(s3, 'Swap exchanges two elements and nothing else', g if kind == 'ret' else z3.BoolVal(False), 'post')


@external('sort.Slice', 'sort.SliceStable')
def x_sort_slice(S, args, st, stack, ins, caller):
    x, f = args
    if x.known is None or not isinstance(x.known[1], SliceV) or f.name is None:
        raise Unsupported('sort of unknown value')
    v = x.known[1]

    def less(s, i, j):
        return S.call_named(f.name, [i, j], s, stack + (('sort', ins.get('pos')),), ins, f.bindings, None, caller)
    return sort_model(S, st, v, less, stack)


# --- random sources ---------------------------------------------------------
RANDOM = {'Int63': ('int64', 0, 2 ** 63 - 1), 'Int31': ('int32', 0, 2 ** 31 - 1), 'Int': ('int', 0, 2 ** 63 - 1),
          'Uint32': ('uint32', 0, 2 ** 32 - 1), 'Uint64': ('uint64', 0, 2 ** 64 - 1)}


def random_invoker(S, m, recv, args, rt, st, stack, ins, c):
    """a random source may return any value of the documented range; nil receiver panics"""
    if 'random.Interface' not in S.prog.tstr(rt) and 'rand' not in S.prog.tstr(rt):
        return None
    S.trusted.add('random.Interface.' + m)
    if m in RANDOM:
        _, lo, hi = RANDOM[m]
        v = fresh_const('rnd_' + m, I)
        st.assume(v >= lo, v <= hi)
        return [('ret', st, [v])]
    if m in ('Intn', 'Int63n', 'Int31n'):
        S.oblige(st, 'argument of %s is positive' % m, args[0] > 0, 'safety')
        v = fresh_const('rnd_' + m, I)
        st.assume(v >= 0, v < args[0])
        return [('ret', st, [v])]
    if m == 'Read':
        sl = args[0]
        key = ('E', S.prog.tstr(sl.elem), 0)
        A = S.read(st, S.ver(st.heap, key), sl.ref)
        Bf = fresh_const('rndbytes', A.sort())
        N = fresh_const('filled', A.sort())
        fold.BULK[N.decl().name()] = (sl.off, sl.len, A, Bf, z3.IntVal(0))
        S.write(st, key, sl.ref, N)
        return [('ret', st, [sl.len, IfaceV(z3.IntVal(0), z3.IntVal(0))])]
    return None
