"""Recursive specification functions over slice contents (folds), and the ground
instantiation of their defining equations and lemmas.

A fold f(A.., i, j, extra..) ranges over the elements i <= q < j of a family of
parallel arrays A..  It is given by a unit and a right step; monoid folds also
give an associative operation and an element function (from which both steps
follow).  Every instance added to a proof obligation is an instance of

  unfold-right, unfold-left, empty      (definition)
  frame    : equal contents on [i,j) give equal folds
  concat   : contents copied in bulk (append/copy), monoid folds only
  perm     : permuted contents, commutative monoid folds only

frame and concat are proved by induction for each fold in `lemma_obligations`.
"""
import z3

REG = {}       # z3 decl name -> (Fold, ver)
BULK = {}      # array const name -> (p, n, [A..] base, B, boff) per leaf array
PERM = {}      # array const name -> dict(base=term, lo, hi, group=id)
TYPED = {}     # heap function or array constant name -> (lo, hi) of its elements
FWD = {}       # id of first base array -> rearrangements of it
HOOKS = {}     # array const name -> callback(index term) -> list of facts
LEAFWF = {}    # array sort handled by callbacks: name -> fn(select term) -> facts


class Fold:
    def __init__(self, name, arrsorts, extrasorts, ret, unit, elem=None, op=None, step=None, comm=False, wf=None,
                 heapdep=False,
                 univ=None, shift=None, sk=False, uses=(), frame=True, deep=None, absorb=False):
        self.name, self.arrsorts, self.extrasorts, self.ret, self.unit = name, arrsorts, extrasorts, ret, unit
        self.elem, self.op, self.stepfn, self.comm, self.wf, self.heapdep = elem, op, step, comm, wf, heapdep
        self.univ = univ      # 'all' or 'any': conjunction/disjunction over elements; elem(arrs, q) usable at any index
        self.shift = shift    # extra -> per-array index shifts
        self.deep = deep or (2 if sk else 1)     # how far from the formula elements are still looked at
        self.absorb = absorb  # op(x, y) == x unless x is the unit: the first proper value decides
        self.frame = frame    # False: depends on more than the contents of the range
        self.uses = uses      # folds whose facts the facts of this one follow from
        self.sk = sk          # univ folds: name an element that decides the fold
        ALL[name] = self

    def decl(self, ver=None):
        n = self.name + ('@%d' % ver.id if ver is not None else '')
        d = z3.Function(n, *([z3.ArraySort(z3.IntSort(), s) for s in self.arrsorts] + [z3.IntSort(), z3.IntSort()]
                             + list(self.extrasorts) + [self.ret]))
        REG[n] = (self, ver)
        return d

    def __call__(self, arrs, i, j, *extra, ver=None):
        i = z3.IntVal(i) if isinstance(i, int) else i
        j = z3.IntVal(j) if isinstance(j, int) else j
        i, j = z3.simplify(i), z3.simplify(j)
        assert len(arrs) == len(self.arrsorts), (self.name, len(arrs))
        return self.decl(ver)(*list(arrs), i, j, *extra)

    def el(self, arrs, q, extra, ver):
        if self.shift is not None:
            vals = [z3.Select(a, z3.simplify(q + d)) for a, d in zip(arrs, self.shift(extra))]
        else:
            vals = [z3.Select(a, q) for a in arrs]
        return self.elem(vals, extra, ver) if self.heapdep else self.elem(vals, extra)

    def right(self, arrs, i, j, extra, ver):
        """(condition, equation) for j > i, plus the smaller application"""
        q = z3.simplify(j - 1)
        rec = self(arrs, i, q, *extra, ver=ver)
        if self.op is not None:
            return self.op(rec, self.el(arrs, q, extra, ver))
        return self.stepfn(arrs, i, q, extra, rec)

    def left(self, arrs, i, j, extra, ver):
        if self.op is None:
            return None
        rec = self(arrs, z3.simplify(i + 1), j, *extra, ver=ver)
        return self.op(self.el(arrs, i, extra, ver), rec)


ALL = {}
MREG = {}      # z3 decl name -> MapAll


class MapAll:
    """pred(key, values, extra) holds for every key of a map given by its domain and value arrays.  Instances used are the
    two directions of this definition: at every key term of the formula, and a witness key when it does not hold."""

    def __init__(self, name, keysort, valsorts, extrasorts, pred):
        self.name, self.keysort, self.valsorts, self.extrasorts, self.pred = name, keysort, valsorts, extrasorts, pred
        A = lambda s: z3.ArraySort(keysort, s)
        self.decl = z3.Function(name, *([A(z3.BoolSort())] + [A(v) for v in valsorts] + list(extrasorts) + [z3.BoolSort()]))
        MREG[name] = self

    def __call__(self, dom, vals, *extra):
        return self.decl(dom, *list(vals), *extra)

    def at(self, e, k):
        ch = e.children()
        n = len(self.valsorts)
        return z3.Select(ch[0], k), self.pred(k, [z3.Select(a, k) for a in ch[1:1 + n]], ch[1 + n:])

    def inst(self, e, k):
        key = (e.get_id(), 'm', k.get_id())
        if key not in _RULES:
            d, p = self.at(e, k)
            _RULES[key] = (k, z3.Implies(z3.And(e, d), p))
        return _RULES[key][1]

    def wit(self, e):
        key = (e.get_id(), 'w')
        if key not in _RULES:
            k = z3.Const('mkey!w%d' % e.get_id(), self.keysort)
            d, p = self.at(e, k)
            _RULES[key] = (k, z3.Implies(z3.Not(e), z3.And(d, z3.Not(p))))
        return _RULES[key]


def _children_iter(roots):
    seen = set()
    stack = list(roots)
    while stack:
        e = stack.pop()
        k = e.get_id()
        if k in seen:
            continue
        seen.add(k)
        yield e
        if z3.is_app(e):
            stack.extend(e.children())
        elif z3.is_quantifier(e):
            stack.append(e.body())


def num(e):
    return z3.is_int_value(e)


def arr_name(a):
    return a.decl().name() if z3.is_app(a) and a.num_args() == 0 else None


class Rec:
    """a recursively defined function: unfold(*args) is its value in terms of itself; wf(e, *args) facts that follow by induction.
    opaque functions are not unfolded in queries (their definition is assumed where it is needed)."""

    def __init__(self, name, sorts, ret, unfold=None, wf=None, opaque=False, given=None):
        self.given = given        # what holds of the arguments by their types
        self.name, self.unfold, self.wf, self.opaque = name, unfold, wf, opaque
        self.fn = z3.Function(name, *(list(sorts) + [ret]))
        self.sorts = sorts
        RREG[name] = self

    def __call__(self, *args):
        return self.fn(*args)

    def facts(self, e):
        a = e.children()
        return [z3.simplify(f) for f in self.wf(e, *a)] if self.wf else []

    def equation(self, e):
        return e == self.unfold(*e.children())

    def lemma(self):
        """[(label, formula to be proved valid)]: wf at a point follows from wf at the points its definition refers to"""
        if not self.wf:
            return []
        xs = [z3.Const('%s_x%d' % (self.name, i), s) for i, s in enumerate(self.sorts)]
        e = self(*xs)
        eq = self.equation(e)
        hyp, seen, todo = [eq], {e.get_id()}, [eq]
        visited = set()
        while todo:
            for x in rec_apps(todo.pop(), visited):
                if x.get_id() not in seen:
                    seen.add(x.get_id())
                    hyp += RREG[x.decl().name()].facts(x)
        if self.given:
            hyp += self.given(eq)
        return [('%s: range' % self.name, z3.Implies(z3.And(*hyp), z3.And(*self.facts(e))))]


RREG = {}


def rec_apps(f, visited):
    out, stack = [], [f]
    while stack:
        e = stack.pop()
        if e.get_id() in visited:
            continue
        visited.add(e.get_id())
        if z3.is_app(e):
            if e.num_args() and e.decl().kind() == z3.Z3_OP_UNINTERPRETED and e.decl().name() in RREG:
                out.append(e)
            stack.extend(e.children())
    return out


def rec_instances(formulas, depth=2, limit=200):
    """definitions and facts of the recursive functions that occur"""
    if not RREG:
        return []
    visited, out = set(), []
    todo = [(e, 0) for f in formulas for e in rec_apps(f, visited)]
    n = 0
    while todo and n < limit:
        e, d = todo.pop(0)
        n += 1
        r = RREG[e.decl().name()]
        fs = r.facts(e)
        if not r.opaque and d < depth:
            fs = fs + [r.equation(e)]
        for f in fs:
            out.append(f)
            todo += [(x, d + 1) for x in rec_apps(f, visited)]
    return out


_RULES = {}    # (app id, kind) -> [formulas]
_UNIV = {}


_NODE = {}     # ast id -> (expr, kind, children): kind 1 fold application, 2 array read, 3 map predicate


def nodeof(e):
    k = e.get_id()
    r = _NODE.get(k)
    if r is None:
        kind, ch = 0, ()
        if z3.is_app(e):
            ch = e.children()
            if ch:
                d = e.decl()
                dk = d.kind()
                if dk == z3.Z3_OP_UNINTERPRETED:
                    n = d.name()
                    kind = 1 if n in REG else 3 if n in MREG else 0
                elif dk == z3.Z3_OP_SELECT:
                    kind = 2
        elif z3.is_quantifier(e):
            ch = (e.body(),)
        r = _NODE[k] = (e, kind, [(c.get_id(), c) for c in ch])
    return r


def scan(f, visited):
    """fold applications, array reads and map predicates inside f that were not met before"""
    apps, sels, maps = [], [], []
    stack = [(f.get_id(), f)]
    while stack:
        k, e = stack.pop()
        if k in visited:
            continue
        visited.add(k)
        r = _NODE.get(k)
        if r is None:
            r = nodeof(e)
        if r[1]:
            (apps if r[1] == 1 else sels if r[1] == 2 else maps).append(r[0])
        stack.extend(r[2])
    return apps, sels, maps


class App:
    __slots__ = ('e', 'fold', 'ver', 'arrs', 'i', 'j', 'extra', 'numeric', 'sh', 'arrids')

    def __init__(self, e):
        self.e = e
        self.fold, self.ver = REG[e.decl().name()]
        na = len(self.fold.arrsorts)
        ch = e.children()
        self.arrs, self.i, self.j, self.extra = ch[:na], ch[na], ch[na + 1], ch[na + 2:]
        self.numeric = num(z3.simplify(self.j - self.i))
        self.sh = self.fold.shift(self.extra) if self.fold.shift is not None else [z3.IntVal(0)] * na
        self.arrids = [a.get_id() for a in self.arrs]


_APPS = {}


def app_of(e):
    a = _APPS.get(e.get_id())
    if a is None:
        a = _APPS[e.get_id()] = App(e)
    return a


def rules(a, kind):
    key = (a.e.get_id(), kind)
    r = _RULES.get(key)
    if r is None:
        r = _RULES[key] = list(_rules(a, kind))
    return r


def is_op(a, k):
    return z3.is_app(a) and a.decl().kind() == k


def _rules(a, kind):
    e, fold, ver, arrs, i, j, extra, sh = a.e, a.fold, a.ver, a.arrs, a.i, a.j, a.extra, a.sh
    if kind == 'def':
        yield z3.Implies(j <= i, e == fold.unit)
        if fold.wf is not None:
            for f in fold.wf(e, arrs, i, j, extra, ver):
                yield f
    elif kind == 'right':
        yield z3.Implies(j > i, e == fold.right(arrs, i, j, extra, ver))
    elif kind == 'left':
        l = fold.left(arrs, i, j, extra, ver)
        if l is not None:
            yield z3.Implies(j > i, e == l)
    elif kind == 'struct' and fold.frame:
        pos, psh = None, None
        stripped = list(arrs)
        for k, x in enumerate(arrs):
            if is_op(x, z3.Z3_OP_STORE) and pos is None:
                pos, psh = x.arg(1), sh[k]
        if pos is not None:
            for k, x in enumerate(arrs):
                if is_op(x, z3.Z3_OP_STORE) and x.arg(1).eq(pos) and sh[k].eq(psh):
                    stripped[k] = x.arg(0)
            yield z3.Implies(z3.Or(pos - psh < i, pos - psh >= j), e == fold(stripped, i, j, *extra, ver=ver))
        for k, x in enumerate(arrs):
            if is_op(x, z3.Z3_OP_ITE):
                c = x.arg(0)
                A1 = [y.arg(1) if is_op(y, z3.Z3_OP_ITE) and y.arg(0).eq(c) else y for y in arrs]
                A2 = [y.arg(2) if is_op(y, z3.Z3_OP_ITE) and y.arg(0).eq(c) else y for y in arrs]
                yield z3.Implies(c, e == fold(A1, i, j, *extra, ver=ver))
                yield z3.Implies(z3.Not(c), e == fold(A2, i, j, *extra, ver=ver))
                break
        if fold.shift is not None:
            return
        infos = [BULK.get(arr_name(x)) if arr_name(x) else None for x in arrs]
        if infos and all(x is not None for x in infos):
            p, cnt, _, _, soff = infos[0]
            base = [x[2] for x in infos]
            src = [x[3] for x in infos]
            yield z3.Implies(z3.Or(j <= p, i >= p + cnt), e == fold(base, i, j, *extra, ver=ver))
            if fold.op is not None:
                yield z3.Implies(z3.And(i <= p, j == p + cnt, cnt >= 0),
                                 e == fold.op(fold(base, i, p, *extra, ver=ver),
                                              fold(src, soff, z3.simplify(soff + cnt), *extra, ver=ver)))
                if not z3.simplify(j - p - cnt).eq(z3.IntVal(0)):
                    yield z3.Implies(z3.And(i <= p, j >= p, j <= p + cnt),
                                     e == fold.op(fold(base, i, p, *extra, ver=ver),
                                                  fold(src, soff, z3.simplify(soff + j - p), *extra, ver=ver)))
            yield z3.Implies(z3.And(i >= p, j <= p + cnt),
                             e == fold(src, z3.simplify(soff + i - p), z3.simplify(soff + j - p), *extra, ver=ver))
        pis = [PERM.get(arr_name(x)) if arr_name(x) else None for x in arrs]
        if pis and all(x is not None for x in pis) and len({x['group'] for x in pis}) == 1:
            lo, hi = pis[0]['lo'], pis[0]['hi']
            base = [x['base'] for x in pis]
            if fold.comm:
                yield z3.Implies(z3.And(i == lo, j == hi), e == fold(base, i, j, *extra, ver=ver))
            yield z3.Implies(z3.Or(j <= lo, i >= hi), e == fold(base, i, j, *extra, ver=ver))


def forward(a):
    """what holds of all elements still holds once they are rearranged (not cached: grows with the path)"""
    fold = a.fold
    if not fold.comm or fold.shift is not None or not a.arrids:
        return
    for g in FWD.get(a.arrids[0], ()):
        if len(g['base']) == len(a.arrs) and all(x.eq(y) for x, y in zip(g['base'], a.arrs)):
            key = (a.e.get_id(), g['new'][0].get_id())
            if key not in _RULES:
                _RULES[key] = z3.Implies(z3.And(a.i == g['lo'], a.j == g['hi']),
                                         a.e == fold(g['new'], a.i, a.j, *a.extra, ver=a.ver))
            yield _RULES[key]


def bases(a, n=0):
    yield a
    if n < 6:
        if is_op(a, z3.Z3_OP_STORE):
            yield from bases(a.arg(0), n + 1)
        elif is_op(a, z3.Z3_OP_ITE):
            yield from bases(a.arg(1), n + 1)
            yield from bases(a.arg(2), n + 1)


def univ_rule(a, q):
    key = (a.e.get_id(), q.get_id())
    r = _UNIV.get(key)
    if r is None:
        fold = a.fold
        if fold.elem is not None:
            p = fold.el(a.arrs, q, a.extra, a.ver)
        else:
            p = fold.univ_elem(a.arrs, a.i, q, a.extra)
        inr = z3.And(a.i <= q, q < a.j)
        f = z3.Implies(z3.And(a.e, inr), p) if fold.univ == 'all' else z3.Implies(z3.And(p, inr), a.e)
        r = _UNIV[key] = (q, f)
    return r[1]


def first_rule(a, q):
    """absorbing folds: an element not preceded by a proper one decides"""
    key = (a.e.get_id(), 'first', q.get_id())
    r = _UNIV.get(key)
    if r is None:
        u = a.fold.unit
        p = a.fold.el(a.arrs, q, a.extra, a.ver)
        f = z3.Implies(z3.And(a.i <= q, q < a.j, p != u, a.fold(a.arrs, a.i, q, *a.extra, ver=a.ver) == u), a.e == p)
        r = _UNIV[key] = (q, f)
    return r[1]


def wit_rule(a):
    """an element that makes a disjunction true or a conjunction false"""
    key = (a.e.get_id(), 'wit')
    r = _UNIV.get(key)
    if r is None:
        w = z3.Const('idx!w%d' % a.e.get_id(), z3.IntSort())
        p = a.fold.el(a.arrs, w, a.extra, a.ver) if a.fold.elem is not None else a.fold.univ_elem(a.arrs, a.i, w, a.extra)
        inr = z3.And(a.i <= w, w < a.j)
        f = z3.Implies(z3.Not(a.e), z3.And(inr, z3.Not(p))) if a.fold.univ == 'all' else z3.Implies(a.e, z3.And(inr, p))
        r = _UNIV[key] = (w, f)
    return r


_SEL = {}


def has_bulk(a):
    """an array that is one of several, some of them results of copying"""
    if is_op(a, z3.Z3_OP_ITE):
        return has_bulk(a.arg(1)) or has_bulk(a.arg(2))
    return arr_name(a) in BULK


def sel_rules(e):
    k = e.get_id()
    r = _SEL.get(k)
    if r is None:
        out = []
        a, q = e.arg(0), e.arg(1)
        n = arr_name(a)
        r = a
        while is_op(r, z3.Z3_OP_STORE) or is_op(r, z3.Z3_OP_ITE):
            r = r.arg(0) if is_op(r, z3.Z3_OP_STORE) else r.arg(1)
        ty = TYPED.get(r.decl().name()) if z3.is_app(r) else None
        if ty is not None:
            out.append(e >= ty[0])
            out.append(e < ty[1])
        if n in BULK:
            p, cnt, base, src, soff = BULK[n]
            out.append(z3.Implies(z3.Or(q < p, q >= p + cnt), e == z3.Select(base, q)))
            out.append(z3.Implies(z3.And(q >= p, q < p + cnt), e == z3.Select(src, z3.simplify(soff + q - p))))
        if is_op(a, z3.Z3_OP_ITE) and has_bulk(a):
            out.append(e == z3.If(a.arg(0), z3.Select(a.arg(1), q), z3.Select(a.arg(2), q)))
        if n in PERM:
            pm = PERM[n]
            out.append(z3.Implies(z3.Or(q < pm['lo'], q >= pm['hi']), e == z3.Select(pm['base'], q)))
        if n in HOOKS:
            out += HOOKS[n](q)
        r = _SEL[k] = (e, out)
    return r[1]


def instances(formulas, depth=1, left=False, maxapps=300):
    """ground instances of fold definitions and lemmas relevant to formulas"""
    out = []
    emitted = set()
    seen = set()
    work = []
    univ_apps = []
    idx = {}
    napps = [0]
    mapps, mkeys = [], {}
    visited = set()
    absorbing = []

    def newkey(q, d):
        lst = mkeys.setdefault(q.sort().name(), {})
        if q.get_id() in lst or len(lst) > 40:
            return
        lst[q.get_id()] = q
        for e in mapps:
            m = MREG[e.decl().name()]
            if m.keysort == q.sort():
                emit(m.inst(e, q), d + 1)

    def newidx(a, q, d):
        for a in bases(a):
            lst = idx.setdefault(a.get_id(), [])
            if len(lst) < 30:
                lst.append(q)
                for ap in univ_apps:
                    for k, aid in enumerate(ap.arrids):
                        if aid == a.get_id():
                            emit(univ_rule(ap, z3.simplify(q - ap.sh[k])), d + 1)
                for ap in absorbing:
                    if d <= 1 and ap.fold.shift is None and a.get_id() in ap.arrids:
                        emit(first_rule(ap, z3.simplify(q)), d + 1)

    def feed(f, d):
        apps, sels, maps = scan(f, visited)
        for e in maps:
            k = e.get_id()
            if k not in seen:
                seen.add(k)
                work.append((2, e, d))
        for e in apps:
            k = e.get_id()
            if k not in seen:
                seen.add(k)
                napps[0] += 1
                work.append((0, e, d))
        for e in sels:
            k = e.get_id()
            if k not in seen:
                seen.add(k)
                work.append((1, e, d))

    def emit(f, d):
        k = f.get_id()
        if k not in emitted:
            emitted.add(k)
            out.append(f)
            feed(f, d)

    for f in formulas:
        feed(f, 0)
    w = 0
    while w < len(work):
        kind, e, d = work[w]
        w += 1
        if napps[0] > maxapps:
            break
        if kind == 2:
            m = MREG[e.decl().name()]
            mapps.append(e)
            for q in list(mkeys.get(m.keysort.name(), {}).values()):
                emit(m.inst(e, q), d + 1)
            k, f = m.wit(e)
            emit(f, d + 1)
            newkey(k, d + 1)
            continue
        if kind == 1:
            a, q = e.arg(0), e.arg(1)
            if d <= depth:
                newkey(q, d)
            if d <= 2:
                for f in sel_rules(e):
                    emit(f, d + 1)
            if d <= 1:
                newidx(a, q, d)
            continue
        ap = app_of(e)
        for f in rules(ap, 'def'):
            emit(f, d + 1)
        if d < depth or (ap.numeric and d < 10):
            for f in rules(ap, 'right'):
                emit(f, d + 1)
            if left and d < 1 and not ap.numeric:
                for f in rules(ap, 'left'):
                    emit(f, d + 1)
        for f in rules(ap, 'struct'):
            emit(f, d)
        if d == 0:
            for f in forward(ap):
                emit(f, d)
        if ap.fold.absorb and d <= 2:
            for o in absorbing:
                if o.fold is ap.fold and o.ver is ap.ver and o.arrids == ap.arrids and o.i.eq(ap.i) and all(
                        x.eq(y) for x, y in zip(o.extra, ap.extra)):
                    for x, y in ((o, ap), (ap, o)):
                        emit(z3.Implies(z3.And(x.j <= y.j, x.e != ap.fold.unit), y.e == x.e), d + 1)
            absorbing.append(ap)
            if d <= 1 and ap.fold.shift is None:
                for aid in ap.arrids:
                    for q in list(idx.get(aid, ())):
                        emit(first_rule(ap, z3.simplify(q)), d + 1)
        if ap.fold.univ and d <= ap.fold.deep:
            for o in univ_apps:
                # a wider range has all the elements of a narrower one
                if o.fold is ap.fold and o.ver is ap.ver and o.arrids == ap.arrids and len(o.extra) == len(ap.extra) and all(
                        x.eq(y) for x, y in zip(o.extra, ap.extra)):
                    for x, y in ((o, ap), (ap, o)):
                        wide = z3.And(y.i <= x.i, x.j <= y.j)
                        emit(z3.Implies(z3.And(wide, x.e), y.e) if ap.fold.univ == 'any' else z3.Implies(z3.And(wide, y.e), x.e), d + 1)
            univ_apps.append(ap)
            for k, aid in enumerate(ap.arrids):
                for q in list(idx.get(aid, ())):
                    emit(univ_rule(ap, z3.simplify(q - ap.sh[k])), d + 1)
            if ap.fold.sk:
                q, f = wit_rule(ap)
                emit(f, d + 1)
                for a, x in zip(ap.arrs, ap.sh):
                    newidx(a, z3.simplify(q + x), d)
    return out


def reset():
    for m in (_NODE, _RULES, _UNIV, _SEL, _APPS):
        m.clear()


def lemma_obligations(f):
    """[(label, formula to be proved valid)] justifying the instances used for fold f"""
    out = []
    S = z3.ArraySort
    A = [z3.Const('A%d' % k, S(z3.IntSort(), s)) for k, s in enumerate(f.arrsorts)]
    Bs = [z3.Const('B%d' % k, S(z3.IntSort(), s)) for k, s in enumerate(f.arrsorts)]
    ex = [z3.Const('e%d' % k, s) for k, s in enumerate(f.extrasorts)]
    i, j, q = z3.Ints('i j q')
    ver = None
    if f.heapdep:
        ver = DummyVer()
    rec = z3.Const('rec', f.ret)
    sh = f.shift(ex) if f.shift is not None else [z3.IntVal(0)] * len(A)
    # frame: one induction step
    eqs = []
    for a, b, d in zip(A, Bs, sh):
        eqs += [z3.Select(a, q + d) == z3.Select(b, q + d),
                z3.Implies(q - 1 >= i, z3.Select(a, q - 1 + d) == z3.Select(b, q - 1 + d))]

    def stepf(arrs, r):
        if f.op is not None:
            return f.op(r, f.el(arrs, q, ex, ver))
        return f.stepfn(arrs, i, q, ex, r)
    if f.op is None:
        # folds over the elements before q inside the step: their own frame lemma
        for e in _children_iter([stepf(A, rec)]):
            g = REG.get(e.decl().name(), (None,))[0] if z3.is_app(e) and e.num_args() else None
            if g is not None and g is not f and g.frame and g.op is not None:
                a = App(e)
                if all(x.eq(y) for x, y in zip(a.arrs, A)) and a.i.eq(i) and a.j.eq(q):
                    for ex2 in ([z3.substitute(x, *zip(A, Bs)) for x in a.extra],):
                        eqs.append(z3.Implies(z3.And(*[x == y for x, y in zip(a.extra, ex2)]), e == g(Bs, i, q, *ex2)))
                    continue
                # over some of the arrays, as far as q
                pos = [[k for k, y in enumerate(A) if x.eq(y)] for x in a.arrs]
                same = lambda x, y: z3.is_true(z3.simplify(x == y))
                if all(pos) and all(same(a.i, i + sh[k[0]]) and (same(a.j, q + sh[k[0]]) or same(a.j, q + 1 + sh[k[0]])) for k in pos):
                    ex2 = [z3.substitute(x, *zip(A, Bs)) for x in a.extra]
                    eqs.append(z3.Implies(z3.And(*[x == y for x, y in zip(a.extra, ex2)]), e == g([Bs[k[0]] for k in pos], a.i, a.j, *ex2)))
    if f.frame:
        out.append(('%s: frame step' % f.name, z3.Implies(z3.And(q >= i, *eqs), stepf(A, rec) == stepf(Bs, rec))))
    if f.op is not None:
        x, y, z = (z3.Const(n, f.ret) for n in 'xyz')
        out.append(('%s: associative' % f.name, f.op(f.op(x, y), z) == f.op(x, f.op(y, z))))
        out.append(('%s: unit' % f.name, z3.And(f.op(f.unit, x) == x, f.op(x, f.unit) == x)))
        if f.absorb:
            out.append(('%s: absorbing' % f.name, z3.Implies(x != f.unit, f.op(x, y) == x)))
        if f.comm:
            out.append(('%s: commutative' % f.name, f.op(x, y) == f.op(y, x)))
    if f.univ and f.stepfn is not None:
        p = f.univ_elem(A, i, q, ex)
        st = f.stepfn(A, i, q, ex, rec)
        out.append(('%s: element law' % f.name, z3.Implies(q >= i, st == (z3.And(rec, p) if f.univ == 'all' else z3.Or(rec, p)))))
    elif f.univ:
        x, y = (z3.Const(n, f.ret) for n in 'xy')
        out.append(('%s: element law' % f.name, f.op(x, y) == (z3.And(x, y) if f.univ == 'all' else z3.Or(x, y))))
    if f.wf is not None:
        # facts attached to f hold for empty ranges and are preserved by one step
        e0 = f(A, i, j, *ex, ver=ver)
        claims = f.wf(e0, A, i, j, ex, ver)
        others = instances_defs(claims, i, j)
        for c in claims:
            for e in _children_iter([c]):
                g = REG.get(e.decl().name(), (None,))[0] if z3.is_app(e) and e.num_args() else None
                if g is not None and g in f.uses:
                    assert not g.uses and g is not f
                    a = App(e)
                    others += g.wf(e, a.arrs, a.i, a.j, a.extra, a.ver)
        for k, c in enumerate(claims):
            out.append(('%s: fact %d, empty range' % (f.name, k + 1), z3.Implies(z3.And(j <= i, *others), c)))
            prev = [z3.substitute(x, (j, z3.simplify(j - 1))) for x in claims]
            prev = [z3.substitute(x, (j, j - 1)) for x in claims]
            out.append(('%s: fact %d, step' % (f.name, k + 1), z3.Implies(z3.And(j > i, *others, *prev), c)))
    return out


class DummyVer:
    id = 0

    def __init__(self):
        pass


def instances_defs(claims, i, j):
    """defining equations (empty, right step) of all folds applied to range (i,j) in claims"""
    out = []
    seen = set()
    for c in claims:
        for e in _children_iter([c]):
            if z3.is_app(e) and e.decl().kind() == z3.Z3_OP_UNINTERPRETED and e.num_args() and e.decl().name() in REG:
                if e.get_id() in seen:
                    continue
                seen.add(e.get_id())
                fold, ver = REG[e.decl().name()]
                na = len(fold.arrsorts)
                ch = e.children()
                arrs, a, b, extra = ch[:na], ch[na], ch[na + 1], ch[na + 2:]
                out.append(z3.Implies(b <= a, e == fold.unit))
                out.append(z3.Implies(b > a, e == fold.right(arrs, a, b, extra, ver)))
    return out
