"""Symbolic execution of Go SSA with contracts and loop invariants.

One Session verifies one function against its contract: it executes the SSA of
the real function for arbitrary arguments and an arbitrary heap, cuts loops at
their headers with invariants, uses contracts (or the body) at calls, and hands
every proof obligation to the solver.
"""
import itertools
import os
import sys
import time
import z3
from . import fold
from .fold import Fold

sys.setrecursionlimit(100000)
I = z3.IntSort()
B = z3.BoolSort()
Str = z3.DeclareSort('Str')
MAXLEN = 2 ** 40
_ctr = itertools.count(1)


def fresh_name(p):
    return '%s!%d' % (p, next(_ctr))


def fresh_const(p, sort):
    return z3.Const(fresh_name(p), sort)


class Unsupported(Exception):
    pass


# ---------------------------------------------------------------- strings
_lits = {}
strid = z3.Function('strid', Str, I)
strlen = z3.Function('strlen', Str, I)
strat = z3.Function('strat', Str, I, I)
strcat = z3.Function('strcat', Str, Str, Str)
strsub = z3.Function('strsub', Str, I, I, Str)
strlt = z3.Function('strlt', Str, Str, B)
strof = z3.Function('strof', z3.ArraySort(I, I), I, I, Str)
GLOBAL_FACTS = []


def lit(s):
    if s not in _lits:
        c = z3.Const('lit_%d' % len(_lits), Str)
        b = s.encode('utf8', 'surrogateescape')
        f = [strid(c) == len(_lits), strlen(c) == len(b)]
        if len(b) <= 40:
            f += [strat(c, z3.IntVal(i)) == x for i, x in enumerate(b)]
        _lits[s] = (c, f)
        GLOBAL_FACTS.extend(f)
    return _lits[s][0]


# ---------------------------------------------------------------- values
# characters of a string: how many, where each starts, and which they are
runes = z3.Function('runes', Str, I)
runepos = z3.Function('runepos', Str, I, I)
runeat = z3.Function('runeat', Str, I, I)


class SliceV:
    __slots__ = ('ref', 'off', 'len', 'cap', 'elem')

    def __init__(self, ref, off, ln, cap, elem):
        self.ref, self.off, self.len, self.cap, self.elem = ref, off, ln, cap, elem

    @property
    def end(self):
        return z3.simplify(self.off + self.len)


class StructV:
    __slots__ = ('t', 'vals')

    def __init__(self, t, vals):
        self.t, self.vals = t, vals


class IfaceV:
    __slots__ = ('tid', 'pay', 'known')

    def __init__(self, tid, pay, known=None):
        self.tid, self.pay, self.known = tid, pay, known


class Ptr:
    """pointer to: object (root O), slice element (root E), whole array object (root A)"""
    __slots__ = ('root', 'T', 'ref', 'idx', 'path', 't')

    def __init__(self, root, T, ref, idx=None, path=(), t=None):
        self.root, self.T, self.ref, self.idx, self.path = root, T, ref, idx, path
        self.t = t if t is not None else T


class MapV:
    __slots__ = ('ref', 't')

    def __init__(self, ref, t):
        self.ref, self.t = ref, t


class FuncV:
    __slots__ = ('name', 'bindings', 'term', 't')

    def __init__(self, name=None, bindings=(), term=None, t=None):
        self.name, self.bindings, self.term, self.t = name, bindings, term, t


class ArrayV:
    __slots__ = ('t', 'leaves')

    def __init__(self, t, leaves):
        self.t, self.leaves = t, leaves


class TupleV:
    __slots__ = ('vals',)

    def __init__(self, vals):
        self.vals = vals


class IterV:
    __slots__ = ('kind', 'obj', 'key', 'id', 'dom', 'heap')

    def __init__(self, kind, obj, key, id, dom=None, heap=None):
        self.kind, self.obj, self.key, self.id, self.dom, self.heap = kind, obj, key, id, dom, heap


class OpaqueV:
    __slots__ = ('t', 'what')

    def __init__(self, t, what=''):
        self.t, self.what = t, what


# ghost: the map and key under which a nested map was first stored
mapowner = z3.Function('mapowner', I, I)
mapownkey = z3.Function('mapownkey', I, Str)


# ---------------------------------------------------------------- heap versions
_vid = itertools.count(1)


class Ver:
    __slots__ = ('id', 'kind', 'prev', 'ref', 'val', 'keep', 'fn', 'key', 'refbound')

    def __init__(self, kind, **kw):
        self.id = next(_vid)
        self.kind = kind
        self.prev = self.ref = self.val = self.keep = self.fn = self.key = self.refbound = None
        for k, v in kw.items():
            setattr(self, k, v)


class State:
    __slots__ = ('pc', 'heap', 'alloc', 'ghost', 'path', 'settled', 'have')

    def __init__(self):
        self.pc, self.heap, self.alloc, self.ghost, self.path = [], {}, None, {}, ()
        self.settled = {}        # what decide has found; path conditions only grow
        self.have = set()        # identities of the formulas in the path condition

    def copy(self):
        s = State()
        s.pc, s.heap, s.alloc, s.ghost, s.path = list(self.pc), dict(self.heap), self.alloc, dict(self.ghost), self.path
        s.settled, s.have = dict(self.settled), set(self.have)
        return s

    def assume(self, *fs):
        for f in fs:
            if f is None or (z3.is_true(f)):
                continue
            i = f.get_id() if not isinstance(f, bool) else None
            if i in self.have:
                continue
            self.have.add(i) if i is not None else None
            self.pc.append(f)


def mkkeep(alloc, W):
    """references below alloc and not in W; entries of W are references or predicates on references"""
    def keep(r):
        return z3.And(r < alloc, *[z3.Not(w(r)) if callable(w) and not z3.is_expr(w) else r != w for w in W])
    return keep


def inW(r, W):
    return [w(r) if callable(w) and not z3.is_expr(w) else r == w for w in W]


class Snap:
    """immutable heap snapshot"""
    __slots__ = ('heap', 'alloc', 'ghost')

    def __init__(self, st):
        self.heap, self.alloc, self.ghost = dict(st.heap), st.alloc, dict(st.ghost)


# ---------------------------------------------------------------- solver
class Stats:
    def __init__(self):
        self.queries = 0
        self.time = 0.0
        self.by = {}


STATS = Stats()


class SolverStack:
    """incremental solver following the path condition"""

    def __init__(self, rlimit=2000000):
        self.s = z3.SimpleSolver()
        self.s.set('rlimit', rlimit)
        self.stack = []
        self.nglob = 0
        self.last = None

    def sync(self, pc):
        n = len(self.stack)
        if pc is not self.last or n > len(pc):
            n = 0
        self.last = pc
        while n < len(self.stack) and n < len(pc) and self.stack[n] is pc[n]:
            n += 1
        k = len(self.stack) - n
        if k:
            self.s.pop(k)
            del self.stack[n:]
        for f in pc[n:]:
            self.s.push()
            self.s.add(f)
            self.stack.append(f)

    def check(self, pc, *fs):
        t = time.time()
        self.sync(pc)
        self.s.push()
        self.s.add(*[f for f in GLOBAL_FACTS[-200:]])
        self.s.add(*fs)
        r = self.s.check()
        self.s.pop()
        STATS.queries += 1
        STATS.time += time.time() - t
        return r


class Obl:
    def __init__(self, label, kind, status, model=None, t=0.0, backend='z3', where='', detail=''):
        self.label, self.kind, self.status, self.model = label, kind, status, model
        self.time, self.backend, self.where, self.detail = t, backend, where, detail

    def __repr__(self):
        return '<%s %s %s %.2fs>' % (self.status, self.kind, self.label, self.time)


def strip(f):
    return z3.simplify(f)


# ---------------------------------------------------------------- session
class Session:
    def __init__(self, prog, env, fn, contract, opts=None):
        self.prog, self.env, self.fn, self.contract = prog, env, fn, contract
        self.opts = opts or {}
        self.base = {}
        self.quick = SolverStack()
        self.dropped = set()
        self.cand_ok = set()
        self.loopinfo = {}      # loopid -> dict(havoc=set(keys), W={key:[refs]}, noframe=set(), ghosts=set())
        self.changed = False
        self.final = False
        self.obls = []
        self.fnids = {}
        self.unsupported = []
        self.depth = self.opts.get('depth', 2)
        self.rlimit = self.opts.get('rlimit', 30000000)
        self._leafcache = {}
        self.boxes = {}
        self.covers = 0
        self.touched = set()
        self.npaths = 0
        self.calls_used = set()
        self.inlined = set()
        self.trusted = set()
        self.deadline = time.time() + self.opts.get('budget', 240)
        self._round = 0
        self.contract_cover = {}

    # ---- leaves ------------------------------------------------------
    def leaves(self, t):
        """list of (suffix, sort, leaf type tag)"""
        if t in self._leafcache:
            return self._leafcache[t]
        p = self.prog
        k = p.kind(t)
        if k == 'basic':
            b = p.basic(t)
            if b in p.INTS:
                r = [('', I, ('int', p.INTS[b]))]
            elif b in ('bool', 'untyped bool'):
                r = [('', B, None)]
            elif b in ('string', 'untyped string'):
                r = [('', Str, ('str',))]
            elif b == 'untyped nil':
                r = [('', I, None)]
            elif b in ('float64', 'float32', 'untyped float'):
                r = [('', z3.RealSort(), None)]
            else:
                raise Unsupported('basic type ' + b)
        elif k == 'ptr':
            r = [('', I, ('ref', t))]
        elif k == 'map':
            r = [('', I, ('ref', t))]
        elif k == 'chan':
            r = [('', I, ('ref', t))]
        elif k == 'slice':
            r = [('.ref', I, ('sref', t)), ('.off', I, ('soff', t)), ('.len', I, ('slen', t)), ('.cap', I, ('scap', t))]
        elif k == 'iface':
            r = [('.tid', I, ('tid', t)), ('.pay', I, ('pay', t))]
        elif k == 'sig':
            r = [('', I, ('fn', t))]
        elif k == 'struct':
            r = []
            for f in p.fields(t):
                for s, so, tag in self.leaves(f['type']):
                    r.append(('.' + f['name'] + s, so, tag))
        elif k == 'array':
            r = [('[]' + s, z3.ArraySort(I, so), ('arr', tag)) for s, so, tag in self.leaves(p.elem(t))]
        elif k == 'tuple':
            r = []
        else:
            raise Unsupported('type ' + p.tstr(t))
        self._leafcache[t] = r
        return r

    def flatten(self, v, t):
        p = self.prog
        k = p.kind(t)
        if k == 'struct':
            out = []
            for f, x in zip(p.fields(t), v.vals):
                out += self.flatten(x, f['type'])
            return out
        if k == 'slice':
            return [v.ref, v.off, v.len, v.cap]
        if k == 'iface':
            return [v.tid, v.pay]
        if k == 'ptr':
            if v.root == 'A':
                return [v.ref]
            if v.root != 'O' or v.path:
                raise Unsupported('interior pointer stored')
            return [v.ref]
        if k in ('map', 'chan'):
            return [v.ref]
        if k == 'sig':
            return [self.fnterm(v)]
        if k == 'array':
            return list(v.leaves)
        return [v]

    def fnterm(self, v):
        if v.term is not None:
            return v.term
        if v.name is None:
            return z3.IntVal(0)
        key = (v.name, tuple(id(b) for b in v.bindings))
        if key not in self.fnids:
            self.fnids[key] = (len(self.fnids) + 1, v)
        return z3.IntVal(self.fnids[key][0])

    def unflatten(self, t, terms):
        p = self.prog
        k = p.kind(t)
        if k == 'struct':
            vals, i = [], 0
            for f in p.fields(t):
                n = len(self.leaves(f['type']))
                vals.append(self.unflatten(f['type'], terms[i:i + n]))
                i += n
            return StructV(t, vals)
        if k == 'slice':
            return SliceV(*terms, p.elem(t))
        if k == 'iface':
            return IfaceV(*terms)
        if k == 'ptr':
            et = p.elem(t)
            if p.kind(et) == 'array':
                return Ptr('A', p.elem(et), terms[0], t=et)
            return Ptr('O', et, terms[0])
        if k in ('map', 'chan'):
            return MapV(terms[0], t)
        if k == 'sig':
            x = z3.simplify(terms[0])
            if z3.is_int_value(x):
                for n, fv in self.fnids.values():
                    if n == x.as_long():
                        return fv
                if x.as_long() == 0:
                    return FuncV(None, (), None, t)
            return FuncV(None, (), terms[0], t)
        if k == 'array':
            return ArrayV(t, list(terms))
        return terms[0]

    def zero(self, t):
        def z(sort):
            if sort == I:
                return z3.IntVal(0)
            if sort == B:
                return z3.BoolVal(False)
            if sort == Str:
                return lit('')
            if sort == z3.RealSort():
                return z3.RealVal(0)
            return z3.K(I, z(sort.range()))
        return self.unflatten(t, [z(s) for _, s, _ in self.leaves(t)])

    def fresh(self, t, name, st, bound=None):
        terms = [fresh_const(name + s, so) for s, so, _ in self.leaves(t)]
        v = self.unflatten(t, terms)
        st.assume(*self.wf(t, terms, bound if bound is not None else st.alloc))
        return v

    def wfleaf(self, tag, x, alloc):
        if tag is None:
            return []
        if tag[0] == 'int':
            w, s = tag[1]
            return [x >= (-(2 ** (w - 1)) if s else 0), x < (2 ** (w - 1) if s else 2 ** w)]
        if tag[0] == 'ref':
            return [x >= 0, x < alloc] if alloc is not None else [x >= 0]
        if tag[0] == 'str':
            return [strlen(x) >= 0, strlen(x) <= MAXLEN]
        return []

    def wf(self, t, terms, alloc):
        out = []
        lv = self.leaves(t)
        i = 0
        while i < len(lv):
            tag = lv[i][2]
            x = terms[i]
            if tag and tag[0] == 'sref':
                ref, off, ln, cap = terms[i:i + 4]
                out += self.wfslice(ref, off, ln, cap, alloc)
                i += 4
                continue
            if tag and tag[0] == 'tid':
                out += [x >= 0, z3.Implies(x == 0, terms[i + 1] == 0)]
                i += 2
                continue
            out += self.wfleaf(tag, x, alloc)
            i += 1
        nn = self.env.nonnull
        s = self.prog.tstr(t)
        if s in nn:
            out.append(terms[0] != 0)
        return [z3.simplify(f) for f in out]

    def wfslice(self, ref, off, ln, cap, alloc):
        r = [ref >= 0, off >= 0, ln >= 0, ln <= cap, off + cap <= MAXLEN, z3.Implies(ref == 0, cap == 0)]
        if alloc is not None:
            r.append(ref < alloc)
        return r

    # ---- heap --------------------------------------------------------
    def ver(self, heap, key):
        v = heap.get(key)
        if v is None:
            v = self.base.get(key)
            if v is None:
                sort = self.keysort(key)
                fn = z3.Function('H0_%s' % '_'.join(str(x) for x in key), I, sort)
                self.typed(key, fn.name())
                v = Ver('base', fn=fn, key=key)
                self.base[key] = v
        return v

    def typed(self, key, name):
        if key[0] == 'E':
            tag = self.leaves(self.prog.tid(key[1]))[key[2]][2]
            if tag is not None and tag[0] == 'int':
                w, s = tag[1]
                fold.TYPED[name] = (-(2 ** (w - 1)) if s else 0, 2 ** (w - 1) if s else 2 ** w)

    def keysort(self, key):
        kind = key[0]
        if kind == 'O':
            return self.leaves(self.prog.tid(key[1]))[key[2]][1]
        if kind == 'E':
            return z3.ArraySort(I, self.leaves(self.prog.tid(key[1]))[key[2]][1])
        if kind == 'MD':
            t = self.prog.tid(key[1])
            return z3.ArraySort(self.keyleaf(t), B)
        if kind == 'MV':
            t = self.prog.tid(key[1])
            return z3.ArraySort(self.keyleaf(t), self.leaves(self.prog.elem(t))[key[2]][1])
        if kind == 'ML':
            return I
        raise Unsupported('key ' + str(key))

    def keyleaf(self, mt):
        kt = self.prog.types[self.prog.under(mt)]['key']
        l = self.leaves(kt)
        if len(l) != 1:
            raise Unsupported('map key type ' + self.prog.tstr(kt))
        return l[0][1]

    def decide(self, st, f):
        """True/False if st's path condition settles f, else None"""
        f = z3.simplify(f)
        if z3.is_true(f):
            return True
        if z3.is_false(f):
            return False
        if st is None:
            return None
        i = f.get_id()
        d = st.settled.get(i)
        if d is not None and (d[1] is not None or d[2] == len(st.pc)):
            return d[1]
        r = None
        if self.quick.check(st.pc, z3.Not(f)) == z3.unsat:
            r = True
        elif self.quick.check(st.pc, f) == z3.unsat:
            r = False
        st.settled[i] = (f, r, len(st.pc))
        return r

    def read(self, st, ver, ref):
        """contents of object ref in heap version ver, simplified under st"""
        memo = {}
        chain = []
        v = ver
        res = None
        while True:
            if v.kind == 'base':
                res = v.fn(ref)
                break
            if v.kind == 'store':
                d = self.decide(st, ref == v.ref)
                if d is True:
                    res = v.val
                    break
                if d is None:
                    chain.append(('ite', ref == v.ref, v.val))
                v = v.prev
                continue
            if v.kind == 'frame':
                if v.keep is None:
                    res = v.fn(ref)
                    break
                c = v.keep(ref)
                d = self.decide(st, c)
                if d is False:
                    res = v.fn(ref)
                    break
                if d is None:
                    chain.append(('nite', c, v.fn(ref)))
                v = v.prev
                continue
            raise AssertionError(v.kind)
        self.lastbound = v.refbound if not chain else None
        if not chain and v.kind == 'base':
            self.lastbound = self.alloc0
        for kind, c, val in reversed(chain):
            if kind == 'ite':
                res = z3.If(c, val, res)
            else:
                res = z3.If(c, res, val)
        return res

    def write(self, st, key, ref, val):
        self.touched.add(key)
        st.heap[key] = Ver('store', prev=self.ver(st.heap, key), ref=ref, val=val, key=key, refbound=st.alloc)

    def locate(self, T, path):
        """leaf start, number of leaves, type, index terms for a path inside T"""
        start, t, idxs = 0, T, []
        for e in path:
            if isinstance(e, int):
                fs = self.prog.fields(t)
                for f in fs[:e]:
                    start += len(self.leaves(f['type']))
                t = fs[e]['type']
            else:
                idxs.append(e[1])
                t = self.prog.elem(t)
        return start, len(self.leaves(t)), t, idxs

    def load(self, st, p, heap=None, alloc=None, facts=None):
        heap = st.heap if heap is None else heap
        alloc = st.alloc if alloc is None else alloc
        if p.root == 'A' and not p.path:
            out = []
            for i, _ in enumerate(self.leaves(p.T)):
                out.append(self.read(st, self.ver(heap, ('E', self.prog.tstr(p.T), i)), p.ref))
            return ArrayV(p.t, out)
        start, n, t, idxs = self.locate(p.T, p.path)
        terms = []
        ts = self.prog.tstr(p.T)
        bounds = []
        for i in range(start, start + n):
            x = self.read(st, self.ver(heap, (p.root, ts, i)), p.ref)
            bounds.append(self.lastbound)
            if p.root == 'E':
                x = z3.Select(x, p.idx)
            for ix in idxs:
                x = z3.Select(x, ix)
            terms.append(x)
        if bounds and bounds[0] is not None and all(b is not None and b.eq(bounds[0]) for b in bounds):
            alloc = bounds[0]
        w = self.wf(t, terms, alloc)
        if facts is None:
            st.assume(*w)
        else:
            facts.extend(w)
        v = self.unflatten(t, terms)
        if self.env.loadhook:
            for f in self.env.loadhook(self, st, p, t, v, terms):
                st.assume(f)
        return v

    def store(self, st, p, v):
        if p.root == 'A' and not p.path:
            for i, x in enumerate(v.leaves):
                self.write(st, ('E', self.prog.tstr(p.T), i), p.ref, x)
            return
        start, n, t, idxs = self.locate(p.T, p.path)
        terms = self.flatten(v, t)
        ts = self.prog.tstr(p.T)
        if self.env.storehook:
            self.env.storehook(self, st, p, t, v, terms)
        for i, x in zip(range(start, start + n), terms):
            key = (p.root, ts, i)
            if p.root == 'O' and not idxs:
                self.write(st, key, p.ref, x)
                continue
            old = self.read(st, self.ver(st.heap, key), p.ref)
            ixs = ([p.idx] if p.root == 'E' else []) + idxs

            def upd(a, ixs):
                if not ixs:
                    return x
                return z3.Store(a, ixs[0], upd(z3.Select(a, ixs[0]), ixs[1:]) if len(ixs) > 1 else x)
            self.write(st, key, p.ref, upd(old, ixs))

    def newref(self, st):
        r = st.alloc
        st.alloc = z3.simplify(st.alloc + 1)
        if self.env.newhook:
            st.assume(*self.env.newhook(r))
        return r

    # ---- map helpers -------------------------------------------------
    def mapdom(self, st, m, heap=None):
        heap = st.heap if heap is None else heap
        return self.read(st, self.ver(heap, ('MD', self.prog.tstr(m.t))), m.ref)

    def mapvals(self, st, m, heap=None):
        heap = st.heap if heap is None else heap
        n = len(self.leaves(self.prog.elem(m.t)))
        self.lastbound = None
        return [self.read(st, self.ver(heap, ('MV', self.prog.tstr(m.t), i)), m.ref) for i in range(n)]

    def mapkey(self, m, k):
        kt = self.prog.types[self.prog.under(m.t)]['key']
        return self.flatten(k, kt)[0]

    def mapget(self, st, m, k, heap=None, alloc=None):
        """(value, present) with zero value when absent"""
        kk = self.mapkey(m, k)
        dom = z3.And(m.ref != 0, z3.Select(self.mapdom(st, m, heap), kk))
        et = self.prog.elem(m.t)
        raw = [z3.Select(a, kk) for a in self.mapvals(st, m, heap)]
        if self.lastbound is not None:
            alloc = self.lastbound
        st.assume(*[z3.Implies(dom, f) for f in self.wf(et, raw, alloc if alloc is not None else st.alloc)])
        zt = self.flatten(self.zero(et), et)
        d = self.decide(st, dom)
        if d is True:
            terms = raw
        elif d is False:
            terms = zt
        else:
            terms = [z3.If(dom, a, b) for a, b in zip(raw, zt)]
        return self.unflatten(et, terms), dom

    # ---- integers ----------------------------------------------------
    def wrap(self, x, info):
        w, s = info
        M = 2 ** w
        lo, hi = (-(M // 2), M // 2) if s else (0, M)
        x = z3.simplify(x)
        if z3.is_int_value(x):
            n = x.as_long()
            n = (n - lo) % M + lo
            return z3.IntVal(n)
        return x, lo, hi, M

    def inrange(self, st, x, lo, hi):
        return st is not None and self.quick.check(st.pc, z3.Or(x < lo, x >= hi)) == z3.unsat

    def wrap1(self, x, info, st=None):
        """x differs from an in-range value by less than 2^w"""
        r = self.wrap(x, info)
        if not isinstance(r, tuple):
            return r
        x, lo, hi, M = r
        if self.inrange(st, x, lo, hi):
            return x
        return z3.If(x >= hi, x - M, z3.If(x < lo, x + M, x))

    def wrapmod(self, x, info, st=None):
        r = self.wrap(x, info)
        if not isinstance(r, tuple):
            return r
        x, lo, hi, M = r
        if self.inrange(st, x, lo, hi):
            return x
        if lo == 0:
            return x % M
        return (x - lo) % M + lo

    # ---- obligations -------------------------------------------------
    def where(self, st):
        return ' > '.join(str(x) for x in st.path[-6:])

    def prove(self, st, goal, depth=None, rlimit=None):
        """('proved'|'failed'|'unknown', model)"""
        goal = z3.simplify(goal)
        if z3.is_true(goal):
            return 'proved', None
        t0 = time.time()
        STATS.queries += 1
        ng = z3.Not(goal)
        r = z3.unknown
        try:
            if self.quick.check(st.pc, ng) == z3.unsat:
                return 'proved', None
            for d, left in ((1, False), (2, True)):
                s = z3.SimpleSolver()
                s.set('rlimit', rlimit or self.rlimit)
                fs = st.pc + [ng]
                inst = fold.instances(fs, depth=d, left=left, maxapps=1500 if left else 300)
                inst += fold.rec_instances(fs + inst)
                s.add(*GLOBAL_FACTS)
                s.add(*fs)
                s.add(*inst)
                r = s.check()
                if r == z3.unsat:
                    return 'proved', None
                if r == z3.sat:
                    if not left:
                        continue
                    return 'failed', s.model()
                # unknown: try the general solver
                s2 = z3.Solver()
                s2.set('rlimit', rlimit or self.rlimit)
                s2.add(*GLOBAL_FACTS)
                s2.add(*fs)
                s2.add(*inst)
                r = s2.check()
                if r == z3.unsat:
                    return 'proved', None
                if r == z3.sat and left:
                    return 'failed', s2.model()
            return 'unknown', None
        finally:
            STATS.time += time.time() - t0

    def oblige(self, st, label, goal, kind='assert'):
        """record and discharge an obligation; continue assuming it"""
        if self.final:
            t0 = time.time()
            status, model = self.prove(st, goal)
            self.obls.append(Obl(label, kind, status, self.describe(model) if model is not None else None,
                                 time.time() - t0, 'z3', self.where(st)))
            if self.opts.get('dump') is not None:
                self.dump(st, goal, label)
        st.assume(goal)

    def dump(self, st, goal, label):
        s = z3.Solver()
        fs = st.pc + [z3.Not(z3.simplify(goal))]
        s.add(*GLOBAL_FACTS)
        s.add(*fs)
        s.add(*fold.instances(fs, depth=2, left=True))
        self.opts['dump'](label, s.to_smt2())

    def describe(self, model):
        out = []
        try:
            for d in model.decls():
                n = d.name()
                if d.arity() == 0 and not z3.is_array(model[d]) and (n.startswith('arg_') or n.startswith('ghost_')):
                    out.append('%s=%s' % (n, model[d]))
        except Exception as e:  # model printing is informative only
            out.append('model: %s' % e)
        return ', '.join(sorted(out))

    def tick(self):
        if time.time() > self.deadline:
            raise Unsupported('time budget of this function exceeded')

    # ---- constants and operands --------------------------------------
    def val(self, regs, o):
        k = o['k']
        if k == 'reg':
            n = o['name']
            if n not in regs:
                raise Unsupported('use of undefined register ' + n)
            return regs[n]
        if k == 'const':
            return self.const(o)
        if k == 'func':
            return FuncV(o['name'])
        if k == 'global':
            return self.globalptr(o['name'], o['t'])
        if k == 'builtin':
            return FuncV('builtin:' + o['name'])
        raise Unsupported('operand ' + k)

    def globalptr(self, name, t):
        if name not in self.env.globalids:
            self.env.globalids[name] = len(self.env.globalids) + 1
        et = self.prog.elem(t)
        ref = z3.IntVal(-self.env.globalids[name])
        if self.prog.kind(et) == 'array':
            return Ptr('A', self.prog.elem(et), ref, t=et)
        return Ptr('O', et, ref)

    def const(self, o):
        t = o['t']
        if 'bool' in o:
            return z3.BoolVal(o['bool'])
        if 's' in o:
            return lit(o['s'])
        if 'i' in o:
            info = self.prog.intinfo(t)
            if info is None:
                if self.prog.basic(t) in ('float64', 'float32', 'untyped float'):
                    return z3.RealVal(o['i'])
                raise Unsupported('const type')
            return z3.IntVal(int(o['i']))
        return self.zero(t)

    # ---- execution ---------------------------------------------------
    def run_fn(self, fn, args, st, stack, bindings=()):
        """list of outcomes (kind, state, results)"""
        if not fn.has_body:
            raise Unsupported('no body: ' + fn.name)
        if any(fr[0] == fn.name for fr in stack) and len(stack) > 1 and \
                sum(1 for fr in stack if fr[0] == fn.name) > self.opts.get('unroll', 0):
            raise Unsupported('recursion without contract: ' + fn.name)
        if len(stack) > 24:
            raise Unsupported('call depth')
        regs = {}
        for p, a in zip(fn.params, args):
            regs[p['name']] = a
        for p, a in zip(fn.freevars, bindings):
            regs[p['name']] = a
        regs['$defers'] = ()
        return self.run_block(fn, regs, 0, None, st, stack + ((fn.name,),))

    def run_block(self, fn, regs, b, prev, st, stack):
        self.tick()
        loops = fn.loops
        if b in loops:
            body, srcs = loops[b]
            if prev in srcs and prev in body:
                self.loop_back(fn, regs, b, prev, st, stack)
                return []
            self.leave_loops(fn, b, st, stack)
            return self.loop_enter(fn, regs, b, prev, st, stack)
        self.leave_loops(fn, b, st, stack)
        blk = fn.blocks[b]
        if prev is not None:
            self.phis(fn, regs, blk, prev)
        return self.run_instrs(fn, regs, b, self.first_nonphi(blk), st, stack)

    def leave_loops(self, fn, b, st, stack):
        resting = st.ghost.get('$resting')
        if resting:
            for hb, (body, srcs) in fn.loops.items():
                k = str(self.loopid(fn, hb, stack))
                if k in resting and b not in body:
                    resting = dict(resting)
                    st.ghost['$newmaps'] = st.ghost.get('$newmaps', ()) + resting.pop(k)
            st.ghost['$resting'] = resting

    def first_nonphi(self, blk):
        i = 0
        while i < len(blk['instrs']) and blk['instrs'][i]['op'] == 'phi':
            i += 1
        return i

    def phis(self, fn, regs, blk, prev):
        e = blk['preds'].index(prev)
        new = {}
        for ins in blk['instrs']:
            if ins['op'] != 'phi':
                break
            new[ins['name']] = self.val(regs, ins['edges'][e])
        regs.update(new)
        return new

    def feasible(self, st, cond):
        c = z3.simplify(cond)
        if z3.is_true(c):
            return True
        if z3.is_false(c):
            return False
        return self.quick.check(st.pc, c) != z3.unsat

    def run_instrs(self, fn, regs, b, i, st, stack):
        blk = fn.blocks[b]
        instrs = blk['instrs']
        while i < len(instrs):
            ins = instrs[i]
            op = ins['op']
            if op == 'jump':
                return self.run_block(fn, regs, blk['succs'][0], b, st, stack)
            if op == 'if':
                if self.env.merge:
                    ch = self.test_chain(fn, b)
                    if len(ch) > 1:
                        return self.run_chain(fn, regs, ch, st, stack)
                c = self.val(regs, ins['cond'])
                out = []
                ft, ff = self.feasible(st, c), self.feasible(st, z3.Not(c))
                if ft and ff:
                    s2 = st.copy()
                    st.assume(c)
                    st.path += ('%s:%s+' % (fn.name.split('.')[-1], self.ifline(fn, b)),)
                    out += self.run_block(fn, dict(regs), blk['succs'][0], b, st, stack)
                    s2.assume(z3.Not(c))
                    s2.path += ('%s:%s-' % (fn.name.split('.')[-1], self.ifline(fn, b)),)
                    out += self.run_block(fn, dict(regs), blk['succs'][1], b, s2, stack)
                elif ft:
                    st.assume(c)
                    out += self.run_block(fn, regs, blk['succs'][0], b, st, stack)
                elif ff:
                    st.assume(z3.Not(c))
                    out += self.run_block(fn, regs, blk['succs'][1], b, st, stack)
                return out
            if op == 'return':
                return [('ret', st, [self.val(regs, r) for r in ins['results']])]
            if op == 'panic':
                return self.panic(fn, regs, st, 'panic at line %s' % ins.get('pos'), self.val(regs, ins['x']), stack)
            if op in ('call', 'defer', 'go', 'rundefers'):
                if op == 'defer':
                    regs['$defers'] = regs['$defers'] + ((ins['call'], self.call_parts(regs, ins['call'])),)
                    i += 1
                    continue
                if op == 'go':
                    raise Unsupported('go statement')
                if op == 'rundefers':
                    ds = regs['$defers']
                    regs['$defers'] = ()
                    if not ds:
                        i += 1
                        continue
                    sts = [(st, regs)]
                    for c, parts in reversed(ds):
                        nxt = []
                        for s1, r1 in sts:
                            for kind, s2, res in self.do_call(fn, r1, c, parts, s1, stack, ins):
                                if kind == 'ret':
                                    nxt.append((s2, dict(r1)))
                                else:
                                    raise Unsupported('panic in deferred call')
                        sts = nxt
                    out = []
                    for s1, r1 in sts:
                        out += self.run_instrs(fn, r1, b, i + 1, s1, stack)
                    return out
                outs = self.do_call(fn, regs, ins['call'], self.call_parts(regs, ins['call']), st, stack, ins)
                if len(outs) == 1 and outs[0][0] == 'ret':
                    _, st, res = outs[0]
                    regs[ins['name']] = self.pack(ins, res)
                    i += 1
                    continue
                out = []
                for kind, s2, res in outs:
                    if kind == 'ret':
                        r2 = dict(regs)
                        r2[ins['name']] = self.pack(ins, res)
                        out += self.run_instrs(fn, r2, b, i + 1, s2, stack)
                    else:
                        out += self.unwind(fn, dict(regs), s2, kind, res, stack)
                return out
            if op == 'next':
                outs = self.do_next(fn, regs, ins, st, stack)
                if len(outs) == 1:
                    st, v = outs[0]
                    regs[ins['name']] = v
                    i += 1
                    continue
                out = []
                for s2, v in outs:
                    r2 = dict(regs)
                    r2[ins['name']] = v
                    out += self.run_instrs(fn, r2, b, i + 1, s2, stack)
                return out
            self.step(fn, regs, ins, st, stack)
            i += 1
        raise AssertionError('fell off block')

    def test_chain(self, fn, b):
        """blocks that only compute and test conditions and are reached only from each other, starting with b"""
        memo = fn.__dict__.setdefault('chains', {})
        if b in memo:
            return memo[b]
        ch, grown = [b], True
        while grown:
            grown = False
            for x in list(ch):
                for y in fn.blocks[x]['succs']:
                    blk = fn.blocks[y]
                    if y in ch or y in fn.loops or blk['instrs'][-1]['op'] != 'if' or not all(p in ch for p in blk['preds']):
                        continue
                    if all(i['op'] in ('fieldaddr', 'binop', 'convert', 'changetype') or i['op'] == 'unop' and i.get('x') is not None
                           for i in blk['instrs'][:-1]):
                        ch.append(y)
                        grown = True
        memo[b] = ch
        return ch

    def run_chain(self, fn, regs, ch, st, stack):
        """runs a chain of tests as one test: the ways to leave it for the same block are one way"""
        conds = {ch[0]: z3.BoolVal(True)}
        exits = {}
        for n, x in enumerate(ch):
            blk = fn.blocks[x]
            if n:
                s2 = st.copy()
                s2.assume(conds[x])
                k = len(s2.pc)
                for ins in blk['instrs'][:-1]:
                    self.step(fn, regs, ins, s2, stack)
                if s2.heap.keys() != st.heap.keys() or any(s2.heap[q] is not st.heap[q] for q in st.heap):
                    for q in s2.heap:
                        if q in st.heap and s2.heap[q] is not st.heap[q]:
                            raise Unsupported('a test changes memory')
                    st.heap.update(s2.heap)
                for f in s2.pc[k:]:
                    st.assume(z3.Implies(conds[x], f))
            c = self.val(regs, blk['instrs'][-1]['cond'])
            for y, f in zip(blk['succs'], (c, z3.Not(c))):
                f = z3.simplify(z3.And(conds[x], f))
                if y in ch:
                    conds[y] = z3.simplify(z3.Or(conds[y], f)) if y in conds else f
                else:
                    phis = y in fn.loops or fn.blocks[y]['instrs'][0]['op'] == 'phi'
                    e = exits.setdefault((y, x) if phis else y, [y, x, []])
                    e[2].append(f)
        out = []
        ways = [(y, x, z3.simplify(z3.Or(*fs))) for y, x, fs in exits.values()]
        ways = [w for w in ways if self.feasible(st, w[2])]
        for n, (y, x, f) in enumerate(ways):
            s2 = st.copy() if n < len(ways) - 1 else st
            s2.assume(f)
            s2.path += ('%s:%s>%s' % (fn.name.split('.')[-1], self.ifline(fn, ch[0]), y),)
            out += self.run_block(fn, dict(regs), y, x, s2, stack)
        return out

    def ifline(self, fn, b):
        for ins in reversed(fn.blocks[b]['instrs']):
            if 'pos' in ins:
                return ins['pos']
        return '?'

    def panic(self, fn, regs, st, why, val, stack):
        st.path += ('%s:%s' % (fn.name.split('.')[-1], why),)
        return self.unwind(fn, regs, st, 'panic', (why, val), stack)

    def unwind(self, fn, regs, st, kind, res, stack):
        """panic leaving fn: run its deferred calls (recover supported when the deferred function decides it)"""
        ds = regs.get('$defers', ())
        if not ds:
            return [(kind, st, res)]
        st.ghost['$panicking'] = True
        st.ghost['$panicval'] = res[1]
        sts = [st]
        for c, parts in reversed(ds):
            nxt = []
            for s1 in sts:
                for k2, s2, r2 in self.do_call(fn, dict(regs), c, parts, s1, stack, {'t': -1, 'name': '$d', 'op': 'call'}):
                    if k2 == 'ret':
                        nxt.append(s2)
                    else:
                        raise Unsupported('panic in deferred call')
            sts = nxt
        out = []
        for s1 in sts:
            if s1.ghost.get('$panicking'):
                out.append(('panic', s1, res))
            else:
                if fn.recover is None:
                    out.append(('ret', s1, [self.zero(r['t']) for r in fn.results]))
                else:
                    r2 = dict(regs)
                    r2['$defers'] = ()
                    out += self.run_block(fn, r2, fn.recover, None, s1, stack)
        return out

    def pack(self, ins, res):
        if len(res) == 1:
            return res[0]
        return TupleV(list(res))

    # ---- loops -------------------------------------------------------
    def loopid(self, fn, b, stack):
        return (tuple(x for x in stack), fn.name, b)

    def visible(self, fn, regs, b):
        """names of registers whose definition dominates header b (plus params), not phis of b"""
        names = []
        dom = fn.dom[b]
        for p in fn.params + fn.freevars:
            names.append((p['name'], p['t']))
        for n, ins in fn.defs.items():
            db = fn.defblock[n]
            if db in dom and db != b and n in regs and 't' in ins:
                names.append((n, ins['t']))
        return names

    def loop_enter(self, fn, regs, b, prev, st, stack):
        blk = fn.blocks[b]
        lid = self.loopid(fn, b, stack)
        info = self.loopinfo.setdefault(lid, {'havoc': set(), 'W': {}, 'R': {}, 'P': {}, 'noframe': set(), 'ghosts': set(), 'alloc': False})
        entry_phis = self.phis(fn, regs, blk, prev)
        body, srcs = fn.loops[b]
        # ---- candidate invariants at entry
        L = LoopCtx(self, fn, b, lid, regs, st, stack)
        L.entry_phi = dict(entry_phis)
        L.entry = Snap(st)
        L.entry_regs = dict(regs)
        L.k = z3.IntVal(0)
        L.A = st.alloc
        L.iters = {}
        cands = self.candidates(L)
        L.cands = cands
        L.set(regs, st, z3.IntVal(0))
        for cid, f in cands:
            if cid in self.dropped:
                continue
            self.check_cand(L, st, cid, f, 'on entry')
        # ---- havoc
        # maps made before the loop may not find an owner inside it: another iteration could give them a second one
        st.ghost['$resting'] = dict(st.ghost.get('$resting', {}), **{str(lid): st.ghost.pop('$newmaps', ())})
        mark = next(_ctr)
        L.mark = mark
        entry_alloc = st.alloc
        st.alloc = fresh_const('alloc', I)
        st.assume(st.alloc >= entry_alloc)
        L.A = entry_alloc
        for key in sorted(info['havoc'], key=str):
            prevv = self.ver(st.heap, key)
            F = z3.Function(fresh_name('H_%s' % key[1]), I, self.keysort(key))
            self.typed(key, F.name())
            W = None
            if key in info['noframe']:
                keep = None
            else:
                W = [w for w in info['W'].get(key, [])]
                for n in info['R'].get(key, ()):
                    if isinstance(n, tuple):
                        W += [y for m, y in self.field_refs(n[0], regs.get(n[0]), key, st, L.entry.heap) if m == n]
                    elif n in regs:
                        W += self.refs_of(regs[n], key)
                for v in entry_phis.values() if self.env.phi_refs else ():
                    W += self.refs_of(v, key)
                for n, _ in L.cells() if self.env.phi_refs is True else ():
                    W += self.refs_of(L.e(n), key)
                W += self.iter_refs(L, key)
                keep = mkkeep(entry_alloc, W + [pr for n, pr in self.env.framepreds(self, L, key) if n in info['P'].get(key, ())])
            st.heap[key] = Ver('frame', prev=prevv, keep=keep, fn=F, key=key, val=W, refbound=st.alloc)
        for g in sorted(info['ghosts']):
            old = st.ghost.get(g)
            if z3.is_expr(old):
                st.ghost[g] = fresh_const('gh_' + g, old.sort())
            elif isinstance(old, dict):
                st.ghost[g] = {kk: fresh_const('gh_' + g, vv.sort()) for kk, vv in old.items()}
        for ins in blk['instrs']:
            if ins['op'] != 'phi':
                break
            v = entry_phis[ins['name']]
            if isinstance(v, Ptr) and (v.root != 'O' or v.path) and not (v.root == 'A'):
                raise Unsupported('loop-carried interior pointer')
            if isinstance(v, (IterV, OpaqueV)):
                continue
            regs[ins['name']] = self.fresh(ins['t'], 'phi_%s_%s' % (ins.get('comment', ''), ins['name']), st)
        k = fresh_const('k', I)
        st.assume(k >= 0, k <= MAXLEN)
        L.after = dict(st.heap)
        L.after_ghost = dict(st.ghost)
        L.after_alloc = st.alloc
        L.set(regs, st, k)
        L.khead = k
        for cid, f in cands:
            if cid in self.dropped:
                continue
            for g in self.eval_cand(L, f, st):
                st.assume(g)
        regs['$loop', b] = L
        st.path += ('loop %s:%s' % (fn.name.split('.')[-1], self.ifline(fn, b)),)
        return self.run_instrs(fn, regs, b, self.first_nonphi(blk), st, stack)

    def iter_refs(self, L, key):
        return []

    def refs_of(self, v, key):
        """refs inside value v which could address objects of heap key"""
        p = self.prog
        if isinstance(v, SliceV):
            return [v.ref] if key[0] == 'E' and p.tstr(v.elem) == key[1] else []
        if isinstance(v, Ptr):
            if v.root == 'A':
                return [v.ref] if key[0] == 'E' and p.tstr(v.T) == key[1] else []
            return [v.ref] if key[0] == 'O' and p.tstr(v.T) == key[1] else []
        if isinstance(v, MapV):
            return [v.ref] if key[0] in ('MD', 'MV', 'ML') and p.tstr(v.t) == key[1] else []
        if isinstance(v, StructV):
            out = []
            for x in v.vals:
                out += self.refs_of(x, key)
            return out
        return []

    def eval_cand(self, L, f, st):
        L.facts = []
        try:
            r = f(L)
        except Unsupported:
            return []
        if r is None:
            return []
        rs = r if isinstance(r, list) else [r]
        st.assume(*L.facts)
        return rs

    def check_cand(self, L, st, cid, f, what):
        try:
            L.facts = []
            r = f(L)
        except (Unsupported, KeyError, AttributeError, z3.Z3Exception) as e:
            if os.environ.get('GVC_DEBUG'):
                print('   cand error', cid, what, repr(e))
            self.drop(cid)
            return
        if r is None:
            return
        rs = r if isinstance(r, list) else [r]
        st.assume(*L.facts)
        for g in rs:
            t0 = time.time()
            if self.final:
                status, _ = self.prove(st, g)
                self.obls.append(Obl('invariant %s %s' % (cid[1], what), 'invariant', status, None, time.time() - t0))
            else:
                status, _ = self.prove(st, g, rlimit=self.opts.get('cand_rlimit', 8000000))
            if status != 'proved':
                if os.environ.get('GVC_DEBUG'):
                    print('   drop', cid[1:], what, status, '%.2f' % (time.time() - t0), self.where(st))
                self.drop(cid)
                return

    def drop(self, cid):
        if cid not in self.dropped:
            self.dropped.add(cid)
            self.changed = True

    def loop_back(self, fn, regs, b, prev, st, stack):
        L0 = regs['$loop', b]
        blk = fn.blocks[b]
        info = self.loopinfo[L0.lid]
        r2 = dict(regs)
        new = self.phis(fn, r2, blk, prev)
        # which heap keys changed since the header?
        for key, v in st.heap.items():
            hv = L0.after.get(key)
            if hv is None:
                hv = self.base.get(key)
            if v is hv:
                continue
            if key not in info['havoc'] or key not in L0.after or L0.after[key].kind != 'frame':
                info['havoc'].add(key)
                self.changed = True
                continue
            if key in info['noframe']:
                continue
            frame = L0.after[key]
            x = v
            ok = True
            while x is not frame and x is not None:
                if x.kind == 'store':
                    g = z3.Not(frame.keep(x.ref))
                    status, _ = self.prove(st, g, rlimit=4000000)
                    if status != 'proved':
                        if self.add_ref(L0, info, key, x.ref):
                            pass
                        elif not self.add_pred(L0, info, key, st, lambda pr: pr(x.ref)):
                            ok = False
                            break
                elif x.kind == 'frame':
                    if x.keep is None:
                        ok = False
                        break
                    r = fresh_const('r', I)
                    s2 = st.copy()
                    s2.assume(r > -1000, r < L0.A, mapowner(r) < L0.A)
                    status, _ = self.prove(s2, z3.Implies(frame.keep(r), x.keep(r)), rlimit=4000000)
                    if status != 'proved':
                        added = False
                        for w in getattr(x, 'val', None) or []:
                            if z3.is_expr(w) and self.add_ref(L0, info, key, w):
                                added = True
                        if not added and not self.add_pred(L0, info, key, s2, lambda pr: z3.Implies(
                                z3.And(frame.keep(r), z3.Not(pr(r))), x.keep(r))):
                            ok = False
                            break
                x = x.prev
            if not ok:
                if os.environ.get('GVC_DEBUG'):
                    print('   noframe', key, L0.lid[1:])
                info['noframe'].add(key)
                self.changed = True
        for g, v in st.ghost.items():
            if g.startswith('$'):
                continue
            if L0.after_ghost.get(g) is not v:
                if g not in info['ghosts']:
                    info['ghosts'].add(g)
                    self.changed = True
        L = L0
        L.set(r2, st, z3.simplify(L0.khead + 1))
        for cid, f in L.cands:
            if cid in self.dropped:
                continue
            self.check_cand(L, st, cid, f, 'preserved')
        # measure
        if self.final and self.env.check_termination:
            self.check_measure(L0, regs, r2, st)
        L.set(regs, st, L0.khead)

    def add_ref(self, L, info, key, w):
        """an object the loop writes, named by a register where there is one: names of terms differ from round to round"""
        if not self.invariant_term(w, L.mark):
            return False
        for n, v in L.entry_regs.items():
            if isinstance(n, str) and n not in info['R'].get(key, ()) and any(w.eq(y) for y in self.refs_of(v, key)):
                info['R'].setdefault(key, []).append(n)
                self.changed = True
                return True
        for n, v in L.entry_regs.items():
            if isinstance(n, str) and isinstance(v, Ptr):
                for m, y in self.field_refs(n, v, key, L.st, L.entry.heap):
                    if m not in info['R'].get(key, ()) and w.eq(y):
                        info['R'].setdefault(key, []).append(m)
                        self.changed = True
                        return True
        if any(w.eq(y) for y in info['W'].get(key, [])) or len(info['W'].get(key, [])) >= 8:
            return False
        info['W'].setdefault(key, []).append(w)
        self.changed = True
        return True

    def field_refs(self, n, v, key, st, heap):
        """objects of heap key in the fields of the struct register n points to, as of the given heap"""
        if not isinstance(v, Ptr) or v.root != 'O' or v.path or self.prog.kind(v.t) != 'struct':
            return
        for i, f in enumerate(self.prog.fields(v.t)):
            if self.prog.kind(f['type']) in ('map', 'ptr', 'slice'):
                try:
                    x = self.load(st.copy(), Ptr(v.root, v.T, v.ref, v.idx, v.path + (i,), f['type']), heap=heap)
                except Unsupported:
                    continue
                for y in self.refs_of(x, key):
                    yield (n, i), y

    def add_pred(self, L, info, key, st, goal):
        """a described set of objects, offered by the contracts, that covers what the loop writes"""
        have = info['P'].get(key, ())
        for n, pr in self.env.framepreds(self, L, key):
            if self.prove(st, goal(pr), rlimit=8000000)[0] != 'proved':
                continue
            if n not in have:
                info['P'].setdefault(key, []).append(n)
                self.changed = True
            return True
        return False

    def check_measure(self, L, old, new, st):
        """some lexicographic-free measure decreases: tried over a fixed family"""
        cands = []
        for ins in L.phi_instrs():
            n = ins['name']
            a, c = L.headvals[n], new[n]
            if isinstance(a, SliceV):
                cands.append(z3.And(c.len < a.len))
            elif z3.is_expr(a) and a.sort() == I:
                for q in L.bounds():
                    cands.append(z3.And(a < q, c > a))
                cands.append(z3.And(a >= 0, c < a, c >= -1))
        cands += L.extra_measures(new, st)
        ok = False
        for m in cands:
            if self.prove(st, m)[0] == 'proved':
                ok = True
                break
        self.obls.append(Obl('loop in %s terminates' % L.fn.name, 'termination', 'proved' if ok else 'unknown', None, 0.0,
                             'z3', self.where(st)))

    def invariant_term(self, t, mark):
        for e in fold._children_iter([t]):
            if z3.is_app(e) and e.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                n = e.decl().name()
                if '!' in n:
                    try:
                        if int(n.rsplit('!', 1)[1]) > mark:
                            return False
                    except ValueError:
                        pass
        return True

    def candidates(self, L):
        fn, b, st = L.fn, L.b, L.st
        out = []
        lid = L.lid
        phis = L.phi_instrs()
        p = self.prog
        ints = []
        L.facts = []
        for n, t in [(ins['name'], ins['t']) for ins in phis] + L.cells():
            v = L.e(n) if isinstance(n, tuple) else L.entry_phi[n]
            if p.intinfo(t):
                ints.append(n)
                out.append(((lid, 'ge-entry', n), lambda L, n=n: L.v(n) >= L.e(n)))
                out.append(((lid, 'le-entry', n), lambda L, n=n: L.v(n) <= L.e(n)))
                out.append(((lid, 'entry+k', n), lambda L, n=n: L.v(n) == L.e(n) + L.k))
                out.append(((lid, 'entry-k', n), lambda L, n=n: L.v(n) == L.e(n) - L.k))
            elif isinstance(v, SliceV):
                out.append(((lid, 'fresh', n), lambda L, n=n: z3.Or(L.v(n).ref == 0, L.v(n).ref >= self.alloc0)))
                out.append(((lid, 'fresh-loop', n),
                            lambda L, n=n: z3.Or(L.v(n).ref == L.e(n).ref, L.v(n).ref >= L.A)))
                out.append(((lid, 'same-ref', n), lambda L, n=n: L.v(n).ref == L.e(n).ref))
                out.append(((lid, 'same-off', n), lambda L, n=n: L.v(n).off == L.e(n).off))
                out.append(((lid, 'off0', n), lambda L, n=n: L.v(n).off == 0))
                out.append(((lid, 'len+k', n), lambda L, n=n: L.v(n).len == L.e(n).len + L.k))
                out.append(((lid, 'len<=k', n), lambda L, n=n: L.v(n).len <= L.e(n).len + L.k))
                out.append(((lid, 'tail', n), lambda L, n=n: L.v(n).off + L.v(n).len == L.e(n).off + L.e(n).len))
                out.append(((lid, 'captail', n), lambda L, n=n: L.v(n).off + L.v(n).cap == L.e(n).off + L.e(n).cap))
                out.append(((lid, 'off-ge', n), lambda L, n=n: L.v(n).off >= L.e(n).off))
            elif isinstance(v, Ptr):
                out.append(((lid, 'same-ref', n), lambda L, n=n: L.v(n).ref == L.e(n).ref))
                out.append(((lid, 'fresh', n), lambda L, n=n: z3.Or(L.v(n).ref == 0, L.v(n).ref >= self.alloc0)))
                out.append(((lid, 'nonnil', n), lambda L, n=n: L.v(n).ref != 0))
            elif isinstance(v, MapV):
                out.append(((lid, 'same-ref', n), lambda L, n=n: L.v(n).ref == L.e(n).ref))
                out.append(((lid, 'nonnil', n), lambda L, n=n: L.v(n).ref != 0))
            elif isinstance(v, IfaceV):
                out.append(((lid, 'nil', n), lambda L, n=n: L.v(n).tid == 0))
                out.append(((lid, 'same', n), lambda L, n=n: z3.And(L.v(n).tid == L.e(n).tid, L.v(n).pay == L.e(n).pay)))
        # bounds from comparisons against loop-invariant values
        for n in ints:
            for qi, q in enumerate(L.bound_names()):
                out.append(((lid, 'le-bound', n, str(q)), lambda L, n=n, q=q: L.v(n) <= L.bval(q)))
                out.append(((lid, 'lt-bound', n, str(q)), lambda L, n=n, q=q: L.v(n) < L.bval(q)))
                out.append(((lid, 'lt-bound-entry', n, str(q)),
                            lambda L, n=n, q=q: z3.Or(L.v(n) < L.bval(q), L.v(n) == L.e(n))))
                out.append(((lid, 'ge-bound', n, str(q)), lambda L, n=n, q=q: L.v(n) >= L.bval(q)))
                out.append(((lid, 'ge-bound-1', n, str(q)), lambda L, n=n, q=q: L.v(n) >= L.bval(q) - 1))
        for tm in self.env.templates:
            if not (self.phase or tm.early) or not tm.applies(self, L):
                continue
            for binding in tm.bindings(self, L):
                cid = (lid, tm.name, tuple(binding.items()))
                out.append((cid, lambda L, tm=tm, bd=binding: tm.evaluate(L, bd)))
        return out

    # ---- simple instructions -----------------------------------------
    def step(self, fn, regs, ins, st, stack):
        op = ins['op']
        f = getattr(self, 'i_' + op, None)
        if f is None:
            raise Unsupported('instruction %s' % (ins.get('what') or op))
        try:
            r = f(fn, regs, ins, st)
        except KeyError as e:
            raise
        if 'name' in ins:
            regs[ins['name']] = r

    def loc(self, fn, ins):
        return '%s:%s' % (fn.name, ins.get('pos', '?'))

    def i_alloc(self, fn, regs, ins, st):
        t = self.prog.elem(ins['t'])
        r = self.newref(st)
        if self.prog.kind(t) == 'array':
            p = Ptr('A', self.prog.elem(t), r, t=t)
        else:
            p = Ptr('O', t, r)
        try:
            self.store(st, p, self.zero(t))
        except Unsupported:
            raise
        return p

    def i_unop(self, fn, regs, ins, st):
        u = ins['uop']
        if u == '*' and ins['x'].get('k') == 'global':
            d = self.env.const_global(ins['x']['name'])
            if d is not None:
                return self.eval_init(d[0], d[1], {}, st)
        x = self.val(regs, ins['x'])
        if u == '*':
            self.nilcheck(fn, ins, st, x)
            return self.load(st, x)
        if u == '!':
            return z3.Not(x)
        if u == '-':
            return self.wrap1(-x, self.prog.intinfo(ins['t']))
        if u == '^':
            w, s = self.prog.intinfo(ins['t'])
            return z3.simplify(-1 - x) if s else z3.simplify(2 ** w - 1 - x)
        raise Unsupported('unop ' + u)

    def eval_init(self, fn, o, regs, st):
        """the value a package variable is given where it is declared"""
        if o.get('k') == 'reg':
            ins = fn.defs[o['name']]
            x = self.eval_init(fn, ins['x'], regs, st)
            regs[ins['x'].get('name')] = x
            return getattr(self, 'i_' + ins['op'])(fn, regs, ins, st)
        return self.val(regs, o)

    def nilcheck(self, fn, ins, st, p):
        if isinstance(p, Ptr):
            if p.root == 'E':
                return
            g = p.ref != 0
            if self.decide(st, g) is True:
                return
            self.oblige(st, 'no nil dereference at %s' % self.loc(fn, ins), g, 'safety')
        else:
            raise Unsupported('deref of %s' % type(p).__name__)

    def i_store(self, fn, regs, ins, st):
        p = self.val(regs, ins['addr'])
        self.nilcheck(fn, ins, st, p)
        self.store(st, p, self.val(regs, ins['val']))

    def i_fieldaddr(self, fn, regs, ins, st):
        x = self.val(regs, ins['x'])
        if not isinstance(x, Ptr):
            raise Unsupported('fieldaddr')
        self.nilcheck(fn, ins, st, x)
        ft = self.prog.fields(x.t)[ins['field']]['type']
        return Ptr(x.root, x.T, x.ref, x.idx, x.path + (ins['field'],), ft)

    def i_field(self, fn, regs, ins, st):
        return self.val(regs, ins['x']).vals[ins['field']]

    def i_indexaddr(self, fn, regs, ins, st):
        x = self.val(regs, ins['x'])
        i = self.val(regs, ins['index'])
        if isinstance(x, SliceV):
            self.bounds(fn, ins, st, i, x.len)
            return Ptr('E', x.elem, x.ref, z3.simplify(x.off + i))
        if isinstance(x, Ptr) and self.prog.kind(x.t) == 'array':
            n = self.prog.types[self.prog.under(x.t)]['len']
            self.nilcheck(fn, ins, st, x)
            self.bounds(fn, ins, st, i, z3.IntVal(n))
            et = self.prog.elem(x.t)
            if x.root == 'A' and not x.path:
                return Ptr('E', x.T, x.ref, z3.simplify(i))
            return Ptr(x.root, x.T, x.ref, x.idx, x.path + (('[]', i),), et)
        raise Unsupported('indexaddr')

    def bounds(self, fn, ins, st, i, n):
        g = z3.And(i >= 0, i < n)
        self.oblige(st, 'index in range at %s' % self.loc(fn, ins), g, 'safety')

    def i_index(self, fn, regs, ins, st):
        x = self.val(regs, ins['x'])
        i = self.val(regs, ins['index'])
        if isinstance(x, ArrayV):
            n = self.prog.types[self.prog.under(x.t)]['len']
            self.bounds(fn, ins, st, i, z3.IntVal(n))
            return self.unflatten(self.prog.elem(x.t), [z3.Select(a, i) for a in x.leaves])
        if z3.is_expr(x) and x.sort() == Str:
            self.bounds(fn, ins, st, i, strlen(x))
            v = strat(x, i)
            st.assume(v >= 0, v < 256)
            return v
        raise Unsupported('index')

    def i_lookup(self, fn, regs, ins, st):
        x = self.val(regs, ins['x'])
        i = self.val(regs, ins['index'])
        if z3.is_expr(x) and x.sort() == Str:
            self.bounds(fn, ins, st, i, strlen(x))
            v = strat(x, i)
            st.assume(v >= 0, v < 256)
            return v
        v, ok = self.mapget(st, x, i)
        return TupleV([v, ok]) if ins['commaok'] else v

    def i_mapupdate(self, fn, regs, ins, st):
        m = self.val(regs, ins['map'])
        k = self.val(regs, ins['key'])
        v = self.val(regs, ins['val'])
        self.oblige(st, 'assignment to non-nil map at %s' % self.loc(fn, ins), m.ref != 0, 'safety')
        self.mapset(st, m, k, v)

    def mapset(self, st, m, k, v):
        kk = self.mapkey(m, k)
        ts = self.prog.tstr(m.t)
        self.write(st, ('MD', ts), m.ref, z3.Store(self.mapdom(st, m), kk, z3.BoolVal(True)))
        olds = self.mapvals(st, m)
        if isinstance(v, MapV) and self.keyleaf(m.t) == Str:
            new = st.ghost.get('$newmaps', ())
            if any(v.ref.eq(r) for r in new):
                # first time this new map is put anywhere: it now belongs to this key of this map
                st.ghost['$newmaps'] = tuple(r for r in new if not v.ref.eq(r))
                st.assume(mapowner(v.ref) == m.ref, mapownkey(v.ref) == kk)
        for i, x in enumerate(self.flatten(v, self.prog.elem(m.t))):
            self.write(st, ('MV', ts, i), m.ref, z3.Store(olds[i], kk, x))

    def mapdelete(self, st, m, k):
        kk = self.mapkey(m, k)
        ts = self.prog.tstr(m.t)
        self.write(st, ('MD', ts), m.ref, z3.Store(self.mapdom(st, m), kk, z3.BoolVal(False)))

    def i_makemap(self, fn, regs, ins, st):
        r = self.newref(st)
        m = MapV(r, ins['t'])
        st.ghost['$newmaps'] = st.ghost.get('$newmaps', ()) + (r,)
        self.write(st, ('MD', self.prog.tstr(m.t)), r, z3.K(self.keyleaf(m.t), z3.BoolVal(False)))
        et = self.prog.elem(m.t)
        zs = self.flatten(self.zero(et), et)
        for i, zv in enumerate(zs):
            self.write(st, ('MV', self.prog.tstr(m.t), i), r, z3.K(self.keyleaf(m.t), zv))
        return m

    def i_makeslice(self, fn, regs, ins, st):
        n, c = self.val(regs, ins['len']), self.val(regs, ins['cap'])
        self.oblige(st, 'make: size in range at %s' % self.loc(fn, ins),
                    z3.And(n >= 0, n <= c, c <= self.env.maxmake), 'safety')
        r = self.newref(st)
        t = self.prog.elem(ins['t'])
        zs = self.flatten(self.zero(t), t)
        for i, zv in enumerate(zs):
            self.write(st, ('E', self.prog.tstr(t), i), r, z3.K(I, zv))
        return SliceV(r, z3.IntVal(0), n, c, t)

    def i_slice(self, fn, regs, ins, st):
        x = self.val(regs, ins['x'])
        lo = self.val(regs, ins['low']) if ins['low'] else z3.IntVal(0)
        if z3.is_expr(x) and x.sort() == Str:
            hi = self.val(regs, ins['high']) if ins['high'] else strlen(x)
            self.oblige(st, 'slice in range at %s' % self.loc(fn, ins), z3.And(0 <= lo, lo <= hi, hi <= strlen(x)), 'safety')
            r = strsub(x, lo, hi)
            st.assume(strlen(r) == hi - lo)
            return r
        if isinstance(x, Ptr) and x.root == 'A' and not x.path:
            n = z3.IntVal(self.prog.types[self.prog.under(x.t)]['len'])
            base = SliceV(x.ref, z3.IntVal(0), n, n, x.T)
        elif isinstance(x, SliceV):
            base = x
        else:
            raise Unsupported('slice of array field')
        hi = self.val(regs, ins['high']) if ins['high'] else base.len
        mx = self.val(regs, ins['max']) if ins['max'] else base.cap
        if ins['high'] is None and ins['low'] is None and ins['max'] is None:
            return base
        self.oblige(st, 'slice in range at %s' % self.loc(fn, ins),
                    z3.And(0 <= lo, lo <= hi, hi <= mx, mx <= base.cap), 'safety')
        if ins['high'] is not None and self.decide(st, hi <= base.len) is not True and self.env.strict_slice and fn.name not in self.env.loose_slice:
            self.oblige(st, 'slice stays within length at %s' % self.loc(fn, ins), hi <= base.len, 'safety')
        # slicing keeps the base pointer except for empty results at the very end, which is unobservable
        return SliceV(base.ref, z3.simplify(base.off + lo), z3.simplify(hi - lo), z3.simplify(mx - lo), base.elem)

    def i_changetype(self, fn, regs, ins, st):
        x = self.val(regs, ins['x'])
        if isinstance(x, MapV):
            return MapV(x.ref, x.t)
        if isinstance(x, StructV):
            return StructV(ins['t'], x.vals)
        return x

    def i_changeiface(self, fn, regs, ins, st):
        return self.val(regs, ins['x'])

    def i_convert(self, fn, regs, ins, st):
        x = self.val(regs, ins['x'])
        src, dst = ins['x']['t'], ins['t']
        p = self.prog
        a, c = p.intinfo(src), p.intinfo(dst)
        if a and c:
            if a == c:
                return x
            (wa, sa), (wc, sc) = a, c
            if wc > wa and (sc or not sa):
                return x
            if wc == wa:
                return self.wrap1(x, c, st)
            return self.wrapmod(x, c, st) if not (wc > wa) else self.wrap1(x, c, st)
        if p.basic(dst) == 'string':
            if isinstance(x, SliceV):
                if self.prog.basic(x.elem) in ('byte', 'uint8'):
                    arr = self.read(st, self.ver(st.heap, ('E', p.tstr(x.elem), 0)), x.ref)
                    r = strof(arr, x.off, x.len)
                    st.assume(strlen(r) == x.len)
                    return r
            if a:
                return z3.Function('strrune', I, Str)(x)
        if p.basic(src) == 'string' and isinstance(dst, int) and p.kind(dst) == 'slice':
            r = self.newref(st)
            if p.basic(p.elem(dst)) in ('rune', 'int32'):
                i = z3.Int('i!rune')
                self.write(st, ('E', p.tstr(p.elem(dst)), 0), r, z3.Lambda([i], runeat(x, i)))
                st.assume(runes(x) >= 0, runes(x) <= strlen(x))
                return SliceV(r, z3.IntVal(0), runes(x), runes(x), p.elem(dst))
            arr = fresh_const('bytes', z3.ArraySort(I, I))
            key = ('E', p.tstr(p.elem(dst)), 0)
            self.write(st, key, r, arr)
            st.assume(strof(arr, z3.IntVal(0), strlen(x)) == x)
            return SliceV(r, z3.IntVal(0), strlen(x), strlen(x), p.elem(dst))
        if a and p.basic(dst) in ('float64', 'float32'):
            return z3.ToReal(x)
        raise Unsupported('convert %s to %s' % (p.tstr(src), p.tstr(dst)))

    def typeid(self, t):
        return t + 1

    def box(self, t, v, st):
        terms = self.flatten(v, t)
        k = self.prog.kind(t)
        if k == 'ptr':
            return terms[0]
        if len(terms) == 0:
            return z3.IntVal(0)
        ts = self.prog.tstr(t)
        f = z3.Function('box_%s' % ts, *([x.sort() for x in terms] + [I]))
        pay = f(*terms)
        for i, x in enumerate(terms):
            st.assume(z3.Function('unbox_%s_%d' % (ts, i), I, x.sort())(pay) == x)
        return pay

    def unbox(self, t, pay, st):
        if self.prog.kind(t) == 'ptr':
            v = self.unflatten(t, [pay])
            st.assume(*[f for f in self.wf(t, [pay], st.alloc)])
            return v
        ts = self.prog.tstr(t)
        terms = [z3.Function('unbox_%s_%d' % (ts, i), I, so)(pay) for i, (_, so, _) in enumerate(self.leaves(t))]
        st.assume(*self.wf(t, terms, st.alloc))
        return self.unflatten(t, terms)

    def i_makeiface(self, fn, regs, ins, st):
        x = self.val(regs, ins['x'])
        t = ins['x']['t']
        try:
            pay = self.box(t, x, st)
        except Unsupported:
            pay = fresh_const('box', I)
        return IfaceV(z3.IntVal(self.typeid(t)), pay, (t, x))

    def implements(self, t, methods):
        ms = self.prog.methods.get(t)
        return ms is not None and all(m in ms for m in methods)

    def i_typeassert(self, fn, regs, ins, st):
        x = self.val(regs, ins['x'])
        at = ins['asserted']
        if ins['toiface']:
            ms = self.prog.types[self.prog.under(at)]['methods']
            if x.known is not None and x.known[0] in self.prog.methods:
                ok = z3.BoolVal(self.implements(x.known[0], ms))
            elif not ms:
                ok = x.tid != 0
            else:
                opts = [x.tid == self.typeid(t) for t in self.prog.methods if self.implements(t, ms)]
                other = z3.Function('implements_%s' % self.prog.tstr(at), I, B)(x.tid)
                known = [x.tid == self.typeid(t) for t in self.prog.methods]
                ok = z3.Or(*opts, z3.And(z3.Not(z3.Or(*known)), other, x.tid != 0))
                if self.prog.tstr(at) in self.env.closed_ifaces:
                    pk = self.prog.tstr(at).rsplit('.', 1)[0] + '.'
                    ok = z3.simplify(z3.Or(*[x.tid == self.typeid(t) for t in self.prog.methods if self.implements(t, ms)
                                             and self.prog.tstr(t).lstrip('*').startswith(pk)]))
            if not ins['commaok']:
                self.oblige(st, 'type assertion at %s' % self.loc(fn, ins), ok, 'safety')
                return x
            return TupleV([IfaceV(z3.If(ok, x.tid, 0), z3.If(ok, x.pay, 0), x.known if z3.is_true(z3.simplify(ok)) else None), ok])
        ok = z3.simplify(x.tid == self.typeid(at))
        if x.known is not None and x.known[0] == at:
            v = x.known[1]
            ok = z3.BoolVal(True)
        elif z3.is_false(ok):
            v = self.zero(at)
        else:
            s2 = st
            v0 = self.unbox_cond(at, x.pay, st, ok)
            v = v0
        if not ins['commaok']:
            self.oblige(st, 'type assertion at %s' % self.loc(fn, ins), ok, 'safety')
            return v
        d = self.decide(st, ok)
        if d is True:
            return TupleV([v, z3.BoolVal(True)])
        if d is False:
            return TupleV([self.zero(at), z3.BoolVal(False)])
        try:
            a, c = self.flatten(v, at), self.flatten(self.zero(at), at)
            v = self.unflatten(at, [z3.If(ok, p, q) for p, q in zip(a, c)])
        except Unsupported:
            pass
        return TupleV([v, ok])

    def unbox_cond(self, t, pay, st, ok):
        n = len(st.pc)
        v = self.unbox(t, pay, st)
        new = st.pc[n:]
        st.pc, st.settled = st.pc[:n], {}
        st.have = {f.get_id() for f in st.pc}
        for f in new:
            st.assume(z3.Implies(ok, f))
        return v

    def i_extract(self, fn, regs, ins, st):
        return self.val(regs, ins['x']).vals[ins['index']]

    def i_makeclosure(self, fn, regs, ins, st):
        return FuncV(ins['fn']['name'], tuple(self.val(regs, x) for x in ins['bindings']))

    def i_range(self, fn, regs, ins, st):
        x = self.val(regs, ins['x'])
        if isinstance(x, MapV):
            g = fresh_name('it')
            key = 'iter_%s_%s' % (fn.name, ins['name'])
            st.ghost[key] = z3.K(self.keyleaf(x.t), z3.BoolVal(False))
            it = IterV('map', x, key, ins['name'], self.mapdom(st, x), dict(st.heap))
            st.ghost['$active'] = tuple(a for a in st.ghost.get('$active', ()) if a.key != key) + (it,)
            return it
        if not (z3.is_expr(x) and x.sort() == Str):
            raise Unsupported('range over something else')
        # characters visited so far
        key = 'siter_%s_%s' % (fn.name, ins['name'])
        st.ghost[key] = z3.IntVal(0)
        st.assume(runes(x) >= 0, runes(x) <= strlen(x))
        return IterV('str', x, key, ins['name'])

    def do_next(self, fn, regs, ins, st, stack):
        it = self.val(regs, ins['iter'])
        if it.kind == 'str':
            n = st.ghost[it.key]
            more, s1, s2 = n < runes(it.obj), st.copy(), st.copy()
            s1.assume(more, n >= 0)
            s1.ghost[it.key] = z3.simplify(n + 1)
            at = runepos(it.obj, n)
            s1.assume(at >= n, at < strlen(it.obj), runeat(it.obj, n) >= 0, runeat(it.obj, n) <= 0x10ffff)
            s2.assume(z3.Not(more))
            out = []
            if self.feasible(s1, z3.BoolVal(True)):
                out.append((s1, TupleV([z3.BoolVal(True), at, runeat(it.obj, n)])))
            if self.feasible(s2, z3.BoolVal(True)):
                out.append((s2, TupleV([z3.BoolVal(False), z3.IntVal(0), z3.IntVal(0)])))
            return out
        m = it.obj
        vis = st.ghost[it.key]
        dom = self.mapdom(st, m)
        kt = self.prog.types[self.prog.under(m.t)]['key']
        out = []
        # one more key
        s1 = st.copy()
        k = self.fresh(kt, 'key', s1)
        kk = self.mapkey(m, k)
        s1.assume(m.ref != 0, z3.Select(dom, kk), z3.Not(z3.Select(vis, kk)))
        v, _ = self.mapget(s1, m, k)
        s1.ghost[it.key] = z3.Store(vis, kk, z3.BoolVal(True))
        s1.ghost['$iterkey'] = dict(s1.ghost.get('$iterkey', {}), **{it.key: (m, kk)})
        s1.path += ('next',)
        # exhausted
        s2 = st.copy()
        if self.decide(st, z3.Or(m.ref == 0, dom == it.dom)) is True:
            s2.assume(z3.Or(m.ref == 0, vis == dom))
        else:
            # changed while it was being traversed: only keys present all along are sure to have been visited
            s2.assume(z3.Or(m.ref == 0, z3.IsSubset(z3.SetIntersect(dom, it.dom), vis)))
        s2.assume(*self.env.iter_exit_facts(self, s2, m, vis, dom))
        if self.feasible(s1, z3.BoolVal(True)):
            out.append((s1, TupleV([z3.BoolVal(True), k, v])))
        if self.feasible(s2, z3.BoolVal(True)):
            out.append((s2, TupleV([z3.BoolVal(False), self.zero(kt), self.zero(self.prog.elem(m.t))])))
        return out

    # ---- binary operators --------------------------------------------
    def equal(self, x, y, t, st):
        k = self.prog.kind(t)
        if k == 'iface':
            if x.known is None and y.known is None:
                pass
            return z3.And(x.tid == y.tid, x.pay == y.pay)
        if k == 'slice':
            return x.ref == y.ref
        if k == 'sig':
            return self.fnterm(x) == self.fnterm(y)
        if k == 'ptr':
            if x.root == 'O' and y.root == 'O' and not x.path and not y.path:
                return x.ref == y.ref
            if x.root == y.root == 'A':
                return x.ref == y.ref
            for a, c in ((x, y), (y, x)):
                if z3.is_int_value(c.ref) and c.ref.as_long() == 0:
                    return z3.BoolVal(False) if a.path or a.root == 'E' else a.ref == 0
            raise Unsupported('pointer comparison')
        a, c = self.flatten(x, t), self.flatten(y, t)
        return z3.And(*[p == q for p, q in zip(a, c)])

    def i_binop(self, fn, regs, ins, st):
        bop = ins['bop']
        x, y = self.val(regs, ins['x']), self.val(regs, ins['y'])
        tx = ins['x']['t']
        ty = ins['y']['t']
        if bop in ('==', '!='):
            t = tx
            # comparison of a slice/func/iface with nil
            if self.prog.kind(tx) == 'basic' and self.prog.basic(tx) == 'untyped nil':
                t = ty
            if self.prog.kind(tx) == 'iface' and self.prog.kind(ty) != 'iface' and not isinstance(y, IfaceV):
                y = IfaceV(z3.IntVal(self.typeid(ty)), self.box(ty, y, st), (ty, y))
            e = self.equal(x, y, t, st)
            return z3.simplify(e if bop == '==' else z3.Not(e))
        if z3.is_expr(x) and x.sort() == Str:
            if bop == '+':
                r = strcat(x, y)
                st.assume(strlen(r) == strlen(x) + strlen(y))
                return r
            return {'<': strlt(x, y), '>': strlt(y, x), '<=': z3.Not(strlt(y, x)), '>=': z3.Not(strlt(x, y))}[bop]
        if bop == '<':
            return x < y
        if bop == '<=':
            return x <= y
        if bop == '>':
            return x > y
        if bop == '>=':
            return x >= y
        info = self.prog.intinfo(ins['t'])
        if info is None:
            if x.sort() == z3.RealSort():
                return {'+': x + y, '-': x - y, '*': x * y, '/': x / y}[bop]
            raise Unsupported('binop ' + bop)
        if bop == '+':
            return self.wrap1(x + y, info, st)
        if bop == '-':
            return self.wrap1(x - y, info, st)
        if bop == '*':
            return self.wrapmod(x * y, info, st)
        if bop in ('/', '%'):
            self.oblige(st, 'division by non-zero at %s' % self.loc(fn, ins), y != 0, 'safety')
            if not info[1]:
                return x / y if bop == '/' else x % y
            ax, ay = z3.If(x < 0, -x, x), z3.If(y < 0, -y, y)
            q = z3.If((x < 0) == (y < 0), ax / ay, -(ax / ay))
            return self.wrap1(q, info) if bop == '/' else x - q * y
        return self.bitop(bop, x, y, info, st, fn, ins)

    def bitop(self, bop, x, y, info, st, fn, ins):
        w, s = info
        ys = z3.simplify(y)
        xs = z3.simplify(x)
        if bop in ('<<', '>>'):
            # shift count: non-negative
            if not z3.is_int_value(ys):
                yi = self.prog.intinfo(ins['y']['t'])
                if yi and yi[1]:
                    self.oblige(st, 'shift count not negative at %s' % self.loc(fn, ins), y >= 0, 'safety')
                if bop == '<<':
                    r = z3.IntVal(0)
                    for i in range(w - 1, -1, -1):
                        r = z3.If(y == i, self.wrapmod(x * (2 ** i), info), r)
                    return z3.simplify(r) if z3.is_int_value(xs) else r
                r = z3.If(x < 0, z3.IntVal(-1), z3.IntVal(0)) if s else z3.IntVal(0)
                for i in range(w - 1, -1, -1):
                    r = z3.If(y == i, x / (2 ** i), r)
                return r
            n = ys.as_long()
            if bop == '<<':
                return self.wrapmod(x * (2 ** n), info, st) if n < w else z3.IntVal(0)
            if n >= w:
                return z3.If(x < 0, z3.IntVal(-1), z3.IntVal(0)) if s else z3.IntVal(0)
            return x / (2 ** n)
        if bop == '&' and not s:
            for a, c in ((x, ys), (y, xs)):
                if z3.is_int_value(c) and (c.as_long() + 1) & c.as_long() == 0:
                    return a % (c.as_long() + 1)
        if z3.is_int_value(xs) and z3.is_int_value(ys) and not s:
            a, c = xs.as_long(), ys.as_long()
            return z3.IntVal({'&': a & c, '|': a | c, '^': a ^ c, '&^': a & ~c}[bop])
        # uninterpreted with sound bounds (unsigned)
        f = z3.Function('bit_%s_%d' % (bop, w), I, I, I)
        r = f(x, y)
        lo, hi = (-(2 ** (w - 1)), 2 ** (w - 1) - 1) if s else (0, 2 ** w - 1)
        st.assume(r >= lo, r <= hi)
        if not s:
            if bop == '&':
                st.assume(r <= x, r <= y)
                for a, c in ((x, y), (y, x)):
                    if self.env.bitones is not None and not z3.is_int_value(z3.simplify(c)):
                        st.assume(z3.Implies(z3.And(self.env.bitones(c), a <= c), r == a))
            if bop == '|':
                st.assume(r >= x, r >= y, r <= x + y)
                # numbers without a bit in common add up
                for a, c in ((x, y), (y, x)):
                    n = z3.simplify(a)
                    for m in ([n.as_long().bit_length()] if z3.is_int_value(n) else range(8, w, 8)):
                        st.assume(z3.Implies(z3.And(a < 2 ** m, c % (2 ** m) == 0), r == a + c))
            if bop == '^':
                st.assume(r <= x + y)
            if bop == '&^':
                st.assume(r <= x)
        return r

    # ---- calls -------------------------------------------------------
    def call_parts(self, regs, c):
        args = [self.val(regs, a) for a in c['args']]
        if 'invoke' in c:
            return ('invoke', c['invoke'], self.val(regs, c['recv']), args, c['recv']['t'], c['args'])
        f = self.val(regs, c['fn'])
        return ('call', f, None, args, None, c['args'])

    def do_call(self, fn, regs, c, parts, st, stack, ins):
        kind, f, recv, args, rt, aops = parts
        if kind == 'invoke':
            return self.invoke(fn, f, recv, args, rt, st, stack, ins, c)
        if f.name is not None and f.name.startswith('builtin:'):
            return self.builtin(fn, regs, f.name[8:], args, aops, st, ins, stack)
        if f.name is None:
            if f.term is not None:
                h = self.env.funcvalue(self, f, args, st, ins, c)
                if h is not None:
                    return h
            raise Unsupported('call of unknown function value at %s' % self.loc(fn, ins))
        return self.call_named(f.name, args, st, stack, ins, f.bindings, c, fn)

    def call_named(self, name, args, st, stack, ins, bindings=(), c=None, caller=None):
        ct = self.env.contract_for(name)
        callee = self.prog.funcs.get(name)
        if ct is not None and name not in self.opts.get('inline', ()):
            if ct.usable(self, callee):
                return self.apply_contract(ct, name, callee, args, st, stack, ins, caller)
        h = self.env.external(name)
        if h is not None:
            self.trusted.add(name)
            return h(self, args, st, stack, ins, caller)
        if callee is None or not callee.has_body:
            raise Unsupported('external function %s has no contract' % name)
        self.inlined.add(name)
        return self.run_fn(callee, args, st, stack + ((caller.name if caller else '', ins.get('pos')),), bindings)

    def invoke(self, fn, mname, recv, args, rt, st, stack, ins, c):
        if recv.known is not None:
            t, v = recv.known
            ms = self.prog.methods.get(t)
            if ms and mname in ms:
                return self.call_named(ms[mname], [v] + args, st, stack, ins, (), c, fn)
        h = self.env.invoke(self, mname, recv, args, rt, st, stack, ins, c)
        if h is not None:
            return h
        raise Unsupported('dynamic call of %s on %s' % (mname, self.prog.tstr(rt)))

    def result(self, st, vals):
        return [('ret', st, vals)]

    def builtin(self, fn, regs, name, args, aops, st, ins, stack):
        p = self.prog
        if name == 'len':
            x = args[0]
            if isinstance(x, SliceV):
                return self.result(st, [x.len])
            if z3.is_expr(x) and x.sort() == Str:
                st.assume((strlen(x) == 0) == (x == lit('')))
                return self.result(st, [strlen(x)])
            if isinstance(x, MapV):
                n = z3.Function('maplen_%s' % p.tstr(x.t), z3.ArraySort(self.keyleaf(x.t), B), I)(self.mapdom(st, x))
                st.assume(n >= 0, n <= MAXLEN)
                st.assume(n == 0) if self.decide(st, x.ref == 0) is True else None
                st.assume(*self.env.maplen_facts(self, st, x, n))
                return self.result(st, [n])
            if isinstance(x, ArrayV):
                return self.result(st, [z3.IntVal(p.types[p.under(x.t)]['len'])])
            if isinstance(x, Ptr):
                return self.result(st, [z3.IntVal(p.types[p.under(x.t)]['len'])])
        if name == 'cap' and isinstance(args[0], SliceV):
            return self.result(st, [args[0].cap])
        if name == 'append':
            return self.result(st, [self.append(args[0], args[1], st, p.elem(ins['t']))])
        if name == 'copy':
            return self.result(st, [self.copy_(args[0], args[1], st)])
        if name == 'delete':
            self.mapdelete(st, args[0], args[1])
            return self.result(st, [])
        if name == 'ssa:wrapnilchk':
            self.nilcheck(fn, ins, st, args[0])
            return self.result(st, [args[0]])
        if name == 'recover':
            if st.ghost.get('$panicking'):
                st.ghost['$panicking'] = False
                v = st.ghost['$panicval']
                if isinstance(v, IfaceV):
                    return self.result(st, [v])
                return self.result(st, [IfaceV(z3.IntVal(900001), fresh_const('rtpanic', I))])
            return self.result(st, [IfaceV(z3.IntVal(0), z3.IntVal(0))])
        if name in ('min', 'max') and len(args) == 2:
            x, y = args
            return self.result(st, [z3.If((x <= y) if name == 'min' else (x >= y), x, y)])
        if name in ('print', 'println'):
            return self.result(st, [])
        raise Unsupported('builtin ' + name)

    def single_elem(self, s, st):
        return z3.is_int_value(z3.simplify(s.len)) and z3.simplify(s.len).as_long() <= 4

    def append(self, s, t, st, elem):
        p = self.prog
        ts = p.tstr(elem)
        nl = len(self.leaves(elem))
        if z3.is_expr(t) and t.sort() == Str:
            raise Unsupported('append string to bytes')
        n = z3.simplify(t.len)
        if z3.is_int_value(n) and n.as_long() == 0:
            return s
        newlen = z3.simplify(s.len + n)
        st.assume(newlen + s.off <= MAXLEN)
        fit = z3.simplify(newlen <= s.cap)
        d = self.decide(st, fit)
        nref = self.newref(st)
        if d is True:
            ref, off = s.ref, s.off
        elif d is False:
            ref, off = nref, s.off
        else:
            ref, off = z3.If(fit, s.ref, nref), s.off
        pos = z3.simplify(s.off + s.len)
        small = z3.is_int_value(n) and n.as_long() <= 4
        if not small:
            newarrs = []
            for i in range(nl):
                key = ('E', ts, i)
                A = self.read(st, self.ver(st.heap, key), s.ref)
                Bsrc = self.read(st, self.ver(st.heap, key), t.ref)
                N = fresh_const('app_%s' % ts, A.sort())
                self.typed(('E', ts, i), N.decl().name())
                fold.BULK[N.decl().name()] = (pos, n, A, Bsrc, t.off)
                newarrs.append((key, N))
            for key, N in newarrs:
                self.write(st, key, ref, N)
        else:
            for i in range(nl):
                key = ('E', ts, i)
                A = self.read(st, self.ver(st.heap, key), s.ref)
                Bsrc = self.read(st, self.ver(st.heap, key), t.ref)
                for q in range(n.as_long()):
                    A = z3.Store(A, z3.simplify(pos + q), z3.simplify(z3.Select(Bsrc, z3.simplify(t.off + q))))
                self.write(st, key, ref, A)
        cap = fresh_const('cap', I)
        st.assume(cap >= newlen, off + cap <= MAXLEN, z3.Implies(fit, cap == s.cap))
        if n is not None and not z3.is_int_value(n):
            # appending nothing returns the slice itself
            e = z3.simplify(n == 0)
            if self.decide(st, e) is not False:
                return SliceV(z3.If(e, s.ref, ref), off, newlen, z3.If(e, s.cap, cap), elem)
        return SliceV(ref, off, newlen, cap, elem)

    def copy_(self, d, s, st):
        if not isinstance(s, SliceV):
            raise Unsupported('copy from string')
        n = z3.If(d.len <= s.len, d.len, s.len)
        dd = self.decide(st, d.len <= s.len)
        if dd is True:
            n = d.len
        elif dd is False:
            n = s.len
        ts = self.prog.tstr(d.elem)
        new = []
        for i in range(len(self.leaves(d.elem))):
            key = ('E', ts, i)
            A = self.read(st, self.ver(st.heap, key), d.ref)
            S = self.read(st, self.ver(st.heap, key), s.ref)
            N = fresh_const('cpy_%s' % ts, A.sort())
            self.typed(('E', ts, i), N.decl().name())
            fold.BULK[N.decl().name()] = (d.off, n, A, S, s.off)
            new.append((key, N))
        for key, N in new:
            self.write(st, key, d.ref, N)
        return n

    # ---- contracts ---------------------------------------------------
    def apply_contract(self, ct, name, callee, args, st, stack, ins, caller):
        self.calls_used.add(name)
        old = Snap(st)
        where = '%s:%s' % (caller.name if caller else '?', ins.get('pos', '?'))
        gl = ct.ghost_instances(self, args, st)
        C = CallCtx(self, ct, st, args, old, callee)
        seen = {}
        for g in gl:
            C.ghosts = g
            for lab, f in C.eval(ct.requires):
                if f.get_id() in seen:
                    continue
                seen[f.get_id()] = f
                self.oblige(st, 'precondition %s of %s at %s' % (lab, name, where), f, 'precondition')
        outs = []
        # panic outcome permitted by the contract
        pc = C.eval1(ct.panics)
        if pc is not None:
            s2 = st.copy()
            s2.assume(pc)
            if self.feasible(s2, z3.BoolVal(True)):
                outs.append(('panic', s2, ('panic allowed by the contract of ' + name, None)))
            st.assume(z3.Not(pc))
            if not self.feasible(st, z3.BoolVal(True)):
                return outs
        W = C.evalW(ct.modifies)
        alloc0 = st.alloc
        touched = ct.touched(self)
        if touched:
            st.alloc = fresh_const('alloc', I)
            st.assume(st.alloc >= alloc0)
        for key in sorted(touched, key=str):
            self.touched.add(key)
            prevv = self.ver(st.heap, key)
            F = z3.Function(fresh_name('H_%s' % key[1]), I, self.keysort(key))
            self.typed(key, F.name())
            w = W.get(key, []) if W is not None else None
            if w is None:
                keep = None
            else:
                keep = mkkeep(alloc0, w)
            st.heap[key] = Ver('frame', prev=prevv, keep=keep, fn=F, key=key, val=w, refbound=st.alloc)
        for g in ct.modghosts:
            o = st.ghost.get(g)
            if z3.is_expr(o):
                st.ghost[g] = fresh_const('gh_' + g, o.sort())
        res = []
        rts = [r['t'] for r in callee.results] if callee is not None else ct.result_types(self)
        for i, t in enumerate(rts):
            res.append(self.fresh(t, 'res_%s_%d' % (name.split('.')[-1], i), st))
        if ct.shape is not None:
            res = ct.shape(C, res) or res
        C2 = CallCtx(self, ct, st, args, old, callee)
        C2.res = res
        for g in gl:
            C2.ghosts = g
            for lab, f in C2.eval(ct.ensures):
                if f.get_id() not in seen:
                    st.assume(f)
                    seen[f.get_id()] = f
        if not self.feasible(st, z3.BoolVal(True)):
            # a contract that can never return here would make the rest vacuous
            return outs
        outs.append(('ret', st, res))
        return outs

    # ---- verification driver -----------------------------------------
    def verify(self):
        """run to a fixpoint of invariants, then discharge; returns list of Obl"""
        fn = self.fn
        ct = self.contract
        self.phase = 0
        for rnd in range(self.opts.get('rounds', 25)):
            self.changed = False
            self.final = False
            self._round = rnd
            self.run_once()
            if self.unsupported:
                return self.finish()
            if not self.changed:
                if self.phase:
                    break
                self.phase = 1
        else:
            self.unsupported.append('invariant inference did not stabilise')
            return self.finish()
        self.final = True
        self.obls = []
        self.covers = 0
        self.npaths = 0
        self.run_once()
        if self.changed and not self.unsupported:
            # a candidate proved before but not now: solver limits; retry once
            self.changed = False
            self.obls = []
            self.covers = self.npaths = 0
            self.run_once()
        return self.finish()

    def finish(self):
        for u in self.unsupported:
            self.obls.append(Obl('unverifiable: ' + u, 'unsupported', 'unknown'))
        return self.obls

    def run_once(self):
        fn, ct = self.fn, self.contract
        st = State()
        st.alloc = z3.Int('alloc0')
        self.alloc0 = st.alloc
        st.assume(st.alloc >= 1)
        self.env.init_state(self, st)
        args = []
        for i, p in enumerate(fn.params):
            terms = [z3.Const('arg_%d_%s%s' % (i, p['name'], s), so) for s, so, _ in self.leaves(p['t'])]
            st.assume(*self.wf(p['t'], terms, st.alloc))
            args.append(self.unflatten(p['t'], terms))
        self.args = args
        self.rootst = st
        old = Snap(st)
        C = CallCtx(self, ct, st, args, old, fn)
        C.ghosts = ct.own_ghosts(self, st)
        self.ghosts = C.ghosts
        self.rootctx = C
        if ct.prepare is not None:
            args = ct.prepare(C) or args
            C.args = args
            old = C.old = Snap(st)
        for lab, f in C.eval(ct.requires):
            st.assume(f)
        self.old0 = old
        if self.final:
            sat = self.quick.check(st.pc)
            if sat == z3.unsat:
                self.obls.append(Obl('precondition of %s is satisfiable' % fn.name, 'cover', 'failed'))
        try:
            outs = self.run_fn(fn, args, st, ())
        except Unsupported as e:
            self.unsupported.append('%s: %s' % (fn.name, e))
            return
        for kind, s, res in outs:
            self.tick()
            self.npaths += 1
            C2 = CallCtx(self, ct, s, args, old, fn)
            C2.ghosts = C.ghosts
            try:
                if kind == 'panic':
                    pc = C2.eval1(ct.panics)
                    self.oblige(s, 'no panic (%s)' % (res[0],), pc if pc is not None else z3.BoolVal(False), 'safety')
                    continue
                C2.res = res
                pc = C2.eval1(ct.panics)
                if pc is not None:
                    self.oblige(s, 'must panic when required', z3.Not(pc), 'post')
                if self.final:
                    if self.quick.check(s.pc) == z3.sat:
                        self.covers += 1
                for lab, f in C2.eval(ct.ensures):
                    s2 = s.copy()
                    self.oblige(s2, lab, f, 'post')
                self.check_frame(ct, C2, s, old)
            except Unsupported as e:
                self.unsupported.append('%s: %s' % (fn.name, e))
                return
        if self.final and self.covers == 0 and not ct.maypanic_only:
            self.obls.append(Obl('some return of %s is reachable' % fn.name, 'cover', 'failed'))

    def check_frame(self, ct, C, st, old):
        if not self.final:
            return
        if ct.modifies == 'any':
            return
        W = C.evalW(ct.modifies)
        declared = ct.touched(self)
        for key, v in st.heap.items():
            if key not in declared:
                self.obls.append(Obl('frame: writes to %s are declared' % (key,), 'frame', 'failed'))
            ov = old.heap.get(key) or self.base.get(key)
            x = v
            w = (W or {}).get(key, [])
            while x is not ov and x is not None:
                if x.kind == 'store':
                    g = z3.Or(x.ref >= self.alloc0, x.ref == 0, *inW(x.ref, w))
                    if self.decide(st, g) is not True:
                        self.oblige(st.copy(), 'frame: only listed objects of %s change' % (key[1],), g, 'frame')
                elif x.kind == 'frame':
                    if x.keep is None:
                        self.obls.append(Obl('frame: only listed objects of %s change' % key[1], 'frame', 'unknown'))
                    else:
                        r = fresh_const('r', I)
                        s2 = st.copy()
                        # nothing is stored under the nil reference; maps of the past belong to maps of the past
                        s2.assume(r < self.alloc0, r != 0, mapowner(r) < self.alloc0)
                        g = z3.Or(x.keep(r), *inW(r, w))
                        self.oblige(s2, 'frame: only listed objects of %s change' % (key[1],), g, 'frame')
                x = x.prev


class LoopCtx:
    """evaluation context for loop invariants"""

    def __init__(self, S, fn, b, lid, regs, st, stack):
        self.S, self.fn, self.b, self.lid, self.regs, self.st, self.stack = S, fn, b, lid, regs, st, stack
        self.facts = []
        self.A = st.alloc

    def set(self, regs, st, k):
        self.regs, self.st, self.k = regs, st, k
        self.headvals = getattr(self, 'headvals', None)
        if not hasattr(self, 'khead'):
            self.headvals = dict(regs)

    def cellptr(self, p, n):
        if len(n) == 2:
            return p
        return Ptr(p.root, p.T, p.ref, p.idx, p.path + (n[2],), self.S.prog.fields(p.T)[n[2]]['type'])

    def v(self, n):
        if isinstance(n, tuple):
            return self.S.load(self.st, self.cellptr(self.regs[n[1]], n), facts=self.facts)
        return self.regs[n]

    def e(self, n):
        if isinstance(n, tuple):
            return self.S.load(self.st, self.cellptr(self.entry_regs[n[1]], n), heap=self.entry.heap, facts=self.facts)
        return self.entry_regs[n]

    def cells(self):
        """addressed local variables changed by the loop: [(name, type)]"""
        if not hasattr(self, '_cells'):
            S, p, out = self.S, self.S.prog, []
            hv = S.loopinfo[self.lid]['havoc']
            for n, t in S.visible(self.fn, self.entry_regs, self.b):
                v = self.entry_regs.get(n)
                if isinstance(v, Ptr) and v.root == 'O' and not v.path and p.kind(v.T) in ('basic', 'slice') and \
                        ('O', p.tstr(v.T), 0) in hv and (n in self.fn.defs and self.fn.defs[n]['op'] == 'alloc' or
                                                         any(f['name'] == n for f in self.fn.freevars)):
                    out.append((('*', n), v.T))
                elif isinstance(v, Ptr) and v.root == 'O' and not v.path and p.kind(v.T) == 'struct' and \
                        n in self.fn.defs and self.fn.defs[n]['op'] == 'alloc':
                    for i, f in enumerate(p.fields(v.T)):
                        start, cnt, _, _ = S.locate(v.T, (i,))
                        if p.kind(f['type']) in ('basic', 'slice', 'ptr') and any(('O', p.tstr(v.T), start + j) in hv for j in range(cnt)):
                            out.append((('*', n, i), f['type']))
            self._cells = out
        return self._cells

    def phi_instrs(self):
        out = []
        for ins in self.fn.blocks[self.b]['instrs']:
            if ins['op'] != 'phi':
                break
            out.append(ins)
        return out

    @property
    def root(self):
        return self.S.rootctx

    @property
    def ghosts(self):
        return self.S.ghosts

    # heap views
    def entryval(self, role):
        return self.e(self.bd[role])

    def entry_arrs(self, s):
        return self.arrs(s, self.entry.heap)

    def arrs(self, s, heap=None):
        ts = self.S.prog.tstr(s.elem)
        heap = self.st.heap if heap is None else heap
        return [self.S.read(self.st, self.S.ver(heap, ('E', ts, i)), s.ref) for i in range(len(self.S.leaves(s.elem)))]

    def elem(self, s, i):
        n = len(self.st.pc)
        r = self.S.load(self.st, Ptr('E', s.elem, s.ref, z3.simplify(s.off + i)), facts=self.facts)
        return r

    def bound_names(self):
        if hasattr(self, '_bn'):
            return self._bn
        fn, body = self.fn, self.fn.loops[self.b][0]
        out = []
        phis = {i['name'] for i in self.phi_instrs()}
        for bb in body:
            for ins in fn.blocks[bb]['instrs']:
                if ins['op'] == 'binop' and ins['bop'] in ('<', '<=', '>', '>=', '!=', '=='):
                    for o in (ins['x'], ins['y']):
                        if not self.S.prog.intinfo(o.get('t', -1)) if o['k'] != 'builtin' else True:
                            continue
                        if o['k'] == 'const' and 'i' in o:
                            q = ('c', int(o['i']))
                        elif o['k'] == 'reg' and (fn.defblock.get(o['name'], -1) not in body):
                            q = ('r', o['name'])
                        elif o['k'] == 'reg' and o['name'] in fn.defs and fn.defs[o['name']]['op'] == 'call' and \
                                fn.defs[o['name']]['call'].get('fn', {}).get('name') == 'len':
                            a = fn.defs[o['name']]['call']['args'][0]
                            if a['k'] == 'reg' and fn.defblock.get(a['name'], -1) not in body:
                                q = ('l', a['name'])
                            else:
                                continue
                        else:
                            continue
                        if q not in out:
                            out.append(q)
        self._bn = out
        return out

    def bval(self, q):
        if q[0] == 'c':
            return z3.IntVal(q[1])
        if q[0] == 'l':
            x = self.regs[q[1]]
            return x.len if isinstance(x, SliceV) else strlen(x)
        return self.regs[q[1]]

    def bounds(self):
        return [self.bval(q) for q in self.bound_names()]

    def extra_measures(self, new, st):
        # the number of rounds is bounded by a term that does not depend on them
        return [self.khead < q for f in self.S.env.rounds for q in f(self)]


class CallCtx:
    """evaluation context for contracts"""

    def __init__(self, S, ct, st, args, old, fn):
        self.S, self.ct, self.st, self.args, self.old, self.fn = S, ct, st, args, old, fn
        self.res = None
        self.ghosts = {}

    def eval(self, clauses):
        if clauses is None:
            return []
        r = clauses(self)
        out = []
        for i, x in enumerate(r):
            if isinstance(x, tuple):
                out.append(x)
            else:
                out.append(('#%d' % (i + 1), x))
        return out

    def eval1(self, f):
        return None if f is None else f(self)

    def evalW(self, m):
        if m is None:
            return {}
        if m == 'any':
            return None
        out = {}
        for key, ref in m(self):
            out.setdefault(key, []).append(ref)
        return out

    # --- views; heap=None means current heap
    def heap(self, old=False):
        return self.old.heap if old else self.st.heap

    def arrs(self, s, old=False):
        ts = self.S.prog.tstr(s.elem)
        return [self.S.read(self.st, self.S.ver(self.heap(old), ('E', ts, i)), s.ref)
                for i in range(len(self.S.leaves(s.elem)))]

    def ver(self, key, old=False):
        return self.S.ver(self.heap(old), key)

    def elem(self, s, i, old=False):
        i = z3.IntVal(i) if isinstance(i, int) else i
        return self.S.load(self.st, Ptr('E', s.elem, s.ref, z3.simplify(s.off + i)), heap=self.heap(old),
                           alloc=self.old.alloc if old else None)

    def deref(self, p, old=False):
        return self.S.load(self.st, p, heap=self.heap(old), alloc=self.old.alloc if old else None)

    def field(self, p, name, old=False):
        """field of pointer or struct value"""
        if isinstance(p, StructV):
            for f, v in zip(self.S.prog.fields(p.t), p.vals):
                if f['name'] == name:
                    return v
            raise Unsupported('no field ' + name)
        for i, f in enumerate(self.S.prog.fields(p.t)):
            if f['name'] == name:
                return self.S.load(self.st, Ptr(p.root, p.T, p.ref, p.idx, p.path + (i,), f['type']), heap=self.heap(old),
                                   alloc=self.old.alloc if old else None)
        raise Unsupported('no field ' + name)

    def mapget(self, m, k, old=False):
        return self.S.mapget(self.st, m, k, heap=self.heap(old), alloc=self.old.alloc if old else None)
