"""Reading a syntax tree in specifications.

The functions under contract never change the tree they are given, so specification functions read it from the heap on
entry (functions H0_...).  A caller under proof must show that the tree is still as it was when the caller began
(`unchanged`), and that every node was there then (`node`).
"""
import z3
from gvc.core import I, B, Str, Session, fresh_const

ALLOC = z3.Int('alloc0')


class Leaves:
    leaves = Session.leaves

    def __init__(self, prog):
        self.prog, self._leafcache = prog, {}


_H = [None]


def attach(prog):
    _H[0] = Leaves(prog)


def leaf(T, name):
    h = _H[0]
    for i, (s, so, tag) in enumerate(h.leaves(h.prog.tid(T))):
        if s == name:
            return i, so
    raise KeyError(T + name)


def fld(T, name):
    """leaf of objects of type T, by reference"""
    i, so = leaf(T, name)
    return z3.Function('H0_O_%s_%d' % (T, i), I, so)


def elems(T, i=0):
    """leaf i of the elements of arrays of T, by reference"""
    h = _H[0]
    so = h.leaves(h.prog.tid(T))[i][1]
    return z3.Function('H0_E_%s_%d' % (T, i), I, z3.ArraySort(I, so))


def node(v):
    return z3.And(v > 0, v < ALLOC)


class List:
    """a slice field of a node: arrays of its elements and its range"""

    def __init__(self, T, name, E, ref):
        g = lambda x: fld(T, name + x)(ref)
        n = len(_H[0].leaves(_H[0].prog.tid(E)))
        self.arrs = [elems(E, i)(g('.ref')) for i in range(n)]
        self.lo, self.len = g('.off'), g('.len')
        self.hi = self.lo + self.len
        self.ref = g('.ref')

    def __iter__(self):
        return iter((self.arrs, self.lo, self.hi))

    def ok(self):
        return z3.And(self.lo >= 0, self.len >= 0, self.ref >= 0, self.ref < ALLOC)


def unchanged(C, types=(), lists=()):
    """the given kinds of objects are as on entry"""
    S, st = C.S, C.st
    r = fresh_const('node', I)
    out = []
    keys = [('O', T, i) for T in types for i in range(len(S.leaves(S.prog.tid(T))))]
    keys += [('E', T, i) for T in lists for i in range(len(S.leaves(S.prog.tid(T))))]
    for k in keys:
        v = S.ver(C.old.heap, k)
        if v.kind == 'base':
            continue
        b = z3.Function('H0_%s' % '_'.join(str(x) for x in k), I, S.keysort(k))
        out.append(S.read(st, v, r) == b(r))
    return z3.Implies(z3.And(r > 0, r < ALLOC), z3.And(*out)) if out else z3.BoolVal(True)
