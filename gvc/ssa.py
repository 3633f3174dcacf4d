"""Go SSA program, as exported by tools/gossa."""
import json


class Prog:
    def __init__(self, path):
        d = json.load(open(path))
        self.types = d['types']
        self.methods = {int(k): v for k, v in d['methods'].items()}
        self.globals = {g['name']: g['t'] for g in d['globals']}
        self.packages = [p['path'] for p in d['packages']]
        self.tindex = {}
        for i, t in enumerate(self.types):
            self.tindex.setdefault(t['str'], i)
        self.funcs = {n: Func(self, f) for n, f in d['funcs'].items()}

    # ---- types -------------------------------------------------------
    def under(self, t):
        while self.types[t]['k'] == 'named':
            t = self.types[t]['under']
        return t

    def kind(self, t):
        return self.types[self.under(t)]['k']

    def tstr(self, t):
        return self.types[t]['str']

    def elem(self, t):
        return self.types[self.under(t)]['elem']

    def fields(self, t):
        return self.types[self.under(t)]['fields']

    def tid(self, s):
        return self.tindex[s]

    def basic(self, t):
        u = self.types[self.under(t)]
        return u['name'] if u['k'] == 'basic' else None

    INTS = {
        'int': (64, True), 'int8': (8, True), 'int16': (16, True), 'int32': (32, True), 'int64': (64, True),
        'rune': (32, True), 'uint': (64, False), 'uint8': (8, False), 'byte': (8, False), 'uint16': (16, False),
        'uint32': (32, False), 'uint64': (64, False), 'uintptr': (64, False), 'untyped int': (64, True),
        'untyped rune': (32, True),
    }

    def intinfo(self, t):
        b = self.basic(t)
        return self.INTS.get(b) if b else None


class Func:
    def __init__(self, prog, d):
        self.prog = prog
        self.name = d['name']
        self.pkg = d.get('pkg', '')
        self.file = d.get('file')
        self.line = d.get('line')
        self.endline = d.get('endline')
        self.params = d['params']
        self.freevars = d['freevars']
        self.results = d['results']
        self.blocks = d['blocks']
        self.anons = d['anons']
        self.parent = d.get('parent')
        self.synthetic = d.get('synthetic', '')
        self.recover = d.get('recover')
        self.has_body = bool(self.blocks)
        self.defs = {}
        self.defblock = {}
        for b in self.blocks:
            for i in b['instrs']:
                if 'name' in i:
                    self.defs[i['name']] = i
                    self.defblock[i['name']] = b['i']
        self._loops = None
        self._dom = None

    @property
    def dom(self):
        """dominator sets: block -> set of blocks dominating it"""
        if self._dom is None:
            n = len(self.blocks)
            allb = set(range(n))
            dom = {b: set(allb) for b in range(n)}
            if n:
                dom[0] = {0}
            roots = {0}
            if self.recover is not None:
                dom[self.recover] = {self.recover}
                roots.add(self.recover)
            ch = True
            while ch:
                ch = False
                for b in range(n):
                    if b in roots:
                        continue
                    ps = [dom[p] for p in self.blocks[b]['preds']]
                    nd = set.intersection(*ps) | {b} if ps else {b}
                    if nd != dom[b]:
                        dom[b] = nd
                        ch = True
            self._dom = dom
        return self._dom

    @property
    def loops(self):
        """header -> (set of body blocks, set of back-edge sources)"""
        if self._loops is None:
            loops = {}
            for b in self.blocks:
                for s in b['succs']:
                    if s in self.dom[b['i']]:
                        body, srcs = loops.setdefault(s, ({s}, set()))
                        srcs.add(b['i'])
                        work = [b['i']]
                        while work:
                            x = work.pop()
                            if x in body:
                                continue
                            body.add(x)
                            work += self.blocks[x]['preds']
            self._loops = loops
        return self._loops
