"""Which sets of definitions test vectors can be made for."""
from . import model


def structs(s):
    return {x['name']: x for f in s['files'] for x in f['structs'] if not x['extern']}


def leaves_over(ms):
    return any(m['k'] == 'field' and m['type']['k'] == 'left' or
               m['k'] == 'union' and (m['len'] is not None and 'left' in m['len'] or any(leaves_over(c['members']) for c in m['cases'])) for m in ms)


def supported(s):
    """vectors can be made: neither arrays nor unions that leave a number of bytes over"""
    return not any(leaves_over(x['members']) for x in structs(s).values())


def spans(rs):
    return [(r['lo']['v'], (r['hi'] or r['lo'])['v']) for r in rs]


def disjoint(rs):
    rs = sorted(rs)
    return all(a <= b for a, b in rs) and all(x[1] < y[0] for x, y in zip(rs, rs[1:]))


class Vec(model.Rand):
    """sets vectors can be made for: lists without overlaps, nothing left over, a field announces a tag or counts but not both"""

    def ranges(self, w, maxn=4):
        while True:
            rs = super().ranges(w, maxn)
            if disjoint(spans(rs)):
                return rs

    def intrefs(self, s, seen):
        """fields that are not tags; they are no tags from now on"""
        rs = [(w, r) for w, r in super().intrefs(s, seen) if (r['scope'], r['name']) not in self.tags]
        self.counts |= {(r['scope'], r['name']) for _, r in rs}
        return rs

    def ftype(self, s, seen, inunion):
        while True:
            t = super().ftype(s, seen, inunion)
            if t['k'] != 'left':
                return t

    def union(self, s, seen):
        rs = super().intrefs(s, seen)
        tags = [x for x in rs if (x[1]['scope'], x[1]['name']) not in self.counts]
        if not tags:
            return None
        w, tag = self.r.choice(tags)
        self.tags.add((tag['scope'], tag['name']))
        length = self.r.choice(rs)[1] if self.pct(60) else None
        cases, taken = [], []
        for _ in range(40):
            l = self.ranges(w, 3)
            if disjoint(taken + spans(l)):
                taken += spans(l)
                cases.append((l, self.body(s, seen)))
                if self.pct(35):
                    break
        if not self.pct(self.open):
            cases.append((None, self.body(s, seen)))
        u = model.union(self.fresh('u'), 'x', cases, length)
        u['tag'] = tag
        return u

    def struct(self, name):
        """fields of different structs have the same names now and then"""
        if self.pct(60):
            self.n = 0
        self.tags, self.counts = {x for x in self.tags if x[0]}, {x for x in self.counts if x[0]}
        return super().struct(name)

    def set(self, ident, open=30):
        while True:
            self.tags, self.counts = set(), set()
            s = super().set(ident, open)
            if supported(s) and fit(s):
                return s


class Unfit(Exception):
    pass


def fit(s):
    """members that take all that is left come last, and counts are not also tags"""
    ss = structs(s)
    tags, counts = set(), set()

    def greedy(t, x):
        k = t['k']
        if k == 'struct':
            if x['name'] == t['name']:
                raise Unfit
            return last(ss[t['name']])
        if k in ('fixed', 'counted', 'rest'):
            if k == 'counted':
                counts.add((t['ref']['scope'] or '.' + x['name'], t['ref']['name']))
            if greedy(t['base'], x) or k == 'rest' and t['base']['k'] == 'struct' and model.minsize(s, t['base']['name']) == 0:
                raise Unfit
            return k == 'rest'
        return False

    def members(ms, x):
        g = False
        for m in ms:
            if g:
                raise Unfit
            if m['k'] == 'field':
                g = greedy(m['type'], x)
            elif m['k'] in ('eos', 'ignore'):
                g = True
            elif m['k'] == 'union':
                tags.add((m['tag']['scope'] or '.' + x['name'], m['tag']['name']))
                gs = [members(c['members'], x) for c in m['cases']]
                g = m['len'] is None and any(gs)
        return g
    done = {}

    def last(x):
        if x['name'] not in done:
            done[x['name']] = members(x['members'], x)
        return done[x['name']]
    try:
        for x in ss.values():
            last(x)
    except Unfit:
        return False
    return not tags & counts


def loses(s):
    """structs in which the generator forgets what later members ask of earlier fields, because a struct comes between them; see
    known-findings.jsonl"""
    ss = structs(s)

    def refs(m):
        rs = [m['tag'], m['len']] if m['k'] == 'union' else [m['type'].get('ref')] if m['k'] == 'field' else []
        return [r['name'] for r in rs if r and not r.get('scope') and 'left' not in r] + [n for c in m.get('cases', []) for x in c['members'] for n in refs(x)]

    def between(ms, pending):
        for m in reversed(ms):
            if m['k'] == 'field' and m['type']['k'] == 'struct' and pending:
                return True
            if m['k'] == 'union' and any(between(c['members'], pending + ([m['tag']['name']] if not m['tag']['scope'] else [])) for c in m['cases']):
                return True
            pending = pending + refs(m)
        return False

    def holds(t):
        return t['name'] in out if t['k'] == 'struct' else 'base' in t and holds(t['base'])

    def inside(ms):
        return any(m['k'] == 'field' and holds(m['type']) or any(inside(c['members']) for c in m.get('cases', [])) for m in ms)
    out = {n for n, x in ss.items() if between(x['members'], [])}
    while True:
        more = {n for n, x in ss.items() if n not in out and inside(x['members'])}
        if not more:
            return sorted(out)
        out |= more


LOST = {'id': 'hand_lost', 'files': [model.file([
    model.struct('date', [model.U(16, 'year'), model.U(8, 'month')]),
    model.struct('basic', [model.U(8, 'tag'), model.union('value', 'tag', [(model.rlist('2'), [model.field('d', model.sref('date'))]),
                                                                         (model.rlist('3'), [model.U(32, 'num')])])])])]}


def more():
    """long arrays, long unions and counts that something else has a say in"""
    m = model
    arr = lambda name, base, n: m.field(name, {'k': 'fixed', 'base': base, 'n': m.num(n)})
    cnt = lambda name, base, r: m.field(name, {'k': 'counted', 'base': base, 'ref': m.ref(r)})
    pair = m.struct('pair', [m.U(8, 'x', m.rlist('7..9')), m.U(16, 'y')])
    out = {}
    out['long'] = m.file([m.struct('long', [m.U(8, 'h'), arr('a', m.ibase(8), 65), arr('b', m.ibase(16), 300), arr('c', m.sref('pair'), 129), m.U(8, 'z')]), pair])
    out['none'] = m.file([m.struct('none', [m.U(8, 'h'), arr('a', m.ibase(8), 0), m.U(8, 'z')])])
    small = [(m.rlist('0'), [m.U(8, 'x')]), (m.rlist('1,2'), [m.U(16, 'y')]), (m.rlist('30..40'), [m.U(32, 'w')])]
    out['both'] = m.file([m.struct('before', [m.U(8, 'n'), cnt('a', m.ibase(8), 'n'), m.union('u', 'n', small)]),
                          m.struct('after', [m.U(16, 'n'), m.union('u', 'n', small), cnt('a', m.ibase(32), 'n'), m.U(8, 'z')]),
                          m.struct('twice', [m.U(8, 'n', m.rlist('0..5,12')), cnt('a', m.ibase(8), 'n'), cnt('b', m.ibase(16), 'n')]),
                          m.struct('within', [m.U(8, 'n'), m.U(8, 't'), m.union('u', 't', [
                              (m.rlist('1'), [cnt('a', m.ibase(8), 'n')]), (m.rlist('2'), [m.U(8, 'b')])], m.ref('n'))])])
    ctx = m.context('c', (8, 't'), (16, 'n'))
    out['around'] = m.file([m.struct('far', [cnt('a', m.ibase(8), 'c.n'), m.union('u', 'c.n', small), cnt('b', m.ibase(16), 'c.n')], ctx=['c']),
                            m.struct('near', [m.union('u', 'c.t', small), m.union('v', 'c.t', [(m.rlist('0,1'), [m.U(8, 'p')]), (None, [m.U(16, 'q')])])], ctx=['c']),
                            m.struct('only', [m.U(8, 'h'), arr('e', m.sref('near'), 1), m.U(8, 'z')], ctx=['c']),
                            m.struct('once', [arr('e', m.sref('far'), 1)], ctx=['c'])],
                           contexts=[ctx])
    many = m.struct('many', [m.U(8 << i % 4, 'f%d' % i) for i in range(11)])
    out['many'] = m.file([m.struct('holds', [m.U(8, 'h'), m.field('x', m.sref('many')), arr('y', m.sref('many'), 2), m.U(8, 'z')]), many])
    out['size'] = m.file([m.struct('size', [m.U(8, 't'), m.U(16, 'l'), m.union('u', 't', [
        (m.rlist('1'), [arr('a', m.ibase(32), 70)]), (m.rlist('2'), [arr('b', m.ibase(8), 256)]), (m.rlist('3'), []), (m.rlist('4'), [arr('d', m.ibase(8), 255)])],
        m.ref('l'))]), m.struct('fits', [m.U(8, 't'), m.U(8, 'l'), m.union('u', 't', [
            (m.rlist('1'), [arr('a', m.ibase(32), 70)]), (m.rlist('2'), [arr('b', m.ibase(8), 256)]), (m.rlist('4'), [arr('d', m.ibase(8), 255)])], m.ref('l'))])])
    return [{'id': 'hand_' + k, 'files': [v], 'texts': [m.t_file(v)]} for k, v in out.items()]
