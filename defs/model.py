"""Sets of trunnel definitions as data, independent of the project's own parser and syntax tree: a printer to source text, a
generator of random sets and a list of hand-made sets that together use every construct.

A set is {'files': [file]}; a file {'consts', 'contexts', 'structs'}.
  const    {'name', 'val', 'lit'}
  context  {'name', 'fields': [{'name', 'w'}]}
  struct   {'name', 'ctx': [name], 'extern': bool, 'members': [member]}
  member   {'k': 'field', 'name', 'type'} | {'k': 'eos'|'ignore'|'fail'}
           {'k': 'union', 'name', 'tag': ref, 'len': None | ref | {'left': num}, 'cases': [{'list': None | [range], 'members'}]}
  type     {'k': 'int', 'w', 'cons': None | [range]} | {'k': 'nul'|'char'|'ptr'} | {'k': 'struct', 'name'}
           {'k': 'fixed', 'base', 'n': num} | {'k': 'counted', 'base', 'ref': ref} | {'k': 'left', 'base', 'n': num} | {'k': 'rest', 'base'}
  range    {'lo': num, 'hi': num or None};  num {'v': int, 's': text as written}
  ref      {'scope': '' or context name, 'name'}
"""
import random


def num(v, s=None):
    return {'v': v, 's': str(v) if s is None else s}


def rng(lo, hi=None):
    lo = lo if isinstance(lo, dict) else num(lo)
    return {'lo': lo, 'hi': hi if hi is None or isinstance(hi, dict) else num(hi)}


def rlist(text, consts=()):
    """'1, 3..5, N' -> ranges"""
    cs = dict(consts)

    def one(t):
        t = t.strip()
        return num(cs[t], t) if t in cs else num(int(t, 16) if t.lower().startswith('0x') else int(t), t)
    out = []
    for part in text.split(','):
        p = part.split('..')
        out.append(rng(one(p[0]), one(p[1]) if len(p) > 1 else None))
    return out


def U(w, name, cons=None):
    return {'k': 'field', 'name': name, 'type': {'k': 'int', 'w': w, 'cons': cons}}


def field(name, t):
    return {'k': 'field', 'name': name, 'type': t}


def ibase(w):
    return {'k': 'int', 'w': w, 'cons': None}


def ref(s):
    p = s.split('.')
    return {'scope': p[0], 'name': p[1]} if len(p) == 2 else {'scope': '', 'name': p[0]}


def sref(n):
    return {'k': 'struct', 'name': n}


def struct(name, members, ctx=(), extern=False):
    return {'name': name, 'ctx': list(ctx), 'extern': extern, 'members': members}


def union(name, tag, cases, length=None):
    return {'k': 'union', 'name': name, 'tag': ref(tag), 'len': length, 'cases': [{'list': l, 'members': ms} for l, ms in cases]}


def file(structs, contexts=(), consts=()):
    return {'consts': list(consts), 'contexts': list(contexts), 'structs': list(structs)}


def context(name, *fields):
    return {'name': name, 'fields': [{'name': n, 'w': w} for w, n in fields]}


NUL, CHAR, PTR = {'k': 'nul'}, {'k': 'char'}, {'k': 'ptr'}
EOS, IGNORE, FAIL = {'k': 'eos'}, {'k': 'ignore'}, {'k': 'fail'}


# ------------------------------------------------------------------ printing
def t_range(r):
    return r['lo']['s'] + ('' if r['hi'] is None else '..' + r['hi']['s'])


def t_list(rs):
    return ', '.join(t_range(r) for r in rs)


def t_ref(r):
    return r['scope'] + '.' + r['name'] if r['scope'] else r['name']


def t_base(t):
    return {'int': lambda: 'u%d' % t['w'], 'char': lambda: 'char', 'struct': lambda: 'struct ' + t['name']}[t['k']]()


def t_member(m, ind='  '):
    k = m['k']
    if k == 'field':
        t, n = m['type'], m['name']
        tk = t['k']
        if tk == 'int':
            return ind + 'u%d %s%s;' % (t['w'], n, ' IN [' + t_list(t['cons']) + ']' if t['cons'] else '')
        if tk == 'nul':
            return ind + 'nulterm %s;' % n
        if tk == 'ptr':
            return ind + '@ptr %s;' % n
        if tk == 'struct':
            return ind + 'struct %s %s;' % (t['name'], n)
        if tk == 'fixed':
            return ind + '%s %s[%s];' % (t_base(t['base']), n, t['n']['s'])
        if tk == 'counted':
            return ind + '%s %s[%s];' % (t_base(t['base']), n, t_ref(t['ref']))
        if tk == 'left':
            return ind + '%s %s[..-%s];' % (t_base(t['base']), n, t['n']['s'])
        if tk == 'rest':
            return ind + '%s %s[];' % (t_base(t['base']), n)
        raise ValueError(tk)
    if k == 'eos':
        return ind + 'eos;'
    if k == 'union':
        l = m['len']
        s = ind + 'union %s[%s]%s {\n' % (m['name'], t_ref(m['tag']), '' if l is None else ' with length ' + (
            '..-' + l['left']['s'] if 'left' in l else t_ref(l)))
        for c in m['cases']:
            s += ind + '  ' + ('default' if c['list'] is None else t_list(c['list'])) + ':\n'
            ms = c['members']
            if not ms:
                s += ind + '    ;\n'
            elif ms == [IGNORE] or ms == [FAIL]:
                s += ind + '    %s;\n' % ms[0]['k']
            else:
                for x in ms:
                    s += (ind + '    ...;' if x['k'] == 'ignore' else t_member(x, ind + '    ')) + '\n'
        return s + ind + '};'
    raise ValueError(k)


def t_struct(s):
    c = ' with context ' + ', '.join(s['ctx']) if s['ctx'] else ''
    if s['extern']:
        return 'extern struct %s%s;\n' % (s['name'], c)
    return 'struct %s%s {\n%s}\n' % (s['name'], c, ''.join(t_member(m) + '\n' for m in s['members']))


def t_file(f):
    s = ''.join('const %s = %s;\n' % (c['name'], c['lit']) for c in f['consts'])
    for c in f['contexts']:
        s += 'context %s {\n%s}\n' % (c['name'], ''.join('  u%d %s;\n' % (m['w'], m['name']) for m in c['fields']))
    return s + ''.join(t_struct(x) for x in f['structs'])


# ------------------------------------------------------------------ hand-made sets
def handmade():
    A = file
    N = dict(NUM_BYTES=3, BIG=65535, TWO=2)
    consts = [{'name': k, 'val': v, 'lit': l} for k, v, l in [('NUM_BYTES', 3, '3'), ('BIG', 65535, '0xffff'), ('TWO', 2, '02')]]
    point = struct('point', [U(8, 'x', rlist('0..254')), U(8, 'y')])
    sets = {}
    sets['ints'] = A([struct('ints', [U(8, 'byte'), U(16, 'word'), U(32, 'dword'), U(64, 'qword')])])
    sets['cons'] = A([struct('date', [U(16, 'year', rlist('1970..65535')), U(8, 'month', rlist('1,2,3,4,5,6,7,8,9,10,11,12')),
                                      U(8, 'day', rlist('1,2,3..31')), U(32, 'when', rlist('0, 0x10..0x7fffffff, 4294967295')),
                                      U(64, 'stamp', rlist('5, 7..9, 9223372036854775807')), U(16, 'k', rlist('TWO, NUM_BYTES..BIG', N))])],
                     consts=consts)
    sets['fixed'] = A([struct('fix', [field('bytes', {'k': 'fixed', 'base': ibase(8), 'n': num(3, 'NUM_BYTES')}),
                                      field('letters', {'k': 'fixed', 'base': CHAR, 'n': num(4)}),
                                      field('words', {'k': 'fixed', 'base': ibase(16), 'n': num(2, 'TWO')}),
                                      field('dw', {'k': 'fixed', 'base': ibase(32), 'n': num(2)}),
                                      field('qw', {'k': 'fixed', 'base': ibase(64), 'n': num(2)}),
                                      field('pts', {'k': 'fixed', 'base': sref('point'), 'n': num(2)})]), point], consts=consts)
    sets['counted'] = A([struct('var_array', [U(8, 'n'), field('a', {'k': 'counted', 'base': ibase(32), 'ref': ref('n')}), U(8, 'z')]),
                         struct('var_b', [U(16, 'm'), U(8, 'sep'), field('b', {'k': 'counted', 'base': ibase(8), 'ref': ref('m')})]),
                         struct('var_c', [U(32, 'm'), field('b', {'k': 'counted', 'base': CHAR, 'ref': ref('m')}), U(16, 'e')]),
                         struct('var_d', [U(64, 'm'), field('b', {'k': 'counted', 'base': ibase(16), 'ref': ref('m')})]),
                         struct('var_e', [U(8, 'm'), field('pts', {'k': 'counted', 'base': sref('point'), 'ref': ref('m')}), U(8, 'e')]),
                         point])
    sets['nul'] = A([struct('nul_term', [U(32, 'x'), field('s', NUL), U(8, 'y')]),
                     struct('haspos', [field('s1', NUL), field('pos1', PTR), field('s2', NUL), field('pos2', PTR), U(32, 'x'), field('pos3', PTR)])])
    sets['rest'] = A([struct('rem', [U(32, 'head'), field('tail', {'k': 'rest', 'base': ibase(8)})]),
                      struct('rem2', [U(8, 'h'), field('tail', {'k': 'rest', 'base': ibase(32)})]),
                      struct('rem3', [field('tail', {'k': 'rest', 'base': sref('point')})]),
                      struct('rem4', [field('tail', {'k': 'rest', 'base': sref('str')})]),
                      struct('str', [field('s', NUL), field('p', PTR)]), point])
    sets['left'] = A([struct('leftover', [field('head', {'k': 'fixed', 'base': ibase(32), 'n': num(2)}),
                                          field('mid', {'k': 'left', 'base': ibase(32), 'n': num(8)}),
                                          field('pos', PTR), field('tail', {'k': 'fixed', 'base': ibase(32), 'n': num(2)})]),
                      struct('left2', [field('mid', {'k': 'left', 'base': ibase(8), 'n': num(3, 'NUM_BYTES')}), U(16, 'a'), U(8, 'b')])],
                     consts=consts)
    sets['eos'] = A([struct('fourbytes', [U(16, 'x'), U(16, 'y'), EOS]), struct('just_eos', [EOS]), struct('empty', []),
                     struct('two', [field('f', sref('fourbytes'))]), struct('bad', [field('f', sref('fourbytes')), U(8, 'x')])])
    sets['nest'] = A([struct('rect', [field('ne', sref('point')), field('sw', sref('point')), field('end', PTR)]), point,
                      struct('boxes', [U(8, 'n'), field('r', {'k': 'counted', 'base': sref('rect'), 'ref': ref('n')}), field('last', sref('rect')), EOS])])
    ctxs = [context('flag', (8, 'flagval')), context('count', (8, 'countval')), context('wide', (16, 'lo'), (32, 'mid'), (64, 'hi'))]
    sets['ctx'] = A([struct('twosize', [union('u', 'flag.flagval', [(rlist('0'), [U(32, 'x', rlist('0..0x7fffffff'))]), (rlist('1,3'), [U(16, 'y')]),
                                                                    (None, [FAIL])])], ctx=['flag']),
                     struct('varsize', [U(32, 'a'), field('msg', {'k': 'counted', 'base': ibase(8), 'ref': ref('count.countval')})], ctx=['count']),
                     struct('ccomplex', [field('p', sref('point')), field('tsz', sref('twosize')), field('vsz', sref('varsize')),
                                         union('u', 'flag.flagval', [(rlist('0'), [field('a', {'k': 'rest', 'base': ibase(8)})]),
                                                                     (rlist('1'), [field('b', {'k': 'rest', 'base': ibase(16)})]), (None, [IGNORE])],
                                               ref('count.countval'))], ctx=['flag', 'count']),
                     struct('swapped', [field('v', sref('ccomplex')), field('w', sref('varsize'))], ctx=['count', 'flag']),
                     struct('wides', [field('a', {'k': 'counted', 'base': ibase(8), 'ref': ref('wide.lo')}),
                                      union('u', 'wide.mid', [(rlist('7, 9..100000'), [U(8, 'c')]), (None, [IGNORE])], ref('wide.hi')), U(8, 'z')],
                            ctx=['wide']),
                     point], contexts=ctxs)
    date = struct('date', [U(16, 'year'), U(8, 'month'), U(8, 'day')])
    sets['union'] = A([struct('basic', [U(8, 'tag', rlist('2..6')), union('value', 'tag', [
        (rlist('2'), [field('d', sref('date'))]), (rlist('3'), [U(32, 'num')]), (rlist('4'), [field('eight', {'k': 'fixed', 'base': ibase(8), 'n': num(8)})]),
        (rlist('6'), [field('string', NUL)]), (None, [U(8, 'other', rlist('1..3')), U(16, 'more')])]), U(8, 'after')]),
        struct('cmds', [U(8, 'tag'), union('u', 'tag', [(rlist('1'), []), (rlist('2'), [FAIL]), (rlist('4, 6..8'), [IGNORE]),
                                                        (None, [field('x', {'k': 'fixed', 'base': ibase(32), 'n': num(2)})])]), U(32, 'y')]),
        struct('mid_default', [U(16, 'tag'), union('u', 'tag', [(rlist('1'), [U(8, 'a')]), (None, [U(16, 'b')]), (rlist('0x100..0x1ff, 1'), [U(32, 'c')])])]),
        date])
    sets['ulen'] = A([struct('with_len', [U(16, 'tag'), U(16, 'ulen'), union('u', 'tag', [
        (rlist('1'), [U(8, 'r'), U(8, 'g'), U(8, 'b')]), (rlist('2'), [U(16, 'year'), U(8, 'month'), IGNORE]),
        (rlist('3'), []), (rlist('4'), [field('s', NUL), field('t', {'k': 'rest', 'base': ibase(16)})]), (rlist('5'), [IGNORE]),
        (None, [field('un', {'k': 'rest', 'base': ibase(8)})])], ref('ulen')), field('pos', PTR), U(16, 'after')]),
        struct('unlo', [U(8, 'tag'), union('u', 'tag', [(rlist('1'), [U(8, 'x')]), (rlist('2'), [field('y', {'k': 'rest', 'base': ibase(8)})]),
                                                        (rlist('4'), [U(8, 'byte'), field('z', {'k': 'rest', 'base': ibase(16)})]), (None, [FAIL])],
                                           {'left': num(5)}), U(8, 'll'), field('ls', {'k': 'counted', 'base': ibase(8), 'ref': ref('ll')})]),
        struct('long_len', [U(64, 'n'), U(32, 'm'), union('u', 'm', [(rlist('1..9'), [U(8, 'x')]), (None, [IGNORE])], ref('n')), U(8, 'e')]),
        struct('left_in', [U(8, 'tag'), U(32, 'n'), union('u', 'tag', [
            (rlist('0'), [field('p', {'k': 'left', 'base': ibase(8), 'n': num(2)}), U(16, 'q')]),
            (rlist('1'), [U(8, 'c'), field('d', {'k': 'counted', 'base': ibase(16), 'ref': ref('c')})]), (None, [field('o', sref('obj'))])], ref('n'))]),
        struct('obj', [U(8, 'a'), EOS])])
    sets['nodefault'] = A([struct('open', [U(8, 'tag'), union('u', 'tag', [(rlist('1'), [U(16, 'a')]), (rlist('2..5'), [field('s', NUL)])]), U(8, 'z')])])
    out = {k: {'id': 'hand_' + k, 'files': [f]} for k, f in sets.items()}
    out['multi'] = {'id': 'hand_multi', 'files': [
        file([struct('outer', [field('i', sref('inner')), field('js', {'k': 'counted', 'base': sref('inner'), 'ref': ref('lim.n')})], ctx=['lim'])],
             consts=consts),
        file([struct('inner', [U(8, 'v', rlist('0..NUM_BYTES', N)), U(16, 'w')])], contexts=[context('lim', (8, 'n'))])]}
    return [out[k] for k in sorted(out)]


# ------------------------------------------------------------------ random sets
class Rand:
    def __init__(self, seed):
        self.r = random.Random(seed)

    def pct(self, n):
        return self.r.randrange(100) < n

    def fresh(self, pre):
        self.n += 1
        return '%s%d' % (pre, self.n)

    def numlit(self, v, w=None):
        if self.consts and self.pct(15):
            c = self.r.choice(self.consts)
            if w is None or c['val'] < 1 << min(w, 63):
                return num(c['val'], c['name'])
        k = self.r.randrange(6)
        return num(v, '0x%x' % v if k == 0 else '0%o' % v if k == 1 and v > 0 else '0x%X' % v if k == 2 else str(v))

    def value(self, w):
        top = (1 << min(w, 63)) - 1
        k = self.r.randrange(6)
        if k < 3:
            return self.r.randrange(0, 12)
        if k == 3:
            return min(top, max(0, self.r.choice([0, 1, 127, 128, 255, 256, 65535, 65536, (1 << 31) - 1, 1 << 31, (1 << 32) - 1, (1 << 63) - 1]) + self.r.randrange(-1, 2)))
        if k == 4:
            return top - self.r.randrange(3)
        return self.r.randrange(top + 1)

    def ranges(self, w, maxn=4):
        out = []
        for _ in range(self.r.randrange(1, maxn + 1)):
            a = self.numlit(self.value(w), w)
            if self.pct(45):
                b = self.numlit(self.value(w), w)
                if a['v'] > b['v'] and not self.pct(3):
                    a, b = b, a
                out.append(rng(a, b))
            else:
                out.append(rng(a))
        return out

    def width(self):
        return self.r.choice([8, 8, 8, 16, 16, 32, 64])

    def base(self, s):
        k = self.r.randrange(10)
        if k < 5:
            return ibase(self.width())
        if k < 6 or not self.usable(s):
            return CHAR
        return sref(self.r.choice(self.usable(s))['name'])

    def usable(self, s):
        return [x for x in self.done if set(x['ctx']) <= set(s['ctx']) and not x['extern']]

    def intrefs(self, s, seen):
        rs = [(w, ref(n)) for w, n in seen]
        for c in s['ctx']:
            rs += [(f['w'], {'scope': c, 'name': f['name']}) for f in self.ctxs[c]['fields']]
        return rs

    def ftype(self, s, seen, inunion):
        k = self.r.randrange(100)
        if k < 45:
            w = self.width()
            return {'k': 'int', 'w': w, 'cons': self.ranges(w) if self.pct(35) else None}
        if k < 55:
            return NUL
        if k < 60 and not inunion:
            return PTR
        if k < 70 and self.usable(s):
            return sref(self.r.choice(self.usable(s))['name'])
        if k < 82:
            n = self.r.randrange(0, 5)
            if self.consts and self.pct(30):
                cs = [c for c in self.consts if c['val'] < 40]
                if cs:
                    c = self.r.choice(cs)
                    return {'k': 'fixed', 'base': self.base(s), 'n': num(c['val'], c['name'])}
            return {'k': 'fixed', 'base': self.base(s), 'n': num(n)}
        if k < 95:
            rs = self.intrefs(s, seen)
            if rs:
                return {'k': 'counted', 'base': self.base(s), 'ref': self.r.choice(rs)[1]}
        if k < 97 or (inunion and k < 99):
            return {'k': 'left', 'base': self.base(s), 'n': self.numlit(self.r.randrange(0, 9), 3)}
        return {'k': 'int', 'w': self.width(), 'cons': None}

    def union(self, s, seen):
        rs = self.intrefs(s, seen)
        if not rs:
            return None
        w, tag = self.r.choice(rs)
        length = None
        k = self.r.randrange(10)
        if k < 4:
            length = self.r.choice(rs)[1]
        elif k < 5:
            length = {'left': self.numlit(self.r.randrange(0, 7), 3)}
        cases = []
        for _ in range(self.r.randrange(1, 5)):
            cases.append((self.ranges(w, 3), self.body(s, seen)))
        if not self.pct(self.open):
            cases.insert(len(cases) if self.pct(70) else self.r.randrange(len(cases) + 1), (None, self.body(s, seen)))
        u = union(self.fresh('u'), 'x', cases, length)
        u['tag'] = tag
        return u

    def body(self, s, seen):
        k = self.r.randrange(20)
        if k < 2:
            return []
        if k == 2:
            return [FAIL]
        if k == 3:
            return [IGNORE]
        ms, seen = [], list(seen)
        for _ in range(self.r.randrange(1, 4)):
            t = self.ftype(s, seen, True)
            n = self.fresh('c')
            ms.append(field(n, t))
            if t['k'] == 'int':
                seen.append((t['w'], n))
        if k == 4:
            ms.append(IGNORE)
        elif k < 9:
            ms.append(field(self.fresh('r'), {'k': 'rest', 'base': self.base(s)}))
        return ms

    def struct(self, name):
        cs = [c for c in self.ctxs if self.pct(40)]
        self.r.shuffle(cs)
        s = struct(name, [], cs)
        seen = []
        for _ in range(self.r.randrange(0, 6) if self.pct(90) else 0):
            if self.pct(25):
                u = self.union(s, seen)
                if u:
                    s['members'].append(u)
                    continue
            t = self.ftype(s, seen, False)
            n = self.fresh('f')
            s['members'].append(field(n, t))
            if t['k'] == 'int':
                seen.append((t['w'], n))
        k = self.r.randrange(10)
        if k < 2:
            s['members'].append(EOS)
        elif k < 4:
            s['members'].append(field(self.fresh('r'), {'k': 'rest', 'base': self.base(s)}))
        return s

    def set(self, ident, open=15):
        """definitions used before and after their use, in one or two files"""
        self.n, self.open = 0, open
        self.consts = [{'name': 'K%d' % i, 'val': v, 'lit': l} for i, v, l in
                       [(i, v, self.r.choice([str(v), '0x%x' % v])) for i, v in enumerate(self.r.choice([0, 1, 2, 3, 5, 7, 200, 255, 300, 70000]) for _ in range(self.r.randrange(4)))]]
        self.ctxs = {}
        for i in range(self.r.randrange(3)):
            n = 'ctx%s' % 'abc'[i]
            self.ctxs[n] = context(n, *[(self.width(), self.fresh('v')) for _ in range(self.r.randrange(1, 3))])
        self.done = []
        for i in range(self.r.randrange(1, 6)):
            self.done.append(self.struct('%s%d' % (self.r.choice(['node', 'item_', 'Cell', 'x', 'i', 'e', 'data', 'cur_', 'tmp', 'err']), i)))
        ss = list(self.done)
        self.r.shuffle(ss)
        nf = 1 if self.pct(75) else 2
        fs = [file([], [], []) for _ in range(nf)]
        for l, k in ((ss, 'structs'), (list(self.ctxs.values()), 'contexts'), (self.consts, 'consts')):
            for x in l:
                self.r.choice(fs)[k].append(x)
        return {'id': ident, 'files': fs}


CTXNAMES = ['data', 'cur', 'err', 'idx', 'tmp', 'nul', 'before', 'restore', 'i', 'n', 'c', 'x', 'len', 'new', 'make', 'append', 'string', 'byte', 'int',
            'uint64', 'uint32', 'type', 'range', 'func', 'errors', 'bytes', 'binary', 'error', 'nil', 'true', 'flag', 'long_name', 'Upper', 'default_',
            'select', 'go', 'var', 'case', 'for', 'return', 'iota', 'uint8', 'uint16', 'v2', 'encoding', 'z', 'lim', 'fmt']


class Names(Rand):
    """sets whose names meet names the emitted code uses, whose lists hold values beyond the width compared with, and which declare
    extern structs"""

    def value(self, w):
        return Rand.value(self, self.r.choice([w, w, w, w, w, 63]))

    def ranges(self, w, maxn=4):
        out = Rand.ranges(self, w, maxn)
        for x in out:
            for k in ('lo', 'hi'):
                if x[k] is not None and x[k]['v'] < 0:
                    x[k] = num(0)
        return out

    def set(self, ident, open=0):
        out = Rand.set(self, ident, open)
        r = self.r
        cn = dict(zip(self.ctxs, r.sample(CTXNAMES, len(self.ctxs))))
        stems = ['node', 'item', 'Cell', 'x', 'i', 'e', 'data', '_hidden', 'tmp', 'err', 'type', 'Parser', 'nul', 'string', 'z', 'u8s', 'b']
        sn = {s['name']: r.choice(stems) + ('_%d' if r.randrange(2) else 'q%d') % i for i, s in enumerate(self.done)}

        def types(t):
            if t['k'] == 'struct':
                t['name'] = sn[t['name']]
            if 'base' in t:
                t['base'] = dict(t['base'])
                types(t['base'])
            if 'ref' in t:
                t['ref'] = rename(t['ref'])

        def rename(x):
            return x if x is None or 'left' in x or not x['scope'] else {'scope': cn[x['scope']], 'name': x['name']}

        def members(ms):
            for m in ms:
                if m['k'] == 'field':
                    m['type'] = dict(m['type'])
                    types(m['type'])
                elif m['k'] == 'union':
                    m['tag'], m['len'] = rename(m['tag']), rename(m['len'])
                    for c in m['cases']:
                        members(c['members'])
        for f in out['files']:
            for c in f['contexts']:
                c['name'] = cn[c['name']]
            for s in f['structs']:
                s['name'], s['ctx'] = sn[s['name']], [cn[c] for c in s['ctx']]
                members(s['members'])
        first = out['files'][0]
        for s in list(self.done):
            if r.randrange(3) == 0 and all(x['name'] != s['name'] for x in first['structs']):
                first['structs'].insert(0, struct(s['name'], [], s['ctx'], extern=True))
        if r.randrange(4) == 0:
            r.choice(out['files'])['structs'].append(struct('outside', [], [], extern=True))
        return out


def minsize(set_, sname, busy=()):
    """smallest number of bytes of an encoding; elements of size zero in counted arrays are left out of the random sets"""
    if sname in busy:
        return 0
    s = [x for f in set_['files'] for x in f['structs'] if x['name'] == sname and not x['extern']][0]

    def size(t):
        k = t['k']
        if k == 'int':
            return t['w'] // 8
        if k in ('char', 'nul'):
            return 1
        if k == 'struct':
            return minsize(set_, t['name'], busy + (sname,))
        if k == 'fixed':
            return t['n']['v'] * size(t['base'])
        if k == 'left':
            return t['n']['v'] and 0
        return 0

    def members(ms):
        n = 0
        for m in ms:
            if m['k'] == 'field':
                n += size(m['type'])
            elif m['k'] == 'union' and m['len'] is None:
                n += min([members(c['members']) for c in m['cases']] + ([] if any(c['list'] is None for c in m['cases']) else [0]))
        return n
    return members(s['members'])


def elements(set_):
    def types(ms):
        for m in ms:
            if m['k'] == 'field':
                yield m['type']
            elif m['k'] == 'union':
                for c in m['cases']:
                    yield from types(c['members'])
    for f in set_['files']:
        for s in f['structs']:
            for t in types(s['members']):
                if t['k'] == 'counted':
                    yield t['base']


def sound(set_):
    return all(b['k'] != 'struct' or minsize(set_, b['name']) > 0 for b in elements(set_))


def corpus(seed, n, open=15, name='rnd_%d', kind=Rand, first=None):
    R = kind(seed)
    out = handmade() if first is None else first
    while len(out) < n:
        s = R.set(name % len(out), open)
        if sound(s):
            out.append(s)
    for s in out:
        s['texts'] = [t_file(f) for f in s['files']]
    return out
