"""The parser's grammar table: read from the running code, compared with the reference grammar, and analysed.

Nodes: ('lit', s) ('class', codepoints) ('any',) ('seq', es) ('alt', es) ('star'|'plus'|'opt'|'not'|'and', e)
       ('ref', name) ('lab', label, e) ('act', id, e) ('state', id)
"""
import json
import os
import re

HERE = os.path.dirname(os.path.abspath(__file__))


class Bad(Exception):
    pass


# ------------------------------------------------------------------ reference grammar text
TOK = re.compile(r'\s*("(?:[^"\\]|\\.)*"|\[(?:[^\]\\]|\\.)*\]|#\{\}|\{\}|[A-Za-z_][A-Za-z0-9_]*:?|[()/*+?!&.])')


def reference():
    rules, order = {}, []
    for l in open(os.path.join(HERE, 'trunnel.peg')):
        l = l.strip()
        if not l or l.startswith('#'):
            continue
        name, body = l.split(' <- ', 1)
        toks, i = [], 0
        while i < len(body):
            m = TOK.match(body, i)
            if not m:
                raise Bad('reference grammar: ' + body[i:])
            toks.append(m.group(1))
            i = m.end()
        cnt = [0, 0]
        pos = [0]

        def peek():
            return toks[pos[0]] if pos[0] < len(toks) else None

        def take():
            pos[0] += 1
            return toks[pos[0] - 1]

        def alt():
            es = [seq()]
            while peek() == '/':
                take()
                es.append(seq())
            return es[0] if len(es) == 1 else ('alt', es)

        def seq():
            es, act = [], None
            while peek() not in (None, '/', ')'):
                if peek() == '{}':
                    take()
                    act = (name, cnt[0])
                    cnt[0] += 1
                    break
                es.append(post())
            e = es[0] if len(es) == 1 else ('seq', es)
            return e if act is None else ('act', act, e)

        def post():
            t = peek()
            if t.endswith(':') and len(t) > 1:
                take()
                return ('lab', t[:-1], post())
            if t == '!':
                take()
                return ('not', post())
            e = prim()
            while peek() in ('*', '+', '?'):
                e = ({'*': 'star', '+': 'plus', '?': 'opt'}[take()], e)
            return e

        def prim():
            t = take()
            if t == '(':
                e = alt()
                if take() != ')':
                    raise Bad('reference grammar: )')
                return e
            if t == '#{}':
                cnt[1] += 1
                return ('state', (name, cnt[1] - 1))
            if t == '.':
                return ('any',)
            if t[0] == '"':
                return ('lit', t[1:-1].encode().decode('unicode_escape'))
            if t[0] == '[':
                s, out, k = t[1:-1].encode().decode('unicode_escape'), set(), 0
                while k < len(s):
                    if k + 2 < len(s) and s[k + 1] == '-':
                        out |= set(range(ord(s[k]), ord(s[k + 2]) + 1))
                        k += 3
                    else:
                        out.add(ord(s[k]))
                        k += 1
                return ('class', frozenset(out))
            return ('ref', t)
        rules[name] = alt()
        order.append(name)
        if pos[0] != len(toks):
            raise Bad('reference grammar: rule ' + name)
    return rules, order[0]


# ------------------------------------------------------------------ table of the running parser
def dump(D, work):
    """runs the parser package's own init and prints its table"""
    ex = {'parse/internal/parser/zz_grammar.go': os.path.join(D.VERIF, 'harness', 'grammar', 'dump.go.txt'),
          'parse/zzgrammar/main.go': os.path.join(D.VERIF, 'harness', 'grammar', 'main.go.txt')}
    D.ensure_gomod()
    ov = D.harness_overlay(work, 'grammar', ex)
    exe = work.path('zzgrammar')
    rc, o, e = D.sh(['go', 'build', '-overlay', ov, '-modfile', os.path.join(D.VERIF, 'mod', 'go.mod'), '-o', exe, './parse/zzgrammar'],
                    cwd=D.REPO, env=dict(D.GOENV, GOFLAGS='-mod=readonly'))
    if rc != 0:
        raise Bad('the grammar table could not be read: ' + e[-800:])
    rc, o, e = D.sh([exe])
    if rc != 0:
        raise Bad('the grammar table could not be read: ' + e[-800:])
    return json.loads(o)


def unq(s):
    return json.loads(s) if '\\x' not in s and '\\a' not in s and '\\v' not in s else eval(s)


def load(table):
    acts = {}

    def conv(n):
        if n is None:
            raise Bad('empty node')
        k = n['k']
        if k == 'litMatcher':
            if n['ignoreCase']:
                raise Bad('case-insensitive literal ' + n['val'])
            return ('lit', unq(n['val']))
        if k == 'charClassMatcher':
            if n['ignoreCase'] or n['inverted'] or n['classes']:
                raise Bad('character class ' + n['val'])
            s = set(n['chars'])
            r = n['ranges']
            if len(r) % 2:
                raise Bad('character class with half a range ' + n['val'])
            for a, b in zip(r[::2], r[1::2]):
                s |= set(range(a, b + 1))
            return ('class', frozenset(s))
        if k == 'anyMatcher':
            return ('any',)
        if k == 'seqExpr':
            return ('seq', [conv(x) for x in n['exprs']])
        if k == 'choiceExpr':
            return ('alt', [conv(x) for x in n['alternatives']])
        if k in ('zeroOrMoreExpr', 'oneOrMoreExpr', 'zeroOrOneExpr', 'notExpr', 'andExpr'):
            return ({'zeroOrMoreExpr': 'star', 'oneOrMoreExpr': 'plus', 'zeroOrOneExpr': 'opt', 'notExpr': 'not', 'andExpr': 'and'}[k],
                    conv(n['expr']))
        if k == 'ruleRefExpr':
            return ('ref', unq(n['name']))
        if k == 'labeledExpr':
            return ('lab', unq(n['label']), conv(n['expr']))
        if k == 'actionExpr':
            return ('act', fname(n['run']), conv(n['expr']))
        if k == 'stateCodeExpr':
            return ('state', fname(n['run']))
        raise Bad('node kind ' + k)

    def fname(s):
        # full import path to the name used by the exporter
        m = re.match(r'.*/(parse/internal/parser)\.\(\*parser\)\.(\w+)(-fm)?$', s)
        if m:
            return '(*%s.parser).%s' % (m.group(1), m.group(2))
        m = re.match(r'.*/(parse/internal/parser\..*)$', s)
        return m.group(1) if m else s
    rules = {}
    for r in table:
        # the table lookup keeps the last rule of a name
        rules[r['name']] = conv(r['expr'])
    return rules, table[0]['name']


def nodes(table, rules):
    """obligations: what the contracts of the interpreter take for granted of the table; load has seen that every node is there, is of
    a known kind, and that ranges come in pairs"""
    names = [r['name'] for r in table]
    out = [('table: there is a first rule', bool(names), ''),
           ('table: rules have names of their own', len(set(names)) == len(names) and '' not in names, str([n for n in names if names.count(n) > 1]))]

    def walk(e):
        yield e
        for x in e[1] if e[0] in ('seq', 'alt') else [e[1]] if e[0] in ('star', 'plus', 'opt', 'not', 'and') else [e[2]] if e[0] in ('lab', 'act') else []:
            yield from walk(x)
    every = [(n, e) for n, r in rules.items() for e in walk(r)]
    bad = sorted({e[1] for n, e in every if e[0] == 'ref' and e[1] not in rules})
    out.append(('table: every rule referred to is there', not bad, str(bad)))
    out.append(('table: captured values have names', all(e[1] for n, e in every if e[0] == 'lab'), ''))
    out.append(('table: actions and state code have functions', all(e[1] for n, e in every if e[0] in ('act', 'state')), ''))
    return out


# ------------------------------------------------------------------ comparison
class Match:
    def __init__(self):
        self.rules = {}     # reference rule -> actual rule
        self.acts = {}      # (rule, n) -> (function, {reference label: actual label})
        self.states = {}
        self.obls = []      # (label, ok, detail)


def pure(rules, e, seen=()):
    """no labels, actions or state code in e itself (rules called by it have frames of their own)"""
    if e[0] in ('lab', 'act', 'state'):
        return False
    if e[0] in ('seq', 'alt'):
        return all(pure(rules, x) for x in e[1])
    if e[0] in ('star', 'plus', 'opt', 'not', 'and'):
        return pure(rules, e[1])
    return True


def compare(ref, entry, act, aentry):
    M = Match()
    M.rules[entry] = aentry
    todo, done = [entry], set()

    def same(a, b, labels, path, deep=0):
        if a[0] == 'ref' and b[0] == 'ref':
            if M.rules.setdefault(a[1], b[1]) != b[1]:
                raise Bad('%s: calls rule %s, reference calls %s' % (path, b[1], a[1]))
            if b[1] not in act:
                raise Bad('%s: rule %s is not in the table' % (path, b[1]))
            todo.append(a[1])
            return
        if a[0] != b[0] and deep < 4:
            if b[0] == 'ref' and b[1] in act and pure(act, act[b[1]]):
                return same(a, act[b[1]], labels, path + '>' + b[1], deep + 1)
            if a[0] == 'ref' and pure(ref, ref[a[1]]):
                return same(ref[a[1]], b, labels, path, deep + 1)
            if a[0] == 'class' and b[0] == 'lit' and a[1] == frozenset(map(ord, b[1])) and len(b[1]) == 1:
                return
            if a[0] == 'lit' and b[0] == 'class' and b[1] == frozenset(map(ord, a[1])) and len(a[1]) == 1:
                return
        if a[0] != b[0]:
            raise Bad('%s: %s instead of %s' % (path, show(b), show(a)))
        k = a[0]
        if k in ('lit', 'class'):
            if a[1] != b[1]:
                raise Bad('%s: %s instead of %s' % (path, show(b), show(a)))
        elif k in ('seq', 'alt'):
            if len(a[1]) != len(b[1]):
                raise Bad('%s: %s instead of %s' % (path, show(b), show(a)))
            for i, (x, y) in enumerate(zip(a[1], b[1])):
                same(x, y, labels if k == 'seq' else {}, '%s.%d' % (path, i + 1))
        elif k in ('star', 'plus', 'opt', 'not', 'and'):
            same(a[1], b[1], {}, path)
        elif k == 'lab':
            if labels.setdefault(a[1], b[1]) != b[1] or len(set(labels.values())) != len(labels):
                raise Bad('%s: label %s' % (path, b[1]))
            same(a[2], b[2], {}, path)
        elif k == 'act':
            sub = {}
            same(a[2], b[2], sub, path)
            M.acts[a[1]] = (b[1], dict(sub))
        elif k == 'state':
            M.states[a[1]] = (b[1], labels)
    while todo:
        r = todo.pop()
        if r in done:
            continue
        done.add(r)
        try:
            if M.rules[r] not in act:
                raise Bad('rule %s is missing' % r)
            same(ref[r], act[M.rules[r]], {}, r)
            M.obls.append(('grammar: rule %s reads as in the reference grammar' % r, True, ''))
        except Bad as e:
            M.obls.append(('grammar: rule %s reads as in the reference grammar' % r, False, str(e)))
    return M


def show(e):
    k = e[0]
    if k == 'lit':
        return json.dumps(e[1])
    if k == 'class':
        return 'class{%s}' % ''.join(chr(c) for c in sorted(e[1]))[:70]
    if k in ('seq', 'alt'):
        return '(' + (' ' if k == 'seq' else ' / ').join(show(x) for x in e[1]) + ')'
    if k in ('star', 'plus', 'opt'):
        return show(e[1]) + {'star': '*', 'plus': '+', 'opt': '?'}[k]
    if k in ('not', 'and'):
        return {'not': '!', 'and': '&'}[k] + show(e[1])
    if k == 'ref':
        return e[1]
    if k == 'lab':
        return e[1] + ':' + show(e[2])
    if k == 'act':
        return '{' + show(e[2]) + '}'
    return k


# ------------------------------------------------------------------ termination
def wellfounded(rules, entry):
    """obligations: no rule can reach itself without consuming input, no repetition of something that may match nothing"""
    null = {r: False for r in rules}

    def n(e):
        k = e[0]
        if k == 'lit':
            return e[1] == ''
        if k in ('class', 'any'):
            return False
        if k == 'seq':
            return all(n(x) for x in e[1])
        if k == 'alt':
            return any(n(x) for x in e[1])
        if k in ('star', 'opt', 'not', 'and', 'state'):
            return True
        if k == 'plus':
            return n(e[1])
        if k == 'ref':
            return null.get(e[1], True)
        return n(e[2])
    ch = True
    while ch:
        ch = False
        for r in rules:
            v = n(rules[r])
            if v != null[r]:
                null[r] = v
                ch = True

    def first(e):
        """rules that may be entered before anything was consumed"""
        k = e[0]
        if k == 'ref':
            return {e[1]}
        if k == 'seq':
            s = set()
            for x in e[1]:
                s |= first(x)
                if not n(x):
                    break
            return s
        if k == 'alt':
            return set().union(*[first(x) for x in e[1]])
        if k in ('star', 'opt', 'not', 'and', 'plus'):
            return first(e[1])
        if k in ('lab', 'act'):
            return first(e[2])
        return set()
    F = {r: first(rules[r]) for r in rules}
    out = []
    # rank rules: every rule entered without consuming has a smaller rank
    rank, left = {}, set(rules)
    while True:
        ready = [r for r in left if all(x in rank or x not in rules for x in F[r])]
        if not ready:
            break
        for r in ready:
            rank[r] = 1 + max([rank[x] for x in F[r] if x in rank] or [0])
            left.discard(r)
    for r in sorted(rules):
        out.append(('grammar: rule %s cannot re-enter itself without consuming input (rank %s)' % (r, rank.get(r)), r in rank, ''))

    def stars(r, e):
        k = e[0]
        if k in ('star', 'plus'):
            out.append(('grammar: repetition %s in rule %s consumes input each time' % (show(e), r), not n(e[1]), ''))
        if k in ('seq', 'alt'):
            for x in e[1]:
                stars(r, x)
        elif k in ('star', 'plus', 'opt', 'not', 'and'):
            stars(r, e[1])
        elif k in ('lab', 'act'):
            stars(r, e[2])
        elif k == 'ref':
            if e[1] not in rules:
                out.append(('grammar: rule %s called from %s exists' % (e[1], r), False, ''))
    for r in sorted(rules):
        stars(r, rules[r])
    return out


# ------------------------------------------------------------------ types of matched values
NIL = ('nil',)


def join(a, b):
    if a is None:
        return b
    if b is None:
        return a
    xs = []
    for t in (a, b):
        for u in (t[1] if t[0] == 'or' else [t]):
            if u not in xs:
                xs.append(u)
    return xs[0] if len(xs) == 1 else ('or', xs)


def valuetypes(ref, results):
    """type of the value of every reference rule, and of every label of every action.

    results: (rule, n) -> result type of the action, or ('label', l) for actions passing a label through."""
    T = {r: None for r in ref}
    labels = {}

    def t(e, labs):
        k = e[0]
        if k == 'lit':
            return ('lit', e[1])
        if k in ('class', 'any'):
            return ('bytes',)
        if k == 'seq':
            return ('tuple', tuple(t(x, labs) for x in e[1]))
        if k == 'alt':
            r = None
            for x in e[1]:
                r = join(r, t(x, {}))
            return r
        if k in ('star', 'plus'):
            return ('list', t(e[1], {}))
        if k == 'opt':
            return join(NIL, t(e[1], {}))
        if k in ('not', 'and', 'state'):
            return NIL
        if k == 'ref':
            return T[e[1]]
        if k == 'lab':
            v = t(e[2], {})
            labs[e[1]] = v
            return v
        if k == 'act':
            sub = {}
            t(e[2], sub)
            labels[e[1]] = sub
            r = results[e[1]]
            if r[0] == 'label':
                return sub.get(r[1])
            return r
    for _ in range(len(ref) + 2):
        for r in ref:
            T[r] = t(ref[r], {})
    return T, labels
