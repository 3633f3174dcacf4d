"""Emitted corpus tests and fuzz entry points: runs the real emitters on corpora, compiles what they emit against parsers that record
what they are given, and runs it."""
import base64
import json
import os
import random
import subprocess

from .gencode import camel

WORDS = ['color', 'rect', 'data', 'cell', 'point', 'node_kind', 'x', 'y2', 'long_type_name', 'A', 'MixedCase', 'tlv', 'int_list', 'err', 'cases', 'c', 't',
         'parse', 'test', 'corpus', 'fuzz', 'string', 'b64', 'a_b_c']


def corpora(seed, n):
    r = random.Random('corpora %d' % seed)
    enc = lambda b: base64.b64encode(bytes(b)).decode()

    def data():
        k = r.randrange(10)
        if k == 0:
            return enc([])
        if k == 1:
            return None
        if k == 2:
            return enc(r.choice([b'`', b'%d%s%%', b'"\\\n\x00', b'// +build x', b'}\n', bytes(range(256))]))
        return enc([r.choice([0, 1, 127, 128, 255, r.randrange(256)]) for _ in range(r.choice([1, 1, 2, 3, 8, r.randrange(60)]))])
    out = []
    for i in range(n):
        suites = []
        for t in r.sample(WORDS, r.choice([0, 1, 2, 2, 3, 4, 6])):
            vs = []
            mode = r.choice(['free', 'free', 'ctx', 'mixed'])
            for _ in range(r.choice([0, 1, 1, 2, 3, 5])):
                c = None
                if mode == 'ctx' or mode == 'mixed' and r.randrange(3) == 0:
                    c = {r.choice(['flag', 'count']): {r.choice(['v', 'w']): r.randrange(300)} for _ in range(r.choice([1, 2]))}
                elif r.randrange(3) == 0:
                    c = {}
                vs.append({'data': data(), 'constraints': c})
            if vs and r.randrange(4) == 0:
                vs.append(dict(r.choice(vs)))
            suites.append({'type': t, 'vectors': vs})
        out.append({'id': 'c%d' % i, 'suites': suites})
    return out


def build(D, work, cs):
    """(failures, program, file with the corpora)"""
    exe = D.build_harness(work, 'emitcorpus')
    p = subprocess.run([exe], input=json.dumps(cs).encode(), stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=300, env=D.GOENV, cwd=work.dir)
    if p.returncode != 0:
        raise D.CheckError('the emitters could not be run: ' + p.stderr.decode('utf-8', 'replace')[-2000:])
    fails, extra, body, imps = [], {}, [], []
    extra['zzverif/rec/rec.go'] = os.path.join(D.VERIF, 'harness', 'rec', 'rec.go')
    good = []
    for c, r in zip(cs, json.loads(p.stdout)):
        why = [r[k]['err'] for k in ('tests', 'fuzz') if r[k]['err']] + [r['spoil']] * bool(r['spoil']) + \
            ['package name is ' + r[k]['pkg'] for k in ('tests', 'fuzz') if not r[k]['err'] and r[k]['pkg'] != c['id']]
        if why:
            fails.append({'what': why[0], 'input': c})
            continue
        files = {'tests.go': r['tests']['src'], 'fuzz.go': r['fuzz']['src'], 'parsers.go': 'package %s\n\nimport "%s/zzverif/rec"\n' % (c['id'], D.MODULE) + ''.join(
            '\ntype R%s struct{}\n\nfunc Parse%s(d []byte) (*R%s, error) {\n\treturn new(R%s), rec.Parse("%s", d)\n}\n' % ((camel(s['type']),) * 4 + (s['type'],)) for s in c['suites'])
            + '\nvar _ = rec.FailAt\n'}
        for n, t in files.items():
            f = work.path('e', c['id'], n)
            with open(f, 'w') as h:
                h.write(t)
            extra['zzverif/e/%s/%s' % (c['id'], n)] = f
        good.append((c, r))
    # packages that do not compile
    ov = D.harness_overlay(work, 'packages', extra)
    flags = ['-tags', 'gofuzz', '-overlay', ov, '-modfile', os.path.join(D.VERIF, 'mod', 'go.mod')]
    env = dict(D.GOENV, GOFLAGS='-mod=readonly')
    rc, o, e = D.sh(['go', 'build'] + flags + ['./zzverif/e/' + c['id'] for c, _ in good], cwd=D.REPO, env=env)
    if rc != 0:
        import re
        bad = {}
        for l in e.splitlines():
            m = re.search(r'/e/(\w+)/(\w+\.go:.*)', l)
            if m:
                bad.setdefault(m.group(1), m.group(2))
        if not bad:
            raise D.CheckError('compiling the emitted files failed: ' + e[-2000:])
        fails += [{'what': 'the emitted source does not compile: ' + bad[c['id']], 'input': c} for c, _ in good if c['id'] in bad]
        good = [(c, r) for c, r in good if c['id'] not in bad]
    for c, r in good:
        i = c['id']
        imps.append('\t"%s/zzverif/e/%s"\n' % (D.MODULE, i))
        body.append('\tregistry["%s"] = pkg{map[string]func(*testing.T){%s}, map[string]func([]byte) int{%s}}\n\t_ = %s.Keep\n' % (
            i, ', '.join('"%s": %s.%s' % (f, i, f) for f in r['tests']['funcs'] or [] if f.startswith('Test')),
            ', '.join('"%s": %s.%s' % (f, i, f) for f in r['fuzz']['funcs'] or [] if f.startswith('Fuzz')), i))
        with open(work.path('e', i, 'parsers.go'), 'a') as h:
            h.write('\nvar Keep int\n')
    f = work.path('registry.go')
    with open(f, 'w') as h:
        h.write('package emitted\n\nimport (\n\t"testing"\n\n' + ''.join(imps) + ')\n\nfunc init() {\n\tvar _ testing.T\n' + ''.join(body) + '}\n')
    extra['zzverif/emitted/registry_test.go'] = f
    f = work.path('corpora.json')
    with open(f, 'w') as h:
        json.dump([c for c, _ in good], h)
    ov = D.harness_overlay(work, 'emitted', extra)
    prog = work.path('h-emitted')
    rc, o, e = D.sh(['go', 'test', '-c', '-vet=off', '-tags', 'gofuzz', '-overlay', ov] + flags[4:] + ['-o', prog, './zzverif/emitted'], cwd=D.REPO, env=env)
    if rc != 0:
        # the functions do not have the form of a test or of a fuzz entry point
        fails.append({'what': 'the emitted functions cannot be used as tests and fuzz entry points: ' + e[-1500:], 'input': None})
        prog = None
    return fails, prog, f


def search(D, work, seed, n, secs):
    fails, prog, f = build(D, work, corpora(seed, n))
    stats = {}
    if prog and not fails:
        fails, stats = D.run_harness(work, 'emitted', seed, secs, args=[f], exe=prog)
    return fails, stats
