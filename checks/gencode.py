"""Generated parsers: runs the real generator on sets of definitions, compiles what it emits and compares it with the definitions."""
import json
import os
import re
import resource
import subprocess


def camel(n):
    """Go name of a definition, for the plain names used in the sets"""
    return ''.join(p[:1].upper() + p[1:] for p in n.lower().split('_'))


class Emitted:
    def __init__(self):
        self.sets, self.src, self.errors, self.extra = [], {}, [], {}


def emit(D, work, sets):
    """source text per set, straight from gen.Marshallers"""
    em = Emitted()
    exe = D.build_harness(work, 'emit')
    p = subprocess.run([exe], input=json.dumps([{'id': s['id'], 'texts': s['texts']} for s in sets]).encode(), stdout=subprocess.PIPE,
                       stderr=subprocess.PIPE, timeout=300, env=D.GOENV, cwd=work.dir)
    if p.returncode != 0:
        raise D.CheckError('the generator could not be run: ' + p.stderr.decode('utf-8', 'replace')[-2000:])
    for s, r in zip(sets, json.loads(p.stdout)):
        if r['err']:
            em.errors.append((s, 'the generator failed: ' + r['err']))
            continue
        em.sets.append(s)
        em.src[s['id']] = r['src']
        f = work.path('g', s['id'], 'gen.go')
        with open(f, 'w') as h:
            h.write(r['src'])
        em.extra['zzverif/g/%s/gen.go' % s['id']] = f
    return em


def compile_all(D, work, em):
    """compiles the emitted packages; those that do not compile are moved to em.errors"""
    ov = D.harness_overlay(work, 'packages', em.extra)
    rc, o, e = D.sh(['go', 'build', '-overlay', ov, '-modfile', os.path.join(D.VERIF, 'mod', 'go.mod')] +
                    ['./zzverif/g/' + s['id'] for s in em.sets], cwd=D.REPO, env=dict(D.GOENV, GOFLAGS='-mod=readonly'))
    if rc == 0:
        return
    broken = {}
    for l in e.splitlines():
        m = re.match(r'(?:\./)?zzverif/g/(\w+)/gen\.go:(.*)', l) or re.match(r'\S*/g/(\w+)/gen\.go:(.*)', l)
        if m:
            broken.setdefault(m.group(1), []).append(m.group(2))
    if not broken:
        raise D.CheckError('compiling the generated packages failed: ' + e[-2000:])
    drop(em, {k: 'the generated code does not compile: ' + '; '.join(v[:3]) for k, v in broken.items()})


def drop(em, why):
    for s in list(em.sets):
        if s['id'] in why:
            em.sets.remove(s)
            em.errors.append((s, why[s['id']]))
            del em.extra['zzverif/g/%s/gen.go' % s['id']]


def structs(s):
    return [x for f in s['files'] for x in f['structs'] if not x['extern']]


def registry(D, work, em, contexts=False):
    out = ['package main\n\nimport (\n']
    body = []
    why = {}
    for s in em.sets:
        src = em.src[s['id']]
        for x in structs(s):
            n = camel(x['name'])
            for pat in (r'type %s struct\b' % n, r'func Parse%s\(' % n, r'func \(\w+ \*%s\) Parse\(' % n):
                if not re.search(pat, src):
                    why[s['id']] = 'the generated code has no %s' % pat.replace('\\', '')
        if contexts:
            got = sorted(re.findall(r'^type (\w+) ', src, re.M))
            want = sorted([camel(x['name']) for x in structs(s)] + [camel(c['name']) for f in s['files'] for c in f['contexts']])
            if got != want:
                why[s['id']] = 'the generated code declares the types %s, not %s' % (', '.join(got), ', '.join(want))
    drop(em, why)
    for i, s in enumerate(em.sets):
        cs = [c for f in s['files'] for c in f['contexts']] if contexts else []
        if not structs(s) and not cs:
            continue
        out.append('\tp%d "%s/zzverif/g/%s"\n' % (i, D.MODULE, s['id']))
        for x in structs(s):
            n = camel(x['name'])
            body.append('\tregistry["%s/%s"] = entry{mk: func() interface{} { return new(p%d.%s) }, ctor: p%d.Parse%s}\n' % (s['id'], x['name'], i, n, i, n))
        for c in cs:
            body.append('\tregistry["%s/ctx:%s"] = entry{mk: func() interface{} { return new(p%d.%s) }}\n' % (s['id'], c['name'], i, camel(c['name'])))
    out.append(')\n\nfunc init() {\n' + ''.join(body) + '}\n')
    f = work.path('registry.go')
    with open(f, 'w') as h:
        h.write(''.join(out))
    em.extra['zzverif/codec/registry.go'] = f
    f = work.path('sets.json')
    with open(f, 'w') as h:
        json.dump(em.sets, h)
    return f


def build(D, work, sets, contexts=False):
    """emits, compiles and links the sets into the comparison program; returns (emitted, program, file with the sets)"""
    em = emit(D, work, sets)
    compile_all(D, work, em)
    f = registry(D, work, em, contexts)
    return em, D.build_harness(work, 'codec', em.extra), f


def limit():
    # an allocation sized by the input rather than by what it holds fails here instead of exhausting the machine
    resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))


def run(D, work, exe, setsfile, mode, seed, secs, more=()):
    w = work.path('limited-codec.sh')
    with open(w, 'w') as f:
        f.write('#!/bin/bash\nulimit -v %d\nexec %s "$@"\n' % (6 << 20, exe))
    os.chmod(w, 0o755)
    return D.run_harness(work, 'codec', seed, secs, args=[setsfile, mode] + list(more), exe=w)


ASSUME = [
    'encoding/binary reads big-endian integers and panics exactly when the slice is too short; bytes.IndexByte finds the first such byte',
    'the definitions used are those in defs/model.py, hand-made ones and ones drawn at random: the generator is checked through the '
    'parsers it emits for them, each for every input; definitions outside the sample are not covered',
    'make of a slice of up to 2^20 elements succeeds',
]


def check(D, work, prop, tier, seed, mode, light, limits):
    """the parsers emitted for the fixed sets are proved against their definitions, for all inputs; those emitted for random sets are
    compared with an independent reader on random and mutated inputs"""
    from contracts import gencode as contracts
    from defs import model
    from gvc import ssa, spec
    out = D.Outcome(prop, tier, seed, 'translation_validation')
    drawn = model.corpus(seed, 80 if tier == 'quick' else 240)
    fixed = [s for s in model.corpus(1, 60, open=0, name='fix_%d')
             if s['id'].startswith('fix_') and all(c <= l for c, l in zip(contracts.cost(s), limits))]
    em, exe, setsfile = build(D, work, drawn + fixed)
    if not em.sets:
        raise D.CheckError('no set of definitions gives a package that compiles: %s' % em.errors[:1])
    if mode == 'values':
        for s, why in em.errors[:5]:
            out.fails.append({'what': why, 'definitions': s['texts']})
    secs = 8 if tier == 'quick' else 60

    def search(seed, secs):
        fails, stats = run(D, work, exe, setsfile, mode, seed, secs)
        known = {k['id']: k for k in D.known_findings(prop)}
        for k in stats.get('known', []):
            if k['id'] in known:
                if known[k['id']]['what'] not in out.known:
                    out.known.append(known[k['id']]['what'])
            else:
                fails.append(dict(k, what='reported as known but not listed: ' + k['id']))
        out.fails += fails
        return stats
    stats = search(seed, secs)
    # ---- proof
    proved = [s for s in em.sets if s['id'].startswith(('hand_', 'fix_'))]
    ov = {os.path.join(D.REPO, k): v for k, v in em.extra.items()}
    prog = ssa.Prog(D.export(work, ['./zzverif/g/' + s['id'] for s in proved], overlay=ov))
    contracts.normalise(prog)
    env = spec.Env(prog)
    contracts.setup(env, proved, [prop], lenient=[s['id'] for s in proved if s['id'] == 'hand_nodefault'], light=light)
    res = D.prove(prog, env, prop, tier, **(dict(budget=60, total=60) if out.fails else {}))
    D.proof_coverage(out, res, prog, env, prop)
    if out.unproved and not out.fails:
        search(seed + 1000003, 60)
    n = sum(len(structs(s)) for s in em.sets)
    c = out.coverage
    c['programs'] = len(em.sets)
    c['disagreements_checked'] = c['obligations'] + stats.get('evaluations', 0)
    c['samples'] = [{'definitions': s['texts'], 'how': 'proved for every input' if s in proved else 'compared on inputs'}
                    for s in em.sets[:2] + em.sets[-1:]] + stats.get('samples', [])[:5]
    c['parsers'] = n
    c['sets_proved'] = [s['id'] for s in proved]
    c['comparison_on_inputs'] = {
        'label': 'bounded, not counted as proof', 'sets': len(em.sets), 'seconds': secs, 'evaluations': stats.get('evaluations', 0),
        'distinct_nontrivial': stats.get('distinct', 0), 'samples': stats.get('samples', [])}
    out.assumptions = D.ARITH + ASSUME
    return out.finish()
