"""Test vectors: the pieces they are built from, integer fields and counts under contract, whole vectors read back by an independent reader."""
import json

ASSUME = [
    'the random source returns what its interface promises; slices of at most 2^20 bytes can be made',
    'generator.members and union are not under contract, and for field, member and structure only which part makes the bytes is: the vectors they assemble are checked for the definitions '
    'of defs/model.py and defs/support.py, hand-made and drawn at random',
    'contracts of the resolver, of sets, of draws and of stores are used as proved by C04, C01, C02 and C06; stores held by vectors are valid; '
    'value lists are not empty and constants natural numbers; generating a field changes only stores, vectors and the place of the generator',
    'definitions for which the generator reports an error are outside the property',
]


def check(D, work, prop, tier, seed):
    from contracts import vectors
    from .common import also
    from defs import model, support
    from gvc import ssa, spec
    out = D.Outcome(prop, tier, seed, 'exploration')
    secs, n = (12, 300) if tier == 'quick' else (90, 1500)
    sets = [dict(s, loses=support.loses(s)) for s in model.corpus(seed, n, kind=support.Vec, first=model.handmade() + [support.LOST])
            if support.supported(s) and support.fit(s)]
    sets = [dict(s, loses=support.loses(s)) for s in support.more()] + sets
    p = work.path('sets.json')
    with open(p, 'w') as h:
        json.dump(sets, h)
    exe = D.build_harness(work, 'vectors')
    known = {k['id']: k for k in D.known_findings(prop)}

    def search(seed, secs):
        fails, stats = D.run_harness(work, 'vectors', seed, secs, args=[p], exe=exe)
        for k in stats.get('known', []):
            if k['id'] not in known:
                fails.append(dict(k, what='reported as known but not listed: ' + k['id']))
            elif known[k['id']]['what'] not in out.known:
                out.known.append(known[k['id']]['what'])
        out.fails += fails
        return stats
    stats = search(seed, secs)
    prog = ssa.Prog(D.export(work))
    env = spec.Env(prog)
    vectors.setup(env)
    res = D.prove(prog, env, prop, tier, **(dict(budget=60, total=60) if out.fails else {}))
    from contracts import fields, kinds
    for second in (fields.setup, kinds.setup, kinds.wholes):
        also(D, prog, env, res, second, prop, tier, **(dict(budget=60, total=60) if out.fails else dict(budget=150, total=150)))
    # a function so rewritten that its contract no longer applies is left to the search, which is then longer
    gone = [n for n, r in res.results.items() if any(o['kind'] == 'unsupported' for o in r['obls'])]
    for n in gone:
        res.notes.append('%s not under contract on this tree: %s' % (n, res.results.pop(n)['obls'][0]['label'][:300]))
    res.failed = [(n, o) for n, o in res.failed if n not in gone]
    D.proof_coverage(out, res, prog, env, prop)
    if (out.unproved or gone) and not out.fails:
        search(seed + 1000003, 60)
    c = out.coverage
    c['evaluations'] = stats.get('evaluations', 0)
    c['distinct_nontrivial'] = stats.get('distinct', 0)
    c['rule'] = 'a pair of definitions and vector whose vector is not empty, counted once per distinct content'
    c['samples'] = stats.get('samples', [])
    c['sets'] = len(sets)
    c['counts'] = stats.get('counts', {})
    out.assumptions = D.ARITH + ASSUME
    return out.finish()
