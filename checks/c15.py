"""Declarations of the emitted packages and the files gen.Package writes."""
import json

from . import gencode

ASSUME = [
    'the producers gen.Package calls (parser source, corpus, test source, fuzz source) and the file system each work or report an error',
    'the declarations are compared for the definitions of defs/model.py, hand-made and drawn at random; the Go compiler and reflection say '
    'what the emitted source declares; definitions outside the sample are not covered',
    'Go names of types, fields, constructors and the parse method are distinct valid identifiers, and array sizes are ones the Go compiler accepts',
]


def check(D, work, prop, tier, seed):
    from contracts import package
    from defs import model, support
    from gvc import ssa, spec
    out = D.Outcome(prop, tier, seed, 'translation_validation')
    secs = 5 if tier == 'quick' else 40
    n = (60, 100) if tier == 'quick' else (160, 300)
    sets = model.corpus(seed, n[0]) + model.corpus(seed, n[1], name='nm_%d', kind=model.Names, first=[])
    em, exe, f = gencode.build(D, work, sets, True)
    for s, why in em.errors[:5]:
        out.fails.append({'what': why, 'definitions': s['texts']})
    fails, stats = gencode.run(D, work, exe, f, 'decls', seed, secs)
    out.fails += fails
    p = work.path('supported.json')
    small = [s for s in model.handmade() if s['id'] != 'hand_ctx']
    with open(p, 'w') as h:
        json.dump([{'id': s['id'], 'texts': [model.t_file(x) for x in s['files']], 'supported': support.supported(s)} for s in small], h)
    pexe = D.build_harness(work, 'pkg')

    def packages(seed, secs):
        fails, stats = D.run_harness(work, 'pkg', seed, secs, args=[p, work.dir], exe=pexe)
        out.fails += fails
        return stats
    pstats = packages(seed, secs)
    prog = ssa.Prog(D.export(work))
    env = spec.Env(prog)
    package.setup(env)
    res = D.prove(prog, env, prop, tier, **(dict(budget=60, total=60) if out.fails else {}))
    D.proof_coverage(out, res, prog, env, prop)
    if out.unproved and not out.fails:
        packages(seed + 1000003, 60)
    c = out.coverage
    c['programs'] = len(em.sets)
    c['disagreements_checked'] = stats.get('evaluations', 0) + pstats.get('evaluations', 0) + c['obligations']
    c['samples'] = [{'definitions': s['texts'], 'how': 'compiled; declarations compared by reflection'} for s in em.sets[-2:]] + \
        stats.get('samples', [])[:3] + pstats.get('samples', [])[:3]
    c['packages_written'] = {'label': 'bounded, not counted as proof', 'seconds': secs, 'evaluations': pstats.get('evaluations', 0),
                             'distinct_nontrivial': pstats.get('distinct', 0)}
    c['declarations'] = {'label': 'bounded, not counted as proof', 'sets': len(em.sets), 'seconds': secs, 'evaluations': stats.get('evaluations', 0),
                         'distinct_nontrivial': stats.get('distinct', 0)}
    out.assumptions = D.ARITH + ASSUME
    return out.finish()
