"""A property decided by contracts plus a failing-input search."""


def contract_check(D, work, prop, tier, seed, modules, harness=None, harness_args=(), level='proof', assumptions=(), budget=None,
                   extra=None, opts=None, prepare=None, searcher=None, second=None):
    import importlib
    from gvc import ssa, spec
    out = D.Outcome(prop, tier, seed, level)
    prog = ssa.Prog(D.export(work))
    env = spec.Env(prog)
    more = prepare(env, out) if prepare else []
    for m in modules:
        importlib.import_module('contracts.' + m).setup(env)
    if harness:
        search(D, work, out, prop, harness, harness_args, seed, tier, False, searcher=searcher)
    # with a failing input at hand the proof is only asked which obligations break
    run = D.prove(prog, env, prop, tier, opts=opts, **(dict(budget=60, total=60) if out.fails else dict(budget=300, total=360) if second else {}))
    if second:
        also(D, prog, env, run, second, prop, tier, opts=opts, **(dict(budget=60, total=60) if out.fails else dict(budget=280, total=300)))
    for name, obls in more or []:
        # obligations decided outside the symbolic execution: (label, holds, detail)
        os_ = [{'label': l, 'kind': 'table', 'status': 'proved' if ok else 'failed', 'model': d, 'time': 0, 'backend': 'evaluation', 'where': ''}
               for l, ok, d in obls]
        run.results[name] = {'name': name, 'root': True, 'obls': os_, 'paths': 0, 'covers': 0, 'time': 0, 'calls': [], 'inlined': [],
                             'trusted': [], 'queries': 0, 'solver_time': 0, 'invariants': []}
        run.failed += [(name, o) for o in os_ if o['status'] != 'proved']
    D.proof_coverage(out, run, prog, env, prop)
    out.assumptions = D.ARITH + list(assumptions)
    if harness and out.unproved and not out.fails:
        search(D, work, out, prop, harness, harness_args, seed, tier, True, searcher=searcher)
    if extra:
        extra(out)
    return out.finish()


def also(D, prog, env, run, second, prop, tier, **kw):
    """proves contracts that need other hooks than the first ones, and adds what comes out to run"""
    from gvc import core, spec
    env2 = spec.Env(prog)
    try:
        second(env2)
        run2 = D.prove(prog, env2, prop, tier, **kw)
    except (core.Unsupported, KeyError) as e:
        run2 = D.ProofRun()
        run2.results['second'] = D.unsupported('second', str(e))
        run2.failed = [('second', o) for o in run2.results['second']['obls']]
        run2.lemmas = []
    run.results.update(run2.results)
    run.failed += run2.failed
    run.notes += run2.notes
    run.retries += run2.retries
    if len(run2.lemmas) > len(run.lemmas):
        run.lemmas = run2.lemmas
    for n, c in env2.contracts.items():
        env.contracts.setdefault(n, c)


def search(D, work, out, prop, harness, args, seed, tier, failed, cover_key='counterexample_search', searcher=None):
    """bounded: looks for an input on which the real code breaks the property"""
    secs = 60 if failed else (8 if tier == 'quick' else 60)
    run = searcher or (lambda seed, secs: D.run_harness(work, harness, seed, secs, args=args))
    fails, stats = run(seed, secs)
    if failed and not fails:
        f2, s2 = run(seed + 1000003, secs)
        fails += f2
    out.fails += fails
    out.coverage[cover_key] = {
        'label': 'bounded, not counted as proof', 'harness': harness, 'seconds': secs, 'evaluations': stats.get('evaluations', 0),
        'distinct_nontrivial': stats.get('distinct', 0), 'samples': stats.get('samples', [])}
