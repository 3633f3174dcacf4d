from .common import contract_check


def check(D, work, prop, tier, seed):
    return contract_check(D, work, prop, tier, seed, ['intervals', 'resolver', 'values'], harness='inspect', harness_args=['values'], assumptions=[
        'errors.New returns a fresh non-nil error; sort.Sort permutes its argument into increasing order of Less',
        'pointers inside the syntax tree that the functions follow are not nil'])
