from .common import contract_check


def check(D, work, prop, tier, seed):
    return contract_check(D, work, prop, tier, seed, ['intervals', 'resolver', 'values', 'branches'], harness='inspect', harness_args=['branches'], assumptions=[
        'errors.New returns a fresh non-nil error; sort.Sort permutes its argument into increasing order of Less',
        'pointers inside the syntax tree that the functions follow are not nil, and integer types are at most 64 bits wide',
        'in NewBranches and Lookup a set is known by what it contains: justified by the frame and own-storage obligations of the set '
        'operations and by a scan that package inspect never stores a set'])
