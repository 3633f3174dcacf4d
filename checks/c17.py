from .common import contract_check


def check(D, work, prop, tier, seed):
    return contract_check(D, work, prop, tier, seed, ['selector'], harness='selector', assumptions=[
        'rand.Perm(n) returns a new slice holding each of 0..n-1 once, in any order',
        'the limit of a sample is not negative',
        'package variables that are only assigned where they are declared are not reassigned by importers'])
