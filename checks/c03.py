from .common import contract_check


def check(D, work, prop, tier, seed):
    return contract_check(D, work, prop, tier, seed, ['resolver'], harness='inspect', harness_args=['names'], assumptions=[
        'a range over a map visits every key present throughout the loop, in any order',
        'errors.New returns a fresh non-nil error',
        'the files given, and every declaration in their lists, are not nil'])
