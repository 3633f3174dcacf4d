from .common import contract_check


def check(D, work, prop, tier, seed):
    return contract_check(D, work, prop, tier, seed, ['constraints'], harness='constraints', assumptions=[
        'a range over a map visits every key present throughout the loop, in any order',
        'errors.New returns a fresh non-nil error'])
