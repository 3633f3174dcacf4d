from . import gencode


def check(D, work, prop, tier, seed):
    return gencode.check(D, work, prop, tier, seed, 'values', False, (30, 64) if tier == 'quick' else (60, 400))
