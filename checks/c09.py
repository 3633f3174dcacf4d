from . import gencode


def check(D, work, prop, tier, seed):
    return gencode.check(D, work, prop, tier, seed, 'safety', True, (60, 400) if tier == 'quick' else (1000, 1 << 20))
