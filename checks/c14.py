from .common import contract_check


def check(D, work, prop, tier, seed):
    return contract_check(D, work, prop, tier, seed, ['corpus'], harness='corpus', assumptions=[
        'SHA-256 does not collide on the vectors of one corpus, and hexadecimal encoding is one to one',
        'joining a directory and a file name gives a path from which both can be told, for type names without path separators',
        'a file system call either works as documented or returns an error; afero.NewBasePathFs places every path under its base',
        'SHA-256 and hexadecimal encoding are functions of the bytes given'])
