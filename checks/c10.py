from .parser import parser_check, NUMBERS


def check(D, work, prop, tier, seed):
    return parser_check(D, work, prop, tier, seed, ('same',), 'grammar', [], [NUMBERS])
