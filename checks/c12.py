from .parser import parser_check, NUMBERS, READING


def check(D, work, prop, tier, seed):
    return parser_check(D, work, prop, tier, seed, ('wf',), 'robust', ['parse_api'], [NUMBERS, READING])
