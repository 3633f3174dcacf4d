from .common import contract_check
from .parser import READING


def check(D, work, prop, tier, seed):
    return contract_check(D, work, prop, tier, seed, ['parse_api'], harness='parse', harness_args=['files'], assumptions=[READING])
