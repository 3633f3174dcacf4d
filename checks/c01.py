from .common import contract_check


def check(D, work, prop, tier, seed):
    return contract_check(D, work, prop, tier, seed, ['intervals'], harness='intervals', assumptions=[
        'sort.Sort rearranges its argument into an order in which no element is less than its predecessor, using only Len, Less and '
        'Swap (Len, Less and Swap themselves are executed symbolically; Less is proved to be a strict weak order)'])
