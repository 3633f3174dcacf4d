from .common import contract_check


def check(D, work, prop, tier, seed):
    return contract_check(D, work, prop, tier, seed, ['intervals', 'draws'], harness='draws', assumptions=[
        'a random source is not nil and may return any value of the documented range of the method called, in any order',
        'a run in which the source happens to give the planned numbers is a possible run; loops that draw nothing end',
        'random.New returns a source that is not nil'])
