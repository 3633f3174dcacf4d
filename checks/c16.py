from . import emitted
from .common import contract_check


def check(D, work, prop, tier, seed):
    return contract_check(
        D, work, prop, tier, seed, ['emission'], harness='emitted',
        searcher=lambda seed, secs: emitted.search(D, work, seed, 120 if secs < 20 else 400, secs), assumptions=[
            'printing into a bytes.Buffer does not fail and appends what package fmt documents for the verbs used',
            'imports.Process either reports an error or keeps the declarations it is given',
            'no type has the Go name of the package, and Go names of types are not empty',
            'that the printed text compiles and that the emitted functions run as tests is observed on the corpora of the search, not proved'])
