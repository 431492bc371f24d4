from ..oracle import table
from .. import groupcases as gc

RULE = ('one history = one Edwards, twisted Edwards or Montgomery curve (small ones over every kind of prime 3..53 with all pairs '
        'of points including the identity, inverses and low order points; user curves over primes around 2^16, 2^31, 2^32, 2^63, '
        '2^64; the published ones with points inside and outside the subgroup of the generator) and a sequence of additions, '
        'subtractions, negations and doublings whose results are operands of later steps; '
        'points of chosen coordinates (0, 1, -1, equal, opposite), several curves or several objects of one class by turns. Non-trivial: every result is compared '
        'with the textbook affine oracle; associativity also by the library\'s own ==')
ASSUMPTIONS = ['Edwards curves are complete ones (a square, d not a square), as every published curve of the library is']


def plan(rng, tier):
    return [('main', gc.build(rng, tier, 'med', table.names('m') + table.names('e')), {})]
