"""C08: mismatches are reported, at the farthest failure, and only mismatches are."""
from vlib import main, THOROUGH
import pegchecks as P


def mixed(rng): return 0.3 if rng.random() < 0.4 else 0.0


def run(c):
    P.enum_check(c, 'errors', range(16), nslices=16 if THOROUGH else 24)
    P.random_check(c, 'errors', 40000 if THOROUGH else 2500,
                   dict(named=0.25, drop=[0.0, 0.0, 0.2], recur=mixed, look=[0, 0.2], smart=0.1), ntexts=4)


main('C08', run, rule='random grammars and all small grammars of PegEnum on matching, mutated and '
     'random texts; a case is one parse whose error codes and positions are compared')
