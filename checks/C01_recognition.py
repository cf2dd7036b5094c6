"""C01: which texts parsers match, and how far."""
from vlib import main, THOROUGH
import pegchecks as P


def mixed(rng): return 0.3 if rng.random() < 0.4 else 0.0


def run(c):
    P.enum_check(c, 'recognition', range(16), levels=(1,) if not THOROUGH else (1, 2))
    P.random_check(c, 'recognition', 40000 if THOROUGH else 2500,
                   dict(named=0.25, drop=[0.0, 0.15], recur=mixed, look=0.2, smart=0.15), ntexts=4)
    c.assumptions += ['grammars satisfy the documented well-formedness conditions (elements of '
                      'interleaves and bounded repetitions are not nullable)']


main('C01', run, rule='all grammars of the shape described in PegEnum on all texts over {a,b} up '
     'to length 3, plus random grammars on sampled, mutated and random texts; a case is one parse')
