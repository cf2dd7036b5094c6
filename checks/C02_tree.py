"""C02: the concrete syntax tree, for all four reduction levels, hiding and dropping."""
from vlib import main, THOROUGH
import pegchecks as P


def mixed(rng): return 0.3 if rng.random() < 0.4 else 0.0


def run(c):
    if THOROUGH:
        for lv in (0, 1, 2, 3):
            P.enum_check(c, 'tree', range(16), levels=(lv,))
    else:
        P.enum_check(c, 'tree', range(16), nslices=32, levels=(0, 1, 2, 3))
    P.random_check(c, 'tree', 12000 if THOROUGH else 1200,
                   dict(_gen=P.wide_grammar, named=[0.15, 0.4], hidden=[0.1, 0.4], drop=[0.0, 0.0, 0.15],
                        level=[0, 1, 2, 3, 3], _maxn=60, _maxlen=14), ntexts=3)
    P.random_check(c, 'tree', 16000 if THOROUGH else 2000,
                   dict(named=[0.15, 0.4], hidden=[0.1, 0.4], drop=[0.0, 0.0, 0.2], recur=mixed,
                        look=0.1, smart=0.2), ntexts=3)


main('C02', run, rule='grammars with random naming, disposability, dropping and reduction level on '
     'random texts, and all small grammars of PegEnum; a case is one parse whose whole tree is compared')
