"""C03: no text is lost, duplicated or invented; parsing is total."""
from vlib import main, THOROUGH
import pegchecks as P


def mixed(rng): return 0.4 if rng.random() < 0.5 else 0.0


def run(c):
    k = 12 if THOROUGH else 1
    P.enum_check(c, 'content', range(16), nslices=16 if THOROUGH else 48)
    P.random_check(c, 'fidelity', 2500 * k,
                   dict(named=[0.25, 0.5], recur=mixed, look=[0, 0.1], smart=0.0, mand=[0.0, 0.4, 0.8],
                        rules=[0.0, 0.3, 0.6], _maxlen=12, _nodrop=True), ntexts=4)
    P.random_check(c, 'fidelity', 2000 * k,
                   dict(named=[0.25, 0.5], recur=mixed, look=[0, 0.1], smart=0.0, mand=[0.0, 0.4, 0.8],
                        rules=[0.0, 0.3, 0.6], _depth=(3, 5), _maxn=90, _maxlen=60, _nodrop=True), ntexts=4)
    P.random_check(c, 'fidelity', 1200 * k,      # lookaheads as mandatory items
                   dict(named=[0.25, 0.5], look=0.35, smart=0.0, mand=[0.4, 0.8], rules=[0.6, 0.9], _maxlen=12,
                        _nodrop=True), ntexts=4)
    P.random_check(c, 'fidelity', 1200 * k,
                   dict(named=[0.25, 0.5], look=0.0, smart=0.0, mand=[0.0, 0.4], rules=[0.0, 0.3], _maxlen=12,
                        _nodrop=True, _dropouts=5), ntexts=4)
    P.random_check(c, 'fidelity', 1200 * k,
                   dict(named=[0.25, 0.5], look=0.0, smart=0.0, mand=[0.4, 0.8], rules=[0.0, 0.3], _depth=(3, 5), _maxn=60, _maxlen=20,
                        _nodrop=True, _alphabet=' ab'), ntexts=4)


main('C03', run, rule='random grammars without drops, with mandatory markers, skip/resume rules, '
     'recursion; matching, mutated and random texts')
