"""C05: left recursion."""
from vlib import main, THOROUGH
import pegchecks as P


def run(c):
    k = 20 if THOROUGH else 1
    recs = P.random_check(c, 'all', 3000 * k, dict(_gen=P.lr_grammar, _alphabet='abc+', _maxlen=7, _maxn=40, _cost=20000),
                          ntexts=6, timeout=800)
    P.random_check(c, 'all', 2500 * k, dict(_gen=P.lr_grammar, _alphabet='abc+', _maxlen=7, _maxn=40, _cost=20000,
                                            mand=[0.3, 0.6], rules=[0.3, 0.7]), ntexts=6, timeout=800)
    c.extra['full_matches_of_3_or_more_characters'] = sum(
        r['o']['kind'] == 'full' and r['o']['end'] > 2 for r in recs)
    c.assumptions.append('no interwoven left recursion (documented as unsupported): no two forward '
                         'parsers are left-recursive through each other')


main('C05', run, rule='random directly, indirectly and mutually left-recursive grammars on sampled, '
     'mutated and random texts; left-recursive by construction')
