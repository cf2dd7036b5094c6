"""C07: mandatory violations, skip and resume rules."""
from vlib import main, THOROUGH
import pegchecks as P


def mixed(rng): return 0.3 if rng.random() < 0.3 else 0.0


def run(c):
    recs = P.random_check(c, 'all', 90000 if THOROUGH else 6000,
                   dict(named=[0.25, 0.5], recur=mixed, look=[0, 0.1], smart=0.1, mand=[0.4, 0.8], drop=[0, 0, 0.1],
                        rules=[0.0, 0.3, 0.6], msgs=[0.0, 0.8]), ntexts=4)
    for r in recs:
        if any(code == 1010 or code >= 2000 for _, code in r['o']['errs']):
            c.count('runs_with_violation')
            if r['g']['skip']: c.count('with_skip_rules')
            if any(2000 <= code for _, code in r['o']['errs']): c.count('with_error_rules')
            if r['g']['resume']: c.count('with_resume_rules')


main('C07', run, rule='random grammars with mandatory markers, skip and resume rules on matching, '
     'mutated and random texts')
