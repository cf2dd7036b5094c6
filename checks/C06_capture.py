"""C06: capture, retrieve, pop."""
from vlib import main, THOROUGH
import pegchecks as P
import peglib as L


def recursion_case():
    """A known finding: what a recursive symbol captured is not captured again, when its result is taken
    from the memo (and the capture has been undone before)."""
    g = L.G()
    c = g.add('cap', [g.rx('ab', 1, -1)], var='c')
    g.name(c, 'c')
    fwd = g.add('fwd', [0])
    a = g.add('seq', [g.text('('), g.add('alt', [c, fwd]), g.text(')')], mand=L.NO_MAND)
    g.name(a, 'a')
    g.node(fwd)['as'] = [a]

    def pop(): return g.add('pop', [c], var='c', rnm='c', match='last')
    top = g.add('alt', [g.add('seq', [fwd, g.text('x'), pop()], mand=L.NO_MAND),
                        g.add('seq', [fwd, g.text('y'), pop()], mand=L.NO_MAND)])
    g.name(top, 'doc')
    g.finish(top)
    gr = L.build(g)
    return [dict(P.rec(g, gr, t), case='captured-in-recursion') for t in ('(ab)xab', '(ab)yab')]


def run(c):
    k = 12 if THOROUGH else 1
    recs = P.random_check(c, 'all', 8000 * k, dict(_gen=P.cap_grammar, _alphabet='abxy', _maxlen=9, _maxn=40),
                          ntexts=5, timeout=800)
    c.validate('PegTrace', recursion_case(), env={'MODE': 'all'})
    c.extra['full_matches_of_4_or_more_characters'] = sum(
        r['o']['kind'] == 'full' and r['o']['end'] > 3 for r in recs)


if __name__ == '__main__':
    main('C06', run, rule='random grammars with captures, retrieves and pops in all positions')
