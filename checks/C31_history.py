"""C31: what the parsing history says is true: every entry is judged by Peg.tla."""
import random
from vlib import main, pmap, THOROUGH
import peglib as L


class Gen(L.Gen):
    """shares symbols among alternatives, so that results are recalled"""

    def expr(self, d, nonempty=False):
        g, rng = self.g, self.rng
        if d > 0 and rng.random() < 0.25:
            s = self.expr(d - 1, True)
            if not g.node(s).get('pn') and not g.node(s).get('dr'):
                self.nn += 1
                g.name(s, 's%d' % self.nn, disposable=self.p('hidden'))
            alts = [g.add('seq', [s, self.leaf()], mand=L.NO_MAND) for _ in range(rng.randint(1, 2))]
            if rng.random() < 0.7:
                alts.append(s)
            return self.deco(g.add('alt', alts))
        return super().expr(d, nonempty)


def record(job):
    from DHParser.trace import set_tracer, trace_history
    from DHParser.log import HistoryRecord
    seed, opts = job
    rng = random.Random(seed)
    kw = {k: (rng.choice(v) if isinstance(v, list) else v) for k, v in opts.items()}
    for _ in range(30):
        gen = Gen(rng, **kw)
        g = gen.grammar(rng.randint(2, 4))
        if g and L.admissible(g) and len(g.N) <= 26 and g.N[g.start - 1].get('pn'):
            break
    else:
        return []
    gr = L.build(g)
    set_tracer(gr, trace_history)
    names = [{'n': r['pn'], 'p': i + 1} for i, r in enumerate(g.N) if r.get('pn')]
    out = []
    for t in L.texts_for(g, rng, 3, 9, L.LETTERS):
        set_tracer(gr, None)
        plain = L.observe(gr, t)
        set_tracer(gr, trace_history)
        o = L.observe(gr, t)
        h = []
        for e in gr.history__:
            if e.errors or not e.call_stack:
                continue
            stack = [[n[8:] if n.startswith('RECALL: ') else n, i] for n, i in e.call_stack]
            known = {x['n'] for x in names}
            ok = e.node.name != ':None'
            h.append({'stack': [[n if n in known else '', i] for n, i in stack], 'ok': ok, 'len': e.node.strlen(),
                      'text': list(e.node.content), 'rest': list(str(e.text)), 'line': e.line_col[0], 'col': e.line_col[1],
                      'back': any('Lookbehind' in n or n[:4] in ('<-&', '<-!') or '<-' in n for n, _ in e.call_stack), 'shown': str(e)[:100]})
        out.append({'g': g.spec(t), 'names': names, 'faulty': any(e.errors for e in gr.history__), 'h': h, 'o': o, 'plain': plain})
    return out


def run(c):
    k = 10 if THOROUGH else 1
    recs = []
    for n, o in ((1800, dict(named=[0.3, 0.6, 0.9], look=[0, 0.2], smart=[0.0, 0.2], drop=0.0)),
                 (900, dict(named=[0.3, 0.6], look=[0, 0.2], blanks=0.3, drop=0.3, hidden=0.4))):
        recs += [r for rs in pmap(record, [(f'{c.rng.random()}', o) for _ in range(n * k)]) for r in rs]
    c.count('entries', sum(len(r['h']) for r in recs))
    c.validate('HistTrace', recs)


main('C31', run, rule='random grammars with lookaheads, matching and mutated texts; every entry of the history')
