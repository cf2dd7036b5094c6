"""C04: the outcome of a parse does not depend on the history of the grammar object."""
from vlib import main, THOROUGH, pmap
import reuse as R


def run(c):
    n = 4 if THOROUGH else 3
    slices = 12 if THOROUGH else 2
    hists = c.generate_many('Reuse', [{'MAXLEN': str(n), 'SLICES': str(slices), 'SLICE': str(s)}
                                      for s in (range(slices) if not THOROUGH else range(0, 12, 3))])
    c.count('histories', len(hists))
    jobs = [(h, str(c.rng.random())) for h in hists]
    for _ in range(8000 if THOROUGH else 600):          # longer ones, at random
        jobs.append(([e for h in c.rng.sample(hists, c.rng.randint(2, 4)) for e in h
                      if e['op'] != 'new'], str(c.rng.random())))
    # of these only operations on object 1 are meaningful before object 2 exists
    jobs = [(legal(h), s) for h, s in jobs]
    recs = [r for r in pmap(R.replay, jobs) if r]
    recs += [r for r in pmap(R.concurrent, [(str(c.rng.random()), 4, 6) for _ in range(2000 if THOROUGH else 150)]) if r]
    for r in recs:
        for e in r['h']:
            c.count('parses_' + e['o']['kind'])
            if e['look']: c.count('lookahead_codes_while_tracing')
    c.validate('ReuseTrace', recs, env={'MODE': 'all'})
    c.assumptions += ['thread schedules are sampled (switch interval 10 microseconds)']


def legal(h):
    out, there, traced = [], {1}, set()
    for e in h:
        k = e['k']
        if k not in there and e['op'] != 'new':
            out.append({'op': 'new', 'k': k, 's': 0, 't': 0})
            there.add(k)
        if e['op'] == 'new':
            if k in there: continue
            there.add(k)
        if e['op'] == 'trace':
            if k in traced: continue
            traced.add(k)
        if e['op'] == 'untrace':
            if k not in traced: continue
            traced.discard(k)
        out.append(e)
    return out


main('C04', run, rule='all histories of three (thorough: a quarter of those of four) operations on '
     'two objects of a grammar class - create, trace, parse, interrupt, cancel - plus longer random '
     'ones and concurrent threads, each on a random grammar; a case is one history')
