"""Histories of uses of grammar objects (spec/Reuse.tla), replayed into the real code."""
import random
import sys
import threading
import peglib as L
import pegchecks as P

# error codes that differ with the start symbol / while tracing, see spec/ReuseTrace.tla
SAME = {1052: 1050, 1057: 1055}
LOOK = (1030, 1031, 1045)


class Abort(Exception):
    pass


def start_index(g, gr, name):
    from DHParser.parse import Forward
    i = next(i for i, r in enumerate(g.N, 1) if r.get('pn') == name)
    if isinstance(gr[name], Forward):
        i = next(k for k, r in enumerate(g.N, 1) if r['op'] == 'fwd' and r['as'][0] == i)
    return i


def family(rng):
    k = rng.random()
    if k < 0.3:
        gen, hook, al = L.Gen(rng), P.lr_grammar, 'abc+'
    elif k < 0.55:
        gen, hook, al = L.Gen(rng), P.cap_grammar, 'abxy'
    else:
        gen = L.Gen(rng, named=0.4, recur=0.3 if rng.random() < 0.5 else 0, look=0.15, smart=0.1,
                    mand=rng.choice([0, 0.6]), rules=rng.choice([0, 0.5]), drop=rng.choice([0, 0.1]))
        hook, al = None, L.LETTERS
    g = hook(gen, rng) if hook else gen.grammar(rng.randint(2, 3))
    if g and L.admissible(g) and len(g.N) <= 30:
        return g, al
    return None, ''


def normalized(o):
    o['errs'] = [list(e) for e in sorted({(p, SAME.get(c, c)) for p, c in map(tuple, o['errs'])})]
    return o


def grammar_and_texts(rng, n=2):
    for _ in range(200):
        g, al = family(rng)
        if not g:
            continue
        names = sorted({r['pn'] for r in g.reach() if r.get('pn')} - {'root'})
        names = [x for x in names if not (g.N[[r.get('pn') for r in g.N].index(x)]['an']
                                          or g.N[[r.get('pn') for r in g.N].index(x)]['op'] in ('la', 'nla', 'lb', 'nlb'))]
        maxlen = 8
        while maxlen > 3 and P.cost(g, maxlen) > 20000:
            maxlen -= 1
        ts = L.texts_for(g, rng, n, maxlen, al)
        ts = [t for t in ts if t] or ['a']
        while len(ts) < n:
            ts.append(ts[0] + rng.choice(al))
        return g, [names and rng.choice(names) or 'root'], ts
    return None


def traced_code(o):
    return any(c in LOOK for _, c in o['errs'])


class Player:
    def __init__(self, g, starts, texts, rng):
        from DHParser import trace
        self.trace = trace
        self.g, self.rng, self.texts = g, rng, texts
        self.first = L.build(g, as_class=None if rng.random() < 0.4 else True)
        self.starts = ['root_parser__' if starts is None else 'root', starts[0]]
        self.idx = {s: start_index(g, self.first, s) for s in self.starts}
        self.objs = {1: self.first}
        self.traced = {1: False, 2: False}
        self.events = []

    def observe(self, gr, text, start):
        if self.rng.random() < 0.15:
            res = []
            th = threading.Thread(target=lambda: res.append(L.observe_nolimit(gr, text, start)))
            th.start()
            th.join(20)
            return res[0] if res else dict(L.EXC0, exc='TIMEOUT')
        return L.observe(gr, text, start)

    def play(self, hist):
        for e in hist:
            k = e['k']
            if e['op'] == 'new':
                if type(self.first).__name__ == 'Grammar':
                    self.objs[k] = L.build(self.g)
                else:
                    self.objs[k] = type(self.first)()
            elif e['op'] in ('trace', 'untrace'):
                self.traced[k] = e['op'] == 'trace'
                self.retrace(k)
            else:
                s, t = self.starts[e['s'] - 1], self.texts[e['t'] - 1]
                gr = self.objs[k]
                getattr(self, e['op'])(k, gr, s, t)
        return self.events

    def retrace(self, k):
        gr = self.objs[k]
        self.trace.set_tracer(gr, None)
        if self.traced[k]:
            self.trace.set_tracer(gr, self.trace.trace_history)

    def parse(self, k, gr, s, t):
        o = normalized(self.observe(gr, t, s))
        look = self.traced[k] and traced_code(o)
        if look:
            o['errs'] = [[0, 1040] if c in LOOK else [p, c] for p, c in o['errs']]
            o['kind'], o['end'] = L.kind_end(o['tree'], t)
        self.events.append({'op': 'parse', 'k': k, 'start': self.idx[s], 'x': list(t), 'o': o,
                            'look': look})

    def abort(self, k, gr, s, t):
        n = [self.rng.randint(1, 12)]

        def tracer(self_, location):
            n[0] -= 1
            if n[0] == 0 and location >= 0:
                raise Abort()
            return self_._parse(location)
        self.trace.set_tracer(gr, None)
        self.trace.set_tracer(gr, tracer)
        gr.history_tracking__ = False
        try:
            with L.limit(10):
                gr(t, s)
        except (Abort, L.Timeout):
            pass
        except Exception as e:      # an error in the real code is an observation
            self.failed(k, s, t, e)
        self.retrace_after(k)

    def failed(self, k, s, t, e):
        self.events.append({'op': 'parse', 'k': k, 'start': self.idx[s], 'x': list(t), 'look': False,
                            'o': dict(L.EXC0, exc=type(e).__name__ + ': ' + str(e)[:200])})

    def retrace_after(self, k):
        self.trace.set_tracer(self.objs[k], None)
        if self.traced[k]:
            self.retrace(k)

    def cancel(self, k, gr, s, t):
        n = [self.rng.randint(0, 2)]

        def query():
            n[0] -= 1
            return n[0] < 0
        gr.cancel_query__ = query
        try:
            with L.limit(10):
                gr(t * self.rng.choice([1, 1, 8]), s)
        except L.Timeout:
            pass
        except Exception as e:
            self.failed(k, s, t, e)
        finally:
            gr.cancel_query__ = None


def replay(job):
    hist, seed = job
    rng = random.Random(seed)
    gt = grammar_and_texts(rng)
    if gt is None:
        return None
    g, starts, texts = gt
    pl = Player(g, starts, texts, rng)
    ev = pl.play(hist)
    return {'g': g.spec(''), 'h': ev, 'exactpos': not g.drops() and not g.skipping_smart(),
            'exacterr': not g.has('nla', 'nlb'), 'ops': hist, 'texts': texts, 'starts': pl.starts}


def concurrent(job):
    """Several threads, each with an object of its own of the same class"""
    seed, nthreads, nparses = job
    rng = random.Random(seed)
    gt = grammar_and_texts(rng, 4)
    if gt is None:
        return None
    g, starts, texts = gt
    first = L.build(g, as_class=True)
    cls = type(first)
    idx = {s: start_index(g, first, s) for s in ('root', starts[0])}
    events, lock = [], threading.Lock()
    plans = [[(rng.choice(list(idx)), rng.choice(texts)) for _ in range(nparses)]
             for _ in range(nthreads)]
    old = sys.getswitchinterval()
    barrier = threading.Barrier(nthreads)

    def work(plan, gr):
        barrier.wait(20)
        gr = gr or cls()
        for s, t in plan:
            o = normalized(L.observe_nolimit(gr, t, s))
            with lock:
                events.append({'op': 'parse', 'k': 0, 'start': idx[s], 'x': list(t), 'o': o, 'look': False})
    sys.setswitchinterval(1e-5)
    try:
        ths = [threading.Thread(target=work, args=(p, first if i == 0 else None), daemon=True)
               for i, p in enumerate(plans)]
        for th in ths: th.start()
        for th in ths: th.join(30)
    finally:
        sys.setswitchinterval(old)
    if any(th.is_alive() for th in ths) or len(events) < nthreads * nparses:
        events.append({'op': 'parse', 'k': 0, 'start': idx['root'], 'x': ['a'],
                       'o': dict(L.EXC0, exc='TIMEOUT'), 'look': False})
    return {'g': g.spec(''), 'h': events, 'exactpos': not g.drops() and not g.skipping_smart(),
            'exacterr': not g.has('nla', 'nlb'), 'ops': 'concurrent', 'texts': texts}
