"""C27: histories of thread-local factories in several threads against Factory.tla."""
import contextlib
import gc
import io
import os
import random
import threading
from vlib import main, pmap, THOROUGH
from sched_ import Worker, Interleaver, Hang

FILES = tuple(os.path.join('DHParser', f) for f in ('toolkit.py', 'pipeline.py', 'configuration.py'))
BUILTIN = ['ebnf_grammar', 'ebnf_transformer', 'ebnf_compiler', 'ebnf_preprocessor']
MODES = ['dhparser', 'fixed', 'configurable', 'heuristic']


class Boom(Exception):
    pass


class History:
    def __init__(self, r):
        self.r, self.ops, self.facts, self.alive, self.objs = r, [], [], {}, []
        self.log = threading.local()
        self.nt = 0
        self.ws = {}
        for _ in range(3):
            self.thread()

    def thread(self):
        self.nt += 1
        self.ws['t%i' % self.nt] = Worker()

    # --- factories
    def make(self, o):
        """Creates the factory named o['f']"""
        from DHParser.toolkit import ThreadLocalSingletonFactory
        from DHParser import pipeline
        from DHParser.parse import Grammar, RegExp
        tag, kind, log, fails = o['f'], o['kind'], self.log, o['fails']
        count = [0]

        def made(x=None):
            count[0] += 1
            log.ran = getattr(log, 'ran', 0) + 1
            log.raises = count[0] <= len(fails)
            if log.raises:
                raise {'A': AttributeError, 'B': Boom}[fails[count[0] - 1]]('constructor')

        class Thing:
            def __init__(self):
                made()
                self.tag = tag

            def __call__(self, x):
                return x
        def build():
            return Thing()
        if kind in ('class', 'func'):
            what, kw = Thing if kind == 'class' else build, o['kw']
            if o.get('for'):        # (the new factory may take the memory of the old one)
                del self.alive[o['for']]
            f = ThreadLocalSingletonFactory(what, **kw)
        elif kind == 'compiler':
            f = pipeline.create_compiler_junction(Thing, 'AST', 'x')[1]
        elif kind == 'junction':
            f = pipeline.create_junction(Thing, 'AST', 'x')[1]
        elif kind == 'parser':
            class G(Grammar):
                root__ = RegExp('a')

                def __init__(self, *args, **kwargs):
                    made()
                    super().__init__(*args, **kwargs)
                    self.tag = tag
            f = pipeline.create_parser_junction(G).factory
        return f

    def call(self, o):
        from DHParser import ebnf
        from DHParser.configuration import set_config_value
        f, log = o['f'], self.log
        log.ran, log.raises = 0, False
        try:
            if f == 'ebnf_grammar':
                if o['how'] == 'config':
                    set_config_value('syntax_variant', o['var'])
                    x = ebnf.get_ebnf_grammar()
                else:
                    x = ebnf.get_ebnf_grammar('@ flavor = %s\ndoc = "a"\n' % o['var'])
                tag = type(x).__name__
            elif f in BUILTIN:
                x = getattr(ebnf, 'get_' + f)()
                tag = type(x).__name__
            else:
                x = self.alive[f]()
                tag = x.tag
            return x, tag, '', log.ran if f not in BUILTIN else -1, log.raises
        except Exception as e:
            return None, '', type(e).__name__, log.ran, log.raises

    def result(self, o, res):
        x, o['tag'], o['exc'], o['ran'], o['raises'] = res
        if o['exc']:
            o['obj'] = 0
        else:
            o['obj'] = next((i for i, y in enumerate(self.objs, 1) if y is x), 0)
            if not o['obj']:
                self.objs.append(x)
                o['obj'] = len(self.objs)

    def hang(self, o):
        o.update(tag='', exc='hang', ran=0, raises=False, obj=0)

    def choose_call(self, t):
        f = self.r.choice(BUILTIN + list(self.alive) * 3)
        o = {'op': 'call', 't': t, 'f': f, 'mode': '', 'want': f}
        if f == 'ebnf_grammar':
            o['var'], o['how'] = self.r.choice(MODES[:3] * 2 + MODES), self.r.choice(['config', 'src'])
            o['mode'] = 'heuristic' if o['var'] == 'heuristic' else 'dhparser'
            o['want'] = {'heuristic': 'HeuristicEBNFGrammar', 'dhparser': 'ConfigurableEBNFGrammar'}[o['mode']]
        elif f in BUILTIN:
            o['want'] = {'ebnf_transformer': WANT_T, 'ebnf_compiler': 'EBNFCompiler', 'ebnf_preprocessor': WANT_P}[f]
        return o

    def choose_new(self, t):
        f = 'f%i' % (len(self.facts) + 1)
        self.facts.append(f)
        kind = self.r.choice(['class', 'class', 'func', 'compiler', 'junction', 'parser'])
        kw = {}
        if kind in ('class', 'func'):
            if self.r.random() < 0.5:
                kw['uniqueID'] = self.r.choice([1, 2, 'u', 'v'])
            if self.r.random() < 0.5:
                kw['name'] = self.r.choice(['n', 'm'])
        return {'op': 'new', 't': t, 'f': f, 'kind': kind, 'kw': kw,
                'fails': self.r.choice(['', '', '', 'A', 'B', 'AB'])}

    def new(self, o):
        try:
            self.alive[o['f']] = self.make(o)
            return ''
        except Exception as e:
            return type(e).__name__

    def step(self, o):
        self.ops.append(o)
        try:
            if o['op'] == 'new':
                o['exc'] = 'hang'
                o['exc'] = self.ws[o['t']].call(lambda: self.new(o))
            else:
                self.result(o, self.ws[o['t']].call(lambda: self.call(o)))
        except Hang:
            if o['op'] == 'call':
                self.hang(o)
            raise

    def run(self, par):
        r = self.r
        for _ in range(r.randint(1, 3)):
            self.step(self.choose_new(r.choice(list(self.ws))))
        for _ in range(r.randint(5, 25)):
            x = r.random()
            t = r.choice(list(self.ws))
            if x < 0.1:
                self.step(self.choose_new(t))
            elif x < 0.2 and self.alive:
                f = r.choice(list(self.alive))
                self.ops.append({'op': 'drop', 'f': f})
                del self.alive[f]
                gc.collect() if r.random() < 0.1 else None
                if r.random() < 0.7:
                    self.step(self.choose_new(t))
            elif x < 0.25 and self.alive:
                f = r.choice(list(self.alive))
                old = next(o for o in self.ops if o['op'] == 'new' and o['f'] == f)
                if old['kind'] in ('class', 'func'):
                    new = dict(self.choose_new(t), kind=old['kind'], kw=old['kw'])
                    new['for'] = f
                    self.ops.append({'op': 'drop', 'f': f})
                    self.step(new)
                    for t in self.ws:
                        if new['f'] in self.alive:
                            self.step({'op': 'call', 't': t, 'f': new['f'], 'mode': '', 'want': new['f']})
            elif x < 0.3:
                self.ws.pop(t).stop()
                self.ops.append({'op': 'die', 't': t})
                self.thread()
            elif x < 0.5 and par:
                ts = r.sample(list(self.ws), r.choice([2, 2, 3]))
                same = self.choose_call(ts[0]) if r.random() < 0.6 else None
                os_ = [dict(same, t=t) if same else self.choose_call(t) if r.random() < 0.7 else self.choose_new(t)
                       for t in ts]
                il = Interleaver(r, FILES, switch=r.choice([0.2, 0.5, 0.8]))
                self.ops.extend(os_)
                try:
                    for o, y in zip(os_, il.run([(self.ws[o['t']], lambda o=o: self.new(o) if o['op'] == 'new' else
                                                  self.call(o)) for o in os_])):
                        if o['op'] == 'new':
                            o['exc'] = y
                        else:
                            self.result(o, y)
                except Hang:
                    for o in os_:
                        if o['op'] == 'new':
                            o['exc'] = 'hang'
                        else:
                            self.hang(o)
                    raise
            else:
                self.step(self.choose_call(t))

    def record(self):
        return {'ops': self.ops, 'threads': ['t%i' % (i + 1) for i in range(self.nt)], 'facts': self.facts + BUILTIN}


def histories(job):
    global WANT_T, WANT_P
    seed, n, par = job
    r = random.Random(seed)
    threading.stack_size(8 * 1024 * 1024)
    import DHParser.ebnf_flavors.heuristic
    from DHParser import ebnf
    WANT_T, WANT_P = type(ebnf.EBNFTransform()).__name__, type(ebnf.preprocessor_factory()).__name__
    res = []
    for _ in range(n):
        h = History(r)
        try:
            with contextlib.redirect_stdout(io.StringIO()):
                h.run(par)
        except Hang:
            res.append(h.record())
            return res
        res.append(h.record())
        for w in h.ws.values():
            w.stop()
    return res


def run(c):
    c.design('Factory')
    k = 8 if THOROUGH else 1
    jobs = [(c.rng.random(), 12, False) for _ in range(16 * k)] + [(c.rng.random(), 12, True) for _ in range(32 * k)]
    recs = [h for hs in pmap(histories, jobs, chunk=1) for h in hs]
    c.count('calls', sum(len(h['ops']) for h in recs))
    c.validate('FactoryTrace', recs)


main('C27', run, rule='all interleavings of atomic calls in the model; random histories of threads that begin and end '
     'and factories that come and go, with calls interleaved line by line')
