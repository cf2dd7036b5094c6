"""The two bindings of spec/Peg.tla to the real parsers."""
import random
import peglib as L
from vlib import pmap, THOROUGH


# ---- code -> spec: random grammars run for real, judged by TLC (PegTrace)

def record(job):
    seed, opts, ntexts = job
    rng = random.Random(seed)
    o = dict(opts)
    hook = o.pop('_gen', None)
    maxcost = o.pop('_cost', 0)
    nodrop = o.pop('_nodrop', False)
    depth = o.pop('_depth', (2, 3))
    maxn = o.pop('_maxn', 22)
    al = o.pop('_alphabet', L.LETTERS)
    maxlen = o.pop('_maxlen', 9)
    dropouts = o.pop('_dropouts', 0)
    for _ in range(30):
        kw = {k: (v(rng) if callable(v) else rng.choice(v) if isinstance(v, (list, tuple)) else v)
              for k, v in o.items()}
        gen = L.Gen(rng, alphabet=al, **kw)
        g = hook(gen, rng) if hook else gen.grammar(rng.randint(*depth))
        if g and L.admissible(g) and len(g.N) <= maxn and not (
                nodrop and (g.drops() or g.skipping_smart())):
            break
    else:
        return []
    while maxcost and maxlen > 2 and cost(g, maxlen) > maxcost:
        maxlen -= 1
    gr = L.build(g)
    if dropouts:        # how often parsing is taken up again after it has stopped
        gr.max_parser_dropouts__ = rng.randint(1, dropouts)
    return [rec(g, gr, t) for t in L.texts_for(g, rng, ntexts, maxlen, al)]


def rec(g, gr, t):
    return {'g': g.spec(t), 'o': L.observe(gr, t),
            'exactpos': not g.drops() and not g.skipping_smart(),
            'exacterr': not g.has('nla', 'nlb')}


def random_check(c, mode, n, opts, ntexts=3, module='PegTrace', **kw):
    jobs = [(f'{c.rng.random()}', opts, ntexts) for _ in range(n)]
    recs = [r for rs in pmap(record, jobs) for r in rs]
    for r in recs:
        c.count('runs_' + r['o']['kind'])
    c.validate(module, recs, env={'MODE': mode}, **kw)
    return recs


# ---- spec -> code: every grammar of a bounded shape, expected outcomes from TLC

def from_nodes(N, lv):
    g = L.G(lv)
    for r in N:
        r = dict(r)
        if not r['an']:
            r['pn'] = r['nm']
        g.N.append(r)
    g.start = 1
    return g


def replay_enum(beh):
    g = from_nodes(beh['N'], beh['lv'])
    gr = L.build(g)
    exacterr = not g.has('nla', 'nlb')
    bad = []
    for e in beh['r']:
        o = L.observe(gr, ''.join(e['x']))
        why = set()
        if o['exc']:
            why.add('no-exception')
        else:
            if o['kind'] != e['kind']: why.add('match-kind')
            elif o['end'] != e['end']: why.add('match-end')
            if strip(o['tree'], False) != strip(e['tree'], False): why.add('tree')
            elif strip(o['tree'], True) != strip(e['tree'], True): why.add('positions')
            oe, ee = {tuple(x) for x in o['errs']}, {tuple(x) for x in e['errs']}
            if bool(oe) != bool(ee) or (exacterr and oe != ee): why.add('errors')
            if ''.join(o['content']) != ''.join(e['x']): why.add('content')
        if why:
            bad.append((sorted(why), e, o))
    return len(beh['r']), bad


def strip(t, pos):
    d = {'n': t['n'], 'c': [strip(x, pos) for x in t['c']], 't': list(t['t'])}
    if pos:
        d['p'] = t['p']
    return d


CLAUSES = {'recognition': {'no-exception', 'match-kind', 'match-end'},
           'tree': {'tree', 'positions'}, 'errors': {'errors'},
           'content': {'content', 'no-exception'}}


def enum_check(c, mode, slices, nslices=16, levels=(1,)):
    envs = [{'SLICES': str(nslices), 'SLICE': str(s), 'LEVEL': str(levels[k % len(levels)])}
            for k, s in enumerate(slices)]
    behs = c.generate_many('PegEnum', envs)
    wanted = CLAUSES[mode]
    for (n, bad), beh in zip(pmap(replay_enum, behs), behs):
        c.traces += n
        c.count('replayed_runs', n)
        for why, e, o in bad:
            w = sorted(set(why) & wanted)
            if w:
                c.violation('PegEnum:' + ','.join(w),
                            {'grammar': beh['N'], 'level': beh['lv'], 'text': ''.join(e['x']),
                             'expected': e, 'observed': o})
    c.count('enumerated_grammars', len(behs))


# ---- families of (left-)recursive grammars

def left_edges(g, i):
    r = g.N[i - 1]
    if r['op'] == 'seq':
        out = []
        for a in r['as']:
            out.append(a)
            if not L.nullable(g, a):
                break
        return out
    return list(r['as'])


def single_cycles(g):
    """The supported kind of left recursion: no two forward-parsers left-recursive through each
    other ("interwoven left recursion", documented as unsupported)"""
    reach = {}
    for i in range(1, len(g.N) + 1):
        seen, todo = set(), list(left_edges(g, i))
        while todo:
            k = todo.pop()
            if k not in seen:
                seen.add(k)
                todo.extend(left_edges(g, k))
        reach[i] = seen
    fw = [i for i, r in enumerate(g.N, 1) if r['op'] == 'fwd']
    if any(a != b and b in reach[a] and a in reach[b] for a in fw for b in fw):
        return False
    # no left-recursive cycle without a forward, and no left recursion below a repetition ...
    return all(i not in reach[i] or any(f in reach[i] and i in reach[f] for f in fw)
               for i in reach)


def lr_grammar(gen, rng):
    """Symbols defined as alternatives of sequences that may begin with any symbol; like in
    generated code, symbols used before they are defined are forward-parsers."""
    g = gen.g
    n = rng.choice([1, 2, 2, 3, 3, 4])
    fw, defd = {}, {}

    def ref(j):
        if j in fw:
            return fw[j]
        if j in defd:
            return defd[j]
        fw[j] = g.add('fwd', [0])
        return fw[j]

    def item(first):
        k = rng.random()
        if k < (0.6 if first else 0.2):
            return ref(rng.randrange(n))
        if k < 0.85:
            return g.text(rng.choice(['a', 'b', 'c', 'ab', '+']))
        if k < 0.93:
            i = g.rx(rng.sample('abc', 2), 1, rng.choice([1, -1]))
            gen.nn += 1
            return g.name(i, 'w%d' % gen.nn) if rng.random() < 0.5 else i
        return g.add('opt', [g.text(rng.choice('ab+'))])
    for j in range(n):
        alts = []
        for _ in range(rng.randint(1, 3)):
            its = [item(k == 0) for k in range(rng.randint(1, 3))]
            if len(its) == 1:
                alts.append(its[0])
            else:
                i = g.add('seq', its, mand=L.NO_MAND)
                if rng.random() < 0.3:
                    gen.nn += 1
                    g.name(i, 'q%d' % gen.nn)
                alts.append(i)
        alts.insert(rng.randint(0, len(alts)), g.text(rng.choice('abc')))
        if rng.random() < 0.6:      # usual order: recursive alternatives first
            alts.sort(key=lambda i: g.node(i)['op'] == 'text')
        a = g.add('alt', alts)
        g.name(a, 'r%d' % j, disposable=rng.random() < 0.15)
        defd[j] = a
        if j in fw:
            g.node(fw[j])['as'] = [a]
    for j in fw:
        if j not in defd:
            return None
    r0, r1 = ref(n - 1), ref(rng.randrange(n))
    k = rng.random()
    if k < 0.4:
        top = g.add('seq', [r0, rng.choice([g.text('b'), g.add('opt', [r1])])], mand=L.NO_MAND)
    elif k < 0.6:
        top = g.add('alt', [g.add('seq', [r0, g.text('c')], mand=L.NO_MAND), r1])
    else:
        top = g.add('syn', [r0])
    g.name(top, 'root')
    if gen.o['mand']:       # mandatory items behind the first one, resume- and skip-rules
        for r in g.N:
            if r['op'] == 'seq' and gen.p('mand'):
                r['mand'] = rng.randint(1, max(1, len(r['as']) - 1))
    g.finish(top)
    if gen.o['rules']:
        gen.add_rules()     # resuming inside a recursion is not specified
        g.resume = {k: v for k, v in g.resume.items() if k == 'root'}
    if not g.has("fwd") or not single_cycles(g) or not is_left_recursive(g):
        return None
    return g


def is_left_recursive(g):
    for i, r in enumerate(g.N, 1):
        if r['op'] == 'fwd':
            seen, todo = set(), list(left_edges(g, i))
            while todo:
                k = todo.pop()
                if k == i:
                    return True
                if k not in seen:
                    seen.add(k)
                    todo.extend(left_edges(g, k))
    return False


def cost(g, L_):
    """Upper bound for the steps of an evaluation without memoization (as in the specification)"""
    import functools

    @functools.lru_cache(None)
    def c(i, n, act):
        r = g.N[i - 1]
        if n < 0:
            return 0
        if r['op'] == 'fwd':
            if i in act:
                return 1
            return 1 + (n / 2 + 1) * c(r['as'][0], n, act | {i})
        if r['op'] == 'seq':
            t, m, a2 = 1, n, act
            for a in r['as']:
                t += c(a, m, a2)
                if not L.nullable(g, a):
                    m, a2 = m - 1, frozenset()
            return t
        return 1 + sum(c(a, n, act) for a in r['as'])
    return c(g.start, L_, frozenset())


def wide_grammar(gen, rng): return gen.wide()


# ---- context-sensitive grammars

def cap_grammar(gen, rng):
    """Captures, retrieves and pops anywhere in a random non-recursive expression."""
    g = gen.g
    nv = rng.choice([1, 1, 2])
    caps = []
    for v in range(nv):
        k = rng.random()
        if k < 0.6:
            a = g.rx(rng.choice(['a', 'ab', 'ab', 'abc']), 1, rng.choice([1, -1, 2]))
        elif k < 0.8:
            a = g.add('alt', [g.text('ab'), g.text('a')])
        else:
            a = g.rx('([<', 1, -1)
        c = g.add('cap', [a], var='v%d' % v)
        g.name(c, 'v%d' % v)
        caps.append((c, 'v%d' % v, k >= 0.8))

    def use(kind):
        c, v, br = rng.choice(caps)
        if kind == 'cap':
            return c
        m = 'bracket' if br else 'last'
        i = g.add(kind, [c], var=v, rnm=v, match=m)
        if rng.random() < 0.15:
            gen.nn += 1
            g.name(i, 'u%d' % gen.nn)
            g.node(i)['rnm'] = 'u%d' % gen.nn
        elif rng.random() < 0.05:
            g.node(i)['dr'] = True
        return i

    def leaf():
        k = rng.random()
        if k < 0.3: return use('cap')
        if k < 0.45: return use('ret')
        if k < 0.65: return use('pop')
        return gen.leaf(True) if k < 0.75 else g.text(rng.choice(['x', 'y', 'a', 'b']))

    def expr(d, nonempty=False):
        if d <= 0:
            return leaf()
        k = rng.random()
        if k < 0.45:
            i = g.add('seq', [expr(d - 1, nonempty) for _ in range(rng.randint(2, 3))], mand=L.NO_MAND)
        elif k < 0.7:
            i = g.add('alt', [expr(d - 1, nonempty) for _ in range(rng.randint(2, 3))])
        elif k < 0.8 and not nonempty:
            i = g.add('opt', [expr(d - 1)])
        elif k < 0.92:
            lo, hi = rng.choice([(0, -1), (1, -1), (1, 2), (2, 3)])
            body = expr(d - 1, True)
            if hi > 1 and any(n['op'] in ('pop', 'ret') for n in g.N):
                # an exhausted pop matches nothing, and repetitions that count must not be nullable
                body = g.add('seq', [g.text(rng.choice('xyab')), body], mand=L.NO_MAND)
            i = g.add('rep', [body], lo=max(lo, 1) if nonempty else lo, hi=hi)
        elif k < 0.95 and not nonempty:
            i = g.add(rng.choice(['la', 'nla']), [expr(d - 1)])
        else:
            return leaf()
        if rng.random() < 0.25:
            gen.nn += 1
            g.name(i, 's%d' % gen.nn)
        return i
    items = [expr(rng.randint(1, 2)) for _ in range(rng.randint(2, 4))]
    if rng.random() < 0.5:
        items.insert(0, use('cap'))
    for _ in range(rng.choice([0, 1, 1, 2])):
        items.append(use('pop'))
    top = g.add('seq', items, mand=L.NO_MAND)
    if rng.random() < 0.1:      # optional pop, with nothing behind that might backtrack over it
        c, v, br = rng.choice(caps)
        top = g.add('seq', [top, g.add('pop', [c], var=v, rnm=v, match='optional')], mand=L.NO_MAND)
    g.name(top, 'root')
    g.finish(top)
    if not g.has('cap'):
        return None
    return g
