"""C10: well-formed grammars are accepted, mistakes are reported where they are - against EbnfStaticTrace.tla."""
import copy
import keyword
import random
import ebnflib as E
import peglib as L
from vlib import main, pmap, THOROUGH
from C09_ebnf import size

POOL = 'abc'
Z = lambda: E.tok('lit', cs='Z')
T = E.tok


def S(name): return T('sym', v=name)


def insert_at(ts, at, new): return ts[:at] + [dict(t) for t in new] + ts[at:]


def bodies(ts):
    """indices right after DEF (and a leading |)"""
    return [j + 1 + (j + 1 < len(ts) and ts[j + 1]['k'] == 'OR') for j, t in enumerate(ts) if t['k'] == 'DEF']


def names(ts): return [ts[j - 1]['v'] for j, t in enumerate(ts) if t['k'] == 'DEF' and j and ts[j - 1]['k'] == 'sym']


def starts(ts):
    """indices where definitions begin, and the end"""
    out = []
    for j, t in enumerate(ts):
        if t['k'] == 'DEF': out.append(j - 2 if j > 1 and ts[j - 2]['k'] == 'MOD' else j - 1)
    return out + [len(ts)]


BADRX = ['[a', '(a', 'a)', '+a', 'a{2}{3}*+?(', '(?P<x', '(?<=a*)b', '[b-a]', r'(?P=zz)', '(?z)', 'a**']
OPEN, CLOSE = '(', ')'


def mutate(rng, ts, unsure):
    """one mistake, or something that only looks like one"""
    ns = names(ts)
    if not ns or bodies(ts)[-1] > len(ts): return ts
    at = rng.choice(bodies(ts))
    put = lambda new: insert_at(ts, at, new)
    new_def = lambda name, body: [S(name), T('DEF')] + body
    front = starts(ts)
    k = rng.choice(['undefined', 'undefined', 'twice', 'loose', 'loose', 'badrx', 'badrx', 'keyword', 'dunder', 'optfirst', 'optsym', 'dup',
                    'samelit', 'nest', 'nestsym', 'ahead', 'repsym', 'cntsym', 'range', 'times0', 'behind', 'behindsym', 'retr', 'mandopt',
                    'delete', 'insert', 'circle', 'recursive', 'swap', 'fine', 'fine2', 'optlast', 'rename', 'loosepair'])
    if k in ('delete', 'insert', 'swap'): unsure.append(k)
    where = rng.choice(front[1:])
    opt = [T('['), Z(), T(']')] if rng.random() < .5 else [T('{'), Z(), T('}')] if rng.random() < .5 else [T('('), Z(), T(')'), T('?')] \
        if rng.random() < .5 else [T('('), Z(), T(')'), T('*')]
    if k == 'undefined': return put([S(rng.choice(['zz', 'zq_1', 'Undef']))])
    if k == 'twice':
        return insert_at(ts, where, new_def(rng.choice(ns), [Z()]))
    if k == 'loose': return insert_at(ts, where, new_def('zz', [rng.choice([Z(), S(rng.choice(ns))])] + [Z()]))
    if k == 'loosepair': return insert_at(insert_at(ts, where, new_def('zz', [Z(), S('zy')])), 0 + where, new_def('zy', [Z(), T('['), S('zz'), T(']')]))
    if k == 'badrx': return put([T('rx', v=rng.choice(BADRX))])
    if k in ('keyword', 'dunder', 'rename'):
        old = rng.choice(ns)
        new = rng.choice(['if', 'class', 'None', 'lambda', 'import', 'True']) if k == 'keyword' else \
            rng.choice(['__zz', 'zz__', '__zz__']) if k == 'dunder' else rng.choice(['iff', 'Class', 'zz_', '_zz', 'z__z', 'none'])
        return [dict(t, v=new) if t['k'] == 'sym' and t['v'] == old else t for t in ts]
    if k == 'optfirst': return put(opt + [T('OR')])
    if k == 'optlast': return put([Z(), T('OR'), T('('), Z(), Z(), T(')'), T('OR')]) if rng.random() < .5 else put([Z(), T('OR')])
    if k == 'optsym': return insert_at(put([S('zz'), T('OR')]), len(ts) + 2, new_def('zz', opt))
    if k == 'dup': return insert_at(put([S('zz'), T('OR'), S('zz'), T('OR')]), len(ts) + 4, new_def('zz', [Z()]))
    if k == 'samelit': return put([Z(), T('OR'), Z(), T('OR')])
    if k == 'nest': return put(rng.choice([[T('{')] + opt[:3] + [T('}')], [T('[')] + opt[:3] + [T(']')], [T('{')] + opt[:3] + [T('}+')]]))
    if k == 'nestsym': return insert_at(put([T('{'), S('zz'), T('}')]), len(ts) + 3, new_def('zz', opt))
    if k == 'ahead': return insert_at(put([T(rng.choice(['&', '!'])), S('zz')]), len(ts) + 2, new_def('zz', opt))
    if k == 'repsym': return insert_at(put(rng.choice([[T('{'), S('zz'), T('}+')], [S('zz'), T('+')]])), 0, []) + new_def('zz', opt)
    if k == 'cntsym': return put([S('zz'), T('RNG', min=2, max=rng.choice([2, 3]))]) + new_def('zz', opt)
    if k == 'range': return put([Z(), T('RNG', **dict(zip(('min', 'max'), rng.choice([(3, 2), (0, 0), (4, 3), (2, 3), (9, 10), (9, 12), (10, 9), (12, 2), (2, 12), (100, 20)]))))])
    if k == 'times0': return put(rng.choice([[Z(), T('TIMES'), T('num', n=0)], [T('num', n=0), T('TIMES'), Z()], [Z(), T('RNG', min=0, max=0)]]))
    if k == 'behind': return put([T(rng.choice(['<-&', '<-!'])), rng.choice([Z(), T('ptext', cs='Z'), T('rx', cs='Z', min=1, max=1)])])
    if k == 'behindsym': return put([T(rng.choice(['<-&', '<-!'])), S('zz')]) + new_def(
        'zz', rng.choice([[Z()], [Z(), Z()], [T('rx', cs='Z', min=1, max=1)], [Z(), T('OR'), Z()], [T('ptext', cs='Z'), Z()], [T('{'), Z(), T('}')]]))
    if k == 'retr': return put([T(rng.choice([':', '::', ':?'])), S(rng.choice(['zz', 'zz']))])
    if k == 'mandopt': return put([T('['), T('MAND'), Z(), Z(), T(']')])
    if k == 'circle':
        chain = rng.choice([['zz'], ['zz', 'zy'], ['zz', 'zy', 'zx']])
        out = put([S('zz')])
        for a, b in zip(chain, chain[1:] + chain[:1]):
            out = out + new_def(a, rng.choice([[S(b)], [T('('), S(b), T(')')]]))
        return out
    if k == 'recursive': return put([S('zz')]) + new_def('zz', [Z(), T('OR'), T('ptext', cs='Y'), S('zz')])
    if k == 'delete':
        j = rng.randrange(len(ts))
        return ts[:j] + ts[j + 1:]
    if k == 'insert':
        return insert_at(ts, rng.randrange(len(ts)), [T(rng.choice(['(', ')', '[', ']', '{', '}', 'OR', 'DEF', 'INTER', '&', 'MINUS', '+']))])
    if k == 'swap':
        j = rng.randrange(len(ts) - 1)
        return ts[:j] + [ts[j + 1], ts[j]] + ts[j + 2:]
    if k == 'fine': return put([T('['), Z(), T(']')]) if rng.random() < .5 else put([T('{'), Z(), T('ptext', cs='Y'), T('}+')])
    return ts


WORDS = dict(literalws=['left', 'right', 'both', 'none'], reduction=['none', 'flatten', 'merge_treetops', 'merge_leaves', 'merge'],
             whitespace=['horizontal', 'linefeed', 'vertical'])


def directive(rng, ns, syms):
    """-> dict(name, suf, pre, sym, args, text parts)"""
    kind = rng.choice(['unknown', 'literalws', 'reduction', 'whitespace', 'wsrx', 'comment', 'hide', 'hiderx', 'suffix', 'suffix', 'suffix', 'prefix',
                       'ignorecase', 'comment2', 'hidemix', 'drop', 'literalws2', 'optimizations', 'badmsg'])
    word = lambda w: dict(k='word', v=w, empty=False)
    rx = lambda s, empty=False: dict(k='rx', v=s, empty=empty)
    bad = lambda: dict(k='badrx', v=rng.choice(BADRX), empty=False)
    d = dict(name=kind, suf='', pre=False, sym='')
    if kind == 'unknown': return dict(d, name=rng.choice(['foo', 'Whitespace', 'comments', 'whitespaces', 'skipp']), args=[word('x')])
    if kind in ('literalws', 'reduction', 'whitespace'):
        return dict(d, args=[word(rng.choice(WORDS[kind] + ['wrong', 'west']))])
    if kind == 'wsrx': return dict(d, name='whitespace', args=[rng.choice([rx('[ ]*', True), rx('[ \\t]*', True), rx(' +'), rx('(?: |\\n)'), bad()])])
    if kind == 'comment': return dict(d, args=[rng.choice([rx('#[^\\n]*'), bad()])])
    if kind == 'comment2': return dict(d, name=rng.choice(['comment', 'whitespace', 'ignorecase']), args=[word('horizontal'), word('horizontal')])
    if kind == 'ignorecase': return dict(d, args=[word(rng.choice(['True', 'False']))])
    if kind == 'hide': return dict(d, name=rng.choice(['hide', 'disposable']), args=[word(rng.choice(syms + ['zz'])) for _ in range(rng.choice([1, 2]))])
    if kind == 'hiderx': return dict(d, name=rng.choice(['hide', 'disposable']), args=[rng.choice([rx('_\\w+'), rx('\\w*', True), rx('(?:Q)?', True), bad()])])
    if kind == 'hidemix':
        some = [word(rng.choice(syms)), rx('_\\w+'), word(rng.choice(syms)), dict(k='lit', v='Q', empty=False)]
        return dict(d, name=rng.choice(['hide', 'disposable']), args=rng.sample(some, rng.choice([2, 2, 3])))
    if kind == 'drop': return dict(d, args=[word(w) for w in rng.sample(['whitespace', 'strings', 'backticked', 'Strings', 'wrong', 'string'], rng.choice([1, 2]))])
    if kind == 'literalws2': return dict(d, name='literalws', args=[word(w) for w in rng.sample(['left', 'right', 'none', 'both', 'wrong'], 2)])
    if kind == 'optimizations':
        return dict(d, args=[word(w) for w in rng.sample(['none', 'all', 'literal', 'lookahead', 'alternative', 'sequence', 'wrong'], rng.choice([1, 1, 2]))])
    if kind == 'badmsg':
        some = [[rx('[Q]')], [rx('[Q]'), rx('[Q]')], [rx('[Q]'), dict(k='lit', v='wrong', empty=False), dict(k='lit', v='other', empty=False)]]
        sym = rng.choice(syms)
        return dict(d, name=sym + '_error', suf='error', sym=sym, args=rng.choice(some))
    suf = rng.choice(['skip', 'resume', 'error'])
    sym = rng.choice(syms + ['zz'])
    args = [rx('[Q]') if rng.random() < .7 else bad()]
    if suf == 'error': args.append(dict(k='lit', v="wrong", empty=False))
    if kind == 'prefix': return dict(d, name=suf + '_' + sym, suf=suf, pre=True, sym=sym, args=args)
    return dict(d, name=sym + '_' + suf, suf=suf, sym=sym, args=args)


def dirs_text(rng, ds):
    out, pos = [], 0
    for d in ds:
        lead = rng.choice(['@ ', '@'])
        d['p'] = pos
        s = lead + d['name'] + rng.choice([' = ', '='])
        for j, a in enumerate(d['args']):
            if j: s += ', '
            a['p'] = pos + len(s)
            s += a['v'] if a['k'] == 'word' else '"%s"' % a['v'] if a['k'] == 'lit' else '/' + a['v'] + '/'
        s += '\n'
        out.append(s)
        pos += len(s)
    return ''.join(out)


def case(job):
    seed, o = job
    rng = random.Random(seed)
    dl = dict(E.DHPARSER)
    caps = rng.random() < .1
    g = E.EGen(rng, POOL, nsym=rng.choice([1, 2, 3, 4]), depth=rng.choice([1, 1, 2, 2, 3]), caps=caps, mand=.15 if not o.get('dirs') else .6,
               look=.1, inter=.08).grammar()
    if sum(map(size, g.defs.values())) > 26: return None
    hide = [s for s in g.names[1:] if rng.random() < .15]
    ts = E.Spell(rng, dl).grammar(g, hide)
    unsure = []
    for _ in range(o['n']): ts = mutate(rng, ts, unsure)
    if any(a['k'] == '*' and b['k'] in ('num', 'set') for a, b in zip(ts, ts[1:])): return None
    ds = []
    for _ in range(o.get('dirs', 0)): ds.append(directive(rng, g.names, names(ts) or ['zz']))
    ds = [d for j, d in enumerate(ds) if d['name'] != 'drop' or not any(e['name'] == 'drop' for e in ds[:j])]
    text = dirs_text(rng, ds)
    ts = [dict(t) for t in ts]
    try:
        src = E.Printer(rng, dl, .1).text(ts, text + '\n')
    except E.Unspellable:
        return None
    return dict(ts=E.spec_t(ts), dirs=ds, keywords=keyword.kwlist, badnames=[s for s in set(names(ts)) | {t['v'] for t in ts if t['k'] == 'sym'}
                                                                           if s.startswith('__') or s.endswith('__')],
                sure=not unsure, src=src, **observe(src))


def observe(src):
    from DHParser import ebnf
    o = dict(msgs=[], crash='', parser=False)
    try:
        with L.limit(20):
            r = ebnf.compile_ebnf(src)
        o['msgs'] = [[int(e.code), int(e.pos)] for e in r.messages]
        o['texts'] = [str(e)[:160] for e in r.messages]
        o['parser'] = bool(r.result)
    except L.Timeout:
        o['crash'] = 'TIMEOUT'
    except Exception as e:
        o['crash'] = type(e).__name__ + ': ' + str(e)[:200]
    return o


def run(c):
    k = 10 if THOROUGH else 1
    jobs = [(f'{c.rng.random()}', dict(n=0)) for _ in range(900 * k)]
    jobs += [(f'{c.rng.random()}', dict(n=1)) for _ in range(2600 * k)]
    jobs += [(f'{c.rng.random()}', dict(n=2)) for _ in range(900 * k)]
    jobs += [(f'{c.rng.random()}', dict(n=0, dirs=1 + j % 3)) for j in range(900 * k)]
    recs = [r for r in pmap(case, jobs) if r]
    for r in recs: c.count('with_errors' if any(m[0] >= 1000 for m in r['msgs']) else 'accepted')
    c.validate('EbnfStaticTrace', recs)


if __name__ == '__main__':
    main('C10', run, rule='random well-formed EBNF grammars with up to two mistakes put in, and with right and wrong directives')
