"""C11: EBNF directives change the parser exactly as documented."""
import random
import ebnflib as E
import peglib as L
from vlib import main, pmap, THOROUGH

POOLS = ['abc', 'abx', 'aBc', 'AbC', 'aAb', 'abX', 'ab+', 'a.b', 'xYz', 'aÄb', 'ab(', 'a()', 'ab"', 'aBA', 'a1B', 'a/']


def marked(e):
    """the sequences and interleaves with a mandatory marker"""
    return ([e] if e.mand is not None else []) + [m for x in e.a for m in marked(x)]


def unmark(e):
    e.mand = None
    for x in e.a: unmark(x)


def drop_some(rng, e, depth=0):
    """marks some parts with -> DROP"""
    for j, x in enumerate(e.a):
        if e.o in ('&', '!', '<-&', '<-!', 'inter', 'opt', 'rep0', 'rep1', 'cnt', 'grp', 'drop') or (e.o == 'diff' and j == 0):
            drop_some(rng, x, depth + 1) if e.o not in ('&', '!', '<-&', '<-!', 'inter', 'drop', 'diff') else None
        elif rng.random() < 0.2 and x.o not in ('&', '!', '<-&', '<-!', 'diff', 'inter', 'ws', 'drop') and not marked(x) \
                and not (x.o == 'opt' and e.o == 'alt'):
            e.a[j] = E.N('drop', x)
        else:
            drop_some(rng, x, depth + 1)


def inner(e): return inner(e.a[0]) if e.o == 'grp' else e


def calm_expr(rng, gen, names):
    """an expression that is a rule"""
    e = gen.expr(rng.choice([0, 1, 1]), len(gen.names))
    unmark(e)
    if names and rng.random() < 0.4 and not any(x.o == 'alt' for x in below(e)):
        leaves = [(x, j) for x in below(e) for j, y in enumerate(x.a) if y.o in ('lit', 'ptext', 'rx') and x.o not in ('<-&', '<-!')]
        if leaves:
            x, j = rng.choice(leaves)
            x.a[j] = E.leaf('sym', v=rng.choice(names))
        elif not e.a: e = E.leaf('sym', v=rng.choice(names))
    return e


def below(e): return [e] + [y for x in e.a for y in below(x)]


def rule(rng, pool, names, parsers=True, gen=None):
    k = rng.random()
    if parsers and gen and rng.random() < 0.25: return ('e', calm_expr(rng, gen, names))
    if k < 0.4: return ('s', ''.join(rng.choice(pool) for _ in range(rng.choice([1, 1, 2]))))
    if k < 0.6: return ('r', ''.join(sorted(set(rng.choice(pool) for _ in range(2)))))
    if k < 0.85 or not names or not parsers:
        w = ''.join(c for c in (rng.choice(pool) for _ in range(rng.choice([1, 1, 2]))) if c not in '"\'\\')
        return ('a', w or pool[0])
    return ('p', rng.choice(names))


class Obs(dict):
    pass


def observe(gr, t):
    o = L.observe(gr, t)
    o['msgs'], o['nl'] = [], int('\n' in t)
    try:
        if not o['exc']:
            o['msgs'] = [dict(code=int(e.code), msg=e.message) for e in gr.tree__.errors if 1100 <= e.code < 1200]
    except Exception as e:
        o['exc'] = 'messages: ' + type(e).__name__
    return o


def case(job):
    seed, o = job
    rng = random.Random(seed)
    dl = dict(E.DHPARSER, noise=0.1)
    pool = rng.choice(POOLS)
    d = dict(ws=rng.choice([' ', ' ', ' \n', 'horizontal', 'vertical', 'linefeed', 'linestart']),
             lit=rng.choice([('right',), ('right',), ('left',), ('left', 'right'), ('both',), ()]),
             reduction=rng.choice([None, 'none', 'flatten', 'merge_treetops', 'merge_leaves', 'merge']))
    if rng.random() < 0.35:
        d['comment'] = rng.choice(['<>', '##', '{}', '/;'])
        if '/' in d['comment'] and False: pass
    if rng.random() < 0.3: d['ic'] = rng.choice(['True', 'yes', 'on'])
    elif rng.random() < 0.1: d['ic'] = rng.choice(['False', 'no', 'off'])
    if o.get('opt'):
        d['opt'] = rng.choice([['all'], ['literal'], ['some']])
    mand = o.get('mand', 0)
    gen = E.EGen(rng, pool, nsym=rng.choice([2, 3, 3, 4, 5]), depth=rng.choice([1, 2, 2]), mand=mand, look=0.08,
                 inter=0.08, opt=bool(o.get('opt')), lit=d['lit'])
    g = gen.grammar()
    if sum(map(size, g.defs.values())) > 26: return None
    root = g.names[0]
    names = [s for s in g.names if s != root]
    # hiding and dropping
    hide = [s for s in names if rng.random() < o.get('hide', 0.25) * (2 if set(names) <= set(E.KIN) else 1)]
    anno = [s for s in hide if rng.random() < 0.5]
    byd = [s for s in hide if s not in anno]
    drop = [s for s in hide if rng.random() < 0.35]
    classes = [x for x in ('strings', 'backticked', 'whitespace', 'regexps', 'no_comments') if rng.random() < o.get('drop', 0.2)]
    if 'no_comments' in classes and rng.random() < 0.5 and d.get('comment'):
        classes.remove('no_comments')
        d['dropkeep'] = ['no_comments']
    if o.get('opt') and (drop or set(classes) & {'no_comments'} or d.get('dropkeep')): return None
    # synonyms of dropped symbols are refused; optimizations keep a single item next to whitespace
    if any(inner(g.defs[s]).o == 'sym' and inner(g.defs[s]).v in drop for s in g.names): return None
    if o.get('opt') and classes and any(e.o == 'seq' and sum(x.o != 'ws' for x in e.a) < 2 for s in g.names
                                        for e in [inner(g.defs[s])]): return None
    d['hide'], d['hiderx'] = byd, rng.random() < 0.3
    d['drop'] = [s for s in drop if s in byd] + classes
    rng.shuffle(d['drop'])
    if o.get('drop') and not o.get('opt'):
        for s in g.names: drop_some(rng, g.defs[s])
    if 'regexps' in classes and any(e.o == 'seq' and [x.o for x in e.a if x.o != 'ws'] == ['drop'] for s in g.names
                                    for e in [inner(g.defs[s])]): return None
    # rules for errors
    if mand:
        d.update(skip={}, resume={}, error={})
        code = 1100
        # symbols as rules: those that do not need any rules themselves
        calm = [s for s in names if not any(marked(g.defs[x]) for x in E.refs_deep(g, s) | {s})]
        for s in g.names:
            ms = marked(g.defs[s])
            for m in ms[1:]: m.mand = None
            if ms and ms[0].mand == 0: ms[0].mand = None
            elif ms:
                if rng.random() < 0.5: d['skip'][s] = [rule(rng, pool, calm, True, gen) for _ in range(rng.choice([1, 1, 2]))]
                if rng.random() < 0.5:
                    rs = []
                    for _ in range(rng.choice([1, 2, 2, 3])):
                        code += 1
                        r = rule(rng, pool, calm, False) if rng.random() < 0.8 else ('s', '')
                        rs.append((r if r[0] != 'a' else ('s', r[1]), code, rng.choice(['wrong', 'not so good!', 'ä: no']) + ' %d' % code))
                    d['error'][s] = rs
            if rng.random() < 0.35: d['resume'][s] = [rule(rng, pool, calm, True, gen) for _ in range(rng.choice([1, 1, 2]))]
    lit = ('left', 'right') if 'both' in d['lit'] else d['lit']
    top = {s: any(E.N is not None and x in ('grp',) for x in [g.defs[s].o]) for s in g.names}
    ts = E.Spell(rng, dl, paren=0.12).grammar(g, anno, [s for s in drop if s in anno])
    # expressions as rules: symbols of their own, in the specification
    more, arts = [], []
    for key in ('skip', 'resume'):
        for s, rs in d.get(key, {}).items():
            for j, r in enumerate(rs):
                if r[0] != 'e': continue
                et = E.Spell(rng, dl, paren=0.12).fine(r[1])
                try: text = E.Printer(rng, dl, 0).text([dict(t) for t in et], '').strip()
                except E.Unspellable: return None
                arts.append('%s_%s_%d__' % (s, key, j))
                more += [E.tok('sym', v=arts[-1]), E.tok('DEF')] + et + ([E.tok('ENDL')] if dl['ENDL'] else [])
                rs[j] = ('p', arts[-1], text)
    try:
        src = E.Printer(rng, dl, 0.1).text(ts, E.head(rng, dl, d))
    except E.Unspellable:
        return None
    ws = E.WS.get(d['ws'], d['ws'])[:2] + ('\n' if d['ws'] in ('linefeed', 'linestart', 'vertical') else '')
    txt = E.texts(g, rng, o.get('n', 4), 9, pool + ws + (d.get('comment') or ''), ws, lit, d.get('comment'))
    if d.get('ic') in ('True', 'yes', 'on'):
        txt = [''.join(c.swapcase() if rng.random() < .4 and len(c.swapcase()) == 1 else c for c in t) for t in txt]
    gr, errs, exc = E.compile_ebnf(src, dl, static='none')
    sd = E.spec_d(d)
    sd['lit'], sd['ic'] = list(lit), d.get('ic') in ('True', 'yes', 'on')
    sd['arts'] = arts
    return dict(t=E.spec_t(ts + more), d=sd, lr=g.lr, opt=bool(o.get('opt')), exact=not o.get('opt'), exc=exc, src=src, msgs=errs,
                runs=[dict(x=list(t), o=observe(gr, t)) for t in txt] if gr else [])


def size(e): return 1 + sum(map(size, e.a))


def run(c):
    k = 16 if THOROUGH else 2
    jobs = [(f'{c.rng.random()}', dict(hide=0.3, drop=0)) for _ in range(700 * k)]
    jobs += [(f'{c.rng.random()}', dict(hide=0.3, drop=0.25)) for _ in range(900 * k)]
    jobs += [(f'{c.rng.random()}', dict(mand=0.6, hide=0.1, drop=0, n=6)) for _ in range(900 * k)]
    jobs += [(f'{c.rng.random()}', dict(opt=True, hide=0.2, drop=0.2)) for _ in range(600 * k)]
    recs = [r for r in pmap(case, jobs) if r]
    for r in recs:
        c.count('compiled' if not r['exc'] else 'refused')
        for x in r['runs']: c.count('runs_' + x['o']['kind'])
    c.validate('EbnfTrace', recs)


if __name__ == '__main__':
    main('C11', run, rule='random well-formed grammars (ranges of all constructs) with randomly '
         'chosen directives, run on texts derived from the grammar and mutations of these')
