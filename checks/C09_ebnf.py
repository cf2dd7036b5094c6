"""C09: an EBNF grammar compiles to the parser its text describes."""
import random
import ebnflib as E
import peglib as L
from vlib import main, pmap, THOROUGH

CONF = dict(E.DHPARSER, name='configurable')


def configurable(rng):
    """a random consistent set of delimiters"""
    DEF = rng.choice(['=', ':=', '::=', '<-'])
    rng_ = rng.choice([('{', '}', ','), ('(', ')', ','), ('{', '}', ':'), ('<', '>', ',')])
    lead = rng.choice([('/', '/', E_CORE), ('%', '%', r'(?:(?<!\\)\\(?:%)|[^%])*')])
    OR = rng.choice(['|', '/'] if lead[0] == '%' and rng_[0] != '(' else ['|'])
    AND = rng.choice(['', '', ',']) if rng_[2] != ',' or True else ''
    ENDL = rng.choice(['', ';', '.']) if AND == '' or True else ';'
    if ENDL == '.': ENDL = ';'
    TIMES = rng.choice(['*', '×'])
    CH = rng.choice(['0x', '#x', '%x' if lead[0] != '%' else '&x'])
    return dict(E.DHPARSER, name='configurable', DEF=DEF, OR=OR, AND=AND, ENDL=ENDL, RNG_OPEN=rng_[0],
                RNG_CLOSE=rng_[1], RNG_DELIM=rng_[2], TIMES=TIMES, LEADIN=lead[0], LEADOUT=lead[1], CH=CH,
                comments=CH != '#x',
                config={'syntax_variant': 'configurable', 'delimiter_set': dict(
                    DEF=DEF, OR=OR, AND=AND, ENDL=ENDL, RNG_OPEN=rng_[0], RNG_CLOSE=rng_[1], RNG_DELIM=rng_[2],
                    TIMES=TIMES, RE_LEADIN=lead[0], RE_LEADOUT=lead[1], RE_CORE=lead[2], CH_LEADIN=CH)})


E_CORE = r'(?:(?<!\\)\\(?:/)|[^/])*'


def heuristic(rng):
    rng_ = rng.choice([('{', '}', ','), ('(', ')', ',')])
    AND = ''
    return dict(E.DHPARSER, name='heuristic', DEF=rng.choice(['=', ':=', '::=', '<-']),
                AND=AND, ENDL=rng.choice(['', ';']),
                RNG_OPEN=rng_[0], RNG_CLOSE=rng_[1], CH=rng.choice(['0x', '#x', '%x']),
                flavor='heuristic', comments=True, free=False,
                config=None if rng.random() < 0.5 else {'syntax_variant': 'heuristic'})


POOLS = ['abc', 'abx', 'ab+', 'a.b', 'a(b', 'a*b', 'ab{', 'a}b', 'a|b', "a'b", 'a"b', 'a\\b', 'a[b', 'a]b', 'a/b', 'a^b', 'a-b',
         'a$b', 'aäb', 'a€b', 'a#b', 'a\tb', 'a:b', 'a=b', 'aAb', 'acd', 'ab\n', 'a,;', 'a1b', 'a§b', '{}a', '<>a', 'a\'"', '"\\b', '`ab', 'a`"', '’ab']


def case(job):
    seed, o = job
    rng = random.Random(seed)
    dl = {'dhparser': lambda: E.DHPARSER, 'configurable': lambda: configurable(rng),
          'heuristic': lambda: heuristic(rng)}[o['dialect']]()
    if o['dialect'] == 'dhparser' and rng.random() < 0.3:
        dl = dict(dl, flavor='dhparser')
    if dl['name'] == 'heuristic' and dl['config']: dl = dict(dl, flavor=None)
    pool = rng.choice([p for p in POOLS if dl['name'] != 'heuristic' or ']' not in p])   # [ ... ] is an option or a set
    d = dict(ws=' ' if '\n' in pool or '\t' in pool or rng.random() < .8 else ' \n',
             lit=rng.choice([('right',), ('right',), ('left',), ('left', 'right'), ()]))
    if rng.random() < 0.25:
        p = [x for x in ('<>', '{}', '##', '()') if not set(x) & set(pool + dl['LEADIN'])]
        if p:
            d['comment'] = rng.choice(p)
    if o.get('opt'):
        al = ['literal', 'lookahead', 'alternative', 'rearrange_alternative', 'sequence']
        d['opt'] = rng.choice([['all'], ['some'], ['all']] + [rng.sample(al, rng.randint(1, 4))])
        d['reduction'] = rng.choice([None, 'flatten', 'merge', 'merge_treetops'])
    else:
        d['opt'] = rng.choice([None, ['none']])
        d['reduction'] = rng.choice([None, None, 'none', 'merge', 'merge_leaves'])
    caps = o.get('caps', False)
    g = E.EGen(rng, pool, nsym=rng.choice([1, 2, 3, 3, 4]), depth=rng.choice(o.get('depth', [1, 2, 2, 3])),
               caps=caps, behind=dl['DEF'] != '<-', lr=o.get('lr', 0), opt=bool(o.get('opt')), lit=d['lit']).grammar()
    if sum(map(size, g.defs.values())) > 26: return None
    ts = E.Spell(rng, dl).grammar(g)
    try:
        src = E.Printer(rng, dl).text(ts, E.head(rng, dl, d))
    except E.Unspellable:
        return None
    txt = E.texts(g, rng, o.get('n', 4), 9, pool + d['ws'][:1] + (d.get('comment') or ''), d['ws'], d['lit'],
                  d.get('comment'))
    gr, errs, exc = E.compile_ebnf(src, dl, static='none')
    rec = dict(t=E.spec_t(ts), d=E.spec_d(d), lr=g.lr, opt=bool(o.get('opt')), exact=False, exc=exc, src=src, msgs=errs,
               dialect=dl['config'] or {},
               runs=[dict(x=list(t), o=L.observe(gr, t)) for t in txt] if gr else [])
    return rec


def backtracking():
    """A known finding: an optimized sequence tries further alternatives where the plain one does not."""
    d = dict(ws=' ', lit=('right',), opt=['all'])
    ts = [E.tok('sym', v='doc'), E.tok('DEF'), E.tok('('), E.tok('lit', cs='a'), E.tok('OR'), E.tok('rx', cs='a', min=2, max=2),
          E.tok(')'), E.tok('lit', cs='c')]
    dl = dict(E.DHPARSER)
    src = E.Printer(random.Random(1), dl).text(ts, E.head(random.Random(1), dl, d))
    gr, errs, exc = E.compile_ebnf(src, dl, static='none')
    return dict(t=E.spec_t(ts), d=E.spec_d(d), lr=False, opt=False, exact=False, exc=exc, src=src, msgs=errs, dialect={},
                case='optimization-backtracks', runs=[dict(x=list(t), o=L.observe(gr, t)) for t in ('ac', 'aac')])


def size(e): return 1 + sum(map(size, e.a))


def run(c):
    k = 8 if THOROUGH else 1
    jobs = []
    for dialect, n in (('dhparser', 900), ('configurable', 500), ('heuristic', 400)):
        jobs += [(f'{c.rng.random()}', dict(dialect=dialect)) for _ in range(n * k)]
    jobs += [(f'{c.rng.random()}', dict(dialect='dhparser', lr=0.9)) for _ in range(300 * k)]
    jobs += [(f'{c.rng.random()}', dict(dialect='dhparser', caps=True)) for _ in range(300 * k)]
    jobs += [(f'{c.rng.random()}', dict(dialect='dhparser', opt=True, n=5)) for _ in range(1000 * k)]
    recs = [r for r in pmap(case, jobs) if r] + [backtracking()]
    for r in recs:
        c.count('compiled' if not r['exc'] else 'refused')
        for x in r['runs']: c.count('runs_' + x['o']['kind'])
    c.validate('EbnfTrace', recs)


if __name__ == '__main__':
    main('C09', run, rule='EBNF texts mean what the specification reads in them')
