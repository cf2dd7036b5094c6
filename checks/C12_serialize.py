"""C12: trees survive serialization as S-expression, SXML, XML, JSON; readers on other layouts."""
import contextlib
import io
import json
import random
from vlib import main, pmap, THOROUGH
import treelib as T

CHARS = list('aab  "\'\\();`é#') + ['\n']
MARKUP = list('&<>;a&')
NAMES = ['a', 'b-c', 'x.y', ':Text', ':Series', 'doc', '_n', 'A1']
KEYS = ['k', 'xml:id', 'a.b', 'x-y']


def text(r, n, chars):
    if r.random() < 0.25:
        return ''
    return ''.join(r.choice(chars) for _ in range(r.randint(1, n)))


def tree(r, n, chars, achars, names, attrs=0.35):
    a = []
    if r.random() < attrs:
        a = [[k, text(r, 5, achars)] for k in r.sample(KEYS, r.randint(1, 3))]
    if n <= 1:
        return {'n': r.choice(names), 't': text(r, 7, chars), 'c': [], 'a': a, 'p': -1}
    k = r.randint(1, min(4, n - 1))
    rest, c = n - 1, []
    for i in range(k):
        m = rest - (k - 1 - i) if i == k - 1 else r.randint(1, rest - (k - 1 - i))
        rest -= m
        c.append(tree(r, m, chars, achars, names, attrs))
    return {'n': r.choice(names), 't': '', 'c': c, 'a': a, 'p': -1}


def place(t, r, pos, some=0.8):
    """Arbitrary positions: some unset."""
    if r.random() < some:
        t['p'] = pos
    for c in t['c']:
        pos += r.randint(0, 12)
        place(c, r, pos, some)


def to_node(t):
    from DHParser.nodetree import Node
    nd = Node(t['n'], tuple(to_node(c) for c in t['c']) if t['c'] else t['t'])
    if t['a']:
        nd.attr.update(dict(map(tuple, t['a'])))
    nd._pos = t['p']
    return nd


def from_node(nd):
    a = [[list(str(k)), list(str(v))] for k, v in nd.attr.items()] if nd.has_attr() else []
    try:
        p = nd.pos
    except AssertionError:
        p = -1
    leaf = not nd.children
    return {'n': list(nd.name), 't': list(nd.content) if leaf else [], 'c': [from_node(c) for c in nd.children],
            'a': a, 'p': p}


def rec_tree(t):
    return {'n': list(t['n']), 't': list(t['t']), 'c': [rec_tree(c) for c in t['c']],
            'a': [[list(k), list(v)] for k, v in t['a']], 'p': t['p']}


def tag(v):
    """A JSON value with explicit types."""
    if isinstance(v, str):
        return {'k': 's', 's': list(v)}
    if isinstance(v, int):
        return {'k': 'i', 'i': v}
    if isinstance(v, list):
        return {'k': 'l', 'l': [tag(x) for x in v]}
    return {'k': 'o', 'l': [[list(k), tag(x)] for k, x in v.items()]}


def bad_text(s):
    """Lines that S-expressions cannot carry at all (see known findings)"""
    return any((ln.find('"') >= 0 and ln.find("'") >= 0)
               and ('"""' in ln or ln[-1] == '"') and ("'''" in ln or ln[-1] == "'") for ln in s.split('\n'))


def bad_attr(s):
    return ('"' in s and "'" in s) or '\\"' in s


def clean(t, leafok, attrok):
    while not leafok(t['t']):
        t['t'] = t['t'][:-1] if t['t'] else ''
    t['a'] = [[k, v] for k, v in t['a'] if attrok(v)]
    for c in t['c']:
        clean(c, leafok, attrok)
    return t


def layout(r, t, top=True):
    """Some S-expression for t: any whitespace, quotes, attribute style, several strings."""
    def ws(least=0):
        return ''.join(r.choice([' ', '\n', '  ', '\n\t ']) for _ in range(max(least, r.choice([0, 0, 1, 2]))))

    def quote(s):
        q = [x for x in ('"', "'") if x not in s] + [x * 3 for x in ('"', "'")
                                                     if x * 3 not in s and not s.endswith(x)]
        q = [x for x in q if len(x) == 3 or not s.startswith(x * 2)]
        q = r.choice(q)
        return q + s + q
    s = '(' + t['n']
    sx = r.random() < 0.3
    pos = ''
    if t['p'] >= 0:
        pos = r.choice(['pos %i' % t['p'], 'pos 1 2  %i' % t['p'], 'pos  %i ' % t['p']])
        if sx:
            pos = r.choice(['pos "%i"' % t['p'], 'pos "3:4 %i"' % t['p']])
    ats = ['%s %s' % (k, ('"%s"' if '"' not in v else "'%s'") % v) for k, v in t['a']]
    if pos:
        ats.insert(r.randint(0, len(ats)), pos)
    if sx:
        if ats or r.random() < 0.3:
            s += ws(1) + '(@' + ''.join(ws(1) + '(' + a + ')' for a in ats) + ws() + ')'
    else:
        s += ''.join(ws(1) + '`(' + a + ')' for a in ats)
    if t['c']:
        s += ws(1) + ''.join(layout(r, c, False) + ws() for c in t['c'])
    elif t['t'] and not t['t'][0] in '"\'` (\n\t' and not set(')"\'`(\n') & set(t['t']) \
            and t['t'] == t['t'].strip() and '  ' not in t['t'] and r.random() < 0.4:
        s += ws(1) + t['t']
    else:
        lines = t['t'].split('\n')
        if bad_text(t['t']):
            lines = ['']
        s += ''.join(ws(1) + quote(x) for x in lines)
        s += ws()
    return (ws() if top else '') + s + ')' + (ws() if top else '')


def xlayout(r, t, top=True):
    s = '<' + (t['n'][1:] + '__' if t['n'][0] == ':' else t['n'])
    w = lambda: r.choice(['', '', ' ', '\n '])
    ats = [(k, v) for k, v in t['a']]
    if t['p'] >= 0:
        ats.insert(r.randint(0, len(ats)), ('_pos', str(t['p'])))
    for k, v in ats:
        q = '"' if '"' not in v else "'"
        s += r.choice([' ', '\n', '  ']) + k + w() + '=' + w() + q + v + q
    s += w()
    if not t['c'] and not t['t'] and r.random() < 0.5:
        return s + '/>'
    s += '>'
    com = lambda: r.choice(['', '', '', '<!-- a > b <c> -->', '<!---->'])
    if t['c']:
        for c in t['c']:
            s += r.choice(['', '', '\n  ', ' text ', 'x\ny']) + com() + xlayout(r, c, False)
        s += r.choice(['', '\n', ' x ']) + com()
    else:
        s += t['t']
    return s + '</' + (t['n'][1:] + '__' if t['n'][0] == ':' else t['n']) + r.choice(['', ' ']) + '>'


def case(job):
    with contextlib.redirect_stdout(io.StringIO()):      # parse_xml() prints warnings
        return case_(job)


def case_(job):
    from DHParser import nodetree as nt
    kind, seed, n = job
    r = random.Random(seed)
    sx_ok = (lambda s: not bad_text(s), lambda v: not bad_attr(v))
    rec = {'kind': kind, 'exc': '', 'pos': r.random() < 0.5}
    try:
        if kind in ('sxpr', 'sxpr-read'):
            t = clean(tree(r, n, CHARS + MARKUP[:3] * (r.random() < 0.3), CHARS, NAMES), *sx_ok)
            place(t, r, r.randint(0, 9))
            nd = to_node(t)
            rec['t'] = rec_tree(t)
            if kind == 'sxpr':
                kw = {'compact': r.random() < 0.7, 'indentation': r.choice([0, 1, 2, 4]),
                      'flatten_threshold': r.choice([-1, 0, 92, 20, 2 ** 30])}
                src = ''
                if r.random() < 0.4 and not any(x._pos > 150 for x in nd.walk_tree(True)):
                    src = 'ab\nc' * 50
                if r.random() < 0.3:
                    nd = nt.RootNode(nd)
                if r.random() < 0.3:
                    kw['sxml'] = r.choice([1, 2])
                rec['oneline'] = kw['flatten_threshold'] in (-1, 2 ** 30) and not any(
                    '\n' in v for x in nd.walk_tree(True) if x.has_attr() for v in x.attr.values())
                s = nd.as_sxpr(src if rec['pos'] else None, **kw)
            else:
                s = layout(r, t)
                rec['flat'] = list(nt.flatten_sxpr(s))
            rec['text'] = list(s)
            rec['back'] = from_node(nt.parse_sxpr(s) if r.random() < 0.8 else nt.parse_sxml(s))
            rec['back2'] = from_node(nt.deserialize(s))
        elif kind in ('xml', 'xml-read'):
            inl = r.random() < 0.7 or kind == 'xml-read'
            chars = [c for c in CHARS if inl or c != '\n'] + MARKUP * (r.random() < 0.4)
            names = NAMES + ['h:x'] if kind == 'xml' else [x for x in NAMES if x != ':Text'] + ['h:x']
            if kind == 'xml-read':
                chars = [c for c in chars if c not in '<>']
            attr_ok = lambda v: not ('"' in v and "'" in v)
            t = clean(tree(r, n, chars, [c for c in CHARS] + ['>'], names), lambda s: True, attr_ok)
            place(t, r, r.randint(0, 9))
            rec['strtags'] = []
            if kind == 'xml':
                kw = {'indentation': r.choice([0, 2, 3]), 'string_tags': set()}
                if inl and r.random() < 0.5:
                    rec['strtags'] = [list(x) for x in (':Text', ':Whitespace')]
                    kw['string_tags'] = {':Text', ':Whitespace'}
                    if r.random() < 0.3:
                        del kw['string_tags']
                    for x in T_leaves(t):
                        if r.random() < 0.4:
                            x.update(n=r.choice([':Text', ':Whitespace']), a=[] if r.random() < 0.8 else x['a'])
                    fix_string_branches(t, True)
                if inl:
                    if r.random() < 0.6:
                        kw['inline_tags'] = {t['n']}
                    else:
                        t['a'] = [x for x in t['a'] if x[0] != 'xml:space'] + [['xml:space', 'preserve']]
                if r.random() < 0.2:
                    kw['empty_tags'] = set()
                nd = to_node(t)
                s = nd.as_xml('' if rec['pos'] else None, **kw)
            else:
                s = xlayout(r, t)
            rec['t'] = rec_tree(t)
            rec['text'] = list(s)
            rec['back'] = from_node(nt.parse_xml(s))
            rec['back2'] = from_node(nt.deserialize(s))
        elif kind == 'json':
            t = tree(r, n, CHARS + MARKUP + ['\t', '\r', '\x01', '\u2028'], CHARS + MARKUP, NAMES + ['ZOMBIE__', 'h:x', 'é', 'x y'])
            place(t, r, r.randint(0, 9), r.choice([0, 1]))    # (the reader completes missing positions)
            rec['t'], rec['dict'] = rec_tree(t), r.random() < 0.5
            s = to_node(t).as_json(indent=r.choice([None, 0, 2]), ensure_ascii=r.random() < 0.5,
                                   as_dict=rec['dict'], include_pos=rec['pos'])
            rec['json'] = tag(json.loads(s))
            rec['back'] = from_node(nt.parse_json(s))
            rec['back2'] = from_node(nt.deserialize(s))
        elif kind == 'etree':
            t = tree(r, n, CHARS + MARKUP, CHARS + MARKUP, [x for x in NAMES if x != ':Text'])
            rec['t'] = rec_tree(t)
            rec['back'] = from_node(nt.Node.from_etree(to_node(t).as_etree(string_tags=set())))
    except Exception as e:
        rec['exc'] = type(e).__name__ + ' ' + str(e)[:60].replace('"', "'").replace('\n', ' ')
    return rec


def T_leaves(t):
    return [t] if not t['c'] else [x for c in t['c'] for x in T_leaves(c)]


def fix_string_branches(t, top=False):
    """String tags only for leaves (with attributes they are elements); the root is an element."""
    if (t['c'] or top) and t['n'] in (':Text', ':Whitespace'):
        t['n'] = 'doc'
    for c in t['c']:
        fix_string_branches(c)


KNOWN = [('attr-both-quotes', {'n': 'a', 't': 'x', 'c': [], 'a': [['k', '"\'']], 'p': -1}),
         ('attr-escaped-quote', {'n': 'a', 't': 'x', 'c': [], 'a': [['k', 'a\\"b']], 'p': -1}),
         ('text-both-quotes', {'n': 'a', 't': '\'\'\' "', 'c': [], 'a': [], 'p': -1})]


def known(c):
    """Specific trees that S-expressions do not carry: reported while they fail."""
    from DHParser import nodetree as nt
    for name, t in KNOWN:
        nd = nt.Node('r', (to_node(t),))
        try:
            ok = nt.parse_sxpr(nd.as_sxpr()).equals(nd)
        except Exception:
            ok = False
        if not ok:
            c.violation('SerialTrace:known', {'case': name, 'record': t, 'text': nd.as_sxpr()})


def run(c):
    k = 60 if THOROUGH else 3
    rng = c.rng
    jobs = []
    for kind, m in (('sxpr', 800), ('sxpr-read', 700), ('xml', 800), ('xml-read', 500), ('json', 400), ('etree', 150)):
        jobs += [(kind, rng.random(), rng.choice([1, 1, 2, 3, 4, 6])) for _ in range(m * k)]
    recs = pmap(case, jobs)
    for r in recs:
        c.count('trees_' + r['kind'])
    known(c)
    c.validate('SerialTrace', recs)


main('C12', run, rule='random trees written in every format and read back, random layouts read')
