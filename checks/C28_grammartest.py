"""C28: reports of grammar tests - units, suites, test files and templates of the real code against GrammarTestTrace.tla."""
import io
import json
import os
import re
import contextlib
import itertools
from random import Random
from vlib import main, pmap, scratch, THOROUGH

EBNF = r'''@ whitespace = /[ \t]*/
doc = { item ";" }+
item = word [num]
word = /[a-z]+/
num = /[0-9]+/
look = word &num
nlook = word !num
mlook = word §&num
mand = "(" §word ")"
'''
SYMS = ['doc', 'item', 'word', 'num', 'look', 'nlook', 'mlook', 'mand']
WORDS = ['ab', 'xyz', 'err', 'warn', 'domerr', 'boom']
LATER = ['dom', 'txt']
NONE = {'kind': 'none', 't': {'n': '', 'k': [], 'x': '', 'a': ''}, 'x': ''}
LA = 'test_suppress_lookahead_failures'
seen = []


def grammar():
    global _grammar
    try:
        return _grammar
    except NameError:
        from DHParser.dsl import create_parser
        _grammar = create_parser(EBNF)
        return _grammar


def to_ast(root):
    from DHParser.configuration import get_config_value
    from DHParser.error import ERROR, WARNING
    from DHParser.nodetree import Node
    seen.append(bool(get_config_value(LA)))
    for nd in list(root.select(lambda n: n.name == 'word', include_root=True)):
        if nd.content == 'err': root.new_error(nd, 'erroneous word', ERROR)
        if nd.content == 'warn': root.new_error(nd, 'strange word', WARNING)
    for nd in list(root.select_if(lambda n: bool(n.children), include_root=True)):
        kids = tuple(c for c in nd.children if c.name != ':Text')
        nd.result = kids
        if nd.name == 'item' and len(kids) == 1:
            nd.name, nd.result = 'name', kids[0].content
    root.stage = 'AST'
    return root


def to_dom(root):
    from DHParser.error import ERROR
    from DHParser.nodetree import Node
    kids = Node(root.name, root._result).with_pos(0)
    if re.search('boom', root.content): raise IndexError('boom')
    n = len(re.findall(r'[a-z]+|[0-9]+|[^ ]', root.source))
    bad = 'domerr' in root.source
    root.name, root.result = 'DOM', (kids,)
    root.attr['n'] = n
    if bad: root.new_error(root, 'erroneous element', ERROR)
    root.stage = 'dom'
    return root


def to_txt(root): return '[' + root.content + ']'


def ast_factory(): return to_ast
def dom_factory(): return to_dom
def txt_factory(): return to_txt


def junctions():
    from DHParser.compile import Junction
    return {Junction('AST', dom_factory, 'dom'), Junction('dom', txt_factory, 'txt')}


# plausible expectations (which of them are right is for the specification to say)
def leaf(n, x): return {'n': n, 'k': [], 'x': x, 'a': ''}
def br(n, k): return {'n': n, 'k': k, 'x': '', 'a': ''}


def guess(s, t, stage):
    isw = lambda x: x[:1].isalpha()
    def item(u):
        if stage != 'cst' and len(u) == 1: return leaf('name', u[0])
        return br('item', [leaf('word' if isw(x) else 'num', x) for x in u])
    if s == 'doc':
        kids, part = [], []
        for x in t:
            if x == ';':
                if part: kids.append(item(part))
                if stage == 'cst': kids.append(leaf(':Text', ';'))
                part = []
            else: part.append(x)
        r = br('doc', kids)
    elif s == 'item': r = item(t)
    elif s == 'mand': r = br('mand', [leaf('word' if isw(x) else ':Text', x) for x in t if stage == 'cst' or isw(x)])
    else: r = leaf(s, ''.join(t))
    if stage == 'dom': r = {'n': 'DOM', 'k': [r], 'x': '', 'a': str(min(9, len(t)))}
    return r


def flat(nd): return nd['x'] if not nd['k'] else ''.join(flat(c) for c in nd['k'])


def spoil(rng, nd):
    nd = json.loads(json.dumps(nd))
    every = []
    def walk(x):
        every.append(x)
        for c in x['k']: walk(c)
    walk(nd)
    x = rng.choice(every)
    r = rng.random()
    if r < .25: x['n'] = rng.choice(['word', 'num', 'other', 'item'])
    elif r < .5 and not x['k']: x['x'] = rng.choice(['ab', '1', 'abc', x['x'] + 'x'])
    elif r < .7 and x['k']: x['k'].pop(rng.randrange(len(x['k'])))
    elif r < .85 and x['k']: x['k'].insert(rng.randrange(len(x['k']) + 1), leaf('num', '1'))
    elif r < .9: nd['a'] = rng.choice(['1', '2', '7'])
    elif x['k']: x['k'].reverse()
    def fix(y):
        if not y['k'] and not y['x']: y['x'] = 'q'
        for c in y['k']: fix(c)
    fix(nd)
    return nd


def node(nd):
    from DHParser.nodetree import Node
    r = Node(nd['n'], tuple(node(c) for c in nd['k']) if nd['k'] else nd['x'])
    if nd['a']: r.attr['n'] = nd['a']
    return r


def names_with_colon(nd): return ':' in nd['n'] or any(names_with_colon(c) for c in nd['k'])


def written(rng, e):
    """-> the text of an expectation"""
    if e['kind'] in ('flat', 'broken'): return e['x']
    n = node(e['t'])
    if rng.random() < .3 and not names_with_colon(e['t']): return n.as_xml(inline_tags={n.name}, string_tags=set(), empty_tags=set())
    return n.as_sxpr(flatten_threshold=-1 if rng.random() < .2 else 10000)


def expectation(rng, s, t, stage, right):
    g = guess(s, t, stage)
    r = rng.random()
    if r < .6:
        if not right: g = spoil(rng, g)
        def ok(y): return all(ok(c) for c in y['k']) if y['k'] else y['x'] != ''
        return {'kind': 'tree', 't': g, 'x': ''} if ok(g) else dict(NONE)
    if r < .95 or right:
        f = flat(g) or 'x'
        if not right: f = rng.choice([f + 'x', f[1:] or 'q', ' ' + f, f + ' ', '5', 'null', 'true', '12.5', f.upper()])
        if re.match(r'\s*[(<\[{]', f): return dict(NONE)
        return {'kind': 'flat', 't': NONE['t'], 'x': f}
    return {'kind': 'broken', 't': NONE['t'], 'x': rng.choice(['(a', '(word', '(', '<a', '<a>', '[1]', '()', '{"a": 1}'])}


def tokens(rng, s):
    w = lambda: rng.choice(WORDS) if rng.random() < .35 else rng.choice(['ab', 'xyz'])
    n = lambda: rng.choice(['1', '23'])
    if rng.random() < .75:
        if s == 'word': return [w()]
        if s == 'num': return [n()]
        if s in ('item', 'look', 'nlook', 'mlook'): return [w()] + ([n()] if rng.random() < .5 else [])
        if s == 'mand': return ['(', w(), ')']
        if s == 'doc':
            out = []
            for _ in range(rng.randrange(1, 3)): out += [w()] + ([n()] if rng.random() < .5 else []) + [';']
            return out
    out = []
    for _ in range(rng.randrange(0, 5)):
        kind = rng.choice('wn;()!')
        if kind == 'w' and not (out and out[-1][0].isalpha()): out.append(w())
        elif kind == 'n' and not (out and out[-1][0].isdigit()): out.append(n())
        elif kind in ';()!': out.append(kind)
    return out


def make_unit(rng, texts=None):
    la = rng.random() < .8
    report = rng.random() < .5
    shown = sorted(x for x in LATER if rng.random() < .12)
    plain = rng.random() < .35        # no later stages: then symbols may be unknown
    ids = itertools.count(1)
    syms = []
    names = rng.sample(SYMS, rng.randrange(1, 4))
    if plain: shown = []
    if plain and rng.random() < .2: names.append('nosuch')
    for s in names:
        cases, tested = [], []
        later = [] if plain or rng.random() < .5 else [x for x in LATER if rng.random() < .6]
        for _ in range(rng.randrange(1, 5)):
            typ = rng.choice(['match', 'match', 'fail'])
            t = tokens(rng, s) if texts is None else list(texts.pop())
            star = '*' if typ == 'match' and rng.random() < .2 else ''
            c = {'name': ('M' if typ == 'match' else 'F') + str(next(ids)), 'star': bool(star), 'typ': typ, 's': s, 't': t, 'ws': rng.random() < .12 and bool(t),
                 'cst': dict(NONE), 'ast': dict(NONE), 'dom': dict(NONE), 'txt': dict(NONE)}
            if typ == 'match' and s in ('doc', 'item', 'word', 'num', 'mand') and t:
                for stage in ('cst', 'ast', 'dom'):
                    if rng.random() < (.35 if stage != 'dom' or 'dom' in later else 0):
                        c[stage] = expectation(rng, s, t, stage, rng.random() < .65)
                if 'txt' in later and rng.random() < .7:
                    x = '[' + flat(guess(s, t, 'ast')) + ']'
                    c['txt'] = {'kind': 'flat', 't': NONE['t'], 'x': x if rng.random() < .7 else rng.choice(['[x]', x[:-1], x + '\n]', 'q'])}
            cases.append(c)
        for stage, key in (('cst', 'CST'), ('ast', 'AST'), ('dom', 'dom'), ('txt', 'txt')):
            if any(c[stage]['kind'] != 'none' for c in cases): tested.append(key)
        syms.append({'s': s, 'cases': cases, 'tested': tested})
    return {'kind': 'unit', 'la': la, 'report': report, 'shown': shown, 'syms': syms}


def as_dict(rng, u, text):
    """the unit in form of a dictionary, expectations as strings"""
    d = {}
    if not u['la']: d['config__'] = {LA: 'False'}
    for y in u['syms']:
        part = d[y['s']] = {}
        for c in y['cases']:
            part.setdefault(c['typ'], {})[c['name'] + ('*' if c['star'] else '')] = ''.join(c['t']) + (' ' if c['ws'] else '')
        for stage, key in (('cst', 'CST'), ('ast', 'AST'), ('dom', 'dom'), ('txt', 'txt')):
            for c in y['cases']:
                if c[stage]['kind'] != 'none':
                    star = '*' if rng.random() < .2 else ''
                    part.setdefault(key, {})[c['name'] + star] = text(c, stage)
    return d


def ini(d, quoted):
    out = []
    for s, part in d.items():
        if s == 'config__':
            out.append('[config]\n' + ''.join('%s: %s\n' % kv for kv in part.items()))
            continue
        for stage, cases in part.items():
            out.append('[%s:%s]' % (stage, s))
            for k, v in cases.items():
                if (stage, k) in quoted.get(s, ()) or stage in ('match', 'fail', 'txt'): v = "'%s'" % v
                out.append('%s: %s' % (k, v.replace('\n', '\n    ')))
            out.append('')
    return '\n'.join(out) + '\n'


def flags(errata, u):
    out = []
    for e in errata:
        toks = re.findall(r'\w+', e.split('\n')[0])
        hit = [[y['s'], c['name']] for y in u['syms'] for c in y['cases'] if y['s'] in toks and c['name'] in toks]
        for h in hit if len(hit) == 1 else [['?', '?']]:
            if h not in out: out.append(h)
    return sorted(out)


def heads(text, u):
    out, sym = [], '?'
    star = {c['name'] + '*' for y in u['syms'] for c in y['cases'] if c['star']}
    for line in text.split('\n'):
        m = re.match(r'Test of parser: "(.*)"$', line)
        if m: sym = m.group(1)
        m = re.match(r'(Match|Fail)-test "(.*)"$', line)
        if m: out.append([sym, m.group(1).lower(), m.group(2).rstrip('*'), False, False, m.group(2) in star])
        if out and line.startswith('### Error'): out[-1][3] = True
        if out and line.startswith('### CST'): out[-1][4] = True
    return out


def run_unit(rng, u):
    from DHParser.testing import grammar_unit
    from DHParser.configuration import get_config_value, set_config_value
    import copy
    memo, quoted = {}, {}
    def text(c, stage):
        k = (c['name'], stage)
        if k not in memo: memo[k] = written(rng, c[stage])
        return memo[k]
    d = as_dict(rng, u, text)
    for y in u['syms']:
        for c in y['cases']:
            for stage, key in (('cst', 'CST'), ('ast', 'AST'), ('dom', 'dom')):
                if c[stage]['kind'] == 'flat': quoted.setdefault(y['s'], set()).update({(key, c['name']), (key, c['name'] + '*')})
    before = [bool(get_config_value(LA)), str(get_config_value('history_tracking'))]
    form = rng.choice(['dict', 'ini', 'json' if u['la'] else 'ini'])
    u['form'] = form
    with scratch() as where:
        def go(unit, report):
            try:
                with contextlib.redirect_stdout(io.StringIO()):
                    return '', grammar_unit(unit, grammar, ast_factory, report=report, verbose=rng.random() < .3, junctions=junctions(), show=set(u['shown']))
            except Exception as e:
                return type(e).__name__ + ': ' + str(e)[:200], []
        if form != 'dict':
            name = os.path.join(where, 'tests.' + form)
            with open(name, 'w', encoding='utf8') as f: f.write(ini(d, quoted) if form == 'ini' else json.dumps(d))
        give = lambda: copy.deepcopy(d) if form == 'dict' else name
        rep = os.path.join(where, 'REP') if u['report'] else ''
        seen.clear()
        u['exc'], errata = go(give(), rep)
        u['wanted'] = sorted({u['la']} & set(seen)) if seen else []
        u['during'] = sorted(set(seen))
        u['flagged'] = flags(errata, u)
        u['heads'] = []
        if rep and not u['exc']:
            files = os.listdir(rep) if os.path.isdir(rep) else []
            if len(files) == 1:
                with open(os.path.join(rep, files[0]), encoding='utf8') as f: u['heads'] = heads(f.read(), u)
        u['again'] = flags(go(give(), rep)[1], u)
    set_config_value(LA, True) if u['exc'] else None
    after = [bool(get_config_value(LA)), str(get_config_value('history_tracking'))]
    u['before'], u['after'] = before, after
    return u


def run_suite(rng):
    from DHParser.testing import grammar_suite, grammar_unit
    from DHParser.configuration import set_config_value, get_config_value
    r = {'kind': 'suite', 'files': [], 'named': [], 'clean': False, 'total': 0, 'sum': 0, 'exc': '', 'home': False}
    with scratch() as where:
        tests = os.path.join(where, 'grammar')
        os.mkdir(tests)
        for k in range(rng.randrange(1, 5)):
            u = make_unit(rng)
            if rng.random() < .4:         # nothing to complain about
                u = {'kind': 'unit', 'la': True, 'report': False, 'shown': [], 'syms': [{'s': 'word', 'tested': [], 'cases': [
                    {'name': 'M1', 'star': False, 'typ': 'match', 's': 'word', 't': ['ab'], 'ws': False, 'cst': NONE, 'ast': NONE, 'dom': NONE, 'txt': NONE}]}]}
            u['la'] = True
            d = as_dict(rng, u, lambda c, stage: written(rng, c[stage]))
            name = '%02i_test_%s.json' % (rng.randrange(20), rng.choice('abcdefgh') + str(k))
            with open(os.path.join(tests, name), 'w', encoding='utf8') as f: f.write(json.dumps(d))
        open(os.path.join(tests, 'readme.txt'), 'w').close()
        here = os.getcwd()
        with contextlib.redirect_stdout(io.StringIO()):
            for name in sorted(os.listdir(tests)):
                if 'test' not in name: continue
                try: n = len(grammar_unit(os.path.join(tests, name), grammar, ast_factory, report='', junctions=junctions()))
                except Exception as e: return None
                r['files'].append({'name': name, 'n': n})
                r['sum'] += n
            save = get_config_value('test_parallelization')
            set_config_value('test_parallelization', False)
            try:
                text = grammar_suite(tests, grammar, ast_factory, fn_patterns=('*test*',), report='', verbose=rng.random() < .3, junctions=junctions())
                r['clean'] = text == ''
                r['named'] = re.findall(r'Errors found by unit test "(.*?)"', text)
                m = re.search(r'revealed (\d+) error', text)
                r['total'] = int(m.group(1)) if m else 0
            except Exception as e:
                r['exc'] = type(e).__name__ + ': ' + str(e)[:200]
            finally:
                set_config_value('test_parallelization', save)
        r['home'] = os.getcwd() == here
        os.chdir(here)
    return r


# ---- test files ----

ATOMS = ['a', 'b', ' ', ' ', '#', ';', ':', '=', '[', ']', '"', "'", '\\', '{', '}', 'ä', '(', 'M1: x', '[match:word]', '*', '%s', '<', '"', "'", '$']


def some_text(rng, lines):
    def line():
        x = ''.join(rng.choice(ATOMS) for _ in range(rng.randrange(0, 7)))
        return ' ' * rng.choice([0, 0, 0, 1, 3, 4, 6]) + x if rng.random() < .3 else x
    return [line() for _ in range(lines)]


def styles(text):
    s = '\n'.join(text)
    one = len(text) == 1
    out = []
    if one and '"' not in s: out.append('"')
    if one and "'" not in s: out.append("'")
    for q in ('"""', "'''"):
        if q not in s and not s.endswith(q[0]): out.append(q)
    if s.strip() and text[0] and text[0][0] not in ' "\'' and text[-1].strip() and s == s.rstrip() and not any(x.strip() == '' and x for x in text) \
            and not (s[0] in '"\'' and s[-1] in '"\''):
        out.append('')
    return out


def pair(line):
    r = line.lstrip(' ')
    return [len(line) - len(r), r]


def tree_of(nd):
    return {'n': nd.name, 'k': [tree_of(c) for c in nd.children], 'x': '' if nd.children else nd.content, 'a': str(nd.attr['n']) if nd.has_attr() else ''}


def run_file(rng):
    from DHParser.testing import unit_from_config, unit_from_json, unit_from_file, unit_to_config
    from DHParser.nodetree import Node
    secs, out, more = [], [], ['dom'] if rng.random() < .3 else []
    ids = itertools.count(1)
    strings = True
    if rng.random() < .3: out.append('# comment')
    if rng.random() < .2:
        out += ['[config]', 'x_y: 1', '; comment', 'z = "a b"', '']
    for _ in range(rng.randrange(1, 5)):
        stage = rng.choice(['match', 'match', 'fail', 'AST', 'ast', 'CST', 'cst', 'Ast'] + (['dom'] if rng.random() < .3 else []) + (['Match', 'xyz'] if rng.random() < .08 else []))
        s = rng.choice(['word', 'doc', 'item_2'])
        sec = {'stage': stage, 's': s, 'entries': []}
        out.append(rng.choice(['', '', '\n', ' ']) + '[%s:%s]' % (stage, s))
        for _ in range(rng.randrange(0, 4)):
            if rng.random() < .2: out.append(rng.choice(['# a: comment', '; [match:doc]', '', '\n', '  # x', '#']))
            bare = ('F' if stage == 'fail' else 'M') + (str(next(ids)) if rng.random() < .97 else '1')
            if rng.random() < .1: bare = ('f.' if stage == 'fail' else 'm_') + str(next(ids)) + rng.choice(['', 'ä', '.1'])
            key = bare + ('*' if rng.random() < .15 else '')
            e = {'key': key, 'bare': bare, 'how': 'text', 'raw': [], 'tree': NONE['t']}
            if stage.upper() in ('AST', 'CST') and rng.random() < .5:
                strings = False
                e['how'] = 'tree'
                e['tree'] = spoil(rng, guess('doc', ['ab', '1', ';', 'xyz', ';'], rng.choice(['cst', 'ast', 'dom'])))
                x = written(rng, {'kind': 'tree', 't': e['tree']})
                out.append('%s: %s' % (key, x.replace('\n', '\n    ')))
            else:
                single = stage.lower() not in ('match', 'fail', 'ast', 'cst') or rng.random() < .5
                while True:
                    text = some_text(rng, 1 if single else rng.randrange(2, 5))
                    if rng.random() < .15: text = [rng.choice(['(a b)', '<a>x</a>', '(word (x "1") )', '["a", "b"]', '5', 'null', '<a', '(a'])]
                    st = styles(text)
                    if stage.upper() in ('AST', 'CST') or stage not in ('match', 'fail'): st = [x for x in st if x]
                    if st and (text != [''] or rng.random() < .3): break
                q = rng.choice(st)
                raw = [text[0]] + [('' if x == '' and j < len(text) - 2 and rng.random() < .5 else '    ' + x) for j, x in enumerate(text[1:])]
                e['raw'] = [pair(x) for x in raw]
                out.append('%s%s%s%s' % (key, rng.choice([': ', ' : ', ':', '=', ' = ']), q, '\n'.join(raw) + q))
            sec['entries'].append(e)
        secs.append(sec)
    r = {'kind': 'file', 'sections': secs, 'more': more, 'junk': False, 'got': [], 'exc': '', 'json': 'same', 'config': 'same'}
    if rng.random() < .06:
        r['junk'] = True
        out.append(rng.choice(['!!!', '[match]', '*: x', '[:x]', '"M1": x']))
    text = '\n'.join(out) + rng.choice(['', '\n', '\n\n', '\n# end'])
    if rng.random() < .3: text = text.replace('# comment\n', '# comment\n\n', 1)
    r['text'] = text
    try:
        if rng.random() < .5:
            unit = unit_from_config(text, 'x.ini', frozenset({'match', 'fail', 'AST', 'CST'} | set(more)))
        else:
            with scratch() as where:
                name = os.path.join(where, 'x.ini')
                with open(name, 'w', encoding='utf8') as f: f.write(text)
                unit = unit_from_file(name, frozenset(more))
    except Exception as e:
        r['exc'] = type(e).__name__
        return r
    unit = {k: v for k, v in unit.items() if k[-2:] != '__'}
    for s, part in unit.items():
        for stage, cases in part.items():
            g = {'s': s, 'stage': stage, 'entries': []}
            for k, v in cases.items():
                if isinstance(v, Node): g['entries'].append({'key': k, 'how': 'tree', 'lines': [], 'tree': tree_of(v)})
                else: g['entries'].append({'key': k, 'how': 'text', 'lines': [pair(x) for x in (v or '').split('\n')], 'tree': NONE['t']})
            r['got'].append(g)
    if strings and not r['junk'] and all(isinstance(v, str) for part in unit.values() for cases in part.values() for v in cases.values()):
        try:
            again = unit_from_json(json.dumps(unit), 'x.json', frozenset({'match', 'fail', 'AST', 'CST'} | set(more)))
            if again != unit: r['json'] = 'different'
        except Exception as e: r['json'] = type(e).__name__
        if 'dom' not in more and all(possible(v) for part in unit.values() for cases in part.values() for v in cases.values()):
            try:
                again = unit_from_config(unit_to_config(unit), 'x.ini')
                if {k: {a: dict(b) for a, b in v.items()} for k, v in again.items()} != {k: {a: dict(b) for a, b in v.items()} for k, v in unit.items()}: r['config'] = 'different'
            except Exception as e: r['config'] = type(e).__name__ + str(e)[:100]
    return r


def possible(text): return isinstance(text, str) and any(x for x in styles(text.split('\n')))


# ---- templates ----

def run_templates(rng):
    from DHParser.testing import create_test_templates, extract_symbols, unit_from_file
    sections = ['alpha', 'beta', 'gamma-1', 'δ_4']
    steps = []
    have = set()
    with scratch() as where:
        path = os.path.join(where, 'tests')
        if rng.random() < .5: os.mkdir(path)
        here = os.getcwd()
        for _ in range(rng.randrange(1, 6)):
            if steps and have and rng.random() < .35:
                name = rng.choice(sorted(have))
                syms = ['own_' + str(len(steps))]
                fs = [f for f in os.listdir(path) if f[8:-4] == name]
                if not fs: continue
                with open(os.path.join(path, fs[0]), 'w', encoding='utf8') as f: f.write('[match:%s]\nM1: "x"\n' % syms[0])
                steps.append({'op': 'edit', 'name': name, 'syms': syms})
                continue
            secs, text = [], rng.choice(['', '# comment\n', '@ drop = strings\n', '\n'])
            for k, sec in enumerate(rng.sample(sections, rng.randrange(1, 5))):
                syms = ['s%i_%i' % (k, j) for j in range(rng.randrange(0, 4))]
                secs.append({'name': sec, 'syms': syms})
                text += rng.choice(['', '\n\n']) + '#: ' + sec + '\n' + rng.choice(['', '\n', '# words = here\n'])
                for x in syms:
                    text += rng.choice(['', '', '  ']) + x.replace('_', rng.choice(['_', '_', '-'])) + rng.choice([' = ', '=', ' := ', ' ::= ']) + rng.choice(['"a"', '/x/ ~\n    | "b"', '{ doc }+', '"="']) + '\n'
            step = {'op': 'make', 'secs': secs, 'symbols': [], 'files': [], 'exc': ''}
            try:
                with contextlib.redirect_stdout(io.StringIO()):
                    got = extract_symbols(text)
                    step['symbols'] = [{'name': k, 'syms': list(v)} for k, v in got.items()]
                    create_test_templates(rng.choice([text, got]), path)
                for f in sorted(os.listdir(path)):
                    unit = unit_from_file(os.path.join(path, f))
                    syms = list(unit)
                    whole = all(set(v) == {'match', 'AST', 'fail'} for k, v in unit.items() if not k.startswith('own_'))
                    step['files'].append([int(f[:2]), f[8:-4], syms if whole else ['?']])
            except Exception as e:
                step['exc'] = type(e).__name__ + ': ' + str(e)[:200]
            os.chdir(here)
            have |= {s['name'] for s in secs}
            steps.append(step)
    return {'kind': 'templates', 'steps': steps}


def one(case):
    seed, kind = case
    rng = Random(seed)
    if kind == 'unit': return run_unit(rng, make_unit(rng))
    return {'suite': run_suite, 'file': run_file, 'templates': run_templates}[kind](rng)


def one_text(case):
    """every text of up to so many tokens, for one symbol"""
    seed, s, typ, la, texts = case
    rng = Random(seed)
    cases = [{'name': ('M' if typ == 'match' else 'F') + str(k), 'star': False, 'typ': typ, 's': s, 't': list(t), 'ws': False,
              'cst': dict(NONE), 'ast': dict(NONE), 'dom': dict(NONE), 'txt': dict(NONE)} for k, t in enumerate(texts)]
    return run_unit(rng, {'kind': 'unit', 'la': la, 'report': False, 'shown': [], 'syms': [{'s': s, 'cases': cases, 'tested': []}]})


def run(c):
    c.design('GrammarTest')
    f = 8 if THOROUGH else 1
    cases = [(c.rng.getrandbits(40), k) for k, n in (('unit', 2500), ('file', 2500), ('suite', 60), ('templates', 250)) for _ in range(n * f)]
    recs = [r for r in pmap(one, cases) if r]
    alphabet = ['ab', '1', ';', '(', ')', '!'] if not THOROUGH else ['ab', 'xyz', '1', '23', ';', '(', ')', '!']
    texts = [t for k in range(0, 5) for t in itertools.product(alphabet, repeat=k)
             if not any(a[0].isalpha() and b[0].isalpha() or a[0].isdigit() and b[0].isdigit() for a, b in zip(t, t[1:]))]
    chunks = [texts[k:k + 60] for k in range(0, len(texts), 60)]
    recs += pmap(one_text, [(c.rng.getrandbits(40), s, typ, la, ch) for s in SYMS + ['nosuch'] for typ in ('match', 'fail') for la in (True, False)
                            if la or 'look' in s for ch in chunks])
    for k in ('unit', 'file', 'suite', 'templates'): c.count(k, sum(r['kind'] == k for r in recs))
    c.count('cases', sum(len(y['cases']) for r in recs if r['kind'] == 'unit' for y in r['syms']))
    c.validate('GrammarTestTrace', recs)


if __name__ == '__main__':
    main('C28', run, rule='Which cases are reported, what the report lists, what is read from test files or which templates are made differs from what GrammarTest.tla says.')
