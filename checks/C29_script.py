"""C29: what users write into a generated script survives - histories of real scripts against ScriptTrace.tla."""
import os
import stat
import itertools
from vlib import main, pmap, scratch, THOROUGH

RULE = '#' * 71
BAR = '\n\n' + RULE + '\n#\n# %s\n#\n' + RULE + '\n\n'
HEADS = ['SYMBOLS SECTION - Can be edited. Changes will be preserved.', 'PREPROCESSOR SECTION - Can be edited. Changes will be preserved.',
         "PARSER SECTION - Don't edit! CHANGES WILL BE OVERWRITTEN!", 'AST SECTION - Can be edited. Changes will be preserved.',
         'COMPILER SECTION - Can be edited. Changes will be preserved.', 'END OF DHPARSER-SECTIONS']

GOOD = {'g1': ['@whitespace = /\\s*/\n@drop = whitespace\ndoc = { word }\nword = /\\w+/~\n', 'doc = "a" { "b" }\n'],
        'g2': ['@disposable = /_\\w+/\n@drop = strings\ndoc = _x "." { _x }\n_x = `a` | `b`\n', '# comment ä\ndoc = ~ /é+/ §"ü"\n'],
        'g3': ['@ignorecase = True\ndoc = [x] y\nx = "x"\ny = x | "y" [doc]\n', '@hide = /_.*/\n@comment = /#.*/\ndoc = /[^#]*/~ _x\n_x = "y"\n'],
        'w1': ['doc = { word }\nword = /\\w+/\nlost = "x"\n', 'doc = /a/ ~\nlost = doc doc\n'],
        'f1': ['doc = { zz }\n', 'doc = "a"\ndoc = "b"\n'],
        'f2': ['doc = { \n', 'doc == "a"\n'],
        'f3': ['@hide = /[/\ndoc = "x"\n', 'doc = /(/\n']}
NAMES = sorted(GOOD)
IMPORTS = 'from DHParser.pipeline import PseudoJunction, create_parser_junction\n'
TEXTS = ['pass', '# nothing\n', '\n\nx = 1', '  x = """{NAME}\\n%s"""\t\n\n\n', 'ä→𝔘\n', '# ' + HEADS[2] + '\n', RULE + '\n#\n#\n' + RULE, BAR % 'my own part',
         '\n' + RULE + '\n#\n# ' + HEADS[0] + '\n#\n' + RULE + '\n\n', 'y = r"\\\\"\n', '\n#', '#\n', '\x0c\n"\x00"', '{', '}}', 'class X(Compiler):\n    def __init__(self): pass\n\n',
         '# DSLParser DSL SECTION {0}\n', '\u2028x\x85', 'def get_grammar(): return None\n' * 50, BAR[:-1] % HEADS[1], '#' + BAR.strip('\n') % HEADS[3] + '\n']


def stuff(rng):
    t = rng.choice(TEXTS) if rng.random() < .6 else ''.join(rng.choice(['#', '\n', ' ', '\t', 'x', 'ä', '\\', '{', '}', '"', "'", 'SECTION', RULE, '%', '\n\n'])
                                                             for _ in range(rng.randrange(1, 9)))
    t = t + rng.choice(['', '', '\n', ' ', '\n\n'])
    if not t.strip() or any(h in t for h in ('class X(Grammar)',)): t = 'x' + t
    if is_marked('a' + BAR % 'A' + t + BAR % 'B' + 'b'): t = '# harmless\n'
    return t


def is_marked(text):
    """Would the text of a section contain a heading of a section? (looked for independently of the code)"""
    lines = text.split('\n')
    return any(lines[j + 1] == '' and lines[j + 2] == lines[j + 6] == RULE and lines[j + 3] == lines[j + 5] == '#' and lines[j + 4].startswith('# ')
               and 'SECTION' in lines[j + 4] for j in range(len(lines) - 6))


def cut(text):
    """sections of a script, found by the standard headings"""
    out, at = [], 0
    for h in HEADS:
        bar = BAR % h
        j = text.find(bar, at)
        if j < 0: return []
        out.append(text[at:j])
        at = j + len(bar)
    return out + [text[at:]]


def join(sec): return sec[0] + ''.join(BAR % h + s for h, s in zip(HEADS, sec[1:]))


def complete(text):
    """what has to be completed in the user's imports, and the results"""
    a = '' if text.endswith('\n') else '\n\n'
    b = '' if all(x in text for x in ('from DHParser.', 'PseudoJunction', 'create_parser_junction')) else '\n' + IMPORTS + '\n'
    need = 'both' if a and b else 'newline' if a else 'imports' if b else ''
    return need, text + a + b


def write(path, text):
    with open(path, 'w', encoding='utf-8', newline='') as f: f.write(text)


def read(path):
    with open(path, 'rb') as f: return f.read()


def labels_of(sec, user, base):
    """labels every section answers to"""
    out = []
    for k, t in enumerate(sec, 1):
        ls = []
        if not t.strip(): ls.append(['blank'])
        for g, fresh in base.items():
            if fresh and fresh[k - 1] == t: ls.append(['new', k, g])
        for x, ut in user.items():
            if ut == t: ls.append(['user', x])
            if k == 2:
                need, full = complete(ut)
                if need and full == t:
                    ls.append({'newline': ['user', x, 'newline'], 'imports': ['user', x, 'imports'], 'both': ['user', x, 'newline', 'imports']}[need])
        out.append(ls)
    return out


def fresh(dsl, where, name, grammars):
    """what the sections look like when a script is generated for the first time"""
    os.makedirs(where, exist_ok=True)
    out = {}
    for g, src in grammars.items():
        f = os.path.join(where, name + '.ebnf')
        write(f, src)
        dsl.compile_on_disk(f)
        p = os.path.join(where, name + 'Parser.py')
        out[g] = None
        if os.path.exists(p):
            out[g] = cut(read(p).decode('utf-8'))
            os.remove(p)
    return out


def look(o, path, before, user, base):
    o['absent'] = not os.path.exists(path)
    now = None if o['absent'] else read(path)
    o['same'] = now == before
    o['sec'] = []
    o['exec'] = False
    if now is not None:
        o['exec'] = bool(os.stat(path).st_mode & stat.S_IXUSR)
        try:
            o['sec'] = labels_of(cut(now.decode('utf-8')), user, base)
        except UnicodeDecodeError:
            pass
    return o


def attempt(o, fn):
    o['exc'] = ''
    o['ok'] = False
    try:
        o['ok'] = bool(fn())
    except (Exception, SystemExit) as e:
        o['exc'] = type(e).__name__
    return o


def content(rng, k, user, ids, needs):
    r = rng.random()
    if r < .25: return ['blank'], rng.choice(['', '\n', ' \n\t\n', '\n\n\n'])
    if k == 2:
        t = rng.choice(['import re\n', 'import re', IMPORTS, IMPORTS + 'import x', 'from DHParser.parse import *\n', '# PseudoJunction create_parser_junction\n', stuff(rng)])
    else:
        t = stuff(rng)
    x = 't%i' % next(ids)
    user[x] = t
    needs[x] = complete(t)[0]
    return ['user', x], t


def ruin(rng, text, how):
    if how == 'bytes':
        return text.encode('utf-8') + b'\xff\xfe\n'
    sec = cut(text)
    k = rng.randrange(6)
    r = rng.random()
    if r < .4:                                 # a heading too few
        text = text.replace(BAR % HEADS[k], rng.choice(['\n', '\n\n', '\n' + RULE + '\n']), 1)
    elif r < .7:                               # one too many
        text = text.replace(BAR % HEADS[k], BAR % HEADS[k] + BAR % rng.choice(HEADS + ['OWN SECTION']), 1)
    else:
        text = text.replace(BAR % HEADS[k], BAR % 'something else', 1)
    return text.encode('utf-8')


def life(case):
    from random import Random
    import contextlib, io
    seed, long_ = case
    rng = Random(seed)
    from DHParser import dsl
    grammars = {g: rng.choice(v) for g, v in GOOD.items()}
    user, needs, ids = {}, {'-': ''}, itertools.count(1)
    steps = []
    name = rng.choice(['lang', 'Lang', 'my_lang', 'my-lang', 'l.x'])
    with scratch() as d, contextlib.redirect_stdout(io.StringIO()):
        base = fresh(dsl, os.path.join(d, 'oracle'), name, grammars)
        home = os.path.join(d, 'home')
        os.makedirs(home)
        old = os.getcwd()
        os.chdir(rng.choice([d, home]))
        try:
            pre = rng.choice([home, os.path.relpath(home)])
            src = os.path.join(pre, name + '.ebnf')
            given = os.path.join(pre, 'other.py') if rng.random() < .2 else ''
            path = given or os.path.join(pre, name + 'Parser.py')
            log = os.path.join(pre, name + '_ebnf_MESSAGES.txt')
            side = [os.path.join(pre, name + 'Server.py'), os.path.join(pre, name + 'App.py')]
            standard = []
            ref = os.path.join(d, 'oracle', name)
            write(ref + '.ebnf', grammars['g1'])
            dsl.create_scripts(ref + '.ebnf')
            standard = [read(ref + 'Server.py'), read(ref + 'App.py')]
            usertext = {}
            whole, hurt = b'', False             # the undamaged script
            steps.append({'op': 'grammar', 'g': 'g1'})
            write(src, grammars['g1'])
            for _ in range(long_):
                exists = os.path.exists(path)
                r = rng.random()
                if r < .2:
                    g = rng.choice(NAMES)
                    write(src, grammars[g])
                    steps.append({'op': 'grammar', 'g': g})
                elif r < .5 and exists:
                    if hurt: continue
                    sec = cut(read(path).decode('utf-8', 'replace'))
                    if not sec: break                # the next step would be judged against a ruin
                    for _ in range(rng.choice([1, 1, 2, 4])):
                        k = rng.choice([1, 2, 2, 3, 5, 6, 7, 4])
                        c, t = content(rng, k, user, ids, needs)
                        if k == 4 and '(Grammar)' in t: continue
                        sec[k - 1] = t
                        steps.append({'op': 'edit', 'k': k, 'c': c})
                    write(path, join(sec))
                    if cut(join(sec)) != sec: return None
                elif r < .57 and exists:
                    how = rng.choice(['marker', 'marker', 'bytes'])
                    if hurt:
                        with open(path, 'wb') as f: f.write(whole)
                        steps.append({'op': 'damage', 'how': ''})
                        hurt = False
                    else:
                        whole = read(path)
                        with open(path, 'wb') as f: f.write(ruin(rng, whole.decode('utf-8'), how))
                        steps.append({'op': 'damage', 'how': how})
                        hurt = True
                elif r < .61 and exists:
                    os.remove(path)
                    steps.append({'op': 'delete'})
                    hurt = False
                elif r < .66:
                    k = rng.choice([1, 2])
                    c = rng.choice(['absent', 'user'])
                    if c == 'absent':
                        if os.path.exists(side[k - 1]): os.remove(side[k - 1])
                    else: write(side[k - 1], '# mine %i\n' % k)
                    steps.append({'op': 'server', 'k': k, 'c': c})
                else:
                    before = read(path) if exists else None
                    o = {'ran': True, 'log': False, 'srv': '', 'app': ''}
                    if r < .8:
                        attempt(o, lambda: not any(m.code >= 1000 for m in dsl.compile_on_disk(src, given)))
                        p = {'op': 'compile'}
                    elif r < .93:
                        force = rng.random() < .35
                        calls = []
                        kw = {'force': True} if force else {}
                        if rng.random() < .8: kw['notify'] = lambda: calls.append(1)
                        attempt(o, lambda: dsl.recompile_grammar(src, given, **kw))
                        p = {'op': 'recompile', 'force': force}
                        if 'notify' in kw: o['ran'] = len(calls) == 1
                        else: p['quiet'] = True
                        o['log'] = os.path.exists(log) and os.path.getsize(log) > 0
                    else:
                        which = [rng.choice(['', '', 'none']), rng.choice(['', 'none'])]
                        force = rng.random() < .4
                        attempt(o, lambda: dsl.create_scripts(src, given, *[None if w == 'none' else '' for w in which], overwrite=force) or True)
                        p = {'op': 'create', 'force': force, 'which': which}
                        side_now = [read(f) if os.path.exists(f) else None for f in side]
                        kinds = ['absent' if t is None else 'new' if t == standard[j] else 'user' if t == b'# mine %i\n' % (j + 1) else '?' for j, t in enumerate(side_now)]
                        o['srv'], o['app'] = kinds
                    look(o, path, before, user, base)
                    steps.append(dict(p, obs=o))
        finally:
            os.chdir(old)
    for s in steps: s.setdefault('quiet', False)
    return {'kind': 'life', 'needs': needs, 'steps': steps, 'texts': user, 'grammars': grammars, 'case': 'life-%s' % seed}


def folder(case):
    from random import Random
    import contextlib, io
    seed, _ = case
    rng = Random(seed)
    from DHParser import dsl
    user, needs, ids = {}, {'-': ''}, itertools.count(1)
    files = []
    with scratch() as d, contextlib.redirect_stdout(io.StringIO()):
        home = os.path.join(d, 'home')
        os.makedirs(home)
        names = rng.sample(['a', 'b', 'c', 'D', 'e_f'], rng.randrange(1, 5))
        if rng.random() < .3: os.makedirs(os.path.join(home, 'sub.ebnf'))
        if rng.random() < .3: write(os.path.join(home, 'readme.txt'), 'x')
        texts = {}
        for name in names:
            grammars = {g: rng.choice(v) for g, v in GOOD.items()}
            base = fresh(dsl, os.path.join(d, 'oracle'), name, grammars)
            g = rng.choice(NAMES)
            src = os.path.join(home, name + rng.choice(['.ebnf', '.ebnf', '.ebnf', '.EBNF']))
            write(src, grammars[g])
            path = os.path.join(home, name + 'Parser.py')
            s = []
            if rng.random() < .5:
                g0 = rng.choice(['g1', 'g2', 'g3', g])
                if base[g0]:
                    sec, labels = list(base[g0]), [['new', str(0), g0] for _ in range(7)]
                    labels = [['new', k, g0] for k in range(1, 8)]
                    for k in (1, 3, 5, 6, 7):
                        if rng.random() < .3:
                            c, t = content(rng, k, user, ids, needs)
                            labels[k - 1], sec[k - 1] = c, t
                    if cut(join(sec)) == sec:
                        write(path, join(sec))
                        s = {'sec': labels, 'how': ''}
            texts[name] = (path, read(path) if s else None, base)
            files.append({'g': g, 's': s, 'name': name, 'source': grammars[g]})
        old = os.getcwd()
        os.chdir(rng.choice([d, d, home]))
        res = {}
        calls = []
        op = rng.choice(['create', 'recompile', 'recompile'])
        force = op == 'recompile' and rng.random() < .3
        try:
            where = rng.choice([home, os.path.relpath(home)])
            if op == 'create': attempt(res, lambda: dsl.create_scripts(where) or True)
            else: attempt(res, lambda: dsl.recompile_grammar(where, force=force, notify=lambda: calls.append(1)))
        finally:
            os.chdir(old)
        for f in files:
            path, before, base = texts[f['name']]
            log = os.path.join(home, f['name'] + '_ebnf_MESSAGES.txt')
            o = {'exc': '', 'ok': True, 'ran': True, 'log': os.path.exists(log), 'srv': '', 'app': ''}
            for k, n in (('srv', 'Server'), ('app', 'App')):
                script = os.path.join(home, f['name'] + n + '.py')
                o[k] = 'new' if os.path.exists(script) and f['name'].encode() in read(script) else 'absent'
            look(o, path, before, user, base)
            f['obs'] = o
        extra = sorted(set(os.listdir(home)) - {'readme.txt', 'sub.ebnf'} - {n + x for n in names for x in ('.ebnf', '.EBNF', 'Parser.py', '_ebnf_MESSAGES.txt', 'Server.py', 'App.py')})
    return {'kind': 'folder', 'files': files, 'needs': needs, 'op': op, 'force': force, 'exc': res['exc'], 'ok': res['ok'], 'calls': len(calls), 'extra': extra,
            'texts': user, 'case': 'folder-%s' % seed}


def one_(case):
    return folder(case[:2]) if case[2] == 'folder' else life(case[:2])


def run(c):
    c.design('Script')
    n, m, k = (6000, 3000, 24) if THOROUGH else (700, 300, 16)
    cases = [(c.rng.getrandbits(40), c.rng.randrange(6, k), 'life') for _ in range(n)] + [(c.rng.getrandbits(40), 0, 'folder') for _ in range(m)]
    recs = [r for r in pmap(one_, cases) if r]
    c.count('histories', sum(r['kind'] == 'life' for r in recs))
    c.count('folders', sum(r['kind'] == 'folder' for r in recs))
    c.count('compilations', sum(1 for r in recs if r['kind'] == 'life' for s in r['steps'] if 'obs' in s))
    c.validate('ScriptTrace', recs)


if __name__ == '__main__':
    main('C29', run, rule='A step of a history differs from what Script.tla says: outcome, contents of the sections, other files.')
