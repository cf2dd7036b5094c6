"""C19: preprocessing - includes, tokens, cuts, chains - against Preproc.tla."""
import functools
import os
import random
import re
import shutil
import tempfile

from vlib import main, pmap, THOROUGH

SHOW = str.maketrans('\x1b\x1c\x1d', '<|>')
RX = r'#in\((?P<name>[^)\n]*)\)'
COMMENTS = {'line': r'%[^\n]*', 'block': r'/\*(?:.|\n)*?\*/'}
OPS = ['nil', 'tok', 'del']


def rnd(r, n):
    return ''.join(r.choice('abc! \n') for _ in range(r.randint(0, n)))


def gen_disk(r):
    """files (real name -> items) with includes that mostly exist"""
    names = r.sample(['a', 'b', 'c', 'd/a', 'd/e', 'd/d/f'], r.randint(1, 5))
    main_ = names[0]
    plain = r.random() < 0.7            # every file includes only later ones
    comment = r.choice(['', '', 'line', 'block'])
    disk = {}
    for i, n in enumerate(names):
        items = []
        for _ in range(r.choice([0, 1, 2, 3, 5])):
            k = r.choice(['t', 't', 'i', 'i', 'c'])
            if k == 't':
                items.append({'k': 't', 's': rnd(r, 4), 'n': ['-']})
            elif k == 'i':
                pool = names[i + 1:] if plain else names
                if not pool and r.random() < 0.9:
                    continue
                t = r.choice(pool) if pool and r.random() < 0.97 else 'zz'
                rel = os.path.relpath(t, os.path.dirname(n) or '.').split('/')
                if r.random() < 0.15:
                    rel = r.choice([['.'] + rel, ['d', '..'] + rel])
                items.append({'k': 'i', 's': '#in(' + '/'.join(rel) + ')', 'n': rel})
            elif comment:
                inner = r.choice(['', 'x', '#in(a)', 'x #in(b) y', '#in(zz)', '#in(zz)#in(b)'])
                s = '%' + inner + '\n' if comment == 'line' else '/*' + inner + r.choice(['', '\n']) + '*/'
                items.append({'k': 'c', 's': s, 'n': ['-']})
        disk[n] = items
    return disk, main_, comment


def text_of(items):
    return ''.join(it['s'] for it in items)


def make_tok(spec):
    from DHParser.preprocess import make_preprocessor, make_token
    from DHParser.error import Error, ErrorCode

    def tokenizer(text):
        text = str(text)
        out, last = [], 0
        spec['plain'] = text
        toks, rr = [], random.Random(spec['seed'])
        at = 0
        while at <= len(text) and len(toks) < 6:
            if rr.random() < spec['dense']:
                ln = min(rr.choice([0, 0, 1, 2, 4]), len(text) - at)
                toks.append({'at': at, 'len': ln, 'name': rr.choice(['A', 'AB', 'B', 'ABC'])})
                at += ln
                if rr.random() < 0.3:
                    continue
            at += 1
        if text and rr.random() < 0.2 and (not toks or toks[-1]['at'] + toks[-1]['len'] < len(text)):
            toks.append({'at': len(text) - 1, 'len': 1, 'name': 'A'})
        spec['toks'] = toks
        for t in toks:
            out += [text[last:t['at']], make_token(t['name'], text[t['at']:t['at'] + t['len']])]
            last = t['at'] + t['len']
        out.append(text[last:])
        spec['errs'] = [rr.randint(0, len(text)) for _ in range(spec['nerr'])]
        return ''.join(out), [Error('tok', p, ErrorCode(1010)) for p in spec['errs']]
    return make_preprocessor(tokenizer)


def make_del(spec):
    from DHParser.preprocess import SourceMap, result_from_mapping
    from DHParser.error import Error, ErrorCode

    def cut(text, name, *args):
        text = str(text)
        rr = random.Random(spec['seed'])
        cuts, at = [], 0
        while at < len(text):
            if rr.random() < 0.25:
                ln = min(rr.choice([1, 2, 3]), len(text) - at)
                if at + ln < len(text) or rr.random() < 0.5:
                    cuts.append({'at': at, 'len': ln})
                at += ln
            at += 1
        spec['cut'] = cuts
        pos, off, out, last, o = [0], [0], [], 0, 0
        for c in cuts:
            out.append(text[last:c['at']])
            last = c['at'] + c['len']
            o += c['len']
            b = last - o
            if pos[-1] == b:
                off[-1] = o
            else:
                pos.append(b)
                off.append(o)
        out.append(text[last:])
        res = ''.join(out)
        pos.append(len(res) + 1)
        off.append(off[-1])
        spec['errs'] = [rr.randint(0, len(text)) for _ in range(spec['nerr'])]
        return result_from_mapping(SourceMap(name, pos, off, [name] * len(pos), {name: text}), text, res,
                                   [Error('del', p, ErrorCode(1011)) for p in spec['errs']])
    return cut


def case(seed):
    from DHParser.preprocess import (gen_find_include_func, preprocess_includes, chain_preprocessors, nil_preprocessor,
                                     ReadIncludeClass, ReadIncludeOnce, strip_tokens)
    r = random.Random(seed)
    disk, path, comment = gen_disk(r)
    inc = r.random() < 0.8
    once = inc and r.random() < 0.2
    if once and any('.' in it['n'] or '..' in it['n'] for f in disk.values() for it in f):
        once = False
    stages, chain = [], []
    for k in sorted(r.sample(['nil', 'del', 'del', 'nil', 'tok', 'tok'], r.choice([0, 1, 1, 2, 3])), key=lambda k: k == 'tok'):
        if k == 'tok' and stages and stages[-1]['k'] == 'tok':
            continue
        s = {'k': k, 'toks': [], 'cut': [], 'errs': [], 'seed': r.random(), 'dense': r.choice([0.05, 0.3, 0.8]),
             'nerr': r.choice([0, 0, 0, 1, 2]) if k != 'nil' else 0, 'plain': ''}
        stages.append(s)
        chain.append({'nil': lambda s: nil_preprocessor, 'tok': make_tok, 'del': make_del}[k](s))
    on_disk = r.random() < 0.3
    parsed = on_disk and bool(inc or chain) and not any(s['nerr'] for s in stages)
    base = tempfile.mkdtemp(prefix='c19_') if on_disk else ''
    try:
        if on_disk:
            for n, items in disk.items():
                os.makedirs(os.path.dirname(os.path.join(base, n)) or base, exist_ok=True)
                with open(os.path.join(base, n), 'w', encoding='utf-8') as f:
                    f.write(text_of(items))
            for d in ('d', 'd/d', 'd/d/d'):
                os.makedirs(os.path.join(base, d), exist_ok=True)
            reader = ReadIncludeOnce if once else ReadIncludeClass
        else:
            class Mem(ReadIncludeOnce if once else ReadIncludeClass):
                def read_include(self, name):
                    n = os.path.normpath(name)
                    if n not in disk:
                        raise FileNotFoundError(name)
                    return text_of(disk[n])
            reader = Mem
        cut = lambda n: os.path.relpath(n, base) if False else (n[len(base) + 1:] if on_disk and n.startswith(base) else n)
        rec = {'kind': 'run', 'disk': {n: [{**it, 's': list(it['s'])} for it in items] for n, items in disk.items()},
               'path': path.split('/'), 'inc': inc, 'once': once, 'parsed': parsed}
        out = {'err': '', 'text': [], 'map': [], 'errs': [], 'nodes': [], 'marks': [], 'texts': []}
        rec['real'] = {}
        source = text_of(disk[path])
        try:
            name = os.path.join(base, path) if on_disk else path
            find = gen_find_include_func(r.choice([RX, re.compile(RX)]), COMMENTS[comment] if comment else r.choice([None, r'..(?<!^)']) and None)
            incl = functools.partial(preprocess_includes, find_next_include=find, include_reader=reader)
            how = r.random()
            if inc and not chain and how < 0.5:
                prep = incl
            elif len(chain) > 1 and how < 0.4:
                prep = chain_preprocessors(*([incl] if inc else []), chain_preprocessors(*chain))
            elif not inc and len(chain) == 1 and how < 0.5 and not stages[0]['nerr']:
                prep = chain[0]
            else:
                prep = chain_preprocessors(*([incl] if inc else []), *(chain or ([] if inc else [nil_preprocessor])))
            src = None if (on_disk and inc and not chain and r.random() < 0.5) else source
            for _ in range(r.choice([1, 1, 2])):    # the same preprocessor may be used again
                res = prep(src, name)
            text = str(res.preprocessed_text)
            out['text'] = list(text.translate(SHOW))
            for p in range(len(text) + 1):
                loc = res.back_mapping(p)
                out['map'].append([cut(loc.original_name), loc.pos])
                real = os.path.normpath(cut(loc.original_name))
                out['texts'].append(real in disk and str(loc.original_text) == (text_of(disk[real]) if inc or not chain else str(loc.original_text)))
            out['errs'] = [[cut(e.orig_doc), e.orig_pos, e.line, e.column] for e in res.errors]
            if stages and stages[-1]['k'] == 'tok' and strip_tokens(text) != stages[-1]['plain']:
                out['err'] = 'strip_tokens'
            if parsed:
                out['nodes'], out['marks'] = parse(name, prep, cut)
        except Exception as e:
            out['err'] = 'missing' if isinstance(e, FileNotFoundError) else \
                'circular' if isinstance(e, ValueError) and 'ircular' in str(e) else type(e).__name__ + ': ' + str(e)[:80]
        for s in stages:
            for k in ('seed', 'dense', 'nerr', 'plain'):
                del s[k]
            for t in s['toks']:
                t['name'] = list(t['name'])
        rec['stages'], rec['out'] = stages, out
        for n in reachable(disk, path):
            rec['real'][n] = os.path.normpath(n)
        return rec
    finally:
        if base and os.path.basename(base).startswith('c19_'):
            shutil.rmtree(base)


def reachable(disk, path):
    """names under which files can be met (names grow without end in a circle: stop early)"""
    seen, todo = [path], [path]
    while todo and len(seen) < 60:
        p = todo.pop(0)
        for it in disk.get(os.path.normpath(p), []):
            if it['k'] == 'i':
                q = '/'.join(p.split('/')[:-1] + it['n'])
                if q not in seen:
                    seen.append(q)
                    todo.append(q)
    return seen


def parse(name, prep, cut):
    from DHParser.compile import compile_source
    from DHParser.parse import Grammar, PreprocessorToken, RegExp, ZeroOrMore, Alternative
    from DHParser.error import ErrorCode
    toks = [PreprocessorToken(t).name('T' + t) for t in ('A', 'AB', 'B', 'ABC')]
    ch = RegExp(r'[^\x1b\x1c\x1d]').name('ch')
    gr = Grammar(ZeroOrMore(Alternative(*toks, ch)))
    nodes, seen = [], []

    def comp(root):
        for nd in root.children or ((root,) if root.name in ('TA', 'TAB', 'TB', 'TABC', 'ch') else ()):
            kind = nd.name.strip(':')
            nodes.append(['ch', list(nd.content)] if kind == 'ch' else ['tok', list(kind[1:] + '=' + nd.content)])
            if kind != 'ch' or nd.content == '!':
                root.new_error(nd, 'mark', ErrorCode(1500))
        return root
    res = compile_source(name, prep, gr, lambda t: t, comp)
    marks = [[cut(e.orig_doc), e.orig_pos, e.line, e.column] for e in res.messages if e.code == 1500]
    others = [[str(e.code), str(e)] for e in res.messages if e.code != 1500]
    return nodes + others, marks


def segs(seed):
    from DHParser.preprocess import SourceMap, result_from_mapping
    r = random.Random(seed)
    files = {f: rnd(r, 6) + '.' * 40 for f in 'abc'}
    at, sg, b = {f: 0 for f in files}, [], 0
    for _ in range(r.randint(1, 6)):
        f = r.choice('abc')
        if sg and sg[-1]['f'] != f and r.random() < 0.3:
            at[f] = r.randint(0, 5)
        at[f] += r.randint(0, 3)
        n = r.randint(1, 4)
        sg.append({'b': b, 'f': f, 'p': at[f]})
        at[f] += n
        b += n
    pos = [s['b'] for s in sg] + [b + 1]
    off = [s['p'] - s['b'] for s in sg]
    off.append(off[-1])
    names = [s['f'] for s in sg] + [sg[-1]['f']]
    try:
        res = result_from_mapping(SourceMap('a', pos, off, names, files), files['a'], ''.join(files[s['f']][s['p']:] for s in sg)[:b], [])
        out = [[l.original_name, l.pos] for l in (res.back_mapping(p) for p in range(b + 1))]
    except Exception as e:
        out = [type(e).__name__ + str(e)[:60]]
    return {'kind': 'segs', 'segs': sg, 'len': b, 'out': out}


def valid(seed):
    from DHParser.preprocess import SourceMap
    r = random.Random(seed)
    n = r.choice([1, 2, 3, 4])
    bs = sorted(r.sample(range(0, 12), n))
    if r.random() < 0.7:
        bs[0] = 0
    if r.random() < 0.3:
        r.shuffle(bs)
    if r.random() < 0.2:
        bs[-1] = bs[len(bs) // 2]
    ls = [n + (r.choice([-1, 1, 2]) if r.random() < 0.2 else 0) for _ in range(2)]
    try:
        SourceMap('a', bs, [0] * max(0, ls[0]), ['a'] * max(0, ls[1]), {'a': ''}).validate()
        out = True
    except ValueError:
        out = False
    except Exception as e:
        out = type(e).__name__
    return {'kind': 'valid', 'bs': bs, 'nb': n, 'no': max(0, ls[0]), 'nf': max(0, ls[1]), 'out': out}


def run(c):
    c.design('PreprocEnum')
    n = 60000 if THOROUGH else 5000
    recs = pmap(case, [c.rng.random() for _ in range(n)])
    recs += pmap(segs, [c.rng.random() for _ in range(n // 5)]) + pmap(valid, [c.rng.random() for _ in range(n // 10)])
    c.count('places_mapped', sum(len(r['out']['map']) for r in recs if r['kind'] == 'run'))
    c.count('circular_or_missing', sum(r['out']['err'] in ('circular', 'missing') for r in recs if r['kind'] == 'run'))
    c.count('parsed', sum(r['out']['err'] == '' and r['parsed'] for r in recs if r['kind'] == 'run'))
    c.validate('PreprocTrace', recs)


main('C19', run, rule='all include structures of three short files in the model; random files, chains and texts judged place by place')
