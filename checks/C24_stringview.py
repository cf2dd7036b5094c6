"""C24: operations on string views against the strings of StrView.tla."""
import random
import re
from vlib import main, pmap, THOROUGH

ALPH = 'aab \n'
NONE = 99


def rnd(r, n, alph=ALPH):
    return ''.join(r.choice(alph) for _ in range(r.randint(0, n)))


def idx(r, n, none=0.25):
    return NONE if r.random() < none else r.randint(-n - 2, n + 3)


def nn(i):
    return None if i == NONE else i


def regex(rx):
    c = re.escape(''.join(rx['c']))
    return re.compile(c if rx['k'] == 'lit' else '[' + c + ']' + ('+' if rx['k'] == 'plus' else '*'))


def span(sv, m):
    return list(sv.indices(m.span())) if m else [-1, -1]


def perform(sv, o, viewed):
    """One operation; the result as JSON."""
    SV = type(sv)
    op, i, j = o['op'], o.get('i'), o.get('j')
    x, y = ''.join(o.get('x', [])), ''.join(o.get('y', []))
    S = lambda v: list(str(v))
    try:
        if op == 'str': return S(sv)
        if op == 'len': return len(sv)
        if op == 'bool': return bool(sv)
        if op == 'get': return S(sv[i])
        if op == 'slice': return S(sv[nn(i):nn(j)])
        if op in ('find', 'rfind', 'count', 'startswith', 'endswith'):
            args = [x] + ([nn(i), nn(j)] if (i, j) != (NONE, NONE) else [])
            if op.endswith('with') and len(args) > 1:
                args[1] = 0 if args[1] is None else args[1]
            return getattr(sv, op)(*args)
        if op == 'in': return x in sv
        if op == 'split': return [S(p) for p in sv.split(x)]
        if op == 'words': return [S(p) for p in sv.split()]
        if op in ('strip', 'lstrip', 'rstrip'):
            return S(getattr(sv, op)(x) if o['given'] else getattr(sv, op)())
        if op == 'replace': return S(sv.replace(x, y))
        if op == 'eq':
            other = SV('b' + x + 'a')[1:-1] if viewed else x
            r = sv == other
            return r if (sv != other) == (not r) and (other == sv) == r else 'asymmetric'
        if op == 'hash': return hash(sv) == hash(str(sv)) and sv in {str(sv): 1}
        if op == 'add': return S(sv + (SV(x) if viewed else x))
        if op == 'radd': return S((SV(x) if viewed else x) + sv)
        if op == 'iter': return [S(c) for c in sv]
        if op == 'match': return span(sv, sv.match(regex(o['rx'])))
        if op == 'search':
            a = [nn(i), nn(j)] if (i, j) != (NONE, NONE) else []
            return span(sv, sv.search(regex(o['rx']), *a))
        if op == 'finditer': return [span(sv, m) for m in sv.finditer(regex(o['rx']))]
    except Exception as e:
        return type(e).__name__
    raise AssertionError(op)


OPS = ['str', 'len', 'bool', 'get', 'get', 'slice', 'slice', 'find', 'find', 'rfind', 'rfind', 'count', 'count',
       'startswith', 'startswith', 'endswith', 'endswith', 'in', 'split', 'split', 'words', 'strip', 'lstrip',
       'rstrip', 'replace', 'eq', 'eq', 'hash', 'add', 'radd', 'iter', 'match', 'search', 'search', 'finditer']


def case(seed):
    from DHParser.stringview import StringView
    r = random.Random(seed)
    text = rnd(r, r.choice([2, 4, 6, 9]))
    sv, s, chain = StringView(text), text, []
    for _ in range(r.choice([0, 1, 1, 2, 2, 3])):
        i, j = idx(r, len(s)), idx(r, len(s))
        if len(chain) == 0 and r.random() < 0.2:
            sv = StringView(text, 0 if i == NONE else i, nn(j))
        else:
            if r.random() < 0.3:
                str(sv)         # (views remember their string)
            sv = sv[nn(i):nn(j)]
        s = s[nn(i):nn(j)]
        chain.append([i, j])
    ops = []
    for op in r.sample(OPS, r.randint(3, 8)):
        o = {'op': op}
        i = r.randint(0, len(s))
        sub = s[i:r.randint(i, len(s))][:3] if r.random() < 0.6 else rnd(r, 2)
        if op == 'get':
            o['i'] = idx(r, len(s), 0)
        elif op in ('slice', 'find', 'rfind', 'count', 'startswith', 'endswith', 'search'):
            o['i'], o['j'] = (NONE, NONE) if r.random() < 0.3 else (idx(r, len(s)), idx(r, len(s)))
        if op in ('find', 'rfind', 'count', 'in', 'replace', 'startswith', 'endswith', 'split', 'eq', 'add', 'radd'):
            if op == 'eq':
                sub = s if r.random() < 0.5 else rnd(r, len(s))
            elif op == 'replace' or not sub and (op not in ('startswith', 'endswith', 'split', 'in', 'add', 'radd')):
                sub = sub or 'a'
            o['x'] = list(sub)
            if op in ('startswith', 'endswith') and not sub:
                o['i'] = o['j'] = NONE       # (Python: no empty prefix behind the end)
        if op == 'replace':
            o['y'] = list(rnd(r, 2))
        if op in ('strip', 'lstrip', 'rstrip'):
            o['given'] = r.random() < 0.6
            o['x'] = list(rnd(r, 3)) if o['given'] else list(' \n\t')
        if op in ('match', 'search', 'finditer'):
            k = r.choice(['lit', 'plus', 'star'])
            o['rx'] = {'k': k, 'c': list((s[i:i + r.randint(1, 2)] if k == 'lit' else '') or rnd(r, 2) or 'a')}
        viewed = r.random() < 0.5
        o['r'] = perform(sv, o, viewed)
        ops.append(o)
    return {'text': list(text), 'chain': chain, 'ops': ops}


def run(c):
    n = 120000 if THOROUGH else 12000
    recs = pmap(case, [c.rng.random() for _ in range(n)])
    c.count('operations', sum(len(r['ops']) for r in recs))
    c.validate('StrViewTrace', recs)


main('C24', run, rule='random texts, chains of slices and sequences of operations on the same view object')
