"""Random EBNF grammars as trees and token sequences, their spellings in various dialects, and
texts to run the compiled grammars on.  What the tokens mean is defined in spec/Ebnf.tla."""
import random
import re

INF = 1000
PUNCT = {'MAND': '§', 'INTER': '°', 'MINUS': '-', 'ARROW': '->'}


# ------------------------------------------------------------------ trees

class N:
    """o kind, a parts, further attributes like in the tokens; mand: index of first mandatory part"""

    def __init__(self, o, *a, **kw):
        self.o, self.a, self.mand = o, list(a), None
        self.__dict__.update(kw)


def unmarked(e):
    """an option must not begin with a mandatory marker"""
    x = e
    while x.a:
        if x.mand == 0: x.mand = None
        x = x.a[0]
    return e


def leaf(kind, **kw):
    d = dict(v='', cs='', min=0, max=0, neg=False, n=0)
    d.update(kw)
    return N(kind, **d)


def rx_src(cs, lo, hi, neg):
    s = ''.join('\\n' if c == '\n' else '\\' + c if c in '\\]^-[/' else c for c in cs)
    q = {(0, -1): '*', (1, -1): '+', (1, 1): '', (0, 1): '?'}.get((lo, hi), '{%d,%s}' % (lo, '' if hi < 0 else hi))
    return f"[{'^' if neg else ''}{s}]{q}"


# ------------------------------------------------------------------ random grammars

class EGen:
    def __init__(self, rng, pool, nsym=3, depth=2, mand=0.12, look=0.12, inter=0.1, lr=0.0,
                 caps=False, counted=True, ranges=True, ws=' ', opt=False, lit=('right',), behind=True):
        self.rng, self.pool, self.nsym, self.depth = rng, pool, nsym, depth
        self.p = dict(mand=mand, look=look, inter=inter)
        self.caps, self.counted, self.ranges, self.ws, self.opt, self.lit = caps, counted, ranges, ws, opt, lit
        self.behind = behind
        self.names = rng.sample(KIN if rng.random() < 0.25 else NAMES, nsym)
        self.defs = {}
        self.variables = []
        self.lr = False
        self.lrp = lr

    def word(self, n=2):
        s = ''.join(self.rng.choice(self.pool) for _ in range(self.rng.randint(1, n)))
        return s + '\\' if re.search(r'(?<!\\)\\$', s) else s

    # -- nullable trees (of the tree alone; symbols looked up)
    def nullable(self, e, act=()):
        o = e.o
        if o in ('lit', 'ptext'): return False
        if o in ('rx', 'set'): return e.min == 0
        if o == 'any': return False
        if o in ('ws', 'opt', 'rep0', '&', '!', '<-&', '<-!', ':', '::', ':?'): return True
        if o == 'sym':
            if e.v in act: return False
            return self.nullable(self.defs[e.v], act + (e.v,)) if e.v in self.defs else False
        if o in ('alt',): return any(self.nullable(x, act) for x in e.a)
        if o == 'cnt': return e.lo == 0 or self.nullable(e.a[0], act)
        if o == 'diff': return self.nullable(e.a[0], act)
        return all(self.nullable(x, act) for x in e.a)

    def atom(self, ne=False):
        rng = self.rng
        k = rng.random()
        if k < 0.38: return leaf('lit', cs=self.word())
        if k < 0.5: return leaf('ptext', cs=self.word())
        if k < 0.72:
            lo, hi = rng.choice([(1, -1), (1, -1), (1, 1), (1, 1), (0, -1), (0, 1), (1, 2), (2, 2), (2, 3)])
            if ne: lo = max(lo, 1)
            if self.opt and rng.random() < 0.7: lo, hi = 1, 1
            return leaf('rx', cs=''.join(rng.sample(self.pool, min(len(self.pool), rng.randint(1, 2)))),
                        min=lo, max=hi, neg=rng.random() < 0.12)
        if k < 0.82:
            return leaf('set', cs=''.join(rng.sample(self.pool, min(len(self.pool), rng.choice([1, 1, 2])))),
                        min=1, max=1, neg=rng.random() < 0.1)
        if k < 0.87: return leaf('any')
        if k < 0.92 and not ne: return leaf('ws')
        return leaf('lit', cs=self.word(1))

    def sym(self, after):
        """a symbol that may be used (only later ones: no recursion)"""
        later = self.names[after + 1:]
        return leaf('sym', v=self.rng.choice(later)) if later else None

    def expr(self, d, after, ne=False, recursive=None):
        rng = self.rng
        if d <= 0:
            if rng.random() < 0.4:
                s = self.sym(after)
                if s and (not ne or not self.maybe_nullable(s)): return s
            return self.atom(ne)
        k = rng.random()
        if k < 0.34: return self.seq(d, after, ne)
        if k < 0.54: return self.alt(d, after, ne)
        if k < 0.62 and not ne: return N('opt', self.plain(d - 1, after, True))
        if k < 0.70: return N('rep1' if ne or rng.random() < 0.5 else 'rep0', self.plain(d - 1, after, True))
        if k < 0.70 + self.p['inter']:
            return self.inter(d, after)
        if k < 0.84 and self.counted:
            lo, hi = rng.choice([(1, 2), (2, 2), (2, 3), (3, 3), (0, 2), (1, 3), (2, -1)])
            if ne and lo == 0: lo = 1
            return N('cnt', self.plain(d - 1, after, True), lo=lo, hi=hi)
        if k < 0.88 and self.p['look']:
            a, b = self.expr(d - 1, after, ne), self.expr(d - 1, after, True)
            return N('diff', a, b)
        return self.expr(0, after, ne)

    def maybe_nullable(self, e):
        return e.o == 'sym' and e.v in self.defs and self.nullable(e)

    def plain(self, d, after, ne=False):
        """not an option or repetition itself (these must not be nested directly)"""
        for _ in range(20):
            e = self.expr(d, after, ne)
            if e.o not in ('opt', 'rep0', 'rep1', 'cnt') and not (ne and self.nullable(e)):
                return e
        return leaf('lit', cs=self.word())

    def seq(self, d, after, ne=False):
        rng = self.rng
        items = [self.expr(d - 1, after, False) for _ in range(rng.randint(2, 3))]
        if ne and all(self.nullable(x) for x in items):
            items.append(self.atom(True))
        for j in range(len(items)):
            if rng.random() < self.p['look']:
                op = rng.choice(['&', '!', '!', '<-&', '<-!'] if self.behind else ['&', '!'])
                if op[0] == '<':
                    a = leaf('rx', cs=rng.choice(self.pool), min=1, max=rng.choice([1, -1]), neg=rng.random() < 0.3)
                else:
                    a = self.plain(d - 1, after, True)
                    if rng.random() < 0.2: a = N('rep1', a)
                items.insert(j, N(op, a))
                break
        e = N('seq', *items)
        if rng.random() < self.p['mand']:
            m = rng.randint(0 if rng.random() < 0.1 else 1, len(items) - 1)
            if not any(x.o in ('&', '!', '<-&', '<-!') for x in items[m:]):
                e.mand = m
        return e

    def lit_of(self, e):
        if e.o in ('lit', 'ptext'): return e.cs
        if e.o == 'sym' and e.v in self.defs: return self.lit_of(self.defs[e.v])
        if e.o == 'grp': return self.lit_of(e.a[0])
        return None

    def alt(self, d, after, ne=False):
        rng = self.rng
        items = []
        for j in range(rng.randint(2, 4)):
            e = self.expr(d - 1, after, True)
            if self.nullable(e): e = self.atom(True)
            if e.o == 'alt' and rng.random() < 0.5:
                e = self.atom(True)
            items.append(e)
        if not ne and rng.random() < 0.15:
            items[-1] = self.expr(d - 1, after, False)
        ok = []
        for e in items:     # earlier literals must not be beginnings of later ones
            w = self.lit_of(e)
            if w is not None and any(self.lit_of(x) is not None and w.startswith(self.lit_of(x)) for x in ok):
                continue
            ok.append(e)
        if len(ok) == 1:
            ok.append(leaf('any') if rng.random() < 0.5 else leaf('rx', cs=self.pool[0], min=1, max=1))
        return N('alt', *ok)

    def inter(self, d, after):
        rng = self.rng
        items = []
        for _ in range(rng.randint(2, 3)):
            e = self.plain(d - 1, after, True)
            k = rng.random()
            if k < 0.15: e = N('opt', e)
            elif k < 0.3: e = N('rep1', e)
            elif k < 0.4: e = N('rep0', e)
            elif k < 0.5 and self.counted: e = N('cnt', e, lo=rng.choice([0, 1, 2]), hi=2)
            elif k < 0.55: e = N('grp', N('opt', e))
            elif k < 0.6: e = N('grp', N('rep0', e))
            elif k < 0.65: e = N('grp', N('rep1', e))
            items.append(e)
        if all(x.o in ('opt', 'rep0') or (x.o == 'cnt' and x.lo == 0) or
               (x.o == 'grp' and x.a[0].o in ('opt', 'rep0')) for x in items):
            items[0] = leaf('lit', cs=self.word())
        e = N('inter', *items)
        if rng.random() < self.p['mand']:
            e.mand = rng.randint(1, len(items) - 1)
        return e

    def grammar(self):
        rng = self.rng
        n = self.nsym
        for k in range(n - 1, -1, -1):
            e = self.expr(rng.randint(0 if k else 1, self.depth), k)
            if e.o == 'ws': e = self.atom(True)
            self.defs[self.names[k]] = e
        if self.caps: self.add_captures()
        elif rng.random() < 0.35: self.add_recursion()
        if self.lrp and rng.random() < self.lrp: self.add_left_recursion()
        # symbols that are not reached would only cause warnings
        reached, todo = set(), [self.names[0]]
        while todo:
            s = todo.pop()
            if s not in reached:
                reached.add(s)
                todo += sorted(refs(self.defs[s]))
        self.names = [s for s in self.names if s in reached]
        order = self.names[1:]
        rng.shuffle(order)
        self.names = [self.names[0]] + order
        self.defs = {s: self.defs[s] for s in self.names}
        for e in self.defs.values(): self.finish(e)
        return self

    def finish(self, e):
        if e.o in ('opt', 'rep0', 'rep1') or (e.o == 'cnt' and (e.lo == 0 or e.hi < 0)): unmarked(e.a[0])
        for x in e.a: self.finish(x)

    def add_recursion(self):
        """x = ... | "(" x ")" : recursion behind something that is consumed"""
        rng = self.rng
        k = rng.randrange(self.nsym)
        target = self.names[rng.randint(0, k)]
        rec = N('seq', leaf('lit', cs=self.word(1)), leaf('sym', v=target), leaf('lit', cs=self.word(1)))
        if rng.random() < 0.3: rec.mand = rng.choice([1, 2])
        e = self.defs[self.names[k]]
        if self.nullable(e) or e.o in ('opt', 'rep0'):
            e = self.atom(True)
        self.defs[self.names[k]] = N('alt', rec, e)

    def add_left_recursion(self):
        rng = self.rng
        s = self.names[rng.randrange(self.nsym)]
        e = self.defs[s]
        if self.nullable(e) or s in refs_deep(self, s):
            return
        self.defs[s] = N('alt', N('seq', leaf('sym', v=s), leaf('lit', cs=self.word(1)), self.plain(0, self.nsym, True)), e)
        self.lr = True

    def add_captures(self):
        rng = self.rng
        v = rng.choice(['tag', 'quote', 'mark'])
        self.defs[v] = leaf('rx', cs=rng.choice(self.pool), min=1, max=rng.choice([-1, 2])) if rng.random() < .7 \
            else N('alt', leaf('ptext', cs=self.pool[0] * 2), leaf('ptext', cs=self.pool[0]))
        root = self.names[0]
        items = [leaf('sym', v=v)] + [self.plain(1, 0, True)]
        if rng.random() < 0.4: items.append(leaf(':', v=v))
        items.append(leaf('::' if rng.random() < 0.85 else ':?', v=v))
        if rng.random() < 0.3 and items[-1].o == '::': items.append(self.atom(True))
        self.defs[root] = N('seq', *items)
        self.names.append(v)
        self.nsym += 1


NAMES = ['doc', 'expr', 'term', 'item', 'wort', 'A', 'b1', 'c_2', 'Teil', 'x', 'satz', 'subitem', 'item2', 'vorteil', 'unterm']


KIN = ['item', 'subitem', 'item2', 'x_item', 'm', 'em', 'tem', 'it', 'item_x']


def refs(e):
    r = {e.v} if e.o in ('sym', ':', '::', ':?') else set()
    for x in e.a: r |= refs(x)
    return r


def refs_deep(g, s):
    seen, todo = set(), [s]
    while todo:
        for r in refs(g.defs[todo.pop()]):
            if r not in seen:
                seen.add(r)
                todo.append(r)
    return seen


# ------------------------------------------------------------------ trees -> tokens

LEVEL = {'alt': 0, 'seq': 1, 'inter': 2, 'diff': 3, 'drop': 3.5, '&': 1.5, '!': 1.5, '<-&': 1.5, '<-!': 1.5}


def tok(k, **kw):
    d = dict(k=k, v='', cs='', min=0, max=0, neg=False, n=0, p=-1)
    d.update(kw)
    return d


class Spell:
    """A random spelling of trees as tokens: redundant brackets, alternative notations"""

    def __init__(self, rng, dialect, paren=0.12):
        self.rng, self.dl, self.paren = rng, dialect, paren

    def grammar(self, g, hide=(), drop=()):
        while True:
            ts = self.once(g, hide, drop)
            # x* followed by a number would be read as counted repetition
            if all(a['k'] != '*' or b['k'] not in ('num', 'set') for a, b in zip(ts, ts[1:])): return ts

    def fine(self, e):
        """tokens of a bracketed expression"""
        while True:
            ts = [tok('(')] + self.at(e, 0) + [tok(')')]
            if all(a['k'] != '*' or b['k'] not in ('num', 'set') for a, b in zip(ts, ts[1:])): return ts

    def once(self, g, hide, drop):
        ts = []
        for s in g.names:
            if s in drop: ts.append(tok('MOD', v='DROP'))
            elif s in hide and self.rng.random() < 0.6: ts.append(tok('MOD', v='HIDE'))
            elif s in hide: pass
            ts += [tok('sym', v=s), tok('DEF')]
            if g.defs[s].o == 'alt' and self.rng.random() < 0.15:
                ts.append(tok('OR', v='lead'))
            ts += self.at(g.defs[s], 0)
            if s in hide and s not in drop and not any(
                    t['k'] == 'MOD' for t in ts[-1:]) and ts and not self.modded(ts, s):
                ts += [tok('ARROW'), tok('HIDEWORD')]
            if self.dl['ENDL']: ts.append(tok('ENDL'))
        return ts

    def modded(self, ts, s):
        for j, t in enumerate(ts):
            if t['k'] == 'sym' and t['v'] == s and j + 1 < len(ts) and ts[j + 1]['k'] == 'DEF':
                return j > 0 and ts[j - 1]['k'] == 'MOD'
        return False

    def at(self, e, level):
        """e where something of at least this level of precedence is required"""
        own = LEVEL.get(e.o, 4)
        if e.o == 'seq' and len(e.a) < 2 and e.mand is None:
            return self.at(e.a[0], level)
        if own < level or (self.rng.random() < self.paren and level < 3 and own not in (2,)
                           and e.o not in ('opt', 'rep0', 'rep1', 'cnt', 'grp') and e.o not in LEVEL):
            return [tok('(')] + self.raw(e) + [tok(')')]
        return self.raw(e)

    def raw(self, e):
        rng, o = self.rng, e.o
        if o == 'grp':
            return [tok('(')] + self.raw(e.a[0]) + [tok(')')]
        if o == 'alt':
            out = self.at(e.a[0], 1)
            for x in e.a[1:]:
                out += [tok('OR')] + self.at(x, 1)
            return out
        if o == 'seq':
            out = []
            for j, x in enumerate(e.a):
                if j and self.dl['AND']: out.append(tok('AND'))
                if e.mand == j: out.append(tok('MAND'))
                out += self.at(x, 1.5)
            return out
        if o in ('&', '!', '<-&', '<-!'):
            return [tok(o)] + self.part(e.a[0])
        if o == 'inter':
            out = []
            for j, x in enumerate(e.a):
                if j: out.append(tok('INTER'))
                if e.mand == j: out.append(tok('MAND'))
                out += self.at(x, 3) if x.o != 'diff' else [tok('(')] + self.raw(x) + [tok(')')]
            return out
        if o == 'drop':
            x = e.a[0]
            return (self.raw(x) if x.o in ('lit', 'ptext', 'rx', 'set', 'any', 'sym', 'opt', 'rep0', 'rep1', 'cnt')
                    else self.element(x)) + [tok('ARROW'), tok('DROPWORD')]
        if o == 'diff':
            return self.at(e.a[0], 4) + [tok('MINUS')] + self.part(e.a[1])
        if o in ('opt', 'rep0', 'rep1'):
            return self.rep(o, e.a[0])
        if o == 'cnt':
            return self.cnt(e)
        if o in (':', '::', ':?'):
            return [tok(o), tok('sym', v=e.v)]
        return [tok(o, v=e.v, cs=e.cs, min=e.min, max=e.max, neg=e.neg)]

    def element(self, e):
        """as an element: a leaf or in brackets"""
        return self.raw(e) if e.o in ('lit', 'ptext', 'rx', 'set', 'any', 'sym', ':', '::', ':?') and (
            self.rng.random() > self.paren) else [tok('(')] + self.raw(e) + [tok(')')]

    def part(self, e):
        if e.o == 'rep1':
            return self.rep('rep1', e.a[0], True)
        if e.o == 'rx' : return self.raw(e)
        return self.element(e)

    def rep(self, o, e, post=None):
        post = self.rng.random() < self.dl['postfix'] if post is None else post
        if post:
            return self.element(e) + [tok({'opt': '?', 'rep0': '*', 'rep1': '+'}[o])]
        if o == 'opt':
            return [tok('[')] + self.raw(e) + [tok(']')]
        return [tok('{')] + self.raw(e) + [tok('}' if o == 'rep0' else '}+')]

    def cnt(self, e):
        rng, (lo, hi), x = self.rng, (e.lo, e.hi), e.a[0]
        if hi < 0:      # at least
            return [tok('num', n=lo), tok('TIMES')] + self.rep('rep1', x)
        ways = [1]
        if lo == 0: ways += [2, 3] if self.dl['times'] else []
        if lo == hi: ways += [4, 5] if self.dl['times'] else []
        w = rng.choice(ways)
        if w == 2: return [tok('num', n=hi), tok('TIMES')] + self.rep('opt', x)
        if w == 3: return self.rep('opt', x) + [tok('TIMES'), tok('num', n=hi)]
        if w == 4: return [tok('num', n=lo), tok('TIMES')] + self.element(x)
        if w == 5: return self.element(x) + [tok('TIMES'), tok('num', n=lo)]
        return self.element(x) + [tok('RNG', min=lo, max=hi)]


# ------------------------------------------------------------------ tokens -> EBNF texts

DHPARSER = dict(name='dhparser', DEF='=', OR='|', AND='', ENDL='', RNG_OPEN='{', RNG_CLOSE='}', RNG_DELIM=',',
                TIMES='*', LEADIN='/', LEADOUT='/', CH='0x', postfix=0.4, times=True, comments=True, free=False, hexrange=True,
                config=None, flavor=None)


def unesc(q, inner): return re.sub(r'(?<!\\)((?:\\\\)*)\\' + q, r'\1' + q, inner)


def quote(s, rng, plain=False, third=False):
    """literal or plain text: any backslash is just a backslash unless it precedes the quotation mark"""
    assert not re.search(r'(?<!\\)\\$', s), s       # `a\` could just as well go on
    qs = ['`'] if plain else ['"', '"', "'"] + ['’'] * third
    rng.shuffle(qs)
    qs.sort(key=lambda q: q in s and rng.random() < 0.7)
    for q in qs:
        inner = s.replace(q, '\\' + q)
        if unesc(q, inner) == s: return q + inner + q
    raise Unspellable(s)


class Unspellable(Exception): pass


class Printer:
    def __init__(self, rng, dialect, noise=0.25):
        self.rng, self.dl, self.noise = rng, dialect, noise

    def one(self, t):
        rng, dl, k = self.rng, self.dl, t['k']
        if k == 'sym': return t['v']
        if k == 'MOD':
            w = rng.choice(['HIDE', 'Hide', 'hide', 'DISPOSE', 'Dispose', 'dispose', ''] if t['v'] == 'HIDE' else
                           ['DROP', 'Drop', 'drop', 'SKIP', 'Skip', 'skip'])
            return w + rng.choice([':', ': ', ' : '])
        if k == 'HIDEWORD': return rng.choice(['HIDE', 'hide', 'Dispose'])
        if k == 'DROPWORD': return rng.choice(['DROP', 'drop', 'Skip'])
        if k == 'lit': return quote(t['cs'], rng, third=dl['name'] == 'dhparser')
        if k == 'ptext': return quote(t['cs'], rng, True)
        if k == 'rx' and t['v']: return dl['LEADIN'] + t['v'] + dl['LEADOUT']     # not a regular expression
        if k == 'rx':
            s = rx_src(t['cs'], t['min'], t['max'], t['neg'])
            return dl['LEADIN'] + s + dl['LEADOUT']
        if k == 'set':
            ways = ['ranges']
            if not t['neg'] and len(t['cs']) == 1 and ord(t['cs']) < 0x10000: ways += ['char', 'char']
            if dl['hexrange']: ways.append('hexrange')
            if dl['free'] and not set(t['cs']) & set('^-[]\\\n \'"`´/~') and len(t['cs']) > 1: ways += ['free']
            w = rng.choice(ways)
            if w == 'char': return dl['CH'] + self.hex(t['cs'])
            if w == 'hexrange':
                return '[' + ('^' if t['neg'] else '') + ''.join(dl['CH'] + self.hex(c) for c in t['cs']) + ']'
            if w == 'free': return '[' + ('^' if t['neg'] else '') + t['cs'] + ']'
            return dl['LEADIN'] + rx_src(t['cs'], 1, 1, t['neg']) + dl['LEADOUT']
        if k == 'any': return '.'
        if k == 'ws': return '~'
        if k == 'num': return str(t['n'])
        if k == 'RNG':
            lo, hi = t['min'], t['max']
            sp = rng.choice(['', '', ' '])
            body = str(lo) if lo == hi and rng.random() < 0.7 else f"{lo}{sp}{dl['RNG_DELIM']}{sp}{hi}"
            return dl['RNG_OPEN'] + sp + body + sp + dl['RNG_CLOSE']
        if k in ('DEF', 'OR', 'AND', 'ENDL', 'TIMES'): return dl[k]
        return PUNCT.get(k, k)

    def hex(self, c):
        h = '%x' % ord(c)
        if self.rng.random() < 0.3: h = h.upper()
        return h if '0' != h[0] else h

    def gap(self, a, b, first):
        """what stands between two tokens"""
        rng = self.rng
        if first: return '\n' + (' ' * rng.choice([0, 0, 2]) if rng.random() < .9 else '\n    # comment: a = "b"\n')
        if a in ('<-&', '<-!', '&', '!', ':', '::', ':?') and rng.random() < 0.7: return ''
        if a in (':', '::', ':?', 'MOD'): return ''
        if b in ('?', '*', '+', 'RNG') and (b != '*' or rng.random() < 2): return ''
        if a == 'MAND' and rng.random() < 0.5: return ''
        if rng.random() < 0.03 * self.noise * 4 and self.dl['comments']:
            return rng.choice([' /* "c" | ) */ ', ' (* c = d *) ', ' # } c\n   ', '\n      '])
        if rng.random() < self.noise and a in ('(', '{') and b not in ('num',): return ''
        if rng.random() < self.noise and b in (')', '}', '}+'): return ''
        return ' '

    def text(self, ts, head=''):
        """EBNF-text; the tokens' positions are entered into the tokens"""
        out, pos = [head], len(head)

        def put(s):
            nonlocal pos
            out.append(s)
            pos += len(s)
        prev = None
        for j, t in enumerate(ts):
            k = t['k']
            begins = (k == 'MOD') or (k == 'sym' and j + 1 < len(ts) and ts[j + 1]['k'] == 'DEF' and prev != 'MOD')
            s = self.one(t)
            if prev is not None or head:
                put(self.gap(prev, k, begins))
            if k == 'MOD' and s.startswith(' '): s = s.lstrip()
            if k == 'MOD' and prev == 'sym' and s.startswith(':'): s = 'HIDE' + s     # a : b = ... reads like the modifier a
            t['p'] = pos
            put(s)
            prev = k
        put('\n')
        return ''.join(out)


# ------------------------------------------------------------------ texts to parse

class Derive:
    def __init__(self, rng, g, ws=' ', lit=('right',), comment=None):
        self.rng, self.g, self.ws, self.lit, self.comment = rng, g, ws, lit, comment
        self.caught = {}

    def sp(self):
        r = self.rng.random()
        if r < 0.65 or not self.ws: return ''
        if self.comment and r > 0.9: return self.comment[0] + self.rng.choice(['', 'a', self.ws[0]]) + self.comment[1]
        return self.rng.choice(self.ws) * self.rng.choice([1, 1, 2])

    def run(self, e, d=6):
        rng, o = self.rng, e.o
        if d < 0: return ''
        if o == 'lit':
            return (self.sp() if 'left' in self.lit else '') + e.cs + (self.sp() if 'right' in self.lit else '')
        if o == 'ptext': return e.cs
        if o in ('rx', 'set'):
            hi = e.max if e.max >= 0 else e.min + 2
            pool = [c for c in (self.g.pool + 'ax') if (c in e.cs) != e.neg] or ['']
            return ''.join(rng.choice(pool) for _ in range(rng.randint(e.min, hi)))
        if o == 'any': return rng.choice(self.g.pool)
        if o == 'ws': return self.sp()
        if o == 'sym':
            s = self.run(self.g.defs[e.v], d - 1)
            self.caught.setdefault(e.v, []).append(s)
            return s
        if o in (':', '::', ':?'):
            s = (self.caught.get(e.v) or [''])[-1]
            return s if rng.random() < 0.9 else s[:-1]
        if o == 'alt': return self.run(rng.choice(e.a), d - 1)
        if o == 'opt': return self.run(e.a[0], d - 1) if rng.random() < .6 else ''
        if o == 'rep0': return ''.join(self.run(e.a[0], d - 1) for _ in range(rng.choice([0, 1, 2, 2])))
        if o == 'rep1': return ''.join(self.run(e.a[0], d - 1) for _ in range(rng.choice([1, 1, 2, 3])))
        if o == 'cnt':
            hi = e.hi if e.hi >= 0 else e.lo + 1
            return ''.join(self.run(e.a[0], d - 1) for _ in range(rng.randint(e.lo, hi)))
        if o == 'inter':
            parts = []
            for x in e.a:
                if x.o in ('rep0', 'rep1', 'cnt'):
                    parts += [self.run(x.a[0], d - 1) for _ in range(rng.choice([1, 1, 2]))]
                else:
                    parts.append(self.run(x, d - 1))
            rng.shuffle(parts)
            return ''.join(parts)
        if o == 'diff': return self.run(e.a[0], d - 1)
        if o == '&': return ''
        if o in ('!', '<-&', '<-!'): return ''
        return ''.join(self.run(x, d - 1) for x in e.a)


def texts(g, rng, n, maxlen, alphabet, ws=' ', lit=('right',), comment=None):
    out = []
    for k in range(n * 8):
        if len(out) >= n: break
        d = Derive(rng, g, ws, lit, comment)
        t = d.run(g.defs[g.names[0]])
        r = rng.random()
        if r > 0.55 and t:
            j = rng.randrange(len(t))
            c = rng.choice(alphabet)
            t = t[:j] + t[j + 1:] if r < 0.7 else t[:j] + c + t[j:] if r < 0.85 else t[:j] + c + t[j + 1:]
        elif r > 0.48:
            t += rng.choice(alphabet)
        if len(t) <= maxlen and t not in out and t:
            out.append(t)
    return out


# ------------------------------------------------------------------ compiling and running for real

WS = {'horizontal': ' \t', 'vertical': ' \t\n\r\f\v', 'linefeed': ' \t', 'linestart': ' \t'}


def head(rng, dl, d):
    """the directives as text.  d: dict(ws, comment, lit, ic, hide, drop, reduction, opt, flavor ...)"""
    L, R = dl['LEADIN'], dl['LEADOUT']
    ls = []
    if dl['flavor'] and dl['flavor'] != 'config':
        ls.append('@ flavor = ' + dl['flavor'])
    rest = ['@ whitespace = ' + (d['ws'] if d['ws'] in WS else L + rx_src(d['ws'], 0, -1, False) + R),
            '@literalws=' + (', '.join(d['lit']) or 'none')]
    if d.get('comment'):
        a, b = d['comment']
        rest.append('@comment%s = ' % ('_keep' if d.get('dropkeep') else '') + L + (re.escape(a) + '[^%s]*' % re.escape(b) + re.escape(b)).replace('/', '\\/') + R)
    if d.get('ic') is not None: rest.append('@ ignorecase = ' + str(d['ic']))
    if d.get('opt') is not None: rest.append('@ optimizations = ' + ', '.join(d['opt']))
    if d.get('reduction') is not None: rest.append('@ reduction = ' + str(d['reduction']))
    rng.shuffle(rest)
    if d.get('hide') and d.get('hiderx'):
        rest.append('@ hide = ' + L + '(?:%s)$' % '|'.join(d['hide']) + R)
    elif d.get('hide') and rng.random() < 0.3:
        rest += ['@ disposable = ' + s for s in d['hide']]
    elif d.get('hide'): rest.append('@ %s = %s' % (rng.choice(['hide', 'disposable']), ', '.join(d['hide'])))
    if d.get('drop') and rng.random() < 0.3: rest += ['@ drop = ' + s for s in d['drop']]
    elif d.get('drop'): rest.append('@ drop = ' + ', '.join(d['drop']))
    for key in ('skip', 'resume'):
        for sym, rules in d.get(key, {}).items():
            rest.append('@ %s_%s = %s' % (sym, key, ', '.join(rule_src(r, L, R) for r in rules)))
    for sym, rules in d.get('error', {}).items():
        for r in rules:
            src = "''" if r[:1] == ('s', '') else rule_src(r[0], L, R)
            one = r[0] == ('s', '') and rng.random() < 0.5
            rest.append('@ %s_error = %s"%d:%s"' % (sym, '' if one else ("''" if r[0][1] == '' else src) + ', ', r[1], r[2]))
    return '\n'.join(ls + rest + d.get('extra', [])) + '\n'


def spec_d(d):
    a, b = d.get('comment') or ('', '')
    return {'ws': list(WS.get(d['ws'], d['ws'])), 'ca': list(a), 'cb': list(b), 'lit': list(d['lit']), 'ic': bool(d.get('ic')),
            'hide': list(d.get('hide', ())), 'drop': list(d.get('drop', ())) + list(d.get('dropkeep', ())),
            'lf': d['ws'] if d['ws'] in ('linefeed', 'linestart') else '',
            'lv': {None: 1, 'none': 0, 'flatten': 1, 'merge_treetops': 2, 'merge_leaves': 3, 'merge': 3}[d.get('reduction')],
            'skip': {k: [spec_rule(r) for r in v] for k, v in d.get('skip', {}).items()},
            'resume': {k: [spec_rule(r) for r in v] for k, v in d.get('resume', {}).items()},
            'error': {k: [dict(spec_rule(r[0]), code=r[1]) for r in v] for k, v in d.get('error', {}).items()},
            'arts': [], 'msgs': [dict(code=r[1], msg=r[2]) for v in d.get('error', {}).values() for r in v]}


# skip-, resume- and error-rules: ('s', string), ('a', string) before the string, ('r', characters), ('p', symbol)
def spec_rule(r):
    return dict(k=r[0], cs=list(r[1]) if r[0] != 'p' else [], neg=False, ref=0, name=r[1] if r[0] == 'p' else '')


def rule_src(r, L='/', R='/'):
    if r[0] == 's': return L + re.escape(r[1]).replace('/', '\\/') + R
    if r[0] == 'r': return L + rx_src(r[1], 1, -1, False) + R
    if r[0] == 'a': return '"%s"' % r[1]
    return r[-1]


def spec_t(ts):
    return [dict(t, cs=list(t['cs'])) for t in ts]


def compile_ebnf(src, dl=None, secs=20, static='early'):
    """-> (Grammar object or None, [(code, position)], exception)"""
    import peglib
    from DHParser import configuration as C, dsl
    C.set_config_value('static_analysis', static)
    if dl and dl.get('config'):
        for k, v in dl['config'].items(): C.set_config_value(k, v)
    try:
        with peglib.limit(secs):
            gr = dsl.create_parser(src)
        return gr, [], ''
    except peglib.Timeout:
        return None, [], 'TIMEOUT'
    except dsl.DefinitionError as e:
        return None, [(int(x.code), int(x.pos)) for x in e.errors], \
            'DefinitionError: ' + '; '.join(str(x)[:150] for x in e.errors[:3])
    except Exception as e:
        return None, [], type(e).__name__ + ': ' + str(e)[:300]
    finally:
        C.set_config_value('static_analysis', C.CONFIG_PRESET['static_analysis'])
        if dl and dl.get('config'):
            for k in dl['config']: C.set_config_value(k, C.CONFIG_PRESET[k])
