"""Generation of parser-combinator grammars as plain data (the representation that
spec/Peg.tla reads), construction of the real DHParser parsers from that data, and
projection of what the real parsers did back to plain data."""
import copy
import signal
from contextlib import contextmanager

PT = {'text': ':Text', 'icase': ':IgnoreCase', 'rx': ':RegExp', 'ws': ':Whitespace',
      'any': ':AnyChar', 'always': ':Always', 'never': ':Never', 'smart': ':SmartRE',
      'opt': ':Option', 'alt': ':Alternative', 'seq': ':Series', 'inter': ':Interleave',
      'la': ':Lookahead', 'nla': ':NegativeLookahead', 'lb': ':Lookbehind',
      'nlb': ':NegativeLookbehind', 'syn': ':Synonym', 'fwd': ':Forward',
      'cap': ':Capture', 'ret': ':Retrieve', 'pop': ':Pop'}
NO_MAND = 1000


class Timeout(Exception):
    pass


@contextmanager
def limit(seconds):
    def h(sig, frm):
        raise Timeout()
    old = signal.signal(signal.SIGALRM, h)
    signal.setitimer(signal.ITIMER_REAL, seconds)
    try:
        yield
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.signal(signal.SIGALRM, old)


# ------------------------------------------------------------------ AST -> list of records

class G:
    """A grammar under construction; node indices are 1-based as in TLA+."""

    def __init__(self, level=1):
        self.N = []
        self.lv = level
        self.skip, self.resume, self.error = {}, {}, {}
        self.start = 1
        self.start_name = None
        self.lr = True
        self.comments = False

    def add(self, op, args=(), **kw):
        r = dict(op=op, **{'as': list(args)}, nm='', an=True, dj=True, dr=False, sym='')
        r.update(kw)
        if not r['nm']:
            if op == 'rep':
                r['nm'] = (':ZeroOrMore' if (r['lo'], r['hi']) == (0, -1) else
                           ':OneOrMore' if (r['lo'], r['hi']) == (1, -1) else ':Counted')
            elif op == 'rx' and r.get('ws'):
                r['nm'] = ':Whitespace'
            else:
                r['nm'] = PT[op]
        self.N.append(r)
        return len(self.N)

    def text(self, s, **kw): return self.add('text', cs=list(s), **kw)
    def icase(self, s, **kw): return self.add('icase', cs=list(s), **kw)

    def rx(self, cs, lo=0, hi=-1, neg=False, **kw):
        return self.add('rx', cs=list(cs), min=lo, max=hi, neg=neg, **kw)

    def name(self, i, nm, disposable=False):
        r = self.N[i - 1]
        assert r['an']
        r['pn'] = nm
        r['an'], r['dj'] = disposable, disposable
        r['nm'] = ':' + nm if disposable else nm
        return i

    def node(self, i): return self.N[i - 1]

    def finish(self, start=None):
        if start is not None:
            self.start = start
        self._symbols()
        self._propagate_drop()
        return self

    def _propagate_drop(self):
        """what belongs to a dropped expression and is not a symbol is dropped, too"""
        todo = [r for r in self.reach() if r['dr']]
        while todo:
            for a in todo.pop()['as']:
                r = self.N[a - 1]
                if r['op'] != 'fwd' and not r.get('pn') and not r['dr']:
                    r['dr'] = True
                    todo.append(r)

    def _symbols(self):
        seen = set()

        def walk(i, sym):
            r = self.N[i - 1]
            if r.get('pn'):
                sym = r['pn']
            if r['op'] == 'fwd':
                sym2 = self.N[r['as'][0] - 1].get('pn') or sym
                r['sym'] = sym2
            else:
                r['sym'] = sym
            if i in seen:
                return
            seen.add(i)
            for a in r['as']:
                walk(a, sym)
        walk(self.start, 'root')
        for i in self.rule_refs():
            walk(i, 'root')

    def spec(self, text):
        keys_drop = {'pn', 'ws'}
        return {'x': list(text), 'lv': self.lv, 'lr': self.lr, 'start': self.start,
                'N': [{k: v for k, v in r.items() if k not in keys_drop} for r in self.N],
                'comments': self.comments,
                'skip': {k: [rule_spec(t) for t in v] for k, v in self.skip.items()},
                'resume': {k: [rule_spec(t) for t in v] for k, v in self.resume.items()},
                'error': {k: [dict(rule_spec(t), code=c) for t, c in v] for k, v in self.error.items()}}

    def has(self, *ops): return any(r['op'] in ops for r in self.reach())
    def skipping_smart(self):
        return any(not q['cap'] for r in self.reach() if r['op'] == 'smart' for q in r['gr'])

    def drops(self): return any(r['dr'] for r in self.reach())

    def rule_refs(self):
        return [t[1] for d in (self.skip, self.resume) for v in d.values() for t in v if t[0] == 'p']

    def reach(self):
        seen, todo = set(), [self.start] + self.rule_refs()
        while todo:
            i = todo.pop()
            if i not in seen:
                seen.add(i)
                todo.extend(self.N[i - 1]['as'])
        return [self.N[i - 1] for i in sorted(seen)]


def rule_spec(t):
    """skip- and resume-rules: ('s', string), ('r', characters) for the regular expression
    [characters]+, ('a', string) for the place before the string, ('p', index of a parser)"""
    return {'k': t[0], 'cs': list(t[1]) if t[0] != 'p' else [], 'neg': False,
            'ref': t[1] if t[0] == 'p' else 0}


COMMENT = '#[^;]*;'


def rule_real(t, parsers):
    import re
    return (t[1] if t[0] == 's' else re.compile('[%s]+' % t[1]) if t[0] == 'r' else
            re.compile('(?=%s)' % re.escape(t[1])) if t[0] == 'a' else parsers[t[1]])


def messages(g):
    return {k: [(rule_real(t, {}), '%d:{0} or {1}' % c) for t, c in v] for k, v in g.error.items()}


def cls_rx(r):
    s = ''.join('\\' + c if c in '\\]^-[' else c for c in r['cs'])
    body = f"[{'^' if r['neg'] else ''}{s}]" if (s or r['neg']) else '(?!)'
    lo, hi = r['min'], r['max']
    q = {(0, -1): '*', (1, -1): '+', (1, 1): '', (0, 1): '?'}.get(
        (lo, hi), '{%d,%s}' % (lo, '' if hi < 0 else hi))
    return body + q


def build(g, as_class=None):
    """-> real Grammar object for g, made of bare parsers or as an instance of a Grammar-class"""
    import re
    from DHParser import parse as P
    cache = {}
    fwd_todo = []

    def mk(i):
        if i in cache:
            return cache[i]
        r = g.N[i - 1]
        op = r['op']
        if op == 'fwd':
            f = P.Forward()
            cache[i] = f
            fwd_todo.append((f, r['as'][0]))
            return f
        a = [mk(k) for k in r['as']]
        if op == 'text': p = P.Text(''.join(r['cs']))
        elif op == 'icase': p = P.IgnoreCase(''.join(r['cs']))
        elif op == 'rx':
            p = P.Whitespace(cls_rx(r)) if r.get('ws') else P.RegExp(cls_rx(r))
        elif op == 'any': p = P.AnyChar()
        elif op == 'always': p = P.Always()
        elif op == 'never': p = P.Never()
        elif op == 'smart':
            pat = ''
            for q in r['gr']:
                b = re.escape(''.join(q['cs'])) if q['lit'] else cls_rx(q)
                if q['cap']:
                    nm = q['nm']
                    b = f'(?P<{nm}>{b})' if nm != ':RegExp' else f'({b})'
                pat += b
            p = P.SmartRE(pat)
        elif op == 'opt': p = P.Option(a[0])
        elif op == 'rep':
            lo, hi = r['lo'], r['hi']
            p = P.ZeroOrMore(a[0]) if (lo, hi) == (0, -1) else \
                P.OneOrMore(a[0]) if (lo, hi) == (1, -1) else P.Counted(a[0], (lo, hi))
        elif op == 'alt': p = P.Alternative(*a)
        elif op == 'seq':
            p = P.Series(*a, mandatory=r['mand']) if r['mand'] < len(a) else P.Series(*a)
        elif op == 'inter':
            kw = {'mandatory': r['mand']} if r['mand'] < len(a) else {}
            p = P.Interleave(*a, repetitions=[tuple(x) for x in r['reps']], **kw)
        elif op == 'la': p = P.Lookahead(a[0])
        elif op == 'nla': p = P.NegativeLookahead(a[0])
        elif op == 'lb': p = P.Lookbehind(a[0])
        elif op == 'nlb': p = P.NegativeLookbehind(a[0])
        elif op == 'syn': p = P.Synonym(a[0])
        elif op == 'cap': p = P.Capture(a[0])
        elif op in ('ret', 'pop'):
            C = P.Retrieve if op == 'ret' else P.Pop
            mf = {'last': None, 'bracket': P.matching_bracket,
                  'optional': P.optional_last_value}[r['match']]
            p = C(a[0], mf) if mf else C(a[0])
        else:
            raise AssertionError(op)
        cache[i] = p
        if r['dr']:
            P.Drop(p)
        return p
    root = mk(g.start)
    for i in g.rule_refs():
        mk(i)
    while fwd_todo:
        f, t = fwd_todo.pop()
        f.set(mk(t))
    if as_class is None:
        as_class = bool(g.rule_refs())
    if as_class:
        # like the classes that the EBNF-compiler generates
        cd, hidden = {}, set()
        fwd_of = {r['as'][0]: cache[i] for i, r in enumerate(g.N, 1) if r['op'] == 'fwd' and i in cache}
        for i, p in sorted(cache.items(), key=lambda x: x[0] not in fwd_of):    # forwards first
            r = g.N[i - 1]
            if r.get('pn'):
                cd[r['pn']] = fwd_of.get(i, p)
                if r['an']:
                    hidden.add(r['pn'])
        cd.update(root__=cd[g.N[g.start - 1]['pn']], disposable__=frozenset(hidden),
                  early_tree_reduction__=g.lv, COMMENT__=COMMENT if g.comments else '',
                  parser_initialization__=['pending'], static_analysis_pending__=[],
                  static_analysis_errors__=[],
                  resume_rules__={k: [rule_real(t, cache) for t in v] for k, v in g.resume.items()},
                  skip_rules__={k: [rule_real(t, cache) for t in v] for k, v in g.skip.items()},
                  error_messages__=messages(g))
        cls = type('RandomGrammar', (P.Grammar,), cd)
        return cls(static_analysis=False)
    for i, p in cache.items():
        r = g.N[i - 1]
        if r.get('pn'):
            if r['an']:
                p.name(r['pn'], disposable=True)
            else:
                p.name(r['pn'])
    P.TreeReduction(root, g.lv)
    gr = P.Grammar(root, static_analysis=False)
    gr.resume_rules__ = {k: [rule_real(t, {}) for t in v] for k, v in g.resume.items()}
    gr.skip_rules__ = {k: [rule_real(t, {}) for t in v] for k, v in g.skip.items()}
    gr.error_messages__ = messages(g)
    if g.comments:
        gr.comment_rx__ = re.compile(COMMENT)
    return gr


ARTI = ('_skip_', '_resume_', 'ZOMBIE__')


def proj(nd, pos=True):
    """Real tree -> plain data"""
    name = nd.name
    if name.endswith('__') and any(a in name for a in ARTI):
        name = 'ZOMBIE__'
    return {'n': name, 'a': name[0:1] == ':', 'c': [proj(c, pos) for c in nd.children],
            't': [] if nd.children else list(str(nd.result)),
            'p': nd.pos if pos else 0}


EXC0 = dict(kind='exc', end=0, tree={'n': '', 'a': False, 'c': [], 't': [], 'p': 0},
            errs=[], content=[])


def observe(gr, text, start=None, secs=10, **kw):
    """Runs the real grammar and projects the outcome."""
    try:
        with limit(secs):
            return observe_nolimit(gr, text, start, **kw)
    except Timeout:
        return dict(EXC0, exc='TIMEOUT')


def observe_nolimit(gr, text, start=None, **kw):
    try:
        r = gr(text, start, **kw) if start else gr(text, **kw)
        return outcome(r, text)
    except Timeout:
        raise
    except Exception as e:      # an uncaught exception is an observation, too
        return dict(EXC0, exc=type(e).__name__ + ': ' + str(e)[:200])


def kind_end(t, text):
    """kind of outcome judging by the projected tree alone (text not empty)"""
    ch = list(t['c'])
    if ch and ch[-1]['n'] == 'ZOMBIE__' and not tlen(ch[-1]):
        ch.pop()            # the mark of values left on the capture stack
    if t['n'] == 'ZOMBIE__' and ch and ch[-1]['n'] == 'ZOMBIE__':
        if len(ch) == 1:
            return 'none', 0
        return 'part', len(text) - tlen(ch[-1])
    return 'full', len(text)


def tlen(t): return sum(map(tlen, t['c'])) if t['c'] else len(t['t'])


def outcome(r, text):
    errs = sorted({(int(e.pos), int(e.code)) for e in r.errors if e.code >= 1000})
    warn = {int(e.code) for e in r.errors if e.code < 1000}
    t = proj(r)
    kind, end = 'full', len(text)
    ch = list(r.children)
    if ch and ch[-1].name == 'ZOMBIE__' and not ch[-1].content and any(
            c in (1050, 1052, 1055, 1057) for _, c in errs):
        ch.pop()        # the mark of values left on the capture stack
    if r.name == 'ZOMBIE__' and not ch and not text:
        kind, end = 'none', 0
    elif r.name == 'ZOMBIE__' and any(c == 1040 for _, c in errs):
        if len(ch) == 1 or ('\n' in text and ch[0].name == 'ZOMBIE__'):
            kind, end = 'none', 0
        else:       # the unmatched rest is broken up after its first line
            kind = 'part'
            end = len(ch[0].content) if '\n' in text else len(text) - len(ch[-1].content)
    elif 720 in warn:
        kind = 'wsp'
    return {'exc': '', 'kind': kind, 'end': end, 'tree': t, 'errs': [list(e) for e in errs],
            'content': list(r.content)}


# ------------------------------------------------------------------ random grammars

LETTERS = 'abc'


class Gen:
    def __init__(self, rng, drop=0.0, named=0.3, hidden=0.15, look=0.15, recur=0.0,
                 smart=0.1, mand=0.0, level=None, alphabet=LETTERS, blanks=0.0, rules=0.0, msgs=0.0):
        self.rng, self.o = rng, dict(drop=drop, named=named, hidden=hidden, look=look,
                                     recur=recur, smart=smart, mand=mand, blanks=blanks, rules=rules, msgs=msgs)
        self.al = alphabet
        self.g = G(rng.randint(0, 3) if level is None else level)
        self.nn = 0
        self.fwds = []

    def p(self, k): return self.rng.random() < self.o[k]

    def deco(self, i, droppable=True):
        r = self.g.node(i)
        if self.p('named'):
            self.nn += 1
            self.g.name(i, 's%d' % self.nn, disposable=self.p('hidden'))
        elif droppable and self.p('drop') and r['op'] in ('text', 'icase', 'rx', 'seq', 'alt', 'rep', 'opt'):
            r['dr'] = True
        return i

    def word(self, n=2):
        return ''.join(self.rng.choice(self.al) for _ in range(self.rng.randint(1, n)))

    def leaf(self, nonempty=False):
        g, rng = self.g, self.rng
        k = rng.random()
        if k < 0.5:
            i = g.text(self.word())
        elif k < 0.58:
            w = self.word()
            i = g.icase(w.upper() if rng.random() < 0.5 else w)
        elif k < 0.80:
            cs = rng.sample(self.al, rng.randint(1, 2))
            lo = rng.choice([1, 1, 0]) if not nonempty else 1
            hi = rng.choice([-1, -1, 1, 2])
            i = g.rx(cs, lo, hi, neg=rng.random() < 0.15)
            if lo == 0 and rng.random() < 0.3 and hi == -1:
                g.node(i)['ws'] = True
                g.node(i)['nm'] = ':Whitespace'
        elif k < 0.86:
            i = g.add('any')
        elif k < 0.9 and not nonempty:
            i = g.add(rng.choice(['always', 'never']))
        elif self.p('smart') or rng.random() < 0.3:
            i = self.smart()
        else:
            i = g.text(self.word(1))
        return self.deco(i)

    def smart(self):
        """regular expression made of pieces such that greedy matching never backtracks"""
        rng, n = self.rng, self.rng.randint(1, 3)
        gr, used = [], None
        for k in range(n):
            lit = rng.random() < 0.5
            cap = rng.random() < 0.7
            named = rng.random() < 0.6
            self.nn += 1
            nm = 'm%d' % self.nn if named else ':RegExp'
            if lit:
                c = rng.choice(self.al)
                # a class before must not contain the literal's first character
                if used and c in used:
                    c = next((x for x in self.al if x not in used), None)
                    if c is None:
                        break
                cs, mi, ma, used = [c], 1, 1, None
            else:
                pool = [x for x in self.al if not used or x not in used]
                if not pool:
                    break
                cs = rng.sample(pool, rng.randint(1, min(2, len(pool))))
                mi, ma = rng.choice([(0, -1), (1, -1), (1, -1), (0, 1)])
                used = (set(used) if used else set()) | set(cs)
            gr.append(dict(lit=lit, cs=cs, min=mi, max=ma, neg=False, cap=cap, nm=nm,
                           an=nm[0] == ':'))
        return self.g.add('smart', gr=gr)

    def expr(self, d, nonempty=False):
        g, rng = self.g, self.rng
        if d <= 0 or rng.random() < 0.12:
            if self.fwds and self.p('recur'):
                return rng.choice(self.fwds)
            return self.leaf(nonempty)
        k = rng.random()
        if k < 0.30:
            n = rng.randint(2, 3)
            args = [self.expr(d - 1, nonempty and j == 0) for j in range(n)]
            if self.p('look'):
                args.insert(rng.randint(0, len(args)), self.look(d - 1))
            i = g.add('seq', args, mand=NO_MAND)
            if self.p('mand'):
                m = rng.randint(0 if rng.random() < 0.2 else 1, len(args) - 1)
                if not any(g.node(a)['op'] in ('la', 'nla', 'lb', 'nlb') for a in args[m:]):
                    g.node(i)['mand'] = m
        elif k < 0.52:
            i = g.add('alt', [self.expr(d - 1, nonempty) for _ in range(rng.randint(2, 3))])
        elif k < 0.62 and not nonempty:
            i = g.add('opt', [self.expr(d - 1)])
        elif k < 0.80:
            lo, hi = rng.choice([(0, -1), (1, -1), (2, 2), (1, 3), (0, 2), (2, 3), (2, 4), (1, 2)])
            if nonempty and lo == 0:
                lo = 1
                hi = max(hi, 1) if hi > 0 else hi
            i = g.add('rep', [self.expr(d - 1, True)], lo=lo, hi=hi)
        elif k < 0.88:
            n = rng.randint(2, 3)
            reps = [rng.choice([(1, 1), (1, 1), (0, 1), (1, 2), (0, 2), (2, 2)]) for _ in range(n)]
            if nonempty:
                reps[0] = (1, 1)
            i = g.add('inter', [self.expr(d - 1, True) for _ in range(n)],
                      reps=[list(x) for x in reps], mand=NO_MAND)
            if self.p('mand'):
                g.node(i)['mand'] = rng.randint(0, n - 1)
        elif k < 0.94:
            i = g.add('syn', [self.expr(d - 1, nonempty)])
        elif not nonempty:
            return self.look(d - 1)
        else:
            return self.leaf(True)
        return self.deco(i)

    def look(self, d):
        g, rng = self.g, self.rng
        op = rng.choice(['la', 'la', 'nla', 'nla', 'lb', 'nlb'])
        if op in ('lb', 'nlb'):
            a = g.text(self.word()) if rng.random() < 0.6 else g.rx(rng.sample(self.al, 2), 1, rng.choice([1, -1]))
        else:
            a = self.expr(d)
        i = g.add(op, [a])
        if self.p('named') and rng.random() < 0.4:
            self.nn += 1
            g.name(i, 's%d' % self.nn)
        return i

    def grammar(self, depth):
        g, rng = self.g, self.rng
        if self.o['recur'] > 0:
            # guarded recursion: R := first-consuming seq containing R | leaf
            f = g.add('fwd', [0])
            self.fwds.append(f)
            op, cl = rng.choice([('(', ')'), ('[', ']'), ('a', 'b'), ('x', '')])
            inner = [g.text(op), self.expr(depth - 1) if rng.random() < 0.4 else f]
            if cl:
                inner.append(g.text(cl))
            s = g.add('seq', inner, mand=NO_MAND)
            s = self.deco(s)
            alts = [s, self.leaf(True)]
            if rng.random() < 0.3:
                alts.insert(1, self.leaf(True))
            a = g.add('alt', alts)
            self.nn += 1
            g.name(a, 'r%d' % self.nn)
            g.node(f)['as'] = [a]
        top = self.expr(depth, )
        r = g.node(top)
        if r['op'] == 'fwd' or r.get('pn') or r['dr']:
            top = g.add('seq', [top, self.expr(1)], mand=NO_MAND)
        g.name(top, 'root')
        g.finish(top)
        if self.o['rules'] > 0 or self.o['msgs'] > 0:
            self.add_rules()
        return g


    def wide(self):
        """many short parts in one row: named, hidden, anonymous, nested"""
        g, rng = self.g, self.rng

        def part(d):
            k = rng.random()
            if k < 0.2 and d:
                i = g.add('seq', [part(d - 1) for _ in range(rng.randint(2, 3))], mand=NO_MAND)
            elif k < 0.3 and d:
                i = g.add('alt', [part(d - 1) for _ in range(2)])
            elif k < 0.4 and d:
                i = g.add('opt', [part(d - 1)])
            elif k < 0.45 and d:
                i = g.add('rep', [g.text(self.word(1))], lo=0, hi=-1)
            elif k < 0.5 and d:
                i = g.add('syn', [part(d - 1)])
            else:
                i = g.text(self.word(1)) if rng.random() < 0.8 else g.rx(rng.choice(self.al), 0, 1)
            return self.deco(i)
        n = rng.randint(4, 9)
        parts = [part(2) for _ in range(n)]
        if rng.random() < 0.4:
            k = rng.randrange(n)        # one symbol several times
            parts = [parts[k] if rng.random() < 0.3 else x for x in parts]
        top = g.add('seq', parts, mand=NO_MAND)
        if rng.random() < 0.3:
            top = g.add('rep', [top], lo=1, hi=-1)
        g.name(top, 'root')
        return g.finish(top)

    def add_rules(self):
        """random skip- and resume-rules for the symbols"""
        g, rng = self.g, self.rng
        g.comments = rng.random() < 0.3
        named = [r['pn'] for r in g.reach() if r.get('pn')]

        def rule():
            k = rng.random()
            if g.comments and k < 0.15:     # rules that interfere with comments
                return 's', rng.choice(['#', ';', self.word(1) + '#', ';' + self.word(1),
                                        self.word(1) + ';', '#' + self.word(1)])
            if k < 0.35:
                return 's', self.word()
            if k < 0.55:
                return 'r', ''.join(rng.sample(self.al, rng.randint(1, 2)))
            if k < 0.7:
                return 'a', self.word()
            look = g.add('nla', [g.text(self.word(1))])
            step = g.add('any') if rng.random() < 0.7 else g.rx(rng.sample(self.al, 2), 1, 1)
            i = g.add('rep', [g.add('seq', [look, step], mand=NO_MAND)], lo=0, hi=-1)
            if rng.random() < 0.4:
                i = g.add('seq', [i, g.text(self.word(1))], mand=NO_MAND)
            elif rng.random() < 0.2:
                i = g.add('seq', [g.text(self.word(1)), i], mand=NO_MAND)
            self.nn += 1
            return 'p', g.name(i, 'z%d' % self.nn, disposable=rng.random() < 0.25)
        for nm in named:
            for d in (g.skip, g.resume):
                if self.p('rules'):
                    d[nm] = [rule() for _ in range(rng.randint(1, 2))]
            if rng.random() < self.o.get('msgs', 0):    # customized errors
                g.error[nm] = [((rng.choice('sr'), rng.choice(self.al)) if rng.random() < 0.85 else ('s', ''),
                                2000 + 10 * len(g.error) + k) for k in range(rng.randint(1, 3))]
        g._symbols()


def nullable(g, i, seen=()):
    r = g.N[i - 1]
    op = r['op']
    if i in seen: return True
    s = seen + (i,)
    if op in ('text', 'icase'): return not r['cs']
    if op == 'rx': return r['min'] == 0
    if op == 'any': return False
    if op == 'never': return False
    if op == 'smart':
        return all((not q['lit'] and q['min'] == 0) or not q['cs'] for q in r['gr'])
    if op in ('always', 'opt', 'la', 'nla', 'lb', 'nlb'): return True
    if op == 'rep': return r['lo'] == 0 or nullable(g, r['as'][0], s)
    if op == 'alt': return any(nullable(g, a, s) for a in r['as'])
    if op == 'seq': return all(nullable(g, a, s) for a in r['as'])
    if op == 'inter': return all(x[0] == 0 or nullable(g, a, s) for x, a in zip(r['reps'], r['as']))
    if op == 'fwd': return nullable(g, r['as'][0], s)
    return nullable(g, r['as'][0], s)


def admissible(g):
    """Preconditions: no interleave or counted repetition over possibly empty parts
    (DHParser's own static analysis rejects or warns about them)"""
    for i, r in enumerate(g.N, 1):
        if r['op'] == 'inter' and any(nullable(g, a) for a in r['as']):
            return False
        if r['op'] == 'rep' and r['hi'] >= 0 and nullable(g, r['as'][0]):
            return False
        if r['op'] == 'smart' and not r['gr']:
            return False
    return True


def sample(g, rng, i=None, d=0):
    """random text that has a fair chance of being matched by parser i"""
    r = g.N[(i or g.start) - 1]
    op = r['op']
    if d > 14: return ''
    S = lambda k: sample(g, rng, k, d + 1)
    if op == 'text': return ''.join(r['cs'])
    if op == 'icase':
        return ''.join(c.upper() if rng.random() < 0.5 else c.lower() for c in r['cs'])
    if op == 'rx':
        pool = [c for c in LETTERS if (c in r['cs']) != r['neg']] or ['a']
        hi = r['max'] if r['max'] >= 0 else 3
        return ''.join(rng.choice(pool) for _ in range(rng.randint(min(r['min'], hi), hi)))
    if op == 'any': return rng.choice(LETTERS)
    if op in ('always', 'never', 'la', 'nla', 'lb', 'nlb'): return ''
    if op == 'smart':
        s = ''
        for q in r['gr']:
            if q['lit']: s += ''.join(q['cs'])
            else:
                hi = q['max'] if q['max'] >= 0 else 2
                s += ''.join(rng.choice(q['cs']) for _ in range(rng.randint(q['min'], hi)))
        return s
    if op == 'opt': return S(r['as'][0]) if rng.random() < 0.6 else ''
    if op == 'rep':
        hi = r['hi'] if r['hi'] >= 0 else r['lo'] + 2
        return ''.join(S(r['as'][0]) for _ in range(rng.randint(r['lo'], hi)))
    if op == 'alt': return S(rng.choice(r['as']))
    if op == 'seq': return ''.join(S(a) for a in r['as'])
    if op == 'inter':
        parts = []
        for x, a in zip(r['reps'], r['as']):
            parts += [S(a) for _ in range(rng.randint(x[0], x[1]))]
        rng.shuffle(parts)
        return ''.join(parts)
    if op in ('ret', 'pop') and r['match'] == 'bracket':
        return ''.join(dict(zip('([{<', ')]}>')).get(c, c) for c in S(r['as'][0]))
    return S(r['as'][0])


def mutate(s, rng, al=LETTERS):
    k = rng.random()
    if not s or k < 0.3:
        j = rng.randint(0, len(s))
        return s[:j] + rng.choice(al) + s[j:]
    j = rng.randrange(len(s))
    if k < 0.6:
        return s[:j] + s[j + 1:]
    if k < 0.9:
        return s[:j] + rng.choice(al) + s[j + 1:]
    return s[:j]


def texts_for(g, rng, n, maxlen=9, al=LETTERS):
    out = []
    for _ in range(n * 6):
        if len(out) >= n:
            break
        k = rng.random()
        s = sample(g, rng)
        if k > 0.55:
            s = mutate(s, rng, al)
        if k > 0.9:
            s = ''.join(rng.choice(al) for _ in range(rng.randint(0, 5)))
        if g.comments:
            for _ in range(rng.choice([0, 1, 1, 2])):
                j = rng.randint(0, len(s))
                c = '#' + ''.join(rng.choice(al) for _ in range(rng.randint(0, 3))) + ';'
                s = s[:j] + (c if rng.random() < 0.9 else c[:-1]) + s[j:]
        if len(s) <= maxlen + (4 if g.comments else 0) and s not in out:
            out.append(s)
    return out
