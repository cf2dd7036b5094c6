"""C20: places in texts and histories of errors at tree roots against Errors.tla."""
import copy
import os
import random
import re
from vlib import main, pmap, THOROUGH

CODES = [1, 50, 100, 150, 1000, 1010, 1040, 10000, 10010]


def texts(r, n):
    return [''.join(r.choice('ab\n\n\r') for _ in range(r.randint(0, 9))) for _ in range(n)]


def lc_record(text):
    from DHParser.toolkit import line_col, linebreaks, text_pos
    from DHParser.stringview import StringView

    def lc(lb, p):
        try:
            return list(line_col(lb, p))
        except ValueError:
            return [0, 0]
    lb = linebreaks(text)
    n = len(text)
    tp = [[l, c, text_pos(text, l, c)] for l in range(0, text.count('\n') + 3) for c in range(0, n + 3)]
    tp += [[l, c, text_pos(text, l, c, lb)] for l in range(0, text.count('\n') + 3) for c in range(0, n + 3)]
    lcs = [[p, lc(lb, p)] for p in range(-2, n + 3)]
    lcs += [[p, lc(linebreaks(StringView('zz\n' + text + '\nz', 3, 3 + n)), p)] for p in range(-1, n + 2)]
    return {'kind': 'lc', 'text': list(text), 'breaks': list(lb), 'lc': lcs, 'tp': tp}


def msg_record(job):
    from DHParser.error import Error, ErrorCode, canonical_error_strings, add_source_locations
    from DHParser.preprocess import gen_neutral_srcmap_func
    text, seed = job
    r = random.Random(seed)
    pos = r.randint(0, len(text))
    doc = r.choice(['', 'some.dsl', os.path.join(os.getcwd(), 'x', 'doc.dsl'), os.getcwd() + 'x/doc.dsl', '/a/doc.dsl'])
    e = Error(r.choice(['unexpected', 'a:b']), pos, ErrorCode(r.choice(CODES)), length=r.randint(1, 4))
    length = e.length
    add_source_locations([e], gen_neutral_srcmap_func(text, doc))
    d = e.diagnostic_obj()
    cwd = os.getcwd() + os.sep
    # file names in canonical strings are relative to the working directory
    prefix = (doc[len(cwd):] if doc.startswith(cwd) else doc) + ':' if doc else ''
    canon = canonical_error_strings([e])[0]
    if not doc:
        canon = re.sub('^UNKNOWN_FILE:', '', canon)     # (a placeholder for the unknown name is fine)
    return {'kind': 'msg', 'text': list(text), 'pos': pos, 'len': length, 'code': int(e.code), 'msg': e.message,
            'line': e.line, 'col': e.column, 'str': str(e), 'strprefix': doc + ':' if doc else '', 'prefix': prefix,
            'canon': canon, 'vis': list(e.visualize(text)),
            'lsp': [d['range']['start']['line'], d['range']['start']['character'], d['range']['end']['line'],
                    d['range']['end']['character'], d['severity']]}


class Hist:
    """A random tree and a random history of operations on its root"""
    def __init__(self, seed):
        from DHParser.nodetree import Node
        self.r = r = random.Random(seed)
        self.nodes = {}

        def gen(depth):
            i = len(self.nodes) + 1
            nd = self.nodes[i] = Node('n%i' % i, '')
            if depth == 0 or r.random() < 0.3:
                nd.result = ''.join(r.choice('ab\n') for _ in range(r.choice([0, 1, 1, 2, 3])))
            else:
                nd.result = tuple(gen(depth - 1) for _ in range(r.randint(1, 3)))
            return nd
        self.top = gen(r.randint(0, 3))
        self.top.with_pos(0)
        self.text = self.top.content
        self.tree = {'kids': [], 'own': [], 'pos': []}
        num = {id(n): i for i, n in self.nodes.items()}
        for i in sorted(self.nodes):
            n = self.nodes[i]
            self.tree['kids'].append([num[id(k)] for k in n.children])
            self.tree['own'].append(0 if n.children else len(n.content))
            self.tree['pos'].append(n.pos)
        self.ops = []

    def alive(self):
        num = {id(n): i for i, n in self.nodes.items()}
        return [num[id(n)] for n in self.root.select_if(lambda n: True, include_root=True)]

    def observe(self):
        from DHParser.error import ErrorCode, has_errors, only_errors
        root = self.root

        def ids(es):
            return [[int(e.code), e.pos] for e in es]

        def safe(c):
            try:
                root.error_safe(ErrorCode(c))
                return False
            except AssertionError:
                return True
        levels = [[c, has_errors(root.errors, ErrorCode(c)), safe(c), len(list(only_errors(root.errors, ErrorCode(c))))]
                  for c in (1, 100, 1000, 10000)]
        located = root.name != '__not_yet_ready__'
        return {'errs': [{'id': [int(e.code), e.pos], 'notices': e.message.count('suppressed'),
                          'place': [e.line, e.column, e.end_line, e.end_column, e.length, e.orig_pos],
                          'severity': e.severity} for e in root.errors],
                'sorted': ids(root.errors_sorted), 'flag': int(root.error_flag), 'levels': levels,
                'match': root.did_match(),
                'at': [{'n': i, 'ids': ids(root.node_errors(self.nodes[i]))} for i in self.alive()] if located else []}

    def step(self, o, f):
        o['exc'] = ''
        try:
            f()
        except Exception as e:
            o['exc'] = type(e).__name__
        o['obs'] = self.observe()
        self.ops.append(o)

    def run(self):
        from DHParser.nodetree import RootNode
        from DHParser.error import Error, ErrorCode
        r = self.r
        if r.random() < 0.6:
            self.root = RootNode(self.top, self.text)
            self.nodes[1] = self.root
            located = True
        else:
            self.root, located = RootNode(), False
        rec = {'kind': 'hist', 'tree': self.tree, 'text': list(self.text), 'located': located, 'ops': self.ops}
        codes = r.sample(CODES, r.choice([1, 2, 3, 6]))
        for _ in range(r.randint(1, 9)):
            x = r.random()
            n = r.choice(list(self.nodes))
            if not located and (x < 0.3 or len(self.ops) > 4):
                def swallow():
                    self.root.swallow(self.top, self.text)
                self.nodes[1], old = self.root, self.top
                self.step({'op': 'swallow'}, swallow)
                located = True
            elif x < 0.5:
                nd = self.nodes[n]
                if located and r.random() < 0.25:
                    n, nd = 0, None
                    p = r.randint(0, len(self.text))
                elif r.random() < 0.8:
                    p = nd.pos + r.randint(0, max(nd.strlen() - 1, 0))
                else:
                    p = r.randint(0, len(self.text) + (1 if located and self.text else 0))
                if r.random() < 0.1 and self.root.errors:
                    p = r.choice(self.root.errors).pos
                e = Error('m', p, ErrorCode(r.choice(codes)), length=r.randint(1, 4))
                self.step({'op': 'add', 'n': n, 'code': int(e.code), 'pos': p, 'len': e.length},
                          lambda: self.root.add_error(nd, e))
            elif x < 0.7:
                o = {'op': 'new', 'n': n, 'code': r.choice(codes), 'limit': r.choice([-1, 0, 1, 2])}
                self.step(o, lambda: self.root.new_error(self.nodes[n], 'm', ErrorCode(o['code']), limit=o['limit']))
            elif x < 0.82:
                m = r.choice(list(self.nodes))
                self.step({'op': 'transfer', 'n': n, 'm': m},
                          lambda: self.root.transfer_errors(self.nodes[n], self.nodes[m]))
            elif x < 0.94 and n != 1:
                def remove():
                    for nd in self.nodes.values():
                        if any(k is self.nodes[n] for k in nd.children):
                            nd.result = tuple(k for k in nd.children if k is not self.nodes[n])
                self.step({'op': 'remove', 'n': n}, remove)
            elif located:
                def copied():
                    before = self.alive()
                    self.root = copy.deepcopy(self.root)
                    for i, nd in zip(before, self.root.select_if(lambda n: True, include_root=True)):
                        self.keep.append(self.nodes[i])
                        self.nodes[i] = nd
                self.keep = []
                self.step({'op': 'copy'}, copied)
        return rec


def hist_record(seed):
    return Hist(seed).run()


def run(c):
    c.design('Errors')
    k = 12 if THOROUGH else 1
    r = c.rng
    recs = [lc_record(t) for t in ['', '\n', 'a', '\n\n'] + texts(r, 150 * k)]
    recs += pmap(msg_record, [(t, r.random()) for t in texts(r, 300 * k)])
    recs += pmap(hist_record, [r.random() for _ in range(2500 * k)])
    c.count('operations', sum(len(x['ops']) for x in recs if x['kind'] == 'hist'))
    c.validate('ErrorsTrace', recs)


main('C20', run, rule='all histories of at most two errors on one tree in the model; all positions of random texts; '
     'random histories of errors, transfers, removals and copies on random trees')
