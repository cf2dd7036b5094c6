"""C22: compilers, evaluation of trees and compilation of sources against Compile.tla."""
import contextlib
import io
import random
from vlib import main, pmap, THOROUGH

# node names and the names of their methods (as documented for Compiler.visitor_name)
METHOD = {'a': 'on_a', 'b': 'on_b', 'c': 'on_c', 'd_e': 'on_d_e', ':T': 'on_T__', ':U': 'on_3aU', 'f-g': 'on_f2dg',
          '!--': 'on_212d2d', 'x:y': 'on_x3ay'}
AMETHOD = {'k': 'attr_k', 'k-l': 'attr_k_l', 'k:m': 'attr_k_m', 'k.n': 'attr_k_n'}


class Boom(Exception):
    pass


def gen_tree(r, names, depth, count, attrs=True):
    count[0] += 1
    i = count[0]
    kids = [] if depth == 0 or r.random() < 0.25 else \
        [gen_tree(r, names, depth - 1, count, attrs) for _ in range(r.randint(1, 3))]
    return {'id': i, 'name': r.choice(names), 'kids': kids,
            'attrs': r.sample(sorted(AMETHOD) + ['z'], r.choice([0, 0, 1, 2])) if attrs and r.random() < 0.5 else []}


def build(t, ids):
    from DHParser.nodetree import Node
    nd = Node(t['name'], tuple(build(k, ids) for k in t['kids']) if t['kids'] else t.get('text', 'x'))
    for a in t['attrs']:
        nd.attr[a] = '1'
    ids[id(nd)] = t['id']
    return nd


def shape(nd):
    return [nd.name, [shape(k) for k in nd.children]]


def make_class(cls, env):
    from DHParser.compile import Compiler
    from DHParser.nodetree import Node, EMPTY_NODE

    def event(c, what, a, path):
        env['log'].append([what, a, [env['ids'].get(id(n), 0) for n in path]])

    def method(name, kind):
        def on(self, node):
            event(self, 'wildcard' if kind == 'wild' else 'on_' + name, '', self.path)
            assert self.path[-1] is node
            if kind == 'fin':
                self.finalizers.append((fin, (node, 7)))
            if kind in ('wild', 'fallback', 'fin'):
                return self.fallback_compiler(node)
            if kind == 'kids':
                for k in reversed(node.children):
                    self.compile(k)
                return node
            if kind == 'raise':
                raise env['exc'](name)
            return {'self': node, 'new': Node('NEW', 'n'), 'empty': EMPTY_NODE, 'none': None, 'text': 't'}[kind]
        return on

    def fin(node, seven):
        assert seven == 7
        event(None, 'fin', '', [node])

    def visitor(a):
        def attr(self, node, value):
            assert self.path[-1] is node and value == '1'
            event(self, 'attr', a, self.path)
            if a in cls['araise']:
                raise env['exc'](a)
        return attr
    d = {METHOD[n]: method(n, k) for n, k in cls['meth']}
    d.update({AMETHOD[a]: visitor(a) for a in cls['avis']})
    if cls['wild']:
        d['wildcard'] = method('', 'wild')

    def prepare(self, root):
        event(self, 'prepare', '', [])

    def finalize(self, result):
        event(self, 'finalize', '', [])
        return result

    def init(self):
        Compiler.__init__(self)
        if cls['allownone']:
            self.forbid_returning_None = False
    d.update(prepare=prepare, finalize=finalize, __init__=init)
    return type('C', (Compiler,), d)


def hist_record(seed):
    from DHParser.nodetree import RootNode, Node, EMPTY_NODE
    from DHParser.compile import CompilerError
    r = random.Random(seed)
    names = r.sample(sorted(METHOD), r.randint(1, 5))
    weights = ['fallback'] * 6 + ['fin', 'fin', 'kids', 'kids', 'self', 'new', 'empty'] + \
        r.choice([[], ['none'], ['text'], ['raise'], ['none', 'text', 'raise']])
    cls = {'meth': [[n, r.choice(weights)] for n in names if r.random() < 0.7], 'wild': r.random() < 0.3,
           'avis': r.sample(sorted(AMETHOD), r.randint(0, 3)), 'araise': r.sample(sorted(AMETHOD), r.choice([0, 0, 0, 1])), 'allownone': r.random() < 0.4}
    env = {'exc': r.choice([Boom, AttributeError, ValueError])}
    comp = make_class(cls, env)()
    ops = []
    for _ in range(r.randint(1, 4)):
        t = gen_tree(r, names, r.randint(0, 3), [0])
        env['log'], env['ids'] = [], {}
        keep = nd = build(t, env['ids'])
        if r.random() < 0.7:
            root = RootNode(nd).with_pos(0)
            env['ids'][id(root)] = t['id']
            nd = root
        else:       # (the compiler wraps nodes)
            nd.with_pos(0)
            nd = keep
        o = {'tree': t, 'cancel': -1, 'exc': '', 'ret': {'t': 'none'}, 'cancelled': False}
        kw = {}
        if r.random() < 0.15:
            o['cancel'] = r.randint(0, 6)
            n = [0]

            def query():
                n[0] += 1
                return n[0] > o['cancel']
            kw['cancel_query'] = query
        wrapped = not isinstance(nd, RootNode)
        if wrapped:     # the root of the path is the wrapper
            env['ids'] = Wrap(env['ids'], t['id'])
        try:
            x = comp(nd, **kw)
            if isinstance(x, Node):
                o['ret'] = {'t': 'empty'} if x is EMPTY_NODE else {'t': 'node', 'v': shape(x)}
            else:
                o['ret'] = {'t': 'none' if x is None else 'text'}
        except CompilerError:
            o['exc'] = 'CompilerError'
        except TypeError:
            o['exc'] = 'TypeError'
        except (env['exc'], AssertionError) as e:
            o['exc'] = 'Boom' if type(e) is env['exc'] else type(e).__name__
        o['cancelled'] = any(e.code == 10600 for e in comp.tree.errors) if o['exc'] == '' else False
        o['log'] = env['log']
        ops.append(o)
    return {'kind': 'hist', 'cls': cls, 'ops': ops}


class Wrap(dict):
    """node-ids where an unknown node is the wrapper of the root"""
    def __init__(self, d, root):
        super().__init__(d)
        self.root = root

    def get(self, k, default=None):
        return super().get(k, self.root)


def eval_record(seed):
    r = random.Random(seed)
    names = r.sample(sorted(METHOD), r.randint(1, 5))
    t = gen_tree(r, names, r.randint(0, 3), [0], False)

    def texts(x):
        x['text'] = r.choice('pqr') if not x['kids'] else ''
        for k in x['kids']:
            texts(k)
    texts(t)
    table = [n for n in names if r.random() < 0.85] + (['*'] if r.random() < 0.5 else [])
    nd = build(t, {})

    def arg(a):
        return a if isinstance(a, list) else ['text', a]

    def act(n):
        return lambda *args: [n, [arg(a) for a in args]]
    ok = [True]

    def pact(n):
        def f(path, *args):
            ok[0] = ok[0] and path[0] is nd and (n == '*' or path[-1].name == n) and \
                all(any(k is b for k in a.children) for a, b in zip(path, path[1:]))
            return [n, [arg(a) for a in args]]
        return f
    rec = {'kind': 'eval', 'tree': t, 'table': table, 'exc': '', 'val': [], 'pval': [], 'pathok': True}
    try:
        rec['val'] = nd.evaluate({n: act(n) for n in table})
        rec['pval'] = nd.evaluate_path({n: pact(n) for n in table})
        rec['pathok'] = ok[0]
    except Exception as e:
        rec['exc'] = type(e).__name__
    return rec


LEVEL = {1: [100, 110, 500], 2: [1000, 1111, 2000], 3: [10000, 10900]}


def stage(r, dos):
    return {'do': r.choice(dos), 'add': r.choice([0, 0, 0, 1, 2, 2, 3]) if r.random() < 0.6 else 0}


def level(code):
    return 0 if code < 100 else 1 if code < 1000 else 2 if code < 10000 else 3


def src_record(seed):
    from DHParser.compile import compile_source
    from DHParser.nodetree import RootNode, Node, ErrorCode
    from DHParser.error import Error
    from DHParser.parse import Grammar, RegExp
    from DHParser.preprocess import PreprocessorResult, gen_neutral_srcmap_func
    r = random.Random(seed)
    text = '\n' + ''.join(r.choice('ab\n') for _ in range(r.randint(0, 8)))
    x = {'pre': stage(r, ['ok'] * 9 + ['raise']), 'parse': stage(r, ['ok']), 'trans': stage(r, ['ok'] * 4 + ['raise']),
         'comp': stage(r, ['ok'] * 4 + ['raise', 'none']), 'keep': r.random() < 0.5, 'cancel': r.choice([-1] * 6 + [0, 1, 2])}
    ran, added = [], []

    def new(s):
        if x[s]['add']:
            c, p = r.choice(LEVEL[x[s]['add']]), r.randint(0, len(text))
            if [c, p] in added:
                return None
            added.append([c, p])
            return Error(s, p, ErrorCode(c))

    def pre(src, name):
        ran.append('pre')
        if x['pre']['do'] == 'raise':
            raise Boom()
        es = [e for e in [new('pre'), new('pre') if r.random() < 0.3 else None] if e]
        return PreprocessorResult(src, src, gen_neutral_srcmap_func(src, name), es)
    g = Grammar(RegExp(r'(?:.|\n)*').name('doc'))

    def parser(src, start, mapping):
        ran.append('parse')
        if real:
            tree = g(src, start, mapping)
        else:
            tree = RootNode(Node('doc', src).with_pos(0), src, mapping)
        e = new('parse')
        if e:
            tree.add_error(None, e)
        return tree

    def proc(s):
        def f(tree):
            ran.append(s)
            e = new(s)
            if e:
                tree.add_error(None, e)
            if x[s]['do'] == 'raise':
                raise Boom()
            tree.name = s
            return (['result'] if x[s]['do'] == 'ok' else None) if s == 'comp' else tree
        return f
    real = r.random() < 0.5
    rec = {'kind': 'src', 'text': list(text), 'x': x, 'exc': False, 'result': False, 'ast': False, 'astok': True,
           'msgs': [], 'flag': 0, 'cancelled': False}
    n = [0]

    def query():
        n[0] += 1
        return n[0] > x['cancel']
    kw = {'cancel_query': query} if x['cancel'] >= 0 else {}
    use_pre = x['pre']['do'] == 'raise' or x['pre']['add'] or r.random() < 0.8
    if not use_pre:
        ran.append('pre')
    try:
        res, msgs, ast = compile_source(text, pre if use_pre else None, parser, proc('trans'), proc('comp'),
                                        preserve_AST=x['keep'], **kw)
        rec['result'] = res is not None
        rec['ast'] = ast is not None
        if ast is not None:
            rec['astok'] = ast.name == 'trans' and ast.content == text
        rec['msgs'] = [{'code': int(e.code), 'pos': e.pos, 'line': e.line, 'col': e.column} for e in msgs]
        rec['flag'] = max([level(e.code) for e in msgs] + [0])
        rec['cancelled'] = any(e.code == 10600 for e in msgs)
    except Boom:
        rec['exc'] = True
    rec['ran'], rec['added'] = ran, added
    return rec


def proc_record(seed):
    from DHParser.compile import process_tree
    from DHParser.nodetree import RootNode, Node, ErrorCode
    r = random.Random(seed)
    tree = RootNode(Node('a', 'abc').with_pos(0), 'abc')
    flag = r.randint(0, 3)
    for f in [flag] + [r.randint(0, flag) for _ in range(r.randint(0, 2))]:
        if f:
            tree.new_error(tree, 'e', ErrorCode(r.choice(LEVEL[f])))
    st = stage(r, ['ok', 'ok', 'raise', 'none'])
    ran = [False]

    def tp(t):
        ran[0] = True
        if st['add']:
            t.new_error(t, 'n', ErrorCode(LEVEL[st['add']][0] + 7))
        if st['do'] == 'raise':
            raise Boom()
        return t if st['do'] == 'ok' else None
    rec = {'kind': 'proc', 'flag': flag, 'st': st, 'exc': False, 'result': False}
    try:
        rec['result'] = process_tree(tp, tree) is not None
    except Boom:
        rec['exc'] = True
    rec['ran'], rec['after'] = ran[0], level(tree.error_flag)
    return rec


def run(c):
    c.design('Compile')
    k = 10 if THOROUGH else 1
    r = c.rng
    with contextlib.redirect_stdout(io.StringIO()):
        recs = pmap(hist_record, [r.random() for _ in range(2500 * k)])
        recs += pmap(eval_record, [r.random() for _ in range(800 * k)])
        recs += pmap(src_record, [r.random() for _ in range(2500 * k)])
        recs += pmap(proc_record, [r.random() for _ in range(400 * k)])
    c.count('compilations', sum(len(x['ops']) for x in recs if x['kind'] == 'hist'))
    c.validate('CompileTrace', recs)


main('C22', run, rule='all combinations of stages in the model; random classes of methods, trees and histories of calls; '
     'random sequences of stages')
