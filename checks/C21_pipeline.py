"""C21: runs of random pipelines against Pipeline.tla."""
import contextlib
import io
import random
from vlib import main, pmap, THOROUGH

NAMES = ['AST', 'CST', 'html', 'json', 'Z', 'a', 'b', 'm', 'x.y', 'LST', 'data', '1', 'pdf', 'q', 'zz', 'B']


class Boom(Exception):
    pass


def graph(r, n):
    """A random forest: list of (source, target)"""
    names = r.sample(NAMES, n)
    js = []
    for i in range(1, n):
        if r.random() < 0.9:
            js.append((names[r.choice([i - 1, r.randrange(i)])], names[i]))
    r.shuffle(js)
    return names, js


def run_record(seed):
    from DHParser.pipeline import run_pipeline, Junction
    from DHParser.nodetree import RootNode, Node
    from DHParser.error import ErrorCode
    r = random.Random(seed)
    names, js = graph(r, r.randint(2, 8))
    log = []
    kinds = {d: r.choice(['ok'] * 12 + ['err', 'err', 'none', 'data', 'raise', 'fatal']) if r.random() < 0.6 else 'ok'
             for _, d in js}
    code = {d: 1000 + i for i, d in enumerate(names)}
    style = {d: r.choice(['set', 'leave', 'off', 'class']) for d in names}

    def proc(tree, d, k):
        log.append(d)
        if k == 'raise':
            raise Boom(d)
        if k == 'none':
            return None
        tree.result = tree.children + (Node(d, ''),)
        if k in ('err', 'fatal'):
            tree.new_error(tree, d, ErrorCode(code[d] + (9000 if k == 'fatal' else 0)))
        if k == 'data':
            return 'data:' + ' '.join(c.name for c in tree.children)
        if style[d] == 'set':
            tree.stage = d
        elif style[d] == 'off':
            tree.stage = ''
        return tree

    class Proc:
        cancel_query = None

        def __init__(self, d, k):
            self.d, self.k = d, k

        def __call__(self, tree):
            return proc(tree, self.d, self.k)

    def factory(d, k):
        def make():
            return Proc(d, k) if style[d] == 'class' else lambda tree: proc(tree, d, k)
        return make

    def case(s):       # the names CST and AST may be written in any case
        return r.choice([s, s.lower()]) if lower and s in ('CST', 'AST') else s
    lower = r.random() < 0.2
    # junctions whose source is the CST or AST may be written in lower case
    junctions = set()
    for s, d in js:
        s2 = case(s)
        d2 = case(d) if s == 'CST' else d
        junctions.add(Junction(s2, factory(d, kinds[d]), d2))
    srcs = [names[0]] + [x for x in names[1:] if r.random() < 0.12]
    trees = {}
    for s in srcs:
        trees[s] = RootNode(Node(s, ())).with_pos(0)
        trees[s].stage = s if r.random() < 0.6 else ''
    reach = set(srcs)
    for _ in names:
        reach |= {d for s, d in js if s in reach}
    tgt = [t for t in sorted(reach) if r.random() < 0.5] or [r.choice(sorted(reach))]
    if r.random() < 0.05:
        tgt.append(r.choice(names + ['unknown']))
    rec = {'kind': 'run', 'js': [{'s': s, 'd': d, 'k': kinds[d]} for s, d in js], 'src': srcs,
           'tgt': sorted(set(tgt)), 'exc': '', 'res': [], 'log': log}
    back = {v: k for k, v in code.items()}

    def errs(es):
        # errors carry their junction in code; all are at position 0, hence in the order of their occurrence
        x = []
        for e in es:
            if e.code == 10100:
                x.append([log[-1] if not [d for d in log if kinds[d] == 'raise'] else
                          e.message.split("Boom('")[1].split("')")[0], 'crash'])
            elif e.code >= 10000:
                x.append([back[e.code - 9000], 'fatal'])
            else:
                x.append([back[e.code], 'err'])
        return x
    try:
        with contextlib.redirect_stdout(io.StringIO()):
            res = run_pipeline(junctions, {case(s): t for s, t in trees.items()}, {case(t) for t in tgt},
                               **({'cancel_query': lambda: False} if r.random() < 0.2 else {}))
        for t, (data, es) in res.items():
            x = {'t': t, 'errs': errs(es), 'marks': []}
            if data is None:
                x['what'] = 'none'
            elif isinstance(data, RootNode):
                x['what'] = 'tree'
                x['marks'] = [c.name for c in data.children]
            else:
                x['what'] = 'data'
                x['marks'] = data[5:].split(' ')
            rec['res'].append(x)
    except Exception as e:
        rec['exc'] = type(e).__name__
    rec['log'] = list(log)
    return rec


def shape_record(seed):
    from DHParser.pipeline import end_points, as_graph, as_paths, connection, Junction
    r = random.Random(seed)
    names, js = graph(r, r.randint(2, 9))
    if not js:
        js = [(names[0], names[1])]
    if r.random() < 0.7:        # a tree
        js = [(s, d) for s, d in js]
        for i in range(1, len(names)):
            if all(d != names[i] for _, d in js):
                js.append((names[0], names[i]))
    junctions = {Junction(s, None, d) for s, d in js}
    rec = {'kind': 'shape', 'js': [{'s': s, 'd': d, 'k': 'ok'} for s, d in js], 'graph': [], 'paths': [], 'conn': []}
    rec['ends'] = sorted(end_points(junctions))

    def walk(t, src):
        rec['graph'].append([t.src, src, t.depth])
        for x in t.desc:
            walk(x, t.src)
    try:
        walk(as_graph(junctions), '')
        rec['paths'] = [[e, p] for e, p in as_paths(junctions).items()]
    except ValueError:
        pass
    except Exception as e:
        rec['graph'] = [[type(e).__name__, '', 0]]
    for _ in range(4):
        o, t = r.choice(names), r.choice(names)
        try:
            rec['conn'].append([o, t, [j.dst for j in connection(junctions, t, o)]])
        except ValueError:
            rec['conn'].append([o, t, ['?']])
    return rec


def run(c):
    c.design('Pipeline', 'PipelineFull' if THOROUGH else 'Pipeline')
    k = 12 if THOROUGH else 1
    r = c.rng
    recs = pmap(run_record, [r.random() for _ in range(6000 * k)]) + pmap(shape_record, [r.random() for _ in range(1500 * k)])
    c.count('junctions_applied', sum(len(x['log']) for x in recs if x['kind'] == 'run'))
    c.validate('PipelineTrace', recs)


main('C21', run, rule='all forests of four stages with all kinds of junctions in the model; random pipelines of up to '
     'eight stages')
