"""C17: traversals of random trees with random transformation tables against Traverse.tla."""
import random
from vlib import main, pmap, THOROUGH

NAMES = ['a', 'b', 'c', ':d', ':Whitespace', '']
EFFECTS = ['none'] * 6 + ['rename', 'renext', 'renext', 'drop', 'drop', 'dropnext', 'dropnext', 'empty', 'unwrap', 'unwrap', 'clear', 'wrap', 'raise']


def shape(r, depth, names, acc):
    i = len(acc)
    acc.append(None)
    kids = [shape(r, depth - 1, names, acc) for _ in range(r.choice([0, 1, 2, 2, 3, 4]))] if depth else []
    acc[i] = {'n': r.choice(names), 'k': kids}
    return i + 1


def items(r, prefix, filters, effects=EFFECTS):
    its = [{'f': f, 'l': '', 'e': 'none', 'to': ''} for f in r.sample(filters, r.choice([0, 0, 0, 1, 1, 2]) if len(filters) > 1 else 0)]
    return its + [{'f': 'fn', 'l': prefix + str(i), 'e': r.choice(effects), 'to': r.choice(NAMES[:5])} for i in range(r.choice([0, 1, 1, 2, 3]))]


def table(r, kf):
    keys = r.sample(['leaf', 'branch'] if kf == 'kind' else ['a', 'b', 'c', ':d', 'zz', r.choice(['~', ':Whitespace'])], r.randint(0, 2 if kf == 'kind' else 5))
    if r.random() < 0.5:
        keys.append('*')
    if r.random() < 0.03:
        keys.append(r.choice(['+', '~', ':Whitespace', 'a']))
    r.shuffle(keys)
    tab = []
    while keys:
        n = r.choice([1, 1, 2, 3])
        tab.append([keys[:n], items(r, 'e%d.' % len(tab), ['BC', 'BL', 'BA'])])
        keys = keys[n:]
    for k, flt in (('<', ['BL', 'BA']), ('>', [])):
        if r.random() < 0.5:
            tab.append([[k], items(r, k, flt)])
    for k in ('<<<', '>>>'):
        if r.random() < 0.2:
            tab.append([[k], items(r, k, [], ['none', 'rename', 'clear', 'wrap'])])
    r.shuffle(tab)
    return tab


class World:
    """The nodes of a tree with their numbers and the log of calls"""
    def __init__(self, nd):
        from DHParser.nodetree import Node
        self.nodes = [None] * len(nd)
        for i in range(len(nd) - 1, -1, -1):
            self.nodes[i] = Node(nd[i]['n'], tuple(self.nodes[k - 1] for k in nd[i]['k']))
        self.log = []

    def nr(self, node):
        return next((i + 1 for i, x in enumerate(self.nodes) if x is node), 0)

    def view(self):
        return [{'n': x.name, 'k': [self.nr(c) for c in x.children]} for x in self.nodes]


def function(it, box):
    from DHParser.nodetree import Node

    def call(path):
        w = box[0]
        w.log.append([it['l'], [w.nr(x) for x in path]])
        x, e = path[-1], it['e']
        p = path[-2] if len(path) > 1 else None
        inp = p is not None and any(c is x for c in p.children)
        i = next(k for k, c in enumerate(p.children) if c is x) if inp else -1
        if e == 'rename':
            x.name = it['to']
        elif e == 'renext' and inp and i + 1 < len(p.children):
            p.children[i + 1].name = it['to']
        elif e == 'dropnext' and inp:
            p.result = p.children[:i + 1] + p.children[i + 2:]
        elif e == 'empty' and p is not None:
            p.result = ''
        elif e == 'drop' and inp:
            p.result = p.children[:i] + p.children[i + 1:]
        elif e == 'unwrap' and inp and x.children:
            p.result = p.children[:i] + x.children + p.children[i + 1:]
        elif e == 'clear':
            x.result = ''
        elif e == 'wrap' and x.children:
            w.nodes.append(Node(it['to'], x.children))
            x.result = (w.nodes[-1],)
        elif e == 'raise':
            raise {'0': ValueError, '1': KeyError, '2': IndexError}.get(it['l'][-1], RuntimeError)('planned')
    return call


def pytable(tab, box, r):
    from DHParser.transform import BLOCK_CHILDREN, BLOCK_LEAVES, BLOCK_ANONYMOUS_LEAVES
    flt = {'BC': BLOCK_CHILDREN, 'BL': BLOCK_LEAVES, 'BA': BLOCK_ANONYMOUS_LEAVES}
    res = {}
    for keys, its in tab:
        v = [function(it, box) if it['f'] == 'fn' else flt[it['f']] for it in its]
        v = v[0] if len(v) == 1 and r.random() < 0.5 else tuple(v) if r.random() < 0.3 else v
        k = keys[0] if len(keys) == 1 else tuple(keys) if r.random() < 0.4 else r.choice([', ', '; ', ',', ';']).join(keys)
        if k in res:        # (only the same key once more)
            k = ' ' + k if isinstance(k, str) else k + k[:1]
        res[k] = v
    return res


def records(seed):
    from DHParser.nodetree import RootNode
    import DHParser.transform as T
    r = random.Random(seed)
    kf = 'kind' if r.random() < 0.15 else 'name'
    tab = table(r, kf)
    box = [None]
    pt = pytable(tab, box, r)
    keyfunc = (lambda nd: 'branch' if nd.children else 'leaf') if kf == 'kind' else T.key_node_name
    kw = {'key_func': keyfunc} if kf == 'kind' or r.random() < 0.2 else {}
    recs = []
    for _ in range(r.choice([1, 2, 2, 3])):      # the same table, several trees
        acc = []
        shape(r, r.choice([0, 1, 2, 2, 3, 3]), r.sample(NAMES, r.randint(1, 4)), acc)
        api = r.choice(['traverse', 'traverse', 'root', 'transformer', 'locally'])
        w = box[0] = World(acc)
        stages = ['', '', 'cst', 'CST', 'ast']
        rec = {'tab': tab, 'kf': kf, 'nd': acc, 'api': api, 'exc': '', 'back': 1,
               'src': r.choice(stages), 'dst': r.choice(stages), 'stage0': r.choice(stages) if api in ('root', 'transformer') else '', 'stage1': ''}
        tree = w.nodes[0]
        if api in ('root', 'transformer'):
            tree = w.nodes[0] = RootNode(w.nodes[0])
            tree.stage = rec['stage0']
            if r.random() < 0.5:
                tree.docname = 'doc.txt'
        try:
            if api == 'transformer':
                back = T.transformer(tree, pt, src_stage=rec['src'], dst_stage=rec['dst'], **kw)
            elif api == 'locally':
                outer = w.nodes[0]
                if kw or r.random() < 0.5:
                    T.traverse_locally([T.Node('outer', (outer,)), outer], pt, **kw)
                else:
                    T.traverse_locally(pt)([T.Node('outer', (outer,)), outer])
                back = outer
            else:
                back = T.traverse(tree, pt, **kw)
            rec['back'] = w.nr(back)
        except Exception as e:
            rec['exc'] = type(e).__name__
        rec.update(log=w.log, res=w.view(), stage1=getattr(tree, 'stage', ''))
        recs.append(rec)
    return recs


def run(c):
    c.design('Traverse')
    r = c.rng
    recs = pmap(records, [r.randrange(2**40) for _ in range(60000 if THOROUGH else 3500)])
    c.validate('TraverseTrace', [x for rs in recs for x in rs])


if __name__ == '__main__':
    main('C17', run, rule='all traversals of trees with up to 4 nodes in the model; random tables with random filters and functions '
         'that rename, drop, unwrap, wrap or empty nodes or raise exceptions, each used for several random trees')
