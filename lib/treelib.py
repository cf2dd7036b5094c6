"""Trees: projection of DHParser nodes to the records of spec/Tree.tla and back, generators."""
import random


def leaf(n, t='', a=()):
    return {'n': n, 'l': True, 't': list(t), 'c': [], 'a': [list(x) for x in a]}


def branch(n, c, a=()):
    return {'n': n, 'l': False, 't': [], 'c': list(c), 'a': [list(x) for x in a]}


def to_node(t, cls=None):
    from DHParser.nodetree import Node
    if t['c']:
        nd = Node(t['n'], tuple(to_node(c) for c in t['c']))
    else:
        nd = Node(t['n'], ''.join(t['t']))
    if t['a']:
        nd.attr.update({k: v for k, v in t['a']})
    return nd


def from_node(nd):
    """The tree as a record: observed through the public interface only."""
    a = [[str(k), str(v)] for k, v in nd.attr.items()] if nd.has_attr() else []
    if nd.children:
        return {'n': nd.name, 'l': False, 't': [], 'c': [from_node(c) for c in nd.children], 'a': a}
    return {'n': nd.name, 'l': True, 't': list(str(nd.content)), 'c': [], 'a': a}


def addresses(root):
    """id(node) -> address, and address -> path"""
    ids, paths = {}, {}

    def walk(nd, p, path):
        ids[id(nd)] = p
        paths[p] = path
        for i, c in enumerate(nd.children, 1):
            walk(c, p + (i,), path + [c])
    walk(root, (), [root])
    return ids, paths


def random_tree(rng, n, names='abc', text='xyz', maxtext=3, empty=0.2, attrs=0.0, top=True):
    """A random tree of about n nodes"""
    name = rng.choice(list(names))
    a = []
    if rng.random() < attrs:
        for k in rng.sample(['k', 'id', 'x'], rng.randint(1, 3)):
            a.append([k, rng.choice(['1', '', 'v w'])])
    if n <= 1:
        return leaf(name, '' if rng.random() < empty else
                    ''.join(rng.choice(text) for _ in range(rng.randint(1, maxtext))), a)
    k = min(n - 1, rng.choice([1, 1, 2, 2, 3, 4, 5]))
    rest = n - 1
    cuts = sorted(rng.randint(0, rest - k) for _ in range(k - 1))
    sizes = [b - a_ + 1 for a_, b in zip([0] + cuts, cuts + [rest - k])]
    return branch(name, [random_tree(rng, s, names, text, maxtext, empty, attrs, False) for s in sizes], a)


def size(t):
    return 1 + sum(map(size, t['c']))


def addrs(t, p=()):
    yield p
    for i, c in enumerate(t['c'], 1):
        yield from addrs(c, p + (i,))


def sub(t, p):
    for i in p:
        t = t['c'][i - 1]
    return t


def text(t):
    return ''.join(t['t']) if not t['c'] else ''.join(map(text, t['c']))


def show(t):
    if t['c']:
        return '(' + t['n'] + ' ' + ' '.join(map(show, t['c'])) + ')'
    return '(' + t['n'] + ' "' + ''.join(t['t']) + '")'
