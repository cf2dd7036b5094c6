"""C13: selection of nodes and paths, navigation."""
import random
from vlib import main, pmap, THOROUGH, SEED
import treelib as T

NAMES = 'abc'


def crit(rng, t, adr, path=False):
    k = rng.choice(['any', 'name', 'name', 'set', 'set', 'rx', 'node', 'id', 'eq', 'leaf', 'branch', 'void', 'not']
                   + (['parent'] * 2 if path else []))
    c = {'k': k, 'names': [], 'p': [], 'chars': [], 'min': 0, 't': T.leaf('', '')}
    if k == 'name':
        c['names'] = [rng.choice(NAMES)]
    elif k in ('set', 'not', 'parent'):
        c['names'] = rng.sample(NAMES, rng.randint(1, 2))
    elif k == 'rx':
        c['chars'] = rng.sample('xyz', rng.randint(1, 2))
        c['min'] = rng.randint(0, 1)
    elif k in ('node', 'id'):
        c['p'] = list(rng.choice(adr))
    elif k == 'eq':
        ls = [p for p in adr if not T.sub(t, p)['c']]
        lf = T.sub(t, rng.choice(ls))
        c['t'] = T.leaf(lf['n'], lf['t'])
    return c


NONE = {'k': 'none', 'names': [], 'p': [], 'chars': [], 'min': 0, 't': T.leaf('', '')}
ANY = dict(NONE, k='any')


def real(c, paths, path=False):
    """The criterion as an argument for the real functions."""
    import re
    from DHParser import nodetree as nt
    k = c['k']
    if k == 'any':
        return nt.ANY_PATH if path else nt.ANY_NODE
    if k == 'none':
        return nt.NO_PATH if path else nt.NO_NODE
    if k == 'name':
        return c['names'][0]
    if k == 'set':
        return set(c['names'])
    if k == 'rx':
        return re.compile('[' + ''.join(c['chars']) + ']' + '*+'[c['min']])
    if k == 'node':
        return paths[tuple(c['p'])][-1]
    if k == 'id':
        return id(paths[tuple(c['p'])][-1])
    if k == 'eq':
        return nt.FrozenNode(c['t']['n'], ''.join(c['t']['t']))
    if k == 'leaf':
        return nt.LEAF_PATH if path else nt.LEAF_NODE
    if k == 'branch':
        return nt.BRANCH_PATH if path else nt.BRANCH_NODE
    if k == 'void':
        return nt.VOID_PATH if path else nt.VOID_NODE
    if k == 'not':
        if path:
            return lambda pth: pth[-1].name not in c['names']
        return lambda nd: nd.name not in c['names']
    if k == 'parent':
        return lambda pth: len(pth) > 1 and pth[-2].name in c['names']
    raise ValueError(k)


SEL = ['select', 'select_path', 'pick', 'pick_path', 'from_select', 'from_pick']
OPS = SEL * 3 + ['walk_tree', 'walk_tree_paths', 'select_children', 'pick_child', 'indices', 'index', 'contains',
       'locate', 'locate_path', 'find_parent', 'reconstruct_path', 'pred', 'succ', 'prev_sibling',
       'next_sibling', 'prev_path', 'next_path', 'zoom_first', 'zoom_last', 'next_leaf_path', 'prev_leaf_path',
       'next_leaf', 'prev_leaf', 'foregoing_str', 'ensuing_str', 'select_from_path', 'pick_from_path',
       'path_head', 'path_tail', 'common_ancestor', 'common_ancestor_foreign', 'sane']


def query(rng, t, adr):
    op = rng.choice(OPS)
    path = op in ('select_path', 'pick_path', 'from_select', 'from_pick')
    p, q = rng.choice(adr), rng.choice(adr)
    if op in ('select', 'select_path', 'pick', 'pick_path', 'locate', 'locate_path') and rng.random() < 0.6:
        p = ()
    c = crit(rng, t, adr, path)
    skip = crit(rng, t, adr, path) if op in SEL + ['prev_sibling', 'next_sibling', 'next_leaf', 'prev_leaf'] \
        and rng.random() < 0.5 else NONE
    if skip['k'] == 'any':
        skip = NONE
    k = 0
    if op in ('locate', 'locate_path'):
        k = rng.randint(0, len(T.text(T.sub(t, p))) + 1)
    elif op in ('zoom_first', 'zoom_last'):
        k = rng.choice([-1, 0, 1, 2, 3])
    elif op in ('foregoing_str', 'ensuing_str'):
        k = rng.choice([-1, 0, 1, 2, 3, 5])
    elif op == 'index':
        k = rng.choice([0, 0, 1, 2])
    elif op == 'sane':
        k = 1
    return {'op': op, 'p': list(p), 'q': list(q), 'crit': c, 'skip': skip, 'k': k,
            'root': rng.random() < 0.5, 'rev': rng.random() < 0.5}


class Broken(Exception):
    pass


def perform(q, t, root, ids, paths):
    from DHParser import nodetree as nt
    op, p = q['op'], tuple(q['p'])
    path = list(paths[p])
    nd = path[-1]
    pth = op in ('select_path', 'pick_path', 'from_select', 'from_pick')
    c, s = real(q['crit'], paths, pth), real(q['skip'], paths, pth)
    rev, rt, k = q['rev'], q['root'], q['k']

    def ad(n):
        if id(n) not in ids:
            raise Broken('a node that is not in the tree')
        return list(ids[id(n)])

    def pa(x, base=()):
        """address of a path (relative to the node at base), checked to be a chain"""
        if not isinstance(x, list):
            raise Broken('path is not a list')
        a = ad(x[-1])
        want = [a[:i] for i in range(len(base), len(a) + 1)]
        if [ad(n) for n in x] != want:
            raise Broken('not a path: ' + str([ad(n) for n in x]))
        return a

    def one(x, f=ad, *a):
        return [] if x is None or (isinstance(x, list) and not x) else [f(x, *a)]
    if op == 'select':
        return [ad(n) for n in nd.select(c, rt, rev, s)]
    if op == 'select_path':
        return [pa(n, p) for n in nd.select_path(c, rt, rev, s)]
    if op == 'pick':
        return one(nd.pick(c, rt, rev, s))
    if op == 'pick_path':
        return one(nd.pick_path(c, rt, rev, s), pa, p)
    if op == 'walk_tree':
        return [ad(n) for n in nd.walk_tree(rt, rev)]
    if op == 'walk_tree_paths':
        return [pa(n, p) for n in nd.walk_tree_paths(rt, rev)]
    if op == 'select_children':
        return [ad(n) for n in nd.select_children(c, rev)]
    if op == 'pick_child':
        return one(nd.pick_child(c, rev))
    if op == 'indices':
        return [list(nd.indices(c))]
    if op == 'index':
        return [[nd.index(c, k)] if k else [nd.index(c)]]
    if op == 'contains':
        return [list(p)] if c in nd else []
    if op == 'locate':
        return one(nd.locate(k))
    if op == 'locate_path':
        return one(nd.locate_path(k), pa, p)
    if op == 'find_parent':
        return one(nd.find_parent(paths[tuple(q['q'])][-1]))
    if op == 'reconstruct_path':
        return [pa(nd.reconstruct_path(paths[tuple(q['q'])][-1]), p)]
    if op == 'from_select':
        return [pa(n) for n in nt.select_path(path, c, rt, rev, s)]
    if op == 'from_pick':
        return one(nt.pick_path(path, c, rt, rev, s), pa)
    if op == 'pred':
        return [ad(n) for n in nt.pred_siblings(path, c, rev)]
    if op == 'succ':
        return [ad(n) for n in nt.succ_siblings(path, c, rev)]
    none = nt.Node('none', '')
    if op in ('prev_sibling', 'next_sibling', 'next_leaf', 'prev_leaf'):
        f = {'prev_sibling': nt.get_prev_sibling, 'next_sibling': nt.get_next_sibling,
             'next_leaf': nt.get_next_leaf, 'prev_leaf': nt.get_prev_leaf}[op]
        x = f(path, none, skip=s)
        return [] if x is none else [ad(x)]
    if op == 'prev_path':
        return one(nt.prev_path(path), pa)
    if op == 'next_path':
        return one(nt.next_path(path), pa)
    if op == 'zoom_first':
        return one(nt.zoom_into_path(path, nt.FIRST_CHILD, k), pa)
    if op == 'zoom_last':
        return one(nt.zoom_into_path(path, nt.LAST_CHILD, k), pa)
    if op == 'next_leaf_path':
        return one(nt.next_leaf_path(path), pa)
    if op == 'prev_leaf_path':
        return one(nt.prev_leaf_path(path), pa)
    if op == 'foregoing_str':
        return nt.foregoing_str(path, k)
    if op == 'ensuing_str':
        return nt.ensuing_str(path, k)
    if op == 'select_from_path':
        return [ad(n) for n in nt.select_from_path(path, c, rev)]
    if op == 'pick_from_path':
        return one(nt.pick_from_path(path, c, rev))
    if op == 'path_head':
        return [ad(n) for n in nt.path_head(path, c, rev)]
    if op == 'path_tail':
        return [ad(n) for n in nt.path_tail(path, c, rev)]
    if op == 'common_ancestor':
        a, i = nt.find_common_ancestor(path, paths[tuple(q['q'])])
        return [ad(a), [i]]
    if op == 'common_ancestor_foreign':
        import copy
        other = T.addresses(copy.deepcopy(root))[1]
        a, i = nt.find_common_ancestor(path, other[tuple(q['q'])])
        return one(a)
    if op == 'sane':
        return [list(p)] if nt.path_sanity_check(path) else []
    raise ValueError(op)


def case(job):
    t, seed, n = job
    rng = random.Random(seed)
    root = T.to_node(t)
    ids, paths = T.addresses(root)
    adr = list(paths)
    qs = []
    for _ in range(n):
        q = query(rng, t, adr)
        q.update(r=[], s=[], e='')
        before = {p: list(x) for p, x in paths.items()}
        try:
            r = perform(q, t, root, ids, paths)
            if isinstance(r, str):
                q['s'] = list(r)
            else:
                q['r'] = r
        except Exception as e:
            q['e'] = type(e).__name__ + (': ' + str(e) if isinstance(e, Broken) else '')
        if before != paths or T.from_node(root) != t:
            q['e'] = 'tree or path was changed'
        qs.append(q)
    return {'t': t, 'qs': qs}


def run(c):
    ts = c.generate('TreeEnum', env={'MAXN': '5' if THOROUGH else '4', 'NAMES': '2', 'TEXTS': '2'})
    c.extra['enumerated_trees'] = len(ts)
    k = 10 if THOROUGH else 1
    rng = c.rng
    big = [T.random_tree(rng, rng.randint(3, 14), NAMES) for _ in range(1500 * k)]
    jobs = [(t, rng.random(), 14) for t in ts] + [(t, rng.random(), 25) for t in big]
    recs = pmap(case, jobs)
    c.count('queries', sum(len(r['qs']) for r in recs))
    c.validate('TreeNav', recs)


main('C13', run, rule='every tree up to 4 (5) nodes and random trees up to 14, random queries of every kind')
