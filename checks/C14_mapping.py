"""C14: content mappings."""
import random
from vlib import main, pmap, THOROUGH
import treelib as T

NAMES = 'abc'


def selectors(rng):
    k = rng.random()
    sel = {'k': 'leaf', 'names': []}
    if k > 0.5:
        sel = {'k': rng.choice(['leafname', 'below', 'below', 'name']), 'names': rng.sample(NAMES, rng.randint(1, 2))}
    ign = {'k': 'none', 'names': []}
    if rng.random() < 0.5:
        ign = {'k': 'name', 'names': rng.sample(NAMES, 1)}
    return sel, ign


def real(c):
    from DHParser import nodetree as nt
    names = set(c['names'])
    return {'leaf': nt.LEAF_PATH, 'none': nt.NO_PATH, 'name': names, 'below': nt.leaf_paths(names),
            'leafname': lambda p: not p[-1].children and p[-1].name in names}[c['k']]


def mapping(cm, ids):
    """The observable state of a content mapping."""
    def pa(x):
        a = ids.get(id(x[-1]))
        if a is None or [ids.get(id(n)) for n in x] != [a[:i] for i in range(len(a) + 1)]:
            return [-1]
        return list(a)
    return pa, {'text': list(cm.content), 'offs': list(cm.pos_list), 'paths': [pa(x) for x in cm.path_list]}


def query(rng, t, adr, n, m):
    op = rng.choice(['index', 'location', 'path', 'node_index', 'node_position', 'iterate', 'select', 'pick'])
    return {'op': op, 'pos': rng.randint(0, n), 'pos2': rng.randint(0, n), 'left': rng.random() < 0.5,
            'rev': rng.random() < 0.5, 'p': list(rng.choice(adr)), 'names': rng.sample(NAMES, rng.randint(1, 2)),
            'start': -1 if rng.random() < 0.6 else rng.randint(0, m - 1)}


def perform(q, cm, paths, ids, pa):
    op = q['op']
    if op == 'index':
        return [[cm.get_path_index(q['pos'], q['left'])]]
    if op == 'location':
        i, p, o = cm.get_location(q['pos'], q['left'])
        return [[i], pa(p), [o]]
    if op == 'path':
        p, o = cm.get_path_and_offset(q['pos'], q['left'])
        return [pa(p), [o]]
    nd = paths[tuple(q['p'])][-1]
    if op == 'node_index':
        return [[cm.get_node_index(nd, q['rev'])]]
    if op == 'node_position':
        return [[cm.get_node_position(nd, q['rev'])]]
    if op == 'iterate':
        return [pa(x) for x in cm.iterate_paths(q['pos'], q['pos2'], q['left'])]
    kw = {'reverse': q['rev']}
    if q['start'] >= 0:
        kw['start_from'] = q['start']
    if op == 'select':
        return [y for nd, i in cm.select(set(q['names']), **kw) for y in (list(ids[id(nd)]), [i])]
    nd, i = cm.pick(set(q['names']), **kw)
    return [[i]] if nd is None else [list(ids[id(nd)]), [i]]


def case(job):
    from DHParser.nodetree import ContentMapping
    t, seed, n = job
    rng = random.Random(seed)
    root = T.to_node(t)
    ids, paths = T.addresses(root)
    sel, ign = selectors(rng)
    rec = {'t': t, 'sel': sel, 'ign': ign, 'exc': '', 'text': [], 'offs': [], 'paths': [], 'qs': []}
    try:
        cm = ContentMapping(root, real(sel), real(ign))
    except Exception as e:
        rec['exc'] = type(e).__name__
        return rec
    pa, m = mapping(cm, ids)
    rec.update(m)
    if not m['paths']:
        return rec
    for _ in range(n):
        q = query(rng, t, list(paths), len(m['text']), len(m['paths']))
        q.update(r=[], exc='')
        try:
            q['r'] = perform(q, cm, paths, ids, pa)
        except Exception as e:
            q['exc'] = type(e).__name__ + ': ' + str(e)[:80]
        rec['qs'].append(q)
    return rec


def run(c):
    ts = c.generate('TreeEnum', env={'MAXN': '5' if THOROUGH else '4', 'NAMES': '2', 'TEXTS': '2'})
    c.extra['enumerated_trees'] = len(ts)
    k = 10 if THOROUGH else 1
    rng = c.rng
    big = [T.random_tree(rng, rng.randint(3, 14), NAMES, empty=rng.choice([0, 0.2, 0.5])) for _ in range(2500 * k)]
    jobs = [(t, rng.random(), 12) for t in ts] + [(t, rng.random(), 16) for t in big]
    recs = pmap(case, jobs)
    c.count('queries', sum(len(r['qs']) for r in recs))
    c.count('restricted_mappings', sum(r['sel']['k'] != 'leaf' or r['ign']['k'] != 'none' for r in recs))
    c.validate('TreeMapTrace', recs)


main('C14', run, rule='content mappings with all kinds of selectors over every small tree and random larger trees')
