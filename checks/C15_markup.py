"""C15: marking up text spans, inserting nodes."""
import random
from vlib import main, pmap, THOROUGH
import treelib as T

NAMES = 'abc'


def keyed(t, n=None, mixed=True, rng=None):
    """Gives every element a key; some leaves become text nodes without a name."""
    n = n if n is not None else [0]
    t = dict(t)
    n[0] += 1
    t['a'] = [['id', str(n[0])]]
    if not t['c'] and n[0] > 1 and rng.random() < mixed and t['t']:
        t.update(n=':Text', a=[])
    t['c'] = [keyed(c, n, mixed, rng) for c in t['c']]
    return t


def real(c):
    from DHParser import nodetree as nt
    names = set(c['names'])
    return {'leaf': nt.LEAF_PATH, 'none': nt.NO_PATH, 'name': names, 'below': nt.leaf_paths(names)}[c['k']]


def observe(cm, root):
    ids, _ = T.addresses(root)
    pa = lambda x: list(ids.get(id(x[-1]), (-1,))) if [ids.get(id(n)) for n in x] == \
        [ids.get(id(x[-1]), ())[:i] for i in range(len(x))] else [-1]
    return {'text': list(cm.content), 'offs': list(cm.pos_list), 'paths': [pa(x) for x in cm.path_list]}, ids


def case(job):
    from DHParser.nodetree import ContentMapping, Node, DIVISIBLES
    t, seed = job
    rng = random.Random(seed)
    t = keyed(t, mixed=rng.choice([0, 0.3, 0.8]), rng=rng)
    root = T.to_node(t)
    posed = rng.random() < 0.5
    if posed:
        root.with_pos(0)
    sel, ign = {'k': 'leaf', 'names': []}, {'k': 'none', 'names': []}
    if rng.random() < 0.15:
        sel = {'k': 'below', 'names': rng.sample(NAMES, rng.randint(1, 2))}
    if rng.random() < 0.25:
        ign = {'k': 'name', 'names': [rng.choice(NAMES)]}
    greedy = rng.random() < 0.6
    chain = rng.choice(['', '', 'chain'])
    k = rng.random()
    if k < 0.3:
        div = {'*': set(DIVISIBLES)}
    elif k < 0.6:
        div = {'*': set(rng.sample(NAMES, rng.randint(0, 3))) | {':Text'}}
    else:
        div = {'*': {':Text'}, 'm': set(rng.sample(NAMES, rng.randint(1, 3))) | {':Text'},
               'n': set(rng.sample(NAMES + 'm', rng.randint(1, 3))) | {':Text'}}
    rec = {'t': t, 'sel': sel, 'ign': ign, 'greedy': greedy, 'chain': chain, 'steps': [],
           'divs': {a: sorted(b) for a, b in div.items()}}
    cm = ContentMapping(root, real(sel), real(ign), greedy=greedy, divisibility=dict(div), chain_attr_name=chain)
    if not cm.path_list:
        return None
    for i in range(rng.randint(1, 4)):
        n = len(cm.content)
        s = rng.randint(0, n)
        name = rng.choice([x for x in 'mmna' if x not in ign['names'] and x not in sel['names']])
        key = 'N%d' % i
        d = sorted(div.get(name, div['*']))
        st = {'name': name, 'key': key, 'exc': '', 'div': d, 's': s, 'e': s, 'ins': [], 'ndiv': False,
              'u': t, 'text': [], 'offs': [], 'paths': [], 'anc': [], 'pos': [],
              'p': [], 'leaf': [], 'full': False, 'right': t, 'r': 0}
        try:
            if rng.random() < 0.2:
                st['op'] = 'insert'
                st['ins'] = list(rng.choice(['', 'Q', 'QR']))
                nd = Node(name, ''.join(st['ins'])).with_attr(id=key)
                left = rng.random() < 0.5
                _, off = cm.get_path_and_offset(s, left)
                lf = cm.get_path_and_offset(s, left)[0][-1]
                st['ndiv'] = lf.name not in d and 0 < off < lf.strlen()
                posed = posed and not st['ins']
                anc = cm.insert_node(s, nd, left).node
            elif n == 0:
                break
            else:
                st['op'] = 'markup'
                s = rng.randint(0, n - 1)
                st.update(s=s, e=rng.randint(s + 1, n))
                if rng.random() < 0.5:
                    anc = cm.markup(s, st['e'], name, {'id': key}).node
                else:
                    anc = cm.markup(s, st['e'], name, id=key).node
            m, ids = observe(cm, root)
            st.update(m)
            st['u'] = T.from_node(root)
            if posed and st['op'] == 'markup':
                st['pos'] = [x.pos for x in root.walk_tree(include_root=True)]
            st['anc'] = list(ids.get(id(anc), (-1,)))
        except Exception as e:
            st['exc'] = type(e).__name__
            if not (st['exc'] == 'ValueError' and st['ndiv']):
                st['msg'] = str(e)[:200]
                rec['steps'].append(st)
                break
        rec['steps'].append(st)
    return rec


def edited(job):
    """Users change parts of the tree themselves and have the mapping rebuilt."""
    from DHParser.nodetree import ContentMapping
    t, seed = job
    rng = random.Random(seed)
    n = [0]
    t = keyed(t, n, mixed=rng.choice([0, 0.3, 0.8]), rng=rng)
    root = T.to_node(t)
    rec = {'t': t, 'sel': {'k': 'leaf', 'names': []}, 'ign': {'k': 'none', 'names': []}, 'greedy': True, 'chain': '',
           'steps': [], 'divs': {}}
    cm = ContentMapping(root)
    for i in range(rng.randint(1, 4)):
        st = {'op': 'edit', 'name': '', 'key': '', 'exc': '', 'div': [], 's': 0, 'e': 0, 'ins': [], 'ndiv': False,
              'u': t, 'text': [], 'offs': [], 'paths': [], 'anc': [], 'pos': [], 'p': [], 'leaf': [], 'full': False, 'right': t, 'r': 0}
        ids, paths = T.addresses(root)
        # what is changed is known to be changed by its leaves
        able = [p for p in paths if p and (len(paths[p][-1].children) != 1 or not paths[p][-1].children[0].children)]
        if not able:
            break
        p = rng.choice(able)
        nd = paths[p][-1]
        on = [k for k, x in enumerate(cm.path_list) if any(y is nd for y in x)]
        text = rng.random() < 0.3
        new = [] if text else [keyed(T.random_tree(rng, rng.randint(1, 4), NAMES, empty=0.1, maxtext=5), n, 0.3, rng)
                               for _ in range(rng.randint(1, 3))]
        full = all(lf.strlen() for lf in root.select_if(lambda x: not x.children, include_root=True))
        a, b = cm.pos_list[on[0]], cm.pos_list[on[-1]]
        try:
            if text:
                nd.result = ''.join(rng.choice('PQR') for _ in range(rng.randint(0, 5)))
            else:
                keep = list(nd.children) if nd.children and rng.random() < 0.4 else []
                new = keep + [T.to_node(x) for x in new]
                rng.shuffle(new)
                nd.result = tuple(new)
            if full and rng.random() < 0.5:
                cm.rebuild_mapping(a, b)
            else:
                cm.rebuild_mapping_slice(on[0], on[-1])
            m, _ = observe(cm, root)
            st.update(m)
        except Exception as e:
            st['exc'] = type(e).__name__
        st['u'] = T.from_node(root)
        rec['steps'].append(st)
        if st['exc']:
            break
    return rec


def cut(job):
    """Splitting without a content mapping."""
    from DHParser import nodetree as nt
    t, seed = job
    rng = random.Random(seed)
    t = keyed(t, mixed=rng.choice([0, 0.3, 0.8]), rng=rng)
    root = T.to_node(t)
    posed = rng.random() < 0.5
    if posed:
        root.with_pos(0)
    ids, paths = T.addresses(root)
    leaf = rng.choice([p for p in paths if not paths[p][-1].children])
    k = rng.randint(0, len(leaf))
    st = {'op': 'split', 'name': '', 'key': '', 'exc': '', 'div': [], 's': rng.randint(0, paths[leaf][-1].strlen()),
          'e': 0, 'ins': [], 'ndiv': False, 'u': t, 'text': [], 'offs': [], 'paths': [], 'anc': [], 'pos': [],
          'p': list(leaf[:k]), 'leaf': list(leaf), 'full': False, 'right': t, 'r': 0}
    left, greedy = rng.random() < 0.5, rng.random() < 0.5
    path = paths[leaf][k:]
    try:
        if len(path) == 2 and rng.random() < 0.3:
            st['r'] = nt.split_node(path[-1], path[0], st['s'], left)
        elif k == 0 and rng.random() < 0.3:
            st['full'] = True
            a, b = nt.full_split(path, st['s'], left, greedy, chain_attr_name=rng.choice(['', 'chain']))
            if a is not root:
                st['exc'] = 'left part is not the tree'
            st['right'] = T.from_node(b)
        else:
            st['r'] = nt.deep_split(path, st['s'], left, greedy, chain_attr_name=rng.choice(['', 'chain']))
        if posed and not st['full']:
            st['pos'] = [x.pos for x in root.walk_tree(include_root=True)]
    except Exception as e:
        st['exc'] = type(e).__name__
    st['u'] = T.from_node(root)
    return {'t': t, 'sel': {'k': 'leaf', 'names': []}, 'ign': {'k': 'none', 'names': []}, 'greedy': greedy,
            'chain': '', 'steps': [st], 'divs': {}}


def run(c):
    k = 10 if THOROUGH else 1
    rng = c.rng
    ts = [T.random_tree(rng, rng.randint(2, 12), NAMES, empty=rng.choice([0, 0.2]), maxtext=4)
          for _ in range(5000 * k)]
    recs = [r for r in pmap(case, [(t, rng.random()) for t in ts]) if r]
    recs += pmap(cut, [(t, rng.random()) for t in ts[::2]])
    recs += pmap(edited, [(t, rng.random()) for t in ts[1::2] if t['c']])
    c.count('steps', sum(len(r['steps']) for r in recs))
    c.validate('Markup', recs)


main('C15', run, rule='sequences of markups and insertions on random trees with unique element keys')
