"""C16: editing trees through the node interface; equality; copies; token attributes; copies of root nodes."""
import copy
import random
from vlib import main, pmap, THOROUGH
import treelib as T

NAMES = ['a', 'b', 'c']
KEYS = ['k', 'l', 'm']
VALS = ['1', '', 'v w']
OPS = ['text', 'children', 'children', 'rename', 'set_int', 'set_slice', 'set_slice', 'set_crit', 'set_crit', 'del_int',
       'del_slice', 'del_slice', 'del_crit', 'del_crit', 'insert', 'insert', 'remove', 'get_int', 'get_slice', 'get_crit', 'get_first',
       'get_all', 'get_at', 'contains', 'indices', 'index', 'with_attr', 'attr_dict', 'del_attr', 'has_attr',
       'with_pos', 'pos', 'strlen', 'equals', 'equal_attr', 'replace_by', 'drop_leaf', 'copy']


class World:
    """Gives every node object a number for as long as the history lasts."""

    def __init__(self, rng):
        self.rng, self.n, self.uid, self.keep, self.pool = rng, 0, {}, [], []

    def u(self, nd):
        if id(nd) not in self.uid:
            self.n += 1
            self.uid[id(nd)] = self.n
            self.keep.append(nd)          # so that the id is not reused
        return self.uid[id(nd)]

    def rec(self, nd):
        a = [[str(k), str(v)] for k, v in nd.attr.items()] if nd.has_attr() else []
        try:
            p = nd.pos
        except AssertionError:
            p = -1
        leaf = not nd.children
        return {'u': self.u(nd), 'n': nd.name, 't': list(nd.content) if leaf else [],
                'c': [self.rec(c) for c in nd.children], 'a': a, 'p': p}

    def fresh(self, size=None):
        r = self.rng
        t = T.random_tree(r, size or r.choice([1, 1, 1, 2, 3, 5]), NAMES, empty=0.3, attrs=0.3)
        nd = T.to_node(t)
        if r.random() < 0.1:
            nd.with_pos(r.randint(0, 20))
        return nd

    def operand(self, root):
        """A new node or one that was taken out of the tree before."""
        r = self.rng
        if self.pool and r.random() < 0.3:
            nd = self.pool.pop(r.randrange(len(self.pool)))
            live = {id(x) for x in root.walk_tree(include_root=True)}
            if not any(id(x) in live for x in nd.walk_tree(include_root=True)):
                return nd
        return self.fresh()


NOSL = {'i': {'none': True, 'v': 0}, 'j': {'none': True, 'v': 0}, 'step': {'none': True, 'v': 0}}


def opt(rng, lo, hi, p=0.3):
    return {'none': True, 'v': 0} if rng.random() < p else {'none': False, 'v': rng.randint(lo, hi)}


def val(o):
    return None if o['none'] else o['v']


def step(w, root):
    """Chooses and performs one operation; returns the record of the step."""
    from DHParser import nodetree as nt
    r = w.rng
    ids, paths = T.addresses(root)
    adr = list(paths)
    op = r.choice(OPS)
    inner = [p for p in adr if paths[p][-1].children]
    p = r.choice(inner) if inner and r.random() < 0.7 else r.choice(adr)
    nd = paths[p][-1]
    n = len(nd.children)
    q = {'op': op, 'p': list(p), 'i': r.randint(-n - 1, n + 1), 'stop': 1000, 't': [], 'v': [], 'name': '', 'a': [],
         'sl': NOSL, 'single': r.random() < 0.5, 'k': {'k': 'name', 'names': [], 'u': 0, 't': []}, 'r': [], 'exc': ''}
    crit, ck = None, q['k']
    x = r.random()
    if x < 0.6 and op != 'remove':
        ck['names'] = r.sample(NAMES, r.randint(1, 2))
        crit = ck['names'][0] if len(ck['names']) == 1 else r.choice([set, frozenset, tuple, list])(ck['names'])
        if not isinstance(crit, str):
            crit = set(crit)
    elif x < 0.9 or op == 'remove':
        crit = r.choice(nd.children) if n and r.random() < 0.8 else w.fresh()
        ck.update(k='node', u=w.u(crit))
    else:
        ls = [c for c in nd.children if not c.children]
        c0 = r.choice(ls) if ls else w.fresh(1)
        crit = nt.FrozenNode(c0.name, c0.content)
        ck.update(k='text', names=[c0.name], t=list(c0.content))
    mf = nt.create_match_function(crit)
    hits = [c for c in nd.children if mf(c)]
    ops = []          # nodes that are put into the tree
    if op in ('children', 'set_slice'):
        ops = [w.operand(root) for _ in range(r.choice([0, 1, 1, 2, 3]))]
        if op == 'children' and not ops:
            ops = [w.operand(root)]
    elif op in ('set_int', 'insert', 'replace_by', 'get_first', 'get_at'):
        ops = [w.operand(root)]
    elif op == 'set_crit':
        if q['single'] and len(hits) > 1:
            q['single'] = False
        k = len(hits) if r.random() < 0.8 else r.randint(0, 3)
        ops = [w.operand(root) for _ in range(1 if q['single'] else k)]
    elif op == 'get_all':
        ops = [w.fresh() for _ in range(r.randint(0, 2))]
    elif op in ('equals', 'equal_attr'):
        other = copy.deepcopy(nd)
        x = r.random()
        some = list(other.walk_tree(include_root=True))
        m = r.choice(some)
        if x < 0.15:
            m.name = r.choice(NAMES)
        elif x < 0.3:
            m.result = r.choice(['', 'x', 'xy']) if r.random() < 0.5 else m.children[:-1] or m.result
        elif x < 0.45:
            m.attr[r.choice(KEYS)] = r.choice(VALS)
        elif x < 0.6 and m.has_attr():
            m.attr = dict(reversed(list(m.attr.items())))
        elif x < 0.7 and m.has_attr():
            del m.attr[r.choice(list(m.attr))]
        elif x < 0.75:
            m.result = nt.Node('a', m.result)
        elif x < 0.8:
            other = w.fresh()
        ops = [other]
    q['v'] = [w.rec(v) for v in ops]
    seq = r.choice([tuple, list])
    before = list(nd.children)
    try:
        if op == 'text':
            q['t'] = list(r.choice(['', 'x', 'zzz', 'yx']))
            nd.result = ''.join(q['t'])
        elif op == 'children':
            nd.result = ops[0] if len(ops) == 1 and r.random() < 0.5 else tuple(ops)
        elif op == 'rename':
            q['name'] = nd.name = r.choice(NAMES)
        elif op == 'set_int':
            nd[q['i']] = ops[0]
        elif op == 'set_slice':
            q['sl'] = {'i': opt(r, -n - 1, n + 1), 'j': opt(r, -n - 1, n + 1), 'step': opt(r, 1, 2, 0.8)}
            sl = slice(*(val(q['sl'][k]) for k in ('i', 'j', 'step')))
            nd[sl] = ops[0] if len(ops) == 1 and r.random() < 0.5 else seq(ops)
        elif op == 'set_crit':
            nd[crit] = ops[0] if q['single'] else seq(ops)
        elif op == 'del_int':
            del nd[q['i']]
        elif op in ('del_slice', 'get_slice'):
            q['sl'] = {'i': opt(r, -n - 1, n + 1), 'j': opt(r, -n - 1, n + 1),
                       'step': r.choice([opt(r, 1, 3, 0.5), opt(r, -2, -1, 0)])}
            sl = slice(*(val(q['sl'][k]) for k in ('i', 'j', 'step')))
            if op == 'del_slice':
                del nd[sl]
            else:
                q['r'] = [w.u(c) for c in nd[sl]]
        elif op == 'del_crit':
            del nd[crit]
        elif op == 'insert':
            nd.insert(q['i'], ops[0])
        elif op == 'remove':
            nd.remove(crit)
        elif op == 'get_int':
            q['r'] = [w.u(nd[q['i']])]
        elif op == 'get_crit':
            res = nd[crit]
            q['r'] = [w.u(c) for c in res] if isinstance(res, tuple) else [w.u(res)]
        elif op == 'get_first':
            q['r'] = [w.u(nd.get(crit, ops[0]))]
        elif op == 'get_at':
            q['r'] = [w.u(nd.get(q['i'], ops[0]))]
        elif op == 'get_all':
            q['r'] = [w.u(c) for c in nd.get(crit, seq(ops))]
        elif op == 'contains':
            q['r'] = [int(crit in nd)]
        elif op == 'indices':
            q['r'] = list(nd.indices(crit))
        elif op == 'index':
            q['i'] = r.choice([0, 0, r.randint(0, n)])
            if r.random() < 0.4:
                q['stop'] = r.randint(q['i'] + 1, q['i'] + 3)
                q['r'] = [nd.index(crit, q['i'], q['stop'])]
            else:
                q['r'] = [nd.index(crit, q['i'])]
        elif op in ('with_attr', 'attr_dict'):
            q['a'] = [[k, r.choice(VALS)] for k in r.sample(KEYS, r.randint(0, 3))]
            d = dict(map(tuple, q['a']))
            if op == 'attr_dict':
                nd.attr = d
            elif r.random() < 0.5:
                nd.with_attr(d)
            else:
                nd.with_attr(**d)
        elif op == 'del_attr':
            q['name'] = r.choice(list(nd.attr)) if nd.has_attr() and r.random() < 0.8 else r.choice(KEYS)
            del nd.attr[q['name']]
        elif op == 'has_attr':
            q['name'] = r.choice(KEYS + [''])
            q['r'] = [int(nd.has_attr(q['name']))]
            want = nd.get_attr(q['name'], '?') if q['name'] else '?'
            if q['name'] and (want != '?') != nd.has_attr(q['name']):
                q['r'] = [2]
        elif op == 'with_pos':
            q['i'] = r.randint(-1, 20) if r.random() < 0.7 else w.rec(nd)['p']
            nd.with_pos(q['i'])
        elif op == 'pos':
            q['r'] = [nd.pos]
        elif op == 'strlen':
            q['r'] = [nd.strlen()] if nd.strlen() == len(nd.content) == nt.strlen_of(nd) == len(nt.content_of(nd)) else [-1]
        elif op == 'equals':
            q['r'] = [int(nd.equals(ops[0], q['single']))]
            if ops[0].equals(nd, q['single']) != q['r'][0]:
                q['r'] = [2]
        elif op == 'equal_attr':
            q['r'] = [int(nd.has_equal_attr(ops[0], q['single']))]
        elif op == 'replace_by':
            # whether attributes of the node remain if the other has none is left open
            if not q['single'] and not ops[0].has_attr():
                nd.attr = {}
            nd.replace_by(ops[0], q['single'])
        elif op == 'drop_leaf':
            leaves = [a for a in adr if not paths[a][-1].children]
            q['p'] = list(r.choice(leaves))
            nt.drop_leaf(paths[tuple(q['p'])])
        elif op == 'copy':
            c = copy.deepcopy(nd)
            q['v'] = [w.rec(c)]
            q['r'] = [int(c.equals(nd) and nd.equals(c))]
            for m in list(c.walk_tree(include_root=True)):      # tears the copy apart
                m.attr['torn'] = 'yes'
                m.name = 'torn'
            for m in list(c.walk_tree(include_root=True)):
                m.result = 'torn'
    except (KeyError, IndexError, ValueError, AssertionError) as e:
        q['exc'] = type(e).__name__
        q['r'] = []
    except Exception as e:
        q['exc'] = type(e).__name__ + ' ' + str(e)[:60]
        q['r'] = []
    q['after'] = w.rec(root)
    if q['exc'] == '' and op != 'replace_by':
        live = {id(x) for x in root.walk_tree(include_root=True)}
        w.pool += [c for c in before if id(c) not in live]
    return q


def edits(job):
    t, seed, n = job
    w = World(random.Random(seed))
    root = T.to_node(t)
    if w.rng.random() < 0.4:
        root.with_pos(w.rng.randint(0, 10))
    rec = {'kind': 'edits', 't': w.rec(root), 'qs': []}
    for _ in range(n):
        q = step(w, root)
        rec['qs'].append(q)
        if sum(1 for _ in root.walk_tree()) > 40:
            break
    return rec


WORDS = ['a', 'ab', 'b', 'ba', 'abc', 'bold', 'bolder']


def tokens(seed):
    from DHParser import nodetree as nt
    r = random.Random(seed)
    s, w = r.sample(WORDS, r.randint(0, 4)), r.choices(WORDS, k=r.randint(0, 3))
    x, y = ' '.join(s), ' '.join(w)
    rec = {'kind': 'tokens', 's': s, 'w': w}
    nd = nt.Node('n', '')
    if x:
        nd.attr['class'] = x
    nd2 = copy.deepcopy(nd)
    if r.random() < 0.5:
        rec['added'] = nt.add_token(x, y).split(' ')
        rec['removed'] = nt.remove_token(x, y).split(' ')
        nt.remove_class(nd2, y)
        rec['all'], rec['any'] = nt.has_token(x, y), nt.has_token(x, y, all=False)
    else:
        nt.add_class(nd, y)
        nt.remove_class(nd2, y)
        rec['added'], rec['removed'] = [m.get_attr('class', '').split(' ') for m in (nd, nd2)]
        m = nt.Node('n', '').with_attr({'class': x})
        rec['all'], rec['any'] = nt.has_class(m, y), nt.has_class(m, y, all=False)
    for k in ('added', 'removed'):
        rec[k] = [] if rec[k] == [''] else rec[k]
    rec['kept'] = nd2.has_attr('class')
    rec['eq'] = nt.eq_tokens(x, y)
    return rec


def observe(root):
    ids, paths = T.addresses(root)
    w = World(None)

    def err(e):
        return [str(e.pos), str(int(e.code)), e.message, str(e.line), str(e.column), str(e.orig_pos)]
    sets = [sorted(getattr(root, k)) for k in ('inline_tags', 'string_tags', 'empty_tags')]

    def plain(t):
        t['u'] = 0
        for c in t['c']:
            plain(c)
        return t
    return {'tree': plain(w.rec(root)), 'errors': [err(e) for e in root.errors],
            'sorted': [err(e) for e in root.errors_sorted],
            'node_errors': [[list(p), sorted(err(e) for e in root.node_errors(paths[p][-1]))] for p in paths],
            'flag': int(root.error_flag), 'sets': sets, 'source': str(root.source), 'lbreaks': list(root.lbreaks),
            'names': [root.docname, root.stage, root.serialization_type], 'self': int(root.data is root)}


def vandalize(root, rng):
    from DHParser.error import Error, ErrorCode
    for nd in list(root.walk_tree(include_root=True)):
        x = rng.random()
        if x < 0.3:
            nd.attr['new'] = 'n'
        elif x < 0.5:
            nd.name = 'new'
        elif x < 0.6 and not nd.children:
            nd.result = 'new text'
    root.inline_tags.add('i2')
    root.string_tags.add('s2')
    root.empty_tags.add('e2')
    for nd in root.walk_tree(include_root=True):
        for e in root.node_errors(nd):
            e.message += '!'
            e.line += 1
    for e in root.errors:
        e.column += 7
    root.new_error(root, 'another', ErrorCode(2222))
    root.lbreaks.append(99)
    root.docname = root.stage = 'changed'


def rootcopy(job):
    t, seed = job
    from DHParser.nodetree import RootNode
    from DHParser.error import Error, ErrorCode
    r = random.Random(seed)
    nd = T.to_node(t).with_pos(0)
    src = nd.content
    rec = {'kind': 'root', 'exc': '', 'shared': False}
    try:
        root = RootNode(nd, src + 'q' if not src else src)
        some = list(root.walk_tree(include_root=True))
        for _ in range(r.randint(0, 4)):
            m = r.choice(some)
            root.add_error(m, Error(r.choice('ABC'), m.pos + r.randint(0, m.strlen()), ErrorCode(r.choice([50, 500, 1000, 1010, 10000]))))
        root.inline_tags.add('i')
        root.empty_tags.add('e')
        root.docname, root.stage, root.serialization_type = 'doc', 'ast', 'xml'
        c = copy.deepcopy(root)
        rec['shared'] = bool({id(x) for x in root.walk_tree(include_root=True)}
                             & {id(x) for x in c.walk_tree(include_root=True)})
        rec['orig'], rec['copy'] = observe(root), observe(c)
        vandalize(c, r)
        rec['orig2'], rec['copy2'] = observe(root), observe(c)
        vandalize(root, r)
        rec['copy3'] = observe(c)
    except Exception as e:
        rec['exc'] = type(e).__name__ + ' ' + str(e)[:60]
    return rec


def run(c):
    k = 10 if THOROUGH else 1
    rng = c.rng
    ts = c.generate('TreeEnum', env={'MAXN': '4' if THOROUGH else '3', 'NAMES': '2', 'TEXTS': '2'})
    c.extra['enumerated_trees'] = len(ts)
    jobs = [(t, rng.random(), 4) for t in ts for _ in range(10)]
    jobs += [(T.random_tree(rng, rng.randint(1, 12), NAMES, empty=0.3, attrs=0.3), rng.random(), 12)
             for _ in range(3000 * k)]
    recs = pmap(edits, jobs)
    for r in recs:
        for q in r['qs']:
            c.count('op_' + q['op'])
            c.count('exceptions', q['exc'] != '')
    recs += pmap(tokens, [rng.random() for _ in range(600 * k)])
    recs += pmap(rootcopy, [(T.random_tree(rng, rng.randint(1, 8), NAMES, empty=0.3, attrs=0.3), rng.random())
                            for _ in range(300 * k)])
    c.validate('NodeEditTrace', recs)


main('C16', run, rule='histories of edits on every small tree and on random larger trees, copies, token attributes')
