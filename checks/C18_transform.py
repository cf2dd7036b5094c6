"""C18: predefined transformations and conditions on random trees against Transform.tla."""
import random
from vlib import main, pmap, THOROUGH

NAMES = ['a', 'b', 'c', 'p', ':a', ':b', ':Text', ':Text', ':Whitespace', ':RegExp', ':Series']
PATTERNS = ['a+', '[ab]*', 'a|b', r'\s*', '.*b$']


def gen(r, depth, names, vals, root=True):
    kids = [] if depth == 0 or (not root and r.random() < 0.4) else \
        [gen(r, depth - 1, names, vals, False) for _ in range(r.choice([1, 1, 2, 2, 3, 4]))]
    attrs = r.sample('xyz', r.choice([1, 1, 2])) if r.random() < 0.25 else []
    return {'n': r.choice(names), 't': [] if kids else [r.choice('aab  \n') for _ in range(r.choice([0, 1, 1, 1, 2, 3]))],
            'k': kids, 'a': [[k, r.choice(vals)] for k in attrs]}


def build(x):
    from DHParser.nodetree import Node
    nd = Node(x['n'], tuple(build(k) for k in x['k']) if x['k'] else ''.join(x['t']))
    for k, v in x['a']:
        nd.attr[k] = v
    return nd


def view(nd):
    return {'n': nd.name, 't': [] if nd.children else list(nd.result), 'k': [view(k) for k in nd.children],
            'a': [[k, v] for k, v in nd.attr.items()] if nd.has_attr() else []}


def cond(r, names, depth=1):
    """A condition on a node as data"""
    c = r.choice(['anon', 'named', 'anonleaf', 'ws', 'ws', 'empty', 'oneof', 'oneof', 'oneof', 'notoneof', 'isa', 'nota', 'token',
                  'content', 'cmatch', 'attr', 'always', 'never', 'haschildren'] + (['neg', 'any', 'all'] if depth else []))
    s = []
    if c in ('oneof', 'notoneof'):
        s = r.sample(sorted(set(names)), r.randint(1, min(3, len(set(names)))))
    elif c in ('isa', 'nota'):
        s = [r.choice(names)]
    elif c == 'token':
        s = [[ch] for ch in r.sample('ab ', r.randint(0, 2))]
    elif c == 'content':
        s = [r.choice('ab ') for _ in range(r.randint(0, 2))]
    elif c == 'cmatch':
        s = r.choice(PATTERNS)
    elif c == 'attr':
        s = [r.choice(['', 'x', 'y']), r.choice(['', '1', '2'])]
        if not s[0]:
            s[1] = ''
    elif c == 'neg':
        s = cond(r, names, 0)
    elif c in ('any', 'all'):
        s = [cond(r, names, 0) for _ in range(r.randint(1, 2))]
    return {'c': c, 's': s}


def pycond(c, r):
    """The condition function for a condition"""
    import DHParser.transform as T
    k, s = c['c'], c['s']

    def coll(f, xs):      # collections can be passed as a set or as single arguments
        return f(*xs) if xs and r.random() < 0.5 else f(set(xs))
    if k in ('anon', 'named', 'anonleaf', 'ws', 'empty', 'always', 'never', 'haschildren'):
        return {'anon': T.is_anonymous, 'named': T.is_named, 'anonleaf': T.is_anonymous_leaf, 'ws': T.contains_only_whitespace,
                'empty': T.is_empty, 'always': T.always, 'never': T.never, 'haschildren': T.has_children}[k]
    if k in ('oneof', 'notoneof'):
        return coll({'oneof': T.is_one_of, 'notoneof': T.not_one_of}[k], s)
    if k in ('isa', 'nota'):
        return {'isa': T.is_a, 'nota': T.not_a}[k](s[0])
    if k == 'token':
        return coll(T.is_token, [''.join(t) for t in s])
    if k == 'content':
        return T.has_content(''.join(s))
    if k == 'cmatch':
        return T.content_matches(s)
    if k == 'attr':
        return T.has_attr(s[0], s[1]) if s[1] else T.has_attr(s[0])
    if k == 'neg':
        return T.neg(pycond(s, r))
    if k in ('any', 'all'):
        return coll({'any': T.any_of, 'all': T.all_of}[k], [pycond(x, r) for x in s])
    raise ValueError(k)


NODE_OPS = ['replace_by_single_child', 'reduce_single_child', 'replace_or_reduce', 'swap_nested_nodes', 'change_name',
            'replace_child_names', 'flatten', 'flatten', 'collapse', 'collapse_children_if', 'collapse_children_if',
            'merge_adjacent', 'merge_adjacent', 'merge_leaves', 'merge_connected', 'lstrip', 'rstrip', 'strip', 'strip',
            'keep_children', 'keep_children_if', 'remove_children_if', 'remove_brackets', 'replace_content_with',
            'transform_result', 'normalize_whitespace', 'add_attributes', 'del_attributes', 'insert', 'insert_at_names',
            'delimit_children', 'left_associative', 'lean', 'merge_treetops']
PARENT_OPS = ['replace_by_children', 'remove', 'remove_if', 'move_fringes', 'move_fringes', 'move_fringes']
ANY_VALUES = {'swap_nested_nodes', 'add_attributes', 'del_attributes', 'collapse', 'collapse_children_if', 'remove_if', 'remove'}


def make_op(r, op, names):
    """An operation as data (and what is needed to perform it)"""
    from DHParser.transform import Node
    o = {'op': op, 'c': cond(r, names)}
    nm = sorted(set(names))
    if op == 'replace_or_reduce' and r.random() < 0.4:
        o['no'] = cond(r, names)
    if op in ('change_name', 'collapse_children_if', 'merge_adjacent', 'merge_connected'):
        o['name'] = r.choice(nm + ([''] if op.startswith('merge') else []))
    if op == 'collapse_children_if':
        o['rule'] = r.choice(['join', 'join', 'longest', 'fix'])
    if op.startswith('merge'):
        o['w'] = {'c': 'never', 's': []} if r.random() < 0.6 else cond(r, names)
    if op == 'merge_connected':
        s = r.sample(nm, min(len(nm), r.randint(1, 4)))
        k = r.randint(0, len(s))
        o['c'], o['d'] = {'c': 'oneof', 's': s[:k]}, {'c': 'oneof', 's': s[k:]}
        o['dname'] = r.choice(s[k:] + ['']) if s[k:] else ''    # (names for which the conditions still hold)
        if o['w']['c'] != 'never':
            o['w'] = {'c': 'oneof', 's': s[:k][:1]} if s[:k] else {'c': 'never', 's': []}
    if op in ('replace_child_names', 'add_attributes'):
        o['m'] = [[k, r.choice(nm)] for k in r.sample(nm if op == 'replace_child_names' else ['x', 'y', 'w'], min(len(nm), r.randint(1, 2)))]
    if op == 'flatten':
        o['rec'] = r.random() < 0.7
        if r.random() < 0.6:
            o['c'] = {'c': 'anon', 's': []}
    if op in ('keep_children',):
        o.update({'from': r.randint(-3, 4), 'to': r.choice([99, 99, r.randint(-3, 4)]), 'step': r.choice([1, 1, 2])})
    if op in ('replace_content_with', 'transform_result'):
        o['t'] = [r.choice('ab') for _ in range(r.randint(0, 2))]
    if op == 'del_attributes':
        o['s'] = r.sample('xyz', r.randint(0, 2))
    if op == 'insert_at_names':
        o['s'] = r.sample(nm, min(2, len(nm)))
    if op in ('insert', 'insert_at_names', 'delimit_children'):
        o['d'] = gen(r, r.choice([0, 0, 1]), names, ['1'])
    if op == 'insert':
        o['ps'] = [r.randint(0, 5) for _ in range(r.choice([0, 1, 1, 2]))]
    if op == 'move_fringes':
        o['side'], o['merge'] = r.choice(['both', 'both', 'left', 'right']), r.random() < 0.7
    if op == 'lean':
        o['s'] = ['op1', 'op2']
    return o


def pyop(o, r):
    import DHParser.transform as T
    op, c = o['op'], pycond(o['c'], r)
    rules = {'join': T.join_content, 'longest': T.pick_longest_content, 'fix': T.fix_content('F')}

    def maker(x):
        return T.node_maker(x['n'], tuple(maker(k) for k in x['k']) if x['k'] else ''.join(x['t']), dict(map(tuple, x['a'])))

    def many(f, xs):
        return f(*xs) if xs and r.random() < 0.5 else f(frozenset(xs))

    def direct(f, *args, **kw):     # call the transformation directly or create it by its factory
        return f(*args, **kw) if r.random() < 0.7 else lambda path: f(path, *args, **kw)
    if op in ('replace_by_single_child', 'reduce_single_child', 'swap_nested_nodes', 'collapse', 'merge_leaves', 'remove_brackets',
              'normalize_whitespace', 'replace_by_children', 'remove', 'left_associative'):
        return getattr(T, op)
    if op == 'merge_treetops':
        return lambda path: T.merge_treetops(path[-1])
    if op == 'replace_or_reduce':
        return T.replace_or_reduce(T.three_valued(c, T.neg(pycond(o['no'], r)) if False else pycond({'c': 'all', 's': [o['no']]}, r))
                                   if 'no' in o else c)
    if op == 'change_name':
        return direct(T.change_name, o['name'])
    if op in ('replace_child_names', 'add_attributes'):
        return direct(getattr(T, op), dict(map(tuple, o['m'])))
    if op == 'flatten':
        if o['c']['c'] == 'anon' and o['rec'] and r.random() < 0.5:
            return T.flatten
        return direct(T.flatten, c, o['rec'])
    if op == 'collapse_children_if':
        return direct(T.collapse_children_if, c, o['name'], rules[o['rule']])
    if op == 'merge_adjacent':
        kw = {} if o['w']['c'] == 'never' and r.random() < 0.8 else {'swallow': pycond(o['w'], r)}
        return direct(T.merge_adjacent, c, o['name'], **kw)
    if op == 'merge_connected':
        kw = {} if o['w']['c'] == 'never' else {'swallow': pycond(o['w'], r)}
        return direct(T.merge_connected, c, pycond(o['d'], r), o['name'], o['dname'], **kw)
    if op in ('lstrip', 'rstrip', 'strip'):
        if o['c']['c'] == 'ws' and r.random() < 0.5:
            return getattr(T, op)
        return direct(getattr(T, op), c)
    if op == 'keep_children':
        return direct(T.keep_children, slice(o['from'], None if o['to'] == 99 else o['to'], o['step']))
    if op in ('keep_children_if', 'remove_children_if'):
        k = o['c']['c']
        if k == 'oneof':
            return many(T.keep_nodes if op[0] == 'k' else T.remove_children, o['c']['s'])
        if k == 'token' and r.random() < 0.7:
            return many(T.keep_tokens if op[0] == 'k' else T.remove_tokens, [''.join(t) for t in o['c']['s']])
        if k == 'cmatch':
            return (T.keep_content if op[0] == 'k' else T.remove_content)(o['c']['s'])
        if k == 'empty' and op[0] == 'r':
            return T.remove_empty
        return direct(getattr(T, op), c)
    if op == 'replace_content_with':
        return direct(T.replace_content_with, ''.join(o['t']))
    if op == 'transform_result':
        return T.transform_result(lambda res: ''.join(o['t']) + res if isinstance(res, str) else tuple(reversed(res)))
    if op == 'del_attributes':
        return T.del_attributes(r.choice([set, frozenset])(o['s']))
    if op == 'insert':
        ps = o['ps']
        return direct(T.insert, ps[0] if len(ps) == 1 and r.random() < 0.5 else tuple(ps), maker(o['d']))
    if op == 'insert_at_names':
        return T.insert(T.positions_of(*o['s']), maker(o['d']))
    if op == 'delimit_children':
        return T.delimit_children(maker(o['d']))
    if op == 'remove_if':
        return direct(T.remove_if, c)
    if op == 'move_fringes':
        return T.move_fringes(c, side=o['side'], merge=o['merge'])
    if op in ('apply_if', 'apply_unless'):
        return getattr(T, op)(many_ops(o['os'], r), c)
    if op == 'apply_ifelse':
        return T.apply_ifelse(many_ops(o['os'], r), many_ops(o['es'], r), c)
    raise ValueError(op)


def many_ops(os, r):
    fs = tuple(pyop(o, r) for o in os)
    return fs[0] if len(fs) == 1 and r.random() < 0.5 else fs


def paths(x, p=()):
    yield list(p)
    for i, k in enumerate(x['k']):
        yield from paths(k, p + (i + 1,))


def at(nd, path):
    q = [nd]
    for i in path:
        q.append(q[-1].children[i - 1])
    return q


def operators(r, depth):
    """A right leaning tree of operators with groups"""
    if depth == 0 or r.random() < 0.2:
        return {'n': 'num', 't': [r.choice('ab')], 'k': [], 'a': []}
    if r.random() < 0.2:
        return {'n': 'group', 't': [], 'k': [operators(r, depth - 1)], 'a': []}
    left = operators(r, depth - 1)
    while left['n'].startswith('op'):
        left = operators(r, depth - 1)
    return {'n': r.choice(['op1', 'op2']), 't': [], 'k': [left, operators(r, depth - 1)],
            'a': [['x', r.choice('123')]] if r.random() < 0.3 else []}


def op_record(seed):
    from DHParser.nodetree import RootNode
    import DHParser.transform as T
    r = random.Random(seed)
    names = r.sample(NAMES, r.randint(2, 5))
    op = r.choice(NODE_OPS + PARENT_OPS)
    combine = op not in PARENT_OPS and op not in ('lean', 'left_associative') and r.random() < 0.1
    vals = '12' if op in ANY_VALUES and not combine else '1'
    if op == 'lean':
        t = operators(r, r.randint(1, 6))
    elif op == 'left_associative':
        t = {'n': 'e', 't': [], 'a': [], 'k': []}
        for i in range(2 * r.randint(0, 4) + 1):
            t['k'].append(gen(r, 0, ['plus', 'minus'], ['1'], False) if i % 2 else gen(r, r.choice([0, 1]), names, ['1'], False))
            if i % 2:
                t['k'][-1]['a'] = []
    else:
        t = gen(r, r.choice([1, 2, 2, 3]), names, vals)
    if op == 'remove_brackets':
        t['k'] = t['k'] and [gen(r, 1, [':Text', ':RegExp', ':Series', ':Whitespace', 'a'], '1', r.random() < 0.3) for _ in range(r.randint(1, 6))]
    o = make_op(r, op, names)
    if combine:
        k = r.choice(['apply_if', 'apply_unless', 'apply_ifelse'])
        safe = ['replace_by_single_child', 'change_name', 'flatten', 'strip', 'keep_children_if', 'replace_content_with']
        o = {'op': k, 'c': cond(r, names), 'os': [make_op(r, r.choice(safe), names) for _ in range(r.randint(1, 3))],
             'es': [make_op(r, r.choice(safe), names)]}
        for x in o['os'] + o['es']:
            x.pop('rule', None)
    ps = list(paths(t))
    if op in ('lean', 'left_associative'):
        ps = [[]]
    elif op in PARENT_OPS and r.random() < 0.95:
        ps = [p for p in ps if p and (op != 'move_fringes' or at_data(t, p)['k'])] or ps
    elif op in ('normalize_whitespace',):
        ps = [p for p in ps if not at_data(t, p)['k']]
    elif op in ('insert', 'insert_at_names', 'delimit_children'):
        ps = [p for p in ps if at_data(t, p)['k'] or not at_data(t, p)['t']] or [None]
    else:
        ps = [p for p in ps if at_data(t, p)['k']] or ps if r.random() < 0.8 else ps
    path = r.choice(ps)
    if path is None:
        return op_record(seed + 1)
    nd = build(t)
    root = RootNode(nd).with_pos(0) if r.random() < 0.7 else nd.with_pos(0)
    rec = {'kind': 'op', 'tree': t, 'path': path, 'o': o, 'exc': '', 'res': t}
    try:
        if op == 'lean':
            T.traverse(root, {'op1, op2': T.lean_left({'op1', 'op2'})})
        else:
            pyop(o, r)(at(root, path))
        rec['res'] = view(root)
    except Exception as e:
        rec['exc'] = type(e).__name__ + ': ' + str(e)[:200]
    return rec


def at_data(t, path):
    for i in path:
        t = t['k'][i - 1]
    return t


def cond_record(seed):
    import DHParser.transform as T
    r = random.Random(seed)
    names = r.sample(NAMES, r.randint(2, 5))
    t = gen(r, r.choice([0, 1, 2, 3, 4]), names, '12')
    nd = build(t)
    nm = sorted(set(names))
    k = r.choice(['ancestor', 'ancestor', 'descendant', 'descendant', 'parent', 'child', 'sibling', 'single', 'local'])
    if k == 'local':
        c = cond(r, names)
        f = pycond(c, r)
    else:
        c = {'c': k, 's': r.sample(nm, r.randint(1, min(2, len(nm)))), 'g': r.choice([-1, -1, 1, 2, 3]),
             'u': r.sample(nm, 1) if r.random() < 0.3 else []}
        s = set(c['s'])
        kw = {}
        if c['g'] != -1 or r.random() < 0.3:
            kw['generations'] = c['g']
        if c['u']:
            kw['until'] = c['u'][0] if r.random() < 0.5 else set(c['u'])
        f = {'ancestor': lambda: T.has_ancestor(s, **kw), 'descendant': lambda: T.has_descendant(s, **kw),
             'parent': lambda: T.has_parent(s), 'child': lambda: T.has_child(s), 'sibling': lambda: T.has_sibling(s),
             'single': lambda: T.is_single_child}[k]()
    rec = {'kind': 'cond', 'tree': t, 'c': c, 'vals': []}
    for p in paths(t):
        if k == 'single' and not p or c.get('u') and at_data(t, p)['n'] in c['u']:
            continue
        try:
            v = f(at(nd, p))
        except Exception as e:
            v = type(e).__name__
        rec['vals'].append([p, v if isinstance(v, bool) else str(v)])
    return rec


def err_record(seed):
    from DHParser.nodetree import RootNode
    import DHParser.transform as T
    r = random.Random(seed)
    names = r.sample(NAMES, r.randint(2, 5))
    t = gen(r, r.choice([0, 1, 2]), names, '1')
    o = r.choice(['error_on', 'error_on', 'assert_content', 'require', 'forbid'])
    c = cond(r, names)
    if o == 'assert_content':
        c = {'c': 'cmatch', 's': r.choice(PATTERNS)}
    elif o in ('require', 'forbid'):
        c = {'c': 'oneof', 's': r.sample(sorted(set(names)), min(2, len(set(names))))}
    rec = {'kind': 'err', 'tree': t, 'o': o, 'c': c, 'vals': []}
    for p in paths(t):
        root = RootNode(build(t)).with_pos(0)
        path = at(root, p)
        f = {'error_on': lambda: T.error_on(pycond(c, r), 'x {name} {content} {pos}') if r.random() < 0.5 else T.error_on(pycond(c, r)),
             'assert_content': lambda: T.assert_content(c['s']), 'require': lambda: T.require(set(c['s'])),
             'forbid': lambda: T.forbid(set(c['s']))}[o]()
        f(path)
        es = root.errors
        rec['vals'].append([p, 'other' if es and es[0].pos != path[-1].pos or len(es) > 1 else bool(es)])
    return rec


def run(c):
    c.design('Transform')
    k = 15 if THOROUGH else 1
    r = c.rng
    recs = pmap(op_record, [r.randrange(2**40) for _ in range(9000 * k)])
    recs += pmap(cond_record, [r.random() for _ in range(2500 * k)])
    recs += pmap(err_record, [r.random() for _ in range(500 * k)])
    c.validate('TransformTrace', recs)


if __name__ == '__main__':
    main('C18', run, rule='restructuring of all small trees in the model; random transformations at random places of random trees, '
         'random conditions at all nodes of random trees')
