"""C30: batch-processing - many files, many workers, cancelling: against Batch.tla."""
import glob
import os
import random
import re
import sys
import threading
import time
from concurrent.futures import ThreadPoolExecutor
from vlib import main, pmap, scratch, THOROUGH

KINDS = {'Notice': 'note', 'Warning': 'warn', 'Error': 'err', 'Fatal': 'fatal'}
SERS = ['sxpr', 'S-expression', 'xml', 'XML', 'json', 'default']
WORDS = ['one', 'two', 'äö', 'x1', 'B', 'astro', 'four_five']


def a_file(r, calm):
    """A source text and what there is to know about it."""
    f = {'pre': r.random() < .06 and not calm, 'w': [], 'el': 0, 'ec': 0}
    text, line, col = '', 1, 1
    if f['pre']:
        text, col = '!', 2
    for _ in range(r.choice([1, 2, 2, 3, 3, 5, 9])):
        st, kd = '', ''
        t = r.choice(WORDS)
        if r.random() < (.15 if calm else .4):
            st, kd = r.choice(['ast', 'ast', 'xml', 'txt', 'top']), r.choice(['note', 'warn', 'warn', 'err', 'err', 'fatal'][:4 if calm else 6])
            t = st + '_' + kd
        f['w'].append({'t': t, 'st': {'ast': 'AST'}.get(st, st), 'kd': kd, 'l': line, 'c': col})
        text += t
        col += len(t)
        gap = r.choice([' ', ' ', '  ', '\n', '\n\n', ' \n '])
        for ch in gap:
            line, col = (line + 1, 1) if ch == '\n' else (line, col + 1)
        text += gap
    if r.random() < (.05 if calm else .15) and not f['pre']:
        f['el'], f['ec'] = line, col
        text += r.choice(['?', '? abc', '?\nast_err\n'])
    return f, text


def shown(line):
    """a line of a file of messages -> [name, line, column, kind, text]"""
    m = re.match(r'(.*?):(\d+):(\d+): (\w+) \((\d+)\): (.*)$', line)
    if not m:
        return None
    st, _, rest = m.group(6).partition(':')
    return [os.path.basename(m.group(1)), int(m.group(2)), int(m.group(3)), KINDS.get(m.group(4), m.group(4)),
            {'ast': 'AST'}.get(st, st) + ':' + rest]


def read_tree(text, ext):
    from DHParser import nodetree as nt
    t = {'sxpr': nt.parse_sxpr, 'xml': nt.parse_xml, 'json': nt.parse_json}[ext](text)
    return t.name, [nd.content for nd in t.select('word')]


def written(out, base, f):
    res = []
    for p in sorted(glob.glob(os.path.join(out, '*', base + '.*'))):
        t, rest = os.path.basename(os.path.dirname(p)), os.path.basename(p)[len(base) + 1:]
        name, _, ext = rest.partition('.')
        data = open(p, encoding='utf-8').read()
        root, words = name, []
        try:
            if ext:
                root, words = read_tree(data, ext) if name == t else ('wrong name ' + name, [])
            elif t == 'txt':
                words = data.split(',')
            elif data[:1] + data[-1:] == '<>':
                words = data[1:-1].split(' ')
        except Exception as e:
            root = 'unreadable: ' + type(e).__name__
        res.append([t, ext, root, words])
    return res


state = {'cancelled': False, 'done': 0, 'order': None}


def cancelled():
    return state['cancelled']


def history(job):
    with scratch() as d:
        return in_dir(job, d)


def in_dir(job, base_dir):
    seed, mode = job
    import batchdsl as D
    from DHParser.configuration import set_config_value, get_config_value
    from DHParser.dsl import batch_process
    r = random.Random(seed)
    nfiles = r.choice([1, 2, 3, 5, 8]) if mode != 'one' else 1
    calm = r.random() < .3
    fs = [a_file(r, calm) for _ in range(nfiles)]
    T = sorted(r.sample(['AST', 'xml', 'txt', 'top'], r.randint(1, 4)))
    ser = {t: r.sample(SERS, r.randint(1, 3)) for t in ('AST', 'xml', '*') if r.random() < .4}
    D.setup['targets'], D.setup['ser'] = set(T), ser
    bases = r.sample(['a', 'b', 'q.c', 'ä', 'a b', 'xml', 'A1', 'aa', 'a_ERRORS', 'Z'], nfiles)
    src, out = os.path.join(base_dir, 'src'), os.path.join(base_dir, *r.choice([['out'], ['deep', 'out']]))
    os.mkdir(src)
    names = []
    for b, (f, text) in zip(bases, fs):
        names.append(os.path.join(src, b + '.dsl'))
        with open(names[-1], 'w', encoding='utf-8', newline='') as h:
            h.write(text)
    rec = {'files': [f for f, _ in fs], 'T': T, 'ser': ser or {'': []}, 'stop': 0, 'texts': [t for _, t in fs], 'mode': mode}
    log = []
    stop = r.randint(1, nfiles) if r.random() < .25 and mode not in ('one', 'own-nocancel') else 0
    rec['stop'] = stop
    state['cancelled'] = False

    def log_func(m):
        log.append(m)
        if len(log) == stop:
            state['cancelled'] = True

    D.running = evs = []
    D.gates = None
    argv = sys.argv
    saved = get_config_value('debug_parallel_execution')
    try:
        if mode == 'one':
            ret = D.one(names[0], out)
            ret = [ret] if ret else []
            log = None
        elif mode in ('singlethread', 'multithreading', 'multicore'):
            if r.random() < .3:         # given on the command-line
                sys.argv = [argv[0]] + ['--' + mode] * (mode != 'multicore') + ['--other', mode]
                set_config_value('debug_parallel_execution', 'commandline')
            else:
                set_config_value('debug_parallel_execution', mode)
            if mode == 'multithreading' and r.random() < .6:
                D.gates = lambda n: time.sleep(0.002 * (hash(n) % 5))
            ret = batch_process(names, out, D.wrapper, log_func=log_func, cancel_query=cancelled if stop or r.random() < .5 else None)
        else:
            # the files are finished in an order of our choice
            order = list(names)
            r.shuffle(order)
            events = {n: threading.Event() for n in names}
            D.gates = lambda n: events[n].wait(20)
            pool = ThreadPoolExecutor(nfiles)

            def submit(f, *args):
                return pool.submit(chain, f, args)

            def chain(f, args):
                try:
                    return f(tuple(args))
                finally:
                    k = order.index(args[0])
                    if k + 1 < len(order):
                        events[order[k + 1]].set()
            events[order[0]].set()
            ret = batch_process(names, out, D.wrapper, submit_func=submit, log_func=log_func, cancel_query=cancelled if stop else None)
    finally:
        sys.argv = argv
        set_config_value('debug_parallel_execution', saved)
    evs = list(evs)
    rec['where'] = 'process' if not evs else 'thread' if any(e[2] != threading.get_ident() for e in evs) else 'caller'
    rec['late'] = sum(1 if e[0] == 'begin' else -1 for e in evs) if mode != 'multicore' else 0
    if mode == 'own':
        pool.shutdown()
    known = {}
    for k, b in enumerate(bases):
        for s in ('ERRORS', 'WARNINGS'):
            known[os.path.join(out, f'{b}_{s}.txt')] = [k + 1, s]
    rec['ret'] = [known.get(x, [0, x]) for x in ret]
    byname = {os.path.basename(n): k + 1 for k, n in enumerate(names)}
    if log is None:
        rec['log'] = [[1, rec['ret'][0][1] if rec['ret'] else '']]
    else:
        rec['log'] = []
        for m in log:
            m = re.match(r'Compiled "(.*)"(?: with (.*))?$', m)
            rec['log'].append([byname.get(m.group(1), 0), m.group(2) or ''])
    rec['out'] = [written(out, b, f) for b, (f, _) in zip(bases, fs)]
    rec['msgs'], rec['kinds'] = [], []
    for k, b in enumerate(bases):
        ms, kinds = [], []
        for s in ('ERRORS', 'WARNINGS'):
            p = os.path.join(out, f'{b}_{s}.txt')
            if os.path.exists(p):
                kinds.append(s)
                for line in open(p, encoding='utf-8').read().split('\n'):
                    x = shown(line)
                    if x:
                        ms.append(x[1:] if x[0] == b + '.dsl' else [0, 0, 'name', x[0]])
        rec['msgs'].append(ms)
        rec['kinds'].append(kinds)
    return rec


def guarded(job):
    try:
        return history(job)
    except Exception as e:
        import traceback
        return {'crash': f'{type(e).__name__}: {e}', 'trace': traceback.format_exc()[-1500:], 'job': list(job)}


def run(c):
    c.design('Batch')
    k = 10 if THOROUGH else 1
    jobs = [(f'{c.rng.random()}', m) for m, n in (('one', 900), ('singlethread', 200), ('multithreading', 250), ('own', 350))
            for _ in range(n * k)]
    recs = pmap(guarded, jobs)
    recs += [guarded((f'{c.rng.random()}', 'multicore')) for _ in range(12 * k)]
    for r in recs:
        if 'crash' in r:
            c.violation('an exception escaped from batch-processing: ' + r['crash'], r)
    recs = [r for r in recs if 'crash' not in r]
    for r in recs:
        c.count('histories_' + r['mode'])
        c.count('files', len(r['files']))
        c.count('cancelled', r['stop'] > 0)
    c.validate('BatchTrace', recs)


main('C30', run, rule='random sources with messages of all kinds at all stages, targets, serializations; one thread, '
     'many threads, many processes, own executors with every order of finishing; cancelling after the i-th file')
