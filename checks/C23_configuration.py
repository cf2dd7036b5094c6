"""C23: histories of configuration calls by several threads against Config.tla."""
import configparser
import contextlib
import io
import os
import random
from vlib import main, pmap, THOROUGH
from sched_ import Worker, Interleaver, Hang

VALUES = {'i0': 0, 'i5': 5, 'i10': 10, 'i11': 11, 'i-1': -1, 'f2.5': 2.5, 'sx': 'x', 'sy': 'y', 'sz': 'z',
          'l': [], 'lx': ['x'], 'lxy': ['x', 'y'], 'lxz': ['x', 'z']}
KEYS = ['r', 's', 'f', 'n']
THREADS = ['A', 'B', 'C']


def back(v):
    for k, x in VALUES.items():
        if x == v and type(x) is type(v):
            return k
    return 'other:' + repr(v)


def invalid(k, v):      # (only to choose values)
    return k == 'r' and v not in ('i0', 'i5', 'i10', 'f2.5') or k == 's' and v not in ('sx', 'sy', 'l', 'lx', 'lxy')


def perform(o, pre):
    from DHParser import configuration as C
    k = pre + '.' + o.get('k', '')
    v = VALUES.get(o.get('v'))
    op = o['op']
    try:
        if op == 'get':
            return back(C.get_config_value(k)) if o['v'] == '-' else back(C.get_config_value(k, v))
        if op == 'set':
            C.set_config_value(k, v, allow_new_key=True) if o['new'] else C.set_config_value(k, v)
        elif op == 'add': C.add_config_values({k: v})
        elif op == 'reset': C.reset_config_dict()
        elif op == 'access': C.access_presets()
        elif op == 'finalize': C.finalize_presets()
        elif op == 'getpreset': return back(C.get_preset_value(k))
        elif op == 'preset':
            C.set_preset_value(k, v, allow_new_key=True) if o['new'] else C.set_preset_value(k, v)
        elif op == 'all':
            pat = [p if p == '*' else pre + '.' + p for p in o['pat']]
            if o['dump']:
                cp = configparser.ConfigParser()
                cp.optionxform = str
                cp.read_string(C.dump_config_data(*pat))
                r = {sec + '.' + n: eval(x) for sec in cp.sections() for n, x in cp[sec].items()}
            else:
                r = C.get_config_values(*pat)
            return [[n[len(pre) + 1:], back(x)] for n, x in r.items() if n.startswith(pre + '.')]
        elif op == 'ingest':
            C.read_config_string('[%s]\n' % pre + ''.join(
                '%s = %s\n' % (n, 'undefined_name' if x == 'bad' else repr(VALUES[x])) for n, x in o['kvs']))
        return 'ok'
    except (KeyError, ValueError, TypeError, AssertionError, NameError) as e:
        return type(e).__name__ if op != 'all' else [['!', type(e).__name__]]
    except Exception as e:
        return 'other:' + type(e).__name__ if op != 'all' else [['!', type(e).__name__]]


def choose(r, t, par=False):
    op = r.choice(['get'] * 6 + ['set'] * 4 + ['all'] * 3 + ['preset'] * 5 + ['access', 'finalize', 'finalize', 'getpreset',
                  'add', 'reset'] + ([] if par else ['ingest', 'ingest']))
    if op == 'access' and par:
        op = 'get'
    o = {'op': op, 't': t, 'k': r.choice(KEYS)}
    v = r.choice(sorted(VALUES))
    if invalid(o['k'], v) and r.random() < 0.6:
        v = {'r': 'i5', 's': 'sx'}[o['k']]
    if op == 'get':
        o['v'] = r.choice(['-', '-', 'i5', 'sx'])
    elif op in ('set', 'preset', 'add'):
        o['v'], o['new'] = v, r.random() < 0.7
        if op == 'add' and invalid(o['k'], v):
            o['v'] = {'r': 'i0', 's': 'sy'}[o['k']]      # (not validated)
    elif op == 'all':
        o['pat'] = r.choice([['*'], ['r'], ['?'], ['r', 'f'], ['s', 'n', 'f'], ['n', '?'], ['[rs]'], ['f', 'f']])
        o['ks'] = sorted({k for p in o['pat'] for k in KEYS
                          if p in ('*', '?', k) or p == '[rs]' and k in 'rs'})
        o['dump'] = r.random() < 0.3 and '*' not in o['pat']
    elif op == 'ingest':
        o['kvs'] = [[k, r.choice(sorted(VALUES) + ['bad']) if r.random() < 0.5 else
                     {'r': 'i10', 's': 'lxy'}.get(k, 'sz')] for k in r.sample(KEYS, r.randint(1, 3))]
    return o


def hang(o):
    o['r'] = [['!', 'hang']] if o['op'] == 'all' else 'hang'


def histories(job):
    """A number of histories (in one process; the names of the keys tell them apart)"""
    res = []
    with contextlib.suppress(Hang):     # (locks may be held forever: no further histories in this process)
        _histories(job, res)
    return res


def _histories(job, res):
    from DHParser import configuration as C
    import threading
    seed, n, par = job
    r = random.Random(seed)
    threading.stack_size(512 * 1024)
    for h in range(n):
        pre = 'v%i' % h
        C.ALLOWED_PRESET_VALUES[pre + '.r'] = (0, 10)
        C.ALLOWED_PRESET_VALUES[pre + '.s'] = frozenset({'x', 'y'})
        ws = {t: Worker() for t in THREADS}
        ops = []

        res.append({'ops': ops})

        def seq(o):
            ops.append(o)
            try:
                o['r'] = ws[o['t']].call(lambda: perform(o, pre))
            except Hang:
                hang(o)
                raise
        with contextlib.redirect_stdout(io.StringIO()):
            if r.random() < 0.8:      # most histories start with presets
                t = r.choice(THREADS)
                seq({'op': 'access', 't': t})
                for k in KEYS[:3]:
                    if r.random() < 0.7:
                        seq({'op': 'preset', 't': t, 'k': k, 'v': {'r': 'i0', 's': 'sx', 'f': 'sz'}[k], 'new': True})
                if r.random() < 0.8:
                    seq({'op': 'finalize', 't': t})
            for _ in range(r.randint(0, 4) if par else r.randint(3, 12)):
                seq(choose(r, r.choice(THREADS)))
            if par:
                for _ in range(r.randint(1, 2)):
                    os_ = [choose(r, t, True) for t in r.sample(THREADS, r.choice([2, 2, 3]))]
                    while sum(o['op'] == 'finalize' for o in os_) > 1:    # (calls of one thread)
                        os_.remove(next(o for o in os_ if o['op'] == 'finalize'))
                    il = Interleaver(r, (os.path.join('DHParser', 'configuration.py'),))
                    ops.append({'op': 'par', 'ops': os_})
                    try:
                        for o, x in zip(os_, il.run([(ws[o['t']], lambda o=o: perform(o, pre)) for o in os_])):
                            o['r'] = x
                    except Hang:
                        for o in os_:
                            hang(o)
                        raise
                    for t in THREADS:
                        for k in r.sample(KEYS, 2):
                            seq({'op': 'get', 't': t, 'k': k, 'v': '-'})
            with contextlib.suppress(AssertionError):
                C.finalize_presets()
        for w in ws.values():
            w.stop()
        for d in (C.CONFIG_PRESET, C.ALLOWED_PRESET_VALUES):
            for k in [k for k in d if k.startswith(pre + '.')]:
                del d[k]


def run(c):
    c.design('Config')
    k = 10 if THOROUGH else 1
    jobs = [(c.rng.random(), 60, False) for _ in range(32 * k)] + [(c.rng.random(), 30, True) for _ in range(32 * k)]
    recs = [h for hs in pmap(histories, jobs, chunk=1) for h in hs]
    c.count('calls', sum(len(h['ops']) for h in recs))
    c.count('overlapping_calls', sum(len(o['ops']) for h in recs for o in h['ops'] if o['op'] == 'par'))
    c.validate('ConfigTrace', recs)


main('C23', run, rule='all interleavings of atomic calls in the model; random histories of three threads, and calls '
     'interleaved line by line, explained by some order of the calls')
