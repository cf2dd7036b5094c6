"""C25: histories of text buffers against TextBuf.tla."""
import random
from vlib import main, pmap, THOROUGH


def rnd(r, n, crlf=False):
    s = ''.join(r.choice(['a', 'b', 'c', ' ', '\n', '\n']) for _ in range(r.randint(0, n)))
    return s.replace('\n', '\r\n') if crlf else s


def rng_(r, lines):
    l1 = r.randrange(len(lines))
    l2 = min(len(lines) - 1, l1 + r.choice([0, 0, 1, 1, 2, 5]))
    c1, c2 = r.randint(0, len(lines[l1]) + 1), r.randint(0, len(lines[l2]) + 1)
    if l1 == l2 and c1 > c2:
        c1, c2 = c2, c1
    return [l1, c1, l2, c2]


def edited(s, a, new):
    """only used to choose ranges that exist"""
    ls = s.split('\n')
    off = lambda k, c: sum(len(x) + 1 for x in ls[:k]) + min(c, len(ls[k]))
    return s[:off(a[0], a[1])] + new.replace('\r\n', '\n') + s[off(a[2], a[3]):]


def case(seed):
    from DHParser.stringview import TextBuffer, StringView
    r = random.Random(seed)
    crlf = r.random() < 0.25
    text = rnd(r, r.choice([0, 3, 8, 20]), crlf)
    tb = TextBuffer(text if r.random() < 0.8 else StringView('x' + text + 'y')[1:-1])
    cur, ops = text.replace('\r\n', '\n'), []
    for _ in range(r.choice([2, 5, 10])):
        op = r.choice(['update'] * 4 + ['edits'] * 2 + ['str', 'len', 'lines', 'line', 'range', 'buffer', 'lf', 'crlf', 'crlf'])
        o = {'op': op}
        lines = cur.split('\n')
        try:
            if op == 'update':
                o['a'], new = rng_(r, lines), rnd(r, r.choice([0, 0, 2, 5]), crlf or r.random() < 0.2)
                o['new'] = list(new)
                tb.update(*o['a'], new if r.random() < 0.8 else StringView(new))
                cur, o['r'] = edited(cur, o['a'], new), tb.version
            elif op == 'edits':
                o['es'], evs = [], []
                for _ in range(r.randint(0, 3)):
                    a, new = rng_(r, cur.split('\n')), rnd(r, 3)
                    cur = edited(cur, a, new)
                    o['es'].append({'op': 'update', 'a': a, 'new': list(new)})
                    evs.append({'range': {'start': {'line': a[0], 'character': a[1]},
                                          'end': {'line': a[2], 'character': a[3]}},
                                r.choice(['text', 'newText']): new})
                o['ver'] = r.choice([-1, -1, tb.version + r.randint(1, 5)])
                if len(evs) == 1 and r.random() < 0.5:
                    evs = evs[0]
                tb.text_edits(evs, o['ver']) if o['ver'] >= 0 else tb.text_edits(evs)
                o['r'] = tb.version
            elif op == 'line':
                o['i'] = r.randrange(len(lines))
                o['r'] = list(str(tb[o['i']]))
            elif op == 'range':
                o['i'] = r.randrange(len(lines))
                o['j'] = r.randint(o['i'], len(lines))
                o['r'] = [list(str(x)) for x in tb[o['i']:o['j']]]
            else:
                o['r'] = {'str': lambda: list(str(tb)), 'len': lambda: len(tb), 'lines': tb.lines,
                          'buffer': lambda: [list(str(x)) for x in tb.buffer],
                          'lf': lambda: list(str(tb.snapshot('\n') if r.random() < 0.5 else tb.snapshot())),
                          'crlf': lambda: list(str(tb.snapshot('\r\n')))}[op]()
        except Exception as e:
            o['r'] = type(e).__name__
        ops.append(o)
    return {'text': list(text), 'ops': ops}


def run(c):
    c.design('TextBuf', env={}) if not THOROUGH else c.design('TextBuf', cfg='TextBuf5', timeout=700)
    recs = pmap(case, [c.rng.random() for _ in range(80000 if THOROUGH else 8000)])
    c.count('steps', sum(len(r['ops']) for r in recs))
    c.validate('TextBufTrace', recs)


main('C25', run, rule='all edits of short texts in the model; random histories of buffers validated step by step')
