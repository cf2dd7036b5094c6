"""C26: conversations with the real server, in chunks of any size, against ServerTrace.tla."""
import asyncio
import json
import os
import random
import itertools
from vlib import main, pmap, THOROUGH

STRANGE = ['x', 'ä€𝔘', 'Content-Length: 7\r\n\r\n', '{"jsonrpc": "2.0"}', '{', '}\n', '"', '\\', 'GET / HTTP', '', '\t\x00\x1f', "'", '\u2028', 'f(1)', '__STOP__', 'null', 'x' * 700]
OBJ = object()


def value(rng, depth=2):
    r = rng.random()
    if r < .35: return rng.choice(STRANGE)
    if r < .55: return rng.choice([0, 1, -5, 2.5, True, False, None])
    if depth == 0: return rng.choice(['', 0, [], {}])
    if r < .75: return [value(rng, depth - 1) for _ in range(rng.randrange(3))]
    return {rng.choice(['a', 'b c', 'ä', 'q"', 'n\n', 'x\\', 'jsonrpc', 'id']): value(rng, depth - 1) for _ in range(rng.randrange(3))}


def canon(x): return json.dumps(x, sort_keys=True)


def R(x): return 'R' + canon(x)


class World:
    """the functions of the server"""
    def __init__(self):
        self.gates = {}
        self.connection = None

    def table(self):
        def echo(*args, **kw):
            kw.pop('ID', None)
            return list(args) if args else {'kw': kw}

        def nothing(**kw): return None
        def falsy(**kw): return kw['x']
        def id_of(ID=None, **kw): return {'ID': ID}
        def wants(a, b, ID=None): return [a, b]
        def boom(**kw): raise ValueError('a "quoted" \\ message\n\x01 ä')
        def key(**kw): return {}['q"\n']
        def errdict(**kw): return {'error': {'code': -4711, 'message': 'says "no" \\ \n'}}
        def code(**kw): return {'code': 'x = 1', 'message': 'm'}
        def nojson(**kw): return {'x': OBJ}
        def circular(**kw):
            x = []
            x.append(x)
            return x

        def raw(**kw): return b'[1, {"a": null}]'

        async def later(**kw):
            await self.gates[kw['gate']].wait()
            if kw.get('fail'): raise RuntimeError(kw['fail'])
            return {'v': kw.get('v')}

        async def soon(**kw):
            for _ in range(kw['n']): await asyncio.sleep(0)
            return kw['n']

        async def ask(**kw):
            await self.connection.server_request('client/ask', {'p': kw['p']}, kw['n'])
            r = await self.connection.client_response(kw['n'])
            return r['result'] if 'result' in r else r['error']

        async def tell(**kw):
            await self.connection.server_notification('client/told', kw['p'])
            return 'told'

        return dict(echo=echo, nothing=nothing, falsy=falsy, id_of=id_of, wants=wants, boom=boom, key=key, errdict=errdict, code=code, nojson=nojson,
                    circular=circular, raw=raw, later=later, soon=soon, ask=ask, tell=tell)


class Writer:
    """the server's side of the connection: notes what is written"""
    def __init__(self, rng):
        self.data, self.closed, self.rng = b'', False, rng

    def write(self, data):
        if self.closed: raise ConnectionError('closed')
        self.data += bytes(data)

    async def drain(self):
        for _ in range(self.rng.choice([0, 0, 1, 3])): await asyncio.sleep(0)

    def can_write_eof(self): return True
    def write_eof(self): self.closed = True
    def close(self): self.closed = True
    async def wait_closed(self): pass


def no_dups(pairs):
    d = dict(pairs)
    if len(d) != len(pairs): raise ValueError('key twice')
    return d


def frames(data):
    """(answers, questions) in the data that the server has written"""
    out, ask = [], []
    while data:
        head, sep, rest = data.partition(b'\r\n\r\n')
        if not sep or not head.startswith(b'Content-Length: ') or not head[16:].isdigit() or len(rest) < int(head[16:]):
            out.append({'id': 'plain', 'res': 'P' + data.decode('utf-8', 'backslashreplace')})
            break
        n = int(head[16:])
        body, data = rest[:n], rest[n:]
        try:
            j = json.loads(body.decode('utf-8'), object_pairs_hook=no_dups)
        except (ValueError, UnicodeDecodeError):
            j = None
        if not isinstance(j, dict) or 'jsonrpc' not in j:
            out.append({'id': 'plain', 'res': 'P' + body.decode('utf-8', 'backslashreplace')})
        elif j['jsonrpc'] != '2.0':
            out.append({'id': 'garbage', 'res': body.decode()})
        elif 'method' in j and 'id' in j: ask.append(j['id'])
        elif 'method' in j: ask.append(canon([j['method'], j.get('params')]))
        elif 'result' in j and set(j) == {'jsonrpc', 'id', 'result'}: out.append({'id': canon(j['id']), 'res': R(j['result'])})
        elif 'error' in j and set(j) == {'jsonrpc', 'id', 'error'} and isinstance(j['error'].get('code'), int) and isinstance(j['error'].get('message'), str):
            code = j['error']['code']
            out.append({'id': canon(j['id']), 'res': 'E%i' % code if code in (-32700, -32600, -32601, -32602, -32002, -4711) else 'Eother'})
        else: out.append({'id': 'garbage', 'res': body.decode()})
    return out, [str(a) if isinstance(a, int) else a for a in ask]


def pack(rng, obj, text=None):
    """a message as it goes over the line"""
    body = text if text is not None else (json.dumps(obj, ensure_ascii=rng.random() < .5, **rng.choice([{}, {'separators': (',', ':')}, {'indent': 1}]))).encode()
    n = len(body)
    head = rng.choice(['Content-Length: %i\r\n\r\n', 'Content-Length: %i\r\n\r\n', 'Content-Length:%i\r\n\r\n', 'Content-Length: %i\n\n',
                       'Content-Type: application/vscode-jsonrpc; charset=utf-8\r\nContent-Length: %i\r\n\r\n',
                       'Content-Length: %i\r\nContent-Type: application/vscode-jsonrpc; charset=utf-8\r\n\r\n'])
    return (head % n).encode() + body


class Client:
    """thinks up messages and knows (without looking at the server) what its functions yield"""
    def __init__(self, rng, lsp, simple=False):
        self.rng, self.lsp, self.simple = rng, lsp, simple
        self.ids = itertools.count(rng.randrange(0, 5))
        self.gates = itertools.count(1)
        self.ns = itertools.count(rng.randrange(1, 1000))
        self.waiting = []          # questions of the server that have not been answered
        self.may_ask = False
        self.busy = []             # (id, gate) of requests that wait

    def new_id(self):
        r = self.rng.random()
        n = next(self.ids)
        return n if r < .6 else rng_text(self.rng, n)

    def call(self):
        """-> method, params (or None), result, how, gate, n"""
        rng = self.rng
        r = rng.random()
        v = value(rng)
        if r < .2:
            if rng.random() < .5: return 'echo', {'x': v}, R({'kw': {'x': v}}), 'now', '', 0
            p = [value(rng) for _ in range(rng.randrange(1, 4))]
            return 'echo', p, R(p), 'now', '', 0
        if r < .25: return 'echo', rng.choice([None, {}, []]), R({'kw': {}}), 'now', '', 0
        if r < .32: return 'nothing', {}, R(None), 'now', '', 0
        if r < .37:
            x = rng.choice([0, '', False, [], {}])
            return 'falsy', {'x': x}, R(x), 'now', '', 0
        if r < .41: return 'wants', rng.choice([{'a': 1}, [1], [1, 2, 3, 4], {'a': 1, 'b': 2, 'c': 3}]), 'E-32602', 'now', '', 0
        if r < .44: return 'wants', rng.choice([{'a': v, 'b': 2}, [v, 2]]), R([v, 2]), 'now', '', 0
        if r < .54: return (*rng.choice([('boom', {}, 'Eother'), ('key', {}, 'Eother'), ('errdict', {}, 'E-4711'), ('code', {}, R({'code': 'x = 1', 'message': 'm'})), ('nojson', {}, 'Eother'),
                                         ('circular', {}, 'Eother'), ('raw', {}, R([1, {'a': None}]))]), 'now', '', 0)
        if r < .6: return rng.choice(['unknown', 'Echo', 'echo ', 'textDocument/x', '$/cancel', 'handle']), rng.choice([{}, [], None]), 'E-32601', 'now', '', 0
        if r < .63:
            p = rng.choice([{'p': v}, {'q"\n': [v]}, [v]])
            return 'tell', {'p': p}, R('told'), 'tell', '', canon(['client/told', p])
        if r < .66:
            n = rng.randrange(4)
            return 'soon', {'n': n}, R(n), 'now', '', 0
        if self.simple or (r >= .85 and not self.may_ask): return 'echo', {'x': v}, R({'kw': {'x': v}}), 'now', '', 0
        if r < .85:
            g = 'g%i' % next(self.gates)
            if rng.random() < .2: return 'later', {'gate': g, 'fail': rng.choice(STRANGE) or 'x'}, 'Eother', 'later', g, 0
            return 'later', {'gate': g, 'v': v}, R({'v': v}), 'later', g, 0
        n = next(self.ns)
        return 'ask', {'p': v, 'n': n}, '', 'ask', '', n

    def message(self, open_ids, used):
        """-> model message, bytes"""
        rng = self.rng
        m = {'kind': 'request', 'id': '', 'method': '', 'res': R(None), 'how': 'now', 'gate': '', 'n': ''}
        r = rng.random()
        j = {'jsonrpc': '2.0'}
        if r < .08:
            return dict(m, kind='broken', id='null', res='E-32700'), pack(rng, None, rng.choice([
                b'{"jsonrpc": "2.0", "id": 3, "method" }', b'{"jsonrpc": "2.0", "x": "\xff\xfe"}', b'["jsonrpc"]', b'"jsonrpc"', b'{"jsonrpc": "2.0", \'a\': "\\x"',
                b'{"jsonrpc": "2.0"', b'{"jsonrpc": "2.0", "q": "' + 'ä"\'\\'.encode() + b'\x00}', b'{"jsonrpc": "2.0"}', b'{"jsonrpc": "2.0", "params": {}}']))
        if r < .1:
            i = self.new_id()
            return dict(m, kind='broken', id=canon(i), res='E-32700'), pack(rng, dict(j, id=i))
        if r < .115:
            return dict(m, kind='broken', id='null', res='E-32600'), pack(rng, dict(j, id=rng.choice([[1], {'a': 1}]), method='echo'))
        if r < .13:
            i = self.new_id()
            return dict(m, kind='broken', id=canon(i), res='E-32600'), pack(rng, dict(j, id=i, method=rng.choice([[1], 7, {'echo': 1}])))
        if r < .17 and not self.simple:
            text, res = rng.choice([(b'echo(1, "x")', '[1,"x"]'), (b'nothing()', None), (b'raw()', '[1, {"a": null}]'), (b'missing(1)', 'No function named "missing" known to server Server !'),
                                    ('plain ä text'.encode(), 'got plain ä text'), (b'', 'got ')])
            if res is None: return None
            return dict(m, kind='plain', res='P' + res), pack(rng, None, text)
        if r < .22 and self.waiting:
            n = self.waiting.pop(rng.randrange(len(self.waiting)))
            return self.reply(m, j, n)
        if r < .25:                   # nobody has asked
            return self.reply(m, j, next(self.ns))
        if r < .4:
            method, params, res, how, gate, n = (rng.choice(['initialize', 'initialize', 'initialized', 'initialized', 'shutdown', 'exit']) if r < .29 else
                                                 rng.choice(['initialize', 'initialized'])), {}, R(None), 'now', '', 0
            if method == 'exit' and (rng.random() < .8 or self.waiting): return None
            if method == 'shutdown' and (rng.random() < .6 or self.waiting): return None
            if self.lsp and method == 'initialize':
                params = {'processId': 1, 'rootUri': None, 'capabilities': {}}
                res = R({'capabilities': {}, 'serverInfo': {'name': 'LSPBase', 'version': '0.1'}})
            if self.lsp and method == 'shutdown': res = R({})
            note = rng.random() < (.8 if method in ('initialized', 'exit') else .1)
        else:
            method, params, res, how, gate, n = self.call()
            note = rng.random() < .25
        if how == 'ask' and note: note = False
        j['method'] = method
        if params is not None: j['params'] = params
        if note: m['kind'] = 'notification'
        else:
            i = self.new_id()
            again = [x for x in open_ids if x not in used]
            if again and how == 'now' and rng.random() < .3: i = rng.choice(again)
            elif method == 'echo' and res == R({'kw': {}}) and rng.random() < .3: method, res = j['method'], res
            used.append(i)
            j['id'] = i
            m['id'] = canon(i)
            if method == 'id_of': res = R({'ID': i})
        keys = list(j.items())
        rng.shuffle(keys)
        m.update(method=method, res=res, how=how, gate=gate, n=str(n))
        return m, pack(rng, dict(keys))

    def reply(self, m, j, n):
        rng = self.rng
        v = rng.choice([value(rng), None, 0, False])
        return dict(m, kind='response', n=str(n), res=R(v)), pack(rng, dict(j, id=n, result=v))


def rng_text(rng, n): return rng.choice(['a%i', '%i', 'ä%i', 'x"%i', 'r-%i\\', 'l\n%i']) % n


def chop(rng, data):
    """chunks of any size"""
    k = rng.choice(['one', 'few', 'bytes', 'header'])
    if k == 'one' or not data: return [data]
    if k == 'bytes':
        n = rng.choice([1, 1, 2, 3, 7])
        if len(data) > 1200: n = 29
        return [data[i:i + n] for i in range(0, len(data), n)]
    if k == 'header':
        at = [i + rng.choice([-1, 1, 5, 8, 12, 15, 17, 18, 20, 21, 22, 23]) for i in range(len(data)) if data.startswith(b'Content-', i)]
    else:
        at = [rng.randrange(len(data)) for _ in range(rng.randrange(1, 6))]
    at = sorted({0, len(data)} | {i for i in at if 0 < i < len(data)})
    return [data[a:b] for a, b in zip(at, at[1:])]


async def settle(k=40):
    for _ in range(k): await asyncio.sleep(0)


async def talk(seed, long_):
    from DHParser import server as srv
    rng = random.Random(seed)
    w = World()
    strict = rng.random() < .8
    lsp = rng.random() < .3
    server = make_server(rng, srv, w, lsp, strict, False)
    client = Client(rng, lsp)
    msgs, steps = [], []
    for nth in range(rng.choice([1, 1, 2, 3])):
        steps.append({'op': 'connect', 'at': len(msgs) + 1, 'judged': False})
        reader, writer = asyncio.StreamReader(), Writer(rng)
        task = asyncio.ensure_future(server.serve_via_streams(reader, writer))
        client.waiting, client.busy, client.may_ask = [], [], False
        await settle()
        seen = 0
        over = False

        def look(step):
            nonlocal seen
            out, ask = frames(writer.data[seen:])
            seen = len(writer.data)
            crashed = ''
            if task.done():
                e = task.exception()
                crashed = type(e).__name__ if e else ''
            client.waiting += [int(a) for a in ask if a.isdigit()]
            steps.append(dict(step, judged=True, out=out, ask=ask, closed=writer.closed, crashed=crashed))
            return bool(crashed)
        rounds = rng.randrange(2, long_)
        total = 0
        for i in range(rounds):
            data, used, asked, before = b'', [], False, len(msgs)
            if i == 0 and rng.random() < .85:        # most clients are polite
                mm = [({'kind': 'request', 'id': canon(-0), 'method': 'initialize', 'res': R({'capabilities': {}, 'serverInfo': {'name': 'LSPBase', 'version': '0.1'}} if lsp else None),
                        'how': 'now', 'gate': '', 'n': ''}, {'jsonrpc': '2.0', 'id': 0, 'method': 'initialize', 'params': {'processId': 1, 'rootUri': None, 'capabilities': {}}}),
                      ({'kind': 'notification', 'id': '', 'method': 'initialized', 'res': R(None), 'how': 'now', 'gate': '', 'n': ''}, {'jsonrpc': '2.0', 'method': 'initialized', 'params': {}})]
                for m, j in mm:
                    b = pack(rng, j)
                    data += b
                    msgs.append(dict(m, size=len(b)))
                client.ids = itertools.count(1)
                client.may_ask = True
            for _ in range(rng.choice([0, 1, 1, 2, 4, 7])):
                mb = client.message([x for x, g in client.busy], used)
                if mb is None: continue
                m, b = mb
                if m['method'] in ('shutdown', 'exit') and asked: continue
                if m['how'] == 'ask' or m['kind'] == 'response': asked = True
                msgs.append(dict(m, size=len(b)))
                data += b
                if m['how'] == 'later':
                    w.gates[m['gate']] = asyncio.Event()
                    client.busy.append((json.loads(m['id']) if m['id'] else None, m['gate']))
                if m['method'] in ('shutdown', 'exit'): client.may_ask = False
                if m['method'] == 'exit': over = True
            ends = {total}                        # where messages end
            for m in msgs[before:]:
                total += m['size']
                ends.add(total)
            at = min(ends)
            held = 0                              # bytes of chunks that neither end a message nor are answered
            for chunk in chop(rng, data):
                if not reader._eof: reader.feed_data(chunk)     # the server does not read on
                await settle(40 + len(chunk) // 20)
                held += len(chunk)
                at += len(chunk)
                if not any(at - held < e <= at for e in ends) and len(writer.data) == seen and not task.done(): continue
                if look({'op': 'feed', 'n': held}): break
                held = 0
            while client.busy and (over or rng.random() < .5):
                _, g = client.busy.pop(rng.randrange(len(client.busy)))
                w.gates[g].set()
                await settle()
                look({'op': 'open', 'gate': g})
            if task.done() or over: break
        # the end
        if not over and not task.done():
            while client.waiting:                  # everything that was asked is answered
                m, b = client.reply({'kind': '', 'id': '', 'method': '', 'res': '', 'how': '', 'gate': '', 'n': ''}, {'jsonrpc': '2.0'}, client.waiting.pop())
                msgs.append(dict(m, size=len(b)))
                reader.feed_data(b)
                await settle()
                look({'op': 'feed', 'n': len(b)})
            if rng.random() < .5:                  # a last request and the end of the stream at once
                mb = None
                while mb is None or mb[0]['how'] == 'ask' or mb[0]['method'] == 'exit': mb = client.message([], [])
                m, b = mb
                if m['how'] == 'later':
                    w.gates[m['gate']] = asyncio.Event()
                    client.busy.append((None, m['gate']))
                msgs.append(dict(m, size=len(b)))
                reader.feed_data(b)
                reader.feed_eof()
                steps.append({'op': 'feed', 'n': len(b), 'judged': False})
            else: reader.feed_eof()
            await settle()
            look({'op': 'eof'})
            while client.busy:
                _, g = client.busy.pop(rng.randrange(len(client.busy)))
                w.gates[g].set()
                await settle()
                look({'op': 'open', 'gate': g})
        for e in w.gates.values(): e.set()
        try:
            await asyncio.wait_for(asyncio.shield(task), 5)
        except asyncio.TimeoutError:
            steps.append({'op': 'open', 'gate': '', 'judged': True, 'out': [], 'ask': [], 'closed': False, 'crashed': 'hangs'})
            task.cancel()
            break
        except Exception as e:
            break
    return {'strict': strict, 'msgs': msgs, 'steps': steps, 'case': 'talk-%s' % seed}


def speech(rng, client, lsp, n):
    """messages that are all answered at once, and their bytes"""
    msgs, data = [], b''
    j = {'jsonrpc': '2.0', 'id': 0, 'method': 'initialize', 'params': {'processId': 1, 'rootUri': None, 'capabilities': {}}}
    if rng.random() < .85:
        blank = {'kind': 'request', 'id': '', 'method': '', 'res': R(None), 'how': 'now', 'gate': '', 'n': ''}
        for m, j in ((dict(blank, id='0', method='initialize', res=R({'capabilities': {}, 'serverInfo': {'name': 'LSPBase', 'version': '0.1'}} if lsp else None)), j),
                     (dict(blank, kind='notification', method='initialized'), {'jsonrpc': '2.0', 'method': 'initialized', 'params': {}})):
            b = pack(rng, j)
            msgs.append(dict(m, size=len(b)))
            data += b
        client.ids = itertools.count(1)
    for _ in range(n):
        mb = client.message([], [])
        if mb is None: continue
        msgs.append(dict(mb[0], size=len(mb[1])))
        data += mb[1]
        if mb[0]['method'] == 'exit': break
    return msgs, data


def make_server(rng, srv, w, lsp, strict, threads):
    from DHParser.lsp import LSPBase
    table = w.table()
    table['default'] = lambda s, **kw: 'got ' + s
    if lsp: table.update(LSPBase().lsp_fulltable)
    sync = [f for f in table if f not in ('later', 'soon', 'ask', 'tell')]

    def connected(c): w.connection = c
    return srv.Server(table, cpu_bound=set(), blocking=set(rng.sample(sync, rng.randrange(len(sync)))) if threads else set(), connection_callback=connected,
                      server_name='Server', strict_lsp=strict)


def ended(k, data, crashed, closed=True):
    out, ask = frames(data)
    return [{'op': 'connect', 'at': k, 'judged': False}], {'op': 'eof', 'judged': True, 'out': out, 'ask': ask, 'closed': closed, 'crashed': crashed}


def pipes(seed):
    """a server that talks through pipes, with functions in threads"""
    import threading
    from DHParser import server as srv
    rng = random.Random(seed)
    strict, lsp = rng.random() < .8, rng.random() < .3
    w = World()
    server = make_server(rng, srv, w, lsp, strict, True)
    msgs, data = speech(rng, Client(rng, lsp, True), lsp, rng.randrange(1, 14))
    r1, w1 = os.pipe()
    r2, w2 = os.pipe()
    crashed = []

    def serve():
        reader, writer = srv.StreamReaderProxy(os.fdopen(r1, 'rb')), srv.StreamWriterProxy(os.fdopen(w2, 'wb'))
        try:
            server.run_stream_server(reader, writer)
        except BaseException as e:
            crashed.append(type(e).__name__)
        finally:
            writer.buffered_io.close()
    t = threading.Thread(target=serve, daemon=True)
    t.start()

    def send():
        try:
            for chunk in chop(rng, data): os.write(w1, chunk)
        except OSError: pass             # the server has closed its end after exit
        os.close(w1)
    t2 = threading.Thread(target=send, daemon=True)
    t2.start()
    got = b''
    with os.fdopen(r2, 'rb') as f:
        while True:
            x = f.read(65536)
            if not x: break
            got += x
    t.join(20)
    if t.is_alive(): crashed.append('hangs')
    a, z = ended(1, got, ''.join(crashed[:1]))
    return {'strict': strict, 'msgs': msgs, 'steps': a + [{'op': 'feed', 'n': len(data), 'judged': False}, z], 'case': 'pipe-%s' % seed}


async def tcp(seed):
    """a server on a port: one client after the other, stopped in the end"""
    from DHParser import server as srv
    import socket
    rng = random.Random(seed)
    strict, lsp = rng.random() < .8, rng.random() < .3
    w = World()
    server = make_server(rng, srv, w, lsp, strict, rng.random() < .5)
    port = None
    for _ in range(50):                  # a port that is free
        with socket.socket() as s:
            s.bind(('127.0.0.1', 0))
            port = s.getsockname()[1]
        task = asyncio.ensure_future(server.serve('127.0.0.1', port))
        for _ in range(1000):
            await asyncio.sleep(0.002)
            if task.done() or server.stage.value == srv.SERVER_ONLINE: break
        if not task.done(): break
        task.exception()
        server = make_server(rng, srv, w, lsp, strict, False)
    msgs, steps = [], []
    k = rng.randrange(1, 4)
    for i in range(k + 1):
        client = Client(rng, lsp, True)
        if i < k: mm, data = speech(rng, client, lsp, rng.randrange(1, 8))
        else:
            mm = [{'kind': 'plain', 'id': '', 'method': '', 'res': 'PDHParser server at 127.0.0.1:%i stopped!' % port, 'how': 'now', 'gate': '', 'n': '', 'size': 15}]
            data = b'__STOP_SERVER__'
        r, wr = await asyncio.open_connection('127.0.0.1', port)
        got = b''
        try:
            for chunk in (chop(rng, data) if i < k else [data]):
                wr.write(chunk)
                await wr.drain()
                if rng.random() < .2: await asyncio.sleep(0)
            if i == k: got += await asyncio.wait_for(r.read(9999), 10)
            wr.write_eof()
        except OSError: pass              # the server has closed its side after exit
        try:
            while True:
                x = await asyncio.wait_for(r.read(65536), 10)
                if not x: break
                got += x
            late = ''
        except asyncio.TimeoutError: late = 'open'
        except OSError: late = ''
        wr.close()
        for _ in range(500):
            if server.connection is None: break
            await asyncio.sleep(0.004)
        a, z = ended(len(msgs) + 1, got, late)
        if i == k: a, z = a, dict(z, crashed='' if await gone(task) else 'still running')
        msgs += mm
        steps += a + [{'op': 'feed', 'n': len(data), 'judged': False}, z]
    return {'strict': strict, 'msgs': msgs, 'steps': steps, 'case': 'tcp-%s' % seed}


async def gone(task):
    try:
        await asyncio.wait_for(task, 10)
    except asyncio.TimeoutError:
        return False
    except (asyncio.CancelledError, Exception):
        pass
    return True


def one(case):
    import signal
    seed, long_ = case

    def stop(*_): raise TimeoutError
    signal.signal(signal.SIGALRM, stop)
    signal.alarm(40)
    try:
        return pipes(seed) if long_ == 'pipe' else asyncio.run(tcp(seed) if long_ == 'tcp' else talk(seed, long_))
    except TimeoutError:
        return {'strict': True, 'msgs': [], 'case': 'talk-%s' % seed,
                'steps': [{'op': 'eof', 'judged': True, 'out': [], 'ask': [], 'closed': True, 'crashed': 'stalls'}]}
    finally:
        signal.alarm(0)


def run(c):
    c.design('Server')
    c.design('ServerFrame')
    n = 20000 if THOROUGH else 1600
    recs = pmap(one, [(c.rng.getrandbits(40), c.rng.choice([3, 5, 9])) for _ in range(n)]
                + [(c.rng.getrandbits(40), 'pipe') for _ in range(n // 5)] + [(c.rng.getrandbits(40), 'tcp') for _ in range(n // 8)])
    c.count('conversations', len(recs))
    c.count('messages', sum(len(r['msgs']) for r in recs))
    c.count('chunks', sum(1 for r in recs for s in r['steps'] if s['op'] == 'feed'))
    c.validate('ServerTrace', recs, stack='256m')


if __name__ == '__main__':
    main('C26', run, rule='What the server writes after a step of a conversation differs from what Server.tla says.')
