from oracles.base import expect, eq
import asyncio
from DHParser import server as S
from DHParser.server import split_header, incomplete_header, read_full_block, Server, Connection, ExecutionEnvironment, JSONRPC_HEADER_BYTES

def valid(case):
    if not (isinstance(case, dict) and isinstance(case.get('messages'), list) and isinstance(case.get('cuts'), list)): return False
    for m in case['messages']:
        if not (isinstance(m, dict) and isinstance(m.get('body'), str) and m.get('style') in STYLES): return False
    return all(isinstance(c, int) and c >= 0 for c in case['cuts']) and isinstance(case.get('lost', 0), int)
STYLES = {'own': lambda n: JSONRPC_HEADER_BYTES % n, 'lf': lambda n: b'Content-Length: %i\n\n' % n,
          'nosp': lambda n: b'Content-Length:%i\r\n\r\n' % n,
          'type after': lambda n: b'Content-Length: %i\r\nContent-Type: application/vscode-jsonrpc; charset=utf-8\r\n\r\n' % n,
          'type first': lambda n: b'Content-Type: application/vscode-jsonrpc\r\nContent-Length: %i\r\n\r\n' % n}
def frames(case):
    out = []
    for m in case['messages']:
        b = m['body'].encode()
        out.append((STYLES[m['style']](len(b)), b))
    return out
def chunks(data, cuts):
    pos = sorted({c for c in cuts if 0 < c < len(data)})
    return [data[a:b] for a, b in zip([0] + pos, pos + [len(data)])]
class Reader:
    "delivers the given chunks one by one, but never more than requested"
    def __init__(self, chunks): self.chunks = [c for c in chunks if c]; self.eof = False
    async def read(self, n=-1):
        if not self.chunks: self.eof = True; return b''
        if 0 <= n < len(self.chunks[0]):
            c = self.chunks[0][:n]; self.chunks[0] = self.chunks[0][n:]; return c
        return self.chunks.pop(0)
    def at_eof(self): return self.eof or not self.chunks
class LateReader(Reader):
    "notices the end of the stream only when trying to read further"
    def at_eof(self): return self.eof
class Writer:
    def __init__(self): self.out = []
    def write(self, d): self.out.append(d)
    async def drain(self): pass
    def write_eof(self): pass
    def close(self): pass
    async def wait_closed(self): pass
def run_async(coro):
    loop = asyncio.new_event_loop()
    try: return loop.run_until_complete(coro)
    finally: loop.close()

def run_split(case):
    "accumulating chunks and splitting off messages as soon as they are complete"
    if not valid(case): return
    fr = frames(case)
    data = b''.join(h + b for h, b in fr)
    lost = case.get('lost', 0)
    stream = data[:len(data) - lost] if lost else data
    got, buf = [], b''
    for c in chunks(stream, case['cuts']):
        buf += c
        while buf:
            h, d, rest = split_header(buf)
            if not h:
                eq(d, buf, 'incomplete data must be returned unchanged'); eq(rest, b'', 'backlog of incomplete data')
                break
            eq(h + d + rest, buf, 'header, data and backlog together')
            got.append((h, d)); buf = rest
            if not buf: break
    k, n = 0, 0
    while k < len(fr) and n + len(fr[k][0]) + len(fr[k][1]) <= len(stream): n += len(fr[k][0]) + len(fr[k][1]); k += 1
    eq(got, fr[:k], f'messages recovered, {len(stream)} of {len(data)} bytes received')
    eq(buf, stream[n:], 'bytes left over')
def run_header(case):
    if not valid(case): return
    for h, b in frames(case):
        for i in range(len(h)): expect(incomplete_header(h[:i]), f'{h[:i]!r} is the beginning of a header')
        expect(not incomplete_header(h), f'{h!r} is a complete header')
        expect(not incomplete_header(h + b), f'{h + b!r} contains a complete header')
def run_block(case):
    if not valid(case) or not case['messages']: return
    fr = frames(case)
    data = b''.join(h + b for h, b in fr)
    lost = case.get('lost', 0)
    stream = data[:len(data) - lost] if lost else data
    for R in (Reader, LateReader):
        r = R(chunks(stream, case['cuts']))
        size, block, backlog = run_async(read_full_block(r))
        unread = b''.join(r.chunks)
        eq(block + backlog + unread, stream, 'bytes read and left')
        h, b = fr[0]
        if len(stream) >= len(h) + len(b):
            eq((size, block), (len(h), h + b), f'first message with {R.__name__}')
        elif len(stream) >= len(h): eq((size, block, backlog, unread), (len(h), stream, b'', b''), 'incomplete message')
        else: eq((size, block), (0, stream), 'incomplete header')

class TestServer(Server):
    def __init__(self):
        super().__init__(lambda s: s, cpu_bound=set(), blocking=set(), strict_lsp=False)
        self.got = []
    async def handle_plaindata_request(self, task_id, reader, writer, data, service_call=False): self.got.append(bytes(data))
    async def handle_http_request(self, task_id, reader, writer, data, service_call=False): self.got.append(bytes(data))
_srv = []
def run_server(case):
    "the server's own loop"
    if not valid(case): return
    fr = frames(case)
    if any('jsonrpc' in m['body'] for m in case['messages']): return
    data = b''.join(h + b for h, b in fr)
    lost = case.get('lost', 0)
    stream = data[:len(data) - lost] if lost else data
    n = k = 0
    while k < len(fr) and n + len(fr[k][0]) + len(fr[k][1]) <= len(stream): n += len(fr[k][0]) + len(fr[k][1]); k += 1
    if not _srv: _srv.append(TestServer())
    srv = _srv[0]
    for R in (Reader, LateReader):
        srv.got = []; srv.connection = None; srv.kill_switch = False
        async def go():
            srv.loop = asyncio.get_running_loop(); srv.exec = ExecutionEnvironment(srv.loop)
            w = Writer()
            await srv.handle(R(chunks(stream, case['cuts'])), w)
            for _ in range(3): await asyncio.sleep(0)
        run_async(go())
        want = [h + b for h, b in fr[:k]]
        rest = stream[n:]
        # an unfinished header at the end of the stream might as well have been plain data
        got = srv.got
        if len(got) == len(want) + 1 and incomplete_header(rest) and got[-1] == rest: got = got[:-1]
        eq(got, want, f'messages received by the server with {R.__name__}')
def gen(rng, size):
    n = rng.choice([1, 1, 2, 3, 4])
    bodies = ['', 'x', '{}', '{"a": 1}', 'Content-Length: 5', 'äö', '\r\n\r\n', '\n\nabc', 'GET x HTTP', 'a' * rng.choice([9, 10, 11, 99, 100, 101, 600])]
    ms = [{'style': rng.choice(list(STYLES)), 'body': rng.choice(bodies) + ''.join(rng.choice('ab{}\n\r:C ä') for _ in range(rng.randrange(1 + 2 * size)))} for _ in range(n)]
    case = {'messages': ms, 'cuts': []}
    total = sum(len(h) + len(b) for h, b in frames(case))
    mode = rng.randrange(4)
    if mode == 0: case['cuts'] = list(range(1, min(total, 150)))
    elif mode < 3: case['cuts'] = sorted({rng.randrange(1, max(2, total)) for _ in range(rng.randrange(1, 8))})
    if rng.random() < 0.3: case['lost'] = rng.randrange(1, max(2, min(total, 40)))
    return case
CHECKS = [('split', gen, run_split), ('header', gen, run_header), ('block', gen, run_block), ('server', gen, run_server)]
BATCH = {'split': 40, 'header': 5, 'block': 20, 'server': 20}
