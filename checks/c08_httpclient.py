"""C08: the HTTP client. Generated responses (framing, splitting, damage) against what the caller of the client is told."""
import os, random, select, socket, sys, time
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from urllib.parse import quote
from hypothesis import strategies as st
from lib import build, hook, http, ngx
from lib.check import Prop, Violation, main

CODES = [200, 201, 202, 204, 206, 300, 302, 304, 400, 403, 404, 500, 503, 599]


def body(n, seed):
    return random.Random(seed).randbytes(n)


class C08(Prop):
    id = 'C08'
    rule = ('a case is up to 4 rounds of 1-3 concurrent requests (GET/HEAD) through the HTTP client to a scripted server; a response has a generated status, headers, framing '
            '(Content-Length incl. 0, chunked with extensions, until close, none) and is cut at generated points into separate segments, or is damaged (bad status line, chunk size, '
            'length, oversized header, truncation, no answer at all), or its requester goes away; non-trivial: a body or damaged response crossed at least one segment boundary')
    assumptions = ['one worker process', 'the server is given by IP address', 'trailers of a chunked body are empty',
                   'a Content-Length that is no number and a status line that is none must be reported as a failure; other oddities nginx tolerates are not generated']
    quick_cases = 900
    thorough_cases = 12000
    quick_budget = 60
    batch = 300
    variants = ['plain', 'asan', 'plain', 'asan']
    patience = 6
    HB = [2048, 512, 4096, 1024]
    BB = [4096, 64, 300, 1024]
    TMO = 0.15

    def prebuild(cls):
        build.probe('plain', 'pv_client')
        build.probe('asan', 'pv_client')

    def setup(self):
        self.hp = ngx.free_port()
        self.ha = ('127.0.0.1', self.hp)
        self.plan, self.ready = {}, {}
        self.hook = hook.Hook(self.decide)
        k = self.widx // 2 % 4
        self.hb = self.HB[k]
        self.idle = [3, 1, 1024, 2][k]
        self.ng = ngx.Nginx(rtmp='server { listen 127.0.0.1:%d; application a { live on; } }' % ngx.free_port(), probes=['pv_client'],
                            top='max_idle_client %d; header_buffer_size %d; body_buffer_size %d; header_timeout %dms;\n' % (self.idle, self.hb, self.BB[k], int(self.TMO * 1000)),
                            http='server { listen 127.0.0.1:%d; location /client { pv_client; } }' % self.hp, flavour=self.variant, log_level='emerg')
        self.ng.start([self.hp])
        self.n = 0

    def teardown(self):
        self.ng.stop()
        self.hook.close()

    def decide(self, r):
        return ('hold',)

    def strategy(self):
        tok = st.text(st.sampled_from('abcXYZ019 -_/;=,."'), max_size=30).map(lambda s: s.strip())
        hname = st.sampled_from(['X-A', 'x-a', 'X-B', 'Content-Type', 'Location', 'Server', 'Date', 'Connection', 'X-Other', 'Set-Cookie', 'ETag', 'Expires'])
        hdr = st.tuples(hname, tok)
        size = st.one_of(st.just(0), st.integers(0, 5), st.integers(0, 600), st.integers(0, 20000), st.sampled_from([63, 64, 65, 299, 300, 301, 1024, 4096, 8192]))
        chunks = st.lists(st.one_of(st.integers(1, 20), st.integers(1, 900), st.sampled_from([1, 15, 16, 64, 300, 4096, 5000])), max_size=6)
        framing = st.one_of(st.tuples(st.just('cl'), size), st.tuples(st.just('cl'), size),
                            st.tuples(st.just('chunked'), chunks, st.sampled_from(['chunked', 'Chunked', 'chunked', 'CHUNKED']), st.sampled_from(['', ';a=b', ';x'])),
                            st.tuples(st.just('chunked'), chunks, st.just('chunked'), st.just('')),
                            st.tuples(st.just('close'), size), st.tuples(st.just('none')))
        cuts = st.one_of(st.just([]), st.just([]), st.lists(st.one_of(st.integers(0, 400), st.integers(0, 25000)), max_size=4), st.just(['head']), st.just(['head']), st.just(['each']))
        damage = st.one_of(*[st.none()] * 8, st.sampled_from(['status', 'status2', 'status3', 'chunk', 'length', 'length2', 'big', 'silent', 'nul', 'early', 'reset', 'colon', 'extra']),
                           st.tuples(st.just('trunc'), st.integers(0, 6000)))
        ex = st.fixed_dictionaries({
            'code': st.one_of(st.sampled_from(CODES), st.integers(200, 599)), 'ver': st.sampled_from(['1.1', '1.1', '1.1', '1.0']), 'reason': st.sampled_from(['OK', '', 'Not Found At All', 'x']),
            'hdrs': st.lists(hdr, max_size=6), 'framing': framing, 'cuts': cuts, 'damage': damage,
            'head': st.sampled_from([False, False, False, False, True]), 'keep': st.sampled_from([0, 0, 0, 0, 1, 7, 100]), 'detach': st.sampled_from([0] * 8 + [1, 2]),
            'bye': st.sampled_from([False, False, False, True, 'said']), 'abort': st.sampled_from([False] * 12 + [True]),
            'path': st.sampled_from(['', 'x', 'a/b/c?q=1&r=%20x', '?only=args', 'p?x#frag', 'long/' + 'z' * 300])})
        return st.lists(st.tuples(st.lists(ex, min_size=1, max_size=3), st.integers(0, 5)), min_size=1, max_size=4)

    def make(self, e, tag):
        """(segments, close after, expectation)"""
        code, f, dmg = e['code'], e['framing'], e['damage']
        hdrs = [('X-Tag', tag)] + [(k, v) for k, v in e['hdrs'] if not (k == 'Connection')]
        # empty values are left out: the client need not tell them from missing ones
        nobody = e['head'] or code in (204, 304)
        if nobody and f[0] not in ('cl', 'none'):
            f = ('none',)
        if not nobody and f[0] == 'none':
            f = ('cl', 0)
        b, enc, close = b'', b'', e['bye'] is True
        if f[0] == 'cl':
            b = body(f[1], 1)
            hdrs.append(('Content-Length', str(len(b))))
            enc = b
            if e['head'] and not nobody:
                enc = b''
        elif f[0] == 'chunked':
            o = 0
            for n in f[1]:
                c = body(n, n)
                b += c
                enc += b'%x%s\r\n%s\r\n' % (n, f[3].encode(), c)
            enc += b'0\r\n\r\n'
            hdrs.append(('Transfer-Encoding', f[2]))
        elif f[0] == 'close':
            b = enc = body(f[1], 2)
            close = True
        if nobody:
            b = enc = b''
        cv = [v for k, v in e['hdrs'] if k == 'Connection']
        if e['bye'] and f[0] != 'close' and (e['keep'] % 2 == 0 or not close):
            hdrs.append(('Connection', 'close'))
        elif e['ver'] == '1.0' and not close:
            hdrs.append(('Connection', 'keep-alive'))
        if len(hdrs) > 2:
            hdrs = hdrs[1:3] + hdrs[:1] + hdrs[3:]
        first = 'HTTP/%s %d%s\r\n' % (e['ver'], code, ' ' + e['reason'] if e['reason'] else ' ')
        want = 'close' if f[0] == 'close' else 'done'
        if dmg == 'status':
            first = 'HTTX/1.1 200 OK\r\n'
        elif dmg == 'status2':
            first = 'HTTP/1.1 2x0 OK\r\n'
        elif dmg == 'status3':
            first = '\x01\x02\x03garbage\r\n'
        elif dmg == 'length' and f[0] == 'cl':
            hdrs = [(k, v + 'x' if k == 'Content-Length' else v) for k, v in hdrs]
        elif dmg == 'length2' and f[0] == 'cl':
            hdrs += [('Content-Length', str(len(b) + 1))]
        elif dmg == 'big':
            hdrs += [('X-Big', 'y' * (self.hb + 100))]
        elif dmg == 'nul':
            hdrs += [('X-Nul', 'a\0b')]
        elif dmg == 'colon':
            hdrs += [('X-Bad Name\x01', 'z')]
        elif dmg == 'chunk' and f[0] == 'chunked' and not nobody:
            enc = enc[:-5] + b'zz\r\n\r\n'
        elif dmg == 'extra' and f[0] == 'cl' and enc:
            enc += b'z' * (len(enc) % 100 + 1)
            dmg, close = None, True
        elif dmg in ('silent', 'early', 'reset') or isinstance(dmg, tuple):
            pass
        else:
            dmg = None
        head = (first + ''.join('%s: %s\r\n' % h for h in hdrs) + '\r\n').encode('latin1')
        if dmg is None and len(head) > self.hb:
            return self.make(dict(e, hdrs=[]), tag)
        raw = head + enc
        if dmg == 'silent':
            raw, close = b'', False
        elif dmg == 'early':
            raw, close = b'', True
        elif dmg == 'reset':
            raw, close = raw[:len(raw) // 2], 'rst'
        elif isinstance(dmg, tuple):
            cut = dmg[1] % max(1, len(raw))
            if f[0] == 'close' and cut >= len(head):
                dmg = None       # until close: a shorter body is not truncated
                b = b[:cut - len(head)]
            raw, close = raw[:cut], True
        if dmg is not None:
            want = 'bad'
            if dmg in ('status', 'status2', 'status3', 'length', 'length2', 'big', 'nul', 'colon', 'chunk'):
                close = close and dmg == 'chunk'
        cuts = []
        for c in e['cuts']:
            if c == 'head':
                cuts.append(len(head))
            elif c == 'each':
                cuts += list(range(1, min(len(raw), 400), 7))
            else:
                cuts.append(c % max(1, len(raw)))
        cuts = [0] + sorted(set(c for c in cuts if 0 < c < len(raw))) + [len(raw)]
        segs = [raw[i:j] for i, j in zip(cuts, cuts[1:]) if i < j]
        h = {}
        for k, v in hdrs:
            h.setdefault(k.lower(), v)
        return segs, close, (want, code, 1001 if e['ver'] == '1.1' else 1000, h, b, len(cuts) > 2 and (bool(enc) or dmg is not None))

    def run(self, case):
        self.n += 1
        nt, labels = False, set()
        socks = []
        last = {}
        try:
            for g, (exs, order) in enumerate(case):
                live = []
                for i, e in enumerate(exs):
                    tag = 'c%d_%d_%d' % (self.n, g, i)
                    segs, close, want = self.make(e, tag)
                    path, _, rest = e['path'].partition('?')
                    url = 'http://127.0.0.1:%d/%s/%s' % (self.hook.port, tag, e['path'])
                    q = '/client?m=%s&k=%d&d=%d&u=%s' % ('HEAD' if e['head'] else 'GET', e['keep'], e['detach'], quote(url, safe=''))
                    s = http.connect(self.ha, self.patience)
                    socks.append(s)
                    s.sendall(('GET %s HTTP/1.1\r\nHost: x\r\nConnection: close\r\n\r\n' % q).encode())
                    req = self.hook.wait(lambda rs: [r for r in rs if r.target.startswith(b'/' + tag.encode() + b'/')], self.patience)
                    if not req:
                        raise Violation('the request %r was not sent: %s' % (url, self.crash()))
                    req = req[0]
                    t = '/' + tag + '/' + e['path'].split('#')[0]
                    if req.method != (b'HEAD' if e['head'] else b'GET') or req.target != t.encode() or not req.ok or req.headers.get(b'host') not in (
                            b'127.0.0.1:%d' % self.hook.port, b'127.0.0.1') or req.headers.get(b'connection', b'').lower() == b'close':
                        raise Violation('the request for %r is %r' % (url, req.raw))
                    if req.conn in last:
                        if last[req.conn]:
                            raise Violation('a request was sent on a connection after a response that ended it: %r' % (last[req.conn],))
                        labels.add('reused')
                    live.append((e, segs, close, want, req, s))
                todo = list(live)
                while todo:
                    x = todo.pop(order % len(todo))
                    e, segs, close, want, req, s = x
                    last[req.conn] = (close or e['bye']) and (e, close)
                    if e['abort']:
                        s.close()
                        labels.add('abort')
                    if not segs and not close:
                        continue
                    if close == 'rst':
                        req.conn.setsockopt(socket.SOL_SOCKET, socket.SO_LINGER, b'\1\0\0\0\0\0\0\0')
                    self.hook.release(req, ('parts' if len(segs) > 1 else 'parts', segs, bool(close)))
                for e, segs, close, want, req, s in live:
                    if e['abort']:
                        if close:
                            self.closed(req.conn)
                        continue
                    res = self.result(s, e)
                    self.judge(e, want, res, segs, close)
                    if want[0] == 'bad' or e['detach'] == 2:
                        last[req.conn] = ('bad', e)
                    elif want[0] == 'close':
                        last[req.conn] = ('close', e)
                    if close:
                        self.closed(req.conn)
                    nt |= want[5]
                    labels.add(want[0] if want[0] != 'bad' else 'bad ' + str(e['damage'] if isinstance(e['damage'], str) else 'trunc'))
            if self.ng.crashes():
                raise Violation('crash: ' + self.crash())
            # connections of complete responses are kept or closed, not forgotten
            end = time.monotonic() + self.patience
            while True:
                with self.hook.cv:
                    n = len(self.hook.sel.get_map()) - 2
                if n <= min(3, self.idle) + sum(e['abort'] for exs, _ in case for e in exs):
                    break
                if time.monotonic() > end:
                    raise Violation('%d connections to the server stay open' % n)
                time.sleep(0.002)
        except ConnectionError as e:
            raise Violation('connection lost: %s %s' % (e, self.crash()))
        finally:
            for s in socks:
                s.close()
            self.hook.clear()
        return nt, labels

    def closed(self, conn):
        '''the worker has seen that a connection it may have kept was closed'''
        end = time.monotonic() + self.patience
        while conn.fileno() != -1:
            if time.monotonic() > end:
                raise Violation('a connection is not closed')
            time.sleep(0.001)
        if http.get(self.ha, '/nothing')[0] != 404:
            raise Violation('the server does not answer: ' + self.crash())

    def crash(self):
        return (self.ng.crashes() or [''])[0][:800]

    def result(self, s, e):
        s.settimeout(self.patience)
        d = b''
        try:
            while True:
                x = s.recv(1 << 16)
                if not x:
                    break
                d += x
        except TimeoutError:
            raise Violation('the caller is told nothing about its response: %r %s' % (e, self.crash()))
        h = http.parse_head(d)
        if h is None or h[0] != 200:
            raise Violation('the caller lost its request: %r %r %s' % (e, d[:100], self.crash()))
        info, _, b = h[2].partition(b'\n\n')
        r = dict(l.split(b' ', 1) if b' ' in l else (l, b'') for l in info.split(b'\n'))
        r = {k.decode(): v.decode('latin1') for k, v in r.items()}
        r['body'] = b
        return r

    def judge(self, e, want, r, segs, close):
        kind, code, ver, h, b, _ = want
        short = {k: v for k, v in r.items() if k != 'body'}
        what = 'response %r... (%d bytes in %d segments) to %r' % (segs[0][:60] if segs else b'', sum(map(len, segs)), len(segs), {k: e[k] for k in ('framing', 'cuts', 'damage', 'head', 'keep', 'detach', 'bye')})
        if kind == 'bad':
            if r['end'] in ('done',) or str(e['damage']).startswith('status') and 'status' in r:
                raise Violation('an invalid or incomplete %s is reported as complete: %r' % (what, short))
            if r['end'] == 'closed' and not b.startswith(r['body']) and isinstance(e['damage'], tuple):
                raise Violation('a wrong body from %s' % what)
            return
        if 'status' not in r:
            raise Violation('a valid %s is reported as %r' % (what, short))
        if int(r['status']) != code or int(r['version']) != ver:
            raise Violation('%s: reported status %s and version %s' % (what, r['status'], r['version']))
        for i, k in enumerate(['x-a', 'x-b', 'content-type', 'location']):
            g = r.get('h%d' % i)
            if (g or '') != h.get(k, ''):
                raise Violation('%s: header %s is %r, reported %r' % (what, k, h.get(k), g))
        if e['detach']:
            return
        ok = ('done',) if kind == 'done' else ('closed',)
        if r['end'] not in ok:
            raise Violation('a complete %s ends as %r' % (what, short))
        if e['keep'] and kind == 'close':
            if not b.startswith(r['body']):
                raise Violation('a wrong body from %s' % what)
        elif r['body'] != b:
            raise Violation('%s: the body has %d bytes, reported are %d%s' % (what, len(b), len(r['body']), '' if b.startswith(r['body']) else ' different ones'))


if __name__ == '__main__':
    main(C08)
