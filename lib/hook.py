"""A scripted HTTP server for the server's notification and client requests. One thread; answers are decided by a
callback that runs in it; a request that is held is answered later by release()."""
import selectors, socket, threading, time
from urllib.parse import unquote_to_bytes


class Req:
    def __init__(self, conn, raw):
        self.conn, self.raw = conn, raw
        head = raw.split(b'\r\n')
        w = head[0].split(b' ')
        self.ok = len(w) == 3 and w[2] in (b'HTTP/1.1', b'HTTP/1.0')
        self.method, self.target = w[0], w[1] if len(w) > 1 else b''
        self.headers = {}
        for h in head[1:]:
            k, s, v = h.partition(b':')
            if h:
                if not s:
                    self.ok = False
                self.headers[k.strip().lower()] = v.strip()
        self.path, _, q = self.target.partition(b'?')
        self.query = q
        self.args = []
        for a in q.split(b'&'):
            k, _, v = a.partition(b'=')
            self.args.append((k.decode('latin1'), unquote_to_bytes(v)))
        self.arg = {}
        for k, v in self.args:
            self.arg.setdefault(k, v)
        self.answered = self.taken = False


def response(code, framing='cl0', body=b'hello', headers=()):
    h = b'HTTP/1.1 %d Any\r\n' % code + b''.join(x + b'\r\n' for x in headers)
    if framing == 'cl0':
        return h + b'Content-Length: 0\r\n\r\n'
    if framing == 'body':
        return h + b'Content-Length: %d\r\n\r\n' % len(body) + body
    if framing == 'chunked':
        return h + b'Transfer-Encoding: chunked\r\n\r\n%x\r\n%s\r\n0\r\n\r\n' % (len(body), body)
    return h + b'Connection: close\r\n\r\n' + body       # 'close'


class Hook:
    def __init__(self, decide, port=None):
        """decide(req) -> ('send', bytes, close) | ('parts', [bytes...], close) | ('hold',) | ('drop',)"""
        self.decide = decide
        self.ls = socket.socket()
        self.ls.setsockopt(socket.SOL_SOCKET, socket.SO_REUSEADDR, 1)
        self.ls.bind(('127.0.0.1', port or 0))
        self.ls.listen(256)
        self.ls.setblocking(False)
        self.port = self.ls.getsockname()[1]
        self.cv = threading.Condition()
        self.reqs = []
        self.bad = []
        self.todo = []
        self.sel = selectors.DefaultSelector()
        self.sel.register(self.ls, selectors.EVENT_READ, None)
        self.wr, self.ww = socket.socketpair()
        self.wr.setblocking(False)
        self.sel.register(self.wr, selectors.EVENT_READ, 'wake')
        self.stop = False
        self.th = threading.Thread(target=self.loop, daemon=True)
        self.th.start()

    def loop(self):
        bufs = {}
        while not self.stop:
            for key, _ in self.sel.select(1):
                c = key.fileobj
                if c is self.ls:
                    try:
                        n, _ = c.accept()
                    except OSError:
                        continue
                    n.setsockopt(socket.IPPROTO_TCP, socket.TCP_NODELAY, 1)
                    n.settimeout(5)
                    bufs[n] = b''
                    self.sel.register(n, selectors.EVENT_READ, 'conn')
                    continue
                if c is self.wr:
                    try:
                        self.wr.recv(4096)
                    except OSError:
                        pass
                    with self.cv:
                        todo, self.todo = self.todo, []
                    for r, act in todo:
                        self.act(r, act, bufs)
                    continue
                try:
                    d = c.recv(65536)
                except OSError:
                    d = b''
                if not d:
                    if bufs.get(c):
                        with self.cv:
                            self.bad.append(bufs[c])
                    self.drop(c, bufs)
                    continue
                bufs[c] += d
                while c in bufs and b'\r\n\r\n' in bufs[c]:
                    raw, bufs[c] = bufs[c].split(b'\r\n\r\n', 1)
                    r = Req(c, raw)
                    with self.cv:
                        act = self.decide(r)
                        self.reqs.append(r)
                        if not r.ok:
                            self.bad.append(raw)
                        self.cv.notify_all()
                    self.act(r, act, bufs)

    def drop(self, c, bufs):
        if c in bufs:
            del bufs[c]
            self.sel.unregister(c)
            c.close()

    def act(self, r, act, bufs):
        c = r.conn
        if act[0] == 'hold' or c not in bufs or r.taken:
            return
        r.taken = True
        if act[0] == 'drop':
            self.drop(c, bufs)
            r.answered = True
            return
        try:
            for p in ([act[1]] if act[0] == 'send' else act[1]):
                c.sendall(p)
                if act[0] == 'parts':
                    time.sleep(0.0003)
        except OSError:
            self.drop(c, bufs)
        else:
            if act[2]:
                self.drop(c, bufs)
        r.answered = True

    def release(self, r, act):
        with self.cv:
            self.todo.append((r, act))
        self.ww.send(b'x')

    def wait(self, pred, timeout):
        """wait until pred(requests so far) holds"""
        end = time.monotonic() + timeout
        with self.cv:
            while True:
                v = pred(self.reqs)
                if v:
                    return v
                left = end - time.monotonic()
                if left <= 0:
                    return None
                self.cv.wait(left)

    def clear(self):
        with self.cv:
            for r in self.reqs:
                if not r.answered:
                    self.todo.append((r, ('send', response(200), False)))
            self.reqs = []
        self.ww.send(b'x')

    def close(self):
        self.stop = True
        try:
            self.ww.send(b'x')
        except OSError:
            pass
        self.th.join(3)
        for k in list(self.sel.get_map().values()):
            try:
                k.fileobj.close()
            except OSError:
                pass
        self.sel.close()
        self.ww.close()
