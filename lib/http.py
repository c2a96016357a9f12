"""Small raw HTTP/1.1 client used as an observer."""
import select, socket, time
import xml.etree.ElementTree as ET


class Bad(Exception):
    pass


class Resp:
    """status, headers (list of (name, value)), body, complete, chunked"""


def connect(addr, timeout=10, source=None):
    s = socket.create_connection(addr, timeout, source)
    s.setsockopt(socket.IPPROTO_TCP, socket.TCP_NODELAY, 1)
    return s


def parse_head(data):
    """(status, headers dict lower-case, rest) or None"""
    i = data.find(b'\r\n\r\n')
    if i < 0:
        return None
    lines = data[:i].split(b'\r\n')
    p = lines[0].split(b' ', 2)
    h = {}
    for l in lines[1:]:
        k, _, v = l.partition(b':')
        h[k.strip().lower().decode('latin-1')] = v.strip().decode('latin-1')
    return int(p[1]), h, data[i + 4:]


def dechunk(data):
    """(body, finished, rest); raises Bad"""
    out = b''
    i = 0
    while True:
        j = data.find(b'\r\n', i)
        if j < 0:
            return out, False, data[i:]
        try:
            n = int(data[i:j].split(b';')[0], 16)
        except ValueError:
            raise Bad('chunk size %r' % data[i:j][:40])
        if n == 0:
            if data[j + 2:j + 4] != b'\r\n':
                if len(data) < j + 4:
                    return out, False, data[i:]
                raise Bad('trailer after last chunk: %r' % data[j:j + 20])
            return out, True, data[j + 4:]
        if len(data) < j + 2 + n + 2:
            out += data[j + 2:j + 2 + n]
            return out, False, b''
        out += data[j + 2:j + 2 + n]
        if data[j + 2 + n:j + 4 + n] != b'\r\n':
            raise Bad('no CRLF after a chunk')
        i = j + 4 + n


def get(addr, path, host='localhost', method='GET', headers=(), body=b'', timeout=10):
    """whole response: (status, headers, body)"""
    s = connect(addr, timeout)
    try:
        r = '%s %s HTTP/1.1\r\nHost: %s\r\nConnection: close\r\n' % (method, path, host)
        r += ''.join('%s: %s\r\n' % kv for kv in headers)
        if body:
            r += 'Content-Length: %d\r\n' % len(body)
        s.sendall(r.encode('latin-1') + b'\r\n' + body)
        d = b''
        s.settimeout(timeout)
        while True:
            x = s.recv(1 << 18)
            if not x:
                break
            d += x
    finally:
        s.close()
    h = parse_head(d)
    if h is None:
        raise Bad('no response: %r' % d[:100])
    st, hd, rest = h
    if hd.get('transfer-encoding') == 'chunked':
        rest, fin, _ = dechunk(rest)
        if not fin:
            raise Bad('chunked response ends early')
    elif 'content-length' in hd and int(hd['content-length']) != len(rest):
        raise Bad('content-length %s, body %d' % (hd['content-length'], len(rest)))
    return st, hd, rest


class Stream:
    """an open response that is read as it grows"""

    def __init__(self, addr, path, host='localhost', version='1.1', headers=(), timeout=10, source=None):
        self.timeout = timeout
        self.s = connect(addr, timeout, source)
        self.s.sendall(('GET %s HTTP/%s\r\nHost: %s\r\n%s\r\n' % (path, version, host, ''.join('%s: %s\r\n' % kv for kv in headers))).encode('latin-1'))
        self.raw = b''
        self.closed = False
        self.head = None

    def pump(self, timeout=0):
        if self.closed or not select.select([self.s], [], [], max(0, timeout))[0]:
            return False
        try:
            x = self.s.recv(1 << 18)
        except OSError:
            x = b''
        if not x:
            self.closed = True
            return True
        self.raw += x
        return True

    def body(self):
        """(status, headers, body so far, finished)"""
        h = parse_head(self.raw)
        if h is None:
            return None
        st, hd, rest = h
        if hd.get('transfer-encoding') == 'chunked':
            b, fin, _ = dechunk(rest)
            return st, hd, b, fin
        return st, hd, rest, self.closed

    def wait(self, pred, timeout):
        """pump until pred(self) or closed; returns pred value"""
        end = time.monotonic() + timeout
        while True:
            v = pred(self)
            if v or self.closed:
                return v
            left = end - time.monotonic()
            if left <= 0:
                return v
            self.pump(left)

    def started(self):
        """True when a 200 head arrives, False when it ends otherwise"""
        b = self.wait(lambda x: x.body(), self.timeout)
        return bool(b) and b[0] == 200

    def close(self):
        self.s.close()
        self.closed = True


def stat(addr, path='/stat'):
    st, hd, body = get(addr, path)
    if st != 200:
        raise Bad('stat: %d' % st)
    return ET.fromstring(body)
