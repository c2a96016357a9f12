"""Independent RTMP client (and minimal server side) used to drive and observe pingos."""
import hashlib, hmac, os, select, socket, struct, time
from . import amf

# message types
CHUNK_SIZE, ABORT, ACK, USER, ACK_SIZE, BANDWIDTH, EDGE, AUDIO, VIDEO = range(1, 10)
AMF3_META, AMF3_SHARED, AMF3_CMD, AMF_META, AMF_SHARED, AMF_CMD, AGGREGATE = 15, 16, 17, 18, 19, 20, 22

FP_KEY = b'Genuine Adobe Flash Player 001'
FMS_KEY = b'Genuine Adobe Flash Media Server 001'
K2 = bytes([0xF0, 0xEE, 0xC2, 0x4A, 0x80, 0x68, 0xBE, 0xE8, 0x2E, 0x00, 0xD0, 0xD1, 0x02, 0x9E, 0x7E, 0x57,
            0x6E, 0xEC, 0x5D, 0x2D, 0x29, 0x80, 0x6F, 0xAB, 0x93, 0xB8, 0xE6, 0x36, 0xCF, 0xEB, 0x31, 0xAE])


class Closed(Exception):
    pass


class Timeout(Exception):
    pass


ProtoError = amf.ProtoError      # the peer sent something that is not RTMP


def msg_header(csid, fmt):
    if csid < 64:
        return bytes([fmt << 6 | csid])
    if csid < 320:
        return bytes([fmt << 6, csid - 64])
    return bytes([fmt << 6 | 1, (csid - 64) & 255, (csid - 64) >> 8])


class Msg(tuple):
    """(type, timestamp, msid, payload, csid)"""
    __slots__ = ()

    def __new__(cls, type, ts, msid, payload, csid=0):
        return tuple.__new__(cls, (type, ts, msid, payload, csid))
    type = property(lambda s: s[0])
    ts = property(lambda s: s[1])
    msid = property(lambda s: s[2])
    payload = property(lambda s: s[3])
    csid = property(lambda s: s[4])


class ChunkReader:
    """feed bytes, pop messages"""

    def __init__(self):
        self.buf = bytearray()
        self.chunk = 128
        self.st = {}       # csid -> [ts, delta, mlen, type, msid, partial bytearray, ext]
        self.max_chunk_payload = 0

    def feed(self, b):
        self.buf += b

    def pop(self):
        """next message or None"""
        while True:
            b = self.buf
            if len(b) < 1:
                return None
            fmt, cs, i = b[0] >> 6, b[0] & 63, 1
            if cs == 0:
                if len(b) < 2:
                    return None
                cs, i = b[1] + 64, 2
            elif cs == 1:
                if len(b) < 3:
                    return None
                cs, i = b[1] + 256 * b[2] + 64, 3
            hl = (11, 7, 3, 0)[fmt]
            if len(b) < i + hl:
                return None
            st = self.st.get(cs)
            if st is None:
                if fmt != 0:
                    raise ProtoError('fmt %d on fresh csid %d' % (fmt, cs))
                st = self.st[cs] = [0, 0, 0, 0, 0, bytearray(), False]
            ts, delta, mlen, typ, msid, part, ext = st
            field = None
            if fmt <= 2:
                field = int.from_bytes(b[i:i + 3], 'big')
                if part:
                    raise ProtoError('new header in the middle of a message on csid %d' % cs)
            if fmt <= 1:
                mlen = int.from_bytes(b[i + 3:i + 6], 'big')
                typ = b[i + 6]
            if fmt == 0:
                msid = int.from_bytes(b[i + 7:i + 11], 'little')
            i += hl
            if field is not None:
                ext = field == 0xffffff
            extval = None
            if ext:
                if len(b) < i + 4:
                    return None
                extval = int.from_bytes(b[i:i + 4], 'big')
                i += 4
            n = min(self.chunk, mlen - len(part))
            if len(b) < i + n:
                return None
            if not part:
                if fmt == 0:
                    ts = extval if ext else field
                    delta = 0
                else:
                    if fmt <= 2:
                        delta = extval if ext else field
                    ts = (ts + delta) & 0xffffffff
            part = part + b[i:i + n]
            self.max_chunk_payload = max(self.max_chunk_payload, n)
            del b[:i + n]
            if len(part) == mlen:
                self.st[cs] = [ts, delta, mlen, typ, msid, bytearray(), ext]
                return Msg(typ, ts, msid, bytes(part), cs)
            self.st[cs] = [ts, delta, mlen, typ, msid, part, ext]


def chunk_encode(csid, ts, typ, msid, payload, chunk, fmt=0, delta=None, ext3=True):
    """one message as a list of chunks (bytes)."""
    out = []
    field = ts if fmt == 0 else (delta if delta is not None else 0)
    ext = fmt <= 2 and field >= 0xffffff
    h = msg_header(csid, fmt)
    if fmt <= 2:
        h += (0xffffff if ext else field).to_bytes(3, 'big')
    if fmt <= 1:
        h += len(payload).to_bytes(3, 'big') + bytes([typ])
    if fmt == 0:
        h += msid.to_bytes(4, 'little')
    if ext:
        h += field.to_bytes(4, 'big')
    out.append(h + payload[:chunk])
    i = chunk
    while i < len(payload):
        h = msg_header(csid, 3)
        if ext and ext3:
            h += field.to_bytes(4, 'big')
        out.append(h + payload[i:i + chunk])
        i += chunk
    return out


def _digest_off(b, base):
    return (b[base] + b[base + 1] + b[base + 2] + b[base + 3]) % 728 + base + 4


def make_digest_c1(scheme, rnd, version=b'\x09\x00\x7c\x02'):
    """C1 with digest; scheme 0: key first (offset base 772)... scheme 1: digest first (base 8)"""
    b = bytearray(b'\0\0\0\0' + version + rnd[:1528])
    base = 772 if scheme == 0 else 8
    off = _digest_off(b, base)
    dg = hmac.new(FP_KEY, bytes(b[:off] + b[off + 32:]), hashlib.sha256).digest()
    b[off:off + 32] = dg
    return bytes(b), dg


def find_digest(b, key):
    for base in (772, 8):
        off = _digest_off(b, base)
        if hmac.new(key, bytes(b[:off] + b[off + 32:]), hashlib.sha256).digest() == bytes(b[off:off + 32]):
            return off
    return None


class Conn:
    def __init__(self, addr, timeout=15.0, source=None, rcvbuf=None):
        self.timeout = timeout
        self.addr = addr
        if rcvbuf:
            self.sock = socket.socket()
            self.sock.setsockopt(socket.SOL_SOCKET, socket.SO_RCVBUF, rcvbuf)
            self.sock.setsockopt(socket.IPPROTO_TCP, socket.TCP_MAXSEG, 1460)     # keeps the peer's send buffer small too
            self.sock.settimeout(timeout)
            self.sock.connect(addr)
            self.sock.setsockopt(socket.IPPROTO_TCP, socket.TCP_NODELAY, 1)
        elif isinstance(addr, str):
            self.sock = socket.socket(socket.AF_UNIX)
            self.sock.settimeout(timeout)
            self.sock.connect(addr)
        else:
            self.sock = socket.create_connection(addr, timeout, source)
            self.sock.setsockopt(socket.IPPROTO_TCP, socket.TCP_NODELAY, 1)
        self.rd = ChunkReader()
        self.out_chunk = 128
        self.msgs = []          # everything received
        self.cursor = 0
        self.closed = False
        self.s0s1s2 = b''
        self.bytes_in = 0
        self.auto_ack = True
        self.ack_win = 0
        self.last_ack = 0

    # ---- raw
    def send(self, b):
        try:
            self.sock.settimeout(self.timeout)
            self.sock.sendall(b)
        except (BrokenPipeError, ConnectionResetError, socket.timeout) as e:
            raise Closed(str(e))

    def recv_exact(self, n):
        r = b''
        end = time.monotonic() + self.timeout
        while len(r) < n:
            left = end - time.monotonic()
            if left <= 0:
                raise Timeout('recv_exact')
            self.sock.settimeout(left)
            try:
                x = self.sock.recv(n - len(r))
            except socket.timeout:
                raise Timeout('recv_exact')
            except ConnectionResetError:
                raise Closed('reset')
            if not x:
                raise Closed('eof')
            r += x
        return r

    def handshake(self, mode='simple', rnd=None):
        rnd = rnd or bytes(1528)
        if mode == 'simple':
            c1 = b'\0\0\0\0' + b'\0\0\0\0' + rnd[:1528]
        else:
            c1, _ = make_digest_c1(0 if mode == 'digest0' else 1, rnd)
        self.send(b'\x03' + c1)
        return self.handshake_rest(c1)

    def handshake_rest(self, c1):
        if len(c1) == 1537:
            c1 = c1[1:]
        s = self.recv_exact(1 + 1536 * 2)
        self.s0s1s2 = s
        self.c1 = c1
        self.send(s[1:1537])
        return s

    # ---- messages
    def write(self, typ, payload, csid=3, ts=0, msid=0):
        self.send(b''.join(chunk_encode(csid, ts, typ, msid, payload, self.out_chunk)))

    def set_chunk(self, n):
        self.write(CHUNK_SIZE, struct.pack('>I', n), 2)
        self.out_chunk = n

    def cmd(self, *args, csid=3, msid=0):
        self.write(AMF_CMD, amf.enc_all(*args), csid, 0, msid)

    def _pump(self, timeout):
        """read what is there, waiting up to timeout; True if something came"""
        if self.closed:
            return False
        r, _, _ = select.select([self.sock], [], [], max(0, timeout))
        if not r:
            return False
        try:
            x = self.sock.recv(262144)
        except (ConnectionResetError, BrokenPipeError):
            x = b''
        if not x:
            self.closed = True
            return True
        self.bytes_in += len(x)
        self.rd.feed(x)
        while True:
            m = self.rd.pop()
            if m is None:
                break
            if m.type == CHUNK_SIZE:
                self.rd.chunk = struct.unpack('>I', m.payload)[0]
            elif m.type == ACK_SIZE:
                self.ack_win = struct.unpack('>I', m.payload)[0]
            elif m.type == USER and m.payload[:2] == b'\0\x06':
                try:
                    self.write(USER, b'\0\x07' + m.payload[2:6], 2)
                except Closed:
                    pass
            self.msgs.append(m)
        if self.auto_ack and self.ack_win and self.bytes_in - self.last_ack >= self.ack_win // 2:
            self.last_ack = self.bytes_in
            try:
                self.write(ACK, struct.pack('>I', (self.bytes_in + 3073) & 0xffffffff), 2)
            except Closed:
                pass
        return True

    def next(self, timeout=None):
        """next message; None when closed; raises Timeout"""
        end = time.monotonic() + (self.timeout if timeout is None else timeout)
        while self.cursor >= len(self.msgs):
            if self.closed:
                return None
            left = end - time.monotonic()
            if left <= 0:
                raise Timeout('no message')
            self._pump(left)
        self.cursor += 1
        return self.msgs[self.cursor - 1]

    def wait(self, pred, timeout=None):
        """consume until pred(msg); None when closed first"""
        end = time.monotonic() + (self.timeout if timeout is None else timeout)
        while True:
            m = self.next(end - time.monotonic())
            if m is None or pred(m):
                return m

    def wait_close(self, timeout=None):
        end = time.monotonic() + (self.timeout if timeout is None else timeout)
        while not self.closed:
            left = end - time.monotonic()
            if left <= 0:
                return False
            self._pump(left)
        return True

    def wait_cmd(self, name, timeout=None, tid=None):
        def p(m):
            if m.type != AMF_CMD:
                return False
            v = amf.dec_all(m.payload)
            return v and v[0] in (name if isinstance(name, tuple) else (name,)) and (tid is None or v[1] == tid)
        m = self.wait(p, timeout)
        return None if m is None else amf.dec_all(m.payload)

    def wait_status(self, codes, timeout=None):
        """wait for onStatus with one of codes; returns the code (None if closed)"""
        if isinstance(codes, str):
            codes = (codes,)

        def p(m):
            return status_code(m) in codes
        m = self.wait(p, timeout)
        return None if m is None else status_code(m)

    def ping(self, timeout=None):
        """server round trip: everything sent before has been processed when this returns"""
        # createStream is answered in order
        self._tid = getattr(self, '_tid', 1000) + 1
        self.cmd('createStream', float(self._tid), None)
        return self.wait_cmd('_result', timeout, float(self._tid))

    def user_ping(self, timeout=None):
        """RTMP ping: the answer follows everything the server queued for us before it saw the ping"""
        self._ping = getattr(self, '_ping', 0x51000000) + 1
        want = b'\0\x07' + struct.pack('>I', self._ping)
        self.write(USER, b'\0\x06' + struct.pack('>I', self._ping), 2)
        return self.wait(lambda m: m.type == USER and m.payload == want, timeout)

    def connect(self, app, tcurl=None, **extra):
        o = {'app': app, 'flashVer': 'FMLE/3.0', 'tcUrl': tcurl or 'rtmp://127.0.0.1/' + app}
        o.update(extra)
        self.cmd('connect', 1.0, o)
        return self.wait_cmd(('_result', '_error'))

    def create_stream(self, tid=2.0):
        self.cmd('createStream', tid, None)
        r = self.wait_cmd('_result', tid=tid)
        return None if r is None else int(r[3])

    def publish(self, name, typ='live', msid=1):
        self.cmd('publish', 0.0, None, name, typ, msid=msid, csid=4)

    def play(self, name, *args, msid=1):
        self.cmd('play', 0.0, None, name, *(args or (-2000.0,)), msid=msid, csid=8)

    def close(self, rst=False):
        if rst:
            try:
                self.sock.setsockopt(socket.SOL_SOCKET, socket.SO_LINGER, struct.pack('ii', 1, 0))
            except OSError:
                pass
        try:
            self.sock.close()
        except OSError:
            pass
        self.closed = True


def status_code(m):
    if m is None or m.type not in (AMF_CMD, AMF_META):
        return None
    try:
        v = amf.dec_all(m.payload)
    except amf.AmfError:
        return None
    if not v or v[0] != 'onStatus':
        return None
    for x in v[1:]:
        if isinstance(x, dict):
            return x.get('code')
    return None


def publisher(addr, app, name, typ='live', chunk=4096, hs='simple', tcurl=None, expect=True, **extra):
    c = Conn(addr)
    c.handshake(hs)
    c.connect(app, tcurl, **extra)
    c.set_chunk(chunk)
    c.msid = c.create_stream()
    c.publish(name, typ, c.msid)
    if expect:
        code = c.wait_status(('NetStream.Publish.Start', 'NetStream.Publish.BadName'))
        if code != 'NetStream.Publish.Start':
            c.close()
            raise ProtoError('publish answered %r' % code)
    return c


def player(addr, app, name, hs='simple', tcurl=None, expect=True, args=(), rcvbuf=None, **extra):
    c = Conn(addr, rcvbuf=rcvbuf)
    c.handshake(hs)
    c.connect(app, tcurl, **extra)
    c.msid = c.create_stream()
    c.play(name, *args, msid=c.msid)
    if expect:
        c.wait_status('NetStream.Play.Start')
    return c
