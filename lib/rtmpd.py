"""Scripted RTMP and HTTP-FLV servers: the far end of a relay. Single threaded, driven by Farm.pump()."""
import select, socket, struct, time
from . import rtmp, amf, flv

START = {'publish': 'NetStream.Publish.Start', 'play': 'NetStream.Play.Start'}


class ServerConn(rtmp.Conn):
    """one accepted connection; mode says how far it lets the client get: ok reset hs conn silent noresp"""
    eof = False                    # the other side closed it

    def __init__(self, sock, mode, farm, idx):
        sock.setsockopt(socket.IPPROTO_TCP, socket.TCP_NODELAY, 1)
        self.sock, self.mode, self.farm, self.idx = sock, mode, farm, idx
        self.timeout, self.addr = 15.0, None
        self.rd = rtmp.ChunkReader()
        self.out_chunk = 128
        self.msgs, self.cursor, self.closed = [], 0, False
        self.bytes_in, self.auto_ack, self.ack_win, self.last_ack = 0, True, 0, 0
        self.raw = b''
        self.state = 'c1'
        self.up = False                # the session was accepted
        self.connect_obj = self.args = None
        self.verb = self.name = None
        self.born = farm.clock
        self.bad = None
        if mode == 'reset':
            self.close(rst=True)

    def ready(self):
        try:
            x = self.sock.recv(262144)
        except (ConnectionResetError, BrokenPipeError):
            x = b''
        except BlockingIOError:
            return
        if not x:
            self.closed = self.eof = True
            self.sock.close()
            return
        if self.mode == 'silent':
            return
        self.bytes_in += len(x)
        try:
            self.feed(x)
        except rtmp.Closed:
            self.closed = True
        except rtmp.ProtoError as e:
            self.bad = str(e)
            self.close()

    def feed(self, x):
        if self.state in ('c1', 'c2'):
            self.raw += x
            if self.state == 'c1' and len(self.raw) >= 1537:
                if self.raw[0] != 3:
                    raise rtmp.ProtoError('handshake version %d' % self.raw[0])
                c1 = self.raw[1:1537]
                self.raw = self.raw[1537:]
                self.send(b'\x03' + bytes(8) + bytes(range(256)) * 5 + bytes(248) + c1)
                self.state = 'c2'
            if self.state == 'c2' and len(self.raw) >= 1536:
                x, self.raw, self.state = self.raw[1536:], b'', 'on'
                if self.mode == 'hs':
                    self.close()
                    return
            else:
                return
        self.rd.feed(x)
        while not self.closed:
            m = self.rd.pop()
            if m is None:
                break
            if m.type == rtmp.CHUNK_SIZE:
                self.rd.chunk = struct.unpack('>I', m.payload)[0]
            elif m.type == rtmp.ACK_SIZE:
                self.ack_win = struct.unpack('>I', m.payload)[0]
            elif m.type == rtmp.USER and m.payload[:2] == b'\0\x06':
                self.write(rtmp.USER, b'\0\x07' + m.payload[2:6], 2)
            elif m.type == rtmp.AMF_CMD:
                self.command(amf.dec_all(m.payload))
            self.msgs.append(m)

    def command(self, v):
        if v[0] == 'connect':
            self.connect_obj = v[2]
            if self.mode == 'conn':
                self.close()
                return
            self.write(rtmp.ACK_SIZE, struct.pack('>I', 5000000), 2)
            self.set_chunk(self.farm.chunk)
            self.cmd('_result', v[1], {'fmsVer': 'FMS/3,0,1,123'}, {'level': 'status', 'code': 'NetConnection.Connect.Success', 'description': 'ok'})
        elif v[0] == 'createStream':
            self.cmd('_result', v[1], None, 1.0)
        elif v[0] in ('publish', 'play'):
            self.verb, self.name = v[0], v[3]
            if self.mode == 'noresp':
                return
            self.up = True
            self.cmd('onStatus', 0.0, None, {'level': 'status', 'code': START[v[0]], 'description': 'go'}, msid=1, csid=5)
            self.farm.clock += 1

    def media(self):
        return [m for m in self.msgs if m.type in (8, 9) and m.payload]


class HttpConn:
    """the same for an HTTP-FLV client"""
    verb = 'play'
    eof = False
    bad = None

    def __init__(self, sock, mode, farm, idx):
        self.sock, self.mode, self.farm, self.idx = sock, mode, farm, idx
        self.raw, self.closed, self.up, self.head = b'', False, False, None
        self.born = farm.clock
        self.chunked = farm.http_chunked
        if mode == 'reset':
            self.close()

    def close(self):
        self.closed = True
        self.sock.close()

    def send(self, b):
        try:
            self.sock.settimeout(10)
            self.sock.sendall(b)
        except (BrokenPipeError, ConnectionResetError, socket.timeout) as e:
            self.closed = True
            raise rtmp.Closed(str(e))

    def data(self, b):
        self.send(b'%x\r\n%s\r\n' % (len(b), b) if self.chunked else b)

    def ready(self):
        try:
            x = self.sock.recv(65536)
        except (ConnectionResetError, BrokenPipeError):
            x = b''
        if not x:
            self.close()
            self.eof = True
            return
        if self.mode == 'silent':
            return
        self.raw += x
        if b'\r\n\r\n' in self.raw and self.head is None:
            h = self.raw.split(b'\r\n\r\n')[0].decode('latin-1').split('\r\n')
            self.head = h[0].split(' ')
            self.headers = {k.strip().lower(): v.strip() for k, v in (l.split(':', 1) for l in h[1:])}
            if self.mode in ('hs', 'conn'):
                self.close()
                return
            if self.mode == 'noresp':
                return
            try:
                self.send(b'HTTP/1.1 200 OK\r\nContent-Type: video/x-flv\r\n' + (b'Transfer-Encoding: chunked' if self.chunked else b'Connection: close') + b'\r\n\r\n')
                self.data(flv.header())
                self.up = True
                self.farm.clock += 1
            except rtmp.Closed:
                pass


class Farm:
    """listeners and the connections they accepted"""

    def __init__(self, n, http=0):
        self.l = []
        self.ports = []
        for i in range(n + http):
            s = socket.socket()
            s.setsockopt(socket.SOL_SOCKET, socket.SO_REUSEADDR, 1)
            s.bind(('127.0.0.1', 0))
            s.listen(64)
            self.l.append(s)
            self.ports.append(s.getsockname()[1])
        self.n = n
        self.http_chunked = False
        self.chunk = 4096
        self.reset()

    def reset(self):
        self.modes = ['ok'] * len(self.l)
        self.conns = []
        self.clock = 0
        self.total = 0

    def live(self, i=None):
        return [c for c in self.conns if not c.closed and (i is None or c.idx == i)]

    def up(self, i=None):
        return [c for c in self.live(i) if c.up]

    def pump(self, cond=None, timeout=0.0):
        """handle what is there; with cond, until it holds (True) or the time is over (False)"""
        end = time.monotonic() + timeout
        while True:
            if cond is not None and cond():
                return True
            left = end - time.monotonic()
            lv = self.live()
            r, _, _ = select.select(self.l + [c.sock for c in lv], [], [], max(0, min(left, 0.05)))
            if not r and left <= 0:
                return bool(cond is not None and cond())
            for i, s in enumerate(self.l):
                if s in r:
                    k, _ = s.accept()
                    self.total += 1
                    self.conns.append((ServerConn if i < self.n else HttpConn)(k, self.modes[i], self, i))
            for c in lv:
                if c.sock in r and not c.closed:
                    c.ready()

    def stop(self):
        for c in self.live():
            c.close()
        for s in self.l:
            s.close()
