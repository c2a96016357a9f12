"""R03: handshake and session commands: every client's byte stream is generated whole (with its own segmentation), interleaved
with those of other clients, and the answers are compared with a model of the session."""
import hashlib, hmac, math, os, random, struct, sys, time
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from hypothesis import strategies as st
from lib import amf, build, ngx, rtmp
from lib.check import Prop, Violation, Inconclusive, main

VARIANTS = [('plain', '', '', ''), ('chunk', 'chunk_size 128;', '', ''), ('restart', '', 'play_restart on;', ''), ('notify', 'ack_window 70000;', 'publish_notify on;', ''),
            ('asan', '', '', ''), ('asan2', 'chunk_size 1000;', 'play_restart on; publish_notify on;', ''), ('bufd', 'merge_frame 8;', 'buffer 1s;', ''), ('asan3', 'out_queue 256;', 'wait_key off;', '')]

C2LEN = 1536


def c1_of(kind, seed, patt):
    r = random.Random(seed)
    rnd = bytes(r.getrandbits(8) for _ in range(1528)) if patt == 0 else bytes([(0, 255, 182, 0x80)[patt - 1]]) * 1528
    t = struct.pack('>I', r.getrandbits(32))
    if kind == 'simple':
        return t + b'\0\0\0\0' + rnd, None
    if kind == 'nodigest':
        c = t + b'\x09\0\x7c\2' + rnd
        return c, None
    c, d = rtmp.make_digest_c1(0 if kind == 'digest0' else 1, rnd, struct.pack('>I', r.getrandbits(32) | 1))
    if seed % 3 == 0:              # any time value
        b = bytearray(t + c[4:])
        base = 772 if kind == 'digest0' else 8
        off = rtmp._digest_off(b, base)
        d = hmac.new(rtmp.FP_KEY, bytes(b[:off] + b[off + 32:]), hashlib.sha256).digest()
        b[off:off + 32] = d
        c = bytes(b)
    return c, d


num = st.one_of(st.integers(0, 50).map(float), st.floats(allow_nan=False, allow_infinity=False), st.sampled_from([0.0, 1.0, 2.5, -1.0, 1e15, 4294967296.0]))
op = st.one_of(
    st.tuples(st.just('create'), num), st.tuples(st.just('create'), num),
    st.tuples(st.just('pingreq'), st.integers(0, 0xffffffff).filter(lambda v: v >> 8 != 0xABCD12)),
    st.tuples(st.just('publish'), st.sampled_from(['live', 'live', 'record', 'append', None])),
    st.tuples(st.just('play'), st.integers(0, 3)), st.tuples(st.just('play'), st.integers(0, 3)),
    st.tuples(st.just('pause'), st.booleans(), st.integers(0, 100000)), st.tuples(st.just('pause'), st.booleans(), st.integers(0, 100000)),
    st.tuples(st.just('pauseraw'), st.booleans(), st.integers(0, 100000)),
    st.tuples(st.just('seek'), st.integers(0, 100000)),
    st.tuples(st.sampled_from(['delete', 'closes']), num),
    st.tuples(st.just('unknown'), st.sampled_from(['FCPublish', 'releaseStream', 'getStreamLength', '_checkbw', 'FCSubscribe', 'x', 'onStatus', '_result'])),
    st.tuples(st.just('buflen'), st.integers(0, 100000)),
    st.tuples(st.just('acksize'), st.sampled_from([200, 1000, 5000, 100000, 2500000])),
    st.tuples(st.just('ack'), st.integers(0, 0xffffffff).filter(lambda v: v >> 8 != 0xABCD12)),
    st.tuples(st.just('chunk'), st.sampled_from([128, 1, 4096, 65536, 200])),
    st.tuples(st.just('bw'), st.integers(0, 2)),
    st.tuples(st.just('media'), st.integers(1, 3000)),
    st.tuples(st.just('pong'), st.integers(0, 0xffffffff)))
client = st.fixed_dictionaries({
    'hs': st.sampled_from(['simple', 'simple', 'digest0', 'digest1', 'digest0', 'digest1', 'nodigest', 'badver', 'short', 'baddigest']),
    'seed': st.integers(0, 1 << 20), 'patt': st.sampled_from([0, 0, 0, 0, 0, 1, 2, 3, 4]), 'early': st.booleans(),
    'tid': num, 'oe': st.sampled_from([0.0, 0.0, 3.0, None]), 'app': st.sampled_from(['live', 'live', 'live/', 'live?a=b', 'live/_definst_']),
    'refuse': st.sampled_from([None] * 30 + ['livex', 'liv', 'Live', '', 'l', 'live_', 'other?live', 'MISSING', 'AGAIN', 'AGAIN']),
    'amf3': st.booleans(), 'ops': st.lists(op, max_size=14),
    'csid': st.sampled_from([3, 3, 8, 20, 31]),
    'cuts': st.lists(st.integers(0, 6000), max_size=8), 'cut0': st.sampled_from([0, 0, 1, 1536, 1537, 1538, 2000])})


class R03(Prop):
    id = 'R03'
    rule = ('a case is 1-3 concurrent clients, each with a handshake kind (plain, both digest schemes, no or wrong digest, wrong version, cut short), random handshake content, a session of up to 14 commands in any legal order with random '
            'transaction ids, sent in random segments interleaved with the others; every message the server sends is compared with a model of the session. Non-trivial: some client played or published, or a digest handshake was answered')
    assumptions = ['one stream per connection: after the first publish or play another name or role is refused by design and not generated', 'C2 is not verified by the server']
    quick_cases = 900
    thorough_cases = 20000
    quick_budget = 40
    variants = VARIANTS
    patience = 6

    def prebuild(cls):
        build.modules('plain')
        build.modules('asan')

    def setup(self):
        self.name, srv, app, _ = self.variant
        self.port = ngx.free_port()
        self.addr = ('127.0.0.1', self.port)
        self.chunk = int(srv.split('chunk_size')[1].split(';')[0]) if 'chunk_size' in srv else 4096
        self.win = int(srv.split('ack_window')[1].split(';')[0]) if 'ack_window' in srv else 5000000
        self.restart, self.notify = 'play_restart' in app, 'publish_notify' in app
        self.ng = ngx.Nginx(rtmp='server { listen 127.0.0.1:%d; ping 1h; timeout 1h; %s application live { live on; %s } }' % (self.port, srv, app), flavour='asan' if 'asan' in self.name else 'plain', log_level='crit')
        self.ng.start([self.port])
        self.n = 0
        self.by = rtmp.publisher(self.addr, 'live', 'bystander')
        self.byp = rtmp.player(self.addr, 'live', 'bystander', expect=not self.restart)

    def teardown(self):
        self.by.close()
        self.byp.close()
        self.ng.stop()

    def strategy(self):
        return st.tuples(st.lists(client, min_size=1, max_size=3), st.integers(0, 1 << 16))

    # ---- one client's bytes and the answers it must get
    def build(self, c, k):
        name = 'n%d_%d' % (self.n, k)
        c1, dg = c1_of(c['hs'] if c['hs'] in ('simple', 'nodigest', 'digest0', 'digest1') else 'digest1' if c['hs'] == 'baddigest' else 'simple', c['seed'], c['patt'])
        if c['hs'] == 'baddigest':
            b = bytearray(c1)
            b[1535 - c['seed'] % 400] ^= 0x10
            c1 = bytes(b)
            dg = None
            for base in (772, 8):
                off = rtmp._digest_off(c1, base)
                if hmac.new(rtmp.FP_KEY, c1[:off] + c1[off + 32:], hashlib.sha256).digest() == c1[off:off + 32]:
                    dg = c1[off:off + 32]
        r = random.Random(c['seed'])
        out, exp, acks = [], [], 0
        self.outchunk = 128
        wins = []

        def w(typ, payload, csid=None, msid=0):
            out.append(b''.join(rtmp.chunk_encode(csid or c['csid'], r.randrange(0, 0xfffffe), typ, msid, payload, self.outchunk)))

        def cmd(*a, msid=0):
            if c['amf3'] and r.random() < 0.5:
                w(rtmp.AMF3_CMD, b'\0' + amf.enc_all(*a), msid=msid)
            else:
                w(rtmp.AMF_CMD, amf.enc_all(*a), msid=msid)
        oe = c['oe']
        o = {'app': c['app'], 'flashVer': 'x' * r.randrange(0, 20), 'tcUrl': 'rtmp://127.0.0.1/live'}
        if r.random() < 0.3:
            o.update({'fpad': False, 'capabilities': 15.0, 'audioCodecs': 3191.0, 'videoCodecs': 252.0, 'pageUrl': 'http://p/' + 'q' * r.randrange(200), 'swfUrl': 's'})
        if oe is not None:
            o['objectEncoding'] = oe
        bad = c['refuse']
        if bad == 'MISSING':
            del o['app']
        elif bad not in (None, 'AGAIN'):
            o['app'] = bad
        cmd('connect', c['tid'], o)
        if bad == 'AGAIN':
            for op in c['ops'][:3]:
                if op[0] == 'create':
                    cmd('createStream', op[1], None)
                    exp.append(('create', op[1]))
            cmd('connect', c['tid'], o)
            exp = [('win', self.win), ('bw', self.win, 2), ('chunk', self.chunk), ('connect', c['tid'], 0.0 if oe is None else oe)] + exp
        if bad is not None:
            return {'c': c, 'c1': c1, 'dg': dg, 'bytes': b''.join(out), 'exp': exp, 'role': None, 'wins': [], 'oc': self.outchunk}
        exp += [('win', self.win), ('bw', self.win, 2), ('chunk', self.chunk), ('connect', c['tid'], 0.0 if oe is None else oe)]
        role, active, closed = None, False, False
        st_ = lambda code, m=1: exp.append(('status', code))
        for op in c['ops']:
            if op[0] == 'create':
                cmd('createStream', op[1], None)
                exp.append(('create', op[1]))
            elif op[0] == 'pingreq':
                w(rtmp.USER, b'\0\6' + struct.pack('>I', op[1]), 2)
                exp.append(('pong', op[1]))
            elif op[0] == 'publish':
                if role == 'play' or closed:
                    continue
                cmd(*(['publish', 0.0, None, name + ('?a=b' if r.random() < .3 else '')] + ([op[1]] if op[1] else [])), msid=1)
                if role is None:
                    role = 'publish'
                    st_('NetStream.Publish.Start')
            elif op[0] == 'play':
                if role == 'publish' or closed:
                    continue
                cmd(*['play', 0.0, None, name, -2000.0, -1.0, True][:4 + op[1]], msid=1)
                if role is None:
                    role = 'play'
                    if not self.restart:
                        st_('NetStream.Play.Start')
                        exp.append(('access',))
            elif op[0] in ('pause', 'pauseraw'):
                if role == 'publish':
                    continue
                cmd(op[0], 0.0, None, op[1], float(op[2]), msid=1)
                if role == 'play' and not closed:
                    st_('NetStream.Pause.Notify' if op[1] else 'NetStream.Unpause.Notify')
                    if active == op[1]:
                        active = not active
                        exp.append(('begin' if active else 'eof',))
                        if self.restart:
                            st_('NetStream.Play.Start' if active else 'NetStream.Play.Stop')
                            if active:
                                exp.append(('access',))
                        if self.notify:
                            st_('NetStream.Play.PublishNotify' if active else 'NetStream.Play.UnpublishNotify')
            elif op[0] == 'seek':
                cmd('seek', 0.0, None, float(op[1]), msid=1)
            elif op[0] in ('delete', 'closes'):
                if op[0] == 'delete':
                    cmd('deleteStream', op[1], None, 1.0)
                else:
                    cmd('closeStream', op[1], None, msid=1)
                if role and not closed:
                    closed = True
                    if role == 'publish':
                        st_('NetStream.Unpublish.Success')
                    elif not self.restart:
                        st_('NetStream.Play.Stop')
            elif op[0] == 'unknown':
                cmd(op[1], 4.0, None, name)
            elif op[0] == 'buflen':
                w(rtmp.USER, b'\0\3' + struct.pack('>II', 1, op[1]), 2)
            elif op[0] == 'acksize':
                w(rtmp.ACK_SIZE, struct.pack('>I', op[1]), 2)
                wins.append(op[1])
            elif op[0] == 'ack':
                w(rtmp.ACK, struct.pack('>I', op[1]), 2)
            elif op[0] == 'chunk':
                w(rtmp.CHUNK_SIZE, struct.pack('>I', op[1]), 2)
                self.outchunk = op[1]
            elif op[0] == 'bw':
                w(rtmp.BANDWIDTH, struct.pack('>IB', 2500000, op[1]), 2)
            elif op[0] == 'media':
                w(rtmp.AUDIO if op[1] & 1 else rtmp.VIDEO, bytes([0x2f if op[1] & 1 else 0x22]) + bytes(op[1]), 4, 1)
            elif op[0] == 'pong':
                w(rtmp.USER, b'\0\7' + struct.pack('>I', op[1]), 2)
        w(rtmp.USER, b'\0\6' + struct.pack('>I', 0xABCD1230 + k), 2)
        exp.append(('pong', 0xABCD1230 + k))
        return {'c': c, 'c1': c1, 'dg': dg, 'bytes': b''.join(out), 'exp': exp, 'role': role, 'wins': wins, 'oc': self.outchunk}

    def norm(self, m):
        if m.type == rtmp.ACK_SIZE:
            return ('win', struct.unpack('>I', m.payload)[0])
        if m.type == rtmp.BANDWIDTH:
            return ('bw',) + struct.unpack('>IB', m.payload)
        if m.type == rtmp.CHUNK_SIZE:
            return ('chunk', struct.unpack('>I', m.payload)[0])
        if m.type == rtmp.ACK:
            return ('ack', struct.unpack('>I', m.payload)[0])
        if m.type == rtmp.USER:
            e, v = struct.unpack('>HI', m.payload[:6])
            if e in (0, 1):
                return ('begin' if e == 0 else 'eof',) if v == 1 and len(m.payload) == 6 else ('?', m)
            if e == 7:
                return ('pong', v) if len(m.payload) == 6 else ('?', m)
            return ('?', m)
        if m.type in (rtmp.AMF_CMD, rtmp.AMF_META):
            try:
                v = amf.dec_all(m.payload)
            except amf.AmfError as e:
                return ('?', m)
            if v == ['|RtmpSampleAccess', True, True] and m.type == rtmp.AMF_META and m.msid == 1:
                return ('access',)
            if v[0] == 'onStatus' and len(v) == 4 and v[1] == 0.0 and v[2] is None and isinstance(v[3], dict) and m.msid == 1 and v[3].get('level') == 'status' and v[3].get('description') and m.type == rtmp.AMF_CMD:
                return ('status', v[3].get('code'))
            if v[0] == '_result' and len(v) == 4 and m.type == rtmp.AMF_CMD and m.msid == 0:
                if v[2] is None and v[3] == 1.0:
                    return ('create', v[1])
                if isinstance(v[2], dict) and v[2].get('fmsVer') and v[2].get('capabilities') and isinstance(v[3], dict) and v[3].get('code') == 'NetConnection.Connect.Success' and v[3].get('level') == 'status':
                    return ('connect', v[1], v[3].get('objectEncoding'))
        return ('?', m)

    def run(self, case):
        self.n += 1
        cs = [self.build(c, k) for k, c in enumerate(case[0])]
        r = random.Random(case[1])
        labels = set()
        end = time.monotonic() + self.patience
        try:
            for d in cs:
                d['conn'] = c = rtmp.Conn(self.addr, timeout=self.patience)
                c.auto_ack = False
                hs = d['c']['hs']
                c0 = b'\x03' if hs != 'badver' else bytes([(d['c']['seed'] % 250 + 4) & 255])
                full = c0 + d['c1']
                rest = bytes(random.Random(d['c']['seed'] + 1).getrandbits(8) for _ in range(C2LEN)) if d['c']['seed'] & 1 else bytes(C2LEN)
                if hs == 'short':
                    full, rest = full[:d['c']['cut0']] if d['c']['cut0'] < 1537 else full, b''
                    data, cutat = full, len(full)
                else:
                    data, cutat = full + rest + d['bytes'], len(full)
                cuts = sorted({x for x in [d['c']['cut0']] + d['c']['cuts'] if 0 < x < len(data)} | (set() if d['c']['early'] else {cutat}))
                d['segs'] = [(a, data[a:b]) for a, b in zip([0] + cuts, cuts + [len(data)]) if data[a:b]]
                d['cutat'], d['early'] = cutat, d['c']['early']
                d['hsdone'] = False
                labels.add(hs)
            live = list(cs)
            while live:
                d = r.choice(live)
                if not d['segs']:
                    live.remove(d)
                    continue
                a, seg = d['segs'].pop(0)
                if a >= d['cutat'] and not d['early'] and not d['hsdone'] and d['c']['hs'] != 'badver':
                    self.reply(d)
                try:
                    d['conn'].send(seg)
                except rtmp.Closed:
                    if d['c']['hs'] != 'badver' and d['c']['refuse'] is None:
                        raise Violation('client %r: connection closed while sending' % (d['c'],))
                    d['segs'] = []
            nt = False
            for d in cs:
                hs, conn = d['c']['hs'], d['conn']
                if hs == 'badver':
                    try:
                        x = conn.recv_exact(1)
                        raise Violation('handshake version %d was answered with %r' % (d['c1'][0], x))
                    except rtmp.Closed:
                        continue
                    except rtmp.Timeout:
                        raise Violation('handshake with a wrong version is not refused')
                if hs == 'short':
                    conn.close(rst=bool(d['c']['seed'] & 2))
                    continue
                if not d['hsdone']:
                    self.reply(d)
                nt = nt or d['role'] is not None or d['dg'] is not None
                if d['c']['refuse'] is not None:
                    self.refused(d)
                    labels.add('refused')
                    continue
                self.session(d)
            for b in (self.by, self.byp):
                try:
                    if b.user_ping(self.patience) is None:
                        raise Violation('a bystander session was closed')
                except rtmp.Timeout:
                    raise Violation('a bystander session got no answer to a ping')
                if self.ng.crashes():
                    raise Violation('crash: ' + self.ng.crashes()[0][:600])
                b.msgs.clear()
                b.cursor = 0
        except (rtmp.Closed, ConnectionRefusedError) as e:
            raise Violation('connection lost: %s %s' % (e, (self.ng.crashes() or [''])[0][:600]))
        except rtmp.Timeout as e:
            raise Violation('no answer: %s' % e)
        except rtmp.ProtoError as e:
            raise Violation('not RTMP: %s' % e)
        finally:
            for d in cs:
                if 'conn' in d:
                    d['conn'].close()
        return nt, labels | {d['role'] for d in cs if d['role']}

    def reply(self, d):
        d['hsdone'] = True
        s = d['conn'].recv_exact(3073)
        what = 'handshake %s (seed %d pattern %d)' % (d['c']['hs'], d['c']['seed'], d['c']['patt'])
        if s[0] != 3:
            raise Violation('%s: S0 is %d' % (what, s[0]))
        s1, s2 = s[1:1537], s[1537:]
        if d['dg'] is None:
            if s2 != d['c1']:
                i = next(i for i in range(1536) if s2[i] != d['c1'][i])
                raise Violation('%s: S2 is not the echo of C1 (differs from byte %d)' % (what, i))
        else:
            if rtmp.find_digest(s1, rtmp.FMS_KEY) is None:
                raise Violation('%s: S1 carries no valid digest' % what)
            key = hmac.new(rtmp.FMS_KEY + rtmp.K2, d['dg'], hashlib.sha256).digest()
            if hmac.new(key, s2[:-32], hashlib.sha256).digest() != s2[-32:]:
                raise Violation('%s: S2 is not bound to the client digest' % what)
            if s1[4:8] == b'\0\0\0\0':
                raise Violation('%s: S1 version is 0' % what)
        return s

    def refused(self, d):
        """the application does not exist, or connect was sent twice: the session is closed and nothing more is answered"""
        what, got = 'client %r' % (d['c'],), []
        end = time.monotonic() + self.patience
        try:
            while True:
                m = d['conn'].next(max(0.01, end - time.monotonic()))
                if m is None:
                    break
                got.append(self.norm(m))
        except rtmp.Timeout:
            raise Violation('%s: not closed after a connect that must be refused; got %r' % (what, got))
        if got != d['exp']:
            raise Violation('%s: before a connect was refused %r was expected, got %r' % (what, d['exp'], got))

    def session(self, d):
        conn, exp = d['conn'], d['exp']
        what = 'client %r' % (d['c'],)
        want = list(exp)
        got, acks = [], []
        last = exp[-1]
        end = time.monotonic() + self.patience
        while True:
            try:
                m = conn.next(max(0.01, end - time.monotonic()))
            except rtmp.Timeout:
                raise Violation('%s: expected %r, got only %r' % (what, want, got))
            if m is None:
                raise Violation('%s: closed; expected %r, got %r' % (what, want, got))
            n = self.norm(m)
            if n[0] == 'ack':
                acks.append(n[1])
                continue
            got.append(n)
            if n == last:
                break
        if got != want:
            i = next(i for i in range(max(len(got), len(want))) if i >= len(got) or i >= len(want) or got[i] != want[i])
            raise Violation('%s: answer %d is %r, should be %r (all: %r)' % (what, i, got[i] if i < len(got) else None, want[i] if i < len(want) else None, got[:40]))
        if conn.rd.max_chunk_payload > self.chunk:
            raise Violation('%s: a chunk of %d bytes was sent with chunk size %d' % (what, conn.rd.max_chunk_payload, self.chunk))
        # acknowledgements
        T = len(d['bytes'])
        if d['wins']:
            p = b''.join(rtmp.chunk_encode(2, 0, rtmp.USER, 0, b'\0\6\x11\x22\x33\x44', d['oc']))
            conn.send(p)
            T += len(p)
            while True:
                m = conn.next(self.patience)
                if m is None:
                    raise Violation('%s: closed' % what)
                n = self.norm(m)
                if n[0] == 'ack':
                    acks.append(n[1])
                elif n == ('pong', 0x11223344):
                    break
            if T - (acks[-1] if acks else 0) >= d['wins'][-1]:
                raise Violation('%s: window %d, %d bytes sent, acknowledged %r' % (what, d['wins'][-1], T, acks))
            for a, b in zip([0] + acks, acks):
                if b - a < min(d['wins']) or b > T:
                    raise Violation('%s: windows %r, %d bytes sent, acknowledged %r' % (what, d['wins'], T, acks))
        elif acks:
            raise Violation('%s: acknowledgement without a window: %r' % (what, acks))
        if conn.msgs[conn.cursor:]:
            raise Violation('%s: more answers: %r' % (what, [self.norm(m) for m in conn.msgs[conn.cursor:]]))


if __name__ == '__main__':
    main(R03)
