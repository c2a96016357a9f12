"""R08: hostile RTMP input - no crash, no memory error, no disturbed bystander."""
import os, struct, sys, time
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from hypothesis import strategies as st
from lib import ngx, rtmp, media, amf, build
from lib.check import Prop, Violation, Inconclusive, main

FULL = ('hls on; hls_path @DIR@/out/hls; hls_fragment 300ms; dash on; dash_path @DIR@/out/dash; dash_fragment 300ms; hls2memory on; hls2_fragment 300ms; '
        'mpegts_cache_time 2s; record all; record_path @DIR@/out/rec; record_unique on; cache_time 2s; wait_key on; idle_streams on;')
# name, server config, application config
VARIANTS = [
    ('plain', '', ''),
    ('gop', 'chunk_size 4096;', 'cache_time 3s; low_latency on; wait_video on; meta copy;'),
    ('gopfix', 'merge_frame 1;', 'cache_time 1s; fix_timestamp 3s; zero_start on; send_all on; interleave on; meta off;'),
    ('full', '', FULL),
    ('hls', 'chunk_size 128;', 'hls on; hls_path @DIR@/out/hls; hls_nested on; hls_keys on; hls_fragments_per_key 1; hls_fragment 200ms; hls_continuous on; '
            'hls_variant _low BANDWIDTH=1; record keyframes; record_path @DIR@/out/rec; record_max_size 4k;'),
    ('dash', 'max_message 64k;', 'dash on; dash_nested on; dash_path @DIR@/out/dash; dash_fragment 100ms; recorder a { record video; record_path @DIR@/out/rec; record_max_frames 3; } '
             'recorder b { record audio; record_path @DIR@/out/rec; record_suffix -b.flv; record_append on; }'),
    ('hls2', 'publish_time_fix off;', 'hls2memory on; hls2_fragment 200ms; hls2_max_fragment 300ms; mpegts_cache_time 1s; live_record on; live_record_path @DIR@/out/lr; wait_key off;'),
    ('small', 'max_message 2k; max_streams 16; chunk_size 200; buflen 10ms; ack_window 500;', 'play_restart on; publish_notify on; sync 10ms; buffer 100ms; cache_time 500ms; drop_idle_publisher 1h;'),
]

KEYS = ['app', 'tcUrl', 'flashVer', 'swfUrl', 'pageUrl', 'audioCodecs', 'videoCodecs', 'objectEncoding', 'duration', 'width', 'height', 'framerate', 'fps',
        'videodatarate', 'audiodatarate', 'videocodecid', 'audiocodecid', 'profile', 'level', 'code', 'description', 'info', 'encoder', 'details', '', 'x', 'appx', 'serverid']
CMDS = ['connect', 'createStream', 'closeStream', 'deleteStream', 'publish', 'play', 'seek', 'pause', 'FCPublish', 'FCUnpublish', 'FCSubscribe', 'releaseStream',
        '_result', '_error', 'onStatus', 'onFCPublish', 'onBWDone', '_checkbw', '@setDataFrame', 'onMetaData', 'receiveAudio', 'receiveVideo', 'setPlaylist', 'nosuch', '']
NAMES = ['', 'a', 's1', 's1', 's2', 's1?x=1', 's1?x=1&y=%41%', '?', 'a/b', 'a..b', 'rtmp://h/x', 'n' * 255, 'n' * 256, 'm' * 700, 'a b\x01\xff', '%2e%2e', 'x?' + 'y' * 400, 'a&b<c>']


def raw_amf(v):
    """('raw', bytes) is passed through, everything else encoded"""
    if isinstance(v, tuple):
        return v[1]
    if isinstance(v, amf.Ecma):
        return b'\x08' + struct.pack('>I', len(v)) + b''.join(_k(k) + raw_amf(x) for k, x in v.items()) + b'\0\0\x09'
    if isinstance(v, dict):
        return b'\x03' + b''.join(_k(k) + raw_amf(x) for k, x in v.items()) + b'\0\0\x09'
    if isinstance(v, list):
        return b'\x0a' + struct.pack('>I', len(v)) + b''.join(raw_amf(x) for x in v)
    return amf.enc(v)


def _k(k):
    b = k.encode('utf-8', 'surrogateescape')
    return struct.pack('>H', len(b)) + b


class BitW:
    def __init__(self):
        self.s = ''

    def u(self, v, n):
        self.s += format(v & ((1 << n) - 1), '0%db' % n) if n else ''

    def ue(self, v):
        b = format(v + 1, 'b')
        self.s += '0' * (len(b) - 1) + b

    def out(self):
        s = self.s + '1'
        s += '0' * (-len(s) % 8)
        return int(s, 2).to_bytes(len(s) // 8, 'big')


def sps(v):
    """an H.264 SPS with extreme field values"""
    w = BitW()
    w.u(0x67, 8)
    w.u(v[0], 8); w.u(0, 8); w.u(v[1], 8)
    for i, x in enumerate(v[2:]):
        if i % 5 == 4:
            w.u(x, 7)
        else:
            w.ue(x)
    return w.out()


amfval = st.recursive(
    st.one_of(st.sampled_from([0.0, 1.0, -1.0, 1e300, float('nan'), float('inf'), 2147483648.0, 4294967295.0, -2000.0, 7.0, 10.0, 2.0]),
              st.booleans(), st.none(), st.sampled_from(NAMES), st.sampled_from(['avc1', 'mp4a', 'mp3', 'live', 'record', 'append', 'rtmp://127.0.0.1/live', 'NetStream.Play.Start']),
              st.builds(lambda b: ('raw', b), st.one_of(st.binary(max_size=6), st.sampled_from(
                  [b'\x02\xff\xff', b'\x0c\x7f\xff\xff\xff', b'\x0c\xff\xff\xff\xff', b'\x0a\xff\xff\xff\xff', b'\x08\0\0\0\1', b'\x03', b'\x0d', b'\x10\0\1a', b'\x0b' + bytes(10), b'\x11',
                   b'\x06', b'\x07\0\0', b'\x03\0\x03app\x03\0\1a', b'\x03' * 200, b'\x0a\0\0\0\1' * 100, b'\x03\0\1a' * 3000, b'\x03\0\1a' * 60000, b'\x0a\0\0\0\1' * 50000])))),
    lambda c: st.one_of(st.dictionaries(st.sampled_from(KEYS), c, max_size=5),
                        st.dictionaries(st.sampled_from(KEYS), c, max_size=5).map(amf.Ecma), st.lists(c, max_size=3)),
    max_leaves=8)
sizes = st.one_of(st.integers(0, 4), st.integers(0, 60), st.integers(0, 3000), st.just(70000))
msid = st.sampled_from([0, 1, 1, 1, 1, 2, 5, 0x7fffffff, 0xffffffff])
csid = st.sampled_from([2, 3, 4, 5, 6, 7, 63, 64, 319, 320, 1000, 65599])
tsd = st.one_of(st.integers(0, 400), st.sampled_from([0, 0xffffff, 0x1000000, 0x7fffffff, 0xffffffff]))
nal = st.one_of(st.binary(max_size=12), st.builds(lambda v: sps(v), st.tuples(st.sampled_from([66, 77, 88, 100, 110, 122, 244, 44, 118, 0]), st.sampled_from([10, 30, 41, 9, 11, 0]),
                *([st.one_of(st.integers(0, 3), st.sampled_from([0, 1, 7, 8, 255, 65535, 0x7fffffff, 0xfffffffe]))] * 14))))
avcc = st.one_of(
    st.builds(lambda sp, pp, ns, np: b'\x01\x64\0\x28\xff' + bytes([ns]) + b''.join(struct.pack('>H', len(x)) + x for x in sp) + bytes([np]) + b''.join(struct.pack('>H', len(x)) + x for x in pp),
              st.lists(nal, max_size=2), st.lists(st.binary(max_size=6), max_size=2), st.sampled_from([0xe0, 0xe1, 0xe2, 0xff]), st.sampled_from([0, 1, 2, 255])),
    st.just(media.avcc()), st.binary(max_size=40),
    st.builds(lambda n, k: media.avcc()[:n] + bytes([k]) * 3, st.integers(0, 44), st.integers(0, 255)))
hvcc = st.one_of(
    st.builds(lambda arrs: b'\x01' + bytes(21) + bytes([len(arrs)]) + b''.join(bytes([t]) + struct.pack('>H', c) + b''.join(struct.pack('>H', len(x)) + x for x in ns) for t, c, ns in arrs),
              st.lists(st.tuples(st.sampled_from([32, 33, 34, 0xa1, 39]), st.sampled_from([0, 1, 2, 65535]), st.lists(st.one_of(
                  st.binary(max_size=60), st.binary(min_size=30, max_size=60).map(lambda b: b'\x42\x01' + b)), max_size=2)), max_size=3)),
    st.binary(max_size=60))
frame = st.one_of(sizes.map(lambda n: media.filler(n + 3, n)),
                  st.lists(st.tuples(st.one_of(st.integers(0, 40), st.sampled_from([0xffffffff, 0x7fffffff, 100000])), st.integers(0, 255), st.integers(0, 30)), max_size=4).map(
                      lambda l: b''.join(struct.pack('>I', a) + bytes([t]) + b'\x11' * n for a, t, n in l)))
video = st.one_of(
    avcc.map(lambda b: b'\x17\0\0\0\0' + b), hvcc.map(lambda b: b'\x1c\0\0\0\0' + b),
    st.builds(lambda t, p, c, b: bytes([t, p]) + c.to_bytes(3, 'big') + b, st.sampled_from([0x17, 0x27, 0x1c, 0x2c, 0x12, 0x57, 0, 0xff]), st.sampled_from([1, 1, 1, 0, 2, 255]),
              st.sampled_from([0, 40, 0xffffff, 0x7fffff]), frame),
    st.binary(max_size=6))
audio = st.one_of(
    st.builds(lambda b: b'\xaf\0' + b, st.one_of(st.binary(max_size=5), st.sampled_from([b'\x12\x10', b'\x2b\x92\x08\0', b'\xff\xff\xff\xff', b'\x17\xff', b'']))),
    st.builds(lambda h, b: h + b, st.sampled_from([b'\xaf\1', b'\xaf\1', b'\x2f', b'\xbf', b'\x0f']), frame), st.binary(max_size=3))
av = st.one_of(st.tuples(st.just(9), video), st.tuples(st.just(8), audio))


def aggregate(subs):
    out = b''
    for typ, lie, ts, pay in subs:
        n = len(pay) if lie is None else lie
        out += bytes([typ]) + n.to_bytes(3, 'big') + (ts & 0xffffff).to_bytes(3, 'big') + bytes([(ts >> 24) & 255]) + b'\0\0\0' + pay + struct.pack('>I', 11 + n)
    return out


agg0 = st.lists(st.tuples(st.sampled_from([8, 9, 18, 20, 22, 1, 0]), st.sampled_from([None, None, None, 0, 1, 0xffffff]), tsd, st.one_of(video, audio, st.binary(max_size=20))), max_size=4).map(aggregate)
agg = st.one_of(agg0, st.builds(lambda b, n, k: (aggregate([(22, None, 0, b)]))[:n] if k else aggregate([(22, None, 0, b)]), agg0, st.integers(0, 40), st.booleans()))
ctl = st.tuples(st.sampled_from([1, 2, 3, 4, 4, 5, 6, 7]), st.one_of(
    st.binary(max_size=8), st.sampled_from([b'\0\0\0\0', b'\0\0\0\1', b'\0\0\0\x80', b'\x7f\xff\xff\xff', b'\xff\xff\xff\xff', b'\0\0\x10\0', b'\0\1\0\0\0',
                                            b'\0\3\0\0\0\1\0\0\3\xe8', b'\0\3\0\0\0\1', b'\0\x06\1\2\3\4', b'\0\0\0\0\0\1', b'\0\1\0\0\0\1', b'\0\x1a\1', b''])))
item = st.one_of(
    st.tuples(st.just('cmd'), st.sampled_from([20, 20, 20, 17]), st.sampled_from(CMDS), st.lists(amfval, max_size=5), msid),
    st.tuples(st.just('known'), st.sampled_from(['publish', 'play', 'createStream', 'connect', 'deleteStream', 'closeStream', 'pause', 'seek', 'close']), st.sampled_from(NAMES), st.sampled_from(['live', 'record', 'append', '']), msid),
    st.tuples(st.just('data'), st.sampled_from([18, 18, 15]), st.sampled_from(['@setDataFrame', 'onMetaData', 'onTextData', '']), st.lists(amfval, max_size=3), msid),
    st.tuples(st.just('av'), av, tsd, msid), st.tuples(st.just('av'), av, tsd, st.just(1)), st.tuples(st.just('av'), av, tsd, st.just(1)),
    st.tuples(st.just('good'), st.integers(1, 6), st.integers(0, 300)),
    st.tuples(st.just('agg'), agg, tsd, msid),
    st.tuples(st.just('ctl'), ctl),
    st.tuples(st.just('chunk'), st.integers(0, 3), csid, st.sampled_from([0, 1, 7, 0xffffff]), st.sampled_from([0, 1, 5, 127, 129, 2000, 0xffffff]), st.sampled_from([1, 3, 4, 8, 9, 18, 20, 22]), msid, st.binary(max_size=40)),
    st.tuples(st.just('any'), st.integers(0, 30), st.binary(max_size=20), msid),
    st.tuples(st.just('raw'), st.binary(max_size=20)),
    st.tuples(st.just('mychunk'), st.sampled_from([1, 2, 128, 4096, 100000, 0x7fffffff])),
)
session = st.fixed_dictionaries({
    'hs': st.sampled_from(['simple'] * 8 + ['digest0', 'digest1', 'half', 'badver', 'zeros', 'cut', 'c2junk']),
    'pre': st.sampled_from(['none', 'connect', 'create', 'publish', 'publish', 'publish', 'play']),
    'name': st.sampled_from(NAMES), 'app': st.sampled_from(['live', 'live', 'live', 'live/inst', 'nosuch', '', 'x' * 300]),
    'items': st.lists(item, max_size=14),
    'mut': st.lists(st.tuples(st.integers(0, 4000), st.integers(0, 255), st.sampled_from(['set', 'del', 'dup'])), max_size=2),
    'usemut': st.sampled_from([False, False, False, True]),
    'segs': st.lists(st.integers(1, 300), max_size=4),
    'end': st.sampled_from(['close', 'rst', 'keep', 'keep']),
})


class R08(Prop):
    id = 'R08'
    rule = ('a case is 1-3 hostile sessions, each a (possibly broken) handshake, a state (fresh, connected, publishing, playing), up to 14 messages from a grammar of commands, metadata, '
            'codec headers and frames with extreme or inconsistent fields, lying lengths, aggregates, control messages, raw chunks and bytes, optionally byte-mutated, in arbitrary TCP '
            'segments, on a server built with AddressSanitizer in one of 8 configurations (HLS, DASH, HLS2, record, GOP cache...); a bystander stream must keep flowing. Non-trivial: at '
            'least one hostile session got past the handshake and sent a message')
    assumptions = ['detects memory errors AddressSanitizer can see; pool allocations of pingos are made separately visible (lib/asan_pool.h)']
    quick_cases = 3500
    thorough_cases = 30000
    quick_budget = 90
    thorough_budget = 650
    variants = VARIANTS
    restart_every = 400

    def prebuild(cls):
        build.modules('asan')

    def setup(self):
        name, srv, app = self.variant
        self.port = ngx.free_port()
        self.ng = ngx.Nginx(rtmp='server { listen 127.0.0.1:%d; timeout 1h; ping 1h; %s application live { live on; %s } application by { live on; wait_key off; } }' % (
            self.port, srv, app), flavour='asan', log_level='crit', user='nobody nogroup')
        out = os.path.join(self.ng.dir, 'out')
        for d in ('', 'hls', 'dash', 'rec', 'lr'):
            os.makedirs(os.path.join(out, d), exist_ok=True)
            os.chmod(os.path.join(out, d), 0o777)
        try:
            self.ng.start([self.port])
        except ngx.NginxDied as e:
            cr = self.ng.crashes()
            self.ng.stop()
            if not cr:
                raise Inconclusive('server does not start: %s' % e)
            raise Violation('server crashed at start: %s' % cr[0])
        self.addr = ('127.0.0.1', self.port)
        self.tag = 0
        try:
            self.bp = rtmp.publisher(self.addr, 'by', 'bystander')
            self.bc = rtmp.player(self.addr, 'by', 'bystander')
        except (OSError, rtmp.Closed, rtmp.Timeout, rtmp.ProtoError) as e:
            self.ng.stop()
            raise Inconclusive('bystander: %r' % e)

    def teardown(self):
        for c in (self.bp, self.bc):
            c.close()
        self.ng.stop()

    def strategy(self):
        return st.lists(session, min_size=1, max_size=3)

    def bystander(self, what):
        self.tag += 1
        pay = media.aac(media.filler(self.tag, 300))
        try:
            self.bp.write(8, pay, csid=4, ts=self.tag & 0xffffff, msid=1)
            m = self.bc.wait(lambda m: m.type in (8, 9), self.patience)
            while m is not None and m.type == 8 and not m.payload:
                m = self.bc.wait(lambda m: m.type in (8, 9), self.patience)
            if m is not None:
                if m.payload != pay:
                    raise Violation('bystander player got %d bytes %s, not the frame its publisher sent (%s)' % (len(m.payload), m.payload[:12].hex(), what))
                if len(self.bc.msgs) > 500:
                    self.bc.msgs, self.bc.cursor = [], 0
                    self.bp.msgs, self.bp.cursor = [], 0
                return
            e = 'closed'
        except (OSError, rtmp.Closed, rtmp.Timeout, rtmp.ProtoError) as ex:
            e = repr(ex)
        self.died('bystander disturbed (%s): %s' % (what, e))

    def died(self, msg):
        for _ in range(40):
            cr = self.ng.crashes()
            if cr:
                raise Violation('server crashed: %s' % cr[0])
            time.sleep(0.05)
        raise Violation(msg)

    def encode(self, s, c):
        """the bytes of the session after the handshake"""
        out = bytearray()
        chunk = 128

        def msg(typ, pay, cs=3, ts=0, ms=0):
            for x in rtmp.chunk_encode(cs, ts, typ, ms, pay, chunk):
                out.extend(x)
        pre = s['pre']
        if pre != 'none':
            msg(20, amf.enc_all('connect', 1.0, {'app': s['app'], 'tcUrl': 'rtmp://127.0.0.1/' + s['app'], 'flashVer': 'x'}))
        if pre in ('create', 'publish', 'play'):
            msg(20, amf.enc_all('createStream', 2.0, None))
        if pre == 'publish':
            msg(20, amf.enc_all('publish', 0.0, None, s['name'], 'live'), 4, 0, 1)
        if pre == 'play':
            msg(20, amf.enc_all('play', 0.0, None, s['name'], -2000.0), 8, 0, 1)
        ts = 0
        for it in s['items']:
            k = it[0]
            if k == 'cmd':
                msg(it[1], (b'\0' if it[1] == 17 else b'') + amf.enc(it[2]) + b''.join(raw_amf(v) for v in it[3]), 3, 0, it[4])
            elif k == 'known':
                a = {'publish': (0.0, None, it[2], it[3]), 'play': (0.0, None, it[2], -2000.0, -1.0, True), 'connect': (1.0, {'app': it[2]}), 'pause': (0.0, None, True, 0.0),
                     'seek': (0.0, None, 1000.0), 'deleteStream': (0.0, None, 1.0)}.get(it[1], (3.0, None))
                msg(20, amf.enc_all(it[1], *a), 3, 0, it[4])
            elif k == 'data':
                msg(it[1], (b'\0' if it[1] == 15 else b'') + amf.enc(it[2]) + b''.join(raw_amf(v) for v in it[3]), 5, 0, it[4])
            elif k == 'av':
                ts = (ts + it[2]) & 0xffffffff
                msg(it[1][0], it[1][1], 6, ts, it[3])
            elif k == 'good':
                msg(9, media.avc_header(), 6, ts, 1)
                msg(8, media.aac_header(), 4, ts, 1)
                for i in range(it[1]):
                    ts = (ts + it[2]) & 0xffffffff
                    msg(9, media.video(i == 0, media.nalu(0x65 if i == 0 else 0x41, b'\x11' * 50)), 6, ts, 1)
                    msg(8, media.aac(b'\x21' * 20), 4, ts, 1)
            elif k == 'agg':
                msg(22, it[1], 6, it[2], it[3])
            elif k == 'ctl':
                msg(it[1][0], it[1][1], 2)
            elif k == 'mychunk':
                msg(1, struct.pack('>I', it[1]), 2)
                chunk = it[1]
            elif k == 'chunk':
                _, fmt, cs, tf, ml, ty, ms, d = it
                h = rtmp.msg_header(cs, fmt)
                if fmt <= 2:
                    h += tf.to_bytes(3, 'big')
                if fmt <= 1:
                    h += ml.to_bytes(3, 'big') + bytes([ty])
                if fmt == 0:
                    h += struct.pack('<I', ms)
                if fmt <= 2 and tf == 0xffffff:
                    h += b'\xff\0\0\1'
                out += h + d
            elif k == 'any':
                msg(it[1], it[2], 7, 0, it[3])
            elif k == 'raw':
                out += it[1]
        if s['usemut']:
            for pos, val, how in s['mut']:
                if not out:
                    break
                pos %= len(out)
                if how == 'set':
                    out[pos] = val
                elif how == 'del':
                    del out[pos:pos + 1 + val % 20]
                else:
                    out[pos:pos] = out[pos:pos + 1 + val % 50]
        return bytes(out)

    def run(self, case):
        labels = set()
        conns = []
        nt = False
        try:
            for s in case:
                try:
                    c = rtmp.Conn(self.addr)
                except OSError as e:
                    self.died('cannot connect: %r' % e)
                c.timeout = self.patience
                conns.append(c)
                hs = s['hs']
                try:
                    if hs in ('simple', 'digest0', 'digest1'):
                        c.handshake(hs)
                    elif hs == 'half':
                        c.send(b'\x03' + bytes(700))
                    elif hs == 'badver':
                        c.send(b'\x47' + bytes(1536))
                    elif hs == 'zeros':
                        c.send(b'\x03' + bytes(1536))
                        c.recv_exact(3073)
                        c.send(bytes(1536))
                    elif hs == 'c2junk':
                        c.send(b'\x03' + media.filler(3, 1536))
                        c.recv_exact(3073)
                        c.send(media.filler(9, 1536))
                    else:
                        c.send(b'\x03' + b'\xff' * 1500)
                        c.close(rst=True)
                        labels.add('hs cut')
                        continue
                except (OSError, rtmp.Closed, rtmp.Timeout) as e:
                    if hs in ('simple', 'digest0', 'digest1'):
                        self.died('a valid handshake (%s) was not answered: %r' % (hs, e))
                    labels.add('hs refused')
                    continue
                data = self.encode(s, c)
                labels.add('pre ' + s['pre'])
                nt = nt or bool(s['items']) and hs in ('simple', 'digest0', 'digest1')
                i = 0
                try:
                    for n in s['segs']:
                        if i >= len(data):
                            break
                        c.send(data[i:i + n])
                        i += n
                        self.bystander('during hostile session')
                    if i < len(data):
                        c.send(data[i:])
                except (OSError, rtmp.Closed):
                    labels.add('cut by server')
                if s['end'] != 'keep':
                    c.close(rst=s['end'] == 'rst')
                self.bystander('hostile input')
            for c in conns:
                c.close()
            self.bystander('after hostile input')
        finally:
            for c in conns:
                c.close()
        cr = self.ng.crashes()
        if cr:
            raise Violation('server crashed: %s' % cr[0])
        return nt, labels


if __name__ == '__main__':
    main(R08)
