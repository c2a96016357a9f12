"""R07: HTTP-FLV - every client gets a well-formed FLV whose tags are the published stream from its starting point."""
import os, struct, sys, time, json
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from hypothesis import strategies as st
from lib import ngx, rtmp, media, build, http, flv, amf
from lib.check import Prop, Violation, Inconclusive, main
from checks import r02_fanout

# name, app config, server config, location arguments, FLV header flags
VARIANTS = [
    ('default', '', '', '', 5),
    ('nokey', 'wait_key off;', 'chunk_size 128;', '', 5),
    ('waitvideo', 'wait_video on;', 'chunk_size 65536;', '', 5),
    ('interleave', 'interleave on;', 'chunk_size 1000; merge_frame 1;', '', 5),
    ('asan', 'wait_key off;', 'merge_frame 3;', '', 5),
    ('cache', 'cache_time 10m; send_all on;', '', '', 5),
    ('cacheasan', 'cache_time 10m; send_all on;', 'chunk_size 700;', '', 5),
    ('flags', '', 'merge_frame 64;', 'audio=0', 1),
    ('urlapp', 'wait_key off;', '', 'URL', 5),
    ('found', 'wait_key off;', '', 'URL audio=0 video=0', None),
]


class R07(r02_fanout.R02):
    id = 'R07'
    rule = ('a case is a publish history of up to 30 steps (audio, key and inter frames of 1 B - 20 KB, sequence headers that change, timestamps up to 2^32-1, metadata) with HTTP-FLV clients '
            '(HTTP/1.0 and 1.1, names with and without .flv, arguments) joining, leaving and stalling at any step, under 8 configurations with and without a GOP cache; the bytes received are parsed strictly '
            '(signature, header, tag types, sizes, back pointers, stream ids, chunked framing) and the tags judged as in R02. Non-trivial: a client got at least 3 media tags and joined late, stalled, saw a header '
            'change or was one of several')
    assumptions = ['the server names a client on its JSON page as soon as it has joined (used to fix the joining point)']
    quick_cases = 2200
    thorough_cases = 9000
    quick_budget = 35
    variants = VARIANTS

    def setup(self):
        self.name, app, srv, args, self.flags = self.variant
        self.app = 'flv' if args[:3] == 'URL' else 'live'
        self.wait_key = 'wait_key off' not in app
        self.wait_video = 'wait_video on' in app
        self.interleave = 'interleave on' in app
        self.cache = 'cache_time' in app
        self.smallq = False
        self.port, self.hp = ngx.free_port(), ngx.free_port()
        self.ng = ngx.Nginx(rtmp='server { listen 127.0.0.1:%d; ping 1h; timeout 1h; out_queue 4096; %s application live { live on; fix_timestamp 0; %s } application flv { live on; fix_timestamp 0; %s } }' % (self.port, srv, app, app),
                            http='server { listen 127.0.0.1:%d; location / { flv_live 127.0.0.1:%d %s; } location /sys { sys_stat; } }' % (self.hp, self.port, args[3:] if args[:3] == 'URL' else 'app=live ' + args),
                            flavour='asan' if 'asan' in self.name else 'plain', log_level='crit')
        self.ng.start([self.port, self.hp])
        self.n = 0
        self.addr, self.ha = ('127.0.0.1', self.port), ('127.0.0.1', self.hp)

    def strategy(self):
        size = st.one_of(st.integers(1, 60), st.integers(1, 20000),
                         st.builds(lambda b, k, d: max(1, b * k + d), st.sampled_from([128, 700, 1000, 4096]), st.integers(1, 3), st.integers(-7, 2)))
        dts = st.one_of(st.integers(0, 60), st.sampled_from([0, 0xfff0, 0xfffff0]))
        f = st.tuples(st.sampled_from(['audio', 'audio', 'key', 'inter', 'inter']), size, dts)
        h = st.tuples(st.sampled_from(['vhdr', 'ahdr']), st.integers(0, 200), dts)
        pl = st.tuples(st.sampled_from(['join', 'join', 'join', 'leave']), st.integers(0, 3), st.integers(0, 5))
        meta = st.tuples(st.just('meta'), st.integers(0, 3), st.just(0))
        stall = st.tuples(st.just('stall'), st.integers(0, 3), st.integers(1, 40))
        return st.fixed_dictionaries({
            'codec': st.sampled_from(['avc', 'avc', 'hevc', 'h263']),
            'join0': st.integers(0, 3),
            'long': st.sampled_from([0, 0, 0, 1, 40, 64, 100, 180]),
            'nope': st.sampled_from([None, None, None, 'fl', 'flvx', 'x', 'FLV', 'flv/a', 'f']),
            'hdr0': st.booleans(),
            'ts0': st.one_of(st.integers(0, 1000), st.sampled_from([0xfffff0, 0xffffff0])),
            'ops': st.lists(st.one_of(f, f, f, f, f, f, h, pl, meta, stall), min_size=1, max_size=30),
        })

    def clients(self, name):
        j = json.loads(http.get(self.ha, '/sys')[2].decode('latin-1'))
        for srv in j['live_stream']['server_array']:
            for x in srv['stream_array']:
                if x['name'].endswith('/' + name):
                    return x['flv_clients']
        return 0

    def complete(self, c, last):
        """the tag that holds the payload `last` has been received to its end"""
        if last not in c.raw[-400:]:
            return False
        try:
            r = c.body()
            return r is not None and any(pay == last for t, tts, pay in flv.parse(r[2])[1])
        except (http.Bad, flv.FlvError):
            return True         # judged below

    def run(self, case):
        self.n += 1
        name = 'x%d' % self.n + ('-' + 'n' * case['long'] if case['long'] else '')
        players, conns, sent = {}, [], []
        labels = {case['codec']}
        codec = case['codec']
        njoin = 0

        def vframe(key, body):
            fr = 0x10 if key else 0x20
            if codec == 'h263':
                return bytes([fr | 2]) + body
            return bytes([fr | (7 if codec == 'avc' else 12)]) + b'\x01\0\0\0' + body

        def aframe(body):
            return (b'\x2f' if codec == 'h263' else b'\xaf\x01') + body

        def put(kind, typ, pay):
            sent.append((kind, typ, ts, pay))
            pub.write(typ, pay, csid=4 if typ == 8 else 6, ts=ts, msid=1)

        try:
            if self.app == 'flv' and case['nope']:
                labels.add('unknown app')
                st_ = http.get(self.ha, '/%s/%s.flv' % (case['nope'], name))[0]
                if st_ != 404:
                    raise Violation('a request for a stream of application %r, which does not exist, is answered with %r' % (case['nope'], st_))
            pub = rtmp.publisher(self.addr, self.app, name, chunk=60000)
            conns.append(pub)
            ts = case['ts0']
            tag = 0

            def join(k, how=0):
                nonlocal njoin
                if k in players:
                    return
                if pub.user_ping(self.patience) is None:
                    raise rtmp.Closed('publisher closed by server')
                c = http.Stream(self.ha, ['/flv/%s', '/flv/%s.flv', '/flv/%s?a=b', '/flv/%s.flv?x' if self.app == 'flv' else '/flv/sub/%s.flv?x', '/flv/%s?flashver=z', '/flv/%s.flvx'][how] % name, version='1.0' if how == 2 else '1.1')
                conns.append(c)
                players[k] = {'c': c, 'start': len(sent), 'had': {x[1] for x in sent if not x[0].endswith('hdr')}}
                end = time.monotonic() + self.patience
                while self.clients(name) < len(players):
                    if time.monotonic() > end:
                        raise Violation('HTTP-FLV client was not joined to the stream: %r' % (c.raw[:200] if c.pump(0) else b''))
                    time.sleep(0.001)
                if sent:
                    labels.add('late join')

            for k in range(case['join0']):
                join(k)
            ops = list(case['ops'])
            if case['hdr0'] and codec != 'h263':
                ops = [('vhdr', 1, 0), ('ahdr', 1, 0)] + ops
            for op in ops:
                kind, a, b = op
                if kind == 'join':
                    join(a, b)
                elif kind == 'leave':
                    if a in players:
                        players.pop(a)['c'].close()
                        labels.add('leave')
                        end = time.monotonic() + self.patience
                        while self.clients(name) > len(players):
                            if time.monotonic() > end:
                                raise Violation('a client that closed its connection is still listed')
                            time.sleep(0.001)
                elif kind == 'meta':
                    v = amf.Ecma({'width': 640.0 + a, 'height': 360.0, 'encoder': 'x' * a})
                    pub.write(rtmp.AMF_META, amf.enc('@setDataFrame') + amf.enc('onMetaData') + amf.enc(v), csid=4, ts=ts, msid=1)
                    labels.add('metadata')
                elif kind == 'stall':
                    if a in players:
                        labels.add('stall')
                        for _ in range(b):
                            tag += 1
                            if tag % 3 == 0:
                                put('audio', 8, aframe(media.filler(tag, 20000)))
                            else:
                                put('inter', 9, vframe(False, media.filler(tag, 20000)))
                elif kind in ('vhdr', 'ahdr'):
                    if codec == 'h263':
                        continue
                    ts = min(ts + b, 0xfffffff0)
                    tag += 1
                    if any(s[0] == kind for s in sent):
                        labels.add('header change')
                    if kind == 'vhdr':
                        put(kind, 9, media.avc_header(pps=b'\x68' + media.filler(tag, 4 + a)) if codec == 'avc' else b'\x1c\0\0\0\0\x01' + bytes(21) + b'\0' + media.filler(tag, 4 + a))
                    else:
                        put(kind, 8, media.aac_header() + b'\x56\xe5' + media.filler(tag, a + 4))
                else:
                    ts = min(ts + b, 0xfffffff0)
                    tag += 1
                    body = media.filler(tag, max(a, 4))
                    put(kind, 8, aframe(body)) if kind == 'audio' else put(kind, 9, vframe(kind == 'key', body))
            # the last two frames are delivered to every client; they mark the end
            tag += 2
            put('key', 9, vframe(True, media.filler(tag, 50)))
            put('audio', 8, aframe(media.filler(tag + 1, 50)))
            last = sent[-1][3]
            if pub.user_ping(self.patience) is None:
                raise rtmp.Closed('publisher closed by server')
            for k in sorted(players):
                p = players[k]
                c = p['c']
                end = time.monotonic() + self.patience
                while not c.closed and time.monotonic() < end and not self.complete(c, last):
                    c.pump(end - time.monotonic())
        except http.Bad as e:
            raise self.broken(e)
        except rtmp.ProtoError as e:
            raise Violation('publisher was sent bytes that are not RTMP: %s' % e)
        except (OSError, rtmp.Closed, rtmp.Timeout) as e:
            raise self.broken(e)
        finally:
            for c in conns:
                c.close()
        cr = self.ng.crashes()
        if cr:
            raise Violation('server crashed: %s' % cr[0])
        best = 0
        for k, p in players.items():
            c = p['c']
            try:
                r = c.body()
                if r is None:
                    raise Violation('client %d got no response: %r' % (k, c.raw[:100]))
                status, hd, body, fin = r
                if status != 200 or hd.get('content-type') != 'video/x-flv' or hd.get('cache-control') != 'no-cache':
                    raise Violation('client %d: status %d, headers %r' % (k, status, hd))
                flags, tags, rest = flv.parse(body)
            except http.Bad as e:
                raise Violation('client %d: malformed chunked response: %s' % (k, e))
            except flv.FlvError as e:
                raise Violation('client %d: malformed FLV: %s' % (k, e))
            if self.flags is None:
                has = {8: 4, 9: 1}
                need, may = sum(has[x] for x in p['had']), sum(has[x] for x in {x[1] for x in sent})
                if flags & need != need or flags & ~may:
                    raise Violation('client %d: FLV header flags %r; frames published before it joined: %r, at all: %r' % (k, flags, need, may))
            elif flags != self.flags:
                raise Violation('client %d: FLV header flags %r, configured %d' % (k, flags, self.flags))
            for t, tts, pay in tags:
                if t == 18:
                    try:
                        v = amf.dec_all(pay)
                    except amf.AmfError as e:
                        raise Violation('client %d: script tag is not AMF: %s' % (k, e))
                    if v[0] != 'onMetaData' or not isinstance(v[1], dict):
                        raise Violation('client %d: script tag holds %r' % (k, v[:1]))
            p['msgs'] = [rtmp.Msg(t, tts, 1, pay) for t, tts, pay in tags if t != 18]
            best = max(best, len(p['msgs']))
            if self.cache:
                self.judge_cache(k, p, sent)
            else:
                self.judge(k, p, sent)
            self.judge_times(k, p, sent)
        if len(players) > 1:
            labels.add('several players')
        nt = best >= 3 and bool(labels & {'late join', 'header change', 'stall', 'several players'})
        return nt, labels

    def judge(self, k, p, sent):
        msgs = p['msgs']
        start = p['start']
        lossy = self.smallq
        # codec-header bookkeeping: payload -> index
        hdr = {'vhdr': set(), 'ahdr': set()}
        for s in sent:
            if s[0] in hdr:
                hdr[s[0]].add(s[3])
        lasthdr = {9: None, 8: None}
        i = start
        first_seen = {8: None, 9: None}
        delivered = set()
        any_video = False
        for m in msgs:
            if not m.payload and m.type == 8 and self.wait_video:
                continue       # the empty audio message that announces an audio track
            if m.type == 9:
                any_video = True
            elif self.wait_video and not any_video and m.payload not in hdr['ahdr']:
                raise Violation('client %d: audio (ts %d) delivered before any video although wait_video is on' % (k, m.ts))
            if m.payload in hdr['vhdr'] or m.payload in hdr['ahdr']:
                lasthdr[m.type] = m.payload
                continue
            j = i
            while j < len(sent) and not (sent[j][1] == m.type and sent[j][3] == m.payload):
                j += 1
            if j == len(sent):
                raise Violation('client %d: message type %d ts %d (%d bytes, %s..) is not the next part of the published '
                                'stream (after index %d)' % (k, m.type, m.ts, len(m.payload), m.payload[:10].hex(), i))
            if sent[j][2] != m.ts:
                raise Violation('client %d: frame %d was published with timestamp %d and delivered with %d' % (
                    k, j, sent[j][2], m.ts))
            if m.msid != 1:
                raise Violation('client %d: frame %d on message stream %d' % (k, j, m.msid))
            want = None
            for s in sent[:j]:
                if s[0] == ('vhdr' if m.type == 9 else 'ahdr'):
                    want = s[3]
            if want is not None and lasthdr[m.type] != want:
                raise Violation('client %d: frame %d was delivered without the codec header that was in force' % (k, j))
            if first_seen[m.type] is None:
                first_seen[m.type] = j
                if m.type == 9 and self.wait_key and sent[j][0] != 'key':
                    raise Violation('client %d: video starts with a non-key frame %d' % (k, j))
            delivered.add(j)
            i = j + 1
        if lossy:
            return
        # completeness: what must have been delivered
        vstart = None
        for j in range(start, len(sent)):
            if sent[j][0] == 'key' or (sent[j][0] == 'inter' and not self.wait_key):
                vstart = j
                break
        astart = start
        if (self.wait_video or (self.interleave and self.wait_key)):
            astart = vstart
        for j in range(start, len(sent)):
            kind = sent[j][0]
            if kind in ('key', 'inter'):
                need = vstart is not None and j >= vstart
            elif kind == 'audio':
                need = astart is not None and j >= astart
            else:
                continue
            if need and j not in delivered:
                raise Violation('client %d (joined at %d): %s frame %d (ts %d, %d bytes) was published and not delivered' % (
                    k, start, kind, j, sent[j][2], len(sent[j][3])))

    def judge_times(self, k, p, sent):
        """with non-decreasing published timestamps the delivered ones do not decrease either"""
        last = {8: -1, 9: -1}
        for m in p['msgs']:
            if not m.payload:
                continue
            if m.ts < last[m.type]:
                raise Violation('client %d: type %d tag with timestamp %d follows one with %d' % (k, m.type, m.ts, last[m.type]))
            last[m.type] = m.ts

    def judge_cache(self, k, p, sent):
        """with a GOP cache: whole stream in order from some key frame not later than the first one after the join, complete from there"""
        av = [(i, s) for i, s in enumerate(sent) if s[0] in ('audio', 'key', 'inter')]
        hdrs = {s[3] for s in sent if s[0] in ('vhdr', 'ahdr')}
        got = [m for m in p['msgs'] if m.payload not in hdrs]
        idx = {s[3]: i for i, s in av}
        # headers in force
        force = {8: None, 9: None}
        want = {}
        cur = {8: None, 9: None}
        for i, s in enumerate(sent):
            if s[0] in ('vhdr', 'ahdr'):
                cur[s[1]] = s[3]
            want[i] = cur[s[1]]
        prev = {8: -1, 9: -1}
        for m in p['msgs']:
            if m.payload in hdrs:
                force[m.type] = m.payload
                continue
            i = idx.get(m.payload)
            if i is None:
                raise Violation('client %d: a tag (type %d, ts %d, %d bytes) that was not published' % (k, m.type, m.ts, len(m.payload)))
            if i <= prev[m.type]:
                raise Violation('client %d: frame %d delivered after frame %d' % (k, i, prev[m.type]))
            if sent[i][2] != m.ts:
                raise Violation('client %d: frame %d published with timestamp %d, delivered with %d' % (k, i, sent[i][2], m.ts))
            if want[i] is not None and force[m.type] != want[i]:
                raise Violation('client %d: frame %d delivered without the codec header in force' % (k, i))
            prev[m.type] = i
        vid = [idx[m.payload] for m in got if m.type == 9]
        if not vid or sent[vid[0]][0] != 'key':
            raise Violation('client %d: video does not start with a key frame' % k)
        firstkey = next(i for i, s in av if s[0] == 'key' and i >= p['start'])
        if vid[0] > firstkey:
            raise Violation('client %d: video starts with frame %d, key frame %d came after the join' % (k, vid[0], firstkey))
        allv = [i for i, s in av if s[1] == 9 and i >= vid[0]]
        if vid != allv:
            raise Violation('client %d: video frames %r were not delivered' % (k, sorted(set(allv) - set(vid))[:5]))
        aud = [idx[m.payload] for m in got if m.type == 8]
        alla = [i for i, s in av if s[1] == 8 and i >= max(p['start'], vid[0])]
        miss = set(alla) - set(aud)
        if miss:
            raise Violation('client %d (joined at %d): audio frames %r were not delivered' % (k, p['start'], sorted(miss)[:5]))


if __name__ == '__main__':
    main(R07)
