"""R02: live fan-out over RTMP - every player gets exactly the published stream from its starting point."""
import os, struct, sys, time, socket
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from hypothesis import strategies as st
from lib import ngx, rtmp, media, build
from lib.check import Prop, Violation, Inconclusive, main

# (name, app config, server config, flags)
VARIANTS = [
    ('default', '', '', {}),
    ('nokey', 'wait_key off;', 'chunk_size 128;', {}),
    ('waitvideo', 'wait_video on;', 'chunk_size 65536; play_time_fix off;', {}),
    ('interleave', 'interleave on;', 'chunk_size 1000;', {}),
    ('asan', 'wait_key off; wait_video on;', '', {}),
    ('merge1', 'merge_frame 1;', 'chunk_size 500;', {}),
    ('smallq', '', 'out_queue 16;', {}),
    ('smallq2', 'wait_key on;', 'out_queue 12; chunk_size 4000;', {}),
    ('smallq3', 'wait_video on; sync 100ms;', 'out_queue 32;', {}),
    ('default2', 'send_all on;', 'chunk_size 5000;', {}),
]


def conf(v):
    name, app, srv, _ = v
    return app, srv


class R02(Prop):
    id = 'R02'
    rule = ('a case is a publish history of up to 40 steps: audio / key / inter video frames (1 B - 20 KB), AVC or AAC '
            'sequence headers that change in mid-stream, players joining, leaving, pausing and stalling at any step, codec families '
            'AVC+AAC, HEVC+AAC and header-less H.263+MP3, publishers that are replaced while players stay, under 10 server configurations (wait_key, wait_video, interleave, '
            'chunk sizes, merge_frame, small out_queue); oracle: see statement. Non-trivial: at least one player receives at '
            'least 3 media messages and at least one of: joined in mid-stream, header change, a pause, a stall, two or more players')
    assumptions = ['with a short output queue, completeness is only required of players whose unread backlog fits the socket buffers']
    quick_cases = 1500
    thorough_cases = 15000
    quick_budget = 60
    variants = VARIANTS
    workers = 10

    def prebuild(cls):
        build.modules('plain')
        build.modules('asan')

    def setup(self):
        self.name = self.variant[0]
        app, srv = conf(self.variant)
        self.wait_key = 'wait_key off' not in app
        self.wait_video = 'wait_video on' in app
        self.interleave = 'interleave on' in app
        self.smallq = 'smallq' in self.name
        self.sync = 100 if 'sync 100ms' in app else 300
        self.port = ngx.free_port()
        self.ng = ngx.Nginx(rtmp='server { listen 127.0.0.1:%d; ping 1h; timeout 1h; %s %s application live { live on; %s } }' % (
            self.port, '' if self.smallq else 'out_queue 4096;', srv, app),
            flavour='asan' if self.name == 'asan' else 'plain', log_level='crit')
        self.ng.start([self.port])
        self.n = 0
        self.addr = ('127.0.0.1', self.port)

    def teardown(self):
        self.ng.stop()

    def strategy(self):
        size = st.one_of(st.integers(1, 60), st.integers(1, 20000),
                         st.builds(lambda b, k, d: max(1, b * k + d), st.sampled_from([128, 500, 1000, 4096]),
                                   st.integers(1, 3), st.integers(-7, 2)))
        dts = st.one_of(st.integers(0, 60), st.sampled_from([0, 0xfffff0, 0x1000000, 0xffffffff]))
        f = st.tuples(st.sampled_from(['audio', 'audio', 'key', 'inter', 'inter']), size, dts)
        h = st.tuples(st.sampled_from(['vhdr', 'ahdr']), st.integers(0, 200), dts)
        pl = st.tuples(st.sampled_from(['join', 'join', 'leave']), st.integers(0, 3), st.just(0))
        stall = st.tuples(st.just('stall'), st.integers(0, 3), st.one_of(st.integers(1, 60), st.integers(1001, 1060), st.integers(100001, 100060)))
        repub = st.tuples(st.just('repub'), st.integers(0, 3), st.integers(0, 1))
        pause = st.tuples(st.sampled_from(['pause', 'pause', 'drain']), st.integers(0, 3), st.integers(0, 5000))
        return st.fixed_dictionaries({
            'codec': st.sampled_from(['avc', 'avc', 'hevc', 'h263']),
            'join0': st.integers(0, 3),
            'hdr0': st.booleans(),
            'ts0': st.one_of(st.integers(0, 1000), st.sampled_from([0xfffff0, 0xfffffff0])),
            'ops': st.builds(lambda x: [('join', 0, 0), ('key', 9, 0), ('key', 9, 0)] + x, st.lists(st.one_of(
                f, f, st.tuples(st.sampled_from(['inter', 'inter', 'key']), st.integers(1, 60), st.integers(0, 40)), h, pl,
                st.tuples(st.just('stall'), st.integers(0, 1), st.integers(100010, 100060)),
                st.tuples(st.just('drain'), st.integers(0, 1), st.just(0))), min_size=3, max_size=40)) if 'smallq' in self.variant[0] else st.lists(st.one_of(f, f, f, f, f, f, f, h, h, pl, stall, pause, repub), min_size=1, max_size=40),
        })

    def run(self, case):
        self.n += 1
        name = 'x%d' % self.n
        players = {}     # slot -> dict(conn, start index, stalled)
        closed = []
        sent = []        # (kind, type, ts, payload)
        labels = {case['codec']}
        codec = case['codec']
        conns = []

        def vframe(key, body):
            fr = 0x10 if key else 0x20
            if codec == 'h263':
                return bytes([fr | 2]) + body
            return bytes([fr | (7 if codec == 'avc' else 12)]) + b'\x01\0\0\0' + body

        def aframe(body):
            return (b'\x2f' if codec == 'h263' else b'\xaf\x01') + body

        def sync():
            if pub.user_ping() is None:
                raise rtmp.Closed('publisher closed by server')

        try:
            try:
                pub = rtmp.publisher(self.addr, 'live', name, chunk=60000)
                conns.append(pub)
            except (OSError, rtmp.Closed, rtmp.Timeout) as e:
                raise self.broken(e)
            ts = case['ts0']
            tag = 0
            pubs = [0]

            def join(k):
                if k in players:
                    return
                sync()
                c = rtmp.player(self.addr, 'live', name, rcvbuf=40000 if self.smallq else None)
                conns.append(c)
                players[k] = {'c': c, 'start': len(sent), 'seg': [len(sent)], 'paused': False, 'stalled': False}
                if sent:
                    labels.add('late join')

            def toggle(k):
                p = players[k]
                p['paused'] = not p['paused']
                p['c'].cmd('pause', 0.0, None, p['paused'], 1000.0, msid=1)
                if p['c'].user_ping() is None:
                    raise rtmp.Closed('player closed by server')
                p['seg'].append(len(sent))
                labels.add('pause' if p['paused'] else 'resume')

            for k in range(case['join0']):
                join(k)
            ops = list(case['ops'])
            if case['hdr0'] and codec != 'h263':
                ops = [('vhdr', 1, 0), ('ahdr', 1, 0)] + ops
            for op in ops:
                kind, a, b = op
                if kind == 'join':
                    join(a)
                elif kind == 'leave':
                    if a in players:
                        players[a]['c'].close()
                        del players[a]
                        labels.add('leave')
                elif kind == 'drain' or kind == 'pause' and self.smallq:
                    if self.smallq and a in players:
                        sync()
                        players[a]['stalled'] = False
                        try:
                            while players[a]['c'].next(timeout=0.02) is not None:
                                pass
                        except (rtmp.Timeout, rtmp.Closed):
                            labels.add('drain')
                elif kind == 'repub':
                    # the publisher leaves and another comes, players stay
                    if pubs[-1] == len(sent):
                        continue
                    pub.cmd('deleteStream', 0.0, None, 1.0)
                    sync()
                    pub.close()
                    if b and a in players and players[a]['paused']:
                        toggle(a)
                        labels.add('resume without publisher')
                    pub = rtmp.publisher(self.addr, 'live', name, chunk=60000)
                    conns.append(pub)
                    pubs.append(len(sent))
                    for p in players.values():
                        if not p['paused']:
                            p['seg'] += [len(sent), len(sent)]
                    labels.add('published again')
                elif kind == 'pause':
                    if a in players:
                        sync()
                        toggle(a)
                elif kind == 'stall':
                    if a in players and not players[a]['stalled']:
                        players[a]['stalled'] = True
                        labels.add('stall')
                        for _ in range(b % 1000):
                            tag += 1
                            ts = (ts + b // 5000) & 0xffffffff      # 0 or 20 ms
                            pay = aframe(media.filler(tag, 20000)) if tag % 3 == 0 else vframe(False, media.filler(tag, 20000))
                            typ = 8 if tag % 3 == 0 else 9
                            sent.append(('audio' if typ == 8 else 'inter', typ, ts, pay))
                            pub.write(typ, pay, csid=6, ts=ts, msid=1)
                elif kind in ('vhdr', 'ahdr'):
                    if codec == 'h263':
                        continue
                    ts = (ts + b) & 0xffffffff
                    tag += 1
                    if any(s[0] == kind for s in sent[pubs[-1]:]):
                        labels.add('header change')
                    if kind == 'vhdr':
                        if codec == 'avc':
                            pay = media.avc_header(pps=b'\x68' + media.filler(tag, 4 + a))
                        else:
                            pay = b'\x1c\0\0\0\0\x01' + bytes(21) + b'\0' + media.filler(tag, 4 + a)
                        sent.append((kind, 9, ts, pay))
                        pub.write(9, pay, csid=6, ts=ts, msid=1)
                    else:
                        pay = media.aac_header() + b'\x56\xe5' + media.filler(tag, a + 4)
                        sent.append((kind, 8, ts, pay))
                        pub.write(8, pay, csid=4, ts=ts, msid=1)
                else:
                    ts = (ts + b) & 0xffffffff
                    tag += 1
                    body = media.filler(tag, max(a, 4))
                    pay = aframe(body) if kind == 'audio' else vframe(kind == 'key', body)
                    typ = 8 if kind == 'audio' else 9
                    sent.append((kind, typ, ts, pay))
                    pub.write(typ, pay, csid=4 if typ == 8 else 6, ts=ts, msid=1)
            # end marker: a data message is not relayed in order with media for sure, so close the stream instead
            sync()
            for k in sorted(players):
                p = players[k]
                c = p['c']
                # everything the server queued for this player precedes the reply to this ping
                end = time.time() + self.patience
                while 1:
                    try:
                        p['ok'] = c.user_ping(timeout=0.4 if self.smallq else self.patience)
                        break
                    except rtmp.Timeout:       # with a full queue even the answer to a ping is dropped
                        if time.time() > end:
                            raise
                p['msgs'] = [m for m in c.msgs if m.type in (8, 9)]
        except rtmp.ProtoError as e:
            raise Violation('player was sent bytes that are not RTMP: %s' % e)
        except (OSError, rtmp.Closed, rtmp.Timeout) as e:
            raise self.broken(e)
        finally:
            for c in conns:
                c.close()
        cr = self.ng.crashes()
        if cr:
            raise Violation('server crashed: %s' % cr[0])
        best = 0
        for k, p in players.items():
            if p['ok'] is None and not (self.smallq and self.backlog(p, sent)):
                raise Violation('player %d was disconnected while the publisher was up' % k)
            best = max(best, len(p['msgs']))
            self.judge(k, p, sent, pubs, labels)
        if len(players) > 1:
            labels.add('several players')
        nt = best >= 3 and bool(labels & {'late join', 'header change', 'stall', 'pause', 'published again', 'several players'})
        return nt, labels

    def backlog(self, p, sent):
        # players read only at the end, which may fill the socket buffers and thus the short queue; and frames that arrive
        # together are queued together, before any is written: two queued messages already cost the third its place
        return len(sent) > p['start']

    def broken(self, e):
        cr = self.ng.crashes()
        if cr:
            return Violation('server crashed: %s' % cr[0])
        return Violation('session broke: %r' % e)

    def judge(self, k, p, sent, pubs, labels):
        msgs = p['msgs']
        lossy = self.smallq and self.backlog(p, sent)
        # the parts of the stream the player is owed: from a join or resume to a pause
        seg = p['seg'] + ([] if p['paused'] else [len(sent)])
        parts = [(seg[x], seg[x + 1]) for x in range(0, len(seg) - 1, 2)]
        part = -1
        # codec-header bookkeeping: payload -> index
        hdr = {}
        for x, s in enumerate(sent):
            if s[0] in ('vhdr', 'ahdr'):
                hdr[s[3]] = x
        lasthdr = {9: None, 8: None}
        hdrs = {9: [], 8: []}
        i = p['start']
        last = {}
        first = {}              # (part, type) -> index
        delivered = set()
        any_video = False
        for m in msgs:
            if not m.payload and m.type == 8 and self.wait_video:
                continue       # the empty audio message that announces an audio track
            if m.payload in hdr:
                x = hdr[m.payload]
                if sent[x][1] != m.type:
                    raise Violation('player %d: codec header %d delivered as message type %d' % (k, x, m.type))
                if m.msid != 1:
                    raise Violation('player %d: codec header %d on message stream %d' % (k, x, m.msid))
                if hdrs[m.type] and x < hdrs[m.type][-1]:
                    raise Violation('player %d: codec header %d delivered after codec header %d' % (k, x, hdrs[m.type][-1]))
                if not lossy and len(hdrs[m.type]) - len(set(hdrs[m.type])) + (x in hdrs[m.type]) > len(parts) - 1:
                    raise Violation('player %d: codec header %d delivered more than once' % (k, x))
                hdrs[m.type].append(x)
                lasthdr[m.type] = m.payload
                if m.type == 9:
                    any_video = True
                continue
            j = i
            while j < len(sent) and not (sent[j][1] == m.type and sent[j][3] == m.payload):
                j += 1
            if j == len(sent):
                raise Violation('player %d: message type %d ts %d (%d bytes, %s..) is not the next part of the published '
                                'stream (after index %d)' % (k, m.type, m.ts, len(m.payload), m.payload[:10].hex(), i))
            q = next((x for x, (u, v) in enumerate(parts) if u <= j < v), None)
            if q is None:
                raise Violation('player %d: frame %d was delivered while the player was paused (%r)' % (k, j, parts))
            if q != part:
                part = q
                any_video = m.type == 9 or (hdrs[9] != [] and parts[q][0] == p['start'] and any_video)
            if m.type == 9:
                any_video = True
            elif self.wait_video and not any_video and (q, 9) not in first:
                raise Violation('player %d: audio (ts %d) delivered before any video although wait_video is on' % (k, m.ts))
            if sent[j][2] != m.ts:
                raise Violation('player %d: frame %d was published with timestamp %d and delivered with %d' % (
                    k, j, sent[j][2], m.ts))
            if m.msid != 1:
                raise Violation('player %d: frame %d on message stream %d' % (k, j, m.msid))
            want = None
            for s in sent[max(x for x in pubs if x <= j):j]:
                if s[0] == ('vhdr' if m.type == 9 else 'ahdr'):
                    want = s[3]
            if want is not None and lasthdr[m.type] != want:
                raise Violation('player %d: frame %d was delivered without the codec header that was in force' % (k, j))
            if (q, m.type) not in first:
                first[q, m.type] = j
                if m.type == 9 and self.wait_key and sent[j][0] != 'key':
                    raise Violation('player %d: video starts with a non-key frame %d' % (k, j))
            elif m.type == 9 and self.wait_key and lossy:
                # more than sync (300 ms by default) of video dropped: the player waits for a key frame
                gone, before = 0, None
                for x in range(last[9], j):
                    if sent[x][1] == 9:
                        if before is not None and sent[x][0] in ('key', 'inter'):
                            d = (sent[x][2] - before) & 0xffffffff
                            gone += d if d < 1 << 31 else -(1 << 60)
                        before = sent[x][2]
                if gone > self.sync:
                    labels.add('sync')
                if gone > self.sync and sent[j][0] != 'key':
                    raise Violation('player %d: %d ms of video were dropped before frame %d, which is no key frame' % (k, gone, j))
            last[m.type] = j
            delivered.add(j)
            i = j + 1
        if lossy:
            if p['ok'] is not None and last and len(delivered) < max(last.values()) - p['start']:
                labels.add('frames dropped')
            return
        # completeness: what must have been delivered
        for start, end in parts:
            vstart = None
            for j in range(start, end):
                if sent[j][0] == 'key' or (sent[j][0] == 'inter' and not self.wait_key):
                    vstart = j
                    break
            astart = start
            if (self.wait_video or (self.interleave and self.wait_key)):
                astart = vstart
            for j in range(start, end):
                kind = sent[j][0]
                if kind in ('key', 'inter'):
                    need = vstart is not None and j >= vstart
                elif kind == 'audio':
                    need = astart is not None and j >= astart
                else:
                    continue
                if need and j not in delivered:
                    raise Violation('player %d (joined at %d): %s frame %d (ts %d, %d bytes) was published and not delivered' % (
                        k, start, kind, j, sent[j][2], len(sent[j][3])))


if __name__ == '__main__':
    main(R02)
