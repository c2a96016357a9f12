"""R05: GOP cache - a late joiner gets the codec headers, the cached tail from a key frame on, then the live stream."""
import os, struct, sys, time, json
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from hypothesis import strategies as st
from lib import ngx, rtmp, media, build, http, flv, amf
from lib.check import Prop, Violation, Inconclusive, main

# name, cache time (ms), app config, server config
VARIANTS = [
    ('all', 1000, 'send_all on; fix_timestamp 0;', ''),
    ('long', 600000, 'send_all on; fix_timestamp 0;', 'chunk_size 128;'),
    ('short', 200, 'send_all on;', 'merge_frame 1;'),
    ('part', 1000, 'fix_timestamp 0;', ''),
    ('asan', 500, 'send_all on; wait_video on;', 'chunk_size 700;'),
    ('lowlat', 300, 'low_latency on;', ''),
    ('asan2', 100, 'fix_timestamp 0; send_all on;', 'out_queue 24;'),
    ('zero', 1000, 'send_all on; zero_start on;', ''),
]


class R05(Prop):
    id = 'R05'
    rule = ('a case is a publish history of up to 40 frames (audio, key and inter frames, sequence headers that change) with RTMP and HTTP-FLV players joining and leaving at any step and the publication ending and '
            'starting again, under 8 configurations of cache time, send_all, timestamps and queue length; each player\'s frames must be one contiguous run of the current publication from the cached start on. '
            'Non-trivial: a player joined after at least one key frame was published and received frames')
    assumptions = ['without send_all a player may stay behind by what was cached when it joined, and is moved on to a key frame when the cache drops what it has not got', 'publishers send non-decreasing timestamps with steps under 10 s',
                   'with a cache of 24 frames the starting point may be any key frame; a GOP that does not fit must still reach the players that are there']
    quick_cases = 1800
    thorough_cases = 9000
    quick_budget = 35
    variants = VARIANTS
    patience = 5

    def prebuild(cls):
        build.modules('plain')
        build.modules('asan')

    def setup(self):
        self.name, self.ctime, app, srv = self.variant
        self.all = 'send_all on' in app
        self.exact = 'fix_timestamp 0' in app
        self.low = 'low_latency' in app
        self.small = 'out_queue' in srv
        if not self.small:
            srv += ' out_queue 4096;'
        self.port, self.hp = ngx.free_port(), ngx.free_port()
        self.ng = ngx.Nginx(rtmp='server { listen 127.0.0.1:%d; ping 1h; timeout 1h; %s application live { live on; cache_time %dms; %s } }' % (self.port, srv, self.ctime, app),
                            http='server { listen 127.0.0.1:%d; location /flv { flv_live 127.0.0.1:%d app=live; } location /sys { sys_stat; } }' % (self.hp, self.port),
                            flavour='asan' if 'asan' in self.name else 'plain', log_level='crit')
        self.ng.start([self.port, self.hp])
        self.n = 0
        self.addr, self.ha = ('127.0.0.1', self.port), ('127.0.0.1', self.hp)

    def teardown(self):
        self.ng.stop()

    def strategy(self):
        size = st.one_of(st.integers(4, 60), st.integers(4, 5000))
        dts = st.one_of(st.integers(0, 60), st.integers(0, 60), st.sampled_from([0, 99, 100, 101, 199, 200, 300, 500, 999, 1000, 1001, 2500]))
        f = st.tuples(st.sampled_from(['audio', 'audio', 'key', 'key', 'inter', 'inter', 'inter']), size, dts)
        h = st.tuples(st.sampled_from(['vhdr', 'ahdr']), st.integers(0, 20), dts)
        pl = st.tuples(st.sampled_from(['join', 'join', 'join', 'flv', 'flv', 'leave', 'meta', 'again']), st.integers(0, 3), st.just(0))
        return st.fixed_dictionaries({
            'codec': st.sampled_from(['avc', 'avc', 'hevc', 'h263']),
            'hdr0': st.booleans(),
            'ts0': st.sampled_from([0, 0, 1, 77, 100000, 0xfff000]),
            'ops': st.lists(st.one_of(f, f, f, f, f, f, f, h, pl, pl, st.tuples(st.just('gops'), st.integers(2, 9), st.sampled_from([7, 30, 100, 200, 333, 450])), st.tuples(st.just('burst'), st.integers(8, 26), st.integers(0, 4))), min_size=6, max_size=60),
        })

    def stat(self, name):
        j = json.loads(http.get(self.ha, '/sys')[2].decode('latin-1'))
        for srv in j['live_stream']['server_array']:
            for x in srv['stream_array']:
                if x['name'].endswith('/' + name):
                    return x['flv_clients'], sum(c['publishing'] for c in x['client_array'])
        return 0, 0

    def wait_stat(self, name, i, n, what):
        end = time.monotonic() + self.patience
        while self.stat(name)[i] != n:
            if time.monotonic() > end:
                raise Violation(what)
            time.sleep(0.001)

    def run(self, case):
        self.n += 1
        name = 'x%d' % self.n
        codec = case['codec']
        labels = {codec}
        conns, players, done = [], {}, []
        pubs = [[]]           # per publication: list of (kind, type, ts, payload)
        tag = self.n << 8

        def vframe(key, body):
            fr = 0x10 if key else 0x20
            if codec == 'h263':
                return bytes([fr | 2]) + body
            return bytes([fr | (7 if codec == 'avc' else 12)]) + b'\x01\0\0\0' + body

        def aframe(body):
            return (b'\x2f' if codec == 'h263' else b'\xaf\x01') + body

        def put(kind, typ, pay):
            pubs[-1].append((kind, typ, ts, pay))
            pub.write(typ, pay, csid=4 if typ == 8 else 6, ts=ts, msid=pub.msid)
            if self.small:
                sync()

        def sync():
            if pub.user_ping(self.patience) is None:
                raise rtmp.Closed('publisher closed by server')

        def header(kind, a):
            if kind == 'vhdr':
                put(kind, 9, media.avc_header(pps=b'\x68' + media.filler(tag, 4 + a)) if codec == 'avc' else b'\x1c\0\0\0\0\x01' + bytes(21) + b'\0' + media.filler(tag, 4 + a))
            else:
                put(kind, 8, media.aac_header() + b'\x56\xe5' + media.filler(tag, a + 4))

        try:
            pub = rtmp.publisher(self.addr, 'live', name, chunk=60000)
            conns.append(pub)
            ts = case['ts0']
            if case['hdr0'] and codec != 'h263':
                tag += 2
                header('vhdr', 1)
                header('ahdr', 1)
            for kind, a, b in case['ops']:
                if kind in ('join', 'flv'):
                    if a in players:
                        continue
                    sync()
                    p = {'kind': kind, 'join': (len(pubs) - 1, len(pubs[-1])), 'parts': []}
                    if kind == 'join':
                        p['c'] = rtmp.player(self.addr, 'live', name)
                    else:
                        p['c'] = http.Stream(self.ha, '/flv/%s' % name)
                        self.wait_stat(name, 0, 1 + sum(x['kind'] == 'flv' for x in players.values()), 'HTTP-FLV client was not joined')
                        labels.add('flv')
                    conns.append(p['c'])
                    players[a] = p
                elif kind == 'leave':
                    if a in players:
                        p = players.pop(a)
                        sync()
                        p['c'].close()
                        if p['kind'] == 'flv':
                            self.wait_stat(name, 0, sum(x['kind'] == 'flv' for x in players.values()), 'HTTP-FLV client still listed after closing')
                elif kind == 'meta':
                    v = amf.Ecma({'width': 640.0 + len(pubs[-1]), 'height': 360.0})
                    pub.write(rtmp.AMF_META, amf.enc('@setDataFrame') + amf.enc('onMetaData') + amf.enc(v), csid=4, ts=ts, msid=pub.msid)
                elif kind == 'again':
                    sync()
                    pub.close()
                    labels.add('republish')
                    if players:
                        labels.add('stayed')
                        self.wait_stat(name, 1, 0, 'publisher still listed after closing')
                    end = time.monotonic() + self.patience
                    while True:
                        try:
                            pub = rtmp.publisher(self.addr, 'live', name, chunk=60000)
                            break
                        except rtmp.ProtoError:
                            if time.monotonic() > end:
                                raise Violation('name cannot be published again after the publisher left')
                            time.sleep(0.005)
                    conns.append(pub)
                    pubs.append([])
                    ts = case['ts0']
                elif kind in ('vhdr', 'ahdr'):
                    if codec == 'h263':
                        continue
                    ts += b
                    tag += 1
                    if any(s[0] == kind for s in pubs[-1]):
                        labels.add('header change')
                    header(kind, a)
                elif kind == 'gops':
                    labels.add('short GOPs')
                    for i in range(3 * a):
                        ts += b
                        tag += 1
                        body = media.filler(tag, 30 + i)
                        put('audio', 8, aframe(body)) if i % 3 == 1 else put('key' if i % 3 == 0 else 'inter', 9, vframe(i % 3 == 0, body))
                elif kind == 'burst':
                    labels.add('burst')
                    for i in range(a):
                        ts += b
                        tag += 1
                        body = media.filler(tag, 30 + i)
                        put('audio', 8, aframe(body)) if i % 3 == 1 else put('inter', 9, vframe(False, body))
                else:
                    ts += b
                    tag += 1
                    body = media.filler(tag, a)
                    put(kind, 8, aframe(body)) if kind == 'audio' else put(kind, 9, vframe(kind == 'key', body))
            sync()
            for p in players.values():
                c = p['c']
                if p['kind'] == 'join':
                    if c.user_ping(self.patience) is None:
                        raise Violation('a player was disconnected while the publisher was up')
                    p['msgs'] = [(m.type, m.ts, m.payload) for m in c.msgs if m.type in (8, 9)]
                else:
                    # no round trip on HTTP: wait until the last frame is there, or (staying behind) nothing more comes
                    can = self.must(p, pubs, len(pubs) - 1)[0]
                    last = pubs[-1][can[-1]][3][-40:] if can else b'\0' * 41
                    end = time.monotonic() + (self.patience if self.all and not self.small and self.expects(p, pubs) else 0.03)
                    while not c.closed and time.monotonic() < end and last not in c.raw[-1200 - len(last):-4]:
                        c.pump(end - time.monotonic())
                    r = c.body()
                    if r is None or not r[2]:
                        p['msgs'] = []
                    else:
                        p['msgs'] = [t for t in flv.parse(r[2])[1] if t[0] != 18]
        except (http.Bad, flv.FlvError) as e:
            raise Violation('HTTP-FLV response is malformed: %s' % e)
        except rtmp.ProtoError as e:
            raise Violation('bytes that are not RTMP: %s' % e)
        except (OSError, rtmp.Closed, rtmp.Timeout) as e:
            cr = self.ng.crashes()
            raise Violation('server crashed: %s' % cr[0] if cr else 'session broke: %r' % e)
        finally:
            for c in conns:
                c.close()
        cr = self.ng.crashes()
        if cr:
            raise Violation('server crashed: %s' % cr[0])
        nt = False
        for k in sorted(players):
            p = players[k]
            nt |= self.judge(k, p, pubs)
        return nt, labels

    def expects(self, p, pubs):
        """frames the last publication must bring to this player"""
        return self.must(p, pubs, len(pubs) - 1)[1]

    def must(self, p, pubs, n):
        """(indices of cacheable frames of publication n, index from which this player must have them, or None)"""
        sent = pubs[n]
        can, key = [], False
        for i, s in enumerate(sent):
            if s[0] == 'key':
                key = True
            if s[0] in ('audio', 'key') or (s[0] == 'inter' and key):
                can.append(i)
        j = p['join'][1] if p['join'][0] == n else 0
        # frames at or after j prove that the player takes part (the first one only wakes it up)
        trig = [i for i in range(j, len(sent)) if sent[i][0] in ('audio', 'key', 'inter', 'vhdr', 'ahdr')]
        if len(trig) < 2 or not can or can[-1] < trig[1]:
            return can, None
        return can, can[0]

    def judge(self, k, p, pubs):
        who = 'player %d (%s, joined publication %d at frame %d)' % (k, 'HTTP-FLV' if p['kind'] == 'flv' else 'RTMP', p['join'][0], p['join'][1])
        where, hdrs = {}, {}
        for n, sent in enumerate(pubs):
            for i, s in enumerate(sent):
                (hdrs if s[0] in ('vhdr', 'ahdr') else where)[s[3]] = (n, i)
        got = [[] for _ in pubs]
        force = {8: None, 9: None}
        cur = 0
        seen = False
        times = {}
        for t, ts, pay in p['msgs']:
            if not pay:
                continue
            if pay in hdrs:
                n, i = hdrs[pay]
                if n < p['join'][0]:
                    raise Violation('%s: was sent a codec header of earlier publication %d' % (who, n))
                force[t] = pay
                continue
            if pay not in where:
                raise Violation('%s: was sent a message (type %d, ts %d, %d bytes) that was not published' % (who, t, ts, len(pay)))
            n, i = where[pay]
            s = pubs[n][i]
            if n < cur or n < p['join'][0]:
                raise Violation('%s: was sent frame %d of publication %d after publication %d began' % (who, i, n, max(cur, p['join'][0])))
            cur = n
            if got[n] and i <= got[n][-1]:
                raise Violation('%s: frame %d of publication %d came after frame %d' % (who, i, n, got[n][-1]))
            want = None
            for x in pubs[n][:i]:
                if x[0] in ('vhdr', 'ahdr') and x[1] == s[1]:
                    want = x[3]
            if want is not None and force[s[1]] != want:
                raise Violation('%s: frame %d of publication %d came without the codec header in force' % (who, i, n))
            if self.exact:
                if ts != s[2]:
                    raise Violation('%s: frame %d of publication %d was published at %d and delivered at %d' % (who, i, n, s[2], ts))
            else:
                times.setdefault((n, t), []).append((i, s[2], ts))
            got[n].append(i)
        for (n, t), l in times.items():
            if True:
                for (i, a, b), (i2, a2, b2) in zip(l, l[1:]):
                    if a2 - a != b2 - b:
                        raise Violation('%s: frames %d and %d were published %d ms apart and delivered %d ms apart' % (who, i, i2, a2 - a, b2 - b))
        for n, sent in enumerate(pubs):
            g = got[n]
            can, must = self.must(p, pubs, n)
            if not g:
                if must is not None and n >= p['join'][0] and not self.small and n == len(pubs) - 1:
                    raise Violation('%s: nothing of publication %d was delivered (%d frames published)' % (who, n, len(can)))
                continue
            # contiguous
            run = [i for i in can if g[0] <= i <= g[-1]]
            skip = sorted(set(run) - set(g))
            if not self.all:
                # a player that is behind is moved on when the cache drops what it has not got: to a key frame, or to later audio if there was none
                nk = next((i for i in can if sent[i][0] == 'key'), len(sent))
                ok = [i for i in skip if sent[next(x for x in g if x > i)][0] == 'key' or i < nk]
                skip = [i for i in skip if i not in ok]
            if self.small and p['join'][0] == n and p['join'][1] > 12:
                # the cache may not fit the player's own queue when it joins; it then starts anew, at the latest with the next key frame
                nk = next((i for i in can if i > p['join'][1] + 2 and sent[i][0] == 'key'), len(sent))
                skip = [i for i in skip if i >= nk]
            if skip:
                raise Violation('%s: publication %d: frames %r were skipped' % (who, n, skip[:6]))
            vid = [i for i in g if sent[i][1] == 9]
            if vid and sent[vid[0]][0] != 'key':
                raise Violation('%s: publication %d: video starts with frame %d, which is no key frame' % (who, n, vid[0]))
            # starting point
            j = p['join'][1] if p['join'][0] == n else 0
            trig = [i for i in range(j, len(sent))][:2]
            # the first frame wakes the player, the second one serves it; until then the cache may drop what is too old
            t2 = sent[trig[-1]][2] if trig else 0
            first = next((i for i in can if i >= j and sent[i][2] + self.ctime >= t2), None)
            keys = [i for i in range(min(j, len(sent))) if sent[i][0] == 'key']
            if keys and not self.small and not self.low:
                # only what was cached by the time of the join counts; frames after the join may evict until the player is served
                lastv = max((sent[i][2] for i in range(min(j + 2, len(sent))) if sent[i][1] == 9), default=0)
                old = [i for i in keys if sent[i][2] <= lastv - self.ctime]
                bound = old[-1] if old else keys[0]
                if g[0] > bound:
                    raise Violation('%s: starts at frame %d; key frame %d was less than %d ms old' % (who, g[0], bound, self.ctime) if old else '%s: starts at frame %d although key frame %d starts the cache' % (who, g[0], bound))
            elif first is not None and g[0] > first and not self.small and not self.low:
                raise Violation('%s: starts at frame %d, frame %d came first after the join' % (who, g[0], first))
            if p['join'][0] == n and not self.small:
                # not more than what is needed for cache_time: a GOP goes when the one after it is as old
                ks, gone = [], False
                for i in range(min(j, len(sent))):
                    if sent[i][0] == 'key':
                        ks.append(i)
                    if sent[i][1] == 9 and len(ks) > 1 and (sent[i][2] - sent[ks[1]][2]) & 0xffffffff >= self.ctime:
                        ks.pop(0)
                        gone = True
                if gone and g[0] < ks[0]:
                    raise Violation('%s: starts at frame %d, which is more than the %d ms of the cache before the join: it held frame %d on' % (who, g[0], self.ctime, ks[0]))
            # end
            if n == len(pubs) - 1 and not (self.small and (p['kind'] == 'flv' or j > 12)):      # with more cached the player's own queue may overflow when it joins
                tail = [i for i in can if i > g[-1]]
                if self.all and tail:
                    raise Violation('%s: the last %d frames of the stream were not delivered' % (who, len(tail)))
                behind = j + 2     # headers take a place in the cache too
                if len(tail) > behind:
                    raise Violation('%s: is %d frames behind, only %d were cached when it joined' % (who, len(tail), behind))
        return bool(p['msgs']) and any(s[0] == 'key' for s in pubs[p['join'][0]][:p['join'][1]])


if __name__ == '__main__':
    main(R05)
