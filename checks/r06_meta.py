"""R06: stream metadata as configured - unchanged, rebuilt, or none - against a per-player version model."""
import os, struct, sys, time
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from hypothesis import strategies as st
from lib import ngx, rtmp, media, build, http, amf, flv
from lib.check import Prop, Violation, Inconclusive, main

MODES = ('on', 'copy', 'off')
REBUILT = ('width', 'height', 'displayWidth', 'displayHeight', 'duration', 'framerate', 'fps', 'videodatarate', 'videocodecid')


class R06(Prop):
    id = 'R06'
    rule = ('a case is a history of metadata messages (wrapped in @setDataFrame, with or without the name string, or plain onMetaData; AMF0 or AMF3 data messages; objects or arrays with known, unknown and '
            'nested fields; split over drawn chunk sizes), audio and video frames, joining and leaving RTMP and HTTP-FLV players and a new publication, under one of meta on, copy and off with and without a '
            'GOP cache; each player\'s sequence is compared with the model. Non-trivial: a player got metadata, or none because of meta off, and there were two metadata messages or a late join')
    assumptions = ['metadata numbers are whole and between 0 and 2^31 except the frame rate', 'audio fields, profile and level of rebuilt metadata are not judged']
    quick_cases = 1500
    thorough_cases = 12000
    quick_budget = 45
    patience = 5

    def prebuild(cls):
        build.modules('asan')
        build.modules('plain')

    def setup(self):
        self.port, self.hp = ngx.free_port(), ngx.free_port()
        apps = ''.join('application %s%s { live on; fix_timestamp 0; wait_key off; meta %s; %s }' % (g, m, m, 'cache_time 30s; low_latency off;' if g else '') for m in MODES for g in ('', 'g'))
        locs = ''.join('location /%s%s { flv_live 127.0.0.1:%d app=%s%s; }' % (g, m, self.port, g, m) for m in MODES for g in ('', 'g'))
        self.ng = ngx.Nginx(rtmp='server { listen 127.0.0.1:%d; ping 1h; timeout 1h; out_queue 4096; %s }' % (self.port, apps),
                            http='server { listen 127.0.0.1:%d; %s location /sys { sys_stat; } }' % (self.hp, locs),
                            flavour='asan' if self.widx % 4 == 3 else 'plain', log_level='crit')
        self.ng.start([self.port, self.hp])
        self.addr, self.ha = ('127.0.0.1', self.port), ('127.0.0.1', self.hp)
        self.n = 0

    def teardown(self):
        self.ng.stop()

    def strategy(self):
        num = st.one_of(st.integers(0, 4096), st.sampled_from([0, 1, 2 ** 31 - 1, 65536, 7, 12]))
        known = {k: num for k in ('width', 'height', 'duration', 'videodatarate')}
        known['framerate'] = st.sampled_from([25.0, 29.97, 0.5, 60.0])
        known['fps'] = known['framerate']
        known['videocodecid'] = st.one_of(st.sampled_from([2, 4, 7, 12]), st.sampled_from(['avc1', 'x' * 60]))
        simple = st.one_of(num.map(float), st.booleans(), st.none(), st.text(max_size=8), st.sampled_from(['y' * 200, 'z' * 1500]))
        junk = st.one_of(simple, st.dictionaries(st.sampled_from(['width', 'a', 'b']), simple, max_size=2), st.lists(simple, max_size=3))
        keys = st.sampled_from(['encoder', 'audiocodecid', 'audiodatarate', 'profile', 'level', 'w', 'widthx', 'Width', 'stereo', 'filesize', 'videocodecidx', 'é'])
        obj = st.tuples(st.fixed_dictionaries({}, optional=known), st.dictionaries(keys, junk, max_size=4), st.booleans(), st.integers(0, 99))
        meta = st.tuples(st.just('meta'), st.sampled_from(['set', 'set', 'set', 'bare', 'plain']), st.sampled_from([18, 18, 18, 15]), obj)
        frame = st.tuples(st.sampled_from(['audio', 'audio', 'key', 'inter']), st.integers(0, 300))
        join = st.tuples(st.sampled_from(['join', 'join', 'leave']), st.integers(0, 3), st.booleans())
        other = st.tuples(st.just('other'), st.sampled_from(['onCuePoint', 'onTextData', 'onMetaDat', 'onMetaDataX', '|RtmpSampleAccess', '@clearDataFrame']))
        return st.fixed_dictionaries({
            'app': st.sampled_from([g + m for g in ('', '', 'g') for m in ('on', 'on', 'copy', 'copy', 'off')]),
            'chunk': st.one_of(st.sampled_from([128, 4096, 60000, 16, 13, 17]), st.integers(1, 64)),
            'join0': st.integers(0, 2), 'ops': st.lists(st.one_of(meta, meta, meta, frame, frame, frame, join, join, join, other, st.just(('republish',))), min_size=2, max_size=18),
        })

    # ------------------------------------------------------------------
    def build(self, op, k, copy):
        _, form, typ, (known, junk, ecma, order) = op
        if copy and form == 'bare':
            form = 'set'
        items = list(known.items()) + list(junk.items())
        items = items[order % len(items):] + items[:order % len(items)] if items else []
        items.append(('k%d' % k, float(k)))
        o = dict(items)
        v = amf.Ecma(o) if ecma else o
        body = {'set': amf.enc('onMetaData') + amf.enc(v), 'bare': amf.enc(v), 'plain': amf.enc(v)}[form]
        name = 'onMetaData' if form == 'plain' else '@setDataFrame'
        return (b'\0' if typ == 15 else b'') + amf.enc(name) + body, amf.enc('onMetaData') + amf.enc(v), o

    def rebuilt(self, o, codec):
        r = {k: 0.0 for k in REBUILT}
        for k in ('width', 'height', 'duration', 'videodatarate'):
            r[k] = float(o.get(k, 0))
        r['displayWidth'], r['displayHeight'] = r['width'], r['height']
        fr = [v for k, v in o.items() if k in ('framerate', 'fps')]
        r['framerate'] = r['fps'] = float(fr[-1]) if fr else 0.0
        vc = o.get('videocodecid')
        r['videocodecid'] = float(vc) if isinstance(vc, (int, float)) else float(codec)
        return r

    def run(self, case):
        self.n += 1
        app, name = case['app'], 'm%d' % self.n
        mode, gop = app.lstrip('g'), app[0] == 'g'
        labels = {app}
        ev, players, gone, conns = [], {}, [], []     # ev: ('meta', id, want, ts) / ('frame', payload, ts) / ('pub',)
        st8 = {'ts': 10, 'k': 0, 'codec': 0, 'meta': None}

        def publish(retry):
            end = time.monotonic() + self.patience
            while True:
                try:
                    p = rtmp.publisher(self.addr, app, name, chunk=case['chunk'])
                    conns.append(p)
                    return p
                except rtmp.ProtoError:
                    if not retry or time.monotonic() > end:
                        raise Violation('the server still holds the stream of a publisher that closed its connection')
                    time.sleep(0.005)

        def frame(kind, n):
            st8['k'] += 1
            st8['ts'] += n
            body = media.filler(1000 * self.n + st8['k'], 8)
            if kind == 'audio':
                typ, pay = 8, b'\x2f' + body
            else:
                typ, pay = 9, (b'\x12' if kind == 'key' else b'\x22') + body
                st8['codec'] = 2
            ev.append(('frame', pay, st8['ts'], typ))
            pub.write(typ, pay, csid=4 if typ == 8 else 6, ts=st8['ts'], msid=1)

        def join(k, http_):
            if pub.user_ping(self.patience) is None:
                raise rtmp.Closed('publisher closed')
            if http_:
                c = http.Stream(self.ha, '/%s/%s' % (app, name))
                conns.append(c)
                players[k] = dict(c=c, start=len(ev), http=True)
                nh = sum(1 for p in players.values() if p['http'])
                self.wait_clients(app, name, 'flv_clients', nh)
            else:
                c = rtmp.player(self.addr, app, name)
                conns.append(c)
                players[k] = dict(c=c, start=len(ev), http=False)
            players[k]['late'] = st8['meta'] is not None
            if st8['meta'] is not None:
                labels.add('late join')

        try:
            pub = publish(False)
            for k in range(case['join0']):
                join(k, k == 1)
            for op in case['ops']:
                if op[0] == 'meta':
                    st8['k'] += 1
                    st8['ts'] += 1
                    raw, copied, o = self.build(op, st8['k'], mode == 'copy')
                    want = ('copy', copied, st8['ts']) if mode == 'copy' else ('on', self.rebuilt(o, st8['codec']))
                    if isinstance(o.get('videocodecid'), (int, float)):
                        st8['codec'] = o['videocodecid']
                    if st8['meta'] is not None:
                        labels.add('second metadata')
                    st8['meta'] = st8['k']
                    labels |= {op[1], 'type %d' % op[2]}
                    ev.append(('meta', want, raw))
                    pub.write(op[2], raw, csid=4, ts=st8['ts'], msid=1)
                elif op[0] == 'other':
                    v = {'k': 1.0}
                    pub.write(18, amf.enc_all(op[1], v), csid=4, ts=st8['ts'], msid=1)
                elif op[0] == 'join':
                    if op[1] not in players:
                        join(op[1], op[2])
                elif op[0] == 'leave':
                    if op[1] in players:
                        p = players.pop(op[1])
                        p['c'].close()
                        if p['http']:
                            self.wait_clients(app, name, 'flv_clients', sum(1 for q in players.values() if q['http']), True)
                elif op[0] == 'republish':
                    if pub.user_ping(self.patience) is None:
                        raise rtmp.Closed('publisher closed')
                    pub.close()
                    pub = publish(True)
                    labels.add('new publication')
                    ev.append(('pub',))
                    st8.update(codec=0, meta=None)
                else:
                    frame(*op)
            frame('key', 5)
            frame('audio', 1)
            frame('inter', 1)
            frame('audio', 1)
            frame('inter', 1)
            last = ev[-1][1]
            if pub.user_ping(self.patience) is None:
                raise rtmp.Closed('publisher closed')
            for p in players.values():
                if p['http']:
                    c = p['c']
                    end = time.monotonic() + self.patience
                    while not c.closed and time.monotonic() < end and last not in c.raw[-200:]:
                        c.pump(end - time.monotonic())
                else:
                    try:
                        p['c'].wait(lambda m: m.payload == last, self.patience)
                    except rtmp.Timeout:
                        pass
        except (rtmp.Closed, rtmp.Timeout, rtmp.ProtoError, OSError, http.Bad) as e:
            raise Violation('%s: session broke: %r %s' % (app, e, self.ng.crashes()[:1]))
        finally:
            for c in conns:
                c.close()
        cr = self.ng.crashes()
        if cr:
            raise Violation('server crashed: %s' % cr[0])
        nmeta = 0
        for k, p in sorted(players.items()):
            if p['http']:
                try:
                    r = p['c'].body()
                    if r is None or r[0] != 200:
                        raise Violation('%s: HTTP client %d got %r' % (app, k, p['c'].raw[:100]))
                    _, tags, _ = flv.parse(r[2])
                except (http.Bad, flv.FlvError) as e:
                    raise Violation('%s: HTTP client %d: %s' % (app, k, e))
                got = [(t, ts, pay) for t, ts, pay in tags]
            else:
                got = [(m.type, m.ts, m.payload) for m in p['c'].msgs if m.type in (8, 9) or m.type in (18, 15) and rtmp.status_code(m) is None]
                got = [g for g in got if not (g[0] == 18 and g[2].startswith(amf.enc('|RtmpSampleAccess')))]
            who = '%s player %d (%s)' % (app, k, 'HTTP-FLV' if p['http'] else 'RTMP')
            got = [g for g in got if g[2]]
            nmeta += sum(1 for g in got if g[0] == 18)
            if mode == 'off':
                bad = [g for g in got if g[0] not in (8, 9)]
                if bad:
                    raise Violation('%s: metadata delivered with meta off: %r' % (who, bad[0]))
                nmeta += 1
            elif gop:
                self.judge_gop(who, got, ev, p)
            else:
                self.judge_live(who, got, ev, p, p['http'])
        return bool(nmeta and labels & {'late join', 'second metadata'}), labels

    def wait_clients(self, app, name, field, want, down=False):
        import json
        end = time.monotonic() + self.patience
        while True:
            n = 0
            j = json.loads(http.get(self.ha, '/sys')[2].decode('latin-1'))
            for srv in j['live_stream']['server_array']:
                for x in srv['stream_array']:
                    if x['name'].endswith('%s/%s' % (app, name)) or x['name'].endswith('/' + name):
                        n += x[field]
            if n == want or (n > want and not down):
                return
            if time.monotonic() > end:
                raise Violation('%s: the server counts %d HTTP-FLV clients, %d are there' % (app, n, want))
            time.sleep(0.002)

    def same(self, who, g, want):
        t, ts, pay = g
        if t != 18:
            raise Violation('%s: expected metadata, got type %d, %r' % (who, t, pay[:30]))
        if want[0] == 'copy':
            if pay != want[1]:
                raise Violation('%s: metadata delivered as %r, published as %r' % (who, pay, want[1]))
            return
        try:
            v = amf.dec_all(pay)
        except amf.AmfError as e:
            raise Violation('%s: rebuilt metadata is not AMF: %s' % (who, e))
        if len(v) != 2 or v[0] != 'onMetaData' or not isinstance(v[1], dict):
            raise Violation('%s: rebuilt metadata is %r' % (who, v))
        for k, w in want[1].items():
            if v[1].get(k) != w:
                raise Violation('%s: rebuilt metadata has %s %r, announced %r' % (who, k, v[1].get(k), w))

    def is_same(self, who, g, want):
        try:
            self.same(who, g, want)
            return True
        except Violation:
            return False

    def judge_live(self, who, got, ev, p, http_):
        """without a cache: every frame from the join on, each preceded by the metadata that is new to the player"""
        cur = None
        for e in ev[:p['start']]:
            cur = e[1] if e[0] == 'meta' else None if e[0] == 'pub' else cur
        exp, seen = [], None
        for e in ev[p['start']:]:
            if e[0] == 'meta':
                cur = e[1]
            elif e[0] == 'pub':
                cur = None
            else:
                if cur is not None and cur is not seen:
                    exp.append(('meta', cur))
                    seen = cur
                exp.append(e)
        for i, e in enumerate(exp):
            if i >= len(got):
                raise Violation('%s: %d messages delivered, %d expected; the first missing one is %r' % (who, len(got), len(exp), e[:2]))
            g = got[i]
            if e[0] == 'meta':
                self.same(who, g, e[1])
                ts = e[1][2] if e[1][0] == 'copy' else 0
                if g[1] != ts:
                    raise Violation('%s: metadata has timestamp %d instead of %d' % (who, g[1], ts))
            elif g[2] != e[1]:
                raise Violation('%s: message %d is type %d %r, expected %r' % (who, i, g[0], g[2][:60], e[1]))
        if len(got) > len(exp):
            raise Violation('%s: %r delivered beyond what was published' % (who, got[len(exp)]))

    def judge_gop(self, who, got, ev, p):
        """with a cache: metadata published during or before the session, in order, none twice, the first before any media, the latest at the end"""
        metas = []
        cur, pubs = None, 0
        for i, e in enumerate(ev):
            if e[0] == 'meta':
                metas.append((i, e[1], pubs))
                cur = e[1]
            elif e[0] == 'pub':
                cur, pubs = None, pubs + 1
        known = [m for m in metas if m[0] < p['start']]
        start_pub = sum(1 for e in ev[:p['start']] if e[0] == 'pub')
        # latest metadata of the publication at the time of the join is older than all delivered ones
        low = max([m[0] for m in known if m[2] == start_pub], default=-1)
        pos, media_seen = -1, False
        frames, n = {}, 0
        for e in ev:
            if e[0] == 'frame':
                frames[e[1]] = n
            n += e[0] == 'pub'
        for g in got:
            if g[0] == 18:
                c = [m for m in metas if m[0] >= low and m[0] > pos and self.is_same(who, g, m[1])]
                if not c:
                    raise Violation('%s: metadata %r is not a later one of those published (%r)' % (who, g[2], [m[1] for m in metas][-3:]))
                pos = c[0][0]
            else:
                if not media_seen and low >= 0 and pos < 0 and frames.get(g[2], -1) == start_pub:
                    raise Violation('%s: media %r before the metadata published before the player joined' % (who, g[2][:20]))
                media_seen = True
                if g[2] not in frames:
                    raise Violation('%s: delivered %r, which was not published' % (who, g[2][:40]))
        if not media_seen or got[-1][2] != ev[-1][1]:
            raise Violation('%s: the last frame was not delivered' % who)
        if cur is not None:
            lastm = [g for g in got if g[0] == 18]
            if not lastm or not self.is_same(who, lastm[-1], cur):
                raise Violation('%s: the latest metadata %r is not the last one delivered (%r)' % (who, cur, lastm[-1:] and lastm[-1][2]))


if __name__ == '__main__':
    main(R06)
