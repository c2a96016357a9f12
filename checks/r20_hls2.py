"""R20: HLS from memory. Publish and join histories; the playlists and segments of each session are compared with a model of the muxer and of the segmenter."""
import os, re, socket, sys, time
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from hypothesis import strategies as st
from lib import http, media, ngx, rtmp, ts
from lib.check import Violation, main
from r12_hls import nal
from r13_ts import Mux, R13


def cf(name, flavour='asan', **kw):
    d = dict(name=name, flavour=flavour, cache=60000, delay=300, abuf=1 << 20, sync=0, queue=4096, frag=1000, win=4, minf=2, maxf=None, slicing='plain', extra='', snd='')
    d.update(kw)
    return d


VARIANTS = [cf('plain', 'plain'), cf('short', frag=200, win=2, minf=1, cache=500), cf('aligned', slicing='aligned', frag=500, win=3, cache=1), cf('max', abuf=4096, sync=2, frag=1000, maxf=2000, win=5, minf=3, snd=' sndbuf=8k'),
            cf('two', frag=2000, win=3, minf=1, extra='idle_streams off;', snd=' sndbuf=8k'), cf('base', frag=300, win=6, base='http://h:1/x/')]


class Segmenter:
    """the segments of one session"""

    def __init__(self, c, out, start, lag=0):
        frag = None
        self.closed, self.open = [], None
        fts, L = 0, c['frag'] * 90
        maxf = c['maxf'] or 50000        # ten default fragments
        for e in out[start:len(out) - lag]:
            kind, pts, dts, key = e[:4]
            b, force = kind == 'v' and key, False
            if frag:
                d = pts - fts
                if d > maxf * 90 or d < -90000:
                    force = True
                else:
                    frag['d'] = max(d, 0) / 90000
            if c['slicing'] == 'plain':
                if frag and frag['d'] < c['frag'] / 1000:
                    b = False
            else:
                same = fts // L == pts // L
                if frag and same:
                    b = False
                if not frag and (fts == 0 or same):
                    fts, b = pts, False
            if b or force:
                if frag:
                    self.closed.append(frag)
                frag, fts = {'d': 0, 'au': []}, pts
            if frag:
                frag['au'].append(e)
        self.open = frag


class R20(R13):
    id = 'R20'
    rule = ('a case is a publication (AVC or HEVC, AAC or no audio, generated sizes, timestamps and jumps, bursts) and HLS sessions that begin at generated points (through the master playlist or with a name of their own, waiting requests among them), look at their playlists and segments, '
            'ask for segments by number, leave downloads unread and send odd requests, in one of 6 configurations; each playlist is compared line by line, each segment access unit by access unit with a model of the muxer and the segmenter. '
            'Non-trivial: a playlist that has lost its first segment, or of a session that joined after the first frame, was compared')
    assumptions = ['a stream has video, its headers come before its frames; times do not run backwards', 'mpegts_send_all on']
    quick_cases = 1000
    thorough_cases = 5000
    quick_budget = 50
    variants = [(v['name'], v) for v in VARIANTS]

    def setup(self):
        self.c = c = self.variant[1]
        self.port, self.hp = ngx.free_port(), ngx.free_port()
        d = 'mpegts_cache_time %dms; mpegts_send_all on; mpegts_audio_delay %dms; mpegts_audio_buffer_size %d; mpegts_sync %dms; hls2memory on; hls2_fragment %dms; hls2_playlist_length %dms; hls2_minfrags %d; hls2_fragment_slicing %s; hls2_timeout 1h; %s%s%s' % (
            c['cache'], c['delay'], c['abuf'], c['sync'], c['frag'], c['frag'] * c['win'] + c['frag'] // 3, c['minf'], c['slicing'], 'hls2_max_fragment %dms; ' % c['maxf'] if c['maxf'] else '', 'hls2_base_url %s; ' % c['base'] if c.get('base') else '', c['extra'])
        self.ng = ngx.Nginx(rtmp='server { listen 127.0.0.1:%d; ping 1h; timeout 1h; out_queue %d; max_message 10m; application live { live on; %s } }' % (self.port, c['queue'], d),
                            http='server { listen 127.0.0.1:%d%s; location /live/ { hls2_live 127.0.0.1:%d app=live; } location /ok { return 200 ok; } }' % (self.hp, c['snd'], self.port),
                            flavour=c['flavour'], log_level='crit')
        self.ng.start([self.port, self.hp])
        self.nsess = 0

    def strategy(self):
        size = st.one_of(st.integers(3, 60), st.integers(3, 400), st.sampled_from([117, 150, 151, 152, 153, 154, 176, 184, 4096, 70000]))
        asize = st.one_of(st.integers(3, 60), st.integers(3, 400), st.sampled_from([100, 163, 164, 1000, 2000]))
        F = max(100, min(v['frag'] for _, v in self.variants))
        dt = st.one_of(st.integers(0, 120), st.integers(0, 700), st.sampled_from([0, 23, 40, 200, 299, 300, 500, 999, 1000, 1001, 2000]), st.sampled_from([40, 40, 40, 1000, 2500, 11000, 25000]))
        nals = st.lists(st.tuples(st.integers(0, 9), size), min_size=1, max_size=3)
        cts = st.sampled_from([0, 0, 0, 40, 1, 80])
        v = st.tuples(st.sampled_from(['key', 'key', 'inter', 'inter']), dt, nals, cts)
        a = st.tuples(st.just('aud'), st.integers(0, 40), asize)
        op = st.tuples(st.sampled_from(['join', 'join', 'join2', 'look', 'look', 'look', 'slow', 'byid', 'odd', 'leave']), st.integers(0, 9))
        gop = st.tuples(v.map(lambda x: ('key',) + x[1:]), st.lists(st.one_of(v.map(lambda x: ('inter',) + x[1:]), a), max_size=5), st.sampled_from([300, 500, 1000, 1000, 2000])).map(lambda g: [g[0]] + g[1] + [('inter', g[2], [(0, 40)], 0)])
        evs = st.one_of(st.lists(st.one_of(v, v, v, a, a, op), min_size=3, max_size=40),
                        st.lists(st.one_of(gop, gop, gop, op.map(lambda o: [o])), min_size=4, max_size=22).map(lambda l: [e for g in l for e in g]))
        pub = st.fixed_dictionaries({'nlen': st.sampled_from([4, 4, 4, 2, 3]), 'pre': st.integers(0, 1), 'aconf': st.tuples(st.sampled_from([2, 2, 1, 3]), st.integers(3, 11), st.integers(1, 7)), 'psets': st.tuples(st.integers(1, 3), st.integers(1, 3)),
                                     't0': st.one_of(st.integers(0, 100000), st.sampled_from([0, 1, 0xffffff, 95443000])), 'ev': evs, 'chunk': st.sampled_from([128, 4096, 65536])})
        return st.fixed_dictionaries({'name': st.sampled_from(['s', 's', 'ab', 'x-12', 'a.b', 'n' * 60, '7', '-', 'a-b.c-3']), 'v': st.sampled_from(['avc', 'avc', 'hevc']), 'a': st.sampled_from(['aac', 'aac', 'none']),
                                     'pubs': st.lists(pub, min_size=1, max_size=1)})

    def run(self, case):
        self.socks = []
        try:
            return super().run(case)
        finally:
            for x in self.socks:
                x[0].close()

    # ---- sessions

    def get(self, path, **kw):
        return http.get(('127.0.0.1', self.hp), path, timeout=self.patience, **kw)

    def join(self, base, how=0):
        self.nsess += 1
        url = '/live/%s.m3u8?session=s%d-%s' % (self.name, self.nsess, 'x' * (how * 3))
        if how % 2:
            r = self.get('/live/%s.m3u8' % self.name)
            m = re.fullmatch(r'#EXTM3U\n#EXT-X-STREAM-INF:[^\n]*\nhttp://localhost(/live/%s\.m3u8\?session=([\w-]+))\n' % re.escape(self.name), r[2].decode('latin1'))
            if r[0] != 200 or not m:
                raise Violation('master playlist: %r %r' % (r[0], r[2][:200]))
            url = m.group(1)
        if any(p['url'] == url for p in self.players):
            raise Violation('two sessions have the same name: %s' % url)
        s = http.Stream(('127.0.0.1', self.hp), url, timeout=self.patience)
        p = {'s': s, 'base': base, 'url': url, 'sid': url.split('session=')[1], 'cand': None, 'all': [s]}
        self.players.append(p)
        self.settle()
        return p

    def cands(self, p, out):
        """possible beginnings, with the number of frames the session stays behind"""
        keys = [i for i, e in enumerate(out) if e[0] == 'v' and e[3]]
        late = next((i for i in keys if i >= max(p['base'], 0)), None)
        if late is None:
            late = len(out)
        if p['cand'] is not None:
            return [k for k in p['cand'] if k[0] + k[1] <= len(out)]
        ks = [i for i in keys if i <= late]
        if self.c['slicing'] == 'aligned':          # the frames before the first segment count
            ks = list(range(0, late + 1))
        return [(i, l) for i in ks for l in (1, 0)]

    def look(self, p, out, types, what):
        c = self.c
        if 0 < p['base'] >= len(out):           # a session moves on with the frames that arrive
            return 0
        ks = self.cands(p, out)
        segs = {i: Segmenter(c, out, *i) for i in ks}
        if not segs:
            return 0
        # the requests that wait are answered as soon as there are enough segments
        if min(len(s.closed) for s in segs.values()) >= c['minf']:
            for s in p['all']:
                end = time.monotonic() + self.patience
                while not s.body() or s.body()[0] is None:
                    s.pump(0.02)
                    if time.monotonic() > end or s.closed:
                        raise Violation('%s: %d segments, and a playlist request has no answer (%r)' % (what, min(len(x.closed) for x in segs.values()), s.raw[:60]))
                r = s.body()
                if r[0] != 200 or not r[2].startswith(b'#EXTM3U'):
                    raise Violation('%s: a waiting playlist request got %r %r' % (what, r[0], r[2][:80]))
        elif max(len(s.closed) for s in segs.values()) < c['minf']:
            for s in p['all']:
                s.pump(0)
                if s.raw:
                    raise Violation('%s: a playlist with fewer than %d segments: %r' % (what, c['minf'], s.raw[:300]))
            return 0
        else:
            p['all'][0].pump(0.05)
            if not p['all'][0].raw:
                return 0
        end = time.monotonic() + self.patience
        while True:                # the last frames may be on their way
            r = self.get(p['url'])
            if r[0] != 200:
                raise Violation('%s: playlist: %d' % (what, r[0]))
            try:
                ok = [i for i in ks if self.playlist(p, r[2].decode('latin1'), segs[i], what) is None]
            except Violation:
                raise
            if ok or time.monotonic() > end:
                break
            time.sleep(0.05)
        if not ok:
            raise Violation('%s: %s' % (what, self.playlist(p, r[2].decode('latin1'), segs[ks[-1]], what)))
        n = len(segs[ok[0]].closed)
        for k in range(max(0, n - c['win']), n):
            b = self.segment(p, k)
            err = None
            good = []
            for i in ok:
                try:
                    self.units(b, segs[i].closed[k], types, '%s: segment %d' % (what, k))
                    good.append(i)
                except (Violation, ts.TsError) as e:
                    err = '%s: segment %d: %s' % (what, k, e)
            ok = good
            if not ok:
                raise Violation(err)
        p['cand'] = set(ok)
        p['seg'] = segs[ok[0]]
        return n

    def playlist(self, p, text, sg, what):
        c = self.c
        l = text.split('\n')
        cl = sg.closed
        first = max(0, len(cl) - c['win'])
        want = [(k, cl[k]['d']) for k in range(first, len(cl))]
        m = re.fullmatch(r'#EXTM3U\n#EXT-X-VERSION:3\n#EXT-X-MEDIA-SEQUENCE:(\d+)\n#EXT-X-TARGETDURATION:(\d+)\n(.*)', text, re.S)
        if not m:
            raise Violation('%s: playlist %r' % (what, text[:300]))
        got, disc = [], False
        body = m.group(3)
        while body:
            x = re.match(r'(#EXT-X-DISCONTINUITY\n)?#EXTINF:(\d+\.\d{3}),\n([^\n]*)\n', body)
            if not x:
                raise Violation('%s: playlist %r' % (what, text[:600]))
            u = re.fullmatch(re.escape(c.get('base', '') + self.name) + r'-(\d+)\.ts\?session=%s&slot=0' % re.escape(p['sid']), x.group(3))
            if not u:
                raise Violation('%s: the playlist of %s has the address %r' % (what, p['sid'], x.group(3)))
            if round(float(x.group(2)) - 0.0005) > int(m.group(2)):
                raise Violation('%s: a segment is longer than the target duration: %r' % (what, text[:600]))
            if bool(x.group(1)) != (int(u.group(1)) == 0):
                raise Violation('%s: discontinuity %r at segment %s' % (what, x.group(1), u.group(1)))
            got.append((int(u.group(1)), float(x.group(2))))
            body = body[x.end():]
        if int(m.group(1)) != first or [g[0] for g in got] != [w[0] for w in want] or any(abs(a[1] - b[1]) > 0.0011 for a, b in zip(got, want)):
            return 'playlist from %s: %r, expected from %d: %r' % (m.group(1), got, first, want)

    def segment(self, p, k):
        r = self.get('/live/%s-%d.ts?session=%s&slot=0' % (self.name, k, p['sid']))
        if r[0] != 200:
            raise Violation('segment %d of the playlist: %d' % (k, r[0]))
        return r[2]

    def units(self, b, seg, types, what):
        if len(b) % 188 or len(b) < 376:
            raise Violation('%s: %d bytes' % (what, len(b)))
        t = ts.demux(b, {})
        if t.streams != {k: v for k, v in ((0x100, types[0]), (0x101, types[1])) if v}:
            raise Violation('%s: the program map is %r' % (what, t.streams))
        if len(t.pes) != len(seg['au']):
            raise Violation('%s: %d access units, expected %d' % (what, len(t.pes), len(seg['au'])))
        for j, (g, e) in enumerate(zip(t.pes, seg['au'])):
            self.access_unit(g, e, '%s: PES %d' % (what, j))

    def byid(self, p, n, types, what):
        """a segment by its number: those of the ring, and no other"""
        if not p.get('seg'):
            return
        sg, c = p['seg'], self.c
        top = len(sg.closed)
        k = [top, top + 1, top - 1, top - c['win'] - 1, top - 2 * c['win'], top - 2 * c['win'] - 1, 0, top + 2 * c['win'] + 1, 1 << 32, top - c['win']][n]
        if k < 0:
            return
        r = self.get('/live/%s-%d.ts?session=%s' % (self.name, k, p['sid']))
        if k >= top:
            if r[0] == 200:
                raise Violation('%s: segment %d is served before it is complete' % (what, k))
        elif k < top - 2 * c['win'] - 1:
            if r[0] == 200:
                raise Violation('%s: segment %d is served, the last one is %d' % (what, k, top - 1))
        elif r[0] == 200:
            self.units(r[2], sg.closed[k], types, '%s: segment %d by number' % (what, k))
        elif k >= top - c['win']:
            raise Violation('%s: segment %d: %d' % (what, k, r[0]))

    ODD = ['GET /live/%s.m3u8 HTTP/1.0\r\n\r\n', 'GET /live/%s.m3u8?session= HTTP/1.1\r\nHost: a\r\n\r\n', 'HEAD /live/%s.m3u8 HTTP/1.1\r\nHost: a\r\n\r\nGET /ok HTTP/1.1\r\nHost: a\r\n\r\n', 'GET /live/' + 'l' * 300 + '.m3u8?session=q HTTP/1.1\r\nHost: a\r\n\r\n',
           'GET /live/%s-0.ts?session=' + 'z' * 400 + ' HTTP/1.1\r\nHost: a\r\n\r\n', 'GET /live/.m3u8?session=a HTTP/1.1\r\nHost: a\r\n\r\n', 'GET /live/-.ts?session=a HTTP/1.1\r\nHost: a\r\n\r\n', 'GET /live/%s-x.ts?session=SID HTTP/1.1\r\nHost: a\r\n\r\n',
           'HEAD PLAY HTTP/1.1\r\nHost: a\r\n\r\nGET /ok HTTP/1.1\r\nHost: a\r\n\r\n', 'GET /live/%s-99999999999999999999.ts?session=SID HTTP/1.1\r\nHost: a\r\n\r\n']

    def odd(self, n, p):
        req = self.ODD[n].replace('%s', self.name)
        if p:
            req = req.replace('SID', p['sid'])
        if 'PLAY' in req:
            if not p or not p.get('seg'):
                return
            req = req.replace('PLAY', '/live/%s-%d.ts?session=%s' % (self.name, len(p['seg'].closed) - 1, p['sid']))
        x = socket.create_connection(('127.0.0.1', self.hp))
        self.socks.append((x, None))
        x.settimeout(self.patience)
        x.sendall(req.encode())
        d = b''
        try:
            while (d.count(b'HTTP/1.1 ') < (2 if 'HEAD' in req else 1) or b'\r\n\r\n' not in d):
                b = x.recv(65536)
                if not b:
                    break
                d += b
        except OSError as e:
            raise Violation('no answer to %r: %r %s' % (req, d[:300], e))
        if not d.startswith(b'HTTP/1.1 ') and not d.startswith(b'#') and d:
            raise Violation('answer to %r: %r' % (req, d[:200]))
        if 'HEAD' in req:
            h, _, rest = d.partition(b'\r\n\r\n')
            if not rest.startswith(b'HTTP/1.1 200'):
                raise Violation('the answer to HEAD has a body: %r' % rest[:60])

    def slow(self, p):
        """a segment that is asked for and not read"""
        k = len(p['seg'].closed) - 1
        x = socket.socket()
        x.setsockopt(socket.SOL_SOCKET, socket.SO_RCVBUF, 4096)
        x.connect(('127.0.0.1', self.hp))
        x.settimeout(self.patience)
        x.sendall(('GET /live/%s-%d.ts?session=%s HTTP/1.1\r\nHost: a\r\nConnection: close\r\n\r\n' % (self.name, k, p['sid'])).encode())
        self.socks.append((x, self.segment(p, k)))

    def finish(self, whole):
        for x, want in self.socks:
            if want is None:
                continue
            d = b''
            try:
                while 1:
                    b = x.recv(65536)
                    if not b:
                        break
                    d += b
            except ConnectionError:
                pass
            except OSError as e:
                raise Violation('a download stops after %d bytes: %s' % (len(d), e))
            b = d.partition(b'\r\n\r\n')[2]
            if not want.startswith(b) or whole and b != want:
                raise Violation('a slow download has %d bytes, %sthose of the segment of %d' % (len(b), '' if want.startswith(b) else 'not ', len(want)))
        self.socks = [(x, None) for x, _ in self.socks]

    # ---- history

    def history(self, case):
        c, self.name = self.c, case['name']
        labels, nt = set(), False
        self.settle()
        p = dict(case['pubs'][0], v=case['v'], a=case['a'])
        q = rtmp.Conn(('127.0.0.1', self.port), timeout=self.patience)
        self.conns.append(q)
        idle = 'idle_streams off' not in c['extra']
        if p['pre'] and idle:
            self.join(-1, p['chunk'] % 3)
        q.handshake('simple')
        q.connect('live', 'rtmp://127.0.0.1/live')
        q.set_chunk(p['chunk'])
        msid = q.create_stream()
        q.publish(self.name, msid=msid)
        code = q.wait_status(('NetStream.Publish.Start', 'NetStream.Publish.BadName'))
        if code != 'NetStream.Publish.Start':
            raise Violation('publish: %r' % code)
        mux = Mux(c)
        t, n = p['t0'], 0
        types = ({'avc': 0x1b, 'hevc': 0x24}.get(p['v']), {'aac': 0x0f}.get(p['a']))
        h, ps = self.headers(p)
        q.write(rtmp.VIDEO, h, 6, t, msid)
        ac = p['aconf']
        if p['a'] == 'aac':
            q.write(rtmp.AUDIO, self.asc(ac), 5, t, msid)
        rate = [96000, 88200, 64000, 48000, 44100, 32000, 24000, 22050, 16000, 12000, 11025, 8000][ac[1]]
        for e in p['ev']:
            k = e[0]
            if k in ('key', 'inter', 'aud'):
                t = min(t + e[1], 0x5fffffff)
                n += 1
            if k in ('key', 'inter'):
                pay, want = self.frame(p, k == 'key', e[2], e[3], n)
                q.write(rtmp.VIDEO, pay, 6, t, msid)
                mux.video(t, e[3], k == 'key', (ps, want, p['v'] == 'avc'))
            elif k == 'aud' and p['a'] == 'aac':
                d = nal(n, e[2])
                q.write(rtmp.AUDIO, media.aac(d), 5, t, msid)
                mux.audio(t, ((ac[0], ac[1], ac[2]), d), len(d) + 7, rate)
            elif k == 'join' and len(self.players) < 4:
                self.sync(q, 'join')
                self.join(len(mux.out), e[1])
            elif k == 'join2' and self.players:
                x = self.players[e[1] % len(self.players)]
                if not x['s'].raw:
                    x['all'].append(http.Stream(('127.0.0.1', self.hp), x['url'], timeout=self.patience))
                    self.settle()
                    labels.add('two requests wait')
            elif k == 'leave' and self.players:
                x = self.players.pop(e[1] % len(self.players))
                for s in x['all']:
                    s.close()
                labels.add('leave')
            elif k in ('look', 'slow', 'byid'):
                self.sync(q, 'look')
                for i, x in enumerate(self.players):
                    m = self.look(x, mux.out, types, 'session %d' % i)
                    if m > c['win'] or m and x['base'] > 0:
                        nt = True
                        labels.add('late' if x['base'] > 0 else 'window')
                xs = [x for x in self.players if x.get('seg')]
                if xs and k == 'slow':
                    self.slow(xs[e[1] % len(xs)])
                    labels.add('slow')
                if xs and k == 'byid':
                    self.byid(xs[e[1] % len(xs)], e[1], types, 'session')
                    labels.add('by number')
            elif k == 'odd':
                self.odd(e[1], self.players[0] if self.players else None)
                labels.add('odd')
            if self.ng.crashes():
                raise Violation('crash: ' + self.ng.crashes()[0][:600])
        self.sync(q, 'end')
        for i, x in enumerate(self.players):
            m = self.look(x, mux.out, types, 'session %d at the end' % i)
            if m > c['win'] or m and x['base'] > 0:
                nt = True
                labels.add('late' if x['base'] > 0 else 'window')
        first = n % 2
        if first:
            self.finish(True)
        q.close()
        self.gone()
        self.finish(idle)
        for x in self.players:
            for s in x['all']:
                s.close()
        self.settle()
        if self.ng.crashes():
            raise Violation('crash: ' + self.ng.crashes()[0][:600])
        labels.add(p['v'] + '+' + p['a'])
        return nt, labels


if __name__ == '__main__':
    main(R20)
