"""R13: MPEG-TS over HTTP. Publish and join histories; what each player gets is demultiplexed and compared with a model of the muxer."""
import os, sys, time
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from hypothesis import strategies as st
from lib import build, http, media, ngx, rtmp, ts
from lib.check import Prop, Violation, main
from r12_hls import R12, nal
import struct


def cf(name, flavour='plain', **kw):
    d = dict(name=name, flavour=flavour, cache=60000, delay=300, abuf=1 << 20, sync=0, queue=4096, extra='')
    d.update(kw)
    return d


VARIANTS = [cf('plain'), cf('gop', cache=1), cf('small', 'asan', abuf=4096, delay=100, queue=64, cache=500), cf('sync', sync=2, delay=1000), cf('asan', 'asan', cache=2000), cf('long', abuf=8192, delay=5000)]


class Mux:
    """the PES packets of one publication"""

    def __init__(self, c):
        self.c = c
        self.out = []
        self.abuf, self.asize, self.apts = [], 0, 0
        self.abase = self.anum = 0
        self.key = False

    def flush(self):
        if self.abuf:
            self.out.append(('a', self.apts, self.apts, False, self.abuf))
        self.abuf, self.asize = [], 0

    def audio(self, t, item, size, rate):
        c = self.c
        if size > c['abuf']:
            return
        t *= 90
        if self.abuf and self.apts + c['delay'] * 90 // 2 < t:
            self.flush()
        if self.asize + size > c['abuf']:
            self.flush()
        first = not self.abuf
        self.abuf = self.abuf + [item]
        self.asize += size
        if not first:
            self.anum += 1
            return
        self.apts = t
        if not c['sync']:
            return
        est = self.abase + self.anum * 90000 * 1024 // rate
        if abs(est - t) <= c['sync'] * 90:
            self.anum += 1
            self.apts = est
        else:
            self.abase, self.anum = t, 1

    def video(self, t, cts, key, item):
        t *= 90
        if self.abuf and self.apts + self.c['delay'] * 90 < t:
            self.flush()
        if item[1]:
            self.key |= key
        if self.key:                        # nothing can be decoded before
            self.out.append(('v', t + cts * 90, t, key, item))


class R13(R12):
    id = 'R13'
    rule = ('a case is one to three publications of a name (AVC or HEVC, AAC or no audio, several NAL units per frame, generated sizes and timestamps, configuration changes, second publishers, frames after the end, bursts) and HTTP players that join and leave '
            'at generated points, in one of 6 configurations; the bytes of each player are demultiplexed and compared with the access units of a model of the muxer from its starting point on. '
            'Non-trivial: a player that joined after the first frame, or that lived through more than one publication, got at least two access units')
    assumptions = ['a stream has video (streams of audio alone and MP3 audio are not carried), its headers come before its frames', 'mpegts_send_all on; a player is not slower than the publisher']
    quick_cases = 500
    thorough_cases = 6000
    quick_budget = 45
    variants = [(v['name'], v) for v in VARIANTS]

    def setup(self):
        self.c = c = self.variant[1]
        self.port, self.hp = ngx.free_port(), ngx.free_port()
        d = 'mpegts_cache_time %dms; mpegts_send_all on; mpegts_audio_delay %dms; mpegts_audio_buffer_size %d; mpegts_sync %dms; %s' % (c['cache'], c['delay'], c['abuf'], c['sync'], c['extra'])
        self.ng = ngx.Nginx(rtmp='server { listen 127.0.0.1:%d; ping 1h; timeout 1h; out_queue %d; max_message 10m; application live { live on; %s } application plain { live on; } }' % (self.port, c['queue'], d),
                            http='server { listen 127.0.0.1:%d; location /ts/ { ts_live 127.0.0.1:%d app=live; } location /ok { return 200 ok; } }' % (self.hp, self.port),
                            flavour=c['flavour'], log_level='alert' if c['flavour'] == 'plain' else 'error')
        self.ng.start([self.port, self.hp])

    def strategy(self):
        size = st.one_of(st.integers(3, 60), st.integers(3, 400), st.sampled_from([117, 150, 151, 152, 153, 154, 165, 170, 171, 172, 176, 180, 184, 185, 355, 4096, 70000]))
        asize = st.one_of(st.integers(3, 60), st.integers(3, 400), st.sampled_from([100, 160, 161, 162, 163, 164, 165, 1000, 2000, 4085, 5000, 8184]))
        dt = st.one_of(st.integers(0, 120), st.integers(0, 700), st.sampled_from([0, -1, -30, 1, 23, 40, 900]))
        nals = st.lists(st.tuples(st.integers(0, 9), size), min_size=1, max_size=4)
        cts = st.sampled_from([0, 0, 0, 40, 1, 200, -40, 5000])
        v = st.tuples(st.sampled_from(['key', 'key', 'inter', 'inter', 'inter']), dt, nals, cts)
        a = st.tuples(st.just('aud'), dt, asize)
        ev = st.one_of(v, v, v, a, a, a, st.tuples(st.sampled_from(['join', 'join', 'leave', 'look', 'vh2', 'ah2', 'meta', 'vseq', 'second']), st.integers(0, 3)))
        pub = st.fixed_dictionaries({'nlen': st.sampled_from([4, 4, 4, 2, 3]), 'pre': st.integers(0, 1),
                                     'aconf': st.tuples(st.sampled_from([2, 2, 1, 3, 5]), st.integers(0, 11), st.integers(1, 7)), 'psets': st.tuples(st.integers(1, 3), st.integers(1, 3)),
                                     't0': st.one_of(st.integers(0, 100000), st.sampled_from([0, 1, 0xffffff, 95443000, 0x7fff0000])), 'ev': st.one_of(st.lists(ev, min_size=3, max_size=30), st.lists(ev, min_size=25, max_size=60)),
                                     'end': st.integers(0, 4), 'chunk': st.sampled_from([128, 129, 4096, 65536])})
        return st.fixed_dictionaries({'name': st.sampled_from(['s', 's', 'ab', 'x-12', 'n' * 60, '7']), 'v': st.sampled_from(['avc', 'avc', 'hevc']), 'a': st.sampled_from(['aac', 'aac', 'none']),
                                     'pubs': st.lists(pub, min_size=1, max_size=3)})

    def settle(self):
        for _ in range(2):
            st_, hd, b = http.get(('127.0.0.1', self.hp), '/ok')
            if st_ != 200:
                raise Violation('the server answers %d' % st_)

    def run(self, case):
        self.players = []
        try:
            return super().run(case)
        except http.Bad as e:
            raise Violation('not HTTP: %s' % e)
        finally:
            for p in self.players:
                p['s'].close()

    def nals(self, data, item, key, what):
        psets, want, avc = item
        if avc:
            return super().nals(data, item, key, what)
        got = ts.annexb(data)
        typ = lambda n: n[0] >> 1 & 63
        rest = [n for n in got if not 32 <= typ(n) <= 35]
        if rest != want:
            raise Violation('%s: NAL units %r, expected %r' % (what, [(typ(n), len(n)) for n in rest], [(typ(n), len(n)) for n in want]))
        first = next((i for i, n in enumerate(got) if 16 <= typ(n) <= 23), None)
        if key and first is not None and not any(got[i:i + len(psets)] == psets for i in range(first)) and not {32, 33, 34} <= {typ(n) for n in got[:first]}:
            raise Violation('%s: the parameter sets are missing before the key picture: %r' % (what, [typ(n) for n in got]))

    # ---- players

    def join(self, base):
        """base: number of access units sent in this publication so far"""
        s = http.Stream(('127.0.0.1', self.hp), '/ts/%s.ts' % self.name, timeout=self.patience)
        p = {'s': s, 'base': base, 'cut': 0, 'got': 0, 'start': None, 'head': None, 'pubs': 0}
        self.players.append(p)
        self.settle()
        return p

    def check(self, p, mux, types, what):
        """everything sent up to now reaches the player, and is right; returns the number of access units"""
        end = time.monotonic() + self.patience
        while True:
            while p['s'].pump(0):
                pass
            try:
                return self.compare(p, mux.out, types, what)
            except (Violation, ts.TsError) as e:        # the last access units may not be complete yet
                if p['s'].closed or time.monotonic() > end or self.ng.crashes():
                    raise Violation(str(e) if isinstance(e, Violation) else '%s: %s' % (what, e))
            p['s'].pump(0.01)

    def compare(self, p, out, types, what):
        r = p['s'].body()
        if p['s'].closed:
            raise Violation('%s: the player was disconnected: %r' % (what, r and r[0]))
        got = []
        if r is not None:
            if r[0] != 200:
                raise Violation('%s: answer %d %r' % (what, r[0], r[1]))
            b = r[2]
            head = b[:376]
            full = b[max(376, p['cut']):]
            full = full[:len(full) // 188 * 188]
            if len(head) == 376:
                t = ts.demux(head + full, {})
                got = t.pes
        self.fits(p, got, out, what)
        if not got:
            return 0
        if t.streams != {k: v for k, v in ((0x100, types[0]), (0x101, types[1])) if v}:
            raise Violation('%s: the program map is %r' % (what, t.streams))
        i = len(out) - len(got)
        for j, (g, e) in enumerate(zip(got, out[i:])):
            self.access_unit(g, e, '%s: PES %d' % (what, i + j))
        if not out[i][3] and any(e[3] for e in out[:i]):
            raise Violation('%s: a player that joined after a key frame starts with access unit %d, which is no key frame' % (what, i))
        if out[i][0] == 'v' and not out[i][3]:
            raise Violation('%s: starts with a frame that is no key frame' % what)
        p['got'] = len(got)
        return len(got)

    def fits(self, p, got, out, what):
        """the player has all that was sent after it joined"""
        n = len(got)
        must = len(out) if p['base'] < 0 else len(out) - p['base']
        # up to the first key frame there may be nothing to start with
        k = next((i for i, e in enumerate(out) if e[0] == 'a' or e[3]), None)
        if k is None:
            must = 0
        elif k > len(out) - must:
            must = len(out) - k
        if n < must or n > len(out):
            raise Violation('%s: the player has %d of %d access units, %d were sent after it joined' % (what, n, len(out), must))

    # ---- history

    def history(self, case):
        c, self.name = self.c, case['name']
        labels, nt = set(), False
        q = None
        mux, types = None, None
        pubs = case['pubs']
        self.settle()
        for pi, p in enumerate(pubs):
            p = dict(p, v=case['v'], a=case['a'])       # the program map is sent once
            if p['pre'] and len(self.players) < 4:
                self.join(-1)
            q = rtmp.Conn(('127.0.0.1', self.port), timeout=self.patience)      # a session publishes once
            self.conns.append(q)
            q.handshake('simple')
            q.connect('live', 'rtmp://127.0.0.1/live')
            q.set_chunk(p['chunk'])
            msid = q.create_stream()
            q.publish(self.name, msid=msid)
            code = q.wait_status(('NetStream.Publish.Start', 'NetStream.Publish.BadName'))
            if code != 'NetStream.Publish.Start':
                raise Violation('publish: %r' % code)
            mux = Mux(c)
            t, n = p['t0'], 0
            types = ({'avc': 0x1b, 'hevc': 0x24}.get(p['v']), {'aac': 0x0f}.get(p['a']))
            h, ps = self.headers(p)
            q.write(rtmp.VIDEO, h, 6, t, msid)
            ac = p['aconf']
            if p['a'] == 'aac':
                q.write(rtmp.AUDIO, self.asc(ac), 5, t, msid)
            ah = (2 if ac[0] > 4 else ac[0], ac[1], ac[2])
            RATES = [96000, 88200, 64000, 48000, 44100, 32000, 24000, 22050, 16000, 12000, 11025, 8000]
            rate = RATES[max(0, ac[1] - 3) if ac[0] > 4 else ac[1]]
            since = 0
            for e in p['ev']:
                k = e[0]
                if k in ('key', 'inter', 'aud'):
                    t = max(0, min(t + e[1], 0x7fffffff))
                    n += 1
                    since += 1
                    if c['queue'] < 100 and since > 6:
                        k = 'key' if k == 'inter' else k
                        self.sync(q, 'queue')
                        since = 0
                if k in ('key', 'inter'):
                    pay, want = self.frame(p, k == 'key', e[2], e[3], n)
                    q.write(rtmp.VIDEO, pay, 6, t, msid)
                    mux.video(t, e[3], k == 'key', (ps, want, p['v'] == 'avc'))
                elif k == 'aud' and p['a'] == 'aac':
                    d = nal(n, e[2])
                    q.write(rtmp.AUDIO, media.aac(d), 5, t, msid)
                    mux.audio(t, (ah, d), len(d) + 7, rate)
                elif k == 'vh2':
                    h, ps = self.headers(p, e[1] % 2)
                    q.write(rtmp.VIDEO, h, 6, t, msid)
                elif k == 'ah2' and p['a'] == 'aac':
                    if e[1] > 1:
                        ac = (2, (ac[1] + e[1]) % 12, e[1])
                        ah, rate = ac, RATES[ac[1]]
                        labels.add('new audio header')
                    q.write(rtmp.AUDIO, self.asc(ac), 5, t, msid)
                elif k == 'vseq':
                    q.write(rtmp.VIDEO, bytes([0x27 if p['v'] == 'avc' else 0x2c]) + b'\2\0\0\0', 6, t, msid)
                elif k == 'meta':
                    from lib import amf
                    q.write(18, amf.enc_all('@setDataFrame', 'onMetaData', {'width': 320.0}), 4, t, msid)
                elif k == 'join' and len(self.players) < 4:
                    self.sync(q, 'join')
                    self.join(len(mux.out))
                elif k == 'leave' and self.players:
                    x = self.players.pop(e[1] % len(self.players))
                    x['s'].close()
                    labels.add('leave')
                elif k == 'look':
                    self.sync(q, 'look')
                    for x in self.players:
                        self.check(x, mux, types, 'during publication %d' % pi)
                elif k == 'second':
                    self.second(p, t, e[1])
                    labels.add('second publisher')
            if p['end'] == 4:
                # the end arrives together with the last frames
                pass
            else:
                self.sync(q, 'end')
            mux.flush()
            if p['end'] < 3 or p['end'] == 4:
                q.cmd(['closeStream', 'deleteStream', 'closeStream', '', 'deleteStream'][p['end']], *([0.0, None] if p['end'] in (0, 2) else [0.0, None, float(msid)]), **({'msid': msid} if p['end'] in (0, 2) else {}))
                if p['end'] == 2:
                    pay, want = self.frame(p, True, [(0, 40)], 0, n)
                    q.write(rtmp.VIDEO, h, 6, t, msid)
                    q.write(rtmp.VIDEO, pay, 6, t, msid)
                    q.write(rtmp.AUDIO, media.aac(b'xyz'), 5, t, msid)
                    labels.add('frames after the end')
                    if q.user_ping(1) is None:
                        q.close()
                        q = None
                else:
                    self.sync(q, 'closed')
            else:
                q.close()
                q = None
            self.gone()
            for x in self.players:
                k = self.check(x, mux, types, 'after publication %d' % pi)
                if k > 1 and (x['base'] > 0 or x['pubs']):
                    nt = True
                    labels.add('late' if x['base'] > 0 else 'two')
                b = x['s'].body()
                x['cut'] = len(b[2]) if b else 0
                if x['got']:
                    x['pubs'] += 1
                x['base'] = -1
            if self.ng.crashes():
                raise Violation('crash: ' + self.ng.crashes()[0][:600])
            labels.add(p['v'] + '+' + p['a'])
        return nt, labels

    def second(self, p, t, how):
        """a publisher that is refused sends frames all the same"""
        q = rtmp.Conn(('127.0.0.1', self.port), timeout=self.patience)
        self.conns.append(q)
        q.handshake('simple')
        q.connect('live', 'rtmp://127.0.0.1/live')
        msid = q.create_stream()
        q.publish(self.name, msid=msid)
        h, ps = self.headers(p, 1)
        q.write(rtmp.VIDEO, h, 6, t, msid)
        q.write(rtmp.AUDIO, self.asc((2, 3, 1)), 5, t, msid)
        for i in range(3):
            q.write(rtmp.VIDEO, self.frame(p, i == 0, [(0, 50)], 0, i)[0], 6, t + i * 40, msid)
            q.write(rtmp.AUDIO, media.aac(b'second%d' % i), 5, t + i * 2000, msid)
        q.user_ping(1)
        q.close()
        self.settle()

    def gone(self):
        """the server knows that the publisher left"""
        end = time.monotonic() + self.patience
        while True:
            x = rtmp.Conn(('127.0.0.1', self.port), timeout=self.patience)
            x.handshake('simple')
            x.connect('live', 'rtmp://127.0.0.1/live')
            m = x.create_stream()
            x.publish(self.name, msid=m)
            code = x.wait_status(('NetStream.Publish.Start', 'NetStream.Publish.BadName'))
            x.close()
            self.settle()
            if code == 'NetStream.Publish.Start':
                return
            if time.monotonic() > end:
                raise Violation('a stream is still published after its publisher left')


if __name__ == '__main__':
    main(R13)
