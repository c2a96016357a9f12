"""R11: recorded files are well-formed FLV that hold exactly the selected frames. Publish histories against a model of the recorder."""
import os, random, re, struct, sys, time
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from hypothesis import strategies as st
from lib import build, flv, media, ngx, rtmp
from lib.check import Prop, Violation, Inconclusive, main

A, V, K = 1, 2, 4
ALL = A | V


def rec(flags, suffix='.flv', **kw):
    return dict(flags=flags, suffix=suffix, append=kw.get('append', False), size=kw.get('size', 0), frames=kw.get('frames', 0),
                interval=kw.get('interval', 0), unique=kw.get('unique', False), notify=kw.get('notify', False))


# name, flavour, recorders of the application (the first one without a block when there is only one)
VARIANTS = [
    ('all', 'plain', [rec(ALL)]),
    ('kinds', 'plain', [rec(ALL, '.all.flv'), rec(A, '.a.flv'), rec(V, '.v.flv'), rec(K, '.k.flv'), rec(A | K, '.ak')]),
    ('append', 'plain', [rec(ALL, '.all.flv', append=True), rec(A | K, '.ak.flv', append=True), rec(V, '.v.flv', append=True), rec(ALL, '.m.flv', append=True, frames=5)]),
    ('limits', 'plain', [rec(ALL, '.s.flv', size=2000), rec(ALL, '.f.flv', frames=3), rec(A, '.a.flv', size=40), rec(K, '.k.flv', frames=1), rec(ALL, '.x.flv', size=45)]),
    ('asan', 'asan', [rec(ALL, '.all.flv', append=True, size=1500), rec(A | K, '.ak.flv', frames=4), rec(K, '.k.flv', append=True), rec(ALL, '-%Y.flv')]),
    ('interval', 'plain', [rec(ALL, '.i.flv', interval=60), rec(ALL, '.ia.flv', interval=60, append=True), rec(A, '.a.flv', interval=60, notify=True), rec(K, '.k.flv', append=True, interval=60)]),
    ('unique', 'plain', [rec(ALL, '.flv', unique=True, notify=True), rec(V, '.v-%d.flv', unique=True)]),
    ('fault', 'plain', [rec(ALL, '.all.flv'), rec(V, '.v.flv', append=True)]),
]
LIMIT = 32768
NAMES = ['s', 'a b', 'x/y', '..', '../up', 'k/../../z', '%41', '\u00e9', 'a&b?', '/abs', 'n' * 80, '.', 'x/..', 'q"\'<']


def escape(name):
    n = name.encode()
    i = 0
    while i < len(n):
        if n[i:i + 1] == b'/' and n[i + 1:i + 3] == b'..' and n[i + 3:i + 4] == b'/':
            n = n[:i]
            break
        i += 1
    return ''.join(chr(c) if chr(c).isalnum() and c < 128 or chr(c) in '-._~' else '%%%02X' % c for c in n)


class Model:
    """what one recorder does with one name"""

    def __init__(self, r):
        self.r = r
        self.exists = False
        self.tags, self.size = [], 0
        self.isopen = self.failed = False
        self.limit = 1 << 60

    def open(self, now):
        if self.isopen:
            return
        self.isopen = True
        self.failed = False
        self.init = self.aac = self.avc = self.key = False
        self.n, self.epoch, self.shift = 0, 0, 0
        self.last = now
        if not self.r['append']:
            self.tags, self.size = [], 0
        elif self.tags:
            self.shift = self.tags[-1][1]
        self.exists = True

    def close(self):
        self.isopen = False

    def write(self, typ, ts, pay, count):
        if self.size + 15 + len(pay) > self.limit:
            self.failed = True
            self.ever = True
            self.close()
            return
        t = ts - self.epoch & 0xffffffff
        self.tags.append((typ, 0 if t >> 31 else t, pay))
        self.size += 15 + len(pay)
        self.n += count
        if self.r['size'] and self.size >= self.r['size'] or self.r['frames'] and self.n >= self.r['frames']:
            self.close()

    def frame(self, f, pub, now):
        """f: (type, ts, payload, key, header); pub: what the codec parser knows of the publication"""
        r = self.r
        typ, ts, pay, key, header = f
        brk = key if typ == 9 else not r['flags'] & V
        if brk:
            if r['interval']:
                lo, hi = now[0] - self.last[1], now[1] - self.last[0]
                if lo > r['interval'] / 1000:
                    self.close()
                    self.open(now)
                elif hi + 0.004 > r['interval'] / 1000:
                    raise Inconclusive('timing')
            elif not self.failed:
                self.open(now)
        if not self.isopen or not r['flags'] & (A if typ == 8 else V) and not (typ == 9 and key and r['flags'] & K):
            return
        if not self.init:
            self.init = True
            self.epoch = ts - self.shift
            if self.size == 0:
                self.size = 13
        if pub['aac'] and not self.aac and r['flags'] & A:
            self.aac = True
            self.write(8, ts, pub['aac'], 0)
            if not self.isopen:
                return
        if pub['avc'] and not self.avc and r['flags'] & (V | K):
            self.avc = True
            self.write(9, ts, pub['avc'], 0)
            if not self.isopen:
                return
        if typ == 9:
            if pub['vcodec'] == 7 and not self.avc:
                return
            if key and not (header and pub['vcodec'] == 7):
                self.key = True
            if not self.key:
                return
        elif pub['acodec'] == 10 and not self.aac:
            return
        self.write(typ, ts, pay, 1)


class R11(Prop):
    id = 'R11'
    rule = ('a case is a history of one to four publications of a name (AVC, HEVC, H.263 or no video; AAC, MP3 or no audio; headers at the start, late, repeated or missing; timestamps that jump, stand still, go back or exceed 24 bits), '
            'with refused publishers in between and different ways to end, in one of 8 recorder configurations; every file is parsed and compared with a model of each recorder. '
            'Non-trivial: a file with at least two key or audio frames was compared and something happened besides (second publication, limit reached, refused publisher, time going back, failed write)')
    assumptions = ['the local time does not pass a second, day or year boundary in a way that changes a file name unnoticed: names with times are matched by pattern',
                   'audio and video frames have at least two bytes and a frame type of 1 or 2']
    quick_cases = 500
    thorough_cases = 8000
    quick_budget = 40
    variants = VARIANTS
    patience = 6

    def prebuild(cls):
        build.modules('plain')
        build.modules('asan')

    def setup(self):
        self.vname, flavour, self.recs = self.variant
        self.port = ngx.free_port()
        d = []
        for i, r in enumerate(self.recs):
            b = 'record %s; record_path @DIR@/top/rec; record_suffix "%s"; ' % (' '.join(n for n, m in (('all', ALL), ('audio', A), ('video', V), ('keyframes', K)) if r['flags'] & m == m and (m != A and m != V or r['flags'] & ALL != ALL)), r['suffix'])
            if r['append']:
                b += 'record_append on; '
            if r['unique']:
                b += 'record_unique on; '
            if r['notify']:
                b += 'record_notify on; record_lock on; '
            if r['size']:
                b += 'record_max_size %d; ' % r['size']
            if r['frames']:
                b += 'record_max_frames %d; ' % r['frames']
            if r['interval']:
                b += 'record_interval %dms; ' % r['interval']
            d.append(b if len(self.recs) == 1 else 'recorder r%d { %s }' % (i, b))
        wrap = ()
        if self.vname == 'fault':
            wrap = ['/bin/sh', '-c', 'trap "" XFSZ; ulimit -f %d; exec "$@"' % (LIMIT // 512), 'sh']
        self.ng = ngx.Nginx(rtmp='server { listen 127.0.0.1:%d; ping 1h; timeout 1h; out_queue 4096; max_message 10m; application live { live on; %s } application plain { live on; } }' % (self.port, '\n'.join(d)),
                            flavour=flavour, log_level='emerg', wrap=wrap)
        self.top = os.path.join(self.ng.dir, 'top')
        self.dir = os.path.join(self.top, 'rec')
        os.makedirs(self.dir)
        self.ng.start([self.port])

    def teardown(self):
        self.ng.stop()

    def strategy(self):
        size = st.one_of(st.integers(0, 40), st.integers(0, 300), st.sampled_from([117, 128, 129, 4096, 4097, 5000, 12000]))
        dt = st.one_of(st.integers(0, 60), st.sampled_from([0, 0, -1, -30, -5000, 1, 40, 5000, 1 << 24, (1 << 24) - 1]))
        fr = st.tuples(st.sampled_from(['key', 'key', 'inter', 'inter', 'aud', 'aud', 'vh', 'ah', 'vh2']), dt, size)
        ev = st.one_of(fr, fr, fr, fr, fr, fr, fr, st.tuples(st.sampled_from(['peek', 'busy', 'busyframe', 'wait', 'meta', 'player', 'eofmsg']), st.integers(0, 3), st.integers(0, 2)))
        pub = st.fixed_dictionaries({'v': st.sampled_from(['avc', 'avc', 'avc', 'h263', 'hevc', 'none']), 'a': st.sampled_from(['aac', 'aac', 'mp3', 'none']), 'head': st.sampled_from(['both', 'both', 'none', 'a', 'v', 'inter']),
                                     't0': st.one_of(st.integers(0, 100000), st.sampled_from([0, 1, 0xfffffe, 0xffffff, 0x1000000, 0x7fffff00])), 'ev': st.lists(ev, min_size=2, max_size=40), 'end': st.integers(0, 3)})
        return st.fixed_dictionaries({'name': st.sampled_from(['s'] * 6 + NAMES), 'pubs': st.lists(pub, min_size=1, max_size=4), 'arg': st.booleans()})

    def publisher(self, name, expect='NetStream.Publish.Start'):
        c = rtmp.Conn(('127.0.0.1', self.port), timeout=self.patience)
        self.conns.append(c)
        c.handshake('simple')
        c.connect('live', 'rtmp://127.0.0.1/live')
        c.create_stream()
        c.set_chunk(65536)
        c.publish(name)
        code = c.wait_status(('NetStream.Publish.Start', 'NetStream.Publish.BadName'))
        if code != expect:
            raise Violation('publish %r: %r instead of %r' % (name, code, expect))
        return c

    def run(self, case):
        self.conns = []
        try:
            return self.history(case)
        except (rtmp.Closed, ConnectionRefusedError) as e:
            raise Violation('connection lost: %s %s' % (e, (self.ng.crashes() or [''])[0][:600]))
        except rtmp.Timeout as e:
            raise Violation('no answer: %s' % e)
        except rtmp.ProtoError as e:
            raise Violation('not RTMP: %s' % e)
        finally:
            for c in self.conns:
                c.close()

    def sync(self, c, what):
        if c.user_ping(self.patience) is None:
            raise Violation('no answer to a ping: %s' % what)

    def frames(self, p, case):
        """events with their payloads"""
        vh = {'avc': media.avc_header(), 'hevc': b'\x1c\0\0\0\0' + bytes(range(1, 60)), 'h263': b'\x12\0' + media.filler(7, 20), 'none': None}[p['v']]
        vh2 = {'avc': media.avc_header(media.SPS[:-1] + b'\x59'), 'hevc': b'\x1c\0\0\0\0' + bytes(range(60, 130))}.get(p['v'])
        vc = {'avc': 7, 'hevc': 12, 'h263': 2}.get(p['v'])
        ah = media.aac_header() if p['a'] == 'aac' else None
        out, n = [], 0
        ts = p['t0']
        pre = {'both': [('vh', 0, 0), ('ah', 0, 0)], 'none': [], 'a': [('ah', 0, 0)], 'v': [('vh', 0, 0)], 'inter': [('inter', 0, 9), ('aud', 1, 9), ('vh', 0, 0), ('ah', 0, 0)]}[p['head']]
        for e in pre + list(p['ev']):
            k, x, y = e
            if self.vname == 'fault' and k in ('key', 'inter', 'aud'):
                y *= 25
            if k in ('key', 'inter', 'aud', 'vh', 'ah', 'vh2'):
                ts = max(0, min(ts + x, 0x7fffffff))
                n += 1
                if k in ('key', 'inter') and vc:
                    head = bytes([(0x10 if k == 'key' else 0x20) | vc])
                    pay = head + (b'' if vc == 2 else b'\1\0\0\0') + media.filler(n, y + 1)
                    out.append(('f', 9, ts, pay, k == 'key', pay[1] == 0))
                elif k in ('vh', 'vh2') and vc:
                    pay = vh2 if k == 'vh2' and vh2 else vh
                    out.append(('f', 9, ts, pay, True, True))
                elif k == 'aud' and p['a'] != 'none':
                    pay = (b'\xaf\1' if ah else b'\x2f') + media.filler(n, y + 1)
                    out.append(('f', 8, ts, pay, False, False))
                elif k == 'ah' and ah:
                    out.append(('f', 8, ts, ah, False, True))
            else:
                out.append(e)
        return out, vc, ah

    def files(self):
        out = []
        for root, ds, fs in os.walk(self.top):
            out += [os.path.relpath(os.path.join(root, f), self.dir) for f in fs]
            if root not in (self.top, self.dir):
                out.append(os.path.relpath(root, self.dir) + '/')
        return sorted(out)

    def compare(self, models, name, ended, pats, what):
        seen = self.files()
        want = []
        compared = 0
        for m, pat in zip(models, pats):
            if not m.exists:
                continue
            hit = [f for f in seen if re.fullmatch(pat, f)]
            if len(hit) != 1 and not (m.r['unique'] and 1 < len(hit) < 9):
                raise Violation('%s: files %r, expected one like %r' % (what, seen, pat))
            want += hit
            b = open(os.path.join(self.dir, hit[-1]), 'rb').read()
            if not b and m.size == 0:
                continue
            try:
                flags, tags, rest = flv.parse(b, final=True)
            except flv.FlvError as e:
                raise Violation('%s: %s is not well formed: %s; %d bytes, %d tags expected' % (what, hit[-1], e, len(b), len(m.tags)))
            if tags != m.tags:
                i = next(i for i in range(max(len(tags), len(m.tags))) if i >= len(tags) or i >= len(m.tags) or tags[i] != m.tags[i])
                sh = lambda l: [(t, ts, '%d:%s' % (len(d), d[:8].hex())) for t, ts, d in l[i:i + 2]]
                raise Violation('%s: %s: tag %d (of %d, expected %d): got %r, expected %r' % (what, hit[-1], i, len(tags), len(m.tags), sh(tags), sh(m.tags)))
            if not m.isopen and ended:
                av = (4 if any(t[0] == 8 for t in tags) else 0) | (1 if any(t[0] == 9 for t in tags) else 0)
                if flags != av and not (hasattr(m, 'ever') and flags == 5):
                    raise Violation('%s: %s says it has %s but has %s' % (what, hit[-1], flags, av))
            if len([t for t in tags if t[2][1:2] != b'\0']) > 1:
                compared += 1
        extra = [f for f in seen if f not in want]
        if extra:
            raise Violation('%s: unexpected files %r' % (what, extra[:4]))
        return compared

    def clean(self):
        for root, ds, fs in os.walk(self.top, topdown=False):
            for f in fs:
                os.unlink(os.path.join(root, f))
            if root not in (self.top, self.dir):
                os.rmdir(root)

    def history(self, case):
        self.clean()
        name = case['name']
        nm = name.split('?')[0]
        models = [Model(r) for r in self.recs]
        if self.vname == 'fault':
            for m in models:
                m.limit = LIMIT
        pats = [re.escape(escape(nm)) + (r'-\d{10}' if r['unique'] else '') + re.escape(r['suffix']).replace('%Y', r'\d{4}').replace('%d', r'\d\d').replace(r'\%', '') for r in self.recs]
        labels, special, ncmp = set(), 0, 0
        pubs = case['pubs'] if self.vname not in ('unique',) else case['pubs'][:1]
        for pi, p in enumerate(pubs):
            t0 = time.time()
            c = self.publisher(name + ('?x=1' if case['arg'] and '?' not in name else ''))
            now = (t0, time.time())
            for m in models:
                m.open(now)
            evs, vc, ah = self.frames(p, case)
            pub = {'aac': None, 'avc': None, 'vcodec': None, 'acodec': None}
            busy, player = None, None
            back, last = False, 0
            self.sync(c, 'start')
            for e in evs:
                if e[0] == 'f':
                    _, typ, ts, pay, key, header = e
                    back |= ts < last
                    last = ts
                    t0 = time.time()
                    c.write(rtmp.VIDEO if typ == 9 else rtmp.AUDIO, pay, 6 if typ == 9 else 5, ts, 1)
                    if self.vname == 'interval':
                        self.sync(c, 'frame')
                    now = (t0, time.time())
                    if typ == 9:
                        pub['vcodec'] = pay[0] & 15
                        if header and pub['vcodec'] in (7, 12) and len(pay) >= 3:
                            pub['avc'] = pay
                    else:
                        pub['acodec'] = pay[0] >> 4
                        if header and pub['acodec'] == 10:
                            pub['aac'] = pay
                    for m in models:
                        m.frame((typ, ts, pay, key, header), pub, now)
                elif e[0] == 'peek':
                    self.sync(c, 'peek')
                    ncmp += self.compare(models, nm, False, pats, 'while publishing')
                    labels.add('read while recording')
                elif e[0] == 'busy' and busy is None:
                    self.sync(c, 'before a second publisher')
                    busy = self.publisher(name, 'NetStream.Publish.BadName')
                    special += 1
                    labels.add('refused publisher')
                elif e[0] == 'busyframe' and busy:
                    busy.write(rtmp.VIDEO, b'\x17\x01\0\0\0intruder', 6, 5, 1)
                    busy.write(rtmp.AUDIO, b'\xaf\x01intruder', 5, 5, 1)
                    self.sync(busy, 'refused publisher')
                elif e[0] == 'wait' and self.vname == 'interval':
                    self.sync(c, 'wait')
                    time.sleep(0.075)
                    labels.add('interval passed')
                    special += 1
                elif e[0] == 'player' and self.vname == 'fault' and player is None:
                    self.sync(c, 'before a new client')
                    player = [rtmp.Conn(('127.0.0.1', self.port), timeout=self.patience) for _ in range(4)]
                    for q in player:
                        self.conns.append(q)
                        q.handshake('simple')
                        q.connect('plain', 'rtmp://127.0.0.1/plain')
                elif e[0] == 'meta':
                    c.write(rtmp.AMF_META, b'\x02\x00\x0d@setDataFrame\x02\x00\x0aonMetaData\x08\0\0\0\0\0\0\x09', 4, last, 1)
            self.sync(c, 'end of publication')
            for q in player or []:
                n = len(q.msgs)
                self.sync(q, 'client that came while recording')
                if any(m.type in (8, 9, 18) for m in q.msgs[n:]):
                    raise Violation('a client of another stream got media')
            if self.vname == 'fault' and any(hasattr(m, 'ever') for m in models):
                labels.add('disk full')
                special += 1
            ends = p['end']
            if busy and ends & 1:
                busy.close()
                self.settle()
            if ends < 2:
                c.cmd('deleteStream', 0.0, None, 1.0)
                self.sync(c, 'after deleteStream')
            else:
                c.close(rst=ends == 3)
                self.settle(c)
            for m in models:
                m.close()
            ncmp += self.compare(models, nm, True, pats, 'after publication %d' % pi)
            if busy:
                busy.close()
            c.close()
            if pi or back:
                special += 1
            labels.add(p['v'] + '+' + p['a'])
            if self.ng.crashes():
                raise Violation('crash: ' + self.ng.crashes()[0][:600])
        if any(m.r['size'] and m.size >= m.r['size'] or m.r['frames'] and len(m.tags) >= m.r['frames'] for m in models):
            special += 1
            labels.add('limit reached')
        return bool(special and ncmp), labels

    def settle(self, c=None):
        """wait until the server has noticed that a publisher is gone: it can be published again"""
        if c is None:
            time.sleep(0.003)
            return
        port = '%04X' % self.port
        # a fresh publisher of another application on the same worker is answered after the closed connection was noticed; the kernel reports both in order
        t = time.monotonic() + self.patience
        while True:
            q = rtmp.Conn(('127.0.0.1', self.port), timeout=self.patience)
            try:
                q.handshake('simple')
                q.connect('plain', 'rtmp://127.0.0.1/plain')
                self.sync(q, 'settle')
            finally:
                q.close()
            fds = self.fds()
            if not any('/rec/' in f for f in fds):
                return
            if time.monotonic() > t:
                raise Violation('a recorded file is still open after its publisher left: %r' % [f for f in fds if '/rec/' in f])
            time.sleep(0.001)

    def fds(self):
        out = []
        for pid in self.pids():
            d = '/proc/%d/fd' % pid
            for f in os.listdir(d):
                try:
                    out.append(os.readlink(os.path.join(d, f)))
                except OSError:
                    pass
        return out

    def pids(self):
        if not getattr(self, '_p', None):
            self._p = self.ng.worker_pids()
        return [p for p in self._p if os.path.exists('/proc/%d/fd' % p)]


if __name__ == '__main__':
    main(R11)
