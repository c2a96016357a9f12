"""R12: HLS on disk. Publish histories against a model of the segmenter; every playlist is parsed, every segment demultiplexed."""
import ctypes, os, re, struct, sys, time
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from hypothesis import strategies as st
from lib import build, media, ngx, rtmp, ts
from lib.check import Prop, Violation, main


def cf(name, flavour='plain', **kw):
    d = dict(name=name, flavour=flavour, frag=1000, play=100000, maxfrag=None, nested=False, keys=0, continuous=True, slicing='plain', naming='sequential',
             type='live', gran=0, sync=0, delay=300, abuf=1 << 20, base='', variant=False, keypath=False)
    d.update(kw)
    return d


VARIANTS = [cf('plain'), cf('window', frag=500, play=2000), cf('keys', nested=True, keys=2, base='http://x/y/', keypath=True), cf('asan', 'asan', frag=700, play=4200, abuf=4096, variant=True, continuous=False),
            cf('aligned', slicing='aligned', type='event', maxfrag=3000), cf('sync', sync=2, delay=1000, frag=2000, play=20000, nested=True), cf('key1', keys=1, continuous=False, base='b/', naming='timestamp', gran=64),
            cf('asan2', 'asan', frag=500, play=2500, keys=3, nested=True, delay=100)]
BODY = 0x1fffffff8


def nal(n, size):
    return (b'%x;' % n + media.filler(n, size + 4)[4:])[:max(size, 3)]


class Model:
    """the segmenter for one name"""

    def __init__(self, c):
        self.c = c
        self.win = c['play'] // c['frag']
        self.seq, self.list = 0, []
        self.clist_ok = True

    def publish(self):
        if not self.c['continuous']:
            self.seq, self.list = 0, []
        self.open = None
        self.frag_ts = 0
        self.nkey, self.key = 0, 0
        self.abuf, self.apts = [], 0
        self.asize = 0
        self.abase = self.anum = 0
        self.first = len(self.list) + self.seq
        self.lost = None

    def close(self):
        if self.open is None:
            return
        self.list.append(self.open)
        if len(self.list) > self.win:
            self.list.pop(0)
            self.seq += 1
        self.open = None

    def cut(self, t, discont):
        self.close()
        n = t if self.c['naming'] == 'timestamp' else self.seq + len(self.list)
        n -= n % (self.c['gran'] or 1)
        k = self.c['keys']
        if k:
            if self.nkey == 0:
                self.nkey, self.key = k - 1, n
            else:
                self.nkey -= 1
        self.open = {'id': n, 'discont': discont, 'dur': 0.0, 'pes': [], 'key': self.key}
        self.frag_ts = t
        self.flush()

    def flush(self):
        if self.open is None or not self.abuf:
            return
        self.open['pes'].append(('a', self.apts, self.apts, False, self.abuf))
        self.abuf, self.asize = [], 0

    def update(self, t, boundary, rate):
        c = self.c
        discont, force = True, False
        if self.open:
            d = t - self.frag_ts
            if d > (c['maxfrag'] or c['frag'] * 10) * 90 or d < -90000:
                force = True
            else:
                discont = False
                if d > 0:
                    self.open['dur'] = d / 90000
        if c['slicing'] == 'plain':
            if self.open and self.open['dur'] < c['frag'] / 1000:
                boundary = False
        else:
            same = self.frag_ts // (c['frag'] * 90) == t // (c['frag'] * 90)
            if self.open and same:
                boundary = False
            if not self.open and (self.frag_ts == 0 or same):
                self.frag_ts = t
                boundary = False
        if boundary or force:
            self.cut(t, discont)
        if self.open and self.abuf and self.apts + c['delay'] * 90 // rate < t:
            self.flush()

    def audio(self, t, item, size, video, rate):
        if size > self.c['abuf']:
            return
        t *= 90
        self.update(t, not video, 2)
        if self.asize + size > self.c['abuf']:
            self.flush()
            if self.asize + size > self.c['abuf']:
                return          # nowhere to put it before the first segment
        first = not self.abuf
        self.abuf = self.abuf + [item]
        self.asize += size
        if not first:
            self.anum += 1
            return
        self.apts = t
        if not self.c['sync'] or not rate:
            return
        est = self.abase + self.anum * 90000 * 1024 // rate
        if abs(est - t) <= self.c['sync'] * 90:
            self.anum += 1
            self.apts = est
        else:
            self.abase, self.anum = t, 1

    def video(self, t, cts, key, item, aac):
        t *= 90
        self.update(t, key and (not aac or not self.open or bool(self.abuf)), 1)
        if self.open and item[1]:
            self.open['pes'].append(('v', t + cts * 90, t, key, item))


class R12(Prop):
    id = 'R12'
    rule = ('a case is one to three publications of a name (AVC, HEVC or no video, AAC, MP3 or no audio; several NAL units per frame, generated sizes, NAL length sizes and composition times; timestamps that jump or go back) '
            'in one of 8 HLS configurations (windows, nesting, encryption, alignment, naming, sync, variants); playlists are read during and after, every listed segment is decrypted, demultiplexed and compared with a model. '
            'Non-trivial: at least two segments were compared and something happened besides (window moved, second publication, forced split, key change, time going back)')
    assumptions = ['the headers of a codec come before its frames', 'removal of old segments (hls_cleanup) and the names of type system, which depend on the real time, are off', 'a frame fits the 1 MB frame buffer']
    quick_cases = 700
    thorough_cases = 6000
    quick_budget = 45
    variants = [(v['name'], v) for v in VARIANTS]
    patience = 6

    def prebuild(cls):
        build.modules('plain')
        build.modules('asan')

    def setup(self):
        self.c = c = self.variant[1]
        self.port = ngx.free_port()
        d = 'hls on; hls_path @DIR@/top/hls; hls_cleanup off; hls_fragment %dms; hls_playlist_length %dms; hls_sync %dms; hls_max_audio_delay %dms; hls_audio_buffer_size %d; ' % (c['frag'], c['play'], c['sync'], c['delay'], c['abuf'])
        d += 'hls_continuous %s; hls_nested %s; hls_fragment_naming %s; hls_fragment_slicing %s; hls_type %s; ' % ('on' if c['continuous'] else 'off', 'on' if c['nested'] else 'off', c['naming'], c['slicing'], c['type'])
        d += 'hls_max_fragment %dms; ' % (c['maxfrag'] or c['frag'] * 10)
        if c['keys']:
            d += 'hls_keys on; hls_fragments_per_key %d; hls_key_url k/; ' % c['keys']
        if c['gran']:
            d += 'hls_fragment_naming_granularity %d; ' % c['gran']
        if c['keypath']:
            d += 'hls_key_path @DIR@/top/keys; '
        if c['base']:
            d += 'hls_base_url %s; ' % c['base']
        if c['variant']:
            d += 'hls_variant _low BANDWIDTH=100 X=y; hls_variant _hi BANDWIDTH=900; '
        self.ng = ngx.Nginx(rtmp='server { listen 127.0.0.1:%d; ping 1h; timeout 1h; out_queue 4096; max_message 10m; application live { live on; %s } application plain { live on; } }' % (self.port, d),
                            flavour=c['flavour'], log_level='alert' if c['flavour'] == 'plain' else 'error')
        self.top = os.path.join(self.ng.dir, 'top')
        self.dir = os.path.join(self.top, 'hls')
        self.keydir = os.path.join(self.top, 'keys') if c['keypath'] else self.dir
        os.makedirs(self.top)
        os.chmod(self.top, 0o777)
        self.ng.start([self.port])
        self._p = None

    def teardown(self):
        self.ng.stop()

    def strategy(self):
        size = st.one_of(st.integers(3, 60), st.integers(3, 400), st.sampled_from([117, 150, 151, 152, 153, 154, 165, 170, 171, 172, 176, 180, 184, 185, 355, 4096, 70000]))
        asize = st.one_of(st.integers(3, 60), st.integers(3, 400), st.sampled_from([100, 160, 161, 162, 163, 164, 165, 1000, 2000, 5000, 8184]))
        dt = st.one_of(st.integers(0, 120), st.integers(0, 700), st.sampled_from([0, -1, -30, -400, 1, 23, 40, 900, 1100]), st.sampled_from([0, 20, 40, -5000, 11000, -900, 31000]))
        nals = st.lists(st.tuples(st.integers(0, 9), size), min_size=1, max_size=4)
        cts = st.sampled_from([0, 0, 0, 40, 1, 200, -40, 5000])
        v = st.tuples(st.sampled_from(['key', 'key', 'inter', 'inter', 'inter']), dt, nals, cts)
        a = st.tuples(st.just('aud'), dt, asize)
        ev = st.one_of(v, v, v, a, a, a, st.tuples(st.sampled_from(['peek', 'vh2', 'ah2', 'meta', 'eofmsg', 'vseq']), st.integers(0, 3)))
        pub = st.fixed_dictionaries({'v': st.sampled_from(['avc', 'avc', 'avc', 'hevc', 'none']), 'a': st.sampled_from(['aac', 'aac', 'aac', 'mp3', 'none']), 'nlen': st.sampled_from([4, 4, 4, 2, 3]),
                                     'aconf': st.tuples(st.sampled_from([2, 2, 1, 3, 5]), st.integers(0, 11), st.integers(1, 7)), 'psets': st.tuples(st.integers(1, 3), st.integers(1, 3)),
                                     't0': st.one_of(st.integers(0, 100000), st.sampled_from([0, 0, 1, 0xffffff, 95443000, 0x7fff0000])), 'ev': st.one_of(st.lists(ev, min_size=3, max_size=30), st.lists(ev, min_size=25, max_size=60)), 'end': st.integers(0, 3), 'cut': st.one_of(st.just(0), st.integers(0, 40)), 'chunk': st.sampled_from([128, 129, 4096, 65536])})
        return st.fixed_dictionaries({'name': st.sampled_from(['s', 's', 'a b', 'x-12', 'n' * 60, 's_low', 'str_hi', '7']), 'pubs': st.lists(pub, min_size=1, max_size=3)})

    def run(self, case):
        self.conns = []
        try:
            return self.history(case)
        except (rtmp.Closed, ConnectionRefusedError) as e:
            raise Violation('connection lost: %s %s' % (e, (self.ng.crashes() or [''])[0][:600]))
        except rtmp.Timeout as e:
            raise Violation('no answer: %s' % e)
        except rtmp.ProtoError as e:
            raise Violation('not RTMP: %s' % e)
        finally:
            for c in self.conns:
                c.close()

    def sync(self, c, what):
        if c.user_ping(self.patience) is None:
            raise Violation('no answer to a ping: %s %s' % (what, (self.ng.crashes() or [''])[0][:600]))

    def clean(self):
        for root, ds, fs in os.walk(self.top, topdown=False):
            for f in fs:
                os.unlink(os.path.join(root, f))
            if root != self.top:
                os.rmdir(root)

    # ---- stream

    def asc(self, ac):
        if ac[0] < 5:
            return media.aac_header(*ac)
        return b'\xaf\0' + struct.pack('>I', (ac[0] << 11 | ac[1] << 7 | ac[2] << 3) << 16 | max(0, ac[1] - 3) << 15 | 2 << 10)

    def headers(self, p, alt=0):
        """(payload, parameter sets) of the video header"""
        nlen = p['nlen'] - 1
        a, b = p['psets']
        if p['v'] == 'avc':
            sps = [media.SPS[:-1] + bytes([0x58 + i + alt * 8]) for i in range(a)]
            pps = [b'\x68' + bytes([0xeb, 0xe3, i + 1 + alt * 8]) for i in range(b)]
            h = b'\x17\0\0\0\0\1' + sps[0][1:4] + bytes([0xfc | nlen, 0xe0 | a])
            h += b''.join(struct.pack('>H', len(x)) + x for x in sps) + bytes([b]) + b''.join(struct.pack('>H', len(x)) + x for x in pps)
            return h, sps + pps
        ps = [(32, [b'\x40\1vps%d' % (1 + alt)]), (33, [b'\x42\1' + bytes([1, 1, 0x60, 9 + alt]) + b'sps%d' % i for i in range(a)]), (34, [b'\x44\1pps%d' % (i + alt * 8) for i in range(b)])]
        h = b'\x1c\0\0\0\0\1' + bytes(range(1, 21)) + bytes([0xf0 | nlen]) + bytes([len(ps)])
        for t, l in ps:
            h += bytes([0x80 | t]) + struct.pack('>H', len(l)) + b''.join(struct.pack('>H', len(x)) + x for x in l)
        return h, [x for t, l in ps for x in l]

    def frame(self, p, key, nals, cts, n):
        """(payload, NAL units a player must get)"""
        out, want = b'', []
        avc = p['v'] == 'avc'
        for i, (sel, size) in enumerate(nals):
            if p['nlen'] == 2:
                size = min(size, 60000)
            if i == len(nals) - 1 or sel > 4:
                t = (5 if key else 1) if avc else ([19, 20, 21][sel % 3] if key else [1, 0, 0, 8][sel % 4])
            else:
                t = ([6, 7, 8, 9, 6] if avc else [39, 32, 33, 34, 35])[sel]
            body = (bytes([0x60 | t]) if avc else bytes([t << 1, 1])) + nal(n * 8 + i, size)
            if sel == 9 and i:
                out += b'\0' * p['nlen']
            out += len(body).to_bytes(p['nlen'], 'big') + body
            if not (t in (7, 8, 9) if avc else 32 <= t <= 35):
                want.append(body)
        f = bytes([(0x10 if key else 0x20) | (7 if avc else 12)]) + b'\1' + (cts & 0xffffff).to_bytes(3, 'big')
        return f + out, want

    # ---- oracle

    def decrypt(self, b, key, iv, what):
        lib = ctypes.CDLL('libcrypto.so.3')
        lib.EVP_CIPHER_CTX_new.restype = lib.EVP_aes_128_cbc.restype = ctypes.c_void_p
        x = ctypes.c_void_p(lib.EVP_CIPHER_CTX_new())
        out, n, m = ctypes.create_string_buffer(len(b) + 32), ctypes.c_int(0), ctypes.c_int(0)
        lib.EVP_DecryptInit_ex(x, ctypes.c_void_p(lib.EVP_aes_128_cbc()), None, key, iv)
        ok = lib.EVP_DecryptUpdate(x, out, ctypes.byref(n), b, len(b)) and lib.EVP_DecryptFinal_ex(x, ctypes.byref(out, n.value), ctypes.byref(m))
        lib.EVP_CIPHER_CTX_free(x)
        if not ok:
            raise Violation('%s cannot be decrypted with its key' % what)
        return out.raw[:n.value + m.value]

    def playlist(self, name, what):
        """parsed playlist: (sequence, target, event, [(discont, key uri, iv, duration, uri)])"""
        f = os.path.join(self.dir, name, 'index.m3u8') if self.c['nested'] else os.path.join(self.dir, name + '.m3u8')
        try:
            b = open(f).read()
        except FileNotFoundError:
            return None
        ls = b.split('\n')
        if ls.pop() != '' or ls[:2] != ['#EXTM3U', '#EXT-X-VERSION:3']:
            raise Violation('%s: not a playlist: %r' % (what, b[:200]))
        seq = target = None
        event, items = False, []
        disc, dur, key = False, None, (None, None)
        for l in ls[2:]:
            m = re.fullmatch(r'#EXT-X-MEDIA-SEQUENCE:(\d+)', l)
            if m and seq is None and not items:
                seq = int(m[1])
                continue
            m = re.fullmatch(r'#EXT-X-TARGETDURATION:(\d+)', l)
            if m and target is None and not items:
                target = int(m[1])
                continue
            if l == '#EXT-X-PLAYLIST-TYPE:EVENT' and not items:
                event = True
                continue
            if l == '#EXT-X-DISCONTINUITY' and dur is None and not disc:
                disc = True
                continue
            m = re.fullmatch(r'#EXT-X-KEY:METHOD=AES-128,URI="([^"]+)",IV=0x([0-9A-Fa-f]{32})', l)
            if m and dur is None:
                key = (m[1], bytes.fromhex(m[2]))
                continue
            m = re.fullmatch(r'#EXTINF:(\d+\.\d{3}),', l)
            if m and dur is None:
                dur = float(m[1])
                continue
            if l and not l.startswith('#') and dur is not None:
                items.append((disc, key[0], key[1], dur, l))
                disc, dur = False, None
                continue
            raise Violation('%s: unexpected line %r in the playlist %r' % (what, l, b[:300]))
        if seq is None or target is None or dur is not None or disc:
            raise Violation('%s: incomplete playlist %r' % (what, b[:300]))
        for it in items:
            if int(it[3] + 0.5) > target:
                raise Violation('%s: target duration %d, but a segment of %.3f s' % (what, target, it[3]))
        return seq, target, event, items

    def segment(self, name, it, what, keyid):
        c = self.c
        pre = c['base'] + ('' if c['nested'] and not c['base'] else name + ('/' if c['nested'] else '-'))
        if not it[4].startswith(pre) or not re.fullmatch(r'\d+\.ts', it[4][len(pre):]):
            raise Violation('%s: segment URI %r' % (what, it[4]))
        f = os.path.join(self.dir, name + ('/' if c['nested'] else '-') + it[4][len(pre):])
        try:
            b = open(f, 'rb').read()
        except FileNotFoundError:
            raise Violation('%s: the listed segment %r does not exist' % (what, it[4]))
        if c['keys']:
            kp = 'k/' + name + ('/' if c['nested'] else '-')
            if it[1] is None or not it[1].startswith(kp) or not re.fullmatch(r'\d+\.key', it[1][len(kp):]):
                raise Violation('%s: key URI %r' % (what, it[1]))
            try:
                key = open(os.path.join(self.keydir, name + ('/' if c['nested'] else '-') + it[1][len(kp):]), 'rb').read()
            except FileNotFoundError:
                raise Violation('%s: the key %r does not exist' % (what, it[1]))
            if len(key) != 16:
                raise Violation('%s: key of %d bytes' % (what, len(key)))
            if int(it[1][len(kp):-4]) != keyid or int.from_bytes(it[2], 'big') != keyid:
                raise Violation('%s: segment %s is listed with key %r and IV %s; its key is number %d' % (what, it[4], it[1], it[2].hex(), keyid))
            b = self.decrypt(b, key, it[2], '%s: segment %s' % (what, it[4]))
        elif it[1] is not None:
            raise Violation('%s: a key without encryption' % what)
        return it[4][len(pre):-3], b

    def compare(self, m, name, old, what):
        """the playlist and the listed segments are those of the model"""
        if not self.c['continuous'] and not m.list:
            return 0            # the previous playlist remains until there is a segment
        pl = self.playlist(name, what)
        if pl is None:
            if m.list or m.seq:
                raise Violation('%s: no playlist, %d segments expected' % (what, len(m.list)))
            return 0
        seq, target, event, items = pl
        if event != (self.c['type'] == 'event'):
            raise Violation('%s: playlist type' % what)
        if seq != m.seq or len(items) != len(m.list):
            raise Violation('%s: the playlist has %d segments from %d on, expected %d from %d on' % (what, len(items), seq, len(m.list), m.seq))
        cc = {}
        lastpub = None
        for i, (it, w) in enumerate(zip(items, m.list)):
            wh = '%s: segment %d (%s)' % (what, seq + i, it[4][-30:])
            num, b = self.segment(name, it, wh, w['key'])
            if int(num) != w['id']:
                raise Violation('%s: expected the number %d' % (wh, w['id']))
            if it[0] != w['discont']:
                raise Violation('%s: discontinuity is %s, expected %s' % (wh, it[0], w['discont']))
            if abs(it[3] - w['dur']) > 0.00101:
                raise Violation('%s: listed with %.3f s, but it has %.3f s' % (wh, it[3], w['dur']))
            k = (w['pub'], w['id'])
            if old.get(k, b) != b:
                raise Violation('%s: the segment changed after it was listed' % wh)
            if k in old:
                cc = None
                continue
            old[k] = b
            if w['pub'] != lastpub or cc is None:
                cc = {}
            lastpub = w['pub']
            try:
                self.content(ts.demux(b, cc), w, wh)
            except ts.TsError as e:
                raise Violation('%s: %s' % (wh, e))
        return len(items)

    def content(self, t, w, wh):
        vt, at = w['types']
        if t.streams != {k: v for k, v in ((0x100, vt), (0x101, at)) if v}:
            raise Violation('%s: the program map is %r' % (wh, t.streams))
        got = t.pes
        if len(got) != len(w['pes']):
            raise Violation('%s: %d PES packets, expected %d' % (wh, len(got), len(w['pes'])))
        for j, (g, e) in enumerate(zip(got, w['pes'])):
            self.access_unit(g, e, '%s: PES %d' % (wh, j))

    def access_unit(self, g, e, what):
        kind, pts, dts, key, item = e
        if g.pid != (0x100 if kind == 'v' else 0x101) or g.sid != (0xe0 if kind == 'v' else 0xc0):
            raise Violation('%s: PID %x, expected a %s frame' % (what, g.pid, kind))
        if g.pts != (pts + 63000) % (1 << 33) or g.dts != (dts + 63000) % (1 << 33):
            raise Violation('%s: %s frame with pts %s dts %s, expected %d and %d' % (what, kind, g.pts, g.dts, (pts + 63000) % (1 << 33), (dts + 63000) % (1 << 33)))
        if g.key != key:
            raise Violation('%s: random access %s, expected %s' % (what, g.key, key))
        if g.pcr is not None and (g.dts - g.pcr) % (1 << 33) > 200000:
            raise Violation('%s: clock reference %d, dts %d' % (what, g.pcr, g.dts))
        if key and g.pcr is None:
            raise Violation('%s: no clock reference' % what)
        if kind == 'a':
            fr = [(x[0], x[1]) for x in ts.adts(g.data)] if item[0][0] else None
            want = [(x[0], x[1]) for x in item] if item[0][0] else None
            if fr is None:
                fr, want = g.data, b''.join(x[1] for x in item)
            if fr != want:
                raise Violation('%s: wrong audio: %d frames of %r bytes, expected %d of %r' % (what, len(fr), [len(x[1]) for x in fr][:5] if want and isinstance(want, list) else len(fr), len(item), [len(x[1]) for x in item][:5]))
        else:
            self.nals(g.data, item, key, what)

    def nals(self, data, item, key, what):
        psets, want, avc = item
        got = ts.annexb(data)
        typ = (lambda n: n[0] & 31) if avc else (lambda n: n[0] >> 1 & 63)
        aud = 9 if avc else 35
        if typ(got[0]) != aud or any(typ(n) == aud for n in got[1:]):
            raise Violation('%s: an access unit must start with one delimiter: %r' % (what, [typ(n) for n in got]))
        ps = (7, 8) if avc else (32, 33, 34)
        rest = [n for n in got[1:] if typ(n) not in ps]
        if rest != want:
            raise Violation('%s: NAL units %r, expected %r' % (what, [(typ(n), len(n)) for n in rest], [(typ(n), len(n)) for n in want]))
        sets = [n for n in got if typ(n) in ps]
        # repeated after an SEI between two slices
        if sets != (psets * max(1, len(sets) // len(psets)) if key else []):
            raise Violation('%s: parameter sets %r, expected %r' % (what, [n.hex() for n in sets], [n.hex() for n in psets] if key else []))
        if key:
            first = next(i for i, n in enumerate(got) if (typ(n) == 5 if avc else 16 <= typ(n) <= 23))
            if any(got.index(n) > first for n in sets):
                raise Violation('%s: parameter sets after the picture' % what)

    # ---- history

    def history(self, case):
        self.clean()
        c, name = self.c, case['name']
        m = Model(c)
        labels, special, ncmp, old = set(), 0, 0, {}
        pubs = case['pubs'] if c['naming'] != 'timestamp' else case['pubs'][:1]
        for pi, p in enumerate(pubs):
            q = rtmp.Conn(('127.0.0.1', self.port), timeout=self.patience)
            self.conns.append(q)
            q.handshake('simple')
            q.connect('live', 'rtmp://127.0.0.1/live')
            q.create_stream()
            q.set_chunk(p['chunk'])
            q.publish(name)
            code = q.wait_status(('NetStream.Publish.Start', 'NetStream.Publish.BadName'))
            if code != 'NetStream.Publish.Start':
                raise Violation('publish: %r' % code)
            if not c['continuous']:
                old = {}
            m.publish()
            t = p['t0']
            n = 0
            v, a = p['v'] != 'none', p['a'] != 'none'
            ps = None
            types = ({'avc': 0x1b, 'hevc': 0x24}.get(p['v']), {'aac': 0x0f, 'mp3': 3}.get(p['a']))
            if v:
                h, ps = self.headers(p)
                q.write(rtmp.VIDEO, h, 6, t, 1)
            ac = p['aconf']
            if p['a'] == 'aac':
                q.write(rtmp.AUDIO, self.asc(ac), 5, t, 1)
            used = set()
            last = 0
            ah = (2 if ac[0] > 4 else ac[0], ac[1], ac[2])
            RATES = [96000, 88200, 64000, 48000, 44100, 32000, 24000, 22050, 16000, 12000, 11025, 8000]
            rate = RATES[max(0, ac[1] - 3) if ac[0] > 4 else ac[1]] if p['a'] == 'aac' else 44100
            for e in ([('aud', 0, 20)] if p['a'] == 'mp3' else []) + p['ev']:
                k = e[0]
                if k in ('key', 'inter', 'aud'):
                    t = max(0, min(t + e[1], 0x7fffffff))
                    if t < last:
                        labels.add('back')
                        special = 1
                    last = t
                    n += 1
                before = m.open
                if k in ('key', 'inter') and v:
                    pay, want = self.frame(p, k == 'key', e[2], e[3], n)
                    q.write(rtmp.VIDEO, pay, 6, t, 1)
                    m.video(t, e[3], k == 'key', (ps, want, p['v'] == 'avc'), p['a'] == 'aac')
                elif k == 'aud' and a:
                    d = nal(n, e[2])
                    q.write(rtmp.AUDIO, (media.aac(d) if p['a'] == 'aac' else media.mp3(d)), 5, t, 1)
                    m.audio(t, (ah if p['a'] == 'aac' else None, d), len(d) + (7 if p['a'] == 'aac' else 0), v, rate)
                elif k == 'vh2' and v:
                    h, ps = self.headers(p, e[1] % 2)
                    q.write(rtmp.VIDEO, h, 6, t, 1)
                elif k == 'ah2' and p['a'] == 'aac':
                    q.write(rtmp.AUDIO, self.asc(ac), 5, t, 1)
                elif k == 'vseq' and v:
                    q.write(rtmp.VIDEO, bytes([0x27 if p['v'] == 'avc' else 0x2c]) + b'\2\0\0\0', 6, t, 1)
                elif k == 'meta':
                    from lib import amf
                    q.write(18, amf.enc_all('@setDataFrame', 'onMetaData', {'width': 320.0}), 4, t, 1)
                elif k == 'eofmsg' and e[1] == 0:
                    q.write(rtmp.USER, struct.pack('>HI', 1, 1), 2, 0, 0)
                    m.flush()
                    m.close()
                if m.open is not before and m.open:
                    m.open['types'], m.open['pub'] = types, pi
                    if m.open['id'] in used:
                        return False, {'name used twice'}
                    used.add(m.open['id'])
                if k == 'peek':
                    self.sync(q, 'peek')
                    ncmp += self.compare(m, name, old, 'during publication %d' % pi)
            self.sync(q, 'end')
            if p['cut'] and v:
                # a frame that ends too early is not written; what becomes of the connection is not judged
                pay, want = self.frame(p, p['cut'] % 2, [(4, 30), (9, 50)], 0, n)
                q.write(rtmp.VIDEO, pay[:-p['cut']], 6, t, 1)
                labels.add('truncated')
                q.close()
                self.settle()
            elif p['end'] < 2:
                q.cmd('deleteStream' if p['end'] else 'closeStream', 0.0, None, 1.0, msid=1)
                self.sync(q, 'closed')
            else:
                q.close(rst=p['end'] == 3)
                self.settle()
            m.flush()
            m.close()
            ncmp += self.compare(m, name, old, 'after publication %d' % pi)
            self.variant_playlist(name, m)
            q.close()
            if self.ng.crashes():
                raise Violation('crash: ' + self.ng.crashes()[0][:600])
            labels.add(p['v'] + '+' + p['a'])
            if any(s['discont'] for s in m.list[1:]):
                labels.add('discont')
                special = 1
        if m.seq:
            labels.add('window moved')
        if len(pubs) > 1:
            labels.add('again')
        return bool(ncmp > 1 and (special or m.seq or len(pubs) > 1 or c['keys'])), labels

    def variant_playlist(self, name, m):
        if not self.c['variant'] or not (m.list or m.seq):
            return
        for suf in ('_low', '_hi'):
            if name.endswith(suf):
                base = name[:-len(suf)]
                f = os.path.join(self.dir, base + '.m3u8')
                want = '#EXTM3U\n#EXT-X-VERSION:3\n#EXT-X-STREAM-INF:PROGRAM-ID=1,BANDWIDTH=100,X=y\n%s_low.m3u8\n#EXT-X-STREAM-INF:PROGRAM-ID=1,BANDWIDTH=900\n%s_hi.m3u8\n' % (base, base)
                b = open(f).read() if os.path.exists(f) else None
                if b != want:
                    raise Violation('the variant playlist is %r, expected %r' % (b, want))

    def settle(self):
        """wait until the server has noticed that the publisher is gone: no segment is open"""
        end = time.monotonic() + self.patience
        while True:
            q = rtmp.Conn(('127.0.0.1', self.port), timeout=self.patience)
            try:
                q.handshake('simple')
                q.connect('plain', 'rtmp://127.0.0.1/plain')
                self.sync(q, 'settle')
            finally:
                q.close()
            if not any('/top/' in f for f in self.fds()):
                return
            if time.monotonic() > end:
                raise Violation('a segment is still open after its publisher left')
            time.sleep(0.001)

    def fds(self):
        out = []
        if not getattr(self, '_p', None):
            self._p = self.ng.worker_pids()
        for pid in self._p:
            d = '/proc/%d/fd' % pid
            if not os.path.exists(d):
                raise Violation('the worker is gone: %s' % (self.ng.crashes() or [''])[0][:900])
            for f in os.listdir(d):
                try:
                    out.append(os.readlink(os.path.join(d, f)))
                except OSError:
                    pass
        return out


if __name__ == '__main__':
    main(R12)
