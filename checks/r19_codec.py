"""R19: parameters derived from sequence headers against the parameters the generated headers encode."""
import os, struct, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from hypothesis import strategies as st
from lib import ngx, rtmp, media, build, http
from lib.check import Prop, Violation, Inconclusive, main


class Bits:
    def __init__(self):
        self.b = []

    def u(self, n, v):
        self.b += [(v >> (n - 1 - i)) & 1 for i in range(n)]
        return self

    def ue(self, v):
        v += 1
        n = v.bit_length()
        return self.u(n - 1, 0).u(n, v)

    def se(self, v):
        return self.ue(2 * v - 1 if v > 0 else -2 * v)

    def end(self):
        self.u(1, 1)
        while len(self.b) % 8:
            self.b.append(0)
        return bytes(int(''.join(map(str, self.b[i:i + 8])), 2) for i in range(0, len(self.b), 8))

    def raw(self):
        while len(self.b) % 8:
            self.b.append(0)
        return bytes(int(''.join(map(str, self.b[i:i + 8])), 2) for i in range(0, len(self.b), 8))


def escape(b):
    out = bytearray()
    z = 0
    for x in b:
        if z >= 2 and x <= 3:
            out.append(3)
            z = 0
        out.append(x)
        z = z + 1 if x == 0 else 0
    return bytes(out)


HIGH = (100, 110, 122, 244, 44, 83, 86, 118, 128)
WH = {0: (1, 1), 1: (2, 2), 2: (2, 1), 3: (1, 1)}


@st.composite
def avc(draw):
    prof = draw(st.sampled_from([66, 77, 88, 100, 100, 110, 122, 244, 44, 83, 86, 118, 128]))
    compat, level = draw(st.integers(0, 255)), draw(st.sampled_from([9, 10, 11, 30, 31, 40, 41, 51, 52]))
    b = Bits().ue(draw(st.integers(0, 31)))
    cf = 1
    if prof in HIGH:
        cf = draw(st.integers(0, 3))
        b.ue(cf)
        if cf == 3:
            b.u(1, 0)
        b.ue(draw(st.integers(0, 6))).ue(draw(st.integers(0, 6))).u(1, draw(st.integers(0, 1)))
        sc = draw(st.booleans())
        b.u(1, sc)
        if sc:
            for i in range(8 if cf != 3 else 12):
                p = draw(st.booleans())
                b.u(1, p)
                if p:
                    last, nxt = 8, 8
                    for j in range(16 if i < 6 else 64):
                        if nxt:
                            d = draw(st.integers(-128, 127)) if draw(st.integers(0, 7)) == 0 else draw(st.integers(-2, 3))
                            b.se(d)
                            nxt = (last + d) % 256
                        last = nxt or last
    b.ue(draw(st.integers(0, 12)))
    poc = draw(st.integers(0, 2))
    b.ue(poc)
    if poc == 0:
        b.ue(draw(st.integers(0, 12)))
    elif poc == 1:
        v = st.one_of(st.integers(-9, 9), st.sampled_from([2 ** 30, -2 ** 30, 1 << 23, -(1 << 24)]))
        b.u(1, draw(st.integers(0, 1))).se(draw(v)).se(draw(v))
        n = draw(st.one_of(st.integers(0, 6), st.integers(0, 255)))
        b.ue(n)
        for _ in range(n):
            b.se(draw(v))
    refs = draw(st.integers(0, 16))
    b.ue(refs).u(1, draw(st.integers(0, 1)))
    w, h = draw(st.one_of(st.integers(1, 512), st.sampled_from([120, 80, 45, 1]))), draw(st.one_of(st.integers(1, 300), st.sampled_from([68, 45, 34])))
    mbs = draw(st.integers(0, 1))
    b.ue(w - 1).ue(h - 1).u(1, mbs)
    if not mbs:
        b.u(1, draw(st.integers(0, 1)))
    b.u(1, 1)
    W, H = w * 16, h * 16 * (2 - mbs)
    crop = draw(st.booleans())
    b.u(1, crop)
    if crop:
        cw, ch = WH[cf]
        ch *= 2 - mbs
        c = [draw(st.integers(0, 7 // cw)), draw(st.integers(0, 7 // cw)), draw(st.integers(0, 7 // ch)), draw(st.integers(0, 7 // ch))]
        for x in c:
            b.ue(x)
        W -= cw * (c[0] + c[1])
        H -= ch * (c[2] + c[3])
    b.u(1, draw(st.integers(0, 1)))
    sps = b'\x67' + escape(bytes([prof, compat, level]) + b.end())
    pps = media.PPS
    rec = b'\x01' + bytes([prof, compat, level]) + bytes([0xfc | draw(st.sampled_from([3, 3, 1, 0])), 0xe1]) + struct.pack('>H', len(sps)) + sps + b'\x01' + struct.pack('>H', len(pps)) + pps
    return ('avc', 9, b'\x17\0\0\0\0' + rec, {'video/width': str(W), 'video/height': str(H), 'video/level': '%.1f' % (level / 10.), 'video/compat': str(compat),
                                               'video/profile': {66: 'Baseline', 77: 'Main', 100: 'High'}.get(prof, '')})


@st.composite
def hevc(draw):
    sub = draw(st.integers(0, 6))
    b = Bits().u(4, draw(st.integers(0, 15))).u(3, sub).u(1, draw(st.integers(0, 1)))
    ptl = Bits()
    ptl.u(8, draw(st.integers(0, 255))).u(32, draw(st.integers(0, 2 ** 32 - 1)))
    con = draw(st.sampled_from([0, 0, 0x900000000000, 2 ** 48 - 1]))
    ptl.u(48, con).u(8, draw(st.sampled_from([93, 120, 123, 30])))
    b.b += ptl.b
    fl = [(draw(st.integers(0, 1)), draw(st.integers(0, 1))) for _ in range(sub)]
    for a, c in fl:
        b.u(1, a).u(1, c)
    if sub:
        for i in range(sub, 8):
            b.u(2, 0)
    for a, c in fl:
        if a:
            b.u(88, draw(st.sampled_from([0, 0, 2 ** 88 - 1, 1 << 60])))
        if c:
            b.u(8, draw(st.integers(0, 255)))
    b.ue(draw(st.integers(0, 15)))
    cf = draw(st.integers(0, 3))
    b.ue(cf)
    if cf == 3:
        b.u(1, 0)
    W, H = draw(st.integers(1, 1024)) * 8, draw(st.integers(1, 600)) * 8
    b.ue(W).ue(H)
    crop = draw(st.booleans())
    b.u(1, crop)
    if crop:
        cw, ch = WH[cf]
        c = [draw(st.integers(0, 3)) if W > 16 else 0, draw(st.integers(0, 1)) if W > 16 else 0, draw(st.integers(0, 1)) if H > 16 else 0, draw(st.integers(0, 3)) if H > 16 else 0]
        for x in c:
            b.ue(x)
        W -= cw * (c[0] + c[1])
        H -= ch * (c[2] + c[3])
    b.ue(0).ue(0).ue(4)
    sps = b'\x42\x01' + escape(b.end())
    vps = b'\x40\x01' + escape(media.filler(draw(st.integers(0, 99)), draw(st.integers(3, 60))))
    pps = b'\x44\x01' + media.filler(7, draw(st.integers(3, 30)))
    rec = b'\x01' + ptl.raw()[:12] + b'\xf0\0\xfc' + bytes([0xfc | cf]) + b'\xf8\xf8\0\0' + bytes([draw(st.integers(0, 63)) << 2 | 3])
    arr = [(0x20, vps), (0x21, sps), (0x22, pps)]
    if draw(st.booleans()):
        arr.insert(draw(st.integers(0, 2)), (0x27, b'\x4e\x01' + media.filler(3, draw(st.integers(4, 120)))))
    rec += bytes([len(arr)])
    for t, n in arr:
        rec += bytes([0x80 | t]) + struct.pack('>HH', 1, len(n)) + n
    return ('hevc', 9, b'\x1c\0\0\0\0' + rec, {'video/width': str(W), 'video/height': str(H)})


RATES = [96000, 88200, 64000, 48000, 44100, 32000, 24000, 22050, 16000, 12000, 11025, 8000, 7350]


@st.composite
def aac(draw):
    b = Bits()

    def obj(o):
        if o >= 32:
            b.u(5, 31).u(6, o - 32)
        else:
            b.u(5, o)

    def rate():
        i = draw(st.one_of(st.integers(0, 12), st.just(15)))
        b.u(4, i)
        if i == 15:
            r = draw(st.integers(7000, 200000))
            b.u(24, r)
            return r
        return RATES[i]
    o = draw(st.sampled_from([1, 2, 2, 2, 3, 4, 5, 5, 29, 29, 39, 42]))
    ch = draw(st.integers(1, 6))
    obj(o)
    r = rate()
    b.u(4, ch)
    core = o
    if o in (5, 29):
        r = rate()
        core = draw(st.sampled_from([2, 2, 2, 1, 4]))
        obj(core)
    b.u(3, 0)
    prof = {1: 'Main', 2: 'HEv2' if o == 29 else 'HE' if o == 5 else 'LC', 3: 'SSR', 4: 'LTP'}.get(core, '')
    return ('aac', 8, b'\xaf\0' + b.raw() + draw(st.sampled_from([b'', b'\x56\xe5\0'])), {'audio/sample_rate': str(r), 'audio/channels': str(ch), 'audio/profile': prof})


class R19(Prop):
    id = 'R19'
    rule = ('a case is one to three sequence headers (AVC with every profile family, chroma format, scaling lists, picture order count type, field coding and cropping; HEVC with sub-layers, conformance '
            'windows and extra parameter sets; AAC with escaped object types, explicit rates, SBR and PS) written by the check\'s own bit writer from drawn parameters, with emulation prevention, sent by a '
            'publisher with a drawn chunk size; the statistics page must show the drawn parameters after each. Every case is non-trivial')
    assumptions = ['channel configurations 1 to 6', 'headers that follow the H.264, H.265 and MPEG-4 syntax']
    quick_cases = 900
    thorough_cases = 12000
    quick_budget = 40
    patience = 5

    def prebuild(cls):
        build.modules('asan')
        build.modules('plain')

    def setup(self):
        self.port, self.hp = ngx.free_port(), ngx.free_port()
        self.ng = ngx.Nginx(rtmp='server { listen 127.0.0.1:%d; application live { live on; } }' % self.port,
                            http='server { listen 127.0.0.1:%d; location /stat { rtmp_stat all; } }' % self.hp,
                            flavour='asan' if self.widx % 4 == 3 else 'plain', log_level='emerg')
        self.ng.start([self.port, self.hp])
        self.n = 0

    def teardown(self):
        self.ng.stop()

    def strategy(self):
        h = st.one_of(avc(), avc(), hevc(), aac())
        return st.tuples(st.sampled_from([128, 128, 4096, 60, 200]), st.lists(h, min_size=1, max_size=3))

    def run(self, case):
        chunk, hs = case
        self.n += 1
        name = 's%d' % self.n
        labels = {h[0] for h in hs}
        try:
            p = rtmp.publisher(('127.0.0.1', self.port), 'live', name, chunk=chunk)
            try:
                for k, (kind, typ, pay, want) in enumerate(hs):
                    p.write(typ, pay, csid=6 if typ == 9 else 4, ts=0, msid=1)
                    if p.user_ping(self.patience) is None:
                        raise rtmp.Closed('publisher closed')
                    x = http.stat(('127.0.0.1', self.hp))
                    m = [s for s in x.iter('stream') if s.findtext('name') == name]
                    if len(m) != 1:
                        raise Violation('the statistics page shows %d streams %s' % (len(m), name))
                    for f, v in want.items():
                        got = m[0].findtext('meta/' + f)
                        if got != v and not (v == '' and got is None):
                            raise Violation('%s header %d (%s, %d-byte chunks): %s is %s, the header encodes %s' % (kind, k, pay.hex(), chunk, f, got, v))
            finally:
                p.close()
        except (rtmp.Closed, rtmp.Timeout, OSError, http.Bad) as e:
            cr = self.ng.crashes()
            raise Violation('session broke: %r %s' % (e, cr[:1]))
        cr = self.ng.crashes()
        if cr:
            raise Violation('server crashed: %s' % cr[0])
        return True, labels


if __name__ == '__main__':
    main(R19)
