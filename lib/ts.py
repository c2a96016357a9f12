"""Strict MPEG transport stream demultiplexer."""


class TsError(Exception):
    pass


def crc32(b):
    c = 0xffffffff
    for x in b:
        c ^= x << 24
        for _ in range(8):
            c = (c << 1 ^ 0x04c11db7 if c & 0x80000000 else c << 1) & 0xffffffff
    return c


def section(b, what):
    """payload of a packet that holds one section"""
    if b[0] != 0 or b[1] != what:
        raise TsError('bad section start %s' % b[:4].hex())
    n = (b[2] & 15) << 8 | b[3]
    s = b[1:4 + n]
    if len(s) != 3 + n or n < 9:
        raise TsError('bad section length %d' % n)
    if crc32(s):
        raise TsError('bad CRC of section %d' % what)
    if any(x != 0xff for x in b[4 + n:]):
        raise TsError('bad section stuffing')
    return s[8:-4]


def stamp(b, tag):
    if b[0] >> 4 != tag or not (b[0] & 1 and b[2] & 1 and b[4] & 1):
        raise TsError('bad time stamp %s' % b[:5].hex())
    return (b[0] >> 1 & 7) << 30 | b[1] << 22 | (b[2] >> 1) << 15 | b[3] << 7 | b[4] >> 1


class Pes:
    def __init__(self, pid, key, pcr):
        self.pid, self.key, self.pcr = pid, key, pcr
        self.raw = bytearray()
        self.pts = self.dts = self.sid = None
        self.data = b''

    def close(self):
        b = bytes(self.raw)
        if len(b) < 9 or b[:3] != b'\0\0\1':
            raise TsError('bad PES start %s' % b[:6].hex())
        self.sid = b[3]
        n = b[4] << 8 | b[5]
        if n and n != len(b) - 6:
            raise TsError('PES length %d, but %d bytes' % (n, len(b) - 6))
        if n == 0 and not 0xe0 <= self.sid <= 0xef:
            raise TsError('PES without length')
        if b[6] & 0xc0 != 0x80:
            raise TsError('bad PES flags')
        hl, f = b[8], b[7] >> 6
        need = {0: 0, 2: 5, 3: 10}.get(f)
        if need is None or need > hl:
            raise TsError('bad PES time stamps')
        if f:
            self.pts = self.dts = stamp(b[9:14], f)
        if f == 3:
            self.dts = stamp(b[14:19], 1)
        if any(x != 0xff for x in b[9 + need:9 + hl]):
            raise TsError('bad PES stuffing')
        self.data = b[9 + hl:]
        return self


class Ts:
    """feed() whole packets; pes holds the finished PES packets in order of their starts"""

    def __init__(self, cc=None, known=()):
        self.cc = {} if cc is None else cc
        self.pmt_pid = None
        self.streams = {}
        self.open = {}
        self.pes = []
        self.npkt = 0

    def feed(self, b):
        if len(b) % 188:
            raise TsError('%d bytes are no whole number of packets' % len(b))
        for o in range(0, len(b), 188):
            self.packet(b[o:o + 188])
            self.npkt += 1

    def packet(self, p):
        if p[0] != 0x47:
            raise TsError('packet %d: no sync byte: %s' % (self.npkt, p[:4].hex()))
        if p[1] & 0x80 or p[3] & 0xc0:
            raise TsError('packet %d: error or scrambling flags' % self.npkt)
        pid = (p[1] & 0x1f) << 8 | p[2]
        start, afc, cc = p[1] & 0x40, p[3] >> 4 & 3, p[3] & 15
        if pid == 0x1fff:
            return
        o, key, pcr = 4, False, None
        if afc & 2:
            n = p[4]
            if n > (182 if afc & 1 else 183) or afc == 2 and n != 183:
                raise TsError('packet %d: adaptation field of %d bytes' % (self.npkt, n))
            if n:
                f = p[5]
                used = 1
                key = bool(f & 0x40)
                if f & 0x10:
                    if n < 7:
                        raise TsError('packet %d: no room for the PCR' % self.npkt)
                    v = int.from_bytes(p[6:12], 'big')
                    if (v >> 9 & 0x3f) != 0x3f:
                        raise TsError('packet %d: bad PCR' % self.npkt)
                    pcr = v >> 15
                    used += 6
                if f & 0x2f:
                    raise TsError('packet %d: flags %x' % (self.npkt, f))
                if any(x != 0xff for x in p[5 + used:5 + n]):
                    raise TsError('packet %d: bad stuffing' % self.npkt)
            o = 5 + n
        if afc == 0:
            raise TsError('packet %d: neither payload nor adaptation field' % self.npkt)
        if not afc & 1:
            return
        b = p[o:]
        if pid == 0:
            s = section(b, 0)
            if len(s) != 4:
                raise TsError('PAT of %d bytes' % len(s))
            self.pmt_pid = (s[2] & 0x1f) << 8 | s[3]
            return
        if pid == self.pmt_pid:
            s = section(b, 2)
            st, i = {}, 4 + ((s[2] & 15) << 8 | s[3])
            while i + 5 <= len(s):
                st[(s[i + 1] & 0x1f) << 8 | s[i + 2]] = s[i]
                i += 5 + ((s[i + 3] & 15) << 8 | s[i + 4])
            if i != len(s):
                raise TsError('bad PMT')
            self.streams = st
            return
        if pid not in self.streams:
            raise TsError('packet %d: PID %x is in no program map %r' % (self.npkt, pid, self.streams))
        if pid in self.cc and cc != (self.cc[pid] + 1 & 15):
            raise TsError('packet %d: continuity counter of PID %x is %d after %d' % (self.npkt, pid, cc, self.cc[pid]))
        self.cc[pid] = cc
        if start:
            if pid in self.open:
                self.open.pop(pid).close()
            q = Pes(pid, key, pcr)
            self.open[pid] = q
            self.pes.append(q)
        elif pid not in self.open:
            raise TsError('packet %d: PID %x goes on without a start' % (self.npkt, pid))
        self.open[pid].raw += b

    def end(self):
        for q in self.open.values():
            q.close()
        self.open = {}
        return self.pes


def demux(b, cc=None):
    t = Ts(cc)
    t.feed(b)
    t.end()
    return t


def annexb(b):
    """NAL units of an access unit in byte stream format"""
    if b[:3] != b'\0\0\1' and b[:4] != b'\0\0\0\1':
        raise TsError('no start code: %s' % b[:8].hex())
    out, i = [], b.index(b'\0\0\1') + 3
    while True:
        j = b.find(b'\0\0\1', i)
        n = b[i:] if j < 0 else b[i:j]
        if j >= 0 and n[-1:] == b'\0':
            n = n[:-1]
        out.append(n)
        if j < 0:
            return out
        i = j + 3


def adts(b):
    """(header fields, raw frame) of an ADTS stream"""
    out, i = [], 0
    while i < len(b):
        h = b[i:i + 7]
        if len(h) < 7 or h[0] != 0xff or h[1] & 0xf6 != 0xf0 or not h[1] & 1:
            raise TsError('bad ADTS header %s at %d' % (h.hex(), i))
        n = (h[3] & 3) << 11 | h[4] << 3 | h[5] >> 5
        if n < 7 or i + n > len(b):
            raise TsError('ADTS frame of %d bytes, %d left' % (n, len(b) - i))
        if h[6] & 3:
            raise TsError('ADTS frame with more than one block')
        out.append((((h[2] >> 6) + 1, h[2] >> 2 & 15, (h[2] & 1) << 2 | h[3] >> 6), b[i + 7:i + n]))
        i += n
    return out
