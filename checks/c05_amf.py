"""C05: AMF0 against an independent encoder and a model of the reader's targets."""
import os, struct, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from hypothesis import strategies as st
from lib import harness
from lib.check import Prop, Violation, main

name = st.one_of(st.sampled_from([b'a', b'b', b'ab', b'abc', b'app', b'x' * 30, b'\xc3\xa9', b'A']), st.binary(min_size=1, max_size=5).map(lambda b: b.replace(b'\0', b'z')))
num = st.one_of(st.floats(allow_nan=False), st.integers(-5, 5).map(float), st.sampled_from([0.0, -0.0, 1e308, float('inf'), 1935.0]))
txt = st.one_of(st.binary(max_size=6), st.text('abc', max_size=20).map(lambda s: s.encode()), st.integers(0, 40).map(lambda n: b'q' * (n * 17)), st.sampled_from([b'', b'\0', b'a\0b', b'z' * 65535, b'y' * 300]))
leaf = st.one_of(num.map(lambda v: ('n', v)), st.integers(0, 255).map(lambda v: ('b', v)), txt.map(lambda v: ('s', v)), txt.map(lambda v: ('s', v)), st.sampled_from([('N',), ('u',)]))
value = st.recursive(leaf, lambda c: st.one_of(
    st.tuples(st.sampled_from('om'), st.lists(st.tuples(name, c), max_size=5)),
    st.tuples(st.just('a'), st.lists(c, max_size=4))), max_leaves=12)


def enc(v):
    t = v[0]
    if t == 'n':
        return b'\0' + struct.pack('>d', v[1])
    if t == 'b':
        return b'\1' + bytes([v[1]])
    if t == 's':
        return b'\2' + struct.pack('>H', len(v[1])) + v[1]
    if t == 'N':
        return b'\5'
    if t == 'u':
        return b'\6'
    body = b''
    if t == 'a':
        return b'\x0a' + struct.pack('>I', len(v[1])) + b''.join(enc(x) for x in v[1])
    for k, x in v[1]:
        body += struct.pack('>H', len(k)) + k + enc(x)
    return (b'\3' if t == 'o' else b'\x08\0\0\0\0') + body + b'\0\0\x09'


class T:
    """a target element"""

    def __init__(self, t, name=b'', opt=False, cap=0, kids=()):
        self.t, self.name, self.opt, self.kids = t, name, opt, list(kids)
        self.mem = bytearray(b'\x5a' * {'n': 8, 'b': 1, 's': cap}.get(t, 0))

    def words(self):
        w = [self.t, str(int(self.opt)), self.name.hex() or '-']
        if self.t == 's':
            w.append(str(len(self.mem)))
        if self.t in 'omav':
            w.append(str(len(self.kids)))
            for k in self.kids:
                w += k.words()
        return w

    def cells(self):
        if self.t in 'omav':
            return [c for k in self.kids for c in k.cells()]
        return [bytes(self.mem).hex()] if self.mem else []


def store(t, v):
    """what reading v into target t (or None) does"""
    if t is None:
        return
    if t.t == 'v':
        # alternatives by type
        hit = None
        for k in t.kids:
            if k.t == v[0]:
                hit = k
        t = hit
        if t is None:
            return
    elif not (t.t == v[0] or (t.t in 'om' and v[0] in 'om')):
        return
    if v[0] == 'n':
        t.mem[:] = struct.pack('<d', v[1])
    elif v[0] == 'b':
        t.mem[0] = v[1]
    elif v[0] == 's':
        d = v[1][:len(t.mem) - 1] + b'\0'
        t.mem[:len(d)] = d
    elif v[0] in 'om':
        for k, x in v[1]:
            store(next((e for e in t.kids if e.name == k), None), x)
    elif v[0] == 'a':
        for i, x in enumerate(v[1]):
            store(t.kids[i] if i < len(t.kids) else None, x)


def target(draw, v, nm, depth=0):
    k = draw(st.integers(0, 9))
    t = v[0]
    if k == 0:
        t = draw(st.sampled_from('nbsNoma'))
    if t == 's':
        n = len(v[1]) if v[0] == 's' else 5
        return T('s', nm, False, max(1, draw(st.sampled_from([n + 1, n + 5, n, n - 1, 1, 2, 64]))))
    if t in 'om':
        if v[0] in 'om':
            if k == 1:
                t = 'm' if t == 'o' else 'o'
            kids = []
            for kn, x in v[1]:
                if draw(st.integers(0, 3)):
                    kids.append(target(draw, x, kn, depth + 1))
            if draw(st.booleans()):
                kids.insert(draw(st.integers(0, len(kids))), T(draw(st.sampled_from('nb')), draw(name)))
            kids = draw(st.permutations(kids))
        else:
            kids = [T('n', b'a')]
        return T(t, nm, False, 0, kids)
    if t == 'a':
        kids = [target(draw, x, b'', depth + 1) for x in v[1]] if v[0] == 'a' else [T('n', b'')]
        kids = kids[:draw(st.integers(0, len(kids)))]
        return T('a', nm, False, 0, kids)
    return T(t, nm)


@st.composite
def read_case(draw):
    vals = draw(st.lists(value, min_size=1, max_size=4))
    deep = draw(st.integers(0, 24))
    if deep == 0:
        n = draw(st.sampled_from([10, 60, 110, 140, 200]))
        v = ('n', 1.0)
        for _ in range(n):
            v = draw(st.sampled_from(['oo', 'mm', 'aa']))[0:1] and (('o', [(b'a', v)]) if n % 2 else ('a', [v]))
        vals.append(v)
    else:
        n = 0
    tg = []
    for v in vals:
        if draw(st.integers(0, 11)) == 0:
            tg.append(T('v', b'', False, 0, [T('n'), T('s', b'', False, 9), T('b')]) if v[0] in 'nsb' else target(draw, v, b''))
        else:
            tg.append(target(draw, v, b'') if n == 0 else T('n'))
    mode = draw(st.sampled_from(['exact', 'exact', 'exact', 'fewer', 'optional', 'cut', 'damage']))
    data = b''.join(enc(v) for v in vals)
    if mode == 'fewer':
        tg = tg[:draw(st.integers(1, len(tg)))]
    if mode == 'optional':
        for _ in range(draw(st.integers(1, 2))):
            tg.append(T('n', b'', True))
    if mode == 'cut':
        data = data[:draw(st.integers(0, len(data)))]
    if mode == 'damage':
        for _ in range(draw(st.integers(1, 3))):
            i = draw(st.integers(0, len(data)))
            data = draw(st.sampled_from([data[:i] + bytes([draw(st.integers(0, 255))]) + data[i + 1:], data[:i] + data[i + 1:], data[:i] + bytes([draw(st.sampled_from([0, 2, 3, 8, 9, 10, 255]))]) + data[i:]]))
    cuts = draw(st.one_of(st.just([]), st.lists(st.integers(0, len(data)), max_size=8), st.just(list(range(min(len(data), 200))))))
    cuts = [0] + sorted(cuts) + [len(data)]
    pieces = [data[a:b] for a, b in zip(cuts, cuts[1:])]
    return ('R', vals, [' '.join(t.words()) for t in tg], mode, pieces, n, tg)


write_case = st.tuples(st.just('W'), st.lists(value, min_size=1, max_size=4), st.sampled_from([1, 2, 3, 7, 16, 128, 4096]), st.booleans(), st.booleans())


def wwords(v, nm=b'', zlen=False):
    w = [v[0], '0', nm.hex() or '-']
    if v[0] == 'n':
        w.append(struct.pack('<d', v[1]).hex())
    elif v[0] == 'b':
        w.append('%02x' % v[1])
    elif v[0] == 's':
        if (zlen and b'\0' not in v[1]) or not v[1]:
            w[1] = '4'
        w.append(v[1].hex() or '-')
    elif v[0] in 'om':
        w.append(str(len(v[1])))
        for k, x in v[1]:
            w += wwords(x, k, zlen)
    elif v[0] == 'a':
        w.append(str(len(v[1])))
        for x in v[1]:
            w += wwords(x, b'', zlen)
    return w


class Cut(Exception):
    pass


class Malformed(Exception):
    pass


class Reader:
    """strict reading of AMF0; an object may end with the input (unfinished arrays are accepted)"""

    def __init__(self, d):
        self.d, self.p = d, 0

    def get(self, n):
        if self.p + n > len(self.d):
            raise Cut
        self.p += n
        return self.d[self.p - n:self.p]

    def value(self, depth=0):
        t = self.get(1)[0]
        if t == 0:
            return ('n', struct.unpack('>d', self.get(8))[0])
        if t == 1:
            return ('b', self.get(1)[0])
        if t == 2:
            return ('s', self.get(struct.unpack('>H', self.get(2))[0]))
        if t == 5:
            return ('N',)
        if t == 6:
            return ('u',)
        if t in (3, 8):
            if t == 8:
                self.get(4)
            kids = []
            while True:
                try:
                    n, = struct.unpack('>H', self.get(2))
                except Cut:
                    self.unfinished = True
                    return ('o' if t == 3 else 'm', kids)
                if n == 0:
                    if self.get(1) != b'\x09':
                        raise Malformed
                    return ('o' if t == 3 else 'm', kids)
                k = self.get(n)
                kids.append((k, self.value(depth + 1)))
        if t == 10:
            n, = struct.unpack('>I', self.get(4))
            l = []
            for _ in range(n):
                l.append(self.value(depth + 1))
            return ('a', l)
        raise Malformed


class C05(Prop):
    id = 'C05'
    rule = ('a case is one to four AMF0 values (nested objects, mixed and strict arrays, strings up to 65535 bytes) either written through the server\'s writer into buffers of a drawn size, or encoded by '
            'the reference, optionally cut or damaged, split over buffers at drawn points (also bytewise, with empty buffers) and read into a drawn target description (subsets, other order, wrong types, '
            'small strings, optional and variant elements). Non-trivial: at least 3 values deep or wide')
    quick_cases = 1800
    thorough_cases = 80000
    quick_budget = 60

    def prebuild(cls):
        cls.exe = harness.make('amf')

    def setup(self):
        self.p = harness.Proc(self.exe)

    def teardown(self):
        self.p.stop()

    def strategy(self):
        return st.one_of(read_case(), read_case(), write_case)

    def show(self, c):
        return repr(c[:-1])[:600]

    def ask(self, l):
        try:
            return self.p.ask(l)
        except harness.Died as e:
            raise Violation('AMF: %s' % e)

    def run(self, case):
        size = lambda v: 1 if v[0] not in 'oma' else 1 + sum(size(x[1] if v[0] in 'om' else x) for x in v[1])
        nt = sum(size(v) for v in case[1]) >= 4
        if case[0] == 'W':
            _, vals, bufsz, first, zlen = case
            got = self.ask('W %d %d %d %s' % (bufsz, first, len(vals), ' '.join(w for v in vals for w in wwords(v, b'', zlen))))
            want = '0 %s.' % b''.join(enc(v) for v in vals).hex()
            if got != want:
                raise Violation('writing %r into buffers of %d: got %s, want %s' % (vals, bufsz, got[:600], want[:600]))
            return nt, ('write',)
        _, vals, words, mode, pieces, deep, tg = case
        data = b''.join(pieces)
        for t in tg:
            self.reset(t)
        got = self.ask('R %d %s %d %s' % (len(pieces), ' '.join(p.hex() or '-' for p in pieces), len(tg), ' '.join(words))).split()
        if mode in ('exact', 'fewer', 'optional'):
            if deep > 128 and len(tg) >= len(vals):
                want = None
            else:
                want = vals
        else:
            r = Reader(data)
            r.unfinished = False
            want = []
            try:
                for _ in tg:
                    want.append(r.value())
                if r.unfinished or deep > 100 or any(b'\0' in k for v in want for k in self.names(v)):
                    return False, (mode + ', unspecified',)
            except Cut:
                if r.unfinished:
                    return False, (mode + ', unspecified',)
                want = None
            except Malformed:
                # 09 where a value is expected ends the reading
                return False, ('malformed',)
            if want is not None and any(t == 'v' for x in tg for t in x.t):
                pass
        if want is None:
            if got[0] != '-1':
                raise Violation('%s: AMF that ends within a value or is nested too deep is accepted: %s (targets %s)' % (mode, data[:80].hex(), words))
            return nt, (mode + ', refused',)
        for t, v in zip(tg, want):
            store(t, v)
        cells = [c for t in tg for c in t.cells()]
        if got != ['0'] + cells:
            raise Violation('reading %s in %d pieces into %s: got %s, want 0 %s' % (data.hex()[:400], len(pieces), words, ' '.join(got)[:500], ' '.join(cells)[:500]))
        return nt, (mode,)

    def reset(self, t):
        t.mem[:] = b'\x5a' * len(t.mem)
        for k in t.kids:
            self.reset(k)

    def names(self, v):
        if v[0] in 'om':
            for k, x in v[1]:
                yield k
                yield from self.names(x)
        elif v[0] == 'a':
            for x in v[1]:
                yield from self.names(x)


if __name__ == '__main__':
    main(C05)
