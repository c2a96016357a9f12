"""C09: JSON parsing and printing against a reference parser written for this check."""
import json, os, re, struct, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from hypothesis import strategies as st
from lib import harness
from lib.check import Prop, Violation, main

LIMIT = 1000
NUM = set(b'0123456789+-eE.')
ESC = {0x62: b'\b', 0x66: b'\f', 0x6e: b'\n', 0x72: b'\r', 0x74: b'\t', 0x22: b'"', 0x5c: b'\\', 0x2f: b'/'}
PRE = re.compile(rb'[-+]?(\d+(\.\d*)?|\.\d+)([eE][-+]?\d+)?')
STRICTNUM = re.compile(rb'-?(0|[1-9]\d*)(\.\d+)?([eE][-+]?\d+)?\Z')


class No(Exception):
    pass


class Deep(Exception):
    pass


class Parser:
    """RFC 8259 plus what the library documents or tolerates; `odd` tells that a tolerance was used"""

    def __init__(self, b):
        self.b, self.i, self.odd, self.deep, self.num, self.nul = b, 0, False, False, [], False

    def at(self, j=0):
        return self.b[self.i + j] if self.i + j < len(self.b) else -1

    def ws(self):
        while 0 <= self.at() <= 32:
            if self.at() not in b' \t\r\n':
                self.odd = True
            self.i += 1

    def hex4(self, j):
        t = self.b[j:j + 4]
        if not re.match(rb'[0-9A-Fa-f]{4}\Z', t):
            raise No('hex')
        return int(t, 16)

    def string(self):
        if self.at() != 34:
            raise No('string')
        self.i += 1
        out = bytearray()
        while True:
            c = self.at()
            if c < 0:
                raise No('open string')
            if c == 34:
                self.i += 1
                break
            if c < 32:
                self.odd = True
                if c == 0:
                    self.nul = True
            if c != 92:
                out.append(c)
                self.i += 1
                continue
            e = self.at(1)
            if e in ESC:
                out += ESC[e]
                self.i += 2
            elif e == 0x75:
                u = self.hex4(self.i + 2)
                self.i += 6
                if 0xdc00 <= u <= 0xdfff:
                    raise No('low surrogate')
                if 0xd800 <= u <= 0xdbff:
                    if self.b[self.i:self.i + 2] != b'\\u':
                        raise No('pair')
                    w = self.hex4(self.i + 2)
                    if not 0xdc00 <= w <= 0xdfff:
                        raise No('pair')
                    self.i += 6
                    u = 0x10000 + ((u & 0x3ff) << 10 | w & 0x3ff)
                if u == 0:
                    self.nul = True
                out += chr(u).encode()
            else:
                raise No('escape')
        try:
            bytes(out).decode()
        except UnicodeDecodeError:
            self.odd = True
        return bytes(out)

    def value(self, depth):
        if depth > LIMIT + 1 or depth == LIMIT + 1 and self.at() in (91, 123):
            raise Deep()
        for w, v in ((b'null', None), (b'true', True), (b'false', False)):
            if self.b.startswith(w, self.i):
                self.i += len(w)
                return v
        c = self.at()
        if c == 34:
            return self.string()
        if c == 45 or 48 <= c <= 57:
            j = self.i
            while j < len(self.b) and self.b[j] in NUM:
                j += 1
            m = PRE.match(self.b, self.i, j)
            if not m:
                raise No('number')
            if not STRICTNUM.match(m.group()):
                self.odd = True
            self.i = m.end()
            return float(m.group())
        if c == 91:
            self.i += 1
            self.ws()
            l = []
            if self.at() == 93:
                self.i += 1
                return l
            while True:
                l.append(self.value(depth + 1))
                self.ws()
                if self.at() != 44:
                    break
                self.i += 1
                self.ws()
            if self.at() != 93:
                raise No(']')
            self.i += 1
            return l
        if c == 123:
            self.i += 1
            self.ws()
            l = []
            if self.at() == 125:
                self.i += 1
                return tuple(l)
            while True:
                k = self.string()
                self.ws()
                if self.at() != 58:
                    raise No(':')
                self.i += 1
                self.ws()
                l.append((k, self.value(depth + 1)))
                self.ws()
                if self.at() != 44:
                    break
                self.i += 1
                self.ws()
            if self.at() != 125:
                raise No('}')
            self.i += 1
            return tuple(l)
        raise No('value')


def parse(b, mode):
    """-> (value | None-with-No, end, parser)"""
    if not mode & 1:
        b = b.split(b'\0')[0] + b'\0'
    p = Parser(b)
    if len(b) >= 5 and b[:3] == b'\xef\xbb\xbf':
        p.i, p.odd = 3, True
    p.ws()
    v = p.value(1)
    end = p.i
    if mode & 2:
        if any(c > 32 for c in b[end:]) or b[-1] != 0 or end == len(b):
            raise No('garbage')
        end = None
    elif any(c not in b' \t\r\n\0' for c in b[end:]):
        p.odd = True
    return v, end, p


def dump(v):
    if v is None:
        return 'n'
    if v is True:
        return 't'
    if v is False:
        return 'f'
    if isinstance(v, float):
        s = '%.17g' % v
        return 'd%s;' % s
    if isinstance(v, bytes):
        return 's%s;' % (v.hex() or '-')
    if isinstance(v, list):
        return '[%s]' % ''.join(map(dump, v))
    return '{%s}' % ''.join('%s=%s' % (k.hex() or '-', dump(x)) for k, x in v)


def flat(v):
    """what printing can give back: infinities become null"""
    if isinstance(v, float) and v in (float('inf'), float('-inf')):
        return None
    if isinstance(v, list):
        return [flat(x) for x in v]
    if isinstance(v, tuple):
        return tuple((k, flat(x)) for k, x in v)
    return v


def close(a, b):
    if type(a) is not type(b):
        return False
    if isinstance(a, float):
        return a == b or abs(a - b) <= max(abs(a), abs(b)) * 2.0 ** -52
    if isinstance(a, list):
        return len(a) == len(b) and all(map(close, a, b))
    if isinstance(a, tuple):
        return len(a) == len(b) and all(x[0] == y[0] and close(x[1], y[1]) for x, y in zip(a, b))
    return a == b


def strip(b):
    """without the white space outside strings"""
    out, s, i = bytearray(), False, 0
    while i < len(b):
        c = b[i]
        if s and c == 92:
            out += b[i:i + 2]
            i += 2
            continue
        if c == 34:
            s = not s
        if s or c not in b' \t\r\n':
            out.append(c)
        i += 1
    return bytes(out)


# ------------------------------------------------------------------ generators
raw = st.one_of(st.text(max_size=12).map(lambda t: t.encode('utf-8', 'ignore')), st.binary(max_size=8),
                st.sampled_from([b'', b'a', b'\\', b'"', b'\x1f', b'\x7f', b'\xc3\xa9', b'\xf0\x9f\x98\x80', b'a b', b'\n\t\r\b\f', b'/' * 3, b'x' * 300, b'\\' * 40, b'\x01' * 60])).map(lambda b: b.replace(b'\0', b''))


@st.composite
def strtext(draw):
    out = b'"'
    for k in range(draw(st.integers(0, 5))):
        m = draw(st.integers(0, 7))
        if m < 3:
            r = draw(raw)
            for c in r:
                out += (b'\\' + bytes([c])) if c in b'"\\' else bytes([c]) if c >= 32 else b'\\u%04x' % c
        elif m == 3:
            out += b'\\' + bytes([draw(st.sampled_from(list(b'bfnrt"\\/')))])
        elif m in (4, 5):
            u = draw(st.one_of(st.integers(1, 0xd7ff), st.integers(0xe000, 0xffff), st.integers(0x10000, 0x10ffff), st.sampled_from([1, 0x7f, 0x80, 0x7ff, 0x800, 0xd7ff, 0xe000, 0xffff, 0x10000, 0x10ffff])))
            t = b'\\u%04x' % u if u < 0x10000 else b'\\u%04x\\u%04x' % (0xd800 + (u - 0x10000 >> 10), 0xdc00 + (u & 0x3ff))
            out += t.replace(b'\\u', b'\\U').upper().replace(b'\\U', b'\\u') if draw(st.booleans()) else t
        elif m == 6:
            out += draw(st.sampled_from([b'a', b'xyz', b'\xc3\xa9', b'/', b'\x7f']))
        elif draw(st.integers(0, 3)) == 0:
            out += draw(st.sampled_from([b'\\ud800', b'\\udc00', b'\\ud800\\u0041', b'\\u12', b'\\u12G4', b'\\uD83D\\uDE0', b'\\x', b'\\', b'\\u 123', b'\\udbff\\ue000', b'\\udbff\\udbff', b'\\u004', b'\\u00:1', b'\\u@123', b'\\u00g1',
                                         b'\\u/123', b'\\u`000', b'\t', b'\x01', b'\\a', b'\\"', b'\\ud83dx\\ude00', b'\\ud83d\\x123456']))
    return out + b'"'


numtext = st.one_of(
    st.integers(-100, 100).map(str), st.integers(-(1 << 70), 1 << 70).map(str), st.floats(allow_nan=False, allow_infinity=False).map(repr),
    st.builds('%s%d.%0*d'.__mod__, st.tuples(st.sampled_from(['', '-']), st.integers(0, 99999), st.integers(1, 30), st.integers(0, 10 ** 9))),
    st.builds('%d%s%s%d'.__mod__, st.tuples(st.integers(-99, 99), st.sampled_from('eE'), st.sampled_from(['', '+', '-']), st.integers(0, 400))),
    st.builds(lambda a, n, b: '%d%s%s' % (a, '0' * n, b), st.integers(1, 9), st.integers(20, 120), st.sampled_from(['', '.5', 'e-30', '1'])),
    st.builds(lambda n, b: '0.%s%d' % ('0' * n, b), st.integers(20, 120), st.integers(1, 99)),
    st.builds(lambda b: repr(struct.unpack('<d', b)[0]), st.binary(min_size=8, max_size=8)).filter(lambda s: 'n' not in s),
    st.sampled_from(['0', '-0', '2147483647', '2147483648', '-2147483648', '-2147483649', '0.1', '1e308', '1e309', '-1e400', '5e-324', '1e-400', '3.0', '4503599627370497.5', '1.7976931348623157e308', '0.30000000000000004',
                     '9007199254740993', '123456789012345678', '1e15', '1e16', '1e22', '1e23', '01', '1.', '-', '.5', '+1', '1e', '1e+', '--1', '1.2.3', '1-2', '0x10', '-.5', '1E5e5', '-x', '1e1000000000'])).map(str.encode)
space = st.one_of(st.just(b''), st.just(b''), st.just(b''), st.sampled_from([b' ', b'\n', b'\t', b'\r\n  ', b'  ', b'\x0b', b'\x01']))


def wrap(children):
    def arr(l, s):
        return b'[' + s + (s + b',' + s).join(l) + s + b']'

    def obj(l, s):
        return b'{' + s + (s + b',' + s).join(k + s + b':' + s + v for k, v in l) + s + b'}'
    return st.one_of(st.builds(arr, st.lists(children, max_size=5), space), st.builds(obj, st.lists(st.tuples(strtext(), children), max_size=5), space))


leaf = st.one_of(numtext, numtext, strtext(), strtext(), st.sampled_from([b'null', b'true', b'false', b'[]', b'{}', b'[ ]', b'{ }']))
valid = st.recursive(leaf, wrap, max_leaves=14)
deep = st.builds(lambda n, o, c, m: (o * n) + b'1' + (c * m if m >= 0 else c * n), st.sampled_from([1, 5, 64, 500, 998, 999, 1000, 1001, 1500]), st.just(b'['), st.just(b']'), st.sampled_from([-1, -1, -1, 0, 3]))
deepo = st.builds(lambda n: b'{"a":' * n + b'1' + b'}' * n, st.sampled_from([1, 64, 400, 999, 1000, 1001]))
TOK = [b'[', b']', b'{', b'}', b',', b':', b'"', b'\\', b'1', b'-', b'.', b'e', b'null', b'true', b'false', b'nul', b'tru', b' ', b'"a"', b'\0', b'\xef\xbb\xbf', b'/', b'\\u', b'0', b'"a":1', b'True', b'NaN']
tokens = st.lists(st.sampled_from(TOK), max_size=14).map(b''.join)


@st.composite
def mutated(draw):
    b = bytearray(draw(valid))
    for k in range(draw(st.integers(1, 3))):
        m = draw(st.integers(0, 4))
        p = draw(st.integers(0, max(len(b) - 1, 0)))
        if m == 0:
            b = b[:p]
        elif m == 1 and b:
            del b[p]
        elif m == 2:
            b[p:p] = draw(st.sampled_from(TOK))
        elif m == 3 and b:
            b[p] = draw(st.integers(0, 255))
        else:
            b += draw(st.sampled_from([b',', b'x', b' ', b'\0', b']', b'}', b' \0', b'\0 ', b'\n\n', b'1']))
    return bytes(b)


text = st.one_of(valid, valid, st.builds(lambda v, s: s + v + s, valid, space), mutated(), mutated(), tokens, st.integers(0, 5).flatmap(lambda n: st.one_of(deep, deepo) if n == 0 else tokens), st.builds(lambda v: b'\xef\xbb\xbf' + v, valid), st.builds(lambda v, s: v + s, valid, st.sampled_from([b'\0', b' \0', b' ', b' x', b'\0x'])))
ptext = st.tuples(st.just('parse'), st.integers(0, 3), text)
slotn = st.integers(0, 3)
name = st.sampled_from([b'a', b'A', b'b', b'', b'a b', b'"', b'\xc3\xa9', b'\\', b'k1', b'k2'])
sop = st.one_of(
    st.tuples(st.just('P'), slotn, valid), st.tuples(st.just('P'), slotn, st.sampled_from([b'[]', b'{}', b'[1,2,3]', b'{"a":1,"b":2}', b'"s"', b'7', b'[[],{}]'])),
    st.tuples(st.just('P'), slotn, st.sampled_from([b'[]', b'{}', b'[1,2,3]', b'{"a":1,"b":2}', b'"s"', b'7', b'[[],{}]'])),
    st.tuples(st.just('A'), slotn, slotn), st.tuples(st.just('O'), slotn, name, slotn), st.tuples(st.just('A'), slotn, slotn), st.tuples(st.just('O'), slotn, name, slotn),
    st.tuples(st.just('I'), slotn, st.integers(0, 5), slotn), st.tuples(st.just('R'), slotn, st.integers(0, 5), slotn),
    st.tuples(st.just('D'), slotn, st.integers(0, 5), slotn), st.tuples(st.just('E'), slotn, name, st.booleans(), slotn), st.tuples(st.just('U'), slotn, slotn))
script = st.tuples(st.just('script'), st.lists(sop, min_size=1, max_size=25))


def hx(b):
    return b.hex() or '-'


class C09(Prop):
    id = 'C09'
    rule = ('a case is a handful of texts (valid documents with every escape and number form, mutated, token soup, deep nesting up to and past the documented limit; terminated or with a length only) '
            'or one history of building edits (add, insert, replace, detach, duplicate). Non-trivial: some accepted text held an array or object with something in it, or an edit changed a container')
    quick_cases = 1500
    thorough_cases = 30000
    quick_budget = 60
    assumptions = ['text that RFC 8259 forbids but the library tolerates (leading zeros, control characters, trailing text without the terminator flag) may be accepted or refused; when accepted its value is checked',
                   'the escape \\u0000 cannot be represented in the library\'s strings (documented) and is only checked for memory safety']

    def prebuild(cls):
        cls.exe = harness.make('json', ['modules/nginx-rtmp-module/json/cJSON.c'])

    def setup(self):
        self.p = harness.Proc(self.exe)

    def teardown(self):
        self.p.stop()

    def strategy(self):
        return st.lists(st.one_of(ptext, ptext, ptext, script), min_size=1, max_size=6)

    def ask(self, w, what):
        try:
            return self.p.ask(w)
        except harness.Died as e:
            raise Violation('%s: %s' % (what, e))

    def run(self, case):
        sys.setrecursionlimit(30000)
        nt, labels = False, set()
        for c in case:
            a, l = self.one_text(c[1], c[2]) if c[0] == 'parse' else self.one_script(c[1])
            nt = nt or a
            labels |= l
        return nt, labels

    def one_text(self, mode, b):
        what = 'parse %s %r' % (['with terminator', 'with length', 'with terminator required', 'with length and terminator required'][mode], b[:300])
        got = self.ask('parse %d %s' % (mode, hx(b)), what).split(' ')
        if got[0] == 'V' and any(x.startswith('!') for x in got):
            raise Violation('%s: %s' % (what, [x for x in got if x.startswith('!')]))
        try:
            v, end, p = parse(b, mode)
        except No as e:
            if got[0] != 'E':
                raise Violation('%s: invalid (%s) but accepted as %s' % (what, e, got[2][:200]))
            return False, {'rejected'}
        except Deep:
            return False, {'too deep'}
        if p.nul:
            return False, set()
        if got[0] == 'E':
            if p.odd:
                return False, {'tolerated or refused'}
            raise Violation('%s: valid but refused at %s' % (what, got[1]))
        if got[2] != dump(v):
            raise Violation('%s: read as %s, is %s' % (what, got[2][:400], dump(v)[:400]))
        if end is not None and int(got[1]) != end:
            raise Violation('%s: end of the value reported at %s, is at %d' % (what, got[1], end))
        f, u = (b'' if x == '-' else bytes.fromhex(x) for x in got[3:5])
        want = flat(v)
        for t, kind in ((f, 'formatted'), (u, 'unformatted')):
            try:
                q = Parser(t)
                w = q.value(1)
            except No as e:
                raise Violation('%s: its %s print %r is invalid (%s)' % (what, kind, t[:300], e))
            if q.i != len(t) or not close(w, want):
                raise Violation('%s: its %s print %r is another value' % (what, kind, t[:300]))
            if q.odd and not p.odd:
                raise Violation('%s: its %s print %r is not valid JSON' % (what, kind, t[:300]))
            if re.search(rb'[\x00-\x08\x0b-\x1f]', t) or (kind == 'unformatted' and re.search(rb'[\n\t]', t)):
                raise Violation('%s: its %s print %r has raw control characters' % (what, kind, t[:300]))
        if strip(f) != u or strip(u) != u:
            raise Violation('%s: prints %r and %r differ in more than white space' % (what, f[:300], u[:300]))
        return isinstance(v, (list, tuple)) and len(v) > 0, {'accepted'} | ({'odd text accepted'} if p.odd else set())

    def one_script(self, ops):
        S = [None] * 8         # slot: ('v', value); containers are Python lists / Obj
        words, want, changed = [], [], False

        class Obj(list):
            pass

        def live(v):
            if isinstance(v, list):
                return [live(x) for x in v]
            if isinstance(v, tuple):
                return Obj([k, live(x)] for k, x in v)
            return v

        def show(v):
            if isinstance(v, Obj):
                return '{%s}' % ''.join('%s=%s' % (k.hex() or '-', show(x)) for k, x in v)
            if isinstance(v, list):
                return '[%s]' % ''.join(map(show, v))
            return dump(v)

        def low(k):
            return bytes(k).lower()
        for o in ops:
            k = o[0]
            r = -1
            if k == 'P':
                words.append('P %d %s' % (o[1], hx(o[2])))
                try:
                    v, end, p = parse(o[2], 0)
                    if p.odd or p.nul:
                        words.pop()
                        continue
                    S[o[1]] = (live(v),)
                except (No, Deep):
                    S[o[1]] = None
            elif k == 'A' or k == 'O':
                d = o[-1]
                t = S[o[1]]
                if t is None or S[d] is None or d == o[1] or not isinstance(t[0], list) or isinstance(t[0], Obj) != (k == 'O'):
                    continue
                words.append('A %d %d' % (o[1], d) if k == 'A' else 'O %d %s %d' % (o[1], hx(o[2]), d))
                t[0].append(S[d][0] if k == 'A' else [o[2], S[d][0]])
                S[d] = None
                r = 1
                changed = True
            elif k in 'IR':
                t, d = S[o[1]], o[3]
                if t is None or S[d] is None or d == o[1] or not isinstance(t[0], list) or isinstance(t[0], Obj):
                    continue
                if k == 'R' and o[2] >= len(t[0]):
                    want_r = 0
                    words.append('R %d %d %d' % (o[1], o[2], d))
                    r = 0
                else:
                    words.append('%s %d %d %d' % (k, o[1], o[2], d))
                    if k == 'I':
                        t[0].insert(o[2], S[d][0])
                    else:
                        t[0][o[2]] = S[d][0]
                    S[d] = None
                    r = 1
                    changed = True
            elif k == 'D':
                t, d = S[o[1]], o[3]
                if t is None or d == o[1] or not isinstance(t[0], list) or isinstance(t[0], Obj):
                    continue
                words.append('D %d %d %d' % (o[1], o[2], d))
                r = int(o[2] < len(t[0]))
                if r:
                    S[d] = (t[0].pop(o[2]),)
                    changed = True
            elif k == 'E':
                t, cs, d = S[o[1]], o[3], o[4]
                if t is None or d == o[1] or not isinstance(t[0], Obj):
                    continue
                words.append('E %d %s %d %d' % (o[1], hx(o[2]), cs, d))
                j = next((i for i, x in enumerate(t[0]) if (x[0] == o[2] if cs else low(x[0]) == low(o[2]))), -1)
                r = int(j >= 0)
                if r:
                    S[d] = (t[0].pop(j)[1],)
                    changed = True
            elif k == 'U':
                t, d = S[o[1]], o[2]
                if t is None or d == o[1]:
                    continue
                words.append('U %d %d' % (o[1], d))

                def cp(v):
                    return Obj([a, cp(b)] for a, b in v) if isinstance(v, Obj) else [cp(x) for x in v] if isinstance(v, list) else v
                S[d] = (cp(t[0]),)
                r = 1
            want.append('%d,%s' % (r, ','.join('0' if s is None else show(s[0]) for s in S)))
        got = self.ask('script ' + ' '.join(words), 'edits %r' % words[-12:]).rstrip(' ').split(' ')
        for i, w in enumerate(want):
            if i >= len(got) or got[i] != w:
                raise Violation('edits %r: after %r got %s, want %s' % (words[:i], words[i], got[i][:400] if i < len(got) else None, w[:400]))
        return changed, {'edited'} if changed else set()


if __name__ == '__main__':
    main(C09)
