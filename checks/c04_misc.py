"""C04: URL, address and port helpers against independent parsers."""
import hashlib, ipaddress, os, re, socket, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from hypothesis import strategies as st
from lib import harness
from lib.check import Prop, Violation, main

b = lambda s: s.encode('latin-1')
scheme = st.sampled_from(['http', 'https', 'rtmp', 'rtmps', 'ht', 'a', 'RTMP', 'x+y-z.1'])
word = st.text('abz019-._~', min_size=1, max_size=12)
v4 = st.integers(0, (1 << 32) - 2).map(lambda i: str(ipaddress.IPv4Address(i)))
v6 = st.one_of(st.integers(0, (1 << 128) - 1), st.sampled_from([0, 1, 1 << 127, 0xfe80 << 112, 1 << 64]), st.lists(st.integers(0, 7), max_size=8).map(lambda l: sum(0xab << (16 * i) for i in set(l)))).map(lambda i: str(ipaddress.IPv6Address(i)))
host = st.one_of(word, v4, v6.map(lambda a: '[%s]' % a))
portn = st.one_of(st.integers(0, 70000), st.sampled_from([0, 1, 80, 65535, 65536, 99999999999999999999])).map(str)
chars = st.text('ab/:@?#[]=&%. ', max_size=12)
pchars = st.text('abc019/:@=&.,;~!$()*+-_%[]', max_size=20)
qchars = st.text('abc019/:@=&?.,;~-_%', min_size=1, max_size=20)
fchars = st.text('abc019/:@=&?.,;~-_%#', min_size=1, max_size=20)


@st.composite
def url(draw):
    s = draw(scheme) + '://'
    if draw(st.booleans()):
        s += draw(st.one_of(word, st.just('u:p'), st.just('a?b'), st.just('[u]'))) + '@'
    s += draw(host)
    if draw(st.booleans()):
        s += ':' + draw(portn)
    if draw(st.integers(0, 3)):
        s += '/' + draw(pchars)
        if draw(st.booleans()):
            s += '?' + draw(qchars)
        if draw(st.booleans()):
            s += '#' + draw(fchars)
    m = draw(st.integers(0, 9))
    if m == 0:
        i = draw(st.integers(0, len(s)))
        s = s[:i]
    elif m == 1:
        i = draw(st.integers(0, len(s)))
        s = s[:i] + draw(chars) + s[i:]
    elif m == 2:
        i = draw(st.integers(0, len(s) - 1))
        s = s[:i] + s[i + 1:]
    return s


addr = st.one_of(
    st.builds(lambda a, p: a + p, v4, st.one_of(st.just(''), portn.map(lambda p: ':' + p), st.sampled_from([':', ':x', ':80x', ':-1', ':8 0']))),
    st.builds(lambda a, p: '[%s]%s' % (a, p), v6, st.one_of(st.just(''), st.just(''), portn.map(lambda p: ':' + p), st.sampled_from([':', ':x', ':80x', 'x', ']', '80', ' ', ':1:2']))),
    st.builds(lambda u, p: u + p, st.sampled_from(['unix:', 'UNIX:', 'Unix:']), st.one_of(st.just(''), word.map(lambda w: '/tmp/' + w), st.integers(100, 112).map(lambda n: 'p' * n), st.text('/ab:]', min_size=1, max_size=9))),
    st.sampled_from(['', '[', '[]', '[:', ']', '[::1', '::1', '1.2.3', '1.2.3.4.5', '256.1.1.1', '1.2.3.a', 'example.com', 'example.com:80', ':80', 'unix', 'unix', 'a:b:c', '[1.2.3.4]', '[g::]', '[1:2:3:4:5:6:7:8:9]', '[1::2::3]', '[12345::]']),
    v6.map(lambda a: '[' + a))
mport = st.one_of(
    st.builds(lambda h_, p: h_ + p, st.one_of(st.just(''), v4.map(lambda x: x + ':'), word.map(lambda x: x + ':'), v6.map(lambda x: '[%s]:' % x), st.just('*:')), st.one_of(portn, st.integers(65200, 65540).map(str), st.sampled_from(['', 'x', '80x', '-5', '1', '0']))),
    word.map(lambda w: 'unix:/tmp/' + w), st.sampled_from(['unix:', 'UNIX:/x', '[::1]', '[::1', '[]:80', '[:80', '', ':', 'a:b:80']))
op = st.one_of(
    st.tuples(st.just('U'), url()), st.tuples(st.just('U'), url()), st.tuples(st.just('U'), url()),
    st.tuples(st.just('U'), st.one_of(chars, chars.map(lambda s: 'http://' + s))),
    st.tuples(st.just('S'), addr), st.tuples(st.just('S'), addr),
    st.tuples(st.just('G'), mport, st.one_of(st.integers(0, 127), st.integers(-2, 130))),
    st.tuples(st.just('P'), st.sampled_from(['http', 'https', 'rtmp', 'rtmps', 'htt', '', 'HTTP', 'rtmpx']), st.one_of(st.just(''), portn, st.sampled_from(['x', '8x', '-1', '+1', ' 1', '0080']))),
    st.tuples(st.just('M'), st.binary(max_size=200), st.integers(0, 100)), st.tuples(st.just('Y'), st.binary(max_size=60)))

UNK = object()


def parse_url(u):
    i = u.find('://')
    if i < 0:
        return None
    sch, rest = u[:i], u[i + 3:]
    if not rest:
        return None
    auth, slash, tail = rest.partition('/')
    user = ''
    hostport = auth
    if '@' in auth:
        user, _, hostport = auth.partition('@')
        if not user or not hostport:
            return None
    if not sch or not hostport or '?' in hostport or '#' in hostport or '?' in user or '#' in user or (not slash and not auth):
        return UNK
    if hostport.startswith('['):
        j = hostport.find(']')
        if j < 0:
            return None
        h, p = hostport[:j + 1], hostport[j + 1:]
        if p and not p.startswith(':'):
            return None
        colon, p = p[:1], p[1:]
    else:
        h, colon, p = hostport.partition(':')
        if not h:
            return UNK
    if colon and not p:
        return None
    rest, hsh, frag = tail.partition('#')
    path, q, args = rest.partition('?')
    if (hsh and not frag) or (q and not args):
        return None
    return [sch, user, h, p, path, args, frag, hostport, tail]


def parse_addr(t):
    if t[:5].lower() == 'unix:':
        p = t[5:]
        return ('1 %d 1 0 %s' % (socket.AF_UNIX, b(p).hex())) if 0 < len(p) <= 107 else '0'
    if t.startswith('['):
        j = t.find(']')
        if j < 0:
            return '0'
        a, rest = t[1:j], t[j + 1:]
        try:
            ip = ipaddress.IPv6Address(a)
        except ValueError:
            return '0'
        fam = socket.AF_INET6
    else:
        a, c, rest = t.partition(':')
        rest = c + rest
        try:
            ip = ipaddress.IPv4Address(a)
        except ValueError:
            return '0'
        fam = socket.AF_INET
    port = 0
    if rest:
        if not re.fullmatch(r':[0-9]+', rest) or int(rest[1:]) > 65535:
            return '0'
        port = int(rest[1:])
    return '1 %d 1 %d %s' % (fam, port, ip.packed.hex())


def get_port(t, slot):
    """(certain error, certain text)"""
    if not 0 <= slot <= 127:
        return None
    if t[:5].lower() == 'unix:':
        return '%s.%d' % (t, slot)
    if t.startswith('['):
        j = t.find(']')
        if j < 0 or t[j + 1:j + 2] != ':':
            return None
        pre, p = t[:j + 2], t[j + 2:]
    else:
        j = t.find(':')
        pre, p = t[:j + 1], t[j + 1:]
    if not re.fullmatch('[0-9]+', p) or int(p) < 1 or int(p) + slot > 65535:
        return None
    return '%s%d' % (pre, int(p) + slot), int(p) + slot <= 65408


class C04(Prop):
    id = 'C04'
    rule = ('a case is one call: a URL built from its parts (optionally cut or damaged), an address text with or without port, a per-worker port, a scheme/port pair, a file to hash or a string to '
            'copy. Non-trivial: a URL with at least 4 parts or an address/port the reference accepts')
    quick_cases = 12000
    thorough_cases = 150000
    quick_budget = 60
    batch = 2000

    def prebuild(cls):
        cls.exe = harness.make('misc')

    def setup(self):
        self.p = harness.Proc(self.exe)

    def teardown(self):
        self.p.stop()

    def strategy(self):
        return op

    def ask(self, l):
        try:
            return self.p.ask(l)
        except harness.Died as e:
            raise Violation('helpers: %s' % e)

    def run(self, case):
        k, t = case[0], case[1]
        hx = lambda s: (b(s) if isinstance(s, str) else s).hex() or '-'
        if k == 'U':
            got = self.ask('U %s' % hx(t)).split()
            want = parse_url(t)
            if want is UNK:
                if 'OUT' in got:
                    raise Violation('URL %r: a part lies outside the URL: %r' % (t, got))
                return False, ('URL, unspecified',)
            if want is None:
                if got[0] != '-1':
                    raise Violation('URL %r is accepted as %r' % (t, [bytes.fromhex(x.replace('-', '')) for x in got[1:]]))
                return False, ('URL, not one',)
            if got != ['0'] + [hx(x) for x in want]:
                raise Violation('URL %r: got rc %s parts %r, want %r (scheme user host port path args fragment host_with_port uri_with_args)' % (
                    t, got[0], [x if x == 'OUT' else bytes.fromhex(x.replace('-', '')).decode('latin-1') for x in got[1:]], want))
            return sum(1 for x in want[:7] if x) >= 4, ('URL',)
        if k == 'S':
            got, want = self.ask('S %s' % hx(t)), parse_addr(t)
            if got != want:
                raise Violation('address %r: got %s, want %s (accepted family length port address)' % (t, got, want))
            return want != '0', ('address %s' % ('accepted' if want != '0' else 'refused'),)
        if k == 'G':
            got, want = self.ask('G %d %s' % (case[2], hx(t))).split(), get_port(t, case[2])
            must = True
            if isinstance(want, tuple):
                want, must = want
            if want is None and got != ['-1']:
                raise Violation('port %r of worker slot %d: got %s, want an error' % (t, case[2], bytes.fromhex(got[1])))
            if want is not None and got != ['0', hx(want)] and (must or got != ['-1']):
                raise Violation('port %r of worker slot %d: got %r, want %s' % (t, case[2], got, want))
            return want is not None, ('worker port',)
        if k == 'P':
            got = int(self.ask('P %s %s' % (hx(t), hx(case[2]))))
            p = case[2]
            want = (int(p) if re.fullmatch('[0-9]+', p) and 1 <= int(p) <= 65535 else 0) if p else {'http': 80, 'https': 443, 'rtmp': 1935}.get(t, 0)
            if got != want:
                raise Violation('port of scheme %r port %r: got %d, want %d' % (t, p, got, want))
            return want != 0, ('scheme port',)
        if k == 'M':
            got = self.ask('M %s %d' % (hx(t), case[2]))
            want = '0 %s -1' % hashlib.md5(t * case[2]).hexdigest()
            if got != want:
                raise Violation('MD5 of %d bytes (then of a closed file): got %s, want %s' % (len(t) * case[2], got, want))
            return len(t) * case[2] > 64, ('file hash',)
        got = self.ask('Y %s' % hx(t))
        if got != '0 1 %s' % hx(t):
            raise Violation('copy of %r: %s' % (t, got))
        return False, ('copy',)


if __name__ == '__main__':
    main(C04)
