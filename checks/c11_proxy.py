"""C11: PROXY protocol headers. Generated headers, valid and damaged, against a small reference parser; the bytes that follow must reach RTMP unharmed."""
import ipaddress, os, sys, time
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from hypothesis import strategies as st
from lib import build, http, ngx, rtmp
from lib.check import Prop, Violation, main

port = st.integers(0, 65535)
v4 = st.one_of(st.ip_addresses(v=4), st.sampled_from(['0.0.0.0', '127.0.0.1', '10.0.0.1', '255.255.255.254', '1.2.3.4', '192.168.100.200'])).map(str).filter(lambda a: a != '255.255.255.255')


def form6(t):
    a, k = t
    a = ipaddress.IPv6Address(a)
    if k == 0:
        return a.compressed
    if k == 1:
        return a.exploded
    if k == 2:
        return a.compressed.upper()
    return ':'.join('%x' % int(x, 16) for x in a.exploded.split(':'))


v6 = st.tuples(st.one_of(st.ip_addresses(v=6), st.sampled_from(['::', '::1', '2001:db8::1', 'ffff:ffff:ffff:ffff:ffff:ffff:ffff:ffff', '::ffff:10.0.0.1', 'fe80::1:0:0:1', '1::', '0:0:1::'])).map(str), st.integers(0, 3)).map(form6)
good = st.one_of(
    st.tuples(v4, v4, port, port).map(lambda t: ('PROXY TCP4 %s %s %d %d' % t, t[0])),
    st.tuples(v6, v6, port, port).map(lambda t: ('PROXY TCP6 %s %s %d %d' % t, t[0])),
    st.one_of(st.just(''), st.text(alphabet=' 0123456789abcdef.:TCP', max_size=84).map(lambda x: ' ' + x)).map(lambda x: ('PROXY UNKNOWN' + x, None)))
# each of these is refused by every reading of the protocol
BAD = ['sign', 'family', 'nospace', 'addr', 'nocrlf', 'toolong', 'cut', 'nothing']


class C11(Prop):
    id = 'C11'
    rule = ('a case is one connection: a PROXY header (TCP4, TCP6 in four spellings, UNKNOWN with trailing text) or one damaged in signature, family, source address, line end or length, and an RTMP session '
            'whose bytes follow in the same segment or in others. Non-trivial: a TCP4/TCP6 header with bytes of the session in the same segment, or a damaged header')
    assumptions = ['the header arrives in one segment, as the PROXY protocol lets receivers ask for', 'destination address and ports of the header are not checked by the server and not judged']
    quick_cases = 2000
    thorough_cases = 30000
    quick_budget = 35
    variants = ['plain', 'asan', 'plain']
    patience = 6

    def prebuild(cls):
        build.modules('plain')
        build.modules('asan')

    def setup(self):
        flavour = self.variant
        self.port, self.hp = ngx.free_port(), ngx.free_port()
        self.ng = ngx.Nginx(rtmp='server { listen 127.0.0.1:%d proxy_protocol; ping 1h; timeout 1h; application live { live on; } }' % self.port,
                            http='server { listen 127.0.0.1:%d; location /stat { rtmp_stat all; } }' % self.hp, flavour=flavour, log_level='emerg')
        self.ng.start([self.hp])
        self.n = 0

    def teardown(self):
        self.ng.stop()

    def strategy(self):
        bad = st.tuples(st.sampled_from(BAD), good, st.binary(min_size=0, max_size=120), st.integers(0, 1000))
        return st.fixed_dictionaries({
            'head': st.one_of(good.map(lambda g: ('good', g, b'', 0)), good.map(lambda g: ('good', g, b'', 0)), bad),
            'with': st.sampled_from([0, 1, 7, 100, 1000, 1537, 1537, 2000]),     # bytes of C0C1 in the segment of the header
            'rnd': st.binary(min_size=0, max_size=16)})

    def header(self, case):
        """(bytes, address or None or 'refused')"""
        kind, (text, addr), raw, k = case['head']
        b = text.encode()
        if kind == 'good':
            return b + b'\r\n', addr
        w = text.split(' ')
        if kind == 'sign':
            s = [b'proxy', b'PROXI', b'PROXY\t', b'HTTP', b'', b'\x03' + raw[:5], b'PROXYX', b'ROXY'][k % 8]
            b = s + b[5:]
            if b.startswith(b'PROXY '):
                b = b'x' + b
        elif kind == 'family':
            b = b'PROXY ' + [b'TCP5', b'TCP', b'UDP4', b'tcp4', b'UNIX', b'TCP44', b'', b'UNKNOW'][k % 8] + b' 1.2.3.4 5.6.7.8 1 2'
        elif kind == 'nospace':
            b = b'PROXY TCP4' + [b'', b'1.2.3.4 5.6.7.8 1 2', b'\r', b':'][k % 4]
        elif kind == 'addr':
            b = b'PROXY TCP4 ' + [b'', b'1.2.3', b'1.2.3.4.5', b'1.2.3.256', b'a.b.c.d', b'localhost', b'1.2.3.4:80', b'[::1]', b'1:2', b':::', b'12345::', b'1:2:3:4:5:6:7:8:9', b'g::1', b'-1.2.3.4', b'1,2,3,4', raw.replace(b' ', b'').replace(b'\r', b'') + b'!'][k % 16] + b' 5.6.7.8 1 2'
        elif kind == 'nocrlf':
            return b + [b'', b'\r', b'\n', b'\n\r', b'\r '][k % 5], 'refused'
        elif kind == 'toolong':
            return b + b' ' * (106 - len(b) + k % 900) + b'\r\n', 'refused'
        elif kind == 'cut':
            return (b + b'\r\n')[:1 + k % (len(b) + 1)], 'refused'
        elif kind == 'nothing':
            return b'', 'refused'
        return b + b'\r\n', 'refused'

    def run(self, case):
        head, addr = self.header(case)
        self.n += 1
        c = rtmp.Conn(('127.0.0.1', self.port), timeout=self.patience)
        what = '%r' % head[:130]
        try:
            c1 = b'\x03\0\0\0\0\0\0\0\0' + (case['rnd'] * 200 + bytes(1528))[:1528]
            if addr == 'refused':
                if head:
                    c.send(head)
                else:
                    c.sock.shutdown(1)
                try:
                    d = c.recv_exact(1)
                    raise Violation('%s is answered with %r' % (what, d))
                except rtmp.Closed:
                    pass
                except rtmp.Timeout:
                    raise Violation('%s is not refused' % what)
                self.alive()
                return True, {case['head'][0]}
            n = case['with']
            rest = c1
            if n > 1537:
                rest = c1      # C2 follows S2, more is not sent ahead
            c.send(head + rest[:n])
            if n < 1537:
                time.sleep(0.0005)
                c.send(rest[n:])
            c.handshake_rest(c1)
            r = c.connect('live', 'rtmp://h/live')
            if r is None or r[0] != '_result':
                raise Violation('%s: connect fails: %r' % (what, r))
            c.create_stream()
            name = 's%d' % self.n
            c.publish(name)
            if c.wait_status('NetStream.Publish.Start') is None:
                raise Violation('%s: publish fails' % what)
            x = [k for k in http.stat(('127.0.0.1', self.hp)).iter('client')]
            got = [k.findtext('remote_address') for k in x]
            c.close()
            want = ipaddress.ip_address(addr or '127.0.0.1')
            if len(got) < 1 or not all(self.same(g, want) for g in got[-1:]) and not any(self.same(g, want) for g in got):
                raise Violation('%s: the address in the statistics is %r' % (what, got))
            return addr is not None and n > 0, {head[6:10].decode(), 'with %d' % n}
        except rtmp.Closed as e:
            raise Violation('%s: connection lost: %s %s' % (what, e, (self.ng.crashes() or [''])[0][:600]))
        except rtmp.Timeout as e:
            raise Violation('%s: no answer: %s' % (what, e))
        except rtmp.ProtoError as e:
            raise Violation('%s: not RTMP: %s' % (what, e))
        finally:
            c.close()
            if self.ng.crashes():
                raise Violation('crash: ' + self.ng.crashes()[0][:600])

    def same(self, text, want):
        try:
            return ipaddress.ip_address(text) == want
        except ValueError:
            return False

    def alive(self):
        st_, _, _ = http.get(('127.0.0.1', self.hp), '/none', timeout=self.patience)
        if st_ != 404:
            raise Violation('HTTP answers %d' % st_)


if __name__ == '__main__':
    main(C11)
