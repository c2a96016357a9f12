"""R16: access rules and the connection limit. Generated rule lists at three levels against the reference rule (first match), connection histories against a counter."""
import ipaddress, os, random, socket, struct, sys, time
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from hypothesis import strategies as st
from lib import build, http, media, ngx, rtmp
from lib.check import Prop, Violation, Inconclusive, main

VARIANTS = [('rules', 'plain'), ('rules', 'asan'), ('rules', 'plain'), ('limit', 'plain', 3, 1), ('limit', 'asan', 6, 1), ('rules', 'plain'), ('limit', 'plain', 5, 3), ('rules', 'asan')]
NAPP = 24
V4 = ['127.0.0.1', '127.0.0.2', '127.0.1.1', '127.1.0.1', '127.128.0.9', '127.0.0.129', '10.1.2.3', '10.1.2.200', '10.200.0.1', '192.0.2.7', '255.255.255.254', '0.0.0.0', '128.0.0.1']
V6 = ['::1', '2001:db8::1', '2001:db8::2', '2001:db8:0:1::1', '2001:db8::1:0:0:1', '2001:db9::1', 'fe80::1', '::ffff:10.1.2.3', '::ffff:192.0.2.7', '8000::', 'ffff:ffff:ffff:ffff:ffff:ffff:ffff:ffff', '2001:db8::8000:0:0:1']


def rules(r, n):
    out = []
    for _ in range(n):
        deny = r.random() < 0.5
        what = r.choice(['', '', 'publish ', 'play '])
        k = r.random()
        if k < 0.15:
            a = 'all'
        elif k < 0.6:
            a = r.choice(V4)
            if r.random() < 0.6:
                a += '/%d' % r.choice([0, 1, 7, 8, 9, 15, 16, 24, 25, 30, 31, 32])
        else:
            a = r.choice([x for x in V6 if '.' not in x])
            if r.random() < 0.7:
                a += '/%d' % r.choice([0, 1, 16, 31, 32, 33, 63, 64, 65, 80, 96, 97, 127, 128])
        out.append((deny, what, a))
    return out


def text(rs):
    return ''.join('%s %s%s; ' % ('deny' if d else 'allow', w, a) for d, w, a in rs)


def allowed(rs, addr, action):
    a = ipaddress.ip_address(addr)
    if a.version == 6 and a.ipv4_mapped:
        a = a.ipv4_mapped
    for d, w, net in rs:
        if w.strip() and w.strip() != action:
            continue
        if net == 'all' or (lambda n: n.version == a.version and a in n)(ipaddress.ip_network(net, strict=False)):
            return not d
    return True


class R16(Prop):
    id = 'R16'
    rule = ('rules: a case is up to 6 sessions (RTMP publish or play, HTTP-FLV play; over IPv4, IPv6, IPv4-mapped or through the PROXY protocol from any of 25 addresses) on one of 24 applications with generated rule lists at three levels; '
            'limit: a case is a history of up to 40 connects, handshakes, commands, HTTP players and closes with a connection limit. Non-trivial: one session was admitted and one refused')
    assumptions = ['rules are looked up in the application first, then its server, then the main level', 'for HTTP-FLV the address of the HTTP connection counts']
    quick_cases = 2000
    thorough_cases = 30000
    quick_budget = 35
    variants = VARIANTS
    patience = 6

    def prebuild(cls):
        build.modules('plain')
        build.modules('asan')

    def setup(self):
        self.kind, flavour = self.variant[:2]
        self.port, self.pport, self.p6, self.hp = [ngx.free_port() for _ in range(4)]
        self.recdirs = []
        if self.kind == 'limit':
            self.max = self.variant[2]
            self.ng = ngx.Nginx(rtmp='max_connections %d; server { listen 127.0.0.1:%d; ping 1h; timeout 1h; application live { live on; } }' % (self.max, self.port),
                                http='server { listen 127.0.0.1:%d; location /flv { flv_live 127.0.0.1:%d app=live; } location /sys { sys_stat; } }' % (self.hp, self.port),
                                workers=self.variant[3], flavour=flavour, log_level='emerg')
            self.ng.start([self.hp])
            end = time.monotonic() + 20
            while not self.attempt():
                if time.monotonic() > end:
                    raise Violation('no connection is accepted after start')
            return
        r = random.Random('%s/%s' % (os.environ.get('VERIF_SEED', '1'), self.widx))
        main_, srv = rules(r, r.choice([0, 0, 1, 2])), rules(r, r.choice([0, 1, 3]))
        self.apps = [rules(r, r.choice([0, 1, 2, 4, 8, 12])) for _ in range(NAPP)]
        self.lists = [a + srv + main_ for a in self.apps]
        lst = 'listen 127.0.0.1:%d; listen 127.0.0.1:%d proxy_protocol; listen [::]:%d ipv6only=off;' % (self.port, self.pport, self.p6)
        self.conf = text(main_) + 'server { %s ping 1h; timeout 1h; out_queue 1024; %s %s }' % (
            lst, text(srv), '\n'.join('application a%d { live on; record all; record_path @DIR@/rec; record_suffix .%d; %s }' % (i, i, text(a)) for i, a in enumerate(self.apps)))
        self.ng = ngx.Nginx(rtmp=self.conf, http='server { listen *:%d; %s }' % (self.hp, ' '.join('location /f%d { flv_live 127.0.0.1:%d app=a%d; }' % (i, self.port, i) for i in range(NAPP))), flavour=flavour, log_level='emerg')
        self.rec = os.path.join(self.ng.dir, 'rec')
        os.mkdir(self.rec)
        self.ng.start([self.port, self.hp])
        self.n = 0

    def teardown(self):
        self.ng.stop()

    def strategy(self):
        if self.variant[0] == 'limit':
            op = st.one_of(st.tuples(st.sampled_from(['open', 'open', 'open', 'open', 'raw', 'close', 'close', 'publish', 'play', 'http', 'httpclose', 'bad']), st.integers(0, 15), st.integers(0, 3)))
            return st.fixed_dictionaries({'ops': st.lists(op, min_size=4, max_size=40)})
        s = st.tuples(st.sampled_from(['publish', 'publish', 'play', 'play', 'flv']), st.sampled_from(['proxy', 'proxy', 'proxy', 'direct', 'six', 'mapped']), st.integers(0, 1000))
        return st.fixed_dictionaries({'app': st.integers(0, NAPP - 1), 's': st.lists(s, min_size=1, max_size=6)})

    def run(self, case):
        self.conns = []
        try:
            return self.limit(case) if self.kind == 'limit' else self.rules(case)
        except (rtmp.Closed, ConnectionRefusedError) as e:
            raise Violation('connection lost: %s %s' % (e, (self.ng.crashes() or [''])[0][:600]))
        except rtmp.Timeout as e:
            raise Violation('no answer: %s' % e)
        except rtmp.ProtoError as e:
            raise Violation('not RTMP: %s' % e)
        finally:
            for c in self.conns:
                c.close()

    # ---- rules
    def dial(self, how, i):
        """(address seen by the server, connection)"""
        if how == 'proxy':
            a = (V4 + V6)[i % (len(V4) + len(V6))]
            c = rtmp.Conn(('127.0.0.1', self.pport), timeout=self.patience)
            six = ':' in a
            c.send(('PROXY TCP%d %s %s %d 1935\r\n' % (6 if six else 4, a, '2001:db8::99' if six else '10.9.9.9', 1024 + i)).encode())
        elif how == 'six':
            a = '::1'
            c = rtmp.Conn(('::1', self.p6), timeout=self.patience)
        else:
            a = V4[i % 6]
            c = rtmp.Conn(('127.0.0.1', self.p6 if how == 'mapped' else self.port), timeout=self.patience, source=(a, 0))
        self.conns.append(c)
        return a, c

    def waiting(self, s):
        """False when the server has ended this HTTP player"""
        for _ in range(2):
            http.get(('127.0.0.1', self.hp), '/none', timeout=self.patience)
        while s.pump(0):
            pass
        b = s.body()
        return not s.closed and (b is None or b[0] == 200)

    def rules(self, case):
        self.n += 1
        app = case['app']
        rs = self.lists[app]
        seen, labels = set(), set()
        name = 's%d' % self.n
        path = os.path.join(self.rec, '%s.%d' % (name, app))
        keep = b'recorded before'
        held = False
        for action, how, i in case['s']:
            if action == 'flv':
                a = V4[i % 6]
                ok = allowed(rs, a, 'play')
                s = http.Stream(('127.0.0.1', self.hp), '/f%d/%s' % (app, name), timeout=self.patience, source=(a, 0))
                self.conns.append(s)
                got = self.waiting(s)
            else:
                a, c = self.dial(how, i)
                ok = allowed(rs, a, action)
                c.handshake('simple')
                r = c.connect('a%d' % app, 'rtmp://h/a%d' % app)
                if r is None or r[0] != '_result':
                    raise Violation('connect refused: %r' % (r,))
                c.create_stream()
                if action == 'publish':
                    if held:
                        nm = name + '-%d' % len(self.conns)
                    else:
                        nm = name
                    p = os.path.join(self.rec, '%s.%d' % (nm, app))
                    with open(p, 'wb') as f:
                        f.write(keep)
                    c.publish(nm)
                    code = c.wait_status(('NetStream.Publish.Start', 'NetStream.Publish.BadName'))
                    got = code == 'NetStream.Publish.Start'
                    if code == 'NetStream.Publish.BadName':
                        raise Violation('a free name is refused: %r' % case)
                    if got and nm == name:
                        held = True
                    if not ok and open(p, 'rb').read() != keep:
                        raise Violation('a publisher without access replaced a recording: %s from %s, rules %s' % (action, a, text(rs)))
                    if got and ok:
                        c.write(rtmp.VIDEO, b'\x12frame', 6, 1, 1)
                        if c.user_ping(self.patience) is None:
                            raise Violation('admitted publisher closed')
                    os.unlink(p)
                else:
                    c.play(name)
                    code = c.wait_status('NetStream.Play.Start')
                    got = code is not None
                    if not got and any(m.type in (8, 9) for m in c.msgs):
                        raise Violation('media for a refused player')
                if not got:
                    # and nothing goes on afterwards
                    if not c.closed and not c.wait_close(self.patience):
                        raise Violation('refused session stays')
            if got != ok:
                raise Violation('%s over %s from %s is %s, should be %s; rules: %s' % (action, how, a, 'admitted' if got else 'refused', 'admitted' if ok else 'refused', text(rs)))
            seen.add(ok)
            labels.add('%s/%s %s' % (action, how if action != 'flv' else 'http', 'admitted' if ok else 'refused'))
        if self.ng.crashes():
            raise Violation('crash: ' + self.ng.crashes()[0][:600])
        return len(seen) == 2, labels

    # ---- limit
    def attempt(self):
        """a connection with a finished handshake, or None when the server closes it"""
        try:
            c = rtmp.Conn(('127.0.0.1', self.port), timeout=self.patience)
        except OSError:
            return None
        try:
            c.handshake('simple')
            r = c.connect('live', 'rtmp://h/live')
            if r is None:
                c.close()
                return None
            if getattr(self, 'conns', None) is None:
                c.close()
            return c
        except (rtmp.Closed, OSError):
            c.close()
            return None

    def grow(self, opn, hist):
        end = time.monotonic() + self.patience
        while True:
            c = self.attempt()
            if c is not None:
                return c
            if time.monotonic() > end:
                raise Violation('only %d of %d connections are open but no other is admitted: %r' % (len(opn), self.max, hist))
            time.sleep(0.001)

    def full(self, opn, hist):
        if self.attempt() is not None:
            raise Violation('%d connections are open, the limit is %d, and another one was admitted: %r' % (len(opn), self.max, hist))

    def limit(self, case):
        opn, hs, hist, labels = [], [], [], set()
        nt = False
        fresh = False       # a connection was closed and the server may not have noticed
        for op in case['ops']:
            o, i, k = op
            hist.append(o)
            if o in ('open', 'raw'):
                if len(opn) < self.max:
                    c = self.grow(opn, hist)
                    self.conns.append(c)
                    opn.append(c)
                else:
                    self.full(opn, hist)
                    nt = True
                    labels.add('refused')
            elif o == 'close' and opn:
                c = opn.pop(i % len(opn))
                if k == 0 and hasattr(c, 'pub'):
                    c.cmd('deleteStream', 0.0, None, 1.0)
                    c.user_ping(self.patience)
                c.close(rst=k == 1)
            elif o in ('publish', 'play') and opn:
                c = opn[i % len(opn)]
                if not hasattr(c, 'pub'):
                    c.pub = True
                    c.create_stream()
                    (c.publish if o == 'publish' else c.play)('s%d' % k)
                    c.user_ping(self.patience)
            elif o == 'bad' and opn:
                # a session the server closes itself
                c = opn.pop(i % len(opn))
                c.send(b'\x03\0\0\0\xff\xff\xff\x14\0\0\0\0' if k == 0 else b'\xc3' * 3000)
                try:
                    if k == 0:
                        c.cmd('connect', 1.0, {'app': 'nosuch'})
                except rtmp.Closed:
                    pass
                c.close()
            elif o == 'http' and len(hs) < 3:
                s = http.Stream(('127.0.0.1', self.hp), '/flv/s%d' % k, timeout=self.patience)
                self.conns.append(s)
                if not self.waiting(s):
                    raise Violation('HTTP player refused')
                hs.append(s)
                labels.add('http')
            elif o == 'httpclose' and hs:
                hs.pop(i % len(hs)).close()
        # bring it to the limit and over
        while len(opn) < self.max:
            c = self.grow(opn, hist)
            self.conns.append(c)
            opn.append(c)
        self.full(opn, hist)
        for c in opn:
            if c.user_ping(self.patience) is None:
                raise Violation('an admitted connection was closed: %r' % hist)
        if self.ng.crashes():
            raise Violation('crash: ' + self.ng.crashes()[0][:600])
        return nt, labels


if __name__ == '__main__':
    main(R16)
