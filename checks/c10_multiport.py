"""C10: per-worker ports and broadcasts. Generated histories of requests, worker crashes and reloads against the set of live workers."""
import os, re, signal, socket, subprocess, sys, time
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from hypothesis import strategies as st
from lib import build, http, ngx
from lib.check import Prop, Violation, main


def free_block(n):
    """a TCP port p such that p..p+n-1 are free on every address"""
    while True:
        p = ngx.free_port()
        if p + n > 65000:
            continue
        try:
            for i in range(n):
                for fam, a in ((socket.AF_INET, '0.0.0.0'), (socket.AF_INET6, '::')):
                    s = socket.socket(fam)
                    if fam == socket.AF_INET6:
                        s.setsockopt(socket.IPPROTO_IPV6, socket.IPV6_V6ONLY, 1)
                    s.bind((a, p + i))
                    s.close()
            return p
        except OSError:
            continue


class UnixHTTP:
    pass


class C10(Prop):
    id = 'C10'
    rule = ('a case is a history of 3-14 steps on a server with 1-5 worker processes: requests to one worker\'s own port, to the shared port, broadcasts (with arguments, answers of generated length, '
            'workers that refuse, prefix rewriting and suffix), a worker killed, a configuration reload; non-trivial: at least two workers and at least one broadcast or own-port request after another step')
    assumptions = ['requests are made while no worker is starting or stopping (each kill or reload is followed by a wait)', 'a rewritten prefix has the length of the original one']
    quick_cases = 400
    thorough_cases = 6000
    quick_budget = 45
    batch = 40
    # form of the port, workers
    variants = [('unix', 3, 'plain'), ('inet', 2, 'plain'), ('port', 4, 'asan'), ('inet6', 3, 'plain'), ('unix', 1, 'asan'), ('wild', 5, 'plain'), ('unix', 4, 'plain'), ('inet', 3, 'asan')]
    SLOTS = 16
    patience = 15

    def setup(self):
        form, self.nw, fl = self.variant
        self.form = form
        self.v6 = form == 'inet6'
        self.hp = ngx.free_port()
        self.base = free_block(self.SLOTS)
        mp, rel = {
            'unix': ('unix:@DIR@/w.sock', '127.0.0.1:%d' % self.hp),
            'inet': ('127.0.0.1:%d' % self.base, '127.0.0.1:%d' % self.hp),
            'port': ('%d' % self.base, '%d' % self.hp),
            'inet6': ('[::1]:%d' % self.base, '[::1]:%d' % self.hp),
            'wild': ('*:%d' % self.base, '127.0.0.1:%d' % self.hp)}[form]
        if form == 'wild':
            bc = '127.0.0.1:%d' % self.base
        elif form == 'port':
            bc = '127.0.0.1:%d' % self.base
        else:
            bc = mp
        pp = 'http://$1:' if form == 'unix' else 'http://$1'
        fill = 'abcdefghij' * 40
        conf = '''
 map "$pid:$arg_no" $deny { "~^(\\d+):(?:.*x)?\\1x" 1; default 0; }
 map $arg_f $fill { default ""; 1 "%s"; 2 "%s"; 3 "%s"; }
 server {
  listen %s;
  location /who { return 200 "$pid $server_port\\n"; }
  location /bc/ { broadcast %s /px; return 200 "own"; }
  location /bs/ { broadcast %s /px; broadcast_suffix "<END>"; return 200 "own"; }
  location /br/ { broadcast %s /px; broadcast_rewrite_prefix "[[" "{("; broadcast_suffix "]"; return 404;
    location /br/in/ { return 200 "inner"; } }
  location /bx/ { broadcast %s /px; broadcast_rewrite_prefix "nomatch" "NOMATCH"; }
  location /px/ { rewrite ^/px/(.*) /auth break; proxy_pass %s; }
  location /auth { if ($deny) { return 403; } return 200 "[[$pid|$request_method|$args|$fill]]"; }
 }''' % (fill[:1], fill[:60], fill * 3, rel if form != 'wild' else '127.0.0.1:%d' % self.hp, bc, bc, bc, bc, pp)
        self.fills = {'0': '', '1': fill[:1], '2': fill[:60], '3': fill * 3}
        self.ng = ngx.Nginx(rtmp=None, http=conf, events=' multi_listen %s %s;' % (mp, rel), workers=self.nw, flavour=fl, log_level='warn')
        self.ng.start([])
        end = time.monotonic() + 20
        while True:
            try:
                self.get(self.shared(), '/who')
                break
            except OSError:
                if time.monotonic() > end:
                    raise
                time.sleep(0.02)
        self.settle(set())

    def teardown(self):
        self.ng.stop()

    def shared(self):
        return (('::1' if self.v6 else '127.0.0.1'), self.hp)

    def port(self, k):
        if self.form == 'unix':
            return os.path.join(self.ng.dir, 'w.sock.%d' % k)
        return (('::1' if self.v6 else '127.0.0.1'), self.base + k)

    def connect(self, where):
        if isinstance(where, str):
            s = socket.socket(socket.AF_UNIX)
            s.settimeout(10)
            s.connect(where)
            return s
        return socket.create_connection(where, 10)

    def get(self, where, path, method='GET'):
        """(status, headers, body) of one request"""
        s = self.connect(where)
        try:
            s.sendall(('%s %s HTTP/1.1\r\nHost: h\r\nConnection: close\r\n\r\n' % (method, path)).encode())
            raw = b''
            while True:
                x = s.recv(65536)
                if not x:
                    break
                raw += x
        finally:
            s.close()
        h = http.parse_head(raw)
        if h is None:
            raise OSError('no response to %s %s: %r' % (method, path, raw[:60]))
        stt, hd, body = h
        if hd.get('transfer-encoding') == 'chunked':
            body, fin, _ = http.dechunk(body)
            if not fin:
                raise Violation('%s %s: the chunked response is cut short after %d bytes' % (method, path, len(body)))
        return stt, hd, body.decode('latin-1')

    def live(self):
        out = set()
        r = subprocess.run(['ps', '-o', 'pid=,args=', '--ppid', str(self.ng.proc.pid)], capture_output=True, text=True).stdout
        for l in r.splitlines():
            if 'worker process' in l and 'shutting' not in l:
                out.add(int(l.split()[0]))
        return out, len([l for l in r.splitlines() if 'worker process' in l])

    def who(self, where):
        stt, hd, body = self.get(where, '/who')
        if stt != 200:
            raise Violation('%r answered %d' % (where, stt))
        return int(body.split()[0])

    def ports(self):
        """slot -> pid for every port that answers"""
        out = {}
        for k in range(self.SLOTS):
            try:
                out[k] = self.who(self.port(k))
            except OSError:
                pass
        return out

    def settle(self, old):
        """wait until the configured number of workers runs, none of them in `old`, each with its port"""
        end = time.monotonic() + self.patience
        p = None
        while True:
            w, n = self.live()
            if len(w) == self.nw and n == self.nw and not w & old:
                p = self.ports()
                if len(p) == self.nw and set(p.values()) == w:
                    break
            if time.monotonic() > end:
                raise Violation('%d of %d worker processes %s are not shutting down, %d wanted; replaced: %s; own ports are answered by %r, a moment ago %r' % (len(w), n, sorted(w), self.nw, sorted(old), self.ports(), p))
            time.sleep(0.02)
        self.pids, self.slot = w, p

    def strategy(self):
        arg = st.sampled_from(['', 'a=b', 'a=b&c=%20d', 'x'])
        own = st.tuples(st.just('own'), st.integers(0, 9), st.just(0), arg, st.just(0))
        sh = st.tuples(st.just('shared'), st.integers(1, 6), st.just(0), arg, st.just(0))
        bc = st.tuples(st.sampled_from(['bc', 'bs', 'br', 'br/in', 'bx']), st.integers(0, 31), st.integers(0, 3), arg, st.sampled_from([0, 0, 0, 1, 2, 3]))
        kill = st.tuples(st.just('kill'), st.integers(0, 9), st.just(0), st.just(''), st.just(0))
        hup = st.tuples(st.just('reload'), st.just(0), st.just(0), st.just(''), st.just(0))
        return st.lists(st.one_of(own, own, sh, bc, bc, bc, bc, bc, kill, hup), min_size=3, max_size=14)

    def broadcast(self, loc, mask, via, arg, f):
        pids = sorted(self.pids)
        deny = [p for i, p in enumerate(pids) if mask >> i & 1]
        args = 'no=%s&f=%d' % (''.join('x%dx' % p for p in deny), f) if mask or f else ''
        args = '&'.join(x for x in (args, arg) if x)
        method = ['GET', 'DELETE', 'GET', 'OPTIONS'][via]
        where = self.shared() if via < 2 else self.port(sorted(self.slot)[via % len(self.slot)])
        path = '/%s/z%s' % (loc, '?' + args if args else '')
        stt, hd, body = self.get(where, path, method)
        if stt != 200:
            raise Violation('%s %s answered with status %d' % (method, path, stt))
        suf = {'bc': '', 'bs': '<END>', 'br': ']', 'br/in': ']', 'bx': ''}[loc]
        if suf and not body.endswith(suf):
            raise Violation('%s %s: no suffix at the end of %r' % (method, path, body[-60:]))
        rest = body[:len(body) - len(suf)]
        got = []
        want_first = '{(' if loc[:2] == 'br' else '[['
        fill = self.fills[str(f)] if f else ''
        while rest:
            m = re.match(r'(\[\[|\{\()(\d+)\|([A-Z]+)\|([^|]*)\|([a-j]*)\]\]', rest)
            if not m:
                raise Violation('%s %s (workers %s): not an answer of a worker: %r' % (method, path, pids, rest[:80]))
            if m.group(1) != (want_first if not got else '[['):
                raise Violation('%s %s: answer %d starts with %r' % (method, path, len(got), m.group(1)))
            if m.group(3) != method or m.group(4) != args or m.group(5) != fill:
                raise Violation('%s %s: a worker was asked %s with arguments %r and answered %d bytes' % (method, path, m.group(3), m.group(4), len(m.group(5))))
            got.append(int(m.group(2)))
            rest = rest[m.end():]
        if sorted(got) != [p for p in pids if p not in deny]:
            raise Violation('%s %s: answers of workers %s, expected one of each of %s' % (method, path, sorted(got), [p for p in pids if p not in deny]))

    def run(self, case):
        labels = set()
        for n, (op, a, b, arg, f) in enumerate(case):
            try:
                if op == 'own':
                    ks = sorted(self.slot)
                    k = ks[a % len(ks)]
                    pid = self.who(self.port(k))
                    if pid != self.slot[k]:
                        raise Violation('the port of worker %d (slot %d) was answered by process %d' % (self.slot[k], k, pid))
                elif op == 'shared':
                    for _ in range(a):
                        pid = self.who(self.shared())
                        if pid not in self.pids:
                            raise Violation('the shared port was answered by process %d, workers are %s' % (pid, sorted(self.pids)))
                elif op == 'kill':
                    pid = sorted(self.pids)[a % len(self.pids)]
                    slots = set(self.slot)
                    os.kill(pid, signal.SIGKILL)
                    self.settle({pid})
                    if set(self.slot) != slots:
                        raise Violation('after the crash of a worker ports %s are in use, before it was %s' % (sorted(self.slot), sorted(slots)))
                    labels.add('worker crash')
                elif op == 'reload':
                    os.kill(self.ng.proc.pid, signal.SIGHUP)
                    self.settle(set(self.pids))
                    labels.add('reload')
                else:
                    self.broadcast(op, a, b, arg, f)
                    labels.add('broadcast')
                    if a:
                        labels.add('refusing workers')
            except OSError as e:
                cr = self.ng.crashes()
                if cr:
                    raise Violation('server crashed: %s' % cr[0])
                raise Violation('step %d (%s): %s' % (n, op, e))
        cr = self.ng.crashes()
        if cr:
            raise Violation('server crashed: %s' % cr[0])
        return self.nw > 1 and len(case) > 2 and any(c[0] not in ('kill', 'reload', 'shared') for c in case[1:]), labels | {self.form, '%d workers' % self.nw}


if __name__ == '__main__':
    main(C10)
