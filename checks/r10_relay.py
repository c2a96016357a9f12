"""R10: push and pull relays against scripted far ends that accept, refuse, stall, break off and come back."""
import os, sys, time
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from hypothesis import strategies as st
from lib import ngx, rtmp, rtmpd, media, build, flv
from lib.check import Prop, Violation, Inconclusive, main

BAD = ['reset', 'hs', 'conn', 'silent', 'noresp']
# application: kind, list of targets (each a list of far-end indices), configured parameters
APPS = {
    'pa': ('push', [[0], [1]], {}),
    'pb': ('push', [[0], [1]], {'app': 'rapp', 'name': 'rname', 'domain': 'rdom', 'pargs': 'x=1&y=2', 'user_agent': 'UA/1'}),
    'pc': ('push', [[0, 1]], {'app': 'rapp/sub'}),
    'la': ('pull', [[0, 1]], {}),
    'lb': ('pull', [[0]], {'app': 'rapp', 'name': 'rname', 'domain': 'rdom', 'pargs': 'x=1', 'user_agent': 'UA/1'}),
    'lc': ('pull', [[1]], {'name': 'other'}),
    'lh': ('pull', [[2]], {}),
    'li': ('pull', [[2]], {'app': 'rapp', 'name': 'rname.flv', 'domain': 'rdom', 'pargs': 'x=1', 'user_agent': 'UA/1'}),
}


class R10(Prop):
    id = 'R10'
    rule = ('a case is a history on one of eight push and pull configurations (one or two targets, backup addresses, configured or inherited domain, application, name and arguments, RTMP and HTTP-FLV): '
            'publishing or far-end media, players joining and leaving, the far end breaking the relay off, refusing, closing after the handshake or the connect, or never answering, and coming back. The far '
            'ends are scripted servers that record everything. Non-trivial: media crossed the relay and the relay was broken or refused at least once, or several players or targets were served')
    assumptions = ['the reconnect limit is 300 ms here; a relay is due within %d s of the far end working', 'far ends that reject the stream with an error status are not generated']
    quick_cases = 330
    thorough_cases = 6000
    quick_budget = 60
    patience = 6

    def prebuild(cls):
        build.modules('asan')
        build.modules('plain')

    def setup(self):
        self.port = ngx.free_port()
        self.farm = rtmpd.Farm(2, 1)
        apps = ''
        for a, (kind, targets, par) in APPS.items():
            ps = ' '.join('%s=%s' % kv for kv in par.items())
            d = ''.join('%s %s %s;' % (kind, ' '.join('%s://127.0.0.1:%d' % ('http' if i == 2 else 'rtmp', self.farm.ports[i]) for i in t), ps) for t in targets)
            apps += 'application %s { live on; wait_key off; fix_timestamp 0; relay_reconnect 300ms; failed_reconnect 20ms; %s }\n' % (a, d)
        self.ng = ngx.Nginx(rtmp='server { listen 127.0.0.1:%d; ping 1h; timeout 1h; out_queue 4096; %s }' % (self.port, apps),
                            flavour='asan' if self.widx % 4 == 3 else 'plain', log_level='crit')
        self.ng.start([self.port])
        self.addr = ('127.0.0.1', self.port)
        self.n = 0

    def teardown(self):
        self.ng.stop()
        self.farm.stop()

    def strategy(self):
        fr = st.tuples(st.just('frames'), st.lists(st.tuples(st.sampled_from(['audio', 'key', 'inter']), st.one_of(st.integers(0, 400), st.sampled_from([5000, 20000])), st.integers(0, 60)), min_size=1, max_size=4))
        mode = st.tuples(st.just('mode'), st.integers(0, 2), st.sampled_from(['ok'] * 4 + BAD))
        drop = st.tuples(st.just('drop'), st.integers(0, 2), st.booleans())
        pl = st.tuples(st.sampled_from(['join', 'join', 'leave']), st.integers(0, 2))
        return st.fixed_dictionaries({
            'app': st.sampled_from(sorted(APPS)),
            'pargs': st.sampled_from(['', '', 'tok=1', 'a=b&c=%2f']),
            'args': st.sampled_from(['', '', 'u=v']),
            'chunk': st.sampled_from([128, 4096, 60]),
            'http_chunked': st.booleans(),
            'ts0': st.sampled_from([0, 7, 0xfffff0, 0xfffffe]),
            'modes': st.tuples(*[st.sampled_from(['ok'] * 12 + BAD)] * 3),
            'linger': st.booleans(),
            'ops': st.lists(st.one_of(fr, fr, fr, mode, drop, drop, pl, pl, st.just(('sync',)), st.just(('sync',)), st.just(('wait',)) if self.widx % 2 else st.just(('sync',))), min_size=2, max_size=14),
        })

    # ------------------------------------------------------------------
    def run(self, case):
        self.n += 1
        f = self.farm
        f.pump()                    # nothing of the last case may be left
        f.reset()
        f.chunk, f.http_chunked = case['chunk'], case['http_chunked']
        f.modes = list(case['modes'])
        self.kind, self.targets, self.par = APPS[case['app']]
        self.labels = {case['app']}
        self.case, self.name = case, 'r%d' % self.n
        self.sent, self.ts, self.k = [], case['ts0'], 0
        self.local = []
        try:
            (self.run_push if self.kind == 'push' else self.run_pull)(case)
        except (rtmp.Closed, rtmp.Timeout, rtmp.ProtoError, OSError) as e:
            raise Violation('%s: local session broke: %r %s' % (case['app'], e, self.ng.crashes()[:1]))
        finally:
            for c in self.local + f.live():
                c.close()
        for c in f.conns:
            if c.bad:
                raise Violation('%s: relay connection %d sent bytes that are not RTMP: %s' % (case['app'], f.conns.index(c), c.bad))
        cr = self.ng.crashes()
        if cr:
            raise Violation('server crashed: %s' % cr[0])
        crossed = self.moved
        return bool(crossed and self.labels & {'broken off', 'far end failing', 'several players', 'two targets'}), self.labels

    def frame(self, kind, n):
        self.k += 1
        body = media.filler(self.n * 1000 + self.k, 8 + n)
        self.ts += self.k % 40
        x = (8, self.ts, b'\x2f' + body) if kind == 'audio' else (9, self.ts, (b'\x12' if kind == 'key' else b'\x22') + body)
        return x

    def want(self, app):
        """what the far end must be asked for"""
        p = self.par
        dom = p.get('domain', '127.0.0.1')
        ra = p.get('app', app)
        args, pargs = self.case['args'], p.get('pargs', self.case['pargs'])
        return {'app': ra + ('?' + args if args else ''), 'tcUrl': 'rtmp://%s/%s' % (dom, ra)}, p.get('name', self.name) + ('?' + pargs if pargs else ''), dom, ra

    def judge_request(self, c):
        obj, name, dom, ra = self.want(self.case['app'])
        if isinstance(c, rtmpd.HttpConn):
            uri = '/' + ra + '/' + name
            if c.head[:2] != ['GET', uri]:
                raise Violation('%s: the far end was asked for %r, configured %s' % (self.case['app'], c.head, uri))
            if c.headers.get('host') != dom or ('user_agent' in self.par and c.headers.get('user-agent') != self.par['user_agent']):
                raise Violation('%s: the request has headers %r' % (self.case['app'], c.headers))
            return
        if c.verb != {'push': 'publish', 'pull': 'play'}[self.kind] or c.name != name:
            raise Violation('%s: the far end was sent %s %r, configured %r' % (self.case['app'], c.verb, c.name, name))
        got = {k: c.connect_obj.get(k) for k in obj}
        if got != obj:
            raise Violation('%s: the far end was sent connect %r, configured %r' % (self.case['app'], got, obj))
        if 'user_agent' in self.par and c.connect_obj.get('flashVer') != self.par['user_agent']:
            raise Violation('%s: connect has flashVer %r, configured %r' % (self.case['app'], c.connect_obj.get('flashVer'), self.par['user_agent']))

    def sync(self, what):
        """every target that has a working far end must get its session"""
        f = self.farm
        for t in self.targets:
            if not all(f.modes[i] == 'ok' for i in t):
                # a backup address may be tried last: due when one of them works, too
                if not any(f.modes[i] == 'ok' for i in t):
                    self.labels.add('far end failing')
                    continue
                self.labels.add('backup address')
            if not f.pump(lambda: any(f.up(i) for i in t), self.patience):
                raise Violation('%s: %s: no relay to far end %r (%s) within %d s, connections: %r'
                                % (self.case['app'], what, t, [f.modes[i] for i in t], self.patience, [(c.idx, c.mode, c.closed, getattr(c, 'state', '')) for c in f.conns][-6:]))

    def stopped(self, what, live=True):
        f = self.farm
        if not f.pump(lambda: not [c for c in f.live() if c.mode != 'x'], self.patience):
            raise Violation('%s: %s: relay connections to far ends %r are still open after %d s' % (self.case['app'], what, [(c.idx, c.mode) for c in f.live()], self.patience))
        for c in f.conns:
            c.excused = True
        if self.case['linger']:
            # a session of its own shows that the server has dealt with everything that was on its way to it
            b = rtmp.Conn(self.addr)
            self.local.append(b)
            b.handshake()
            b.connect(self.case['app'])
            f.pump()
            f.pump()
            n = f.total
            f.pump(timeout=0.4)
            if f.total != n:
                raise Violation('%s: %s: the relay was started again %d times' % (self.case['app'], what, f.total - n))
            self.labels.add('lingered')

    # ------------------------------------------------------------------
    def run_push(self, case):
        f, app = self.farm, case['app']
        self.moved = 0
        if len(self.targets) > 1:
            self.labels.add('two targets')
        pub = rtmp.publisher(self.addr, app + ('?' + case['args'] if case['args'] else ''), self.name + ('?' + case['pargs'] if case['pargs'] else ''), chunk=60000, tcurl='rtmp://127.0.0.1/' + app)
        self.local.append(pub)
        seen = {}

        def note():
            """bounds of what a far end that came up may start with; frames are written only with this up to date"""
            for c in f.conns:
                if c.up and c not in seen:
                    self.judge_request(c)
                    # the publisher's frames sent before its TCP connection was accepted cannot be told apart from later ones
                    if c.closed:
                        seen[c] = None
                        continue
                    c._ping = getattr(c, '_ping', 0x51000000) + 1
                    import struct
                    want = b'\0\x07' + struct.pack('>I', c._ping)
                    c.write(rtmp.USER, b'\0\x06' + struct.pack('>I', c._ping), 2)
                    if not f.pump(lambda: c.closed or any(m.type == rtmp.USER and m.payload == want for m in c.msgs), self.patience):
                        raise Violation('%s: the relay does not answer the far end' % app)
                    seen[c] = len(self.sent)      # everything from here on is due
        for op in case['ops']:
            if op[0] == 'frames':
                f.pump()
                note()
                for kind, n, dt in op[1]:
                    self.ts += dt
                    x = self.frame(kind, n)
                    self.sent.append(x)
                    pub.write(x[0], x[2], csid=4 if x[0] == 8 else 6, ts=x[1], msid=1)
            elif op[0] == 'mode':
                f.modes[op[1]] = op[2]
            elif op[0] == 'drop':
                f.pump()
                note()
                for c in f.up(op[1]):
                    if op[2]:
                        self.drain(pub, c, seen)
                    self.labels.add('broken off')
                    c.close(rst=not op[2])
                    c.dropped = (len(self.sent), op[2])
            elif op[0] == 'sync':
                self.sync('while publishing')
                note()
            elif op[0] == 'wait':
                self.labels.add('waited')
                f.pump(timeout=0.45)
                note()
        f.pump()
        self.sync('at the end')
        note()
        self.kept('while the publisher was there')
        x = self.frame('audio', 3)
        self.sent.append(x)
        pub.write(x[0], x[2], csid=4, ts=x[1], msid=1)
        for c in f.up():
            self.drain(pub, c, seen)
            c.dropped = (len(self.sent), True)
        pub.close()
        self.stopped('after the publisher left')
        for c in f.conns:
            if c.up:
                self.judge_media(c, seen.get(c))
                self.moved += len(c.media())
        self.check_singles()

    def drain(self, pub, c, seen):
        if pub.user_ping(self.patience) is None:
            raise rtmp.Closed('publisher')
        if seen.get(c) is None or seen[c] >= len(self.sent):
            return
        last = self.sent[-1][2]
        self.farm.pump(lambda: c.closed or any(m.payload == last for m in c.msgs[-3:]), self.patience)

    def judge_media(self, c, due):
        got = [(m.type, m.ts, m.payload) for m in c.media()]
        app = self.case['app']
        if not got:
            if due is not None and getattr(c, 'dropped', (0, False))[1] and due < c.dropped[0]:
                raise Violation('%s: nothing of the %d frames published was pushed to far end %d' % (app, c.dropped[0] - due, c.idx))
            return
        pays = [s[2] for s in self.sent]
        if got[0][2] not in pays:
            raise Violation('%s: far end %d got %r, which was not published' % (app, c.idx, got[0][2][:40]))
        a = pays.index(got[0][2])
        for i, g in enumerate(got):
            if a + i >= len(self.sent) or g[2] != self.sent[a + i][2] or g[0] != self.sent[a + i][0]:
                raise Violation('%s: message %d pushed to far end %d is type %d %r, published there: %r' % (app, i, c.idx, g[0], g[2][:40], self.sent[a + i][2][:40] if a + i < len(self.sent) else None))
            if g[1] != self.sent[a + i][1]:
                raise Violation('%s: message %d pushed to far end %d has timestamp %d, published with %d' % (app, i, c.idx, g[1], self.sent[a + i][1]))
        if due is not None and a > due:
            raise Violation('%s: far end %d misses the %d frames published after its session was up' % (app, c.idx, a - due))
        d = getattr(c, 'dropped', None)
        if d and d[1] and a + len(got) < d[0] and (due is None or due < d[0]):
            raise Violation('%s: far end %d got frames %d to %d, %d were published' % (app, c.idx, a, a + len(got), d[0]))

    def kept(self, what):
        for c in self.farm.conns:
            if c.up and c.eof and not getattr(c, 'excused', False):
                raise Violation('%s: %s: the relay to far end %d was closed by the server although it worked' % (self.case['app'], what, c.idx))

    def check_singles(self):
        """never two live sessions for one target"""
        for t in self.targets:
            cs = [c for c in self.farm.conns if c.idx in t and c.up]
            if len(cs) > 1:
                self.labels.add('reconnected')

    # ------------------------------------------------------------------
    def run_pull(self, case):
        f, app = self.farm, case['app']
        self.moved = 0
        players = {}
        hist = []
        judged = set()

        def ups():
            f.pump()
            u = f.up()
            if players:
                self.kept('while players were there')
            for c in u:
                if c not in judged:
                    self.judge_request(c)
                    judged.add(c)
            if len(u) > 1:
                raise Violation('%s: %d pulls of one stream at a time' % (app, len(u)))
            if len(f.live()) > 1 and len([c for c in f.live() if c.mode not in ('silent', 'noresp')]) > 1:
                raise Violation('%s: %d connections for one pull' % (app, len(f.live())))
            return u

        def feed(x):
            u = ups()
            if not u:
                return False
            c = u[0]
            # the relay must have seen the start before media is sent: it follows on the same connection
            try:
                if isinstance(c, rtmpd.HttpConn):
                    c.data(flv.tag(x[0], x[1], x[2]))
                else:
                    c.write(x[0], x[2], csid=4 if x[0] == 8 else 6, ts=x[1], msid=1)
            except rtmp.Closed:
                f.pump()
                return False
            self.sent.append(x)
            c.fed = True
            return True

        def flush():
            """every player has everything sent so far"""
            for p in players.values():
                if len(self.sent) > p['start']:
                    last = self.sent[-1][2]
                    p['c'].wait(lambda m: m.payload == last, self.patience)
                    p['c'].cursor -= 1

        def join(k):
            if k in players:
                return
            flush()
            c = rtmp.player(self.addr, app + ('?' + case['args'] if case['args'] else ''), self.name + ('?' + case['pargs'] if case['pargs'] else ''), tcurl='rtmp://127.0.0.1/' + app)
            self.local.append(c)
            players[k] = {'c': c, 'start': len(self.sent)}
            if len(players) > 1:
                self.labels.add('several players')

        def leave(k):
            p = players.pop(k, None)
            if p is None:
                return
            self.finish(p)
            p['c'].close()
            hist.append(p)
            if not players:
                self.stopped('after the last player left')
                self.labels.add('last player left')

        f.modes = [m if m != 'x' else 'ok' for m in f.modes]
        for op in [('join', 0)] + list(case['ops']):
            if op[0] == 'frames':
                if players and any(f.modes[i] == 'ok' for i in self.targets[0]):
                    self.sync('while playing')
                for kind, n, dt in op[1]:
                    self.ts += dt
                    if players:
                        feed(self.frame(kind, n))
            elif op[0] == 'mode':
                f.modes[op[1]] = op[2]
            elif op[0] == 'drop':
                flush()
                for c in ups():
                    self.labels.add('broken off')
                    c.close()
            elif op[0] == 'join':
                join(op[1])
            elif op[0] == 'leave':
                leave(op[1])
            elif op[0] == 'wait' and players:
                self.labels.add('waited')
                f.pump(timeout=0.45)
                ups()
            elif op[0] == 'sync' and players:
                self.sync('while playing')
                ups()
        if players:
            self.sync('at the end')
            feed(self.frame('audio', 2))
            flush()
        for k in sorted(players):
            leave(k)
        self.moved = max([p['n'] for p in hist], default=0)

    def finish(self, p):
        c, app = p['c'], self.case['app']
        want = self.sent[p['start']:]
        if want:
            last = want[-1][2]
            try:
                if c.wait(lambda m: m.payload == last, self.patience) is None:
                    raise Violation('%s: a player was closed while the far end was sending' % app)
            except rtmp.Timeout:
                pass
        got = [(m.type, m.ts, m.payload) for m in c.msgs if m.type in (8, 9) and m.payload]
        p['n'] = len(got)
        for i, w in enumerate(want):
            if i >= len(got):
                raise Violation('%s: a player got %d of the %d frames the far end sent' % (app, len(got), len(want)))
            if got[i] != w:
                raise Violation('%s: frame %d of a player is type %d timestamp %d %r, the far end sent type %d timestamp %d %r' % ((app, i) + (got[i][0], got[i][1], got[i][2][:40]) + (w[0], w[1], w[2][:40])))
        if len(got) > len(want):
            raise Violation('%s: a player got %d frames, the far end sent %d' % (app, len(got), len(want)))


if __name__ == '__main__':
    main(R10)
