"""R04: one publisher per stream; streams never mix; nothing is left behind. Histories of sessions against a model."""
import json, os, random, struct, sys, time
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from hypothesis import strategies as st
from lib import amf, build, http, ngx, rtmp
from lib.check import Prop, Violation, Inconclusive, main

# name, server config, app config
VARIANTS = [('plain', '', ''), ('notify', '', 'publish_notify on;'), ('restart', 'chunk_size 128;', 'play_restart on;'), ('idle', '', 'idle_streams off;'),
            ('asan', '', ''), ('asan2', '', 'idle_streams off; publish_notify on; play_restart on;'), ('cache', '', 'cache_time 10s; send_all on;'), ('asan3', '', 'cache_time 1s; send_all on; idle_streams off;')]

# ways to address a server: (port, tcUrl host, app prefix) -> server
WAYS = [('A', 0, '127.0.0.1', ''), ('A', 0, 'other.test', ''), ('A', 1, '127.0.0.1', ''), ('A', 1, 'b.test', ''), ('A', 0, '127.0.0.1', 'zz/'),
        ('B', 0, 'b.test', ''), ('B', 0, '127.0.0.1', 'b.test/'), ('B', 0, 'b.test:1935', ''),
        ('C', 0, 'x.c.test', ''), ('C', 0, 'y.c.test', ''), ('C', 0, '127.0.0.1', 'q.c.test/'),
        ('D', 2, '127.0.0.1', ''), ('D', 2, 'x.c.test', '')]
NAMES = ['', 'a', 'A', 'aa', '/a', '.flv', ' b', '%41', 'a' * 180]
APPS = ['live', 'live2', 'liv']


class R04(Prop):
    id = 'R04'
    rule = ('a case is a history of up to 60 steps (publish, publish on a busy name, play, frames, closing by deleteStream, closing or resetting the connection, repeated commands) over 2-4 streams that differ in server, application or name, '
            'addressed in different ways; what every session receives is compared with a model. Non-trivial: a second publisher was refused while frames flowed, or a name was published again with a player that stayed')
    assumptions = ['without idle_streams a player that comes while only refused publishers are there may be admitted or not', 'publishers give no priority argument']
    quick_cases = 2000
    thorough_cases = 8000
    quick_budget = 40
    variants = VARIANTS
    patience = 6

    def prebuild(cls):
        build.modules('plain')
        build.modules('asan')

    def setup(self):
        self.name, srv, app = self.variant
        self.idle, self.notify, self.restart, self.cache = 'idle_streams off' not in app, 'publish_notify' in app, 'play_restart' in app, 'cache_time' in app
        self.ports = [ngx.free_port() for _ in range(3)]
        self.hp = ngx.free_port()
        body = 'ping 1h; timeout 1h; out_queue 4096; ' + srv + ' ' + ' '.join('application %s { live on; %s }' % (a, app) for a in APPS)
        self.ng = ngx.Nginx(rtmp=''.join('server { %s %s }\n' % (h, body) for h in (
            'listen 127.0.0.1:%d; serverid A; server_name a.test;' % self.ports[0],
            'listen 127.0.0.1:%d; serverid B; server_name b.test;' % self.ports[0],
            'listen 127.0.0.1:%d; serverid C; server_name *.c.test;' % self.ports[0],
            'listen 127.0.0.1:%d; serverid A;' % self.ports[1],
            'listen 127.0.0.1:%d; serverid D;' % self.ports[2])),
            http='server { listen 127.0.0.1:%d; location /sys { sys_stat; } }' % self.hp, flavour='asan' if 'asan' in self.name else 'plain', log_level='crit')
        self.ng.start(self.ports + [self.hp])
        self.n = 0

    def teardown(self):
        self.ng.stop()

    def strategy(self):
        key = st.tuples(st.sampled_from('AABCD'), st.sampled_from(APPS), st.sampled_from(NAMES))
        op = st.one_of(st.tuples(st.sampled_from(['pub', 'pub', 'play', 'play', 'play']), st.integers(0, 3), st.integers(0, 30)),
                       st.tuples(st.just('frame'), st.integers(0, 7), st.sampled_from([0, 1, 2, 3, 40])), st.tuples(st.just('frame'), st.integers(0, 7), st.sampled_from([0, 1, 2, 3, 40])),
                       st.tuples(st.just('frame'), st.integers(0, 3), st.sampled_from([0, 1])),
                       st.tuples(st.sampled_from(['leave', 'leave', 'again']), st.integers(0, 15), st.integers(0, 5)),
                       st.tuples(st.just('leavepub'), st.integers(0, 3), st.integers(0, 5)))
        return st.fixed_dictionaries({'keys': st.lists(key, min_size=2, max_size=4, unique=True), 'ops': st.lists(op, min_size=14, max_size=60)})

    def open(self, key, alt, name, hs):
        ways = [w for w in WAYS if w[0] == key[0]]
        _, p, host, pre = ways[alt % len(ways)]
        c = rtmp.Conn(('127.0.0.1', self.ports[p]), timeout=self.patience)
        c.handshake('digest1' if alt == 7 else 'simple')
        app = pre + key[1] + ('?tok=1' if alt == 9 else '')
        if pre == 'zz/':
            app = 'zz/' + app
            app = 'zz.test/' + key[1]
        r = c.connect(app, 'rtmp://%s/%s' % (host, app))
        if r is None or r[0] != '_result':
            raise Violation('connect to %r refused: %r' % ((key, host, app), r))
        c.msid = c.create_stream()
        c.set_chunk(4096)
        return c

    def sync(self, c, what):
        try:
            m = c.user_ping(self.patience)
        except rtmp.Timeout:
            raise Violation('%s: no answer to a ping' % what)
        return m is not None

    def run(self, case):
        self.n += 1
        conns = []
        try:
            return self.history(case, conns)
        except (rtmp.Closed, ConnectionRefusedError) as e:
            raise Violation('connection lost: %s %s' % (e, (self.ng.crashes() or [''])[0][:600]))
        except rtmp.Timeout as e:
            raise Violation('no answer: %s' % e)
        except rtmp.ProtoError as e:
            raise Violation('not RTMP: %s' % e)
        finally:
            for c in conns:
                c.close()

    def history(self, case, conns):
        keys = case['keys']
        K = [{'pub': None, 'active': False, 'players': [], 'refused': [], 'cache': []} for _ in keys]
        pubs, sessions, labels, hist = [], [], set(), []
        nt = False
        seq = 0
        busy = {}

        def begin(p):
            if p['on']:
                return
            p['on'] = True
            p['exp'].append('begin')
            if self.restart:
                p['exp'] += ['NetStream.Play.Start', 'access']
            if self.notify:
                p['exp'].append('NetStream.Play.PublishNotify')

        def end(p):
            if not p['on']:
                return
            p['on'] = False
            p['exp'].append('eof')
            if self.restart:
                p['exp'].append('NetStream.Play.Stop')
            if self.notify:
                p['exp'].append('NetStream.Play.UnpublishNotify')

        def leave(s, how):
            k = s['k']
            sessions.remove(s)
            c = s['c']
            if s['role'] == 'play':
                k['players'].remove(s)
                self.drain(s, hist)
            elif k['pub'] is s:
                k['pub'] = None
                k['cache'] = []
                if k['active']:
                    k['active'] = False
                    for p in k['players']:
                        end(p)
                pubs.remove(s)
            else:
                k['refused'].remove(s)
                pubs.remove(s)
            if how in (0, 1):           # stop by command, wait for the answer
                if how == 0:
                    c.cmd('deleteStream', 0.0, None, 1.0)
                else:
                    c.cmd('closeStream', 0.0, None, msid=1)
                if not self.sync(c, '%r after leaving' % s['name']):
                    raise Violation('connection closed on deleteStream %r' % hist[-6:])
                if s['role'] == 'pub' and not s['refused'] and not any(rtmp.status_code(m) == 'NetStream.Unpublish.Success' for m in c.msgs):
                    raise Violation('no Unpublish.Success after the publisher left %r' % hist[-6:])
                c.close()
            else:
                c.close(rst=how == 2)
                # the server notices by itself; wait until it has
                t = time.monotonic() + self.patience
                while (self.idle or s['role'] == 'play' or s['refused']) and self.stat(s['name'], s['key']) != len([x for x in sessions if x['k'] is k and not x['refused']]):
                    if time.monotonic() > t:
                        raise Violation('a session that was closed is still there: %r' % hist[-6:])
                    time.sleep(0.001)
            if s['role'] == 'pub' and not s['refused'] and not self.idle:
                for p in list(k['players']):
                    self.drain(p, hist, closed=True)
                    k['players'].remove(p)
                    sessions.remove(p)
                # and wait until they are gone
                t = time.monotonic() + self.patience
                while self.stat(s['name'], s['key']) != len([x for x in sessions if x['k'] is k and not x['refused']]):
                    if time.monotonic() > t:
                        raise Violation('players are still there without a publisher: %r' % hist[-6:])
                    time.sleep(0.001)

        for op in case['ops']:
            o = op[0]
            if o in ('pub', 'play'):
                if len(sessions) >= 12:
                    continue
                i = op[1] % len(keys)
                key, k = keys[i], K[i]
                if o == 'play' and not self.idle and not k['pub'] and k['refused']:
                    continue
                name = 'x%d%s' % (self.n, key[2])
                hist.append((o, key, op[2]))
                c = self.open(key, op[2], name, 'simple')
                conns.append(c)
                s = {'c': c, 'k': k, 'role': o, 'name': name, 'key': key, 'exp': [], 'on': False, 'refused': False, 'ts': 0, 'cur': len(c.msgs)}
                arg = '?t=%d' % op[2] if op[2] % 5 == 3 else ''
                if o == 'pub':
                    c.publish(name + arg, ['live', 'record', 'append'][op[2] % 3], c.msid)
                    code = c.wait_status(('NetStream.Publish.Start', 'NetStream.Publish.BadName'))
                    if k['pub'] is None:
                        if code != 'NetStream.Publish.Start':
                            raise Violation('publishing a free name was answered with %r: %r' % (code, hist))
                        if k['players']:
                            labels.add('published under waiting players')
                            if k.get('had'):
                                nt = True
                                labels.add('published again')
                        k['pub'] = s
                        k['had'] = True
                    else:
                        if code != 'NetStream.Publish.BadName':
                            raise Violation('publishing a busy name was answered with %r: %r' % (code, hist))
                        s['refused'] = True
                        k['refused'].append(s)
                        labels.add('refused')
                    pubs.append(s)
                    sessions.append(s)
                else:
                    c.play(name + arg, msid=c.msid)
                    if not self.idle and k['pub'] is None:
                        code = c.wait_status(('NetStream.Play.StreamNotFound', 'NetStream.Play.Start'))
                        if code != 'NetStream.Play.StreamNotFound' or not c.wait_close(self.patience):
                            raise Violation('playing a stream that is not there was answered with %r: %r' % (code, hist))
                        labels.add('not found')
                        t = time.monotonic() + self.patience
                        while self.stat(name, key) != len([x for x in sessions if x['k'] is k and not x['refused']]):
                            if time.monotonic() > t:
                                raise Violation('a refused player is still there: %r' % hist[-6:])
                            time.sleep(0.001)
                        continue
                    if k['active']:
                        begin(s)
                    if not self.restart:
                        s['exp'] += ['NetStream.Play.Start', 'access']
                    s['pre'] = list(k['cache'])
                    k['players'].append(s)
                    sessions.append(s)
                    if not self.sync(c, 'new player'):
                        raise Violation('player closed: %r' % hist)
            elif o == 'frame':
                if not pubs:
                    continue
                s = pubs[op[1] % len(pubs)]
                k = s['k']
                for _ in range(op[2] or 1):
                    seq += 1
                    s['ts'] += 7
                    pay = b'\x12' + struct.pack('>II', self.n, seq) + bytes(op[2] * 30)
                    s['c'].write(rtmp.VIDEO, pay, 6, s['ts'], 1)
                    if not s['refused']:
                        if not k['active']:
                            k['active'] = True
                            for p in k['players']:
                                begin(p)
                        k['cache'].append(pay)
                        for p in k['players']:
                            p['exp'].append(pay)
                if s['refused'] and k['pub'] and k['active'] and k['players']:
                    nt = True
                if not self.sync(s['c'], 'publisher'):
                    raise Violation('publisher%s closed while sending frames: %r' % (' (refused)' if s['refused'] else '', hist))
                hist.append(('frame', s['key'], s['refused'], op[2]))
            elif o == 'again':
                if not sessions:
                    continue
                s = sessions[op[1] % len(sessions)]
                hist.append(('again', s['role'], s['key'], s['refused']))
                (s['c'].publish if s['role'] == 'pub' else s['c'].play)(s['name'], msid=1)
                if not self.sync(s['c'], 'again'):
                    raise Violation('session closed on a repeated command: %r' % hist)
            elif o in ('leave', 'leavepub'):
                if o == 'leave':
                    if not sessions:
                        continue
                    s = sessions[op[1] % len(sessions)]
                else:
                    s = K[op[1] % len(K)]['pub']
                    if s is None:
                        continue
                hist.append(('leave', s['role'], s['key'], s['refused'], op[2]))
                leave(s, op[2])
        for s in list(sessions):
            if s in sessions and s['role'] == 'play':
                self.drain(s, hist)
        r = random.Random(len(case['ops']))
        rest = list(sessions)
        r.shuffle(rest)
        for s in rest:
            s['c'].close()
        t = time.monotonic() + self.patience
        while any(self.stat('x%d%s' % (self.n, key[2]), key) for key in keys):
            if time.monotonic() > t:
                raise Violation('all sessions left but a stream is still listed: %r' % hist[-12:])
            time.sleep(0.001)
        if self.ng.crashes():
            raise Violation('crash: ' + self.ng.crashes()[0][:600])
        return nt, labels

    def stat(self, name, key):
        """number of sessions on the stream; None when it does not exist; -1 ..."""
        j = json.loads(http.get(('127.0.0.1', self.hp), '/sys')[2].decode('latin-1'))
        want = '%s/%s/%s' % (key[0], key[1], name)
        for srv in j['live_stream']['server_array']:
            for x in srv['stream_array']:
                if x['name'] == want:
                    return len(x['client_array'])
        return 0

    def drain(self, p, hist, closed=False):
        c = p['c']
        if closed:
            if not c.wait_close(self.patience):
                raise Violation('player not closed when the publisher left: %r' % hist[-6:])
        elif not self.sync(c, 'player'):
            raise Violation('player closed: %r' % hist)
        got = []
        for m in c.msgs[p['cur']:]:
            if m.type in (rtmp.AUDIO, rtmp.VIDEO):
                got.append(m.payload)
            elif m.type == rtmp.USER and m.payload[:2] in (b'\0\0', b'\0\1'):
                got.append('begin' if m.payload[1] == 0 else 'eof')
            elif rtmp.status_code(m):
                got.append(rtmp.status_code(m))
            elif m.type == rtmp.AMF_META:
                v = amf.dec_all(m.payload)
                got.append('access' if v[0] == '|RtmpSampleAccess' else v)
        exp = p['exp']
        if closed and got[-1:] == ['NetStream.Play.Stop'] and len(got) == len(exp) + 1:
            got.pop()
        if self.cache:
            # how much of a publication the cache holds is another property (R05): any run of it that ends with the last frame is right, and a player is served from its third frame on
            def split(l):
                segs = [[]]
                for x in l:
                    if isinstance(x, bytes):
                        segs[-1].append(x)
                    else:
                        segs.append([])
                return [x for x in l if not isinstance(x, bytes)], segs
            (gc, gs), (ec, es) = split(got), split(exp)
            if gc == ec and not any(gs[:3]):
                for i in range(3, len(gs)):
                    full = (p['pre'] if i == 3 else []) + es[i]
                    if gs[i] == es[i] or not gs[i] and len(es[i]) < 3 or gs[i] and len(gs[i]) >= len(es[i]) and full[-len(gs[i]):] == gs[i]:
                        gs[i] = es[i]
                got = [x for i, g in enumerate(gs) for x in ([gc[i - 1]] if i else []) + g]
        if got != exp:
            i = next(i for i in range(max(len(got), len(exp))) if i >= len(got) or i >= len(exp) or got[i] != exp[i])
            sh = lambda l: [x if not isinstance(x, bytes) else 'frame %d' % struct.unpack('>I', x[5:9])[0] for x in l]
            raise Violation('player of %r: item %d: got %r, expected %r; history %r' % (p['key'], i, sh(got)[max(0, i - 3):i + 4], sh(exp)[max(0, i - 3):i + 4], hist[-25:]))


if __name__ == '__main__':
    main(R04)
