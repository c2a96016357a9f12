"""R15: notification hooks. Generated histories of sessions against a scripted hook server, with the model of who is called and what the answer does."""
import os, sys, time
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from urllib.parse import quote, unquote_to_bytes
from hypothesis import strategies as st
from lib import build, hook, http, media, ngx, rtmp
from lib.check import Prop, Violation, main

T = 'args="t=$flashver'
# app -> (directives, {call: options})
U = '40ms'
APPS = {
    'a': {'publish': {}, 'play': {}},
    'b': {'publish': {'done': 1, 'group': 'g1', 'pargs': 1}, 'play': {'done': 1, 'update': 1, 'pargs': 1, 'q': 1}},
    'c': {'publish': {'done': 1, 'timeout': '250ms'}, 'play': {'timeout': '250ms', 'done': 1}, 'ignore': 1},
    'd': {'stream': {'update': 1, 'done': 1}, 'meta': {'done': 1}, 'meta2': {'group': 'two'}, 'mtype': 'both'},
    'e': {'publish': {'update': 1, 'done': 1}, 'stream': {'done': 1, 'q': 1}, 'play': {}, 'meta': {'update': 1, 'done': 1}, 'mtype': 'video'},
    'f': {'meta': {}, 'mtype': 'audio', 'once': 0, 'play': {'done': 1}, 'stream': {}},
    'g': {'publish': {'timeout': '250ms'}, 'play': {'timeout': '250ms'}},
}
GOOD = [200, 201, 204, 206, 299]
BAD = [300, 301, 302, 304, 307, 400, 401, 403, 404, 410, 500, 502, 503, 599]
FRAMING = ['cl0', 'body', 'chunked', 'close', 'split', 'parts']
PASS = ('NetStream.Publish.Start', 'NetStream.Play.Start')
NO = {'pub': 'NetStream.Publish.Forbidden', 'play': 'NetStream.Play.Forbidden'}


def act(code, framing):
    if code in (204, 304):          # these have no body
        r = b'HTTP/1.1 %d Any\r\n%s\r\n' % (code, b'Connection: close\r\n' if framing == 'close' else b'')
        return ('parts', [r[:7], r[7:-3], r[-3:]], False) if framing in ('split', 'parts') else ('send', r, framing == 'close')
    if framing == 'split':
        r = hook.response(code, 'body', b'a body of some bytes')
        return ('parts', [r[:7], r[7:20], r[20:-8], r[-8:]], False)
    if framing == 'parts':
        r = hook.response(code, 'chunked', b'x' * 300)
        k = r.index(b'\r\n\r\n')
        return ('parts', [r[:k + 2], r[k + 2:k + 6], r[k + 6:-100], r[-100:-3], r[-3:]], False)
    return ('send', hook.response(code, framing), framing == 'close')


class R15(Prop):
    id = 'R15'
    rule = ('a case is up to 9 operations over 7 applications whose hooks differ in events, stages, groupid, args, ignore_invalid_notify and timeouts: publishers, RTMP and HTTP-FLV '
            'players with arbitrary names and arguments, hook answers 2xx/3xx/4xx/5xx in six framings, held and released later, dropped, never given, sessions closed before '
            'and after the answer, codec headers; non-trivial: at least one session was admitted and one event beyond its start (refusal, held answer, done, update, meta, stream) was seen')
    assumptions = ['one worker process', 'the hook host is an IP address', 'on_connect, on_record, on_pull and on_push are not generated here',
                   'for a session that was never admitted the done call may or may not come']
    quick_cases = 700
    thorough_cases = 9000
    quick_budget = 60
    batch = 200
    variants = ['plain', 'asan', 'plain', 'asan']
    patience = 6
    restart_every = 150

    def prebuild(cls):
        build.modules('plain')
        build.modules('asan')

    def setup(self):
        self.port, self.hp = ngx.free_port(), ngx.free_port()
        self.ha = ('127.0.0.1', self.hp)
        self.plan = {}
        self.hook = hook.Hook(self.decide)
        conf = ''
        for a, ev in APPS.items():
            d = ''
            for call, o in ev.items():
                if not isinstance(o, dict):
                    continue
                stage = [x for x in ('update', 'done') if o.get(x)]
                d += 'on_%s http://127.0.0.1:%d/%s/%s%s "args=t=$flashver%s" %s %s %s %s;\n' % (
                    call.rstrip('2'), self.hook.port, a, call, '?z=1' if o.get('q') else '', '&p=$pargs' if o.get('pargs') else '',
                    'stage=' + ','.join(['start'] * (len(stage) % 2) + stage) if stage else '', 'groupid=' + o['group'] if 'group' in o else '',
                    'update=' + U if o.get('update') else '', 'timeout=' + o['timeout'] if 'timeout' in o else 'timeout=20s')
            if 'mtype' in ev:
                d += 'on_meta_type %s;' % ev['mtype']
            if 'once' in ev:
                d += 'on_meta_once off;'
            if 'ignore' in ev:
                d += 'ignore_invalid_notify on;'
            conf += 'application %s { live on; send_all on; %s }\n' % (a, d)
        self.ng = ngx.Nginx(rtmp='server { listen 127.0.0.1:%d; serverid s; ping 1h; timeout 1h; out_queue 1024; %s }' % (self.port, conf),
                            http='server { listen 127.0.0.1:%d; location /stat { rtmp_stat all; } %s }' % (
            self.hp, ' '.join('location /f%s { flv_live 127.0.0.1:%d app=%s; }' % (a, self.port, a) for a in APPS)), flavour=self.variant, log_level='emerg')
        self.ng.start([self.port, self.hp])
        self.n = 0
        self.past = {}

    def teardown(self):
        self.ng.stop()
        self.hook.close()

    # runs in the hook thread
    def decide(self, r):
        t = r.arg.get('t', b'').split(b'&')[0].decode('latin1')
        call = r.path.rsplit(b'/', 1)[-1].decode('latin1')
        r.tag, r.call, r.stage = t, call, r.arg.get('act', b'').decode('latin1')
        p = self.plan.get((t, call, r.stage))
        if p is None:
            return ('send', hook.response(200), False)
        return p

    def strategy(self):
        code = st.one_of(st.sampled_from(GOOD), st.sampled_from(GOOD), st.sampled_from(BAD), st.sampled_from([200]))
        ans = st.one_of(st.tuples(st.just('code'), code, st.sampled_from(FRAMING)), st.tuples(st.just('code'), code, st.sampled_from(FRAMING)),
                        st.tuples(st.just('hold')), st.tuples(st.just('hold')), st.tuples(st.just('drop')),
                        st.tuples(st.just('never')))
        name = st.one_of(st.sampled_from(['x', 'y']), st.sampled_from(['x', 'y']), st.sampled_from(['x', 'y']),
                         st.text(st.sampled_from('ab1 &=#%+/;\r\n"\\\u00e9\u4e16:@'), min_size=1, max_size=20))
        pargs = st.one_of(st.just(''), st.sampled_from(['a=1', 'a=1&b=2', 'token=abc%20def']), st.text(st.sampled_from('ab=&1 %#\r\n+/\u00e9'), max_size=16))
        start = st.tuples(st.sampled_from(['pub', 'pub', 'play', 'play', 'flv']), st.sampled_from(sorted(APPS)), name, pargs, ans, ans)
        k = st.integers(0, 7)
        op = st.one_of(start, start, start, st.tuples(st.just('rel'), k, code, st.sampled_from(FRAMING)), st.tuples(st.just('rel'), k, code, st.sampled_from(FRAMING)),
                       st.tuples(st.just('close'), k), st.tuples(st.just('frame'), k), st.tuples(st.just('hdr'), k, st.sampled_from(['video', 'audio'])),
                       st.tuples(st.just('upd'), k, st.sampled_from(['ok', 'ok', 'error', 'drop'])))
        return st.tuples(st.sampled_from([None] + sorted(APPS)), st.lists(op, min_size=2, max_size=9))

    def crash(self):
        return (self.ng.crashes() or [''])[0][:600]

    def run(self, case):
        self.sess, self.plan, self.n = [], {}, self.n + 1
        self.want = {}
        self.streams = {}
        self.labels = set()
        self.nt = [False, False]
        self.hist = []
        try:
            self.go(case)
            return all(self.nt), self.labels
        except (rtmp.Closed, ConnectionRefusedError) as e:
            raise Violation('connection lost: %s %s %s' % (e, self.hist[-3:], self.crash()))
        except (rtmp.Timeout, TimeoutError) as e:
            raise Violation('no answer: %s %s %s' % (e, self.hist[-3:], self.crash()))
        except (rtmp.ProtoError, http.Bad) as e:
            raise Violation('bad answer: %s %s %s' % (e, self.hist[-3:], self.crash()))
        finally:
            for s in self.sess:
                s['c'].close()
            self.hook.clear()

    def settle(self):
        for _ in range(2):
            http.get(self.ha, '/none', timeout=self.patience)

    def go(self, case):
        app, ops = case
        for op in ops:
            self.hist.append(op)
            getattr(self, 'op_' + (op[0] if op[0] not in ('play', 'pub', 'flv') else 'start'))(*((op[:1] + (app or op[1],) + op[2:]) if op[0] in ('play', 'pub', 'flv') else op[1:]))
            self.sync()
        for s in self.sess:
            if s['state'] in ('pending', 'live'):
                self.end(s)
        self.sync()
        self.check_end()

    # --- model
    def expect(self, tag, call, stage, n=1):
        k = (tag, call, stage)
        lo, hi = self.want.get(k, (0, 0))
        self.want[k] = (lo + n, hi + n)

    def maybe(self, tag, call, stage):
        k = (tag, call, stage)
        lo, hi = self.want.get(k, (0, 0))
        self.want[k] = (lo, hi + 1)

    def live(self, pred=lambda s: True):
        return [s for s in self.sess if s['state'] in ('pending', 'live') and pred(s)]

    def op_start(self, kind, app, name, pargs, ans, meta):
        if kind == 'flv':
            name = 'x' if set(name) - set('xyab1') else name
            pargs = pargs if pargs in ('a=1', 'a=1&b=2') else ''
        tag = 't%d_%d_%d' % (self.widx, self.n, len(self.sess))
        ev = APPS[app]
        call = 'publish' if kind == 'pub' else 'play'
        s = {'kind': kind, 'app': app, 'name': name, 'pargs': pargs, 'tag': tag, 'state': 'pending', 'call': call, 'ans': None, 'rx': 0, 'upd': False, 'metas': 0}
        if call in ev:
            if ans[0] == 'never' and 'timeout' not in ev[call]:
                ans = ('hold',)
            if 'timeout' in ev[call] and ans[0] == 'hold':
                ans = ('code', 200, 'cl0')
            if ev.get('ignore') and ans[0] == 'code' and len(self.sess) % 3 == 0:
                ans = ('drop',)
            s['ans'] = ans
            self.plan[(tag, call, 'start')] = act(*ans[1:]) if ans[0] == 'code' else ('drop',) if ans[0] == 'drop' else ('hold',)
        if 'meta' in ev:
            if meta[0] in ('never', 'hold'):
                meta = ('code', 200, 'cl0')
            s['meta'] = meta
            for m in ('meta', 'meta2'):
                self.plan[(tag, m, 'start')] = act(*meta[1:]) if meta[0] == 'code' else ('drop',)
        key = (app, name)
        stream = self.streams.get(key)
        if stream is None:
            stream = self.streams[key] = {'sess': [], 'meta': False, 'starter': tag, 'upd': False}
            if 'stream' in ev:
                self.expect(tag, 'stream', 'start')
        stream['sess'].append(s)
        s['stream'] = stream
        if call in ev:
            self.expect(tag, call, 'start')
        full = name + ('?' + pargs if pargs else '')
        if kind == 'flv':
            s['c'] = http.Stream(self.ha, '/f%s/%s?flashver=%s%s' % (app, name, tag, '&' + pargs if pargs else ''), timeout=self.patience)
            s['pargs'] = 'flashver=%s%s' % (tag, '&' + pargs if pargs else '')
        elif kind == 'pub':
            s['c'] = rtmp.publisher(('127.0.0.1', self.port), app, full, expect=False, flashVer=tag)
        else:
            s['c'] = rtmp.player(('127.0.0.1', self.port), app, full, expect=False, flashVer=tag)
        self.sess.append(s)
        if call not in ev:
            return self.admitted(s)
        if ans[0] == 'hold':
            self.labels.add('held')
            self.nt[1] = True
            self.wait_req(tag, call, 'start')
            self.still_pending(s)
        elif ans[0] == 'code':
            self.answered(s, ans[1] in GOOD)
            if ans[1] in GOOD and s['state'] == 'live':
                s['upd'] = bool(ev[call].get('update'))
        else:
            self.labels.add(ans[0])
            self.answered(s, bool(ev.get('ignore')))
            if ev.get('ignore') and s['state'] == 'live':
                s['upd'] = bool(ev[call].get('update'))

    def wait_req(self, tag, call, stage, n=1):
        got = self.hook.wait(lambda rs: [r for r in rs if (r.tag, r.call, r.stage) == (tag, call, stage)][n - 1:], self.patience)
        if not got:
            raise Violation('no %s call of stage %r arrives for %r; calls: %r' % (call, stage, self.of(tag), self.calls(tag)))
        return got[0]

    def of(self, tag):
        return [(s['kind'], s['app'], s['name'], s['pargs'], s['state'], s['ans']) for s in self.sess if s['tag'] == tag]

    def calls(self, tag):
        with self.hook.cv:
            return [(r.call, r.stage) for r in self.hook.reqs if r.tag == tag]

    def codes(self, s):
        return [x for x in (rtmp.status_code(m) for m in s['c'].msgs) if x]

    def still_pending(self, s):
        if s['kind'] == 'flv':
            self.settle()
            while s['c'].pump(0):
                pass
            b = s['c'].body()
            if s['c'].closed or (b and b[2]):
                raise Violation('a player whose play call is not answered yet got %r' % (b and b[:2],))
            return
        if s['c'].user_ping(self.patience) is None:
            raise Violation('a session was disconnected before its hook answered: %r' % self.of(s['tag']))
        if any(x in PASS or 'Forbidden' in x for x in self.codes(s)):
            raise Violation('a session got %r before its hook answered: %r' % (self.codes(s), self.of(s['tag'])))
        if any(m.type in (8, 9) for m in s['c'].msgs):
            raise Violation('a player got media before its hook answered: %r' % self.of(s['tag']))

    def answered(self, s, ok):
        if ok:
            return self.admitted(s)
        # refused
        self.nt[1] = True
        self.labels.add('refused ' + s['kind'])
        if s['kind'] == 'flv':
            end = time.monotonic() + self.patience
            while not s['c'].closed and not (s['c'].body() and s['c'].body()[0] != 200):
                if time.monotonic() > end:
                    raise Violation('a refused HTTP player stays: %r' % self.of(s['tag']))
                s['c'].pump(0.5)
            b = s['c'].body()
            if b and b[2] and b[0] == 200:
                raise Violation('a refused HTTP player got a stream: %r' % self.of(s['tag']))
        else:
            if not s['c'].wait_close(self.patience):
                raise Violation('a refused session stays: %r, it got %r' % (self.of(s['tag']), self.codes(s)))
            c = self.codes(s)
            if c != [NO[s['kind']]]:
                raise Violation('a refused session was told %r: %r' % (c, self.of(s['tag'])))
        s['state'] = 'refused'
        self.gone(s)

    def admitted(self, s):
        if s['kind'] == 'pub':
            busy = [o for o in s['stream']['sess'] if o is not s and o['kind'] == 'pub' and o['state'] == 'live']
            if busy:
                self.labels.add('busy')
                if s['c'].wait_status(('NetStream.Publish.BadName',) + PASS, self.patience) != 'NetStream.Publish.BadName':
                    raise Violation('a second publisher got %r' % self.codes(s))
                s['state'] = 'refused'
                s['c'].close()
                self.settle()
                return self.gone(s)
            if s['c'].wait_status(PASS[0], self.patience) is None:
                raise Violation('a publisher that was let through got %r and was disconnected: %r' % (self.codes(s), self.of(s['tag'])))
        elif s['kind'] == 'play':
            if s['c'].wait_status(PASS[1], self.patience) is None:
                raise Violation('a player that was let through got %r and was disconnected: %r' % (self.codes(s), self.of(s['tag'])))
        else:
            if 'play' in APPS[s['app']] and s['ans'][0] != 'never':
                r = self.wait_req(s['tag'], 'play', 'start')
                end = time.monotonic() + self.patience
                while not r.answered and time.monotonic() < end:
                    time.sleep(0.0002)
            if 'play' in APPS[s['app']] and s['ans'][0] == 'never':
                time.sleep(0.35)
            self.settle()
        s['state'] = 'live'
        self.nt[0] = True
        self.labels.add('admitted ' + s['kind'])

    def gone(self, s, admitted=False):
        """model of the end of a session"""
        ev = APPS[s['app']]
        c = ev.get(s['call'])
        if c and c.get('done'):
            (self.expect if admitted else self.maybe)(s['tag'], s['call'], 'done')
        if s['metas'] and ev['meta'].get('done'):
            self.expect(s['tag'], 'meta', 'done')
        s['stream']['sess'].remove(s)
        if not s['stream']['sess']:
            del self.streams[(s['app'], s['name'])]
            if ev.get('stream', {}).get('done'):
                self.expect(s['tag'], 'stream', 'done')

    def end(self, s):
        was = s['state']
        s['state'] = 'closed'
        s['c'].close()
        self.gone(s, was == 'live')
        self.labels.add('closed ' + was)
        self.settle()

    def op_rel(self, k, code, framing):
        p = self.live(lambda s: s['state'] == 'pending')
        if not p:
            return
        s = p[k % len(p)]
        r = self.wait_req(s['tag'], s['call'], 'start')
        self.hook.release(r, act(code, framing))
        self.answered(s, code in GOOD)
        if s['state'] == 'live':
            s['upd'] = bool(APPS[s['app']][s['call']].get('update'))

    def op_close(self, k):
        p = self.live()
        if p:
            s = p[k % len(p)]
            self.end(s)

    def op_frame(self, k):
        """a frame of a live publisher reaches the live players of the stream and nobody else; one of a pending publisher reaches nobody"""
        p = self.live(lambda s: s['kind'] == 'pub')
        if not p:
            return
        s = p[k % len(p)]
        self.nf = getattr(self, 'nf', 0) + 1
        mark = b'\x2f{frame %d}' % self.nf
        s['ts'] = s.get('ts', 0) + 20
        s['c'].write(8, mark, 4, s['ts'], 1)
        if s['c'].user_ping(self.patience) is None:
            raise Violation('a publisher was disconnected for a frame: %r' % self.of(s['tag']))
        for o in self.live(lambda o: o['kind'] == 'play'):
            if o['c'].user_ping(self.patience) is None:
                raise Violation('a player was disconnected: %r' % self.of(o['tag']))
            got = any(m.type == 8 and m.payload == mark for m in o['c'].msgs)
            ok = o['stream'] is s['stream'] and s['state'] == 'live' and o['state'] == 'live'
            if got != ok:
                raise Violation('a frame of %r %s %r' % (self.of(s['tag']), 'reached' if got else 'did not reach', self.of(o['tag'])))
        for o in self.live(lambda o: o['kind'] == 'flv'):
            ok = o['stream'] is s['stream'] and s['state'] == 'live' and o['state'] == 'live'
            if not ok:
                self.settle()
                while o['c'].pump(0):
                    pass
            else:
                o['c'].wait(lambda x: mark in x.raw, self.patience)
            got = mark in o['c'].raw
            if got != ok:
                raise Violation('a frame of %r %s %r' % (self.of(s['tag']), 'reached' if got else 'did not reach', self.of(o['tag'])))

    def op_hdr(self, k, kind):
        p = self.live(lambda s: s['kind'] == 'pub' and s['state'] == 'live')
        if not p:
            return
        s = p[k % len(p)]
        ev = APPS[s['app']]
        s['ts'] = s.get('ts', 0) + 20
        if kind == 'video':
            s['c'].write(9, media.avc_header(), 6, s['ts'], 1)
        else:
            s['c'].write(8, media.aac_header(), 4, s['ts'], 1)
        fire = 'meta' in ev and ev['mtype'] in ('both', kind) and not (ev.get('once', 1) and s['stream']['meta'])
        if not fire:
            if s['c'].user_ping(self.patience) is None:
                raise Violation('a publisher was disconnected for a codec header: %r' % self.of(s['tag']))
            return
        s['stream']['meta'] = True
        s['metas'] += 1
        self.nt[1] = True
        self.labels.add('meta')
        for m in ('meta', 'meta2'):
            if m in ev:
                self.expect(s['tag'], m, 'start')
        for m in ('meta', 'meta2'):
            if m in ev:
                self.wait_req(s['tag'], m, 'start', s['metas'])
        a = s['meta']
        if a[0] == 'code' and a[1] in GOOD:
            if s['c'].user_ping(self.patience) is None:
                raise Violation('a publisher was disconnected although its meta call was answered with %d' % a[1])
            # the answer is on its way: a round trip more
            self.settle()
            if s['c'].user_ping(self.patience) is None:
                raise Violation('a publisher was disconnected although its meta call was answered with %d' % a[1])
            s['mupd'] = bool(ev['meta'].get('update'))
        else:
            self.labels.add('meta refused')
            if not s['c'].wait_close(self.patience):
                raise Violation('a publisher stays although its meta call was answered with %r' % (a,))
            s['state'] = 'refused'
            self.gone(s, True)

    def op_upd(self, k, how):
        p = self.live(lambda s: s['upd'] or s.get('mupd') or (APPS[s['app']].get('stream', {}).get('update')))
        if not p:
            return
        s = p[k % len(p)]
        todo = []
        if s['upd']:
            todo.append(('t', s['tag'], s['call']))
        if s.get('mupd'):
            todo.append(('t', s['tag'], 'meta'))
        if APPS[s['app']].get('stream', {}).get('update'):
            todo.append(('s', s['stream']['starter'], 'stream'))
        self.nt[1] = True
        self.labels.add('update')
        for _, tag, call in todo:
            if how == 'error':
                self.plan[(tag, call, 'update')] = act(503, 'body')
            elif how == 'drop':
                self.plan[(tag, call, 'update')] = ('drop',)
            with self.hook.cv:
                n = sum((r.tag, r.call, r.stage) == (tag, call, 'update') for r in self.hook.reqs)
            if call == 'stream':
                n = len([1 for r in self.hook.reqs if r.call == 'stream' and r.stage == 'update' and self.key(r) == (s['app'], s['name'])])
                ok = self.hook.wait(lambda rs: len([1 for r in rs if r.call == 'stream' and r.stage == 'update' and self.key(r) == (s['app'], s['name'])]) >= n + 2, self.patience)
            else:
                ok = self.hook.wait(lambda rs: sum((r.tag, r.call, r.stage) == (tag, call, 'update') for r in rs) >= n + 2, self.patience)
            if not ok:
                raise Violation('no further update calls (%s) for %r' % (call, self.of(tag)))

    def key(self, r):
        return (r.arg.get('app', b'').decode('utf-8', 'replace'), r.arg.get('name', b'').decode('utf-8', 'replace'))

    def sync(self):
        """the calls that arrived so far are those of the model, with the session's own values"""
        with self.hook.cv:
            bad, reqs = list(self.hook.bad), list(self.hook.reqs)
        if bad:
            raise Violation('the hook server got a malformed request: %r' % bad[0][:300])
        for r in reqs[getattr(self, 'seen', 0) if getattr(self, 'seen_n', 0) == self.n else 0:]:
            self.req(r)
        self.seen, self.seen_n = len(reqs), self.n
        if self.ng.crashes():
            raise Violation('crash: ' + self.crash())

    def req(self, r):
        s = [s for s in self.sess if s['tag'] == r.tag]
        if not s:
            k = (r.tag, r.call, r.stage)
            if self.past.get(k, 0) > 0 or r.stage == 'update':
                self.past[k] = self.past.get(k, 0) - 1
                return
            raise Violation('a call that belongs to no session of this case: %r' % r.target)
        s = s[0]
        o = APPS[s['app']].get(r.call)
        if o is None:
            raise Violation('a call to a hook that is not configured: %r' % r.target)
        want = []
        if o.get('q'):
            want.append(('z', b'1'))
        want += [('call', r.call.rstrip('2').encode()), ('act', r.stage.encode()), ('domain', b'127.0.0.1' if s['kind'] != 'flv' else b'localhost'), ('app', s['app'].encode()),
                 ('name', s['name'].encode()), ('clientid', None)]
        if 'group' in o:
            want.append(('groupid', o['group'].encode()))
        want.append(('t', r.tag.encode()))
        got = r.args[:len(want)]
        if r.method != b'GET' or [k for k, _ in got] != [k for k, _ in want] or any(w is not None and w != v for (_, v), (_, w) in zip(got, want)) \
                or not r.arg['clientid'].isdigit() or r.path != b'/%s/%s' % (s['app'].encode(), r.call.encode()):
            raise Violation('the call %r of %r: expected %r' % (r.target, self.of(r.tag), want))
        tail = b'&'.join(r.query.split(b'&')[len(want):])
        wt = b''
        if o.get('pargs'):
            wt = b'p=' + s['pargs'].encode()
        if unquote_to_bytes(tail) != unquote_to_bytes(wt):
            raise Violation('the call %r of %r: expected the arguments %r' % (r.target, self.of(r.tag), wt))
        cid = s.setdefault('cid', r.arg['clientid'])
        if cid != r.arg['clientid'] or any(x is not s and x.get('cid') == cid for x in self.sess):
            raise Violation('the clientid of %r: %r' % (self.of(r.tag), r.target))
        if r.stage == 'update' and not o.get('update'):
            raise Violation('an update call that is not configured: %r' % r.target)

    def check_end(self):
        for (tag, call, stage), (lo, hi) in self.want.items():
            if lo:
                self.wait_req(tag, call, stage, lo)
        self.settle()
        upd = any(isinstance(o, dict) and o.get('update') for a in set(s['app'] for s in self.sess) for o in APPS[a].values())
        if upd and self.n % 5 == 0:
            with self.hook.cv:
                n = sum(r.stage == 'update' for r in self.hook.reqs)
            time.sleep(0.06)
            with self.hook.cv:
                m = sum(r.stage == 'update' for r in self.hook.reqs)
            if m > n + len(self.sess):
                raise Violation('update calls go on after the end of the session')
        self.sync()
        got = {}
        with self.hook.cv:
            reqs = list(self.hook.reqs)
        for r in reqs:
            if r.stage != 'update' and any(s['tag'] == r.tag for s in self.sess):
                k = (r.tag, r.call, r.stage)
                got[k] = got.get(k, 0) + 1
            if r.stage == 'done':
                self.nt[1] = True
                self.labels.add('done ' + r.call)
        for k in set(got) | set(self.want):
            lo, hi = self.want.get(k, (0, 0))
            if hi > got.get(k, 0):
                self.past[k] = hi - got.get(k, 0)
            if not lo <= got.get(k, 0) <= hi:
                raise Violation('%r: %d calls, expected %d..%d; %r' % (k, got.get(k, 0), lo, hi, self.of(k[0])))


if __name__ == '__main__':
    main(R15)
