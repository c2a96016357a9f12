"""R17: control requests. Generated populations of sessions and filters against a set model of who matches."""
import os, sys, time
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from hypothesis import strategies as st
from lib import build, http, media, ngx, rtmp
from lib.check import Prop, Violation, main

SRV = ['s1', 's12', 's']
APPS = ['a', 'ab', 'b']
NAMES = ['x', 'xy', 'y']
RECS = ['', 'r2', 'r']


class R17(Prop):
    id = 'R17'
    rule = ('a case is a population of up to 12 sessions (publishers, RTMP and HTTP-FLV players) over 3 servers, 3 applications and 3 names that are prefixes of each other, and up to 8 control requests '
            '(drop publisher/subscriber/client, record start/stop of one of three recorders) with any combination of filters, malformed ones too, and publications in between. Non-trivial: a request that matched some sessions and not others')
    assumptions = ['one worker process', 'a stream name is unique within its server and application', 'the "addr" filter is the address the session connected to, as in the statistics']
    quick_cases = 900
    thorough_cases = 12000
    quick_budget = 40
    variants = ['plain', 'asan', 'plain', 'asan']
    patience = 6

    def prebuild(cls):
        build.modules('plain')
        build.modules('asan')

    def setup(self):
        self.ports = [ngx.free_port() for _ in SRV]
        self.hp = ngx.free_port()
        self.ha = ('127.0.0.1', self.hp)
        rec = 'record all manual; record_path @DIR@/rec/%s; record_suffix .flv; recorder r2 { record video manual; record_path @DIR@/rec/%s; record_suffix .r2; } recorder r { record all manual; record_path @DIR@/rec/%s; record_suffix .r; }'
        conf = ''
        for i, s in enumerate(SRV):
            conf += 'server { listen 127.0.0.1:%d; serverid %s; ping 1h; timeout 1h; out_queue 1024; %s }\n' % (
                self.ports[i], s, '\n'.join('application %s { live on; %s }' % (a, rec % ((s + a,) * 3)) for a in APPS))
        self.ng = ngx.Nginx(rtmp=conf, http='server { listen 127.0.0.1:%d; location /stat { rtmp_stat all; } location /control { rtmp_control all; } location /only { rtmp_control record; } %s }' % (
            self.hp, ' '.join('location /f%d%s { flv_live 127.0.0.1:%d app=%s; }' % (i, a, self.ports[i], a) for i in range(len(SRV)) for a in APPS)),
            flavour=self.variant, log_level='emerg')
        self.rec = os.path.join(self.ng.dir, 'rec')
        for s in SRV:
            for a in APPS:
                os.makedirs(os.path.join(self.rec, s + a))
        self.ng.start(self.ports + [self.hp])
        self.n = 0

    def teardown(self):
        self.ng.stop()

    def strategy(self):
        sess = st.tuples(st.sampled_from(['pub', 'pub', 'play', 'flv']), st.integers(0, 2), st.integers(0, 2), st.integers(0, 2))
        flt = st.fixed_dictionaries({
            'srv': st.sampled_from([0, 0, 0, 0, 1, 1, 2, 2, 'none', 'other']),
            'app': st.sampled_from([None, 0, 0, 1, 2, '']),
            'name': st.sampled_from([None, 0, 0, 1, 2, 2]),
            'addr': st.sampled_from([None, None, None, None, 0, 1, 'short']),
            'id': st.one_of(st.none(), st.none(), st.none(), st.integers(0, 12)),
            'only': st.sampled_from([False] * 6 + [True]),
            'order': st.integers(0, 23)})
        op = st.one_of(st.tuples(st.sampled_from(['publisher', 'subscriber', 'client', 'clients', '']), flt),
                       st.tuples(st.sampled_from(['start', 'stop', 'start', 'stop', 'star']), flt, st.sampled_from([0, 0, 1, 2, 3])),
                       st.tuples(st.just('add'), sess))
        return st.fixed_dictionaries({'sess': st.lists(sess, min_size=2, max_size=12), 'ops': st.lists(op, min_size=1, max_size=8)})

    def run(self, case):
        self.sess = []
        try:
            return self.go(case)
        except (rtmp.Closed, ConnectionRefusedError) as e:
            raise Violation('connection lost: %s %s' % (e, (self.ng.crashes() or [''])[0][:600]))
        except (rtmp.Timeout, TimeoutError) as e:
            raise Violation('no answer: %s %s' % (e, (self.ng.crashes() or [''])[0][:600]))
        except (rtmp.ProtoError, http.Bad) as e:
            raise Violation('bad answer: %s %s' % (e, (self.ng.crashes() or [''])[0][:600]))
        finally:
            for s in self.sess:
                s['c'].close()
            end = time.monotonic() + self.patience
            while True:
                try:
                    if not list(http.stat(self.ha).iter('client')) or time.monotonic() > end:
                        break
                except (OSError, http.Bad):
                    break
                time.sleep(0.0005)

    def add(self, d):
        kind, srv, app, name = d
        key = (srv, app, name)
        if kind == 'pub' and any(s['pub'] and s['key'] == key for s in self.sess):
            return
        tag = 't%d_%d' % (self.n, self.tagn)
        self.tagn += 1
        if kind == 'flv':
            c = http.Stream(self.ha, '/f%d%s/%s?flashver=%s' % (srv, APPS[app], NAMES[name], tag), timeout=self.patience)
        elif kind == 'pub':
            c = rtmp.publisher(('127.0.0.1', self.ports[srv]), APPS[app], NAMES[name], flashVer=tag)
        else:
            c = rtmp.player(('127.0.0.1', self.ports[srv]), APPS[app], NAMES[name], expect=False, flashVer=tag)
        s = {'c': c, 'pub': kind == 'pub', 'flv': kind == 'flv', 'key': key, 'tag': tag, 'rec': set(), 'id': None}
        self.sess.append(s)
        if kind == 'flv':
            self.settle()
        elif c.user_ping(self.patience) is None:
            raise Violation('session %r refused' % (d,))

    def settle(self):
        for _ in range(2):
            http.get(self.ha, '/none', timeout=self.patience)

    def ids(self):
        m = {}
        for c in http.stat(self.ha).iter('client'):
            m[c.findtext('flashver')] = int(c.findtext('id'))
        for s in self.sess:
            if s['tag'] not in m:
                raise Violation('session %r is not in the statistics: %r' % (s['key'], m))
            s['id'] = m[s['tag']]

    def path(self, s, rec):
        return os.path.join(self.rec, SRV[s['key'][0]] + APPS[s['key'][1]], NAMES[s['key'][2]] + ['.flv', '.r2', '.r'][rec])

    def go(self, case):
        self.n += 1
        self.tagn = 0
        nt, labels, hist = False, set(), []
        for d in case['sess']:
            self.add(d)
        for op in case['ops']:
            if op[0] == 'add':
                self.add(op[1])
                continue
            self.ids()
            method, f = op[:2]
            args = []
            want = list(self.sess)
            if f['srv'] != 'none':
                name = SRV[f['srv']] if f['srv'] != 'other' else 's123'
                args.append(('srv', name))
                want = [s for s in want if SRV[s['key'][0]] == name]
            if f['app'] is not None:
                args.append(('app', APPS[f['app']] if f['app'] != '' else ''))
                if f['app'] != '':
                    want = [s for s in want if s['key'][1] == f['app']]
            if f['name'] is not None:
                args.append(('name', NAMES[f['name']]))
                want = [s for s in want if s['key'][2] == f['name']]
            if f['addr'] is not None:
                a = '127.0.0.1:%d' % self.ports[0 if f['addr'] == 'short' else f['addr']]
                if f['addr'] == 'short':
                    a = a[:-1]
                args.append(('addr', a))
                want = [s for s in want if f['addr'] != 'short' and s['key'][0] == f['addr']]
            if f['id'] is not None:
                k = self.sess[f['id'] % len(self.sess)]['id'] if self.sess and f['id'] < 12 else 999999999
                args.append(('clientid', str(k)))
                want = [s for s in want if s['id'] == k]
            rec = None
            if len(op) == 3:
                want = [s for s in want if s['pub']]
                rec = op[2]
                if rec:
                    args.append(('rec', (RECS + ['nosuch'])[rec]))
            elif method == 'publisher':
                want = [s for s in want if s['pub']]
            elif method == 'subscriber':
                want = [s for s in want if not s['pub']]
            # any order of the arguments
            o, args2 = f['order'], list(args)
            args = []
            while args2:
                args.append(args2.pop(o % len(args2)))
                o //= 3
            only = f['only']
            url = '/%s/%s/%s?%s' % ('only' if only else 'control', 'drop' if rec is None else 'record', method, '&'.join('%s=%s' % a for a in args))
            hist.append(url)
            st_, _, body = http.get(self.ha, url, timeout=self.patience)
            bad = f['srv'] == 'none' or method in ('clients', '', 'star') or rec == 3
            if only and rec is None:
                bad = True
                if st_ == 200:
                    raise Violation('%s is answered with 200' % url)
            if bad:
                if st_ == 200 and (f['srv'] == 'none' or method in ('clients', '') or want):
                    raise Violation('%s is answered with 200' % url)
                want = []
            elif st_ != 200:
                raise Violation('%s is answered with %d, sessions %r' % (url, st_, [(s['key'], s['pub']) for s in self.sess]))
            if rec is None:
                if not bad and body != b'%d' % len(want):
                    raise Violation('%s reports %r, %d sessions match: %r' % (url, body, len(want), [(s['key'], s['pub'], s['flv']) for s in self.sess]))
                self.settle()
                for s in list(self.sess):
                    if s in want:
                        if s['flv']:
                            while s['c'].pump(self.patience):
                                b = s['c'].body()
                                if s['c'].closed or (b and b[0] != 200):
                                    break
                            b = s['c'].body()
                            gone = s['c'].closed or (b is not None and b[0] != 200)
                        else:
                            gone = s['c'].closed or s['c'].wait_close(self.patience)
                        if not gone:
                            raise Violation('%s: session %r stays' % (url, (s['key'], s['pub'])))
                        self.sess.remove(s)
                        s['c'].close()
                    elif s['flv']:
                        while s['c'].pump(0):
                            pass
                        b = s['c'].body()
                        if s['c'].closed or (b is not None and b[0] != 200):
                            raise Violation('%s: HTTP player of %r was dropped' % (url, s['key']))
                    elif s['c'].user_ping(self.patience) is None:
                        raise Violation('%s: session %r was dropped' % (url, (s['key'], s['pub'])))
                labels.add('drop ' + (method if not bad else 'refused'))
                if want and self.sess:
                    nt = True
            else:
                for s in want:
                    (s['rec'].add if method == 'start' else s['rec'].discard)(rec)
                labels.add('record ' + (method if not bad else 'refused'))
                if want and len(want) < sum(s['pub'] for s in self.sess):
                    nt = True
            self.frames(url)
        if self.ng.crashes():
            raise Violation('crash: ' + self.ng.crashes()[0][:600])
        return nt, labels

    def frames(self, url):
        """every publisher sends a key frame; it has to be in the files of the recorders that run and in no other"""
        pubs = [s for s in self.sess if s['pub']]
        for s in pubs:
            self.mark = getattr(self, 'mark', 0) + 1
            s['mark'] = b'{frame %09d}' % self.mark
            s['ts'] = s.get('ts', 0) + 40
            s['c'].write(9, b'\x12' + s['mark'], 6, s['ts'], 1)
        for s in pubs:
            if s['c'].user_ping(self.patience) is None:
                raise Violation('publisher %r was disconnected' % (s['key'],))
        for s in pubs:
            for rec in range(3):
                try:
                    d = open(self.path(s, rec), 'rb').read()
                except FileNotFoundError:
                    d = b''
                if (rec in s['rec']) != (s['mark'] in d):
                    raise Violation('after %s: recorder %r of %r %s' % (url, RECS[rec], s['key'], 'does not run' if rec in s['rec'] else 'runs'))


if __name__ == '__main__':
    main(R17)
