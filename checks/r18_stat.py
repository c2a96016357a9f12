"""R18: the statistics pages (XML and JSON) against a model of the sessions that exist."""
import json, os, sys, time
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from hypothesis import strategies as st
from lib import ngx, rtmp, media, build, http
from lib.check import Prop, Violation, Inconclusive, main

HS = 3073      # handshake bytes in each direction, not counted by the server


def shown(s):
    """printable form the XML page uses: bytes outside printable ASCII become blanks"""
    return ''.join(c if 0x20 <= ord(c) < 0x7f else ' ' for c in s)


class R18(Prop):
    id = 'R18'
    rule = ('a case is a history of up to 14 sessions and actions over three hosts, two applications and four names drawn with markup, control and non-ASCII characters: RTMP publishers and players, '
            'HTTP-FLV players, media from the publishers, sessions leaving; after each leave and at drawn points the XML page and the JSON page must be well formed and list exactly the modelled servers, '
            'streams and clients with their flags, texts, timestamps and byte counts. Non-trivial: at least three sessions existed and one left or one used a name that needs escaping')
    assumptions = ['a session that ended may stay on the page until the server has seen its connection close (waited for)']
    quick_cases = 500
    thorough_cases = 3000
    quick_budget = 28
    patience = 5

    def prebuild(cls):
        build.modules('plain')
        build.modules('asan')

    def setup(self):
        self.n = 0
        self.ports, self.hp = [ngx.free_port() for _ in range(4)], ngx.free_port()
        apps = 'ping 10m; application live { live on; } application live2 { live on; cache_time 1s; }'
        self.ids = ['default', 'one', 'a<b&"c>', '']        # no serverid, a plain one, one with markup, the host the client names
        self.ng = ngx.Nginx(rtmp=''.join("server { listen 127.0.0.1:%d; %s %s }\n" % (p, '' if i == 0 else "serverid '%s';" % self.ids[i], apps) for i, p in enumerate(self.ports)),
                            http='server { listen 127.0.0.1:%d; location /stat { rtmp_stat all; } location /sys { sys_stat; } %s }' % (self.hp, ' '.join(
                                'location ~ ^/flv%d/ { flv_live 127.0.0.1:%d app=live; }' % (i, p) for i, p in enumerate(self.ports))),
                            top='stream_zone buckets=1024 streams=1024;', flavour='asan' if self.widx % 4 == 3 else 'plain', log_level='error')
        self.ng.start(self.ports + [self.hp])
        self.ha = ('127.0.0.1', self.hp)

    def teardown(self):
        self.ng.stop()

    def strategy(self):
        ch = st.one_of(st.sampled_from(list('abz019._-~')), st.sampled_from(list('<>&"\' ;=%')), st.sampled_from(list('\x01\x1f\x7f\t\xe9\u20ac]')))
        name = st.one_of(st.sampled_from(['a', 'b', 's1']), st.text(ch, min_size=1, max_size=12), st.text(st.sampled_from(list('ab/<')), min_size=1, max_size=6).map(lambda s: s + 'z'),
                         st.integers(200, 245).map(lambda n: 'n' * n + '<'))
        hostc = st.one_of(st.sampled_from(['h1', 'h2', 'h1.example.com']), st.text(st.sampled_from(list('ab<>&".\x02\xe9-')), min_size=1, max_size=8).map(lambda s: 'h' + s))
        ext = st.one_of(st.just(''), st.text(ch, max_size=30), st.sampled_from(['http://x/?a=1&b=<c>', '&amp;', '<!--', ']]>', '<' * 70]))
        sess = st.fixed_dictionaries({'srv': st.sampled_from([0, 1, 2, 3, 3]), 'host': st.integers(0, 2), 'app': st.sampled_from(['live', 'live', 'live2']), 'name': st.integers(0, 3), 'pub': st.booleans(),
                                      'page': ext, 'swf': ext, 'flv': st.sampled_from([False, False, False, True])})
        op = st.one_of(sess.map(lambda d: ('open', d)), sess.map(lambda d: ('open', d)),
                       st.tuples(st.just('media'), st.integers(0, 9), st.lists(st.tuples(st.booleans(), st.integers(5, 3000), st.integers(0, 500)), min_size=1, max_size=8)),
                       st.tuples(st.just('close'), st.integers(0, 9), st.booleans()), st.just(('look',)))
        return st.fixed_dictionaries({'hosts': st.lists(hostc, min_size=3, max_size=3, unique=True), 'names': st.lists(name, min_size=4, max_size=4, unique=True), 'ops': st.lists(op, min_size=5, max_size=16)})

    def run(self, case):
        self.n += 1
        sess = []      # dicts of live sessions, in opening order
        labels = set()
        most = 0
        hosts = [h + str(self.n) for h in case['hosts']]
        base = None
        sent = recvd = 0
        conns = []
        left = 0
        self.tot = {}        # key -> [audio, video] payload bytes since the stream came into being
        try:
            base = self.page()
            nacc0 = int(base.findtext('naccepted'))
            opened = 0
            for op in list(case['ops']) + [('look',)]:
                if op[0] == 'open':
                    d = op[1]
                    host, name = hosts[d['host']], case['names'][d['name']]
                    port = self.ports[d['srv']]
                    if d['flv']:
                        host = ''.join(x if x in 'hab0123456789exmplco' else 'x' for x in host)
                    key = (self.ids[d['srv']] or host, d['app'], name)
                    tag = 'v%d_%d' % (self.n, len(conns))
                    if d['flv'] and not d['pub']:
                        if not all(c in 'abz019._-~' for c in name) or name in ('.', '..') or d['app'] != 'live':
                            continue
                        c = http.Stream(self.ha, '/flv%d/' % d['srv'] + name, host=host)
                        conns.append(c)
                        sess.append({'key': key, 'pub': False, 'flv': True, 'c': c, 'tag': None, 'ts': None, 'page': '', 'swf': ''})
                        labels.add('http-flv')
                        continue
                    if d['pub'] and any(s['key'] == key and s['pub'] for s in sess):
                        continue
                    opened += 1
                    tc = 'rtmp://%s/%s' % (host, d['app'])
                    kw = {'flashVer': tag, 'pageUrl': d['page'], 'swfUrl': d['swf']}
                    if d['pub']:
                        c = rtmp.publisher(('127.0.0.1', port), d['app'], name, tcurl=tc, **kw)
                    else:
                        c = rtmp.player(('127.0.0.1', port), d['app'], name, tcurl=tc, expect=False, **kw)
                    conns.append(c)
                    if c.user_ping() is None:
                        raise Violation('session for %r was refused' % (key,))
                    if any(shown(x) != x or set(x) & set('<>&"') for x in (host, name, d['page'], d['swf'])):
                        labels.add('escaped')
                    sess.append({'key': key, 'pub': d['pub'], 'flv': False, 'c': c, 'tag': tag, 'ts': 0 if d['pub'] else None, 'port': port, 'page': d['page'], 'swf': d['swf']})
                elif op[0] == 'media':
                    pubs = [s for s in sess if s['pub']]
                    if not pubs:
                        continue
                    s = pubs[op[1] % len(pubs)]
                    for aud, size, ts in op[2]:
                        s['ts'] += ts
                        body = media.filler(ts + size, size)
                        pay = media.mp3(body) if aud else b'\x12' + body
                        self.tot.setdefault(s['key'], [0, 0])[0 if aud else 1] += len(pay)
                        s['c'].write(8 if aud else 9, pay, csid=4 if aud else 6, ts=s['ts'], msid=1)
                    s['last'] = s['ts']
                    if s['c'].user_ping() is None:
                        raise Violation('publisher was disconnected')
                    labels.add('media')
                elif op[0] == 'close' and sess:
                    s = sess.pop(op[1] % len(sess))
                    s['c'].close()
                    left += 1
                    if not any(o['key'] == s['key'] for o in sess):
                        self.tot.pop(s['key'], None)
                    self.look(sess, hosts)
                    labels.add('left')
                    if s['pub']:
                        labels.add('publisher left')
                elif op[0] == 'look':
                    most = max(most, len(sess))
                    self.look(sess, hosts)
                    now = self.page()
                    if int(now.findtext('naccepted')) - nacc0 != opened:
                        raise Violation('naccepted grew by %d, %d connections were made' % (int(now.findtext('naccepted')) - nacc0, opened))
        except http.Bad as e:
            raise self.broken(e)
        except (OSError, rtmp.Closed, rtmp.Timeout) as e:
            raise self.broken(e)
        except rtmp.ProtoError as e:
            raise self.broken(e)
        finally:
            for c in conns:
                c.close()
        # everything goes away
        self.look([], hosts)
        if self.ng.crashes():
            raise Violation('server crashed: %s' % self.ng.crashes()[0])
        return most >= 3 and ('left' in labels or 'escaped' in labels), labels

    def page(self):
        try:
            return http.stat(self.ha)
        except http.ET.ParseError as e:
            raise Violation('the statistics page is not well-formed XML: %s' % e)

    def broken(self, e):
        cr = self.ng.crashes()
        return Violation('server crashed: %s' % cr[0] if cr else 'session broke: %r' % e)

    def look(self, sess, hosts):
        end = time.monotonic() + self.patience
        pause = 0.002
        while True:
            err = self.compare(sess) or self.compare_json(sess)
            if err is None:
                return
            if time.monotonic() > end:
                raise Violation(err)
            time.sleep(pause)
            pause = min(pause * 2, 0.2)

    def model(self, sess):
        m = {}
        for s in sess:
            m.setdefault(s['key'][0], {}).setdefault(s['key'], []).append(s)
        return m

    def compare(self, sess):
        root = self.page()
        m = self.model(sess)
        want = {}
        for host, streams in m.items():
            for key, l in streams.items():
                want.setdefault(shown_b(host), []).append((shown_b(key[2].rsplit('/', 1)[-1]), l))
        got = {}
        for srv in root.findall('server'):
            strs = srv.findall('live/stream')
            if strs:
                got.setdefault(srv.findtext('serverid'), []).extend(strs)
            n = int(srv.findtext('live/nclients'))
            if n != sum(len(x.findall('client')) for x in strs):
                return 'server %r: nclients %d but %d clients listed' % (srv.findtext('serverid'), n, sum(len(x.findall('client')) for x in strs))
        if sorted(got) != sorted(want):
            return 'page lists streams of servers %r, sessions exist on %r' % (sorted(got), sorted(want))
        for host in want:
            g = sorted(x.findtext('name') or '' for x in got[host])
            w = sorted(n for n, _ in want[host])
            if g != w:
                return 'server %r: page lists streams %r, existing are %r' % (host, g, w)
            # match streams by the set of client tags
            for x in got[host]:
                tags = sorted(c.findtext('flashver') or '' for c in x.findall('client'))
                cand = [l for n, l in want[host] if n == (x.findtext('name') or '') and sorted(s['tag'] or '' for s in l) == tags]
                if not cand:
                    return 'server %r stream %r: page lists clients %r, existing are %r' % (host, x.findtext('name'), tags, [sorted(s['tag'] or '' for s in l) for n, l in want[host] if n == x.findtext('name')])
                err = self.stream(x, cand[0])
                if err:
                    return 'server %r stream %r: %s' % (host, x.findtext('name'), err)
        return None

    def stream(self, x, l):
        haspub = any(s['pub'] for s in l)
        if (x.find('publishing') is not None) != haspub:
            return 'publishing flag is %s, a publisher %s' % (x.find('publishing') is not None, 'exists' if haspub else 'does not exist')
        if int(x.findtext('nclients')) != len(l):
            return 'nclients %s, %d exist' % (x.findtext('nclients'), len(l))
        pubs = [s for s in l if s['pub']]
        tot = sum(self.tot.get(l[0]['key'], [0, 0]))
        if not tot <= int(x.findtext('bytes_in')) <= tot * 2 + 4000 * (len(l) + 20):
            return 'bytes_in is %s, %d media bytes were published' % (x.findtext('bytes_in'), tot)
        if (x.find('meta') is not None) and not haspub:
            return 'codec parameters without a publisher'
        by = {s['tag']: s for s in l if s['tag']}
        ids = [c.findtext('id') for c in x.findall('client')]
        if len(set(ids)) != len(ids):
            return 'client ids repeat: %r' % ids
        for c in x.findall('client'):
            s = by.get(c.findtext('flashver'))
            if s is None:
                continue
            if (c.find('publishing') is not None) != s['pub']:
                return 'client %s: publishing %s' % (s['tag'], c.find('publishing') is not None)
            if c.findtext('address') != '127.0.0.1:%d' % s['port'] or c.findtext('remote_address') != '127.0.0.1':
                return 'client %s: address %r, remote address %r' % (s['tag'], c.findtext('address'), c.findtext('remote_address'))
            for tag, f in (('pageurl', 'page'), ('swfurl', 'swf')):
                if norm(c.findtext(tag) or '') != norm(shown_b(s[f])):
                    return 'client %s: %s %r, it sent %r' % (s['tag'], tag, c.findtext(tag), s[f])
            if s['pub'] and 'last' in s and int(c.findtext('timestamp')) != s['last']:
                return 'publisher %s: timestamp %s, last sent %d' % (s['tag'], c.findtext('timestamp'), s['last'])
            if c.findtext('dropped') != '0':
                return 'client %s: dropped %s' % (s['tag'], c.findtext('dropped'))
        return None

    def compare_json(self, sess):
        st_, hd, body = http.get(self.ha, '/sys')
        try:
            j = json.loads(body.decode('latin-1'))
        except ValueError as e:
            raise Violation('the JSON page is not JSON: %s' % e)
        want = {}
        for s in sess:
            want.setdefault('/'.join(s['key']), []).append(s)
        got = {}
        for srv in j['live_stream']['server_array']:
            for x in srv['stream_array']:
                nm = x['name'].encode('latin-1').decode('utf-8', 'replace')
                if nm in got:
                    return 'JSON: stream %r listed twice' % nm
                got[nm] = x
                if not x['name'].startswith(srv['serverid'] + '/'):
                    return 'JSON: stream %r under server %r' % (nm, srv['serverid'])
        if sorted(got) != sorted(want):
            return 'JSON page lists streams %r, existing are %r' % (sorted(got), sorted(want))
        for k, l in want.items():
            x = got[k]
            if len(x['client_array']) != len(l):
                return 'JSON: stream %r lists %d clients, %d exist' % (k, len(x['client_array']), len(l))
            pl = [s for s in l if not s['pub']]
            nf = len([s for s in pl if s['flv']])
            if (x['rtmp_clients'], x['flv_clients'], x['total_clients']) != (len(pl) - nf, nf, len(pl)):
                return 'JSON: stream %r counts rtmp/flv/total %r, existing are %r' % (k, (x['rtmp_clients'], x['flv_clients'], x['total_clients']), (len(pl) - nf, nf, len(pl)))
            for s in l:
                c = [c for c in x['client_array'] if c.get('flashver') == s['tag']]
                if s['tag'] and (len(c) != 1 or c[0]['publishing'] != s['pub']):
                    return 'JSON: stream %r client %s: %r' % (k, s['tag'], c)
            a, v = self.tot.get(l[0]['key'], [0, 0])
            if x['audio_in']['bytes'] != a or x['video_in']['bytes'] != v:
                return 'JSON: stream %r counts %d audio and %d video bytes, published were %d and %d' % (k, x['audio_in']['bytes'], x['video_in']['bytes'], a, v)
        return None


def shown_b(s):
    return shown(s.encode('utf-8').decode('latin-1'))


def norm(s):
    return s.replace('\r\n', '\n')


if __name__ == '__main__':
    main(R18)
