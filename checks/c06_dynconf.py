"""C06: dynamic configuration. Generated configuration files, damaged files and reload histories against a reference model of the look-up."""
import os, re, socket, sys, time
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from hypothesis import strategies as st
from lib import build, ngx
from lib.check import Prop, Violation, main

LAB = ['a', 'b', 'www', 'x-1', 'com']
SEG = ['a', 'ab', 'b', 'c.js', 'x']
SREGEX = [r'^www\.', r'b\.com$', r'^WWW\.A', r'^[ab]\.', r'x-\d', r'^(a|b)\.(www|a)\.com$', r'.']
LREGEX = [r'\.js$', r'^/a/', r'/AB', r'b', r'/(x|c)', r'^/$', r'a.*b']
VAL = 'abcXYZ019 _-./;{}#$"\'\\\t'
BROKEN = ['nosemi', 'open', 'close', 'unknown', 'args0', 'args2', 'level', 'badregex', 'badname', 'dupkey', 'duploc', 'eof', 'quote', 'nobrace', 'long', 'badmod']


def host(max_size=4):
    return st.lists(st.sampled_from(LAB), min_size=1, max_size=max_size).map('.'.join)


def name():
    return st.one_of(host(), host(), host(3).map(lambda h: '*.' + h), host(3).map(lambda h: '.' + h), host(3).map(lambda h: h + '.*'),
                     st.sampled_from(SREGEX).map(lambda r: '~' + r), host(2).map(str.upper))


def uri():
    return st.tuples(st.lists(st.sampled_from(SEG), max_size=4), st.booleans()).map(lambda t: '/' + '/'.join(t[0]) + ('/' if t[1] and t[0] else ''))


def render(v, how):
    """one of the ways to write the value v"""
    esc = v.replace('\\', '\\\\')
    if how % 3 == 0 and v and not set(v) & set(' ;{}#$"\'\\\t') :
        return v
    if how % 3 == 1 and '$' not in v:
        return "'" + esc.replace("'", "\\'").replace('\t', '\\t' if how % 2 else '\t') + "'"
    return '"' + esc.replace('"', '\\"').replace('\t', '\\t' if how % 2 else '\t') + '"'


class Conf:
    """the model of a file"""
    def __init__(self, d):
        self.d = d

    def find_server(self, servers, h):
        if not servers:
            return None
        names = {}
        for k, s in enumerate(servers):
            for n in s['names']:
                if n[0] == '~':
                    continue
                n = n.lower()
                keys = [n[1:], '*' + n] if n[0] == '.' else [n]
                if not any(key in names for key in keys):       # a conflicting name is ignored
                    for key in keys:
                        names[key] = k
        if h in names:
            return servers[names[h]]
        lab = h.split('.')
        for i in range(1, len(lab)):
            key = '*.' + '.'.join(lab[i:])
            if key in names:
                return servers[names[key]]
        for i in range(len(lab) - 1, 0, -1):
            key = '.'.join(lab[:i]) + '.*'
            if key in names:
                return servers[names[key]]
        if h:
            for s in servers:
                for n in s['names']:
                    if n[0] == '~' and re.search(n[1:], h, re.I if re.search('[A-Z]', n) else 0):
                        return s
        return servers[0]

    def http(self, h, u):
        """values at the three levels, None for no such configuration"""
        d = self.d['http']
        if d is None:
            return None, None, None
        s = self.find_server(d['servers'], h)
        if s is None:
            return d['key'], None, None
        best = None
        for l in s['locs']:
            if l['mod'] == '=' and l['uri'] == u:
                return d['key'], s['key'], l['key']
            if l['mod'] in ('', '^~') and u.startswith(l['uri']) and (best is None or len(l['uri']) > len(best['uri'])):
                best = l
        if best is None or best['mod'] != '^~':
            for l in s['locs']:
                if l['mod'][:1] == '~' and re.search(l['uri'], u, re.I if l['mod'] == '~*' else 0):
                    best = l
                    break
        return d['key'], s['key'], best and best['key']

    def rtmp(self, dom, app):
        d = self.d['rtmp']
        if d is None:
            return None, None, None, None
        s = self.find_server(d['servers'], dom)
        if s is None:
            return d['key'], None, None, None
        a = next((a for a in s['apps'] if a['name'] == app), None) or next((a for a in s['apps'] if a['name'] == '*'), None)
        return d['key'], s['key'], a and a['key'], s['id']


class C06(Prop):
    id = 'C06'
    rule = ('a case is a history of 1-5 contents of the dynamic configuration file (generated servers, names, locations, applications, values with quoting and padding across the 4096-byte buffer; '
            'or a damaged file; or no file), each followed by generated look-ups; non-trivial: the file changed at least once while looked up, and some look-up matched another entry than the default')
    assumptions = ['one worker process', 'regular expressions from a fixed set on which PCRE and the reference agree', 'server and application duplicates: the first one counts',
                   'RTMP host names are looked up in lower case']
    quick_cases = 2500
    thorough_cases = 40000
    quick_budget = 40
    batch = 400
    variants = ['plain', 'asan']
    patience = 8

    def prebuild(cls):
        build.probe('plain', 'dyn_probe')
        build.probe('asan', 'dyn_probe')

    def setup(self):
        self.hp = ngx.free_port()
        self.n = 1
        self.ng = ngx.Nginx(rtmp='server { listen 127.0.0.1:%d; application a { live on; } }' % ngx.free_port(), probes=['dyn_probe'],
                            top='dynamic_conf @DIR@/dyn.conf 2ms;\ndynamic_log @DIR@/dyn.log emerg;\n',
                            http='server { listen 127.0.0.1:%d; keepalive_requests 1000000; location / { pv_dyn; } }' % self.hp, flavour=self.variant, log_level='emerg')
        self.file = os.path.join(self.ng.dir, 'dyn.conf')
        self.cur = Conf({'http': None, 'rtmp': None})
        self.cur.version = '1'
        self.write('pv_version 1;\n')
        self.ng.start([self.hp])
        self.s = None

    def teardown(self):
        self.ng.stop()

    def write(self, text):
        with open(self.file + '.new', 'w', newline='') as f:
            f.write(text)
        os.rename(self.file + '.new', self.file)

    def strategy(self):
        key = st.text(st.sampled_from(VAL), max_size=12)
        how = st.integers(0, 5)
        names = st.lists(name(), max_size=3)
        loc = st.fixed_dictionaries({'mod': st.sampled_from(['', '', '', '=', '^~']), 'uri': uri(), 'key': key, 'how': how})
        rloc = st.fixed_dictionaries({'mod': st.sampled_from(['~', '~*']), 'uri': st.sampled_from(LREGEX), 'key': key, 'how': how})
        hs = st.fixed_dictionaries({'names': names, 'key': key, 'locs': st.lists(st.one_of(loc, loc, rloc), max_size=6)})
        app = st.fixed_dictionaries({'name': st.sampled_from(['live', 'liv', 'live2', 'vod', '*']), 'key': key, 'how': how})
        rs = st.fixed_dictionaries({'names': names, 'key': key, 'id': st.sampled_from(['', 'sid', 'other']), 'apps': st.lists(app, max_size=4)})
        http = st.one_of(st.none(), *[st.fixed_dictionaries({'key': key, 'servers': st.lists(hs, max_size=5)})] * 7)
        rtmp = st.one_of(st.none(), *[st.fixed_dictionaries({'key': key, 'servers': st.lists(rs, max_size=5)})] * 5)
        look = st.tuples(host(), uri(), host(), st.sampled_from(['live', 'liv', 'live2', 'vod', 'x', '']))
        # look-ups that are likely to hit are derived from the names in the file
        step = st.fixed_dictionaries({'http': http, 'rtmp': rtmp, 'pad': st.lists(st.tuples(st.integers(0, 60), st.integers(0, 900)), max_size=8),
                                      'what': st.sampled_from(['ok', 'ok', 'ok', 'ok', 'broken', 'broken', 'gone', 'same']), 'kind': st.sampled_from(BROKEN), 'at': st.integers(0, 1000),
                                      'order': st.integers(0, 5), 'looks': st.lists(look, max_size=10), 'derive': st.lists(st.tuples(st.integers(0, 100), st.integers(0, 100), st.integers(0, 5)), max_size=10)})
        return st.lists(step, min_size=1, max_size=5)

    def clean(self, d):
        """drop what would make the file invalid (each of these is also generated on purpose, as a damage)"""
        if d['http']:
            for s in d['http']['servers']:
                seen, locs = set(), []
                for l in s['locs']:
                    k = (l['uri'], l['mod'] == '=') if l['mod'][:1] != '~' else None
                    if k is None or k not in seen:
                        seen.add(k)
                        locs.append(l)
                s['locs'] = locs
        for b in (d['http'], d['rtmp']):
            seen = set()
            for s in b['servers'] if b else []:
                # a name that collides with only one half of ".x" ("x" and "*.x") is a configuration mistake nginx itself resolves by ignoring parts of it
                keep = []
                for n in s['names']:
                    m = n.lower()
                    if m[:1] == '.' and {m, m[1:], '*' + m} & seen:
                        continue
                    seen.add(m)
                    keep.append(n)
                s['names'] = keep
        if d['rtmp']:
            for s in d['rtmp']['servers']:
                apps, star = [], False
                for a in s['apps']:
                    if a['name'] != '*' or not star:
                        apps.append(a)
                    star |= a['name'] == '*'
                s['apps'] = apps
        return d

    def text(self, d, version):
        """list of lines; each line is one directive, a block's start or its end"""
        def names(s, k):
            if not s['names']:
                return []
            if k % 2:
                return ['server_name %s;' % ' '.join(render(n, 0) if not set(n) & set('{};$\\ (|') else "'" + n.replace('\\', '\\\\') + "'" for n in s['names'])]
            return ['server_name %s;' % ("'" + n.replace('\\', '\\\\') + "'") for n in s['names']]
        http, rtmp = [], []
        if d['http']:
            h = d['http']
            http = ['http {', 'mkey %s;' % render(h['key'], d['order'])]
            for s in h['servers']:
                http += ['server {']
                ls = []
                for k, l in enumerate(s['locs']):
                    u = l['uri'].replace('\\', '\\\\')
                    u = "'%s'" % u if l['mod'][:1] == '~' or l['how'] % 2 else u
                    join = l['how'] == 4 and l['mod'] and u[0] != "'"
                    ls += ['location %s%s%s {' % (l['mod'], '' if join or not l['mod'] else ' ', u), 'lkey %s;' % render(l['key'], l['how']), '}']
                kl = ['skey %s;' % render(s['key'], d['order'])]
                nl = names(s, d['order'])
                http += [kl + nl + ls, ls + nl + kl, nl + ls + kl][d['order'] % 3] + ['}']
            http += ['}']
        if d['rtmp']:
            h = d['rtmp']
            rtmp = ['rtmp {', 'mkey %s;' % render(h['key'], d['order'])]
            for s in h['servers']:
                rtmp += ['server {', 'skey %s;' % render(s['key'], d['order'])] + names(s, d['order'])
                if s['id']:
                    rtmp += ['serverid %s;' % s['id']]
                for a in s['apps']:
                    rtmp += ['application %s {' % a['name'], 'akey %s;' % render(a['key'], a['how']), '}']
                rtmp += ['}']
            rtmp += ['}']
        v = ['pv_version %s;' % version]
        return v + http + rtmp if d['order'] % 2 else rtmp + http + v

    def damage(self, lines, kind, at):
        lines = list(lines)
        dirs = [i for i, l in enumerate(lines) if l.endswith(';') and not l.startswith('server_name')]
        i = dirs[at % len(dirs)]
        ins = lambda l: lines.insert(i, l)
        if kind == 'nosemi':
            lines[i] = lines[i][:-1]
        elif kind == 'open':
            ins('{')
        elif kind == 'close':
            lines.append('}')
        elif kind == 'unknown':
            ins('no_such_directive 1;')
        elif kind == 'args0':
            lines[i] = lines[i].split(' ')[0] + ';'
        elif kind == 'args2':
            k = i
            lines[k] = lines[k][:-1] + ' more;'
        elif kind == 'level':
            lines.append('skey 1;')
        elif kind == 'badregex':
            lines.append("http { server { server_name '~('; } }")
        elif kind == 'badname':
            lines.append('rtmp { server { server_name *a.com; } }')
        elif kind == 'dupkey':
            k = i
            lines.insert(k, lines[k])
        elif kind == 'duploc':
            lines.append('http { server { location /a { } location /a { } } }')
        elif kind == 'eof':
            lines.append('http {')
        elif kind == 'quote':
            lines[i] = lines[i][:-1] + '"x";' if lines[i][-2] in '"\'' else lines[i].split(' ')[0] + ' "x'
        elif kind == 'nobrace':
            lines.append('http;')
        elif kind == 'long':
            lines.append('pv_version %s;' % ('x' * 5000))
        elif kind == 'badmod':
            lines.append('http { server { location !~ /a { } } }')
        return lines

    def ask(self, host, uri='/', dom='', app=''):
        req = 'GET %s?d=%s&a=%s HTTP/1.1\r\nHost: %s\r\n\r\n' % (uri, dom, app, host)
        for attempt in (0, 1):
            try:
                if self.s is None:
                    self.s = socket.create_connection(('127.0.0.1', self.hp), 10)
                    self.s.setsockopt(socket.IPPROTO_TCP, socket.TCP_NODELAY, 1)
                self.s.sendall(req.encode('latin-1'))
                raw = b''
                while True:
                    i = raw.find(b'\r\n\r\n')
                    if i > 0:
                        m = re.search(rb'\r\nContent-Length: (\d+)', raw[:i])
                        if m and len(raw) >= i + 4 + int(m.group(1)):
                            break
                        if not m:
                            raise Violation('look-up of host %r uri %r answered %r' % (host, uri, raw[:60]))
                    x = self.s.recv(65536)
                    if not x:
                        raise OSError('closed')
                    raw += x
                r = raw[i + 4:].decode('latin-1').split('\n')
                if len(r) < 9:
                    raise Violation('look-up of host %r uri %r answered %r' % (host, uri, raw[:60]))
                return int(r[0]), [None if v == '-' else v[1:] for v in r[1:9]]
            except OSError as e:
                self.s = None
                if attempt:
                    raise self.broken(e)
                cr = self.ng.crashes()
                if cr:
                    raise Violation('server crashed: %s' % cr[0])

    def judge(self, host, uri, dom, app, what):
        _, v = self.ask(host, uri, dom, app)
        want = (self.cur.version,) + self.cur.http(host.lower(), uri) + self.cur.rtmp(dom, app)
        lab = ['version', 'http', 'http server', 'http location', 'rtmp', 'rtmp server', 'rtmp application', 'rtmp serverid']
        for l, g, w in zip(lab, v, want):
            if g != w:
                raise Violation('%s: look-up host %r uri %r (rtmp %r/%r): %s value is %r, expected %r' % (what, host, uri, dom, app, l, g, w))

    def hit(self, d, x, y, z):
        """a look-up close to something the file names"""
        def of(servers):
            if not servers:
                return 'a.com', None
            s = servers[x % len(servers)]
            if not s['names']:
                return 'none.org', s
            n = s['names'][y % len(s['names'])].lower()
            if n[0] == '~':
                n = 'www.b.com'
            n = ('a' if z % 2 else 'q.b') + n[1:] if n[:2] == '*.' else n
            n = (['', 'q', 'a.b'][z % 3] + n).lstrip('.') if n[0] == '.' else n
            n = n[:-1] + ['com', 'a', 'a.b'][z % 3] if n[-2:] == '.*' else n
            return n, s
        h, s = of(d['http'] and d['http']['servers'])
        u = '/a/b'
        if s and s['locs']:
            l = s['locs'][y % len(s['locs'])]
            if l['mod'][:1] != '~':
                u = l['uri'] + ['', '', 'b', '/x', '.js', ''][z]
                u = (u[:-1] or '/' if z == 5 else u).replace('//', '/')
        h2, s2 = of(d['rtmp'] and d['rtmp']['servers'])
        app = s2['apps'][y % len(s2['apps'])]['name'] if s2 and s2['apps'] else 'live'
        return h, u, h2, 'zz' if app == '*' else app

    def run(self, case):
        labels = set()
        changed = matched = 0
        base = None
        for step in case:
            what = step['what']
            if what == 'ok':
                d = self.clean(step)
                self.n += 1
                nxt = Conf(d)
                nxt.version = str(self.n)
                base = self.text(d, nxt.version)
                lines = []
                pads = {p % (len(base) + 1): n for p, n in d['pad']}
                for i, l in enumerate(base):
                    if i in pads:
                        lines.append(' ' * (pads[i] % 50) + '# ' + '{;"x' * (pads[i] // 4))
                    lines.append(l)
                eol = '\r\n' if d['order'] == 3 else '\n'
                txt = eol.join(lines) + (eol if d['order'] != 2 else '')
                if d['order'] == 5 and not d['pad']:
                    txt = ' '.join(lines)
                if len(txt) > 4096:
                    labels.add('over one buffer')
                self.write(txt)
                end = time.monotonic() + self.patience
                while self.ask('x')[1][0] != nxt.version:
                    if time.monotonic() > end:
                        raise Violation('a valid file was not loaded within %d s:\n%s' % (self.patience, txt))
                    time.sleep(0.002)
                self.cur = nxt
                changed += 1
                labels.add('loaded')
            elif what == 'same':
                if base is None:
                    continue
                os.utime(self.file if os.path.exists(self.file) else self.ng.dir)
            else:
                if what == 'gone':
                    if os.path.exists(self.file):
                        os.unlink(self.file)
                    labels.add('file removed')
                    time.sleep(0.008)
                else:
                    kind = step['kind']
                    # the text of another configuration, which must not be taken over in part
                    d = self.clean(step)
                    lines = self.damage(self.text(d, 'bad'), kind, step['at'])
                    before, _ = self.ask('x')
                    self.write('\n'.join(lines))
                    end = time.monotonic() + self.patience
                    while self.ask('x')[0] < before + 2:
                        if time.monotonic() > end:
                            raise Violation('a damaged file was not looked at within %d s' % self.patience)
                        time.sleep(0.002)
                    labels.add('damaged')
                    labels.add('damage ' + kind)
                changed += 1
            w = 'after %s' % {'ok': 'loading a file', 'gone': 'the file was removed', 'broken': 'a damaged file (%s)' % step['kind'], 'same': 'no change'}[what]
            looks = list(step['looks'])
            for x, y, z in step['derive']:
                looks.append(self.hit(self.cur.d, x, y, z))
            for h, u, dom, app in looks:
                self.judge(h, u, dom, app, w)
                hh = self.cur.d['http']
                if hh and hh['servers'] and self.cur.find_server(hh['servers'], h) is not hh['servers'][0]:
                    matched += 1
                    labels.add('virtual server')
                if self.cur.http(h, u)[2] is not None:
                    labels.add('location')
        cr = self.ng.crashes()
        if cr:
            raise Violation('server crashed: %s' % cr[0])
        return changed >= 1 and matched >= 1, labels


if __name__ == '__main__':
    main(C06)
