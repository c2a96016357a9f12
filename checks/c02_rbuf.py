"""C02: reference-counted buffers, debug pools and shared frames against a model of their owners."""
import os, re, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from hypothesis import strategies as st
from lib import harness
from lib.check import Prop, Violation, main

SLOTS = 24
size = st.one_of(st.sampled_from([1, 16, 128, 128, 128, 1316, 4096]), st.integers(1, 300))
sl = st.integers(0, SLOTS - 1)
piece = st.binary(max_size=40) | st.builds(lambda n, b: bytes([b]) * n, st.integers(0, 3000), st.integers(0, 255))
chunk = st.sampled_from([1, 7, 16, 128, 128, 4096])
op = st.one_of(
    st.tuples(st.just('get'), sl, size, st.booleans()), st.tuples(st.just('get'), sl, size, st.just(True)),
    st.tuples(st.just('get'), sl, size, st.just(True)),
    st.tuples(st.just('put'), sl), st.tuples(st.just('put'), sl), st.tuples(st.just('twice'), sl), st.tuples(st.just('chain'), st.lists(sl, max_size=5, unique=True)),
    st.tuples(st.just('pool'), sl, st.integers(0, 3000)), st.tuples(st.just('unpool'), sl), st.tuples(st.just('unpool2'), sl),
    st.tuples(st.just('frame'), sl, chunk, st.booleans(), st.lists(piece, max_size=4), st.booleans()),
    st.tuples(st.just('frame'), sl, chunk, st.booleans(), st.lists(piece, max_size=4), st.booleans()),
    st.tuples(st.just('append'), sl, piece), st.tuples(st.just('ref'), sl, st.booleans()), st.tuples(st.just('unref'), sl, st.booleans()), st.tuples(st.just('unref'), sl, st.booleans()))


class C02(Prop):
    id = 'C02'
    rule = ('a case is up to 120 operations by up to 24 owners: get/put of chain buffers with and without memory, double put, putting whole chains, pools created/destroyed/destroyed twice, shared '
            'frames of both kinds allocated from split input, appended to, referenced and released. Non-trivial: memory was given back and later handed out again while other owners held some')
    quick_cases = 1200
    thorough_cases = 30000
    quick_budget = 60

    def prebuild(cls):
        cls.exe = harness.make('rbuf')

    def setup(self):
        self.p = harness.Proc(self.exe)
        self.n = 0

    def teardown(self):
        self.p.stop()

    restart_every = 300

    def strategy(self):
        return st.lists(op, min_size=20, max_size=120)

    def run(self, case):
        words, want, labels = [], [], set()
        own, pools, fr, mfr = {}, {}, {}, {}
        given, reused = 0, False
        # what earlier cases left on the free lists may be reused: the model only says what an owner sees

        def ask(w, *checks):
            words.append(w)
            want.extend(checks)

        def fill(tag, n):
            return bytes((tag * 37 + k * 11 + (k >> 8)) & 255 for k in range(n))
        tag = 0

        def layout(data, chunk):
            """frames fill buffers of the chunk size in order"""
            return data, chunk

        def verify_all():
            for s, (sz, al, d) in sorted(own.items()):
                if al:
                    ask('V %d' % s, ('content', d.hex() or '-', 'buffer %d' % s))
            for m, c in ((fr, 'C'), (mfr, 'D')):
                for s, f in sorted(m.items()):
                    ask('%s %d' % (c, s), ('frame', f['data'], f['chunk'], 'frame %d' % s))
        for o in case:
            tag += 1
            k, s = o[0], o[1]
            if k == 'get':
                if s in own:
                    continue
                sz, al = o[2], o[3]
                ask('G %d %d %d' % (s, sz, al), ('get', sz, al))
                d = fill(tag, sz) if al else b''
                if al:
                    words.append('W %d %s' % (s, d.hex()))
                if tag % 3 == 0:
                    words.append('g %d' % s)
                own[s] = (sz, al, d)
                if given and len(own) > 1:
                    reused = True
            elif k in ('put', 'twice'):
                if s not in own:
                    continue
                ask('P %d' % s, ('eq', '0', 'put'))
                if k == 'twice':
                    ask('P %d' % s, ('eq', '1', 'second put is reported'))
                    labels.add('double put')
                del own[s]
                given += 1
            elif k == 'chain':
                l = [x for x in o[1] if x in own]
                if len(l) < 2:
                    continue
                for a, b in zip(l, l[1:]):
                    words.append('L %d %d' % (a, b))
                ask('Q %d' % l[0], ('eq', '0', 'put chain'))
                for x in l:
                    del own[x]
                labels.add('chain put')
                given += 1
            elif k == 'pool':
                if s not in pools:
                    ask('p %d' % s, ('eq', '1', 'pool'))
                    pools[s] = True
                words.append('a %d %d' % (s, o[2] + 1))
            elif k in ('unpool', 'unpool2'):
                if s not in pools:
                    continue
                ask('d %d' % s, ('eq', '0', 'destroy'))
                if k == 'unpool2':
                    ask('d %d' % s, ('eq', '1', 'second destroy is reported'))
                    labels.add('double destroy')
                del pools[s]
            elif k == 'frame':
                m, c = (mfr, 'M') if o[5] else (fr, 'F')
                if s in m:
                    continue
                data = b''.join(o[4])
                # an empty input chain needs the mandatory buffer
                ask('%s %d %d %d %d %s' % (c, s, o[2], o[3], len(o[4]), ' '.join(x.hex() or '-' for x in o[4])), ('newframe', data, 1316 if o[5] else o[2]))
                m[s] = dict(data=data, chunk=1316 if o[5] else o[2], ref=1)
                if given:
                    reused = True
            elif k == 'append':
                if s in fr:
                    words.append('X %d %d %s' % (s, fr[s]['chunk'], o[2].hex() or '-'))
                    fr[s]['data'] += o[2]
            elif k in ('ref', 'unref'):
                m = mfr if o[2] else fr
                if s in m:
                    if k == 'ref':
                        words.append('%s %d' % ('B' if o[2] else 'A', s))
                        m[s]['ref'] += 1
                    else:
                        words.append('%s %d' % ('m' if o[2] else 'f', s))
                        m[s]['ref'] -= 1
                        if m[s]['ref'] == 0:
                            del m[s]
                            given += 1
            if tag % 12 == 0:
                verify_all()
        verify_all()
        ask('S 1', ('rstate', [s for s in own]))
        ask('s 1', ('pstate', [s for s in pools]))
        # give everything back
        for s in own:
            ask('P %d' % s, ('eq', '0', 'final put'))
        for s in pools:
            ask('d %d' % s, ('eq', '0', 'final destroy'))
        for m, c in ((fr, 'f'), (mfr, 'm')):
            for s, f in m.items():
                words += ['%s %d' % (c, s)] * f['ref']
        ask('S 1', ('rstate', []))
        ask('s 1', ('pstate', []))
        try:
            got = self.p.ask(' '.join(words)).split()
        except harness.Died as e:
            raise Violation('buffers: %s' % e)
        if len(got) != len(want):
            raise Violation('harness answered %d words for %d questions' % (len(got), len(want)))
        for g, w in zip(got, want):
            if w[0] == 'eq' and g != w[1]:
                raise Violation('%s: got %s, want %s' % (w[2], g, w[1]))
            if w[0] == 'content' and g != w[1]:
                raise Violation('%s changed under its owner: %s..., want %s...' % (w[2], g[:60], w[1][:60]))
            if w[0] == 'get':
                f = g.split(':')
                if f[0] != str(w[1] if w[2] else 0) or f[1] != '1' or f[2] != str(int(w[2])) or f[3] != '1' or f[4] != '0100000000':
                    raise Violation('get(%d, %d) gave capacity:empty:memory:single:flags %s' % (w[1], w[2], g))
            if w[0] in ('frame', 'newframe'):
                if w[0] == 'newframe':
                    ref, a, b, c, d, body = g.split(':')
                    if (ref, a, b, c, d) != ('1', '0', '0', '0', '0'):
                        raise Violation('a new frame has ref and header fields %s' % g[:60])
                else:
                    body = g
                if '!' in body:
                    raise Violation('frame with an inconsistent buffer')
                bufs = [x.split('/') for x in body.rstrip('-').split(',') if x]
                data = ''.join(x[0] for x in bufs)
                if data != w[1].hex():
                    raise Violation('frame holds %s..., want %s...' % (data[:80], w[1].hex()[:80]))
                if any(int(x[1]) != w[2] for x in bufs):
                    raise Violation('frame buffers of sizes %s, want %d' % (sorted({x[1] for x in bufs}), w[2]))
                if any(len(x[0]) != 2 * w[2] for x in bufs[:-1]):
                    raise Violation('frame buffers before the last are not full')
            if w[0] in ('rstate', 'pstate'):
                lines = g.split('|')
                mine = sorted(int(x.rsplit(':', 1)[1]) for x in lines if x.startswith('____rb.c:' if w[0] == 'rstate' else '____pd.c:'))
                if mine != sorted(w[1]):
                    raise Violation('%s lists %r in use, want %r' % (w[0], mine, sorted(w[1])))
                n = {a: int(b) for a, b in re.findall(r'(nalloc_\w+|nfree_\w+):_(\d+)', g)}
                used = len([x for x in lines if x.startswith('____')])
                if w[0] == 'rstate' and (n['nalloc_chain'] - n['nfree_chain'] != used or n['nalloc_buf'] < n['nfree_buf'] or (not w[1] and used == 0 and n['nalloc_buf'] != n['nfree_buf'])):
                    raise Violation('buffer counters %r with %d in use' % (n, used))
                if w[0] == 'pstate' and n['nalloc_node'] - n['nfree_node'] != used:
                    raise Violation('pool counters %r with %d in use' % (n, used))
        return reused, labels


if __name__ == '__main__':
    main(C02)
