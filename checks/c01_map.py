"""C01: the ordered key map against a sorted-dictionary model."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from hypothesis import strategies as st
from lib import harness
from lib.check import Prop, Violation, main

U64 = 1 << 64


def hstr(b):
    h = 0
    for c in b:
        h = (h * 31 + c) % U64
    return h


def collide(b):
    """strings of equal hash: 'Aa' and 'BB' swapped in"""
    return b.replace(b'Aa', b'BB')


skey = st.one_of(st.binary(max_size=4), st.lists(st.sampled_from([b'Aa', b'BB', b'C#', b'x']), max_size=5).map(b''.join),
                 st.sampled_from([b'', b'\0', b'\0\0', b'live', b'live/s', b'\xff' * 9]))
ikey = st.one_of(st.integers(0, 40), st.integers(-20, 20), st.sampled_from([-1, -(1 << 63), (1 << 63) - 1, 1 << 32, (1 << 32) + 1, -(1 << 32)]), st.integers(-(1 << 63), (1 << 63) - 1))
op = st.one_of(
    st.tuples(st.sampled_from('IIIICDDFNP'), st.just(0), skey),
    st.tuples(st.sampled_from('IIIICDDFNP'), st.sampled_from([1, 2]), ikey),
    st.tuples(st.sampled_from('BRE'), st.sampled_from([0, 1, 2]), st.none()))
runs = st.builds(lambda start, n, step, m, fst, dels: [('I', m, start + i * step) for i in (range(n) if fst else reversed(range(n)))] + [('D', m, start + (d % n) * step) for d in dels] + [('B', m, None), ('R', m, None)],
                 st.integers(-50, 50), st.integers(1, 60), st.sampled_from([1, 3, -1]), st.sampled_from([1, 2]), st.booleans(), st.lists(st.integers(0, 59), max_size=30))


class C01(Prop):
    id = 'C01'
    rule = ('a case is up to ~400 operations (insert keeping or replacing, delete, find, next, previous, whole iteration forwards and backwards, emptiness) on three maps (string keys incl. '
            'colliding hashes, unsigned, signed). Non-trivial: some map held at least 4 keys and something was deleted or replaced')
    quick_cases = 4000
    thorough_cases = 40000
    quick_budget = 60

    def prebuild(cls):
        cls.exe = harness.make('map')

    def setup(self):
        self.p = harness.Proc(self.exe)

    def teardown(self):
        self.p.stop()

    def strategy(self):
        return st.lists(st.one_of(op.map(lambda o: [o]), op.map(lambda o: [o]), op.map(lambda o: [o]), runs), max_size=60).map(lambda l: [o for x in l for o in x])

    def run(self, case):
        words, want = [], []
        model = [{}, {}, {}]
        labels, nt, changed = set(), False, False

        def order(k):
            if k == 0:
                return sorted(model[0], key=lambda b: (hstr(b), b))
            if k == 1:
                return sorted(model[1], key=lambda v: v % U64)
            return sorted(model[2], key=lambda v: v % U64)
        for i, (o, k, key) in enumerate(case + [(o, k, None) for k in range(3) for o in 'BRE']):
            m = model[k]
            if o in 'BRE':
                words.append('%s %d' % (o, k))
                if o == 'E':
                    want.append('%d' % (not m))
                else:
                    ks = order(k)
                    want.append(''.join('%d,' % m[x] for x in (ks if o == 'B' else reversed(ks))))
                continue
            if k == 1:
                key %= U64
            ks = (key.hex() or '-') if k == 0 else '%d' % (key % U64)
            words.append('%s %d %s%s' % (o, k, ks, ' %d' % i if o in 'IC' else ''))
            if o == 'I':
                if key in m:
                    labels.add('duplicate insert')
                m.setdefault(key, i)
            elif o == 'C':
                changed = changed or key in m
                m[key] = i
            elif o == 'D':
                changed = changed or key in m
                m.pop(key, None)
            elif o == 'F':
                want.append('%d' % m.get(key, -1))
            else:
                if key not in m:
                    want.append('-2')
                else:
                    l = order(k)
                    j = l.index(key) + (1 if o == 'N' else -1)
                    want.append('%d' % (m[l[j]] if 0 <= j < len(l) else -1))
            nt = nt or len(m) >= 4
            if len(m) >= 20:
                labels.add('20 or more keys')
        try:
            got = self.p.ask(' '.join(words)).rstrip(' ').split(' ')
        except harness.Died as e:
            raise Violation('map: %s' % e)
        # empty iterations print as empty words
        if got != want:
            for j, (a, b) in enumerate(zip(got + [None], want + [None])):
                if a != b:
                    raise Violation('answer %d of %r: got %r, want %r (node ids in map order)' % (j, words[-40:], a, b))
        return nt and changed, labels


if __name__ == '__main__':
    main(C01)
