"""C03: timers against a simulated queue."""
import os, re, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from hypothesis import strategies as st
from lib import harness
from lib.check import Prop, Violation, main

H = 12
LAZY = 300
ms = st.one_of(st.sampled_from([0, 1, 10, 299, 300, 301, 1000, 5000]), st.integers(0, 3000))
h = st.integers(0, H - 1)
act = st.tuples(st.sampled_from('aadAAD'), h, ms)
op = st.one_of(
    st.tuples(st.just('a'), h, ms), st.tuples(st.just('a'), h, ms), st.tuples(st.just('A'), h, ms), st.tuples(st.just('A'), h, ms), st.tuples(st.just('d'), h, ms), st.tuples(st.just('D'), h, ms),
    st.tuples(st.just('m'), ms, ms), st.tuples(st.just('m'), ms, ms),
    st.tuples(st.just('k'), st.tuples(st.integers(0, 1), h), st.lists(act, max_size=3)), st.tuples(st.just('k'), st.tuples(st.integers(0, 1), h), st.lists(act, max_size=3)),
    st.tuples(st.just('X'), h, ms) | st.tuples(st.just('m'), ms, ms))


class Model:
    def __init__(self, n):
        self.now = 0
        self.q = []                 # [due, seq, kind, h]
        self.seq = 0
        self.free = n
        self.script = [{i: [] for i in range(H)} for _ in (0, 1)]
        self.fp, self.owner = {i: 0 for i in range(H)}, {}
        self.stale = set()
        self.out = []
        self.fires = 0
        self.labels = set()

    def pending(self, kind, i):
        for e in self.q:
            if e[2] == kind and e[3] == i:
                return e

    def add(self, kind, i, t):
        self.seq += 1
        self.q.append([self.now + t, self.seq, kind, i])

    def can(self, o, i):
        """is this legal use of the interface in the current state"""
        if o == 'a':
            return self.pending(0, i) is None
        if o == 'd':
            return self.pending(0, i) is not None
        return i not in self.stale

    def do(self, o, i, t):
        if o == 'a':
            if self.free == 0:
                self.out.append('0')
                self.labels.add('all timers used')
                return
            self.free -= 1
            self.add(0, i, t)
            self.out.append('1')
        elif o == 'd':
            self.q.remove(self.pending(0, i))
            self.free += 1
            self.out.append('0')
            self.labels.add('deleted')
        elif o == 'A':
            e = self.pending(1, i)
            if e is None:
                self.add(1, i, t)
                self.owner[i] = self.fp[i]
                self.out.append('0:1')
            elif self.owner[i] != self.fp[i]:
                self.out.append('1:1')
                self.labels.add('add by another owner')
            else:
                if abs(self.now + t - e[0]) >= LAZY:
                    self.q.remove(e)
                    self.add(1, i, t)
                self.out.append('0:1')
                self.labels.add('moved')
        elif o == 'D':
            e = self.pending(1, i)
            if e is None:
                self.out.append('1:0')
                self.labels.add('deleted twice')
            elif self.owner[i] != self.fp[i]:
                self.out.append('1:1')
                self.labels.add('deleted by another owner')
            else:
                self.q.remove(e)
                self.out.append('0:0')
                self.labels.add('deleted')

    def advance(self, t, illegal):
        self.now += t
        em = 0
        while True:
            l = [e for e in self.q if e[0] <= self.now]
            if not l:
                break
            e = min(l)
            self.q.remove(e)
            k, i = e[2], e[3]
            if k == 1 and self.owner[i] != self.fp[i]:
                em += 1
                self.stale.add(i)
                self.labels.add('fired after its owner changed')
                continue
            self.fires += 1
            self.out.append('f%d@%d' % (i, self.now) if k == 0 else 'F%d@%d:01' % (i, self.now))
            if self.script[k][i]:
                for a in self.script[k][i].pop(0):
                    n = len(self.out)
                    before = self.emerg(a)
                    self.do(*a)
                    em += before
                self.labels.add('handler used timers')
            if k == 0:
                self.free += 1
        return em

    def emerg(self, a):
        o, i, t = a
        if o == 'A':
            return int(self.pending(1, i) is not None and self.owner[i] != self.fp[i])
        if o == 'D':
            return int(self.pending(1, i) is None or self.owner[i] != self.fp[i])
        return 0


class Illegal(Exception):
    pass


class C03(Prop):
    id = 'C03'
    rule = ('a case is up to 80 operations on 12 timers of each of the two interfaces (add, re-add while pending, delete, change of owner) and clock steps, with handlers that add and delete timers '
            'themselves, and 1 to 14 available timers. Non-trivial: at least 4 timers fired')
    quick_cases = 2500
    thorough_cases = 40000
    quick_budget = 60

    def prebuild(cls):
        cls.exe = harness.make('timer')

    def setup(self):
        self.p = harness.Proc(self.exe)
        self.base = 1000000

    def teardown(self):
        self.p.stop()

    restart_every = 400

    def strategy(self):
        return st.tuples(st.integers(1, 14), st.lists(op, min_size=10, max_size=80))

    def run(self, case):
        n, ops = case
        # a handler's script has to be legal when it runs, so the case is simulated first and scripts that are not are dropped
        drop = set()
        while True:
            m = Model(n)
            words = []
            want = []
            orig_do = m.do

            def checked(o, i, t):
                if not m.can(o, i):
                    raise Illegal
                orig_do(o, i, t)
            m.do = checked
            bad = None
            count = [{i: 0 for i in range(H)} for _ in (0, 1)]
            for j, (o, a, b) in enumerate(ops):
                if j in drop:
                    continue
                try:
                    if o in 'adAD':
                        if not m.can(o, a):
                            continue
                        m.do(o, a, b)
                        words.append('%s %d %d' % (o, a, b) if o in 'aA' else '%s %d' % (o, a))
                    elif o == 'm':
                        em = m.advance(a, None)
                        m.out.append('|%d' % em)
                        words.append('m %d' % a)
                    elif o == 'X':
                        m.fp[a] += 1
                        words.append('X %d' % a)
                    elif o == 'k':
                        k, i = a
                        if count[k][i] + max(1, len(b)) > 15:
                            continue
                        count[k][i] += max(1, len(b))
                        m.script[k][i].append(b)
                        m.last_script = j
                        if not b:
                            words.append('k %d %d . 0 0 1' % (k, i))
                        for q, (oo, ii, tt) in enumerate(b):
                            words.append('k %d %d %s %d %d %d' % (k, i, oo, ii, tt, q == len(b) - 1))
                except Illegal:
                    bad = j
                    break
            if bad is None:
                try:
                    while True:
                        em = m.advance(100000, None)
                        m.out.append('|%d' % em)
                        words.append('m 100000')
                        if not m.q:
                            break
                except Illegal:
                    bad = len(ops)
            if bad is None:
                break
            # drop every script up to there (keeps the search for a legal case short)
            ks = [j for j, x in enumerate(ops[:bad]) if x[0] == 'k' and j not in drop]
            drop.add(ks[-1])
        # timers whose owner changed are still registered; everything else is gone
        words.append('S s T')
        try:
            got = self.p.ask('%d %s' % (n, ' '.join(words))).split()
        except harness.Died as e:
            raise Violation('timers: %s' % e)
        base = self.base
        self.base += int(got[-1])
        want = [re.sub(r'@(\d+)', lambda x: '@%d' % (int(x.group(1)) + base), x) for x in m.out]
        g = got[1:-4]
        if g != want:
            for j, (a, b) in enumerate(zip(g + [None], want + [None])):
                if a != b:
                    raise Violation('event %d: got %s, want %s (all: %s)' % (j, a, b, ' '.join(want[max(0, j - 6):j + 3])))
        S, s, T = got[-4:-1]
        if 'alloc:_%d|' % n not in S or 'free:_%d|' % n not in S:
            raise Violation('after all timers fired the state is %s, want %d free' % (S, n))
        left = sum(1 for x in s.split('|') if x.startswith('____td.c'))
        if left > len(m.stale) + getattr(self, 'stale', 0):
            raise Violation('%d timers still registered after all fired' % left)
        self.stale = getattr(self, 'stale', 0) + len(m.stale)
        if T != '-1':
            raise Violation('a timer is still pending (due in %s ms) after all must have fired' % T)
        return m.fires >= 4, m.labels


if __name__ == '__main__':
    main(C03)
