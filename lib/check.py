"""Property-check driver: Hypothesis generates, the property's own oracle decides, failures are
shrunk, replayed on a fresh environment and written to a replay file.

A check module defines a subclass of Prop and calls main(Prop).
"""
import hashlib, json, multiprocessing, os, pickle, random, shutil, signal, sys, time, traceback, base64, tempfile

import warnings
warnings.simplefilter("ignore")
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPLAYS = os.path.join(os.environ.get('PV_EVID', VERIF), 'replays')
EVID = os.path.join(os.environ.get('PV_EVID', VERIF), 'evidence')
KNOWN = os.path.join(VERIF, 'known_findings.txt')


class Violation(Exception):
    """the property is broken; key identifies a specific (possibly known) finding"""

    def __init__(self, msg, key=None):
        Exception.__init__(self, msg)
        self.key = key


class Inconclusive(Exception):
    """the environment failed (not the property)"""


def known_findings(pid):
    out = {}
    try:
        for l in open(KNOWN):
            l = l.strip()
            if l.startswith('finding:'):
                d = l.split(None, 3)
                kv = dict(x.split('=', 1) for x in d[1:3])
                if kv.get('property') == pid:
                    out[kv.get('key')] = d[3] if len(d) > 3 else ''
    except FileNotFoundError:
        pass
    return out


class Prop:
    id = None
    rule = ''
    level = 'exploration'
    assumptions = []
    workers = 8
    quick_cases = 400          # per worker
    thorough_cases = 4000
    quick_budget = 100.0       # seconds of generation (a bound, not a verdict)
    thorough_budget = 600.0
    shrink_budget = float(os.environ.get('PV_SHRINK', '30'))
    batch = 400                # cases per Hypothesis search
    restart_every = 0          # restart the environment after this many cases (0: never)
    patience = 10.0            # seconds to wait for something that must come (shorter while shrinking)
    variants = None            # optional list: worker k uses variants[k % len]

    def __init__(self, variant=None, widx=0):
        self.variant = variant
        self.widx = widx

    # --- to override
    def strategy(self):
        raise NotImplementedError

    def setup(self):
        pass

    def teardown(self):
        pass

    def run(self, case):
        """execute one case; raise Violation; return (nontrivial: bool, labels: iterable of str)"""
        raise NotImplementedError

    def show(self, case):
        return repr(case)[:600]

    def final(self):
        """called at the end of the run (environment still up); may raise Violation"""

    def extra_coverage(self):
        return {}


def _alarm(*a):
    raise Inconclusive('case watchdog')


class Runner:
    def __init__(self, prop, tier, seed, n, budget):
        self.p, self.tier, self.seed, self.n = prop, tier, seed, n
        self.evals = 0
        self.nontriv = set()
        self.labels = {}
        self.samples = []
        self.known_hits = {}
        self.history = []
        self.up = False
        self.best = None
        self.best_err = None
        self.best_hist = None
        self.t_fail = None
        self.incon = 0
        self.incon_msg = []
        self.end = time.monotonic() + budget
        self.known = known_findings(prop.id)
        self.counting = True
        self.vetoed = set()

    def ensure(self):
        if not self.up:
            self.p.setup()
            self.up = True
            self.history = []

    def down(self):
        if self.up:
            self.up = False
            try:
                self.p.teardown()
            except Exception:
                traceback.print_exc()

    def once(self, case):
        """run one case on the current environment; returns None or Violation"""
        for attempt in range(3):
            try:
                self.ensure()
                self.history.append(case)
                r = self.p.run(case)
                if self.counting:
                    self.evals += 1
                    nt, labels = r if r is not None else (True, ())
                    for l in labels:
                        self.labels[l] = self.labels.get(l, 0) + 1
                    if nt:
                        h = hashlib.sha1(pickle.dumps(case)).digest()[:10]
                        if h not in self.nontriv:
                            self.nontriv.add(h)
                            if len(self.samples) < 3 or (len(self.samples) < 5 and len(self.nontriv) % 37 == 0):
                                self.samples.append(self.p.show(case))
                if self.p.restart_every and len(self.history) >= self.p.restart_every:
                    self.down()
                return None
            except Violation as e:
                hist = list(self.history)
                self.down()
                if e.key is not None and e.key in self.known:
                    self.known_hits[e.key] = self.known_hits.get(e.key, 0) + 1
                    return None
                e.hist = hist
                return e
            except Inconclusive as e:
                self.incon += 1
                self.incon_msg.append(str(e)[:300])
                self.down()
        return None

    def search(self):
        import hypothesis
        from hypothesis import given, settings, HealthCheck, Phase, seed as hseed
        prop = self.p

        def test(case):
            now = time.monotonic()
            if self.t_fail is None:
                if now > self.end:
                    return
            elif now - self.t_fail > prop.shrink_budget:
                if pickle.dumps(case) != self.best_p:
                    return
                raise self.best_err
            cp = pickle.dumps(case)
            if self.t_fail is not None and cp == self.best_p:
                raise self.best_err
            v = self.once(case)
            if v is not None:
                if self.t_fail is None:
                    self.t_fail = time.monotonic()
                    self.first, self.first_hist = case, v.hist
                    self.counting = False
                    prop.patience = min(prop.patience, 2.5)
                self.best, self.best_err, self.best_hist, self.best_p = case, v, v.hist, cp
                raise v

        # in batches: Hypothesis remembers every case of one search
        left, bno = self.n, 0
        while left > 0 and self.best_err is None and time.monotonic() < self.end:
            t = given(prop.strategy())(test)
            t = settings(max_examples=min(left, prop.batch), database=None, deadline=None, report_multiple_bugs=False,
                         suppress_health_check=list(HealthCheck), phases=(Phase.generate, Phase.shrink),
                         print_blob=False)(t)
            t = hseed(self.seed + 7919 * bno)(t)
            left -= prop.batch
            bno += 1
            try:
                t()
            except Violation:
                pass
            except (hypothesis.errors.Flaky, hypothesis.errors.HypothesisException):
                if self.best_err is None:
                    raise
            except BaseExceptionGroup:
                if self.best_err is None:
                    raise
        if self.best_err is None and self.up:
            try:
                prop.final()
            except Violation as e:
                self.best_err, self.best, self.best_hist = e, None, list(self.history)
                self.first, self.first_hist = None, self.best_hist
        return self.confirm() if self.best_err is not None else None

    def replay_cases(self, cases):
        """fresh environment, run all; returns Violation or None"""
        self.down()
        self.counting = False
        v = None
        for c in cases:
            if c is None:
                continue
            v = self.once(c)
            if v is not None:
                break
        if v is None and self.up:
            try:
                self.p.final()
            except Violation as e:
                v = e
        self.down()
        return v

    def confirm(self):
        self.p.patience = type(self.p).patience
        cands = []
        if self.best is not None:
            cands.append([self.best])
        if self.first is not None and self.first is not self.best:
            cands.append([self.first])
        cands += [self.best_hist]
        if self.first_hist is not self.best_hist:
            cands.append(self.first_hist)
        t0 = time.monotonic()
        for cases in cands:
            errs = []
            for i in range(3):
                v = self.replay_cases(cases)
                if v is None:
                    if len(cases) == 1 or i - len(errs) >= 1:
                        break
                else:
                    errs.append(v)
            need = 3 if len(cases) == 1 else 2
            if len(errs) >= need:
                return {'cases': cases, 'error': str(errs[-1])}
            if time.monotonic() - t0 > 200:
                break
        # a schedule-dependent failure: the exact case may need repetition; accept when it recurs
        if self.best is not None:
            errs = []
            for i in range(40):
                v = self.replay_cases([self.best if i % 2 else self.first] * 3)
                if v is not None:
                    errs.append(v)
                    if len(errs) >= 3:
                        return {'cases': [self.best] * 3, 'error': str(errs[-1]) + ' (recurs, not on every run)'}
                if time.monotonic() - t0 > 280:
                    break
        self.incon += 1
        self.incon_msg.append('not reproducible: ' + str(self.best_err)[:600])
        return None


def _worker(cls, variant, k, tier, seed, n, budget, outp):
    try:
        random.seed(seed)
        p = cls(variant, k)
        r = Runner(p, tier, seed * 1000 + k, n, budget)
        try:
            fail = r.search()
            extra = p.extra_coverage()
        finally:
            r.down()
        res = {'evals': r.evals, 'nontriv': r.nontriv, 'labels': r.labels, 'samples': r.samples, 'known': r.known_hits,
               'fail': fail, 'incon': r.incon, 'incon_msg': r.incon_msg, 'extra': extra, 'variant': variant}
    except BaseException:
        res = {'error': traceback.format_exc()}
    with open(outp, 'wb') as f:
        pickle.dump(res, f)
    os._exit(0)


def main(cls):
    tier = os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1'))
    args = sys.argv[1:]
    for d in (REPLAYS, EVID):
        os.makedirs(d, exist_ok=True)
    from . import build
    cls.prebuild(cls) if hasattr(cls, 'prebuild') else None
    if args and args[0] == '--replay':
        data = pickle.load(open(args[1], 'rb'))
        p = cls(data['variant'], 0)
        v = None
        for _ in range(3):
            r = Runner(p, tier, seed, 1, 1e9)
            v = r.replay_cases(data['cases'])
            if v is not None:
                break
        if v is not None:
            print('VIOLATION property=%s replay=%s' % (cls.id, args[1]))
            print(str(v))
            sys.exit(1)
        print('replay: property held')
        sys.exit(0)
    t0 = time.time()
    n = cls.quick_cases if tier == 'quick' else cls.thorough_cases
    budget = cls.quick_budget if tier == 'quick' else cls.thorough_budget
    if os.environ.get('PV_CASES'):
        n = int(os.environ['PV_CASES'])
    variants = cls.variants or [None]
    tmp = tempfile.mkdtemp(prefix='pvres.', dir='/tmp')
    procs = []
    ctx = multiprocessing.get_context('fork')
    for k in range(cls.workers):
        outp = os.path.join(tmp, str(k))
        pr = ctx.Process(target=_worker, args=(cls, variants[k % len(variants)], k, tier, seed, n, budget, outp))
        pr.start()
        procs.append((pr, outp))
    deadline = time.time() + min(800, budget + cls.shrink_budget + 340)
    res = []
    errors = []
    for pr, outp in procs:
        pr.join(max(1, deadline - time.time()))
        if pr.is_alive():
            pr.terminate()
            errors.append('worker timed out')
            continue
        try:
            r = pickle.load(open(outp, 'rb'))
        except Exception as e:
            errors.append('no result: %r' % e)
            continue
        if 'error' in r:
            errors.append(r['error'])
        else:
            res.append(r)
    shutil.rmtree(tmp, ignore_errors=True)
    nontriv = set()
    labels, extra, known = {}, {}, {}
    for r in res:
        nontriv |= r['nontriv']
        for k, v in r['labels'].items():
            labels[k] = labels.get(k, 0) + v
        for k, v in r['known'].items():
            known[k] = known.get(k, 0) + v
        for k, v in r['extra'].items():
            extra[k] = extra.get(k, 0) + v
    evals = sum(r['evals'] for r in res)
    fails = [r for r in res if r['fail']]
    samples = [s for r in res for s in r['samples']][:6]
    incon = sum(r['incon'] for r in res)
    ev = {'property': cls.id, 'tier': tier, 'seed': seed, 'level': cls.level,
          'coverage': dict({'evaluations': evals, 'distinct_nontrivial': len(nontriv), 'rule': cls.rule,
                            'samples': samples, 'classes': labels, 'inconclusive_runs': incon,
                            'known_finding_hits': known}, **extra),
          'assumptions': list(cls.assumptions), 'wall_s': round(time.time() - t0, 2), 'violations': len(fails)}
    with open(os.path.join(EVID, cls.id + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)
    for k, d in known_findings(cls.id).items():
        print('KNOWN-FINDING: property=%s %s' % (cls.id, d))
    print('%s: %d cases, %d distinct non-trivial, %d inconclusive, %.1fs, classes %s' % (
        cls.id, evals, len(nontriv), incon, time.time() - t0, dict(sorted(labels.items()))))
    for r in res:
        for m in r['incon_msg'][:3]:
            print('inconclusive:', m)
    if fails:
        f = min(fails, key=lambda r: (len(r['fail']['cases']), len(pickle.dumps(r['fail']['cases']))))
        blob = pickle.dumps({'property': cls.id, 'variant': f['variant'], 'cases': f['fail']['cases']})
        path = os.path.join(REPLAYS, '%s-%s.replay' % (cls.id, hashlib.sha1(blob).hexdigest()[:10]))
        with open(path, 'wb') as fh:
            fh.write(blob)
        with open(path + '.txt', 'w') as fh:
            fh.write('property %s\n%s\nvariant %r\n%r\n' % (cls.id, f['fail']['error'], f['variant'], f['fail']['cases']))
        print('VIOLATION property=%s replay=%s' % (cls.id, path))
        print(f['fail']['error'][:3000])
        for r in fails:
            if r is not f:
                print('also (variant %r): %s' % (r['variant'], r['fail']['error'][:1500]))
                if os.environ.get('PV_ALL'):
                    print('   case %r' % (r['fail']['cases'],))
        sys.exit(1)
    for e in errors:
        print('ERROR:', e)
    if evals == 0:
        sys.exit(3)
    sys.exit(0)
