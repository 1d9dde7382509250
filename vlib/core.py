"""Harness core: seeded cases run in worker processes, observed by monitors.

A check is a module checks/<ID>.py with
    RULE       how cases are made and what makes one non-trivial (evidence)
    N          {'quick': n, 'thorough': n}  number of cases
    case(ctx, rng)   one case: drives the real peak code, reports through ctx
and optionally
    finish(agg)      offline judgement over the pooled observations
Every random choice of a case derives from (VERIF_SEED, ID, index), so a
violation is replayed by its index alone.
"""
import collections, hashlib, importlib, json, multiprocessing, os, random, shutil
import signal, sys, tempfile, time, traceback

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class Violation(Exception):
    pass


class Skip(Exception):
    """The generated case is outside the property's domain (counted, never judged)."""


class Ctx:
    """What a case reports to: observations, checks and violations."""
    def __init__(self, pid, index, tier, scratch):
        self.pid, self.index, self.tier, self.scratch = pid, index, tier, scratch
        self.counts = collections.Counter()
        self.keys = set()
        self.samples = []
        self.trail = []
        self.obs = []

    def event(self, kind, n=1):
        self.counts[kind] += n

    def seen(self, *key):
        """A distinct non-trivial thing observed (hashed, counted over the run)."""
        self.keys.add(hashlib.blake2b(repr(key).encode(), digest_size=8).digest())

    def sample(self, obj):
        if len(self.samples) < 2:
            self.samples.append(str(obj)[:600])

    def note(self, msg):
        self.trail.append(str(msg)[:4000])

    def ok(self, cond, msg, *details):
        self.counts['checks'] += 1
        if not cond:
            raise Violation(msg + ''.join('\n    ' + str(d)[:3000] for d in details))

    def eq(self, got, want, msg, *details):
        self.counts['checks'] += 1
        if not (got == want):
            raise Violation(f'{msg}: got {got!r}, expected {want!r}'[:3000] + ''.join('\n    ' + str(d)[:3000] for d in details))

    def raises(self, f, msg, *details, exc=Exception):
        self.counts['checks'] += 1
        self.counts['rejections'] += 1
        try:
            r = f()
        except exc:
            return
        except Exception as e:
            raise Violation(f'{msg}: rejected with {type(e).__name__}: {e}' + ''.join('\n    ' + str(d)[:2000] for d in details))
        raise Violation(f'{msg}: not rejected (got {r!r})'[:2000] + ''.join('\n    ' + str(d)[:2000] for d in details))


def case_rng(pid, seed, index):
    h = hashlib.blake2b(f'{pid}/{seed}/{index}'.encode(), digest_size=8).digest()
    return random.Random(int.from_bytes(h, 'big'))


class CaseTimeout(Exception):
    pass


def _alarm(sig, frame):
    raise CaseTimeout()


def run_case(mod, pid, seed, index, tier, scratch, limit):
    ctx = Ctx(pid, index, tier, scratch)
    rng = case_rng(pid, seed, index)
    random.seed(rng.getrandbits(64))
    status, msg = 'ok', ''
    t0 = time.time()
    old = signal.signal(signal.SIGALRM, _alarm)
    signal.setitimer(signal.ITIMER_REAL, limit)
    try:
        mod.case(ctx, rng)
    except Skip as e:
        status, msg = 'skip', str(e)
    except CaseTimeout:
        status, msg = 'timeout', f'case exceeded {limit} s'
    except Violation as e:
        status, msg = 'violation', str(e)
    except Exception:
        # the library failed on an input inside the property's domain
        status, msg = 'violation', 'unexpected exception\n' + traceback.format_exc()[-6000:]
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.signal(signal.SIGALRM, old)
    return dict(index=index, status=status, msg=msg, counts=ctx.counts, keys=ctx.keys,
                samples=ctx.samples, trail=ctx.trail, obs=ctx.obs, t=time.time() - t0)


def _setup_process(scratch):
    os.makedirs(scratch, exist_ok=True)
    os.chdir(scratch)
    sys.path.insert(0, scratch)
    import warnings
    warnings.simplefilter('ignore')
    import logging
    logging.disable(logging.CRITICAL)


def _worker(pid, seed, tier, wid, indices, scratch, out, deadline, limit, quiet):
    try:
        _setup_process(scratch)
        if quiet:
            fd = os.open(os.path.join(scratch, 'stdout.txt'), os.O_CREAT | os.O_WRONLY | os.O_APPEND)
            os.dup2(fd, 1); os.dup2(fd, 2)
        mod = importlib.import_module(f'checks.{pid}')
        if hasattr(mod, 'setup'):
            mod.setup(scratch)
        for i in indices:
            if time.time() > deadline:
                out.put(dict(index=i, status='unrun', msg='', counts={}, keys=set(), samples=[], trail=[], obs=[], t=0))
                continue
            out.put(('start', wid, i))
            out.put(run_case(mod, pid, seed, i, tier, scratch, limit))
        out.put(('end', wid, None))
    except BaseException:
        out.put(dict(index=-1, status='error', msg=traceback.format_exc(), counts={}, keys=set(), samples=[], trail=[], obs=[], t=0))
        out.put(('end', wid, None))
    # flush before the process ends
    out.close()
    out.join_thread()


def known_findings():
    """(property, text) of the findings recorded in known_findings.txt; 'fixed:' lines suppress nothing."""
    res = []
    p = os.path.join(ROOT, 'known_findings.txt')
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line.startswith('finding: property='):
                rest = line[len('finding: property='):]
                pid, _, text = rest.partition(' ')
                key, _, text = text.partition(' ')
                res.append((pid, key, text))
    return res


def main(pid, argv):
    tier = os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1'))
    replay = None
    jobs = min(8, os.cpu_count() or 4)
    quiet = True
    ncases = None
    it = iter(argv)
    for a in it:
        if a == '--replay':
            replay = json.load(open(next(it)))
            seed, tier = replay['seed'], replay['tier']
        elif a == '--case':
            replay = dict(index=int(next(it)))
        elif a == '--tier':
            tier = next(it)
        elif a == '--seed':
            seed = int(next(it))
        elif a == '-n':
            ncases = int(next(it))
        elif a == '-j':
            jobs = int(next(it))
        elif a == '-v':
            quiet = False
    t0 = time.time()
    sys.path.insert(0, ROOT)
    base = os.path.join(tempfile.gettempdir(), f'verif-{pid}-{os.getpid()}')
    os.makedirs(base)
    try:
        return _main(pid, tier, seed, replay, jobs, quiet, ncases, base, t0)
    finally:
        os.chdir('/')
        shutil.rmtree(base, ignore_errors=True)


def _main(pid, tier, seed, replay, jobs, quiet, ncases, base, t0):
    os.environ['VERIF_BASE'] = base
    mod = importlib.import_module(f'checks.{pid}')
    if replay is not None:
        _setup_process(os.path.join(base, 'w0'))
        if hasattr(mod, 'setup'):
            mod.setup(os.path.join(base, 'w0'))
        n0 = max(replay['index'] - replay.get('history', 0) * replay.get('stride', 1), 0)
        idx = range(replay['index'] % replay.get('stride', 1), replay['index'] + 1, replay.get('stride', 1)) if replay.get('history') else [replay['index']]
        for i in idx:
            r = run_case(mod, pid, seed, i, tier, os.path.join(base, 'w0'), 3600)
        print(r['status'], r['msg'])
        for t in r['trail']:
            print(t)
        print(dict(r['counts']))
        if hasattr(mod, 'finish') and r['status'] == 'ok':
            for f in mod.finish([r]):
                print('finish:', f)
        return 1 if r['status'] == 'violation' else 0
    n = ncases or mod.N[tier]
    budget = getattr(mod, 'BUDGET', {}).get(tier, 300 if tier == 'quick' else 1500)
    limit = getattr(mod, 'LIMIT', {}).get(tier, 120)
    deadline = t0 + budget
    ctxm = multiprocessing.get_context('fork' if getattr(mod, 'FORK', False) else 'spawn')
    jobs = min(jobs, n)
    workers = {}

    class W:
        pass

    def start(wid, indices, gen=0):
        # a queue of its own: one that dies while writing takes no other with it
        w = W()
        w.id, w.rest, w.cur, w.since, w.gen, w.q = wid, list(indices), None, time.time(), gen, ctxm.Queue()
        w.p = ctxm.Process(target=_worker, args=(pid, seed, tier, wid, w.rest, os.path.join(base, f'w{wid}_{gen}'), w.q, deadline, limit, quiet))
        w.p.start()
        workers[wid] = w

    for i in range(jobs):
        start(i, range(i, n, jobs))
    results, lost = [], []
    hard = deadline + limit + 60
    first = None

    def handle(w, m):
        if isinstance(m, tuple):
            kind, _, i = m
            if kind == 'end':
                w.p.join(20)
                workers.pop(w.id, None)
                return 'end'
            w.cur, w.since = i, time.time()
            return
        results.append(m)
        if m['index'] in w.rest:
            w.rest.remove(m['index'])
        w.cur = None

    def drain(w):
        while True:
            try:
                m = w.q.get_nowait()
            except Exception:
                return
            if handle(w, m) == 'end':
                return 'end'

    while workers:
        idle = True
        for w in list(workers.values()):
            alive = w.p.is_alive()
            before = len(results)
            if drain(w) == 'end':
                idle = False
                continue
            idle = idle and len(results) == before
            stuck = alive and w.cur is not None and time.time() - w.since > limit + 30
            if stuck or (not alive and len(results) == before):
                if not stuck:
                    time.sleep(0.5)
                    if drain(w) == 'end':
                        continue
                # the process was lost on a case (a solver or compiler crash, out of memory): go on after it
                w.p.kill()
                w.p.join(10)
                i = w.cur if w.cur is not None else (w.rest[0] if w.rest else None)
                lost.append(i)
                results.append(dict(index=i, status='lost', msg='stuck' if stuck else f'exit code {w.p.exitcode}', counts={}, keys=set(), samples=[], trail=[], obs=[], t=0))
                if i in w.rest:
                    w.rest.remove(i)
                workers.pop(w.id)
                if w.rest and len(lost) < 40:
                    start(w.id, w.rest, w.gen + 1)
        if first is None and any(r['status'] == 'violation' for r in results):
            first = time.time()
            # enough: let others go on for a moment to gather more, then stop
            hard = min(hard, time.time() + float(os.environ.get("VERIF_GRACE", "20")))
        if time.time() > hard:
            break
        if idle:
            time.sleep(0.1)
    unfinished = bool(workers)
    for w in workers.values():
        if w.p.is_alive():
            w.p.terminate()
    for w in workers.values():
        w.p.join(10)
        if w.p.is_alive():
            w.p.kill()
    done = [r for r in results if r['status'] in ('ok', 'violation')]
    errors = [r for r in results if r['status'] == 'error']
    if first is None and unfinished and len(done) < n // 2:
        errors.append(dict(msg=f'workers ended early: {len(results)} of {n} cases reported'))
    if len(lost) > max(4, n // 20):
        errors.append(dict(msg=f'{len(lost)} cases lost with their process: {[r["msg"] for r in results if r["status"] == "lost"][:5]}'))
    viol = [(r['index'], r['msg'], r['trail']) for r in results if r['status'] == 'violation']
    extra = {}
    if hasattr(mod, 'finish') and not errors and not viol:
        for item in mod.finish(done):
            if isinstance(item, dict):
                extra.update(item)
            else:
                viol.append((item[0], item[1], []))
    known = known_findings()
    fresh, listed = [], []
    for v in viol:
        hit = [k for k in known if k[0] == pid and k[1] in v[1]]
        (listed if hit else fresh).append((v, hit))
    counts = collections.Counter()
    keys = set()
    for r in results:
        counts.update(r['counts'])
        keys |= r['keys']
    stat = collections.Counter(r['status'] for r in results)
    samples = [s for r in results for s in r['samples']][:6]
    cov = dict(evaluations=int(counts['checks']), distinct_nontrivial=len(keys), rule=mod.RULE,
               samples=samples or ['none'], cases=len(done), cases_planned=n,
               case_status=dict(stat), not_judged=[(r['index'], r['status'], r['msg'][:200]) for r in results if r['status'] in ('lost', 'timeout')][:20], observed={k: int(v) for k, v in sorted(counts.items())}, **extra)
    ev = dict(property=pid, tier=tier, seed=seed, level='exploration', coverage=cov,
              assumptions=getattr(mod, 'ASSUMPTIONS', []), wall_s=round(time.time() - t0, 1), violations=len(fresh))
    os.makedirs(os.path.join(ROOT, 'evidence'), exist_ok=True)
    with open(os.path.join(ROOT, 'evidence', f'{pid}.json'), 'w') as f:
        json.dump(ev, f, indent=1)
        f.write('\n')
    for (v, hit) in listed:
        print(f'KNOWN-FINDING: property={pid} {hit[0][2]}')
    print(f'{pid} {tier} seed={seed}: cases {len(done)}/{n} {dict(stat)} checks={counts["checks"]} distinct={len(keys)} wall={time.time()-t0:.1f}s')
    if errors:
        for e in errors[:3]:
            print('ERROR', e['msg'])
        if not fresh:
            return 2
    if fresh:
        rdir = os.path.join(ROOT, 'replays')
        os.makedirs(rdir, exist_ok=True)
        (i, msg, trail), _ = fresh[0]
        path = os.path.join('replays', f'{pid}-{seed}-{i}.json')
        json.dump(dict(property=pid, seed=seed, tier=tier, index=i, history=i // jobs, stride=jobs, message=msg, trail=trail,
                       how=f'bash run.sh {pid} --replay {path}'), open(os.path.join(ROOT, path), 'w'), indent=1)
        for (v, _) in fresh[:3]:
            print(f'  case {v[0]}: {v[1][:1500]}')
            for t in v[2][:3]:
                print('   |', t[:1500].replace('\n', '\n   | '))
        print(f'VIOLATION property={pid} replay={path}')
        return 1
    if not done:
        print('ERROR no case ran')
        return 2
    return 0
