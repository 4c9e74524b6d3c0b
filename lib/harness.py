"""Runs one check: generates the workload units, executes them in forked workers against the real
library, collects what the monitors observed and reports the three-valued verdict.

exit 0  held on everything observed        exit 1  VIOLATION line printed
exit 2  inconclusive (monitors saw too little, a worker died, the watchdog fired)"""
import hashlib
import importlib
import json
import multiprocessing as mp
import os
import pickle
import random
import resource
import signal
import sys
import time
import traceback

import expr
import target

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
EVID = os.environ.get('VP_EVID') or os.path.join(HERE, 'evidence')
CPU_BUDGET = 60.0          # CPU seconds one library call may take (typical: milliseconds)
MEM = 6 << 30
WALL = {'quick': 840, 'thorough': 3000}


class Overrun(BaseException):
    """the CPU budget of one library call ran out"""


class Stop(BaseException):
    """enough violations seen"""


def _overrun(*_):
    raise Overrun()


class Ctx:
    """what a workload unit uses: randomness, bookkeeping of observations, verdicts"""

    def __init__(self, pid, tier, seed):
        self.pid, self.tier, self.seed = pid, tier, seed
        self.counts = {}
        self.distinct = set()
        self.evaluations = 0
        self.samples = []
        self.violations = []
        self.unit = None
        self.rng = random.Random(seed)
        self.quick = tier == 'quick'
        self.max_viol = 3

    def note(self, name, n=1):
        self.counts[name] = self.counts.get(name, 0) + n

    def seen(self, key, nontrivial=True, sample=None):
        """one judged observation; key identifies it"""
        self.evaluations += 1
        if nontrivial:
            self.distinct.add(int.from_bytes(hashlib.blake2b(repr(key).encode(), digest_size=8).digest(), 'big'))
        if sample is not None and len(self.samples) < 4 and self.rng.random() < 0.05:
            self.samples.append(str(sample)[:400])

    def fail(self, what, **detail):
        self.violations.append({'property': self.pid, 'what': str(what)[:2000], 'unit': self.unit,
                                'seed': self.seed, 'tier': self.tier,
                                'detail': {k: str(v)[:2000] for k, v in detail.items()}})
        if len(self.violations) >= self.max_viol:
            raise Stop()

    def check(self, cond, what, **detail):
        if not cond:
            self.fail(what, **detail)
        return cond

    def call(self, what, fn, *a, **kw):
        """run one in-domain library call: an exception or an exhausted budget is a violation.
        Returns (ok, value)."""
        try:
            signal.setitimer(signal.ITIMER_VIRTUAL, CPU_BUDGET)
            try:
                r = fn(*a, **kw)
            finally:
                signal.setitimer(signal.ITIMER_VIRTUAL, 0)
            return True, r
        except Overrun:
            self.fail('%s did not finish within %d s of CPU time' % (what, CPU_BUDGET))
        except Stop:
            raise
        except MemoryError:
            self.fail('%s exhausted %d GB of memory' % (what, MEM >> 30))
        except Exception as e:
            self.fail('%s raised %s: %s' % (what, type(e).__name__, str(e)[:300]),
                      traceback=traceback.format_exc()[-1500:])
        return False, None


def _unit_rng(pid, seed, unit):
    return random.Random(hashlib.blake2b(repr((pid, seed, unit)).encode()).hexdigest())


def run_unit(mod, ctx, unit):
    ctx.unit = repr(unit)
    ctx.rng = _unit_rng(ctx.pid, ctx.seed, unit)
    getattr(mod, unit[0])(ctx, *unit[1:])


def misshapen(e):
    """the judge tripped over a value that is not of the kind the operation returns (None for a list, a number for a class, ...);
    a name that a module no longer has is not that: it says nothing about results"""
    if isinstance(e, AttributeError) and (e.obj is None or isinstance(e.obj, (int, float, str, list, tuple, dict, set))):
        return True
    return isinstance(e, (TypeError, IndexError, KeyError, ValueError)) and not isinstance(e, (json.JSONDecodeError, UnicodeError))


def _worker(mod, pid, tier, seed, units, nxt, stop, out, current, wid, deadline):
    signal.signal(signal.SIGVTALRM, _overrun)
    if not getattr(mod, 'NO_MEM_LIMIT', False):
        resource.setrlimit(resource.RLIMIT_AS, (MEM, MEM))
    sys.setrecursionlimit(1000)
    ctx = Ctx(pid, tier, seed)
    err = None
    done = 0
    try:
        while not stop.value:
            if time.time() > deadline:
                ctx.note('units_skipped_at_deadline')
                break
            with nxt.get_lock():
                i = nxt.value
                nxt.value += 1
            if i >= len(units):
                break
            current[wid] = i
            t0 = time.time()
            run_unit(mod, ctx, units[i])
            if 'VP_TIMES' in os.environ and time.time() - t0 > float(os.environ['VP_TIMES']):
                print('  %.1f s %r' % (time.time() - t0, units[i]), flush=True)
            done += 1
            current[wid] = -1
    except Stop:
        stop.value = 1
    except BaseException as e:
        tb = traceback.format_exc()
        if isinstance(e, expr.Unreadable):
            # the library printed something that is not in the documented notation
            try:
                ctx.fail('unreadable result: %s' % e, traceback=tb[-1500:])
            except Stop:
                pass
        elif isinstance(e, Exception) and any(f.filename.startswith(target.REPO + os.sep)
                                            for f in traceback.extract_tb(e.__traceback__)):
            # an in-domain call outside ctx.call raised inside the library
            try:
                ctx.fail('library call raised %s: %s' % (type(e).__name__, str(e)[:300]), traceback=tb[-1500:])
            except Stop:
                pass
        elif misshapen(e):
            try:
                ctx.fail('a result has an unexpected form: %s: %s' % (type(e).__name__, str(e)[:300]), traceback=tb[-1500:])
            except Stop:
                pass
        else:
            err = 'unit %s: %s' % (ctx.unit, tb[-3000:])
    if ctx.violations:
        stop.value = 1
    out.send((ctx.counts, ctx.distinct, ctx.evaluations, ctx.samples, ctx.violations, done, err))
    out.close()
    sys.stdout.flush()
    os._exit(0)


def execute(mod, pid, tier, seed, units, nworkers):
    ctxm = mp.get_context('fork')
    nxt = ctxm.Value('i', 0)
    stop = ctxm.Value('i', 0)
    current = ctxm.Array('i', [-1] * nworkers)
    # quick: soft limit after which no new unit is started (never a verdict by itself)
    soft = time.time() + getattr(mod, 'SOFT', {}).get(tier, 540 if tier == 'quick' else 1800)
    procs = []
    sys.stdout.flush()
    for w in range(nworkers):
        a, b = ctxm.Pipe(False)
        p = ctxm.Process(target=_worker, args=(mod, pid, tier, seed, units, nxt, stop, b, current, w, soft))
        p.start()
        b.close()
        procs.append((p, a))
    res, trouble = [], []
    end = time.time() + WALL[tier]
    for w, (p, a) in enumerate(procs):
        try:
            if a.poll(max(0.1, end - time.time())):
                res.append(a.recv())
            else:
                trouble.append('watchdog: worker %d still in unit %s after %d s' % (w, _u(units, current[w]), WALL[tier]))
        except (EOFError, OSError, pickle.UnpicklingError):
            trouble.append('worker %d died in unit %s' % (w, _u(units, current[w])))
    for p, a in procs:
        p.join(2)
        if p.is_alive():
            p.kill()
    return res, trouble


def _u(units, i):
    return repr(units[i])[:300] if 0 <= i < len(units) else '?'


def known_findings(pid):
    out = []
    path = os.path.join(HERE, 'known_findings.txt')
    if os.path.exists(path):
        for line in open(path):
            line = line.strip()
            if line.startswith('finding: property=%s ' % pid):
                out.append(line.split(' ', 2)[2])
    return out


def main(argv):
    if argv[:1] == ['--sanity']:
        lib = target.load()
        r = lib.Grassmannian(2, 4).qmult('S[2,1]', 'S[1]')
        print('%s loaded from %s; S[2,1]*S[1] in QH(Gr(2,4)) = %s' % (lib.__name__, lib.__file__, r))
        return 0
    pid = argv[0]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if tier not in WALL:
        tier = 'quick'
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t0 = time.time()
    mod = importlib.import_module('checks.' + pid.lower())
    replay = None
    if '--replay' in argv:
        replay = json.load(open(argv[argv.index('--replay') + 1]))
        seed, tier = replay['seed'], replay['tier']
    os.makedirs(os.path.join(EVID, 'replay'), exist_ok=True)
    try:
        if not getattr(mod, 'NO_TARGET', False):
            target.load()
        if hasattr(mod, 'setup'):
            mod.setup()
    except Exception:
        print('ERROR: the library could not be loaded\n' + traceback.format_exc())
        return 2
    rng = _unit_rng(pid, seed, 'units')
    units = [eval(replay['unit'])] if replay else mod.units(tier, rng)
    if 'VP_FRAC' in os.environ:
        units = units[:max(20, int(float(os.environ['VP_FRAC']) * len(units)))]
    nw = min(getattr(mod, 'WORKERS', 8), max(1, len(units)))
    res, trouble = execute(mod, pid, tier, seed, units, nw)
    counts, distinct, evals, samples, viols, done = {}, set(), 0, [], [], 0
    for c, d, e, s, v, n, err in res:
        for k, x in c.items():
            counts[k] = counts.get(k, 0) + x
        distinct |= d
        evals += e
        samples += s
        viols += v
        done += n
        if err:
            trouble.append(err)
    known = known_findings(pid)
    fresh = []
    for v in viols:
        if any(v['what'].startswith(k.split(' :: ')[0]) for k in known):
            continue
        fresh.append(v)
    for k in known:
        print('KNOWN-FINDING: property=%s %s' % (pid, k))
    wall = time.time() - t0
    ev = {'property': pid, 'tier': tier, 'seed': seed, 'level': 'exploration',
          'coverage': {'evaluations': evals, 'distinct_nontrivial': len(distinct), 'rule': mod.RULE,
                       'samples': samples[:12] or ['(no sample drawn)'], 'units_run': done, 'units_planned': len(units),
                       'observed': counts},
          'assumptions': list(getattr(mod, 'ASSUMES', [])) or ['single deterministic build of the working tree of /repo'],
          'wall_s': round(wall, 2), 'violations': len(fresh)}
    if hasattr(mod, 'finish'):
        mod.finish(ev, counts)
    with open(os.path.join(EVID, pid + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)
    print('%s %s seed=%d: %d observations (%d distinct non-trivial), %d/%d units, %.1f s' % (
        pid, tier, seed, evals, len(distinct), done, len(units), wall))
    print('observed: ' + ', '.join('%s=%s' % kv for kv in sorted(counts.items())))
    if fresh:
        for i, v in enumerate(fresh[:5]):
            path = os.path.join(EVID, 'replay', '%s-%d.json' % (pid, i))
            with open(path, 'w') as f:
                json.dump(v, f, indent=1)
            print('  ' + v['what'][:1500])
            for k, x in v['detail'].items():
                print('    %s: %s' % (k, x[:600]))
            print('VIOLATION property=%s replay=%s' % (pid, path))
        for t in trouble:
            print('also: ' + t[-1500:])
        return 1
    if trouble:
        for t in trouble:
            print('INCONCLUSIVE: ' + t)
        return 2
    need = getattr(mod, 'MIN', {'quick': 50})
    low = need.get(tier, need.get('quick', 50))
    if not replay and len(distinct) < low:
        print('INCONCLUSIVE: only %d distinct observations, expected at least %d' % (len(distinct), low))
        return 2
    for name in getattr(mod, 'MUST_SEE', ()):
        if not replay and not counts.get(name):
            print('INCONCLUSIVE: the monitors never saw %s' % name)
            return 2
    return 0
