"""Interrupted calls: a call is cut off by an exception (Ctrl-C, a caller's timeout) at a chosen line of the library; everything
that is computed afterwards, in the same process and on the same objects, has to be what a fresh process gives.

The place is drawn per source line, not per executed line, so that lines outside the hot loops are cut as often as those in them:
a dry run of the same call in a fork of the current state lists which lines it executes and how often."""
import ast
import contextlib
import functools
import io
import os
import random
import sys

import script
import spaces as S
import target

RULE = ('one observation = one call made after at least one call was cut off by an exception raised at a library line, compared with the same '
        'call in a fresh process; the arguments of cut calls are compared before and after, and earlier results are printed again at the end; '
        'non-trivial = the process computed something that was cut off before; distinct = distinct (history, position, call)')
MIN = {'quick': 2000, 'thorough': 16000}
MUST_SEE = ('cut', 'retried_at_once', 'other_after_cut', 'fresh_instance', 'same_instance', 'cloned_instance', 'cut_twice', 'results_reprinted', 'arguments_compared')
NO_MEM_LIMIT = True
ASSUMES = ['interruptions arrive at a line of the library (not inside SymPy or the interpreter)', 'the process is not killed: the exception propagates to the caller']
SOFT = {'quick': 420, 'thorough': 1800}


class Cut(BaseException):
    pass


def units(tier, rng):
    return [('history', i) for i in range(90 if tier == 'quick' else 800)]


def inside(code):
    return code.co_filename.startswith(target.REPO + os.sep)


@functools.lru_cache(None)
def protected(filename):
    """lines at which no Python program can be cut off without loss: clean-up that is running (bodies of finally and except, __exit__), and the
    heads of try and with, where what has been acquired is not yet or no longer guarded"""
    out = set()
    with open(filename) as f:
        tree = ast.parse(f.read())
    for n in ast.walk(tree):
        body = []
        if isinstance(n, ast.Try):
            out.add(n.lineno)
            body = n.finalbody + [h for h in n.handlers]
        elif isinstance(n, (ast.With, ast.AsyncWith)):
            out.update(range(n.lineno, n.body[0].lineno))
        elif isinstance(n, ast.FunctionDef) and n.name in ('__exit__', '__enter__', '__del__'):
            body = [n]
        for b in body:
            out.update(range(b.lineno, b.end_lineno + 1))
    return frozenset(out)


def guarded(f):
    """is clean-up under way in this frame or in one that called it?"""
    while f is not None:
        if inside(f.f_code) and f.f_lineno in protected(f.f_code.co_filename):
            return True
        f = f.f_back
    return False


def attempt(g, call, args):
    """perform the call; any ordinary exception is an outcome"""
    try:
        r, t = script.perform(g, call, args)
        return r, t
    except Exception as e:
        return None, 'EXC ' + type(e).__name__


def dry(g, call, limit=60000):
    """(in a fork) -> {line: [numbers of the executions]} (first, last and some between)"""
    seen = {}
    n = 0

    def local(f, ev, arg):
        nonlocal n
        if ev == 'line' and f.f_lineno not in protected(f.f_code.co_filename):
            n += 1
            k = (f.f_code.co_filename, f.f_lineno)
            l = seen.setdefault(k, [])
            if len(l) < 3:
                l.append(n)
            else:
                l[2] = n
            if n >= limit:
                sys.settrace(None)
                raise Cut
        return local
    args = [script.build(a) for a in call[2:]]
    sys.settrace(lambda f, ev, arg: local if inside(f.f_code) and not guarded(f.f_back) else None)
    try:
        attempt(g, call, args)
    except Cut:
        pass
    finally:
        sys.settrace(None)
    return seen


def cut(g, call, args, when, exc):
    """-> (where it was cut or None, text or None)"""
    n = 0
    where = None

    def local(f, ev, arg):
        nonlocal n, where
        if ev == 'line' and f.f_lineno not in protected(f.f_code.co_filename):
            n += 1
            if n == when:
                where = (f.f_code.co_name, f.f_lineno)
                raise exc
        return local
    t = None
    sys.settrace(lambda f, ev, arg: local if inside(f.f_code) and not guarded(f.f_back) else None)
    try:
        t = attempt(g, call, args)[1]
    except (Cut, KeyboardInterrupt):
        pass
    finally:
        sys.settrace(None)
    return where, t


def snapshot(x):
    return repr(x) if isinstance(x, (list, int)) else str(x) + repr(getattr(x, 'p', ''))


def play(steps, seed):
    rng = random.Random(seed)
    inst = {}
    out, problems, cnt, sites = [], [], {}, set()
    kept = []

    def note(k, n=1):
        cnt[k] = cnt.get(k, 0) + n

    def get(key, how):
        if how == 'fresh' or key not in inst:
            g = S.sp(key).make()
            inst.setdefault(key, g)
            return g
        if how == 'clone':
            return inst[key].clone()
        return inst[key]
    with contextlib.redirect_stdout(io.StringIO()):
        for kind, call, how in steps:
            try:
                g = get(call[0], how)
                args = [script.build(a) for a in call[2:]]
            except Exception as e:
                out.append('EXC ' + type(e).__name__ + ' when the arguments were built')
                continue
            if kind == 'call':
                r, t = attempt(g, call, args)
                out.append(t)
                if r is not None and not isinstance(r, list):
                    kept.append((call, r, str(r)))
                continue
            ok, lines = script.in_child(dry, g, call, cpu=120, wall=300)
            if not ok or not lines:
                note('no_dry_run')
                out.append(None)
                continue
            # a line, then one of its executions
            k = rng.choice(sorted(lines))
            before = [snapshot(a) for a in args]
            exc = rng.choice([Cut, KeyboardInterrupt])
            where, t = cut(g, call, args, rng.choice(lines[k]), exc)
            if where is None:
                note('not_reached')
            else:
                note('cut')
                sites.add(where)
            if t is not None and where is not None:
                note('interrupt_swallowed')
            after = [snapshot(a) for a in args]
            note('arguments_compared')
            if before != after:
                problems.append('%s, cut off at %s, changed its arguments from %s to %s' % (script.show(call), where, before, after))
            out.append(('cut', where, t))
        for call, r, t in kept:
            note('results_reprinted')
            if str(r) != t:
                problems.append('the result of %s was %s and later prints as %s' % (script.show(call), t[:300], str(r)[:300]))
    return out, problems, cnt, sorted(sites)


def history(ctx, i):
    rng = ctx.rng
    fam = rng.choice(script.FAMILIES) if i % 2 else rng.sample(script.SMALL, 3)
    pool = []
    while len(pool) < 9:
        c = script.gen(rng, rng.choice(fam), heavy=rng.random() < 0.4)
        if c[1] not in ('draw', 'str'):
            pool.append(c)
    steps = []
    for _ in range(26 if ctx.quick else 32):
        c = rng.choice(pool)
        how = rng.choice(['same', 'same', 'same', 'fresh', 'clone'])
        r = rng.random()
        if r < 0.25:
            steps.append(('call', c, how))
            continue
        for _ in range(rng.choice([1, 1, 1, 2, 3])):
            steps.append(('cut', c, how))
            how = rng.choice(['same', 'same', how])
        if rng.random() < 0.6:
            steps.append(('call', c, rng.choice(['same', 'same', 'fresh', 'clone'])))
        else:
            steps.append(('call', rng.choice(pool), 'same'))
    # everything once more, on the instances that went through it
    steps += [('call', c, 'same') for c in pool]
    memo = {}
    for c in {repr(c): c for _, c, _ in steps}.values():
        script.baseline(ctx, c, memo)
    ok, v = script.in_child(play, steps, rng.random(), cpu=300, wall=600)
    if ok is None:
        raise RuntimeError(v)
    if not ok:
        ctx.fail('a history with interrupted calls: %s' % v, steps=[(s[0], script.show(s[1]), s[2]) for s in steps])
        return
    out, problems, cnt, sites = v
    for k, n in cnt.items():
        ctx.note(k, n)
    for s in sites:
        ctx.seen(('site',) + tuple(s), False)
        SITES.add(s)
    ctx.note('new_places_cut', len(SITES) - ctx.counts.get('new_places_cut', 0))
    for p in problems:
        ctx.fail(p)
    cuts = []
    prev = None
    for j, ((kind, c, how), o) in enumerate(zip(steps, out)):
        want = memo[repr(c)]
        if kind == 'cut':
            if isinstance(o, tuple):
                if o[1] is not None:
                    cuts.append('%s at %s:%s' % ((script.show(c),) + tuple(o[1])))
                    if prev == repr(c):
                        ctx.note('cut_twice')
                    prev = repr(c)
                if o[2] is not None:
                    # not reached, or the interruption was held back: then the answer has to be right
                    ctx.check(script.same(o[2], want), '%s gives %s although an interruption was raised inside it; it is %s' % (script.show(c), o[2][:400], want[:400]))
            continue
        if cuts:
            ctx.note('retried_at_once' if prev == repr(c) else 'other_after_cut')
            ctx.note({'same': 'same_instance', 'fresh': 'fresh_instance', 'clone': 'cloned_instance'}[how])
        prev = None
        ctx.seen((i, j, repr(c)), bool(cuts) and not want.startswith('EXC'), '%s after %d interrupted calls = %s' % (script.show(c), len(cuts), str(o)[:100]))
        ctx.check(script.same(o, want), '%s after %d interrupted calls: %s, in a fresh process %s' % (script.show(c), len(cuts), str(o)[:400], want[:400]), cut=cuts[-8:])


SITES = set()
