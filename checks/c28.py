"""Caching decorators: probe functions and methods under random histories, sizes, objects and threads."""
import gc
import random
import sys
import threading

import spaces as S

RULE = ('one observation = one call of a decorated probe compared with the undecorated probe on the same arguments (value or '
        'exception, number of runs where a repetition within the cache size is due, arguments unchanged); distinct = distinct '
        '(history, position)')
MIN = {'quick': 20000, 'thorough': 200000}
MUST_SEE = ('function_calls', 'method_calls', 'repeats_due', 'exceptions', 'retried_after_exception', 'keyword_calls', 'list_arguments',
            'several_objects', 'short_lived_objects', 'threads', 'thread_calls', 'recursive', 'evicting_histories', 'sizes_zero', 'sizes_none', 'typed', 'equal_arguments_of_other_types', 'near_arguments', 'many_arguments')
ASSUMES = ['probe functions are deterministic, accept lists and tuples alike and return immutable values; arguments are numbers, strings, '
           'tuples and flat lists']
MAXSIZES = (None, 0, 1, 2, 3, 5, 16, 128)


def units(tier, rng):
    n = 80 if tier == 'quick' else 900
    out = [('functions', i) for i in range(n)] + [('methods', i) for i in range(n)]
    out += [('threads', i) for i in range(24 if tier == 'quick' else 240)] + [('recursive', i) for i in range(8)]
    out += [('typed', i) for i in range(4 if tier == 'quick' else 40)]
    rng.shuffle(out)
    return out


class Boom(Exception):
    pass


def plain(f, *a, **kw):
    return norm((f, a, tuple(sorted(kw.items()))))


def norm(x):
    if isinstance(x, (list, tuple)):
        return ('seq',) + tuple(norm(i) for i in x)
    return x


class Probe:
    """a function whose value identifies the function and all its arguments; it counts its runs"""

    def __init__(self, name, rng):
        self.name = name
        self.runs = 0
        self.failing = {}
        self.used = set()
        self.lock = threading.Lock()

    def body(self, owner, a, b, c, rest=()):
        with self.lock:
            self.runs += 1
        key = norm((owner, a, b, c) + rest)
        self.used.add(key)
        n = self.failing.get(key)
        if n:
            self.failing[key] = n - 1
            raise Boom(self.name, repr(key))
        if isinstance(b, int) and b == 99:
            raise ValueError('never works: %r' % (key,))
        return (self.name, key)


def value(rng):
    r = rng.random()
    if r < 0.05:
        # longer and larger
        v = [rng.choice([0, 1, 1, 2, 5, 9, 10, 11, 16, 32, 256, 10 ** 9, -1, -2]) for _ in range(rng.randint(4, 14))]
        return v if rng.random() < 0.7 else tuple(v)
    if r < 0.4:
        return [rng.randint(0, 3) for _ in range(rng.randint(0, 3))]
    if r < 0.6:
        return tuple(rng.randint(0, 3) for _ in range(rng.randint(0, 3)))
    if r < 0.9:
        return rng.randint(0, 4)
    return rng.choice(['', 'a', 'b', None, 7, -1])


def arguments(rng):
    """(args, kwargs)"""
    n = rng.randint(1, 3) if rng.random() < 0.85 else rng.randint(4, 7)
    vals = [value(rng) for _ in range(n)]
    if rng.random() < 0.05:
        vals = vals[:1] + [99]
    r = rng.random()
    if r < 0.6 or n > 3:
        return tuple(vals), {}
    names = ['a', 'b', 'c'][:len(vals)]
    k = 0 if r < 0.8 else rng.randint(0, len(vals))
    kws = list(zip(names[k:], vals[k:]))
    if k == 0 and len(kws) > 1 and rng.random() < 0.3:
        # a and c by name, b left at its default
        kws = [(x, v) for x, v in kws if x != 'b']
        if len(kws) == 1:
            kws.append(('c', vals[1]))
    rng.shuffle(kws)
    return tuple(vals[:k]), dict(kws)


def near(args, rng):
    args = list(args)
    i = rng.randrange(len(args))
    x = args[i]
    if isinstance(x, (list, tuple)):
        y = list(x)
        how = rng.randrange(5)
        if how == 0 and y:
            y[rng.randrange(len(y))] += rng.choice([1, -1, 16])
        elif how == 1:
            y.append(0)
        elif how == 2 and y:
            y.pop()
        elif how == 3:
            y.reverse()
        elif len(y) > 1:
            y[:2] = [int('%d%d' % (abs(y[0]), abs(y[1])))]
        args[i] = y if isinstance(x, list) else tuple(y)
    elif isinstance(x, int) and x != 99:
        args[i] = x + rng.choice([1, -1])
    else:
        rng.shuffle(args)
    return tuple(args)


def form(args, kw):
    """what makes two calls equal for the repetition rule: same positions, keywords and values"""
    return repr((args, list(kw.items())))


class Order:
    """which keys are certainly still cached: fewer than maxsize other keys were used since"""

    def __init__(self, maxsize):
        self.maxsize = maxsize
        self.recent = []       # least recently used first; forms of all calls, errors included

    def due(self, k):
        if k not in self.recent:
            return False
        if self.maxsize is None:
            return True
        return len(self.recent) - self.recent.index(k) <= self.maxsize

    def use(self, k, ok):
        if k in self.recent:
            self.recent.remove(k)
        if ok:
            self.recent.append(k)


def play(ctx, hist, wrapped, plainf, probe, order, tag, owner, rng, pos):
    """one call through the decorator, judged"""
    if hist and rng.random() < 0.55:
        args, kw = rng.choice(hist[-8:])
        args = tuple(list(x) if isinstance(x, list) else x for x in args)
        kw = {k: list(v) if isinstance(v, list) else v for k, v in kw.items()}
        if args and rng.random() < 0.15:
            # nearly the same arguments
            args = near(args, rng)
            ctx.note('near_arguments')
            hist.append((tuple(list(x) if isinstance(x, list) else x for x in args), {k: list(v) if isinstance(v, list) else v for k, v in kw.items()}))
        if len(args) > 3:
            ctx.note('many_arguments')
    else:
        args, kw = arguments(rng)
        hist.append((tuple(list(x) if isinstance(x, list) else x for x in args), {k: list(v) if isinstance(v, list) else v for k, v in kw.items()}))
    k = (owner, form(args, kw))
    w = '%s(%s)' % (tag, ', '.join([repr(x) for x in args] + ['%s=%r' % x for x in kw.items()]))
    before = form(args, kw)
    # expected value from the undecorated function, its run counter and failures restored
    runs, failing = probe.runs, dict(probe.failing)
    try:
        want = ('value', plainf(*args, **kw))
    except (Boom, ValueError) as e:
        want = (type(e).__name__, str(e))
    probe.runs, probe.failing = runs, failing
    due = order.due(k)
    if due:
        want_runs = 0
        ctx.note('repeats_due')
    try:
        got = ('value', wrapped(*args, **kw))
    except Exception as e:
        got = (type(e).__name__, str(e))
    ran = probe.runs - runs
    ctx.seen((ctx.unit, pos), True, '%s -> %s (ran %d)' % (w, got, ran))
    if kw:
        ctx.note('keyword_calls')
    if any(isinstance(x, list) for x in list(args) + list(kw.values())):
        ctx.note('list_arguments')
    if got != want:
        ctx.fail('%s gives %s, the plain function gives %s' % (w, got, want))
    if due:
        ctx.check(ran == 0, '%s ran again although it was cached (size %s)' % (w, order.maxsize))
    ctx.check(ran <= 1, '%s ran %d times' % (w, ran))
    if want[0] != 'value' and not due:
        ctx.note('exceptions')
        ctx.check(ran == 1, '%s raised without running the function' % w)
    ctx.check(form(args, kw) == before, '%s changed its arguments to %s' % (w, form(args, kw)))
    order.use(k, got[0] == 'value')
    if order.maxsize is not None and len(order.recent) > order.maxsize:
        ctx.note('evicting_histories')
    return k, want, args, kw


def sizes(ctx, rng):
    ms, typed = rng.choice(MAXSIZES), rng.random() < 0.3
    ctx.note({0: 'sizes_zero', None: 'sizes_none'}.get(ms, 'sizes_other'))
    if typed:
        ctx.note('typed')
    return ms, typed


def functions(ctx, i):
    from schubertpy.utils.hash import hashable_lru_cache
    rng = ctx.rng
    fs = []
    for n in range(3):
        p = Probe('f%d' % n, rng)

        def f(a, b=0, c=(), *rest, _p=p):
            return _p.body(None, a, b, c, rest)
        ms, typed = sizes(ctx, rng)
        fs.append((p, f, hashable_lru_cache(maxsize=ms, typed=typed)(f), Order(ms), []))
    for pos in range(120):
        p, f, w, order, hist = rng.choice(fs)
        ctx.note('function_calls')
        if rng.random() < 0.1:
            transient(ctx, p, f, w, order, hist, rng)
        play(ctx, hist, w, f, p, order, p.name, None, rng, pos)


def transient(ctx, p, f, w, order, hist, rng):
    """a call never made before fails the first time and has to work the second time"""
    args, kw = arguments(rng)
    full = dict(zip('abc', args))
    full.update(kw)
    key = norm((None, full['a'], full.get('b', 0), full.get('c', ())) + args[3:])
    if key in p.used or 99 in full.values():
        return
    p.failing[key] = 1
    runs = p.runs
    what = '%s%r %r' % (p.name, args, kw)
    try:
        r = w(*args, **kw)
    except Boom as e:
        ctx.check(e.args == (p.name, repr(key)), '%s raised another exception: %r' % (what, e))
    except Exception as e:
        ctx.fail('%s: the exception became %r' % (what, e))
    else:
        ctx.fail('%s = %r although the function raised' % (what, r))
    ctx.check(p.runs == runs + 1, '%s ran %d times' % (what, p.runs - runs))
    order.use((None, form(args, kw)), False)
    want = f(*args, **kw)
    runs = p.runs
    try:
        r = w(*args, **kw)
    except Exception as e:
        ctx.fail('%s raises %r again although the function works now' % (what, e))
        return
    ctx.note('retried_after_exception')
    ctx.seen((ctx.unit, 'transient', what))
    ctx.check(r == want and p.runs == runs + 1, '%s = %s after an exception (%d runs)' % (what, r, p.runs - runs))
    order.use((None, form(args, kw)), True)
    hist.append((args, kw))


def kinds_probe(a, b=0):
    return (type(a).__name__, repr(a), type(b).__name__, repr(b))


def typed(ctx, i):
    """typed=True keeps equal arguments of different types apart; without it they may be shared, but a call's value
    is the value for some equal arguments"""
    from schubertpy.utils.hash import hashable_lru_cache, hashable_lru_cache_method
    rng = ctx.rng
    for ms in MAXSIZES:
        f = hashable_lru_cache(maxsize=ms, typed=True)(kinds_probe)

        class C:
            @hashable_lru_cache_method(maxsize=ms, typed=True)
            def m(self, a, b=0):
                return kinds_probe(a, b)
        objs = [C(), C()]
        vals = [1, 1.0, True, 0, 0.0, False, 2, 2.0, 'a']
        for _ in range(60):
            a = rng.choice(vals)
            args = (a,) if rng.random() < 0.6 else (a, rng.choice(vals))
            kw = {}
            if rng.random() < 0.2:
                args, kw = args[:-1], {'ab'[len(args) - 1]: args[-1]}
            g = rng.choice([f, objs[0].m, objs[1].m])
            ok, v = ctx.call('a typed cached %s(size %s) on %r %r' % ('function' if g is f else 'method', ms, args, kw), g, *args, **kw)
            w = kinds_probe(*args, **kw)
            ctx.note('equal_arguments_of_other_types')
            ctx.seen((i, ms, g is f, repr(args), repr(kw)), True)
            ctx.check(v == w, 'a typed cached %s (size %s) gives %s on %r %r, the plain one %s' % ('function' if g is f else 'method', ms, v, args, kw, w))


def methods(ctx, i):
    from schubertpy.utils.hash import hashable_lru_cache_method
    rng = ctx.rng
    p1, p2 = Probe('m1', rng), Probe('m2', rng)
    ms1, t1 = sizes(ctx, rng)
    ms2, t2 = sizes(ctx, rng)

    class C:
        def __init__(self, ident):
            self.ident = ident

        def plain1(self, a, b=0, c=(), *rest):
            return p1.body(self.ident, a, b, c, rest)

        @hashable_lru_cache_method(maxsize=ms1, typed=t1)
        def m1(self, a, b=0, c=(), *rest):
            return p1.body(self.ident, a, b, c, rest)

        def plain2(self, a, b=0, c=(), *rest):
            return p2.body(self.ident, a, b, c, rest)

        @hashable_lru_cache_method(maxsize=ms2, typed=t2)
        def m2(self, a, b=0, c=(), *rest):
            return p2.body(self.ident, a, b, c, rest)

    class D(C):
        """equal objects with equal state share a class but not an identity"""

        def __eq__(self, o):
            return isinstance(o, D) and o.ident == self.ident

        def __hash__(self):
            return hash(self.ident) % 3
    kind = rng.choice([C, C, D])
    objs = [kind('o%d' % j) for j in range(rng.randint(2, 4))]
    o1, o2 = Order(ms1), Order(ms2)
    hist = []
    nxt = len(objs)
    for pos in range(120):
        if rng.random() < 0.08:
            # an object dies and another takes its place (perhaps its address)
            j = rng.randrange(len(objs))
            objs[j] = None
            if rng.random() < 0.3:
                gc.collect()
            objs[j] = kind('o%d' % nxt)
            nxt += 1
            ctx.note('short_lived_objects')
        o = rng.choice(objs)
        ctx.note('method_calls')
        ctx.note('several_objects')
        if rng.random() < 0.5:
            play(ctx, hist, o.m1, o.plain1, p1, o1, '%s.m1' % o.ident, o.ident, rng, pos)
        else:
            play(ctx, hist, o.m2, o.plain2, p2, o2, '%s.m2' % o.ident, o.ident, rng, pos)


def threads(ctx, i):
    from schubertpy.utils.hash import hashable_lru_cache, hashable_lru_cache_method
    rng = ctx.rng
    p = Probe('t', rng)
    ms, typed = rng.choice([None, 2, 3, 16, 128]), False

    def f(a, b=0, c=(), *rest):
        x = p.body(None, a, b, c, rest)
        if i % 2:
            # give other threads a chance in the middle of the computation
            threading.Event().wait(0.0002)
        return x
    w = hashable_lru_cache(maxsize=ms)(f)

    class C:
        def __init__(self, ident):
            self.ident = ident

        @hashable_lru_cache_method(maxsize=ms)
        def m(self, a, b=0, c=(), *rest):
            return p.body(self.ident, a, b, c, rest)
    objs = [C('o%d' % j) for j in range(3)]
    pool = [arguments(rng) for _ in range(12)]
    seeds = [rng.random() for _ in range(6)]
    bad, done = [], []
    barrier = threading.Barrier(len(seeds))
    old = sys.getswitchinterval()
    sys.setswitchinterval(1e-5)

    def run(seed):
        r = random.Random(seed)
        barrier.wait()
        for _ in range(60):
            a, kw = r.choice(pool)
            a = tuple(list(x) if isinstance(x, list) else x for x in a)
            kw = {k: list(v) if isinstance(v, list) else v for k, v in kw.items()}
            o = r.choice([None] + objs)
            full = dict(zip('abc', a))
            full.update(kw)
            b, c = full.get('b', 0), full.get('c', ())
            want = ('t', norm((o and o.ident, full['a'], b, c) + a[3:]))
            try:
                got = (w if o is None else o.m)(*a, **kw)
            except ValueError:
                got = want if b == 99 else 'ValueError'
            except Exception as e:
                got = repr(e)
            if got != want:
                bad.append('%s%r %r = %s, expected %s' % (o.ident if o else 'f', a, kw, got, want))
            done.append(1)
    ts = [threading.Thread(target=run, args=(s,)) for s in seeds]
    try:
        for t in ts:
            t.start()
        for t in ts:
            t.join(60)
    finally:
        sys.setswitchinterval(old)
    ctx.check(not any(t.is_alive() for t in ts), 'threads calling a cached function do not finish')
    ctx.note('threads', len(ts))
    ctx.note('thread_calls', len(done))
    for n in range(len(done)):
        ctx.seen((ctx.unit, 'thread', n))
    for b in bad[:2]:
        ctx.fail('from %d threads: %s' % (len(ts), b))
    # afterwards: everything within the size is remembered
    if ms is None:
        runs = p.runs
        again = []
        for a, kw in pool:
            if 99 in a or 99 in kw.values():
                continue
            w(*a, **kw)
            again.append(form(a, kw))
        first = p.runs - runs
        runs = p.runs
        for a, kw in pool:
            if form(a, kw) in again:
                w(*a, **kw)
        ctx.check(p.runs == runs, 'an unlimited cache ran the function again after the threads finished (%d runs)' % (p.runs - runs))


def recursive(ctx, i):
    from schubertpy.utils.hash import hashable_lru_cache
    rng = ctx.rng
    for ms in MAXSIZES:
        if ms == 0:
            continue
        runs = [0]

        @hashable_lru_cache(maxsize=ms)
        def count(lam, depth=0):
            # number of partitions below lam, removing a box at a time (with repetition)
            runs[0] += 1
            lam = list(lam)
            return 1 + sum(count([x - (j == k) for j, x in enumerate(lam)]) for k in range(len(lam))
                           if lam[k] and (k == len(lam) - 1 or lam[k] > lam[k + 1]))

        def plain_count(lam):
            return 1 + sum(plain_count([x - (j == k) for j, x in enumerate(lam)]) for k in range(len(lam))
                           if lam[k] and (k == len(lam) - 1 or lam[k] > lam[k + 1]))
        for _ in range(4):
            lam = sorted((rng.randint(0, 3) for _ in range(rng.randint(0, 3))), reverse=True)
            ok, v = ctx.call('a recursive cached function', count, lam)
            ctx.seen((i, ms, tuple(lam)), True)
            ctx.note('recursive')
            ctx.check(v == plain_count(lam), 'recursive cached function (size %s) on %s = %s, expected %s' % (ms, lam, v, plain_count(lam)))
            if ms is None:
                r = runs[0]
                count(lam)
                ctx.check(runs[0] == r, 'recursive cached function ran again on %s' % lam)
