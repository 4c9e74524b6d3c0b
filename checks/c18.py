"""Threads: each call made concurrently against the same call made alone in a pristine process.

Every scenario runs in its own fork (cold caches).  Thread switches are injected by a very small switch
interval and by sleeps at random lines of the library (sys.settrace), and the interleaving actually
observed is recorded."""
import contextlib
import hashlib
import io
import random
import sys
import threading
import time

import expr as ex
import script
import spaces as S
import target

RULE = ('one observation = one call made by one of several concurrent threads and compared with the same call made alone; distinct = '
        'distinct (scenario, thread, position, call); interleavings = distinct orders in which threads were seen at traced library lines')
MIN = {'quick': 2500, 'thorough': 15000}
MUST_SEE = ('concurrent_calls', 'scenarios_shared_instance', 'scenarios_separate_instances', 'thread_switches_observed', 'interleavings', 'scenarios_of_one_operation', 'scenarios_shared_values', 'operations_on_shared_values')
NO_MEM_LIMIT = True
WORKERS = 8


def units(tier, rng):
    n = 150 if tier == 'quick' else 900
    return [('scenario', i) for i in range(n + n // 3)] + [('values', i) for i in range(n // 2)]


def serialise_sympy():
    """SymPy's lazily computed assumptions race with themselves: a thread that reads Integer(-1).is_negative
    while another is deducing it can be told None, after which Pow(2, -1) == 2 sits in SymPy's cache (seen
    once in about 600 runs; DESIGN.md).  That is the environment's defect, not the library's, so each
    assumption query is made atomic here; everything the library does stays free to interleave."""
    from sympy.core.assumptions import _assume_defined, as_property
    from sympy.core.basic import Basic
    lock = threading.RLock()
    names = [as_property(f) for f in _assume_defined]

    def guard(prop):
        get = prop.fget

        def getit(self):
            with lock:
                return get(self)
        return property(getit)
    seen, todo, memo = set(), [Basic], {}
    while todo:
        c = todo.pop()
        if c in seen:
            continue
        seen.add(c)
        todo += type.__subclasses__(c)
        for a in names:
            v = c.__dict__.get(a)
            if isinstance(v, property):
                if v not in memo:
                    memo[v] = guard(v)
                setattr(c, a, memo[v])


class PerThread:
    """standard output of a thread goes to its own buffer, if it has one"""

    def __init__(self):
        self.local = threading.local()

    def write(self, t):
        b = getattr(self.local, 'buf', None)
        if b is not None:
            b.write(t)
        return len(t)

    def flush(self):
        pass


OUT = PerThread()


def play(plans, shared, mode, seed):
    """plans: list of call lists, one per thread.  Runs in a child."""
    insts = {}
    for pl in plans:
        for c in pl:
            if c[0] not in insts:
                insts[c[0]] = S.sp(c[0]).make()

    def do(own, c):
        if shared:
            g = insts[c[0]]
        else:
            g = own.get(c[0])
            if g is None:
                g = own[c[0]] = S.sp(c[0]).make()
        return script.outcome(g, c)[1]
    return together(plans, do, mode, seed)


def play_values(plans, objs, shared, mode, seed):
    """threads working on the same values (or on equal values of their own).  Runs in a child."""
    xs = value_make(objs)

    def do(own, c):
        if shared:
            return value_do(xs, c)
        if 'xs' not in own:
            own['xs'] = value_make(objs)
        return value_do(own['xs'], c)
    return together(plans, do, mode, seed)


def values_alone(objs, ops):
    old, sys.stdout = sys.stdout, OUT
    try:
        return [value_do(value_make(objs), o) for o in ops]
    finally:
        sys.stdout = old


def together(plans, do, mode, seed):
    serialise_sympy()
    rng = random.Random(seed)
    n = len(plans)
    out = [[None] * len(p) for p in plans]
    barrier = threading.Barrier(n)
    order = []
    prefix = target.REPO
    progress = [0]

    def tracer_for(t, trng):
        p = 0.02 if mode == 'trace' else 0.0

        def local(frame, event, arg):
            if event == 'line':
                progress[0] += 1
                if trng.random() < p:
                    order.append(t)
                    time.sleep(0.0 if trng.random() < 0.7 else 0.0004)
            return local

        def glob(frame, event, arg):
            if frame.f_code.co_filename.startswith(prefix):
                return local
            return None
        return glob

    def body(t, trng):
        own = {}
        calls = plans[t]
        if mode == 'trace':
            sys.settrace(tracer_for(t, trng))
        barrier.wait()
        for i, c in enumerate(calls):
            if mode != 'trace':
                order.append(t)
            out[t][i] = do(own, c)
        sys.settrace(None)
    old = sys.getswitchinterval()
    sys.setswitchinterval(rng.choice([1e-6, 1e-5, 5e-5]) if mode != 'plain' else old)
    ths = [threading.Thread(target=body, args=(t, random.Random(rng.random())), daemon=True) for t in range(n)]
    with contextlib.redirect_stdout(OUT):
        for th in ths:
            th.start()
        # a hang is judged by the process making no progress (no CPU time, no traced line) for long
        idle, last, stuck = 0, (-1, -1.0), False
        while any(th.is_alive() for th in ths):
            for th in ths:
                th.join(0.02)
            now = (progress[0], round(time.process_time(), 1))
            if now == last:
                idle += 1
            else:
                idle, last = 0, now
            # ~ 60 s without any CPU use: every thread is blocked
            if idle > 60 / (0.02 * max(1, sum(th.is_alive() for th in ths))):
                stuck = True
                break
    sys.setswitchinterval(old)
    sw = sum(1 for a, b in zip(order, order[1:]) if a != b)
    return out, sw, hashlib.blake2b(repr(order).encode(), digest_size=8).hexdigest(), stuck


def scenario(ctx, i):
    rng = ctx.rng
    nthreads = rng.choice([2, 3, 4, 6])
    mode = ['trace', 'switch', 'trace', 'plain'][i % 4]
    shared = i % 3 != 0
    kind = rng.choice(['same', 'overlap', 'family', 'one_space', 'one_op', 'one_op'])
    fam = rng.choice(script.FAMILIES)
    if kind == 'one_space' or kind == 'same':
        key = rng.choice(script.SMALL)
        pool = [script.gen(rng, key, heavy=False) for _ in range(6)]
    elif kind == 'one_op':
        # every thread makes the same kind of call, each with arguments of its own
        key = rng.choice(script.SMALL)
        op = rng.choice(['pieri', 'pieri', 'qpieri', 'qpieri', 'mult', 'qmult', 'giambelli', 'qgiambelli', 'act', 'qact', 'toS', 'qtoS', 'dualize', 'type_swap',
                         'part2index', 'part2pair', 'qmult_rh', 'miami_swap', 'index2part', 'pair2part'])
        if op in ('part2pair', 'pair2part'):
            key = rng.choice([k for k in script.SMALL if k[0] != 'Gr'])
        if op == 'qmult_rh':
            key = rng.choice([k for k in script.SMALL if k[0] == 'Gr' and k[2] <= 6])
        if op in ('pieri', 'qpieri'):
            key = rng.choice([k for k in script.SMALL if S.sp(k).model.specials() and S.sp(k).size > 5])
        pool = [script.gen(rng, key, heavy=False, ops=[op]) for _ in range(12)]
        ctx.note('scenarios_of_one_operation')
    else:
        pool = [script.gen(rng, rng.choice(fam), heavy=False) for _ in range(10)]
    if kind != 'one_op' and rng.random() < 0.4:
        # instance state is at risk in the operations that borrow a modified clone
        key = rng.choice([k for k in script.SMALL if k[0] == 'Gr' and k[2] <= 6])
        m = S.sp(key).model
        for _ in range(3):
            pool.append((key, 'qmult_rh', ('list', list(S.random_class(rng, m))), ('list', list(S.random_class(rng, m)))))
            pool.append((key, rng.choice(['qpieri', 'pieri']), ('int', rng.choice(m.specials())), ('list', list(S.random_class(rng, m)))))
            pool.append((key, rng.choice(['dualize', 'classes', 'data', 'part2index'])))
            if pool[-1][1] in ('dualize', 'part2index'):
                pool[-1] += (('list', list(S.random_class(rng, m))),)
    n = 10 if kind == 'one_op' else 6
    if kind == 'same':
        calls = [rng.choice(pool) for _ in range(n)]
        plans = [list(calls) for _ in range(nthreads)]
    else:
        plans = [[rng.choice(pool) for _ in range(n)] for _ in range(nthreads)]
    memo = {}
    for c in {repr(c): c for p in plans for c in p}.values():
        script.baseline(ctx, c, memo)
    ok, v = script.in_child(play, plans, shared, mode, rng.random(), cpu=300, wall=400)
    text = ' | '.join('; '.join(map(script.show, p)) for p in plans)
    if ok is None:
        raise RuntimeError(v)
    if not ok:
        ctx.fail('%d threads (%s): %s' % (nthreads, mode, v), calls=text)
        return
    out, sw, h, stuck = v
    if stuck:
        ctx.fail('%d threads hang: all blocked' % nthreads, calls=text, results=out)
        return
    ctx.note('thread_switches_observed', sw)
    ctx.note('scenarios_' + ('shared_instance' if shared else 'separate_instances'))
    ctx.note('scenarios_' + mode)
    # each scenario of a unit records the order seen; distinct orders are counted through their hash
    if sw:
        ctx.note('interleavings')
    for t, p in enumerate(plans):
        for j, c in enumerate(p):
            ctx.note('concurrent_calls')
            b = memo[repr(c)]
            r = out[t][j]
            ctx.seen((i, t, j, c, h), True, 'thread %d of %d: %s -> %s' % (t, nthreads, script.show(c), r))
            if r is None or not script.same(r, b):
                ctx.fail('%s in thread %d of %d (%s instances) gives %s, alone it gives %s' % (
                    script.show(c), t, nthreads, 'shared' if shared else 'separate', str(r)[:500], b[:500]), plans=text)


VALUE_OPS = ('apply', 'apply2', 'expansion', 'expansion', 'queries', 'str', 'draw', 'arith', 'poly', 'latex', 'partition', 'rim', 'space')


def value_op(rng, objs):
    """(operation, object(s), parameters)"""
    while True:
        op = rng.choice(VALUE_OPS)
        kinds = {'apply': 'lc', 'apply2': 'lc', 'expansion': 'lc', 'queries': 'lc', 'str': 'any', 'draw': 'lc', 'arith': 'lc', 'poly': 'schur', 'latex': 'schur',
                 'partition': 'schur', 'rim': 'part', 'space': 'lc'}
        ks = [i for i, (k, _) in enumerate(objs) if kinds[op] in ('any', k)]
        if ks:
            return op, rng.choice(ks), rng.choice(ks), rng.randint(0, 9), rng.random() < 0.5


def value_make(objs):
    import schubertpy as api
    return [api.LinearCombination(v) if k == 'lc' else api.Schur(list(v)) if k == 'schur' else api.Partition(list(v)) for k, v in objs]


def value_do(xs, o):
    """text of the outcome of one operation on shared values"""
    import schubertpy as api
    op, i, j, c, b = o
    x, y = xs[i], xs[j]
    try:
        if op == 'apply':
            return str(x.apply(lambda p: api.Schur([z + c for z in p] + [1])))
        if op == 'apply2':
            return str(x.apply2(lambda p: [z + c for z in p] + [1]))
        if op == 'expansion':
            return str(sorted(((str(k), str(p)) for k, p in x.schur_expansion(include_q=b))))
        if op == 'queries':
            return str((len(x), x.is_operator('+'), x.is_valid(), x.has_part_zero_padding(), sorted(str(s) for s in x.list_schur_oprands())))
        if op == 'str':
            return str(x) + repr(x)
        if op == 'draw':
            buf = OUT.local.buf = io.StringIO()
            try:
                x.draw_ascii_partition(include_q=b)
            finally:
                OUT.local.buf = None
            return ''.join(sorted(buf.getvalue()))
        if op == 'arith':
            return str(x * (c + 1) + y - 2 * y + x)
        if op == 'poly':
            return x.to_polinomial_str(1 + c % 3)
        if op == 'latex':
            return x.latex() + str(x.symbol())
        if op == 'partition':
            return str(x.partition()) + str(hash(x) == hash(api.Schur(list(x.partition())))) + str(x == y) + str(x < y)
        if op == 'rim':
            return str(x.remove_rim_hooks(1 + c % 6, (2, 2))) + str(x) + str(x.is_in_range(c, 3))
        if op == 'space':
            return str(api.Grassmannian(2, 7).qpieri(1 + c % 5, x))
    except Exception as e:
        return 'EXC ' + type(e).__name__


def values(ctx, i):
    """several threads use the same LinearCombination, Schur and Partition objects"""
    import polytext as pt
    rng = ctx.rng
    mode = ['trace', 'switch', 'trace', 'plain'][i % 4]
    nthreads = rng.choice([2, 3, 4])
    m = S.sp(('Gr', 2, 7)).model
    objs = [('lc', ex.show(S.random_element(rng, m, rng.choice([2, 5, 9]), q=rng.random() < 0.7), m.nq)) for _ in range(3)]
    objs.append(('lc', pt.linear(rng, rng.choice([1, 4, 8]))[0]))
    objs += [('schur', [z for z in S.random_class(rng, m)]) for _ in range(2)]
    objs.append(('part', sorted((rng.randint(1, 7) for _ in range(rng.randint(1, 5))), reverse=True)))
    n = 10
    if rng.random() < 0.5:
        # every thread the same few operations on one object, with parameters of its own
        few = [value_op(rng, objs) for _ in range(3)]
        plans = [[(o, x, y, rng.randint(0, 9), rng.random() < 0.5) for o, x, y, _, _ in (rng.choice(few) for _ in range(n))] for _ in range(nthreads)]
    else:
        plans = [[value_op(rng, objs) for _ in range(n)] for _ in range(nthreads)]
    ops = list({repr(o): o for p in plans for o in p}.values())
    shared = i % 5 != 0
    text = '; '.join('%d: %s %s' % (j, k, v) for j, (k, v) in enumerate(objs)) + ' | ' + ' | '.join(str(p) for p in plans)
    ok, alone = script.in_child(values_alone, objs, ops, cpu=200, wall=300)
    if ok is None:
        raise RuntimeError(alone)
    if not ctx.check(ok, 'operations on values, one after another: %s' % (alone,), calls=text):
        return
    base = dict(zip(map(repr, ops), alone))
    ok, v = script.in_child(play_values, plans, objs, shared, mode, rng.random(), cpu=300, wall=400)
    if ok is None:
        raise RuntimeError(v)
    if not ok:
        ctx.fail('%d threads on the same values (%s): %s' % (nthreads, mode, v), calls=text)
        return
    out, sw, h, stuck = v
    if stuck:
        ctx.fail('%d threads on the same values hang' % nthreads, calls=text)
        return
    ctx.note('thread_switches_observed', sw)
    ctx.note('scenarios_shared_values' if shared else 'scenarios_equal_values')
    if sw:
        ctx.note('interleavings')
    for t, p in enumerate(plans):
        for j, o in enumerate(p):
            b, r = base[repr(o)], out[t][j]
            w = '%s on the %s %s' % (o[0], objs[o[1]][0], objs[o[1]][1])
            ctx.note('operations_on_shared_values')
            ctx.seen((i, t, j, o, h), not b.startswith('EXC'), 'thread %d of %d: %s -> %s' % (t, nthreads, w, r))
            if r is None or not script.same(r, b):
                ctx.fail('%s %s in thread %d of %d gives %s, alone it gives %s' % (w, o[3:], t, nthreads, str(r)[:400], b[:400]), plans=text)
