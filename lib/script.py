"""Library calls described as data, so that the same call can be made in different processes, orders,
threads and instances and its outcome compared as text."""
import contextlib
import io
import os
import pickle
import select
import signal
import sys
import threading
import time

import expr as ex
import refmodel as rm
import spaces as S
import work

SMALL = [('Gr', 2, 4), ('Gr', 1, 3), ('Gr', 3, 6), ('Gr', 2, 5), ('Gr', 3, 5), ('Gr', 2, 6), ('Gr', 4, 6), ('Gr', 3, 7), ('Gr', 4, 7),
         ('IG', 1, 4), ('IG', 2, 4), ('IG', 2, 6), ('IG', 3, 6), ('IG', 2, 8), ('IG', 3, 8), ('IG', 4, 8),
         ('OG', 1, 5), ('OG', 2, 5), ('OG', 2, 7), ('OG', 3, 7), ('OG', 1, 7), ('OG', 2, 9), ('OG', 3, 9),
         ('OG', 1, 6), ('OG', 2, 6), ('OG', 3, 6), ('OG', 2, 8), ('OG', 3, 8), ('OG', 4, 8), ('OG', 1, 8), ('OG', 3, 10), ('OG', 2, 10), ('OG', 4, 10)]
# families whose caches could be confused: equal (k,n), equal m, equal text
FAMILIES = [
    [('Gr', 2, 5), ('Gr', 3, 5), ('IG', 2, 10), ('OG', 2, 11), ('OG', 3, 12), ('IG', 3, 10)],
    [('IG', 2, 6), ('OG', 2, 7), ('OG', 3, 8), ('OG', 2, 8), ('Gr', 2, 3)],
    [('IG', 3, 6), ('OG', 3, 7), ('OG', 4, 8), ('OG', 3, 8), ('OG', 3, 6)],
    [('OG', 2, 6), ('OG', 3, 6), ('OG', 1, 6), ('OG', 2, 8), ('OG', 3, 8), ('OG', 4, 8)],
    [('Gr', 2, 4), ('Gr', 2, 5), ('Gr', 2, 6), ('Gr', 3, 6), ('Gr', 3, 5), ('Gr', 4, 6), ('Gr', 2, 7)],
    [('IG', 2, 4), ('IG', 2, 6), ('IG', 2, 8), ('IG', 3, 8), ('IG', 3, 6)],
    [('OG', 2, 5), ('OG', 2, 7), ('OG', 2, 9), ('OG', 3, 9), ('OG', 3, 7)],
]


def form(rng, el, nq):
    """argument as data"""
    if len(el) == 1:
        (q, lam), c = next(iter(el.items()))
        if c == 1 and not any(q):
            r = rng.random()
            if r < 0.2:
                return ('list', list(lam))
            if r < 0.35:
                return ('schur', list(lam))
    t = S.spell(rng, el, nq)
    return (rng.choice(['text', 'text', 'lc', 'sym']), t)


def gen(rng, key, heavy=True, ops=None):
    """one random call in the space"""
    sp = S.sp(key)
    m = sp.model
    k = m.k

    def el(terms=2):
        return form(rng, S.random_element(rng, m, terms, q=True), m.nq)

    def one():
        return form(rng, m.cls(S.random_class(rng, m)), m.nq)
    menu = ['qmult', 'mult', 'toS', 'qtoS', 'giambelli', 'qgiambelli', 'act', 'qact', 'dualize', 'type_swap', 'miami_swap',
            'part2index', 'index2part', 'classes', 'generators', 'data', 'str', 'expansion', 'arith', 'poly', 'rim', 'draw']
    if m.specials():
        menu += ['pieri', 'qpieri', 'qpieri', 'pieri']
    if sp.cls == 'Gr' and sp.N <= 6:
        menu += ['qmult_rh', 'qmult_rh']
    if sp.cls != 'Gr':
        menu += ['part2pair', 'pair2part']
    if m.type == 'D':
        menu += ['schub_type', 'type_swap']
    if heavy and sp.size <= 12:
        menu += ['table', 'qtable']
    op = rng.choice(ops or menu)
    if op in ('pieri', 'qpieri'):
        return (key, op, ('int', rng.choice(m.specials())), rng.choice([el, one])())
    if op in ('mult', 'qmult', 'qmult_rh'):
        return (key, op, one() if rng.random() < 0.7 else el(), el() if rng.random() < 0.5 else one())
    if op in ('act', 'qact'):
        return (key, op, ('text', work.special_poly(rng, m, deg=2, terms=2, q=True)), el())
    if op in ('toS', 'qtoS'):
        return (key, op, ('text', work.class_poly(rng, m, deg=2, terms=1, q=True)))
    if op == 'type_swap':
        return (key, op, rng.choice([el, one])(), ('int', k))
    if op == 'index2part':
        return (key, op, rng.choice([('text', ex.S(m.index(S.random_class(rng, m)))), ('list', list(m.index(S.random_class(rng, m))))]))
    if op == 'pair2part':
        import judge
        a, b = judge.pair(m, S.random_class(rng, m))
        return (key, op, rng.choice([('text', ex.S((list(a), list(b))).replace(' ', '')), ('list', [list(a), list(b)])]))
    if op == 'schub_type':
        return (key, op, rng.choice([('list', list(S.random_class(rng, m))), ('schur', list(S.random_class(rng, m)))]))
    if op in ('classes', 'generators', 'data', 'str', 'table', 'qtable'):
        return (key, op)
    if op == 'poly':
        return (key, op, ('list', [x for x in S.random_class(rng, m) if x][:3]), ('int', rng.randint(1, 3)))
    if op == 'rim':
        return (key, op, ('list', sorted((rng.randint(1, 7) for _ in range(rng.randint(1, 4))), reverse=True)), ('int', rng.randint(1, 5)))
    if op == 'draw':
        return (key, op, ('list', list(S.random_class(rng, m))), ('text', ex.show(S.random_element(rng, m, 3, q=False), m.nq)))
    if op == 'expansion' and rng.random() < 0.5:
        # many terms that need not be classes of the space
        ps = {tuple(sorted((rng.randint(1, 6) for _ in range(rng.randint(1, 4))), reverse=True)) for _ in range(rng.randint(4, 9))}
        el_ = {((rng.choice([0, 0, 0, 1]),) + (0,) * (m.nq - 1), p): rng.randint(1, 9) for p in ps}
        return (key, op, ('text', ex.show(el_, m.nq)), ('int', rng.randint(0, 1)))
    if op == 'expansion':
        return (key, op, ('text', ex.show(S.random_element(rng, m, rng.choice([4, 8]), q=True), m.nq)), ('int', rng.randint(0, 1)))
    if op == 'arith':
        return (key, op, el(), el())
    return (key, op, rng.choice([el, one])())


BAD = [('act', ('text', 'S[2,1]'), ('text', 'S[1]')), ('qact', ('text', 'S[1,1]*S[3,2]'), ('text', 'S[]')),
       ('part2pair', ('text', 'S[2,')), ('mult', ('dict', None), ('text', 'S[1]')), ('qmult', ('text', 'S[1]'), ('list', [1, 2])),
       ('qmult', ('list', [2, 3]), ('text', 'S[1]')), ('dualize', ('text', 'S[1')), ('qtoS', ('text', '(S[1]')),
       ('giambelli', ('text', 'S[1] +* S[2]')), ('toS', ('dict', None)), ('qpieri', ('int', 1), ('dict', None)),
       ('pieri', ('int', 1), ('text', 'S[1]+')), ('part2index', ('text', ')')), ('act', ('text', 'S[3,2]'), ('text', 'S[]')),
       ('qact', ('text', 'q*S[2,2]'), ('text', 'S[1]'))]


def gen_bad(rng, key):
    """a call that is expected to fail (or to be meaningless)"""
    return (key,) + rng.choice(BAD)


def show_P(P):
    ts = []
    for mo, c in sorted(P.d.items(), key=repr):
        f = ['%s^%d' % (n, e) if e > 1 else n for n, e in ((ex.S(v[1]) if isinstance(v, tuple) else v, e) for v, e in mo)]
        ts.append('(%s)' % '*'.join((['%s' % c] if c != 1 or not f else []) + f))
    return ' + '.join(ts) or '0'


def neighbour(rng, call):
    """the same call with one coefficient (or one power of q) of one argument changed; None if there is none to change"""
    args = list(call[2:])
    idx = [i for i, a in enumerate(args) if a[0] in ('text', 'lc', 'sym') and call[1] not in ('index2part', 'pair2part')]
    if not idx:
        return None
    i = rng.choice(idx)
    try:
        P = ex.parse(args[i][1])
    except Exception:
        return None
    if not P.d:
        return None
    d = dict(P.d)
    mos = sorted(d, key=repr)
    # with many terms mostly one in the middle: the first and the last are what a careless comparison looks at
    mo = rng.choice(mos[1:-1] if len(mos) > 2 and rng.random() < 0.7 else mos)
    d[mo] = d[mo] + rng.choice([1, 2, -1]) or d[mo] * 2
    args[i] = (args[i][0], show_P(ex.P(d)))
    return call[:2] + tuple(args)


def build(a):
    """data -> argument"""
    import schubertpy as api
    kind, v = a
    if kind == 'list':
        return [list(x) if isinstance(x, list) else x for x in v]
    if kind == 'schur':
        return api.Schur(list(v))
    if kind == 'lc':
        return api.LinearCombination(v)
    if kind == 'sym':
        return api.LinearCombination(v).expr
    if kind == 'dict':
        return {}
    return v


_stdout_lock = threading.Lock()


def perform(g, call, args):
    """-> (result object(s), text)"""
    import schubertpy as api
    op = call[1]
    if op == 'classes':
        r = g.schub_classes()
        return r, str(r)
    if op == 'generators':
        r = g.generators()
        return r, str(r) + str(g.point_class())
    if op == 'data':
        r = g.get_type_data()
        return r, str(list(r)) + str(g.degree_q())
    if op == 'str':
        return None, str(g)
    if op in ('table', 'qtable'):
        t = (api.QMultTable if op == 'qtable' else api.MultTable)(g)
        mtx = t.to_matrix()
        return t, str([str(x) for row in mtx for x in row])
    if op == 'poly':
        x = api.Schur(args[0])
        return None, x.to_polinomial_str(args[1]) + ' of %s' % x
    if op == 'rim':
        p = api.Partition(args[0])
        r = p.remove_rim_hooks(args[1], (2, 2))
        return None, '%s from %s' % (r, p)
    if op == 'draw':
        x = api.Schur(args[0])
        f = io.StringIO()
        with _stdout_lock, contextlib.redirect_stdout(f):
            x.print_partition()
            api.yd(args[0])
            api.LinearCombination(args[1]).draw_ascii_partition()
        return None, x.latex() + f.getvalue()
    if op == 'expansion':
        x = api.LinearCombination(args[0])
        r = x.schur_expansion(include_q=bool(args[1]))
        return r, str(r)
    if op == 'arith':
        a, b = (x if isinstance(x, api.LinearCombination) else api.LinearCombination(x) for x in args)
        r = 2 * a - b + a * 3
        return r, str(r)
    if op == 'schub_type':
        return None, str(g.schub_type(args[0]))
    r = getattr(g, op)(*args)
    return r, str(r)


def same(a, b):
    """equal outcome texts (or texts denoting the same element)"""
    if a == b:
        return True
    if a is None or b is None or a.startswith('EXC') or b.startswith('EXC'):
        return False
    try:
        return ex.parse(a) == ex.parse(b)
    except (ex.Unreadable, ValueError, SyntaxError):
        return False


def outcome(g, call, args=None):
    """text of the outcome of a call; exceptions are an outcome"""
    if g is None:
        g = S.sp(call[0]).make()
    try:
        if args is None:
            args = [build(a) for a in call[2:]]
        r, t = perform(g, call, args)
        return r, t
    except Exception as e:
        return None, 'EXC ' + type(e).__name__


def in_child(fn, *args, cpu=60, wall=240):
    """run fn in a forked child of this process and return (ok, value).  ok None: the child gave no answer
    (watchdog); False: it died or exceeded its CPU budget"""
    r, w = os.pipe()
    sys.stdout.flush()
    pid = os.fork()
    if pid == 0:
        code = 1
        try:
            os.close(r)
            signal.signal(signal.SIGVTALRM, signal.SIG_DFL)
            signal.setitimer(signal.ITIMER_VIRTUAL, cpu)
            try:
                data = pickle.dumps((0, fn(*args)))
            except BaseException as e:
                import traceback
                data = pickle.dumps((1, traceback.format_exc()[-2500:]))
            with os.fdopen(w, 'wb') as f:
                f.write(data)
            code = 0
        finally:
            os._exit(code)
    os.close(w)
    buf = []
    end = time.time() + wall
    with os.fdopen(r, 'rb', 0) as f:
        while True:
            left = end - time.time()
            if left <= 0 or not select.select([f], [], [], left)[0]:
                os.kill(pid, signal.SIGKILL)
                os.waitpid(pid, 0)
                return None, 'watchdog after %d s' % wall
            b = f.read(1 << 16)
            if not b:
                break
            buf.append(b)
    _, st = os.waitpid(pid, 0)
    data = b''.join(buf)
    if st != 0 or not data:
        return False, 'child ended with status %d%s' % (st, ' (CPU budget of %d s used up)' % cpu if os.WIFSIGNALED(st) and os.WTERMSIG(st) == signal.SIGVTALRM else '')
    err, v = pickle.loads(data)
    if err:
        raise RuntimeError('in a forked child: ' + v)
    return True, v


def pristine(call):
    """the outcome of the call in a process in which nothing was computed before"""
    with contextlib.redirect_stdout(io.StringIO()):
        return outcome(None, call)[1]


def baseline(ctx, call, memo):
    key = repr(call)
    if key not in memo:
        ok, v = in_child(pristine, call)
        if ok is None:
            raise RuntimeError('baseline of %s: %s' % (show(call), v))
        memo[key] = v if ok else 'EXC child: ' + v
        if not ok:
            ctx.fail('%s in a fresh process: %s' % (show(call), v))
    return memo[key]


def show(call):
    return '%s(%d,%d).%s(%s)' % (call[0] + (call[1], ', '.join('%s as %s' % (a[1], a[0]) for a in call[2:])))
