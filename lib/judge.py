"""Monitor and oracle for the ring operations.

install() interposes on the public methods of the three spaces.  Every *outermost* call made by any
workload (ours, the README, the repository's own tests) becomes an event; the oracle computes from the
reference model what the call has to return and compares the printed result.  Arguments outside the
documented domain are recorded but not judged."""
import signal
import threading
import traceback
from fractions import Fraction

import expr as ex
import harness
import refmodel as rm
import spaces as S

OPS = ('pieri', 'qpieri', 'act', 'qact', 'mult', 'qmult', 'qmult_rh', 'toS', 'qtoS', 'giambelli', 'qgiambelli',
       'dualize', 'type_swap', 'miami_swap', 'part2index', 'index2part', 'part2pair', 'pair2part')


class OutOfDomain(Exception):
    pass


# ------------------------------------------------------------------ values of arguments
def poly_terms(model, P):
    """P -> list of (coeff, qexp, [lam with multiplicity])"""
    out = []
    for m, c in P.d.items():
        q = [0] * model.nq
        lams = []
        for v, e in m:
            if isinstance(v, tuple):
                lams += [v[1]] * e
            elif model.nq == 1 and v == 'q':
                q[0] += e
            elif model.nq == 2 and v in ('q1', 'q2'):
                q[int(v[1]) - 1] += e
            else:
                raise OutOfDomain(v)
        out.append((c, tuple(q), lams))
    return out


def in_basis(model, lam):
    if not all(isinstance(x, int) for x in lam):
        return False
    core = lam[:-1] if lam and lam[-1] == 0 else lam
    if any(x < 1 for x in core) or len(core) > model.rows or (core and core[0] > model.cols):
        return False
    if any(a < b for a, b in zip(core, core[1:])):
        return False
    if model.type != 'A' and any(a == b and a > model.k for a, b in zip(core, core[1:])):
        return False
    if core != lam:
        return model.type == 'D' and model.k > 0 and model.k in core
    return True


def linear(model, P):
    """P as an element; OutOfDomain unless a combination of Schubert classes of the space"""
    el = {}
    for c, q, lams in poly_terms(model, P):
        if len(lams) != 1 or not in_basis(model, lams[0]):
            raise OutOfDomain('not a combination of Schubert classes')
        rm.add_into(el, {(q, lams[0]): c})
    return el


def ring_value(model, P, start=None, quantum=True, special=False):
    """value of a polynomial in Schubert classes, times start"""
    specials = {model.special(p): p for p in model.specials()}
    out = {}
    for c, q, lams in poly_terms(model, P):
        r = dict(start) if start is not None else model.one()
        for lam in lams:
            if special:
                if lam not in specials:
                    raise OutOfDomain('not special: %s' % (lam,))
                r = (model.act if quantum else model.cact)(specials[lam], r)
            else:
                if not in_basis(model, lam):
                    raise OutOfDomain('not a class: %s' % (lam,))
                r = model.mul(model.cls(lam), r, quantum)
        rm.add_into(out, rm.qmul(r, q), c)
    return S.norm(out)


def argtext(x):
    """what an argument denotes, as text; taken before the call"""
    import schubertpy as s
    if isinstance(x, str):
        return x
    if isinstance(x, list):
        if all(isinstance(i, int) for i in x):
            return ex.S(x)
        raise OutOfDomain('list')
    if isinstance(x, s.Schur):
        return ex.S(x.p) if all(isinstance(i, int) for i in x.p) else str(x)
    if isinstance(x, (int, s.LinearCombination)):
        return str(x)
    return str(s.LinearCombination(x))


def expected(model, op, args):
    """-> element the call must return (or ('giambelli', element, quantum))"""
    quantum = op.startswith('q')
    base = op[1:] if quantum else op
    if op in ('pieri', 'qpieri'):
        p = args[0]
        if p not in model.specials():
            raise OutOfDomain('special class %s' % p)
        el = linear(model, ex.parse(args[1]))
        return S.norm((model.act if quantum else model.cact)(p, el))
    if base == 'act':
        el = linear(model, ex.parse(args[1]))
        return ring_value(model, ex.parse(args[0]), el, quantum, special=True)
    if op in ('mult', 'qmult', 'qmult_rh'):
        el = linear(model, ex.parse(args[1]))
        if op == 'qmult_rh':
            linear(model, ex.parse(args[0]))
        return ring_value(model, ex.parse(args[0]), el, quantum)
    if base == 'toS':
        return ring_value(model, ex.parse(args[0]), None, quantum)
    if base == 'giambelli':
        return ('giambelli', ring_value(model, ex.parse(args[0]), None, quantum), quantum)
    if op in ('dualize', 'type_swap', 'miami_swap', 'part2index', 'index2part', 'part2pair', 'pair2part'):
        P = ex.parse(args[0])
        if op == 'index2part':
            f = model.part_of
        elif op == 'pair2part':
            f = lambda v: unpair(model, v)
        else:
            linear(model, P)
            g = {'dualize': model.dual, 'type_swap': model.swap, 'part2index': model.index,
                 'part2pair': lambda l: pair(model, l),
                 'miami_swap': lambda l: model.swap(l) if sum(1 for x in l if x > model.k) % 2 else l}[op]
            f = g
        el = {}
        for c, q, lams in poly_terms(model, P):
            if len(lams) != 1:
                raise OutOfDomain('not linear')
            v = f(lams[0])
            if v is None:
                raise OutOfDomain('not in the image')
            rm.add_into(el, {(q, v): c})
        return S.norm(el)
    raise OutOfDomain(op)


def pair(model, lam):
    """(conjugate of the first k columns padded to k entries, the rest), type D marker kept below"""
    if model.type == 'A':
        raise OutOfDomain('type A')
    k = model.k
    top = rm.conj([min(x, k) for x in lam])
    top = top + (0,) * (k - len(top))
    bot = rm.clip([max(x - k, 0) for x in lam])
    if lam and lam[-1] == 0:
        bot = bot + (0,)
    return (top, bot)


def unpair(model, v):
    """the class of the space with this pair, or None"""
    if len(v) != 2 or not all(isinstance(x, tuple) and all(isinstance(y, int) and y >= 0 for y in x) for x in v):
        return None
    top, bot = v
    rows = [0] * max(len(bot), max(top, default=0))
    for i, x in enumerate(bot):
        rows[i] += x
    for i in range(len(rows)):
        rows[i] += sum(1 for y in top if y > i)
    lam = tuple(x for x in rows if x) + ((0,) if bot and bot[-1] == 0 else ())
    return lam if in_basis(model, lam) and pair(model, lam) == (tuple(top), tuple(bot)) else None


EXPAND = ('mult', 'qmult', 'act', 'qact', 'toS', 'qtoS')


def compare(model, op, args, text, want=None):
    """None if the printed result is what the reference model says, else a description"""
    if want is None:
        want = expected(model, op, args)
    try:
        got = ex.parse(text)
    except ex.Unreadable:
        return 'result cannot be read: %s' % text[:300]
    if isinstance(want, tuple):
        _, value, quantum = want
        specials = {model.special(p) for p in model.specials()}
        for m in got.d:
            for v, e in m:
                if isinstance(v, tuple) and v[1] not in specials:
                    return 'formula contains %s, which is not a special class: %s' % (ex.S(v[1]), text[:300])
                if not isinstance(v, tuple) and not quantum and v not in _qvars(ex_args(args)):
                    return 'classical formula contains %s: %s' % (v, text[:300])
        try:
            val = ring_value(model, got, None, quantum, special=True)
        except OutOfDomain as e:
            return 'formula contains the foreign variable %s: %s' % (e, text[:300])
        if val != value:
            return 'formula %s has the value %s, expected %s' % (text[:300], ex.show(val, model.nq), ex.show(value, model.nq))
        return None
    try:
        el = S.norm(ex.element(text, model.nq))
    except ex.Unreadable as e:
        return 'not an expanded combination: %s (expected %s)' % (e, ex.show(want, model.nq))
    if el != want:
        return 'returned %s, expected %s' % (text[:600], ex.show(want, model.nq)[:600])
    if op in EXPAND and not expanded(text):
        return 'not expanded: %s' % text[:300]
    return None


def expanded(text):
    """no brackets other than the S[...] ones: a plain sum of terms"""
    return '(' not in ex._TOK.sub('S', text)


def ex_args(args):
    return ' '.join(str(a) for a in args)


def _qvars(text):
    return {v for v in ('q', 'q1', 'q2') if v in text}


# ------------------------------------------------------------------ the monitor
class _State(threading.local):
    depth = 0


_state = _State()
_sink = {'fn': None, 'ops': set()}


def install(fn, ops):
    """fn(cls, m, N, op, args(list of int/str), result text or None, exception or None)"""
    import schubertpy as s
    _sink['fn'], _sink['ops'] = fn, set(ops)
    for name, cls in (('Gr', s.Grassmannian), ('IG', s.IsotropicGrassmannian), ('OG', s.OrthogonalGrassmannian)):
        _wrap_init(cls, name)
        for op in OPS:
            m = getattr(cls, op, None)
            if m is not None and not getattr(m, '_vp', False):
                setattr(cls, op, _wrap(m, op))


def _wrap_init(cls, name):
    orig = cls.__init__
    if getattr(orig, '_vp', False):
        return

    def __init__(self, *a, **kw):
        orig(self, *a, **kw)
        if len(a) == 2 and not kw:
            object.__setattr__(self, '_vp_space', (name,) + tuple(a))
    __init__._vp = True
    cls.__init__ = __init__


def _wrap(orig, op):
    def method(self, *a, **kw):
        if _state.depth or _sink['fn'] is None or op not in _sink['ops'] or kw:
            _state.depth += 1
            try:
                return orig(self, *a, **kw)
            finally:
                _state.depth -= 1
        space = getattr(self, '_vp_space', None)
        args = None
        try:
            if space is not None:
                if op in ('pieri', 'qpieri'):
                    args = [a[0]] + [argtext(x) for x in a[1:]]
                elif op == 'type_swap':
                    args = [argtext(a[0])]
                elif op == 'pair2part' and isinstance(a[0], list):
                    args = ['S' + str(a[0]).replace(' ', '')]
                else:
                    args = [argtext(x) for x in a]
        except Exception:
            args = None
        _state.depth += 1
        try:
            r = orig(self, *a, **kw)
        except BaseException as e:
            _state.depth -= 1
            if args is not None and not isinstance(e, harness.Stop):
                _sink['fn'](space, op, args, None, e)
            raise
        _state.depth -= 1
        if args is not None:
            # str() of the result is part of what the user sees
            try:
                text = str(r)
            except Exception as e:
                _sink['fn'](space, op, args, None, e)
                return r
            _sink['fn'](space, op, args, text, None)
        return r
    method._vp = True
    method.__name__ = op
    return method


def judge_events(ctx, ops, tag='events'):
    """install the monitor so that every outermost call of the given operations is judged for ctx"""
    def fn(space, op, args, text, exc):
        model = rm.Space.of(*space) if _supported(space) else None
        if model is None:
            ctx.note('events_unsupported_space')
            return
        signal.setitimer(signal.ITIMER_VIRTUAL, 0)
        try:
            want = expected(model, op, args)
        except (OutOfDomain, ex.Unreadable):
            ctx.note('events_out_of_domain')
            return
        if exc is not None:
            if isinstance(exc, harness.Overrun):
                return
            ctx.fail('%s.%s(%s) raised %s: %s' % (fmt(space), op, ', '.join(map(str, args)), type(exc).__name__, str(exc)[:200]),
                     traceback=''.join(traceback.format_exception(exc))[-1500:])
            return
        bad = compare(model, op, args, text, want)
        ctx.note('%s_%s' % (op, space[0] if space[0] != 'OG' else 'OG' + 'DB'[space[2] % 2]))
        ctx.seen((space, op, tuple(args)), text != '0', '%s.%s(%s) -> %s' % (fmt(space), op, ', '.join(map(str, args)), text))
        if bad:
            ctx.fail('%s.%s(%s): %s' % (fmt(space), op, ', '.join(map(str, args)), bad))
    install(fn, ops)


def _supported(space):
    cls, m, N = space
    if not (isinstance(m, int) and isinstance(N, int)) or isinstance(m, bool):
        return False
    if cls == 'Gr':
        return 0 <= m <= N and N >= 1
    if cls == 'IG':
        return N % 2 == 0 and N >= 2 and 0 <= m <= N // 2
    return N >= 3 and (0 if N % 2 else 1) <= m <= N // 2


def fmt(space):
    return '%s(%d,%d)' % tuple(space)
