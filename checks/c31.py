"""Arithmetic on LinearCombination and Schur objects against exact polynomial arithmetic."""
from fractions import Fraction

import expr as ex
import polytext as pt

RULE = ('one observation = one operator application on a pool of classes, combinations, numbers and q variables, its value compared '
        'with exact polynomial arithmetic and its operands looked at again; or one comparison, sort or set of classes; non-trivial = '
        'a non-zero value or a pair of different classes; distinct = distinct (operator, operands as printed)')
MIN = {'quick': 8000, 'thorough': 120000}
MUST_SEE = ('lc+lc', 'lc-lc', 'lc*lc', 'lc+number', 'number+lc', 'lc-number', 'number-lc', 'lc*number', 'number*lc', 'lc+symbol', 'symbol+lc',
            'lc-symbol', 'symbol-lc', 'lc*symbol', 'symbol*lc', 'lc**n', 'lc**lc', 'schur+schur', 'schur*schur', 'schur**n', 'schur+number', 'number+schur',
            'schur*number', 'number*schur', 'schur+lc', 'lc+schur', 'schur*lc', 'lc*schur', 'lc-schur', 'schur-lc', 'schur*symbol', 'symbol*schur',
            'schur+symbol', 'symbol+schur', 'zero_results', 'zero_operands', 'negated', 'augmented', 'sum_builtin', 'power_zero', 'chained', 'same_object_twice',
            'sorted', 'sets', 'equal_pairs', 'less_pairs', 'fractions')
ASSUMES = ['numbers are ints and sympy rationals; exponents are ints from 0 to 4 (also as sympy integers)']


def units(tier, rng):
    n = 240 if tier == 'quick' else 1500
    out = [('program', i) for i in range(n)] + [('order', i) for i in range(n // 3)]
    rng.shuffle(out)
    return out


def number(rng, api, sp):
    r = rng.random()
    if r < 0.6:
        v = rng.choice([0, 1, -1, 2, 3, -7, 12, 10 ** 15 + 3, 10 ** 20 + 1, -(2 ** 70 + 3), 7 ** 40, rng.randint(-50, 50)])
        return v, Fraction(v)
    if r < 0.8:
        f = Fraction(rng.randint(-9, 9), rng.choice([2, 3, 7, 12, 3 ** 25]))
        return sp.Rational(f.numerator, f.denominator), f
    v = rng.randint(-5, 5)
    return sp.Integer(v), Fraction(v)


def shown(o):
    return '%s %s' % (type(o).__name__, o if not type(o).__module__.startswith('sympy') else str(o))


def program(ctx, i):
    import sympy as sp
    import schubertpy as api
    rng = ctx.rng
    pool = []       # (object, kind, value)

    def lc_of(t, v):
        how = rng.randrange(3)
        x = api.LinearCombination(t)
        if how == 1:
            x = api.LinearCombination(x.expr)
        elif how == 2:
            x = api.LinearCombination(x)
        return (x, 'lc', v)

    parts = [pt.part(rng, pairs=False, big=False) for _ in range(rng.randint(2, 5))]
    for _ in range(rng.randint(2, 4)):
        t, terms = pt.linear(rng, 4, parts)
        pool.append(lc_of(t, pt.value(terms)))
    if rng.random() < 0.3:
        pool.append(lc_of('0', ex.P()))
    if rng.random() < 0.3:
        t = pt.poly(rng, 2, pairs=False, parts=parts)
        if len(t) < 60:
            pool.append(lc_of(t, ex.parse(t)))
    for _ in range(rng.randint(2, 4)):
        p = rng.choice(parts)
        how = rng.randrange(4)
        s = api.Schur(list(p)) if how == 0 else api.Schur(tuple(p)) if how == 3 else api.Schur(pt.S(p)) if how == 1 else api.Schur(api.Schur(list(p)))
        pool.append((s, 'schur', ex.P.var(('S', tuple(p)))))
    for _ in range(rng.randint(2, 4)):
        n, f = number(rng, api, sp)
        pool.append((n, 'number', ex.P.const(f)))
    for n in rng.sample(['q', 'q1', 'q2'], rng.randint(1, 2)):
        pool.append((sp.Symbol(n), 'symbol', ex.P.var(n)))
    if rng.random() < 0.3:
        pool.append((sp.Symbol('q') ** 2 + 3, 'symbol', ex.P.var('q') ** 2 + ex.P.const(3)))

    def pick():
        if rng.random() < 0.5:
            k = rng.choice(['lc', 'schur', 'number', 'symbol'])
            return rng.choice([x for x in pool if x[1] == k])
        return rng.choice(pool)

    for step in range(rng.randint(60, 110) if ctx.quick else 120):
        a = pick()
        b = a if rng.random() < 0.08 else pick()
        op = rng.choice(['+', '+', '-', '-', '*', '*', '**', 'neg', 'iadd', 'isub', 'imul', 'sum'])
        kinds = {a[1], b[1]}
        if not kinds & {'lc', 'schur'}:
            continue
        was = (shown(a[0]), shown(b[0]), part(a[0]), part(b[0]))
        lc = 'lc' in kinds
        if a[0] is b[0]:
            ctx.note('same_object_twice')
        if op == '**':
            if a[1] not in ('lc', 'schur'):
                continue
            e = rng.randint(0, (13, 13, 9, 5, 3, 3)[len(a[2].d)] if rng.random() < 0.4 and len(a[2].d) < 6 else 4 if len(a[2].d) < 3 else 3 if len(a[2].d) < 6 else 1)
            w = '(%s)**%d' % (was[0], e)
            p = e if (x := rng.random()) < 0.6 else sp.Integer(e)
            if x > 0.8 and a[1] == 'lc':
                p = api.LinearCombination(p if x > 0.9 else e)
                ctx.note('lc**lc')
            ok, r = ctx.call(w, lambda: a[0] ** p)
            want = a[2] ** e
            lc = a[1] == 'lc'
            ctx.note(a[1] + '**n')
            if e == 0:
                ctx.note('power_zero')
        elif op == 'neg':
            if a[1] != 'lc':
                continue
            w = '-1 * (%s), 0 - (...)' % was[0]
            ok, r = ctx.call(w, lambda: (-1 * a[0]) if rng.random() < 0.5 else (0 - a[0]))
            want = -a[2]
            lc = True
            ctx.note('negated')
        elif op == 'sum':
            xs = [x for x in (rng.choice(pool) for _ in range(6)) if x[1] == 'lc'][:4]
            if len(xs) < 2:
                continue
            w = 'sum of %s' % [shown(x[0]) for x in xs]
            ok, r = ctx.call(w, lambda: sum((x[0] for x in xs[1:]), xs[0][0]) if rng.random() < 0.5 else sum(x[0] for x in xs))
            want = ex.P()
            for x in xs:
                want = want + x[2]
            lc = True
            ctx.note('sum_builtin')
        elif op in ('iadd', 'isub', 'imul'):
            if a[1] != 'lc':
                continue

            def run():
                x = a[0]
                if op == 'iadd':
                    x += b[0]
                elif op == 'isub':
                    x -= b[0]
                else:
                    x *= b[0]
                return x
            if op == 'imul' and len(a[2].d) * len(b[2].d) > 60:
                continue
            w = '(%s) %s (%s)' % (was[0], {'iadd': '+=', 'isub': '-=', 'imul': '*='}[op], was[1])
            ok, r = ctx.call(w, run)
            want = a[2] + b[2] if op == 'iadd' else a[2] - b[2] if op == 'isub' else a[2] * b[2]
            ctx.note('augmented')
        else:
            if op == '-' and not lc:
                continue
            if op == '*' and len(a[2].d) * len(b[2].d) > 60:
                continue
            w = '(%s) %s (%s)' % (was[0], op, was[1])
            fn = {'+': lambda: a[0] + b[0], '-': lambda: a[0] - b[0], '*': lambda: a[0] * b[0]}[op]
            ok, r = ctx.call(w, fn)
            want = a[2] + b[2] if op == '+' else a[2] - b[2] if op == '-' else a[2] * b[2]
            ctx.note(a[1] + op + b[1])
            if not a[2].d or not b[2].d:
                ctx.note('zero_operands')
        now = (shown(a[0]), shown(b[0]), part(a[0]), part(b[0]))
        ctx.check(now == was, '%s changed an operand: %s became %s' % (w, was, now))
        if not ok:
            continue
        if lc and a[1] != 'schur':
            ctx.check(isinstance(r, api.LinearCombination), '%s is a %s' % (w, type(r).__name__))
        if any(c.denominator != 1 for c in want.d.values()):
            ctx.note('fractions')
        if not want.d:
            ctx.note('zero_results')
        ok, t = ctx.call('the text of %s' % w, lambda: str(api.LinearCombination(r)))
        if not ok:
            continue
        got = ex.parse(t)
        ctx.check(got == want, '%s = %s, expected %s' % (w, t, want))
        if isinstance(r, api.LinearCombination):
            ctx.check(ex.parse(str(r)) == want and repr(r) == str(r), '%s prints as %s and %r' % (w, r, r))
        ctx.seen((op,) + was, bool(want.d), '%s = %s' % (w, t))
        if isinstance(r, api.LinearCombination) and got == want and len(want.d) <= 12 and len(t) < 400 and ('**' not in t) and len(pool) < 40 \
                and max([sum(e for _, e in m) for m in want.d] or [0]) <= 12 and max([len(str(c)) for c in want.d.values()] or [0]) < 60:
            pool.append((r, 'lc', want))
            ctx.note('chained')


def part(o):
    return repr(o.partition()) if hasattr(o, 'partition') and not hasattr(o, 'free_symbols') else None


def order(ctx, i):
    import schubertpy as api
    rng = ctx.rng
    ps = []
    for _ in range(rng.randint(4, 14)):
        p = rng.choice(ps) if ps and rng.random() < 0.35 else pt.part(rng, pairs=False)
        if ps and rng.random() < 0.2:
            p = list(rng.choice(ps))
            if p and rng.random() < 0.5:
                p = p[:-1]
            else:
                p = p + [rng.randint(0, p[-1] if p else 3)]
        ps.append(list(p))
    xs = [api.Schur(list(p)) if rng.random() < 0.7 else api.Schur(pt.spaced(rng, pt.S(p))) for p in ps]
    for _ in range(40):
        j, k = rng.randrange(len(xs)), rng.randrange(len(xs))
        a, b, p, q = xs[j], xs[k], ps[j], ps[k]
        w = '%s and %s' % (a, b)
        ctx.check((a == b) == (p == q), '%s: == is %s' % (w, a == b))
        ctx.check((a != b) == (p != q), '%s: != is %s' % (w, a != b))
        ctx.check((a < b) == (p < q), '%s: < is %s' % (w, a < b))
        ctx.check((a > b) == (p > q), '%s: > is %s' % (w, a > b))
        if p == q:
            ctx.check(hash(a) == hash(b), '%s are equal with hashes %s and %s' % (w, hash(a), hash(b)))
            ctx.note('equal_pairs')
        if p < q:
            ctx.note('less_pairs')
        ctx.check(not a == pt.S(p) and not a == p, '%s equals its text or list' % a)
        ctx.seen(('order', tuple(p), tuple(q)), p != q, None)
    ok, s = ctx.call('sorted(%s)' % xs, sorted, xs)
    if ok:
        ctx.check([x.partition() for x in s] == sorted(ps), 'sorted(%s) = %s' % (xs, s))
        ctx.check([x.partition() for x in xs] == ps, 'sorting changed the list or its classes: %s' % xs)
        ctx.note('sorted')
    uniq = []
    for p in ps:
        if p not in uniq:
            uniq.append(p)
    ok, s = ctx.call('set(%s)' % xs, set, xs)
    if ok:
        ctx.check(sorted(x.partition() for x in s) == sorted(uniq), 'set(%s) = %s' % (xs, s))
        ctx.note('sets')
    d = {}
    for x in xs:
        d[x] = d.get(x, 0) + 1
    for x, p in zip(xs, ps):
        ctx.check(d.get(api.Schur(list(p))) == ps.count(p), 'a dictionary keyed by classes counts %s %s times in %s' % (x, d.get(x), ps))
        ctx.check(api.Schur(list(p)) in xs and xs.index(x) == ps.index(p), '%s is not found in %s' % (x, xs))
    ctx.check([x.partition() for x in xs] == ps, 'comparing changed the classes: %s' % xs)
