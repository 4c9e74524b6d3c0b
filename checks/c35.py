"""What an expression or a partition says about its own shape: number of operands, operator, classes, linearity, padding;
membership in a box, validity, clipping, rows of a skew shape."""
from fractions import Fraction

import expr as ex
import polytext as pt
import spaces as S
import work

RULE = ('one observation = one question put to one expression (or one partition) and its answer compared with the exact polynomial '
        '(or the boxes of the partition); non-trivial = the expression is neither 0 nor a single class, the partition not empty; '
        'distinct = distinct (question, expression as given)')
MIN = {'quick': 15000, 'thorough': 120000}
MUST_SEE = ('sums', 'products', 'powers', 'single_classes', 'numbers', 'zero', 'one_term_left', 'q_only', 'linear', 'not_linear', 'padded',
            'not_padded', 'results_of_operations', 'given_as_str', 'given_as_LinearCombination', 'given_as_expr', 'given_as_list',
            'given_as_Schur', 'operator_refused', 'schur_padding', 'skew_heights', 'skew_refused', 'clips', 'valid_parts', 'invalid_parts',
            'boxes', 'boxes_refused', 'fractions', 'repeated_class')
ASSUMES = ['expressions are sums of monomials with rational coefficients; the order in which operands are listed is not fixed']


def units(tier, rng):
    n = 160 if tier == 'quick' else 1200
    out = [('expressions', i) for i in range(n)] + [('partitions', i) for i in range(n // 4)]
    keys = S.upto(40, 6, 8, 8) + work.MEDIUM
    for key in keys:
        out.append(('results', key))
    rng.shuffle(out)
    return out


def monomial(rng, parts, linear):
    fs = {}
    for _ in range(rng.choice([0, 1, 1, 1]) if linear else rng.choice([0, 1, 1, 2, 2, 3])):
        v = ex.S(rng.choice(parts))
        fs[v] = fs.get(v, 0) + (1 if linear else rng.choice([1, 1, 2, 3, rng.randint(4, 12)]))
    if rng.random() < (0.15 if linear else 0.4):
        for _ in range(1 if linear else 2):
            v = rng.choice(['q', 'q', 'q1', 'q2'])
            fs[v] = fs.get(v, 0) + rng.choice([1, 1, 2, 5])
    return fs


def text(rng, terms):
    """a sum of monomials [(coefficient, {variable: exponent})] as text"""
    sp = rng.choice(['', ' ', ' '])
    t = ''
    for c, fs in terms:
        c = Fraction(c)
        l = []
        for v, e in fs.items():
            v = pt.spaced(rng, v)
            if e == 1 or rng.random() < 0.2:
                l += [v] * e
            else:
                l.append('%s%s%d' % (v, rng.choice(['^', '**']), e))
        rng.shuffle(l)
        if abs(c.numerator) != 1 or not l or rng.random() < 0.1:
            l.insert(0, str(abs(c.numerator)))
        m = '*'.join(l) + ('/%d' % c.denominator if c.denominator != 1 else '')
        t += (sp + '-' + sp if c < 0 else sp + '+' + sp if t else '') + m
    return t.strip() or '0'


def operands(p):
    """(number of top-level operands, operator or None) of an expanded polynomial"""
    if len(p.d) != 1:
        return (len(p.d) or 1), ('+' if len(p.d) > 1 else None)
    (mo, c), = p.d.items()
    n = len(mo) + (c != 1)
    if n > 1:
        return n, '*'
    if n == 1 and mo and mo[0][1] > 1:
        return 1, '^'
    return 1, None


def flat(x):
    if isinstance(x, (list, tuple)):
        return [z for y in x for z in flat(y)]
    return [] if x is None else [x]


def linear(p):
    """sums of numbers and of numbers times one class or variable"""
    return all(len(mo) <= 1 and all(e == 1 for v, e in mo) for mo in p.d)


def ask(ctx, lc, what, p):
    n, op = operands(p)
    deep = bool(p.d) and not (n == 1 and op is None)
    ok, v = ctx.call('len(%s)' % what, len, lc)
    ctx.seen(('len', what), deep, 'len(%s) = %s' % (what, v))
    ctx.check(v == n and isinstance(v, int), 'len(%s) = %s; the expression has %d top-level operand(s)' % (what, v, n))
    for o in '+*^':
        ok, v = ctx.call('%s.is_operator(%r)' % (what, o), lc.is_operator, o)
        ctx.seen(('is_operator', o, what), deep)
        ctx.check(v is (o == op), '%s.is_operator(%r) = %s' % (what, o, v))
    ctx.note({'+': 'sums', '*': 'products', '^': 'powers', None: 'single_operands'}[op])
    if op is None:
        mo = next(iter(p.d)) if p.d else ()
        ctx.note('zero' if not p.d else 'numbers' if not mo else 'single_classes' if isinstance(mo[0][0], tuple) else 'q_only')
    ok, v = ctx.call('%s.list_schur_oprands()' % what, lc.list_schur_oprands)
    got = sorted(str(s) for s in flat(v))
    want = sorted(ex.S(w[1]) for mo in p.d for w, e in mo if isinstance(w, tuple))
    ctx.seen(('list', what), deep, '%s.list_schur_oprands() = %s' % (what, v))
    ctx.check(got == want, '%s.list_schur_oprands() = %s, the classes in it are %s' % (what, v, want))
    if len(set(want)) < len(want):
        ctx.note('repeated_class')
    if n == 1 and op is None:
        ctx.check(not isinstance(v, (list, tuple)), '%s.list_schur_oprands() = %s for a single operand' % (what, v))
    else:
        ctx.check(isinstance(v, list) and len(v) == (2 if op == '^' else n),
                  '%s.list_schur_oprands() = %s does not have one entry per operand' % (what, v))
    ok, v = ctx.call('%s.is_valid()' % what, lc.is_valid)
    w = linear(p)
    ctx.note('linear' if w else 'not_linear')
    ctx.seen(('is_valid', what), deep)
    ctx.check(v is w, '%s.is_valid() = %s' % (what, v))
    ok, v = ctx.call('%s.has_part_zero_padding()' % what, lc.has_part_zero_padding)
    w = any(x[1] and x[1][-1] == 0 for mo in p.d for x, e in mo if isinstance(x, tuple))
    ctx.note('padded' if w else 'not_padded')
    ctx.seen(('padding', what), deep)
    ctx.check(v is w, '%s.has_part_zero_padding() = %s' % (what, v))
    ok, v = ctx.call('str(%s)' % what, str, lc)
    try:
        ctx.check(ex.parse(v).d == p.d, '%s prints as %s after it was asked about its structure' % (what, v))
    except ex.Unreadable as u:
        ctx.fail('%s prints as %s: %s' % (what, v, u))


def expressions(ctx, i):
    import schubertpy as api
    rng = ctx.rng
    for _ in range(12):
        parts = [tuple(pt.part(rng, pairs=False, big=rng.random() < 0.2)) for _ in range(rng.randint(1, 4))]
        if rng.random() < 0.3:
            # classes that differ only in a trailing zero
            parts += [x + (0,) for x in parts if x][:2]
        lin = rng.random() < 0.5
        ts = []
        for _ in range(rng.choice([0, 1, 1, 1, 2, 2, 3, 5, 9])):
            c = Fraction(rng.choice([1, 1, 1, -1, 2, 3, -7, 12, 10 ** 20]), rng.choice([1, 1, 1, 1, 2, 3]))
            if c.denominator != 1:
                ctx.note('fractions')
            ts.append((c, monomial(rng, parts, lin)))
        if rng.random() < 0.2:
            v = rng.choice([ex.S(rng.choice(parts)), ex.S(rng.choice(parts)), 'q', 'q2'])
            ts = [(Fraction(1), {v: rng.choice([1, 1, 2, 3, 11])})]
        if ts and rng.random() < 0.3:
            # terms that cancel or merge
            c, fs = rng.choice(ts)
            ts.append((rng.choice([-c, c, Fraction(1)]), dict(fs)))
        t = text(rng, ts)
        p = ex.parse(t)
        if len(ts) > 1 and len(p.d) == 1:
            ctx.note('one_term_left')
        forms = ['str', 'LinearCombination', 'expr']
        single = ts and len(p.d) == 1 and operands(p) == (1, None) and isinstance((next(iter(p.d)) or ((0,),))[0][0], tuple)
        if single:
            forms += ['list', 'Schur', 'Schur']
        form = rng.choice(forms)
        lam = next(iter(p.d))[0][0][1] if single else None
        ctx.note('given_as_' + form)
        x = {'str': lambda: t, 'LinearCombination': lambda: api.LinearCombination(t), 'expr': lambda: api.LinearCombination(t).expr,
             'list': lambda: list(lam), 'Schur': lambda: api.Schur(rng.choice([list, tuple])(lam))}[form]
        what = 'LinearCombination(%s %r)' % (form, t)
        ok, lc = ctx.call(what, lambda: api.LinearCombination(x()))
        if not ok:
            continue
        ask(ctx, lc, what, p)
        for o in rng.sample(['-', '/', '**', '', 'plus', '?', '+ '], 2):
            refused(ctx, '%s.is_operator(%r)' % (what, o), lambda: lc.is_operator(o))
            ctx.note('operator_refused')
    for _ in range(6):
        lam = pt.part(rng, pairs=False)
        t = pt.spaced(rng, ex.S(lam))
        for form, mk in (('list', lambda: api.Schur(list(lam))), ('tuple', lambda: api.Schur(tuple(lam))), ('text', lambda: api.Schur(t.replace(' ', '')))):
            ok, s = ctx.call('Schur(%s %s)' % (form, lam), mk)
            if ok:
                w = bool(lam) and lam[-1] == 0
                ok, v = ctx.call('Schur(%s).has_part_zero_padding()' % lam, s.has_part_zero_padding)
                ctx.note('schur_padding')
                ctx.seen(('schur_padding', tuple(lam), form), bool(lam))
                ctx.check(v is w, 'Schur(%s %s).has_part_zero_padding() = %s' % (form, lam, v))


def refused(ctx, what, fn):
    try:
        v = fn()
    except ValueError:
        return
    except Exception as e:
        ctx.fail('%s raised %s: %s instead of ValueError' % (what, type(e).__name__, e))
        return
    ctx.fail('%s = %s instead of ValueError' % (what, v))


def results(ctx, key):
    """the same questions put to results of operations"""
    sp = S.sp(key)
    g = sp.make()
    m = sp.model
    rng = ctx.rng
    ops = ['mult', 'qmult', 'dualize', 'toS', 'qtoS'] + (['pieri', 'qpieri', 'giambelli', 'qgiambelli'] if m.specials() else [])
    for _ in range(6):
        op = rng.choice(ops)
        x = (ex.S(S.small_class(rng, m)) if m.specials() else 'S[]') if op != 'dualize' else S.spell(rng, S.random_element(rng, m, 3), m.nq)
        if 'mult' in op:
            args = (x, ex.S(S.random_class(rng, m)))
        elif 'pieri' in op:
            args = (rng.choice(m.specials()), ex.S(S.random_class(rng, m)))
        elif 'toS' in op:
            args = ('2*%s*%s + %s' % (x, ex.S(S.random_class(rng, m)), x),)
        else:
            args = (x,)
        what = '%s.%s(%s)' % (sp, op, ', '.join(map(str, args)))
        ok, r = ctx.call(what, getattr(g, op), *args)
        if not ok:
            continue
        try:
            p = ex.parse(str(r))
        except ex.Unreadable as u:
            ctx.fail('%s: %s' % (what, u))
            continue
        ctx.note('results_of_operations')
        ask(ctx, r, what, p)


def partitions(ctx, i):
    import schubertpy as api
    from schubertpy import partition as pa
    rng = ctx.rng
    for _ in range(60):
        lam = pt.part(rng, pairs=False, big=False)
        # clipping: exactly the trailing zeros go, the list passed in stays
        given = list(lam) + [0] * rng.choice([0, 0, 1, 3])
        keep = list(given)
        ok, v = ctx.call('part_clip(%s)' % given, pa.part_clip, given)
        w = list(given)
        while w and w[-1] == 0:
            w.pop()
        ctx.note('clips')
        ctx.seen(('clip', tuple(given)), bool(given))
        ctx.check(v == w and given == keep, 'part_clip(%s) = %s (the list passed in is now %s)' % (keep, v, given))
        # validity
        c = list(given)
        r = rng.random()
        if r < 0.3 and c:
            c[rng.randrange(len(c))] += rng.choice([-1, 1, 2, -5])
        elif r < 0.4:
            rng.shuffle(c)
        elif r < 0.45:
            c = c[::-1]
        elif r < 0.5 and c:
            c[-1] = -rng.randint(1, 3)
        elif r < 0.55 and c:
            c[rng.randrange(len(c))] = rng.choice([1.5, '1', None, [1]])
        elif r < 0.6:
            c = rng.choice([tuple(c), str(c), None, 3])
        w = isinstance(c, list) and all(isinstance(x, int) for x in c) and all(x >= 0 for x in c) and c == sorted(c, reverse=True)
        ok, v = ctx.call('is_valid_part(%r)' % (c,), pa.is_valid_part, c)
        ctx.note('valid_parts' if w else 'invalid_parts')
        ctx.seen(('valid', repr(c)), bool(c))
        ctx.check(v is w, 'is_valid_part(%r) = %s' % (c, v))
        if w:
            ok, P = ctx.call('Partition(%s)' % c, api.Partition, c)
            ctx.check(ok and P.partition == c and str(P) == str(c), 'Partition(%s) is %s' % (c, P))
        else:
            refused(ctx, 'Partition(%r)' % (c,), lambda: api.Partition(c))
        # membership in a box
        P = api.Partition(list(lam))
        rows, cols = len([x for x in lam if x]), (lam[0] if lam else 0)
        if not lam or lam[-1]:
            nr, nc = max(0, rows + rng.choice([-1, 0, 1, 0, 5])), max(0, cols + rng.choice([-1, 0, 1, 0, 5]))
            w = not lam or (rows <= nr and cols <= nc)
            ok, v = ctx.call('Partition(%s).is_in_range(%d, %d)' % (lam, nr, nc), P.is_in_range, nr, nc)
            ctx.note('boxes')
            ctx.seen(('box', tuple(lam), nr, nc), bool(lam))
            ctx.check(v is w, 'Partition(%s).is_in_range(%d, %d) = %s' % (lam, nr, nc, v))
        neg = rng.choice([(-1, cols), (rows, -1), (-rng.randint(1, 9), -1), (-1, 0), (0, -2)])
        ctx.note('boxes_refused')
        refused(ctx, 'Partition(%s).is_in_range%s' % (lam, neg), lambda: P.is_in_range(*neg))
        # rows of a skew shape
        mu = list(lam)
        la = []
        prev = None
        for x in mu:
            y = rng.choice([0, x, x, rng.randint(0, x)])
            y = y if prev is None else min(y, prev)
            la.append(y)
            prev = y
        cut = rng.random()
        while la and la[-1] == 0 and (cut < 0.7 or rng.random() < 0.3):
            la.pop()
        mu += [0] * rng.choice([0, 0, 0, 1, 2])
        if cut > 0.9:
            la += [0] * rng.choice([1, 2])
        bad = rng.random() < 0.25
        if bad:
            if la and rng.random() < 0.6:
                j = rng.randrange(len(la))
                la[:j + 1] = [max(z, (mu[j] if j < len(mu) else 0) + 1) for z in la[:j + 1]]
            else:
                n = len([x for x in mu if x])
                la = (la + [0] * n)[:n]
                la = [max(z, 1) for z in la] + [1]
        get = lambda t, k: t[k] if k < len(t) else 0
        L = max(len(la), len(mu))
        what = 'skew_partition_height(%s, %s)' % (la, mu)
        a, b = list(la), list(mu)
        if any(get(la, k) > get(mu, k) for k in range(L)):
            ctx.note('skew_refused')
            refused(ctx, what, lambda: pa.skew_partition_height(la, mu))
        else:
            w = sum(get(mu, k) > get(la, k) for k in range(L))
            ok, v = ctx.call(what, pa.skew_partition_height, la, mu)
            ctx.note('skew_heights')
            ctx.seen(('skew', tuple(la), tuple(mu)), bool(mu), '%s = %s' % (what, v))
            ctx.check(v == w, '%s = %s, the skew shape has %d non-empty rows' % (what, v, w))
        ctx.check((a, b) == (la, mu), '%s changed its arguments to %s, %s' % (what, la, mu))
