"""Round trips text -> object -> text, against an independent exact reader of the notation."""
import re

import expr as ex
import polytext as pt
import spaces as S

RULE = ('one observation = one text parsed, printed and re-parsed (LinearCombination) or one class written and read back in one '
        'form (Schur), its exact value read by an independent reader; non-trivial = non-constant value; distinct = distinct text')
MIN = {'quick': 4000, 'thorough': 60000}
MUST_SEE = ('pair_index', 'trailing_zero', 'multi_digit_part', 'empty_partition', 'fraction', 'nested_power', 'operation_results', 'schur_forms', 'many_terms')

TOKEN = re.compile(r'(S\[(?:\d+(?:,\d+)*|\[[\d,]*\],\[[\d,]*\])?\]|q[12]?|\d+|[-+*/^()]| )')


def units(tier, rng):
    n = 60 if tier == 'quick' else 700
    out = [('texts', i) for i in range(n)] + [('schurs', i) for i in range(n // 3)]
    keys = S.upto(20, 5, 8, 9)
    out += [('results', k) for k in keys]
    rng.shuffle(out)
    return out


def in_notation(t):
    return ''.join(TOKEN.findall(t)) == t


def round_trip(ctx, what, o, P, deep=True):
    import schubertpy as api
    t = str(o)
    ctx.check(in_notation(t), '%s prints %r, which is not in the documented notation' % (what, t[:400]))
    v = ex.parse(t)
    ctx.seen(('lc', what), bool(set(P.d) - {()}), '%s -> %s' % (what, t))
    ctx.check(v == P, '%s prints %s, which has another value' % (what, t[:600]))
    ctx.check(repr(o) == t, '%s: repr %s differs from str %s' % (what, repr(o)[:300], t[:300]))
    ok, o2 = ctx.call('LinearCombination(%r)' % t, api.LinearCombination, t)
    if ok:
        # (a printed product may be distributed differently when it is read again: the value counts)
        ctx.check(ex.parse(str(o2)) == P, '%s prints %s; reading that gives %s' % (what, t[:400], str(o2)[:400]))
        ctx.check(sym_equal(o2.expr, o.expr), '%s prints %s; reading that gives a different expression' % (what, t[:400]))
    return t


def sym_equal(a, b):
    import sympy
    return a == b or sympy.expand(a - b) == 0


def texts(ctx, i):
    import schubertpy as api
    rng = ctx.rng
    for j in range(60 if ctx.quick else 90):
        if j % 3:
            t = pt.poly(rng, depth=rng.choice([1, 2, 2, 3]))
            P = ex.parse(t)
            if len(P.d) > 400:
                continue
        elif j % 30 == 0:
            # many terms, pairs with empty, zero and short second halves among them
            t, terms = pt.linear(rng, rng.choice([12, 30, 60]), parts=many_parts(rng), distinct=False)
            P = pt.value(terms)
            ctx.note('many_terms')
            if not t:
                continue
        else:
            t, terms = pt.linear(rng, 8, pairs=True, distinct=False)
            P = pt.value(terms)
            if not t:
                continue
        flags(ctx, t)
        ok, o = ctx.call('LinearCombination(%r)' % t, api.LinearCombination, t)
        if not ok:
            continue
        round_trip(ctx, 'LinearCombination(%r)' % t, o, P)
        if j % 7 == 0:
            for o2 in (api.LinearCombination(o), api.LinearCombination(o.expr)):
                ctx.check(ex.parse(str(o2)) == P, 'LinearCombination(LinearCombination(%r)) prints %s' % (t, str(o2)[:400]))


def many_parts(rng):
    out = []
    for _ in range(50):
        r = rng.random()
        a = sorted((rng.randint(0, rng.choice([2, 12])) for _ in range(rng.randint(0, 4))), reverse=True)
        b = rng.choice([[], [0], [2], [1], [3, 1], [2, 0], [10], [11, 4, 0]])
        out.append([a, b] if r < 0.6 else pt.part(rng))
    return out


def flags(ctx, t):
    t = t.replace(' ', '')
    for n, r in (('pair_index', r'\[\['), ('trailing_zero', r',0\]'), ('multi_digit_part', r'\[\d\d'), ('empty_partition', r'S\[\]'),
                 ('fraction', r'/'), ('nested_power', r'\)(\^|\*\*)')):
        if re.search(r, t):
            ctx.note(n)


def schurs(ctx, i):
    import schubertpy as api
    rng = ctx.rng
    for _ in range(60):
        p = pt.part(rng, pairs=True)
        t = pt.S(p)
        want = ex._tup(p)
        objs = [('Schur(%s)' % p, api.Schur, [list(x) if isinstance(x, list) else x for x in p]),
                ('Schur(%r)' % t, api.Schur, t), ('Schur(symbol %s)' % t, api.Schur, api.LinearCombination(t).expr)]
        if not any(isinstance(x, list) for x in p):
            objs.append(('Schur(%s)' % (tuple(p),), api.Schur, tuple(p)))
        made = []
        for w, f, a in objs:
            ok, s = ctx.call(w, f, a)
            if not ok:
                continue
            made.append((w, s))
            st = str(s)
            ctx.seen(('schur', w), True, '%s -> %s' % (w, st))
            ctx.note('schur_forms')
            ctx.check(st == t, '%s prints %s' % (w, st))
            ctx.check(repr(s) == st, '%s: repr %s' % (w, repr(s)))
            ctx.check(ex._tup(s.partition()) == want, '%s has partition %s' % (w, s.partition()))
            ctx.check(ex.parse(str(api.LinearCombination(s))) == ex.P.var(('S', want)), 'LinearCombination(%s) is %s' % (w, api.LinearCombination(s)))
            ctx.check(ex.parse(str(api.LinearCombination(s.symbol()))) == ex.P.var(('S', want)), '%s has symbol %s' % (w, api.LinearCombination(s.symbol())))
            ok, s2 = ctx.call('Schur(str(%s))' % w, api.Schur, st)
            if ok:
                ctx.check(s2 == s and s == s2 and hash(s2) == hash(s), 'Schur(%s) is not equal to %s' % (st, w))
            ok, s3 = ctx.call('Schur(%s)' % w, api.Schur, s)
            if ok:
                ctx.check(s3 == s and ex._tup(s3.partition()) == want, 'the copy of %s is %s' % (w, s3))
        for w, s in made[1:]:
            ctx.check(s == made[0][1] and hash(s) == hash(made[0][1]), '%s and %s are not equal' % (w, made[0][0]))


def results(ctx, key):
    """printed results of the library's own operations"""
    import schubertpy as api
    sp = S.sp(key)
    g = sp.make()
    m = sp.model
    rng = ctx.rng
    for _ in range(4):
        a, b = S.random_class(rng, m), S.random_class(rng, m)
        rs = [g.qmult(ex.S(a), ex.S(b)), g.qgiambelli(ex.S(a)), g.part2index(ex.S(a)), g.dualize(ex.S(b))]
        if sp.cls != 'Gr':
            rs.append(g.part2pair(ex.S(a)))
        for r in rs:
            ctx.note('operation_results')
            t = str(r)
            ctx.check(in_notation(t), 'a result in %s prints %r, which is not in the documented notation' % (sp, t[:400]))
            o = api.LinearCombination(r)
            round_trip(ctx, 'the result %s in %s' % (t, sp), o, ex.parse(t))
