"""Quantum results at q = 0 against classical results on the same input."""
import expr as ex
import spaces as S
import work

RULE = ('one observation = a pair (quantum operation, classical operation) run on the same q-free input, compared at q=0; '
        'non-trivial = the classical result is non-zero; distinct = distinct (space, operation, input)')
MIN = {'quick': 3000, 'thorough': 15000}
MUST_SEE = ('qpieri', 'qmult', 'qact', 'qtoS', 'with_q_terms', 'qgiambelli')


def units(tier, rng):
    out = []
    for key in S.upto(14 if tier == 'quick' else 40, *((6, 8, 8) if tier == 'quick' else (8, 10, 11))):
        n = S.sp(key).size
        for a, b in work.chunks(n, max(1, 100 // n)):
            out.append(('table', key, a, b))
    for key in S.upto(60 if tier == 'quick' else 300, *((8, 10, 11) if tier == 'quick' else (10, 14, 15))):
        out.append(('pieris', key))
    for key in work.MEDIUM + (work.BIG if tier != 'quick' else []):
        for r in range(1 if tier == 'quick' else 12):
            out.append(('mixed', key, r))
    for key in work.LARGE + work.XL:
        for r in range(1 if tier == 'quick' else 12):
            out.append(('large', key, r))
    rng.shuffle(out)
    return out


def pair(ctx, sp, g, op, *args):
    what = '%s.%s(%s)' % (sp, op, ', '.join(map(str, args)))
    ok1, a = ctx.call(what, getattr(g, op), *args)
    ok2, b = ctx.call(what.replace('.q', '.', 1), getattr(g, op[1:]), *args)
    if not (ok1 and ok2):
        return
    nq = sp.model.nq
    try:
        A, B = S.norm(ex.element(str(a), nq)), S.norm(ex.element(str(b), nq))
    except ex.Unreadable as u:
        ctx.fail('%s: %s' % (what, u))
        return
    A0 = {k: c for k, c in A.items() if not any(k[0])}
    ctx.note(op)
    if len(A0) < len(A):
        ctx.note('with_q_terms')
    ctx.seen((sp.key, op, args), bool(B), '%s -> %s | %s' % (what, a, b))
    ctx.check(not any(any(k[0]) for k in B), '%s: the classical result has q terms: %s' % (what, str(b)[:500]))
    ctx.check(A0 == B, '%s: q-free part of %s is not the classical result %s' % (what, str(a)[:700], str(b)[:700]))


def table(ctx, key, a, b):
    sp = S.sp(key)
    g = sp.make()
    B = sp.model.basis()
    for x in B[a:b]:
        for y in B:
            pair(ctx, sp, g, 'qmult', ex.S(x), ex.S(y))


def pieris(ctx, key):
    sp = S.sp(key)
    g = sp.make()
    B = sp.model.basis()
    if len(B) > 30:
        B = ctx.rng.sample(B, 30)
    for p in sp.model.specials():
        for y in B:
            pair(ctx, sp, g, 'qpieri', p, ex.S(y))


def mixed(ctx, key, rep):
    sp = S.sp(key)
    g = sp.make()
    m = sp.model
    rng = ctx.rng
    for i in range(2):
        x, y = (S.spell(rng, S.random_element(rng, m, 2, q=False, frac=True), m.nq) for _ in range(2))
        pair(ctx, sp, g, 'qmult', x, y)
        pair(ctx, sp, g, 'qact', work.special_poly(rng, m), y)
        pair(ctx, sp, g, 'qpieri', rng.choice(m.specials()), x)
        pair(ctx, sp, g, 'qtoS', work.class_poly(rng, m, deg=2))
        # the Giambelli formulas: same value classically after setting q = 0
        what = '%s.qgiambelli(%s)' % (sp, x)
        ok, f = ctx.call(what, g.qgiambelli, x)
        if ok:
            P = ex.parse(str(f))
            q0 = ex.P({mo: c for mo, c in P.d.items() if not any(v in ('q', 'q1', 'q2') for v, _ in mo)})
            t = show_poly(q0)
            ok1, a = ctx.call('%s.toS(%s)' % (sp, t), g.toS, t)
            ok2, b = ctx.call('%s.toS(%s)' % (sp, x), g.toS, x)
            if ok1 and ok2:
                ctx.note('qgiambelli')
                ctx.seen((key, 'qgiambelli', x))
                ctx.check(ex.element(str(a), m.nq) == ex.element(str(b), m.nq),
                          '%s = %s has at q=0 the classical value %s instead of %s' % (what, f, a, b))


def show_poly(P):
    ts = []
    for mo, c in P.d.items():
        f = ['(%s)' % c if c.denominator == 1 else '(%d)*(1/%d)' % (c.numerator, c.denominator)]
        for v, e in mo:
            f.append((ex.S(v[1]) if isinstance(v, tuple) else v) + '^%d' % e)
        ts.append('*'.join(f))
    return ' + '.join(ts) or '0'


def large(ctx, key, rep):
    sp = S.sp(key)
    g = sp.make()
    m = sp.model
    rng = ctx.rng
    for i in range(8):
        pair(ctx, sp, g, 'qpieri', rng.choice(m.specials()), ex.S(S.random_class(rng, m)))
    y = S.random_element(rng, m, 2, q=False)
    pair(ctx, sp, g, 'qpieri', rng.choice(m.specials()), S.spell(rng, y, m.nq))
    pair(ctx, sp, g, 'qmult', ex.S(m.special(rng.choice(m.specials()))), ex.S(S.random_class(rng, m)))
