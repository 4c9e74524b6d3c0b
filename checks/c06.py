"""Ring laws of mult and qmult, and results used as inputs, monitored over chains of calls.

The oracle is algebra on the observed results themselves (both sides of a law are computed by the
library and must be the same element); the hand-written form of a result is made by the reader."""
import expr as ex
import refmodel as rm
import spaces as S
import work

RULE = ('one observation = one law instance (both sides computed by the library and compared as elements) or one result fed '
        'back in one form (object, text, sympy expression) into a later operation and compared with the hand-written input; '
        'non-trivial = non-zero element; distinct = distinct (space, law, inputs)')
MIN = {'quick': 1500, 'thorough': 12000}
MUST_SEE = ('commutative', 'associative', 'distributive', 'unit', 'scalars', 'reused_result', 'expansion_of_result')

SPACES = [k for k in S.upto(40, 6, 8, 9)] + work.MEDIUM


def units(tier, rng):
    out = []
    for key in SPACES + (work.BIG if tier != 'quick' else []):
        for r in range(1 if tier == 'quick' else 8):
            out.append(('laws', key, r))
            out.append(('reuse', key, r))
    for key in S.upto(8 if tier == 'quick' else 13, 6, 6, 7):
        out.append(('triples', key))
    rng.shuffle(out)
    return out


def el(ctx, nq, r, what):
    try:
        return S.norm(ex.element(str(r), nq))
    except ex.Unreadable as e:
        ctx.fail('%s: result is not an expanded combination: %s' % (what, e))


def eq(ctx, sp, law, a, b, what):
    A, B = el(ctx, sp.model.nq, a, what), el(ctx, sp.model.nq, b, what)
    ctx.note(law)
    ctx.seen((sp.key, law, what), bool(A), '%s %s: %s' % (sp, what, a))
    ctx.check(A == B, '%s %s: the two sides differ: %s  and  %s' % (sp, what, str(a)[:500], str(b)[:500]))


def triples(ctx, key):
    """every triple of classes of a small space"""
    sp = S.sp(key)
    g = sp.make()
    B = [ex.S(x) for x in sp.model.basis()]
    for op in ('mult', 'qmult'):
        f = getattr(g, op)
        P = {}
        for x in B:
            for y in B:
                ok, P[x, y] = ctx.call('%s.%s(%s,%s)' % (sp, op, x, y), f, x, y)
        for x in B:
            eq(ctx, sp, 'unit', P[B[0], x], x, '%s(S[], %s)' % (op, x))
            for y in B:
                if x < y:
                    eq(ctx, sp, 'commutative', P[x, y], P[y, x], '%s(%s, %s)' % (op, x, y))
                for z in B:
                    l = f(P[x, y], z)
                    r = f(x, P[y, z])
                    eq(ctx, sp, 'associative', l, r, '%s(%s, %s, %s)' % (op, x, y, z))


def laws(ctx, key, rep):
    import schubertpy as api
    sp = S.sp(key)
    g = sp.make()
    m = sp.model
    rng = ctx.rng
    for op in ('mult', 'qmult'):
        def f(a, b):
            return ctx.call('%s.%s(%s, %s)' % (sp, op, a, b), getattr(g, op), a, b)[1]
        X, Y, Z = (S.random_element(rng, m, 2, q=True, frac=True) for _ in range(3))
        x, y, z = (S.spell(rng, e, m.nq) for e in (X, Y, Z))
        xy = f(x, y)
        eq(ctx, sp, 'commutative', xy, f(y, x), '%s(%s, %s)' % (op, x, y))
        eq(ctx, sp, 'associative', f(xy, z), f(x, f(y, z)), '%s(%s ; %s ; %s)' % (op, x, y, z))
        s = S.spell(rng, rm.add_into(dict(Y), Z), m.nq)
        if S.norm(rm.add_into(dict(Y), Z)):
            eq(ctx, sp, 'distributive', f(x, s), xy + f(x, z), '%s(%s ; %s)' % (op, x, s))
            eq(ctx, sp, 'distributive', f(s, x), f(y, x) + f(z, x), '%s(%s ; %s)' % (op, s, x))
        eq(ctx, sp, 'unit', f('S[]', x), api.LinearCombination(S.ex.show(X, m.nq)), '%s(S[], %s)' % (op, x))
        eq(ctx, sp, 'unit', f(x, 'S[]'), api.LinearCombination(S.ex.show(X, m.nq)), '%s(%s, S[])' % (op, x))
        qe = tuple(rng.randint(0, 3) for _ in range(m.nq))
        c = rng.choice([2, -1, 7, -12, 1])
        X2, Y2 = ({(tuple(a + b for a, b in zip(q, qe)), l): c * v for (q, l), v in e.items()} for e in (X, Y))
        want = {(tuple(a + b for a, b in zip(q, qe)), l): c * v for (q, l), v in (el(ctx, m.nq, xy, op) or {}).items()}
        want = api.LinearCombination(ex.show(want, m.nq))
        eq(ctx, sp, 'scalars', f(S.spell(rng, X2, m.nq), y), want, '%s(c*%s, %s)' % (op, x, y))
        eq(ctx, sp, 'scalars', f(x, S.spell(rng, Y2, m.nq)), want, '%s(%s, c*%s)' % (op, x, y))


def reuse(ctx, key, rep):
    """every operation's result as the input of a later one"""
    import schubertpy as api
    sp = S.sp(key)
    g = sp.make()
    m = sp.model
    rng = ctx.rng
    if not m.specials():
        return
    k = g.get_type_data()[1]
    for i in range(4 if ctx.quick else 8):
        X = S.random_element(rng, m, 2, q=True)
        x = S.spell(rng, X, m.nq)
        one = ex.S(S.random_class(rng, m))
        two = ex.S(S.random_class(rng, m))
        p = rng.choice(m.specials())
        q = ['q'] if m.nq == 1 else ['q1', 'q2']
        makers = [
            ('pieri', lambda: g.pieri(p, x)), ('qpieri', lambda: g.qpieri(p, x)), ('qpieri1', lambda: g.qpieri(p, one)),
            ('pieri1', lambda: g.pieri(p, one)),
            ('mult', lambda: g.mult(one, x)), ('qmult', lambda: g.qmult(one, x)), ('qmult2', lambda: g.qmult(one, two)),
            ('act', lambda: g.act(ex.S(m.special(p)), x)), ('qact', lambda: g.qact(ex.S(m.special(p)) + '^2', x)),
            ('toS', lambda: g.toS(one)), ('qtoS', lambda: g.qtoS('%s*%s' % (ex.S(m.special(p)), one))),
            ('dualize', lambda: g.dualize(x)), ('type_swap', lambda: g.type_swap(x, k)), ('miami_swap', lambda: g.miami_swap(x)),
            ('index', lambda: g.index2part(g.part2index(x))),
            ('sum', lambda: g.qmult(one, two) + g.pieri(p, x)), ('difference', lambda: g.qmult(one, two) - api.LinearCombination(ex.show(X, m.nq))),
            ('multiple', lambda: 3 * g.qpieri(p, one)),
        ]
        if key[0] == 'Gr':
            makers.append(('qmult_rh', lambda: g.qmult_rh(one, two)))
        else:
            makers.append(('pair', lambda: g.pair2part(g.part2pair(x))))
        name, mk = rng.choice(makers)
        what = '%s %s of %s / %s / %s / p=%s' % (sp, name, one, two, x, p)
        ok, r = ctx.call(what, mk)
        E = el(ctx, m.nq, r, what)
        if E is None:
            continue
        # the expansion lists the terms.  Outside type D the swaps answer with their argument as it was written, and an
        # argument written with parentheses has no expansion (documented ValueError, C21)
        if name in ('type_swap', 'miami_swap') and m.type != 'D' and '(' in x and str(r) == str(api.LinearCombination(x)):
            ctx.note('unexpanded_argument_returned')
            continue
        ok, terms = ctx.call(what + ' .schur_expansion()', r.schur_expansion)
        if not ok:
            continue
        if isinstance(terms, tuple):
            terms = [terms]
        if E and all(isinstance(c, int) for c in E.values()):
            back = {}
            for c, lam in terms:
                for mono, v in ex.parse(str(c)).d.items():
                    rm.add_into(back, {(tuple(dict(mono).get(n, 0) for n in q), tuple(lam)): int(v)})
            ctx.note('expansion_of_result')
            ctx.seen((key, 'expansion', what))
            ctx.check(back == E, '%s: schur_expansion of %s gives %s' % (what, r, terms))
        if not E:
            continue
        hand = S.spell(rng, E, m.nq)
        later = [('qmult', lambda a: g.qmult(a, two)), ('mult', lambda a: g.mult(two, a)), ('qpieri', lambda a: g.qpieri(p, a)),
                 ('pieri', lambda a: g.pieri(p, a)), ('qact', lambda a: g.qact(ex.S(m.special(p)), a)), ('dualize', lambda a: g.dualize(a)),
                 ('qtoS', lambda a: g.qtoS(a)), ('toS', lambda a: g.toS(a)),
                 ('toS(giambelli)', lambda a: g.toS(g.giambelli(a))), ('qtoS(qgiambelli)', lambda a: g.qtoS(g.qgiambelli(a))),
                 ('qact(qgiambelli)', lambda a: g.qact(g.qgiambelli(a), two)), ('act(giambelli)', lambda a: g.act(g.giambelli(a), two)),
                 ('part2index', lambda a: g.part2index(a)), ('type_swap', lambda a: g.type_swap(a, k))]
        for name2, op2 in rng.sample(later, 3):
            form, v = rng.choice([('object', r), ('text', str(r)), ('sympy', r.expr if hasattr(r, 'expr') else r)])
            w2 = '%s, then %s of the result %s as %s' % (what, name2, r, form)
            ok, a = ctx.call(w2, op2, v)
            ok, b = ctx.call(what + ' by hand', op2, hand)
            ctx.note('reused_result')
            ctx.note('reused_as_' + form)
            A, B = el(ctx, m.nq, a, w2), el(ctx, m.nq, b, w2)
            ctx.seen((key, w2), bool(A), '%s -> %s' % (w2, a))
            ctx.check(A == B, '%s: gives %s, by hand %s' % (w2, str(a)[:400], str(b)[:400]))
            if name2 in ('toS', 'toS(giambelli)', 'qtoS', 'qtoS(qgiambelli)'):
                ctx.check(A == E, '%s: changes the element to %s' % (w2, str(a)[:400]))
