"""The same element in every accepted form must give the same result: forms are compared with each other."""
import expr as ex
import refmodel as rm
import spaces as S
import work

RULE = ('one observation = one operation run on one further form of the same argument(s) and compared with the first form; '
        'non-trivial = non-zero result; distinct = distinct (space, operation, form kinds, text of the form)')
MIN = {'quick': 2500, 'thorough': 20000}
MUST_SEE = ('form_text', 'form_object', 'form_sympy', 'form_list', 'form_schur', 'form_expanded', 'nonlinear', 'pair_list')


def units(tier, rng):
    out = []
    small = [k for k in S.upto(40, 6, 8, 10) if S.sp(k).model.specials()]
    for key in small + work.MEDIUM:
        for r in range(2 if tier == 'quick' else 16):
            out.append(('linear', key, r))
    for key in small + work.MEDIUM:
        for r in range(1 if tier == 'quick' else 10):
            out.append(('poly', key, r))
    for key in work.LARGE:
        for r in range(1 if tier == 'quick' else 6):
            out.append(('light', key, r))
    rng.shuffle(out)
    return out


def show_poly(rng, P):
    """the expanded polynomial written out in random order"""
    ts = []
    items = list(P.d.items())
    rng.shuffle(items)
    for mo, c in items:
        f = []
        for v, e in mo:
            n = ex.S(v[1]) if isinstance(v, tuple) else v
            f += [n] * e if rng.random() < 0.4 else [n + rng.choice(['^', '**']) + str(e) if e > 1 else n]
        rng.shuffle(f)
        c = int(c)
        ts.append('*'.join((['(%d)' % c] if c != 1 or not f else []) + f))
    return rng.choice([' + ', '+']).join(ts) or '0'


def forms(rng, el, nq, n):
    """[(kind, value)] all denoting el"""
    import schubertpy as api
    out = [('text', ex.show(el, nq))]
    if len(el) == 1:
        (q, lam), c = next(iter(el.items()))
        if c == 1 and not any(q):
            out += [('list', list(lam)), ('schur', api.Schur(list(lam))), ('schur', api.Schur(tuple(lam))), ('schur', api.Schur(ex.S(lam))),
                    ('sympy', api.Schur(list(lam)).symbol()), ('object', api.LinearCombination(list(lam))),
                    ('object', api.LinearCombination(api.Schur(list(lam))))]
    for i in range(n):
        t = S.spell(rng, el, nq)
        if rng.random() < 0.2:
            t = rng.choice(['(%s)', ' %s', '%s ', '((%s))', '0 + %s', '2*(%s)/2', '(%s)*1']) % t
        k = i % 3
        out.append([('text', t), ('object', api.LinearCombination(t)), ('sympy', api.LinearCombination(t).expr)][k])
    return out


def value(ctx, what, r, nq):
    return ex.parse(str(r)).d


def agree(ctx, sp, op, fn, lists, take):
    """fn on forms[0] of every argument, then on other combinations of forms"""
    rng = ctx.rng
    base = [l[0] for l in lists]
    w0 = '%s.%s(%s)' % (sp, op, ', '.join('%s' % (v,) for _, v in base))
    ok, r0 = ctx.call(w0, fn, *[v for _, v in base])
    if not ok:
        return
    v0 = value(ctx, w0, r0, sp.model.nq)
    combos = []
    for i, l in enumerate(lists):
        for f in l[1:]:
            combos.append([f if j == i else rng.choice(x) for j, x in enumerate(lists)])
    rng.shuffle(combos)
    for c in combos[:take]:
        w = '%s.%s(%s)' % (sp, op, ', '.join('%s as %s' % (v, k) for k, v in c))
        ok, r = ctx.call(w, fn, *[v for _, v in c])
        if not ok:
            continue
        v = value(ctx, w, r, sp.model.nq)
        for k, _ in c:
            ctx.note('form_' + k)
        ctx.note('op_' + op)
        ctx.seen((sp.key, op, [(k, str(x)) for k, x in c]), bool(v), '%s = %s' % (w, r))
        ctx.check(v == v0, '%s = %s, but %s = %s' % (w, str(r)[:400], w0, str(r0)[:400]))


def ops1(sp, g):
    k = sp.model.k
    out = [('giambelli', g.giambelli), ('qgiambelli', g.qgiambelli), ('toS', g.toS), ('qtoS', g.qtoS)]
    return out + conversions(sp, g)


def conversions(sp, g):
    k = sp.model.k
    out = [('dualize', g.dualize), ('type_swap', lambda x: g.type_swap(x, k)), ('miami_swap', g.miami_swap), ('part2index', g.part2index)]
    if sp.cls != 'Gr':
        out.append(('part2pair', g.part2pair))
    return out


def ops2(sp, g):
    out = [('mult', g.mult), ('qmult', g.qmult)]
    if sp.cls == 'Gr' and sp.N <= 8:
        out.append(('qmult_rh', g.qmult_rh))
    return out


def element(ctx, m, i, **kw):
    if i % 2 == 0:
        return m.cls(S.random_class(ctx.rng, m))
    return S.random_element(ctx.rng, m, 2, q=True, **kw)


def linear(ctx, key, rep):
    sp = S.sp(key)
    g = sp.make()
    m = sp.model
    rng = ctx.rng
    take = 3 if ctx.quick else 4
    o2 = ops2(sp, g)
    for i in range(2):
        op, fn = rng.choice(o2)
        agree(ctx, sp, op, fn, [forms(rng, element(ctx, m, i), m.nq, 4), forms(rng, element(ctx, m, i + rep), m.nq, 4)], take)
    for i in range(2):
        op, fn = rng.choice(ops1(sp, g))
        agree(ctx, sp, op, fn, [forms(rng, element(ctx, m, i), m.nq, 5)], take)
    light(ctx, key, rep, 2)


def light(ctx, key, rep, n=5):
    sp = S.sp(key)
    g = sp.make()
    m = sp.model
    rng = ctx.rng
    if not m.specials():
        return
    for i in range(n):
        p = rng.choice(m.specials())
        op = rng.choice(['pieri', 'qpieri'])
        agree(ctx, sp, op, lambda x: getattr(g, op)(p, x), [forms(rng, element(ctx, m, i), m.nq, 5)], 5)
        op, fn = rng.choice(conversions(sp, g))
        agree(ctx, sp, op, fn, [forms(rng, element(ctx, m, i), m.nq, 5)], 5)
        # index sets and pairs in list form
        lam = S.random_class(rng, m)
        r = g.part2index(ex.S(lam))
        idx = m.index(lam)
        import schubertpy as api
        agree(ctx, sp, 'index2part', g.index2part, [[('text', str(r)), ('list', list(idx)), ('object', r), ('sympy', r.expr),
                                                     ('text', 'S[%s]' % ', '.join(map(str, idx)))]], 4)
        if sp.cls != 'Gr':
            import judge
            a, b = judge.pair(m, lam)
            t = ex.S((list(a), list(b)))
            agree(ctx, sp, 'pair2part', g.pair2part, [[('text', t.replace(' ', '')), ('list', [list(a), list(b)]), ('text', t),
                                                       ('object', api.LinearCombination(t.replace(' ', ''))),
                                                       ('sympy', api.LinearCombination(t).expr)]], 4)
            ctx.note('pair_list')
        if m.type == 'D':
            t1 = g.schub_type(list(lam))
            t2 = g.schub_type(api.Schur(ex.S(lam)))
            ctx.seen((key, 'schub_type', lam))
            ctx.check(t1 == t2, '%s.schub_type differs between list and Schur form of %s: %s, %s' % (sp, lam, t1, t2))


def poly(ctx, key, rep):
    """non-linear arguments: factored, expanded and reordered texts of the same polynomial"""
    import schubertpy as api
    sp = S.sp(key)
    g = sp.make()
    m = sp.model
    rng = ctx.rng
    for i in range(2):
        f = work.special_poly(rng, m, deg=2, terms=2, q=True)
        P = ex.parse(f)
        t2, t3 = show_poly(rng, P), show_poly(rng, P)
        fs = [('text', f), ('expanded', t2), ('expanded', t3), ('object', api.LinearCombination(t3)), ('sympy', api.LinearCombination(f).expr)]
        op = rng.choice(['act', 'qact'])
        agree(ctx, sp, op, getattr(g, op), [fs, forms(rng, element(ctx, m, i), m.nq, 3)], 4)
        h = work.class_poly(rng, m, deg=2, terms=2, q=True)
        P = ex.parse(h)
        t2 = show_poly(rng, P)
        hs = [('text', h), ('expanded', t2), ('object', api.LinearCombination(t2)), ('sympy', api.LinearCombination(h).expr),
              ('text', '(%s)' % h), ('expanded', show_poly(rng, P))]
        op = rng.choice(['toS', 'qtoS', 'giambelli', 'qgiambelli'])
        agree(ctx, sp, op, getattr(g, op), [hs], 4)
        ctx.note('nonlinear')
