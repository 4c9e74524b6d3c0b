"""type_swap, miami_swap, schub_type: judged per call, and type_swap against the products."""
import expr as ex
import judge
import spaces as S
import work

OPS = ['type_swap', 'miami_swap']
RULE = ('one observation = one judged type_swap/miami_swap/schub_type call or one product compared with its image under '
        'type_swap; non-trivial = the class changes or the product is non-zero; distinct = distinct (space, operation, input)')
MIN = {'quick': 5000, 'thorough': 25000}
MUST_SEE = ('spaces_anywhere', 'bulk_arguments', 'schub_type', 'automorphism_mult', 'automorphism_qmult', 'automorphism_k1', 'identity_outside_D', 'tall_classes', 'tall_classes_starting_with_k')


def units(tier, rng):
    D = [k for k in S.upto(300 if tier == 'quick' else 2500, *((1, 2, 14) if tier == 'quick' else (1, 2, 18))) if k[0] == 'OG' and k[2] % 2 == 0]
    out = [('sweep', k) for k in D]
    other = [k for k in S.upto(60, 7, 8, 9) if k not in D]
    out += [('others', other[i::8]) for i in range(8)]
    for k in D:
        n = S.sp(k).size
        if n <= (26 if tier == 'quick' else 80):
            for a, b in work.chunks(n, max(1, 100 // n)):
                out.append(('table', k, a, b))
    for k in work.MEDIUM + work.LARGE + work.XL + (work.BIG if tier != 'quick' else []):
        if k[0] == 'OG' and k[2] % 2 == 0:
            for r in range(2 if tier == 'quick' else 15):
                out.append(('mixed', k, r))
    out += [('tall', r) for r in range(8 if tier == 'quick' else 60)]
    out += work.anywhere_units(tier)
    rng.shuffle(out)
    return [('programs',)] + work.bulk_units(tier, True, lambda k: k[0] == 'OG' and k[2] % 2 == 0) + out


def programs(ctx):
    judge.judge_events(ctx, OPS)
    work.run_readme(ctx)
    work.run_repo_tests(ctx)


def schub_type(ctx, sp, g, lam):
    import schubertpy as api
    m = sp.model
    want = 0 if m.k == 0 or m.k not in lam else 2 if lam[-1] == 0 else 1
    for form in (list(lam), api.Schur(list(lam))):
        ok, t = ctx.call('%s.schub_type(%s)' % (sp, form), g.schub_type, form)
        ctx.note('schub_type')
        ctx.seen((sp.key, 'schub_type', lam), want > 0, '%s.schub_type(%s) = %s' % (sp, form, t))
        ctx.check(t == want, '%s.schub_type(%s) = %s, expected %s' % (sp, form, t, want))


def sweep(ctx, key):
    judge.judge_events(ctx, OPS)
    sp = S.sp(key)
    g = sp.make()
    m = sp.model
    for lam in m.basis():
        schub_type(ctx, sp, g, lam)
        for form in (ex.S(lam), list(lam)):
            ok, r = ctx.call('%s.type_swap(%s)' % (sp, form), g.type_swap, form, m.k)
            ok2, s = ctx.call('%s.type_swap(%s)' % (sp, r), g.type_swap, r, m.k)
            ctx.check(str(s) == ex.S(lam), '%s.type_swap twice sends %s to %s' % (sp, ex.S(lam), s))
            ok, r = ctx.call('%s.miami_swap(%s)' % (sp, form), g.miami_swap, form)
            ok2, s = ctx.call('%s.miami_swap(%s)' % (sp, r), g.miami_swap, r)
            ctx.check(str(s) == ex.S(lam), '%s.miami_swap twice sends %s to %s' % (sp, ex.S(lam), s))


def others(ctx, keys):
    judge.judge_events(ctx, OPS)
    for key in keys:
        sp = S.sp(key)
        if sp.model.type == 'D':
            continue
        g = sp.make()
        k = g.get_type_data()[1]
        for lam in sp.model.basis():
            for form in (ex.S(lam), list(lam)):
                ctx.call('%s.type_swap(%s)' % (sp, form), g.type_swap, form, k)
                ctx.call('%s.miami_swap(%s)' % (sp, form), g.miami_swap, form)
            ctx.note('identity_outside_D')


def tall(ctx, r):
    """classes with many parts, all of them small: spaces with many rows"""
    judge.judge_events(ctx, OPS)
    rng = ctx.rng
    for _ in range(6):
        rows, k = rng.randint(6, 14), rng.randint(1, 5)
        sp = S.sp(('OG', rows, 2 * (rows + k)))
        g = sp.make()
        for _ in range(10):
            n = rng.randint(1, rows)
            big = []
            if rng.random() < 0.4:
                big = sorted(rng.sample(range(k + 1, 2 * k + rows), min(rng.randint(1, 3), n, k + rows - 1)), reverse=True)
            lam = big + sorted([k] + [rng.randint(1, k) for _ in range(n - len(big) - 1)] if n > len(big) and rng.random() < 0.8 else
                               [rng.randint(1, k) for _ in range(n - len(big))], reverse=True)
            if k in lam and rng.random() < 0.5:
                lam.append(0)
            lam = tuple(lam)
            schub_type(ctx, sp, g, lam)
            for form in (ex.S(lam), list(lam), '3*%s - %s*S[]' % (ex.S(lam), 'q1' if k == 1 else 'q')):
                ctx.call('%s.type_swap(%s)' % (sp, form), g.type_swap, form, k)
                ctx.call('%s.miami_swap(%s)' % (sp, form), g.miami_swap, form)
            ctx.note('tall_classes')
            if lam[0] == k and len(lam) > 6:
                ctx.note('tall_classes_starting_with_k')


def swapped(m, el):
    return S.norm({(tuple(reversed(q)), m.swap(lam)): c for (q, lam), c in el.items()})


def auto(ctx, sp, g, op, x, y):
    m = sp.model
    ok, r = ctx.call('%s.%s(%s, %s)' % (sp, op, x, y), getattr(g, op), x, y)
    ok1, sx = ctx.call('%s.type_swap(%s)' % (sp, x), g.type_swap, x, m.k)
    ok2, sy = ctx.call('%s.type_swap(%s)' % (sp, y), g.type_swap, y, m.k)
    if not (ok and ok1 and ok2):
        return
    # q1 and q2 in the factors are exchanged as well
    sx, sy = (swapq(str(t)) if m.nq == 2 else t for t in (sx, sy))
    ok, s = ctx.call('%s.%s(%s, %s)' % (sp, op, sx, sy), getattr(g, op), sx, sy)
    ok3, sr = ctx.call('%s.type_swap(%s)' % (sp, r), g.type_swap, r, m.k)
    want = S.norm(ex.element(swapq(str(sr)) if m.nq == 2 else str(sr), m.nq))
    got = S.norm(ex.element(str(s), m.nq))
    ctx.note('automorphism_' + op)
    if m.k == 1:
        ctx.note('automorphism_k1')
    ctx.seen((sp.key, op, str(x), str(y)), bool(got), '%s.%s(%s, %s) = %s' % (sp, op, sx, sy, s))
    ctx.check(got == want, '%s.%s(%s, %s) = %s, but the product of %s and %s is %s' % (sp, op, sx, sy, s, x, y, r))


def swapq(t):
    return t.replace('q1', 'Q').replace('q2', 'q1').replace('Q', 'q2')


def table(ctx, key, a, b):
    judge.judge_events(ctx, OPS)
    sp = S.sp(key)
    g = sp.make()
    B = sp.model.basis()
    for x in B[a:b]:
        for y in B:
            if x <= y:
                for op in ('mult', 'qmult'):
                    auto(ctx, sp, g, op, ex.S(x), ex.S(y))


def mixed(ctx, key, rep):
    import schubertpy as api
    judge.judge_events(ctx, OPS)
    sp = S.sp(key)
    g = sp.make()
    m = sp.model
    rng = ctx.rng
    for i in range(12):
        x = S.random_element(rng, m, 3, q=True, frac=True)
        ctx.call('%s.type_swap(%s)' % (sp, S.ex.show(x, m.nq)), g.type_swap, work.arg(rng, x, m.nq, api), m.k)
        ctx.call('%s.miami_swap(%s)' % (sp, S.ex.show(x, m.nq)), g.miami_swap, work.arg(rng, x, m.nq, api))
        schub_type(ctx, sp, g, S.random_class(rng, m))
    for i in range(4):
        x = m.special(rng.choice(m.specials())) if key in work.LARGE + work.XL else S.random_class(rng, m)
        y = S.random_class(rng, m)
        for op in ('mult', 'qmult'):
            auto(ctx, sp, g, op, ex.S(x), ex.S(y))


def bulk(ctx, key):
    judge.judge_events(ctx, OPS)
    work.bulk(ctx, key, OPS)


def anywhere(ctx, r):
    judge.judge_events(ctx, OPS)
    work.anywhere(ctx, OPS, 'D')
