"""Giambelli formulas: evaluated with the reference model's Pieri rule."""
import judge
import spaces as S
import work

OPS = ['giambelli', 'qgiambelli']
RULE = ('one observation = one outermost (q)giambelli call: its variables must be special classes and its value, multiplied '
        'out with the reference Pieri rule, must be the argument; non-trivial = non-zero formula; distinct = distinct (space, '
        'operation, argument). Every class of small spaces, random classes, products and combinations of larger ones')
MIN = {'quick': 1500, 'thorough': 8000}
MUST_SEE = ('bulk_arguments', 'tall_classes', 'tall_marked_classes')


def units(tier, rng):
    out = []
    for key in S.upto(60 if tier == 'quick' else 160, *((8, 10, 11) if tier == 'quick' else (9, 12, 13))):
        for a, b in work.chunks(S.sp(key).size, 20):
            out.append(('classes', key, a, b))
    for key in work.MEDIUM + (work.BIG if tier != 'quick' else []):
        for r in range(2 if tier == 'quick' else 20):
            out.append(('mixed', key, r))
    for key in work.LARGE + work.XL:
        for r in range(1 if tier == 'quick' else 12):
            out.append(('wide', key, r))
    for r in range(40 if tier == 'quick' else 400):
        out.append(('tall', r))
    rng.shuffle(out)
    return [('programs',)] + work.bulk_units(tier, False, None) + out


def programs(ctx):
    judge.judge_events(ctx, OPS)
    work.run_readme(ctx)
    work.run_repo_tests(ctx)


def classes(ctx, key, a, b):
    judge.judge_events(ctx, OPS)
    sp = S.sp(key)
    g = sp.make()
    for lam in sp.model.basis()[a:b]:
        for op in OPS:
            ctx.call('%s.%s(%s)' % (sp, op, lam), getattr(g, op), S.ex.S(lam))


def mixed(ctx, key, rep):
    import schubertpy as api
    judge.judge_events(ctx, OPS)
    sp = S.sp(key)
    g = sp.make()
    m = sp.model
    rng = ctx.rng
    for op in OPS:
        for i in range(2):
            x = S.random_element(rng, m, 3, q=True, frac=True)
            ctx.call('%s.%s(%s)' % (sp, op, S.ex.show(x, m.nq)), getattr(g, op), work.arg(rng, x, m.nq, api))
        f = work.class_poly(rng, m, deg=2, terms=2, q=True)
        ctx.call('%s.%s(%s)' % (sp, op, f), getattr(g, op), f)


def wide(ctx, key, rep):
    judge.judge_events(ctx, OPS)
    sp = S.sp(key)
    g = sp.make()
    m = sp.model
    for op in OPS:
        for i in range(4):
            lam = S.small_class(ctx.rng, m)
            ctx.call('%s.%s(%s)' % (sp, op, lam), getattr(g, op), S.ex.S(lam))
    ctx.note('wide_space_units')


def tall(ctx, r):
    """classes with many parts, most of them at most k, in spaces with many rows"""
    judge.judge_events(ctx, OPS)
    rng = ctx.rng
    # few boxes: a formula is affordable even if nothing of it is remembered
    top = 10 if ctx.quick else 12
    for _ in range(3):
        rows, k = rng.randint(5, 8), rng.randint(1, 4)
        N = 2 * (rows + k)
        sp = S.sp(rng.choice([('OG', rows, N), ('OG', rows, N), ('OG', rows, N + 1), ('IG', rows, N), ('Gr', rows, rows + k + 1)]))
        if sp.cls == 'OG' and N % 2 == 0 and rows + k < 2:
            continue
        m = sp.model
        g = sp.make()
        for _ in range(4):
            n = rng.randint(3, rows)
            lam = [1] * n
            for _ in range(rng.randint(0, top - n)):
                j = rng.randrange(n)
                if rng.random() < 0.5:
                    j = 0
                lam[j] += 1
            if rng.random() < 0.6 and m.type == 'D':
                lam[rng.randint(0, min(1, n - 1))] = k
            lam = tuple(sorted(lam, reverse=True))
            if sum(lam) > top:
                continue
            if m.type == 'D' and k in lam and rng.random() < 0.6:
                lam += (0,)
            if not judge.in_basis(m, lam):
                continue
            ctx.note('tall_classes')
            if m.type == 'D' and lam[-1] == 0 and len(lam) > 5:
                ctx.note('tall_marked_classes')
            for op in OPS:
                ctx.call('%s.%s(%s)' % (sp, op, lam), getattr(g, op), S.ex.S(lam))


def bulk(ctx, key):
    judge.judge_events(ctx, OPS)
    work.bulk(ctx, key, OPS)
