"""qmult_rh against qmult and against the reference product, on the same inputs."""
import expr as ex
import judge
import refmodel as rm
import spaces as S
import work

RULE = ('one observation = one qmult_rh call compared with qmult on the same arguments and with the reference product; '
        'non-trivial = non-zero product; distinct = distinct (space, arguments)')
MIN = {'quick': 900, 'thorough': 5000}
MUST_SEE = ('products', 'with_q', 'with_q2', 'independent_products', 'products_near_the_point', 'upper_half')

MORE = [('Gr', 2, 10), ('Gr', 7, 9), ('Gr', 2, 14), ('Gr', 4, 9), ('Gr', 5, 9), ('Gr', 8, 10), ('Gr', 1, 12), ('Gr', 11, 12), ('Gr', 3, 10)]


def units(tier, rng):
    out = []
    for key in S.upto(16 if tier == 'quick' else 40, *((7, 1, 1) if tier == 'quick' else (9, 1, 1))):
        if key[0] == 'Gr':
            n = S.sp(key).size
            for a, b in work.chunks(n, max(1, 60 // n)):
                out.append(('table', key, a, b))
    for key in [k for k in work.MEDIUM if k[0] == 'Gr'] + MORE:
        for r in range(2 if tier == 'quick' else 30):
            out.append(('mixed', key, r))
    # narrow spaces, the classes near the point class: the longest rim hooks
    for n in range(3, 15 if tier == 'quick' else 20):
        for k in range(1, n):
            if (k <= 2 or n <= (8 if tier == 'quick' else 9) or (k == 3 and n <= 11)) and S.sp(('Gr', k, n)).size <= 200:
                out.append(('tops', ('Gr', k, n)))
    for key in [('Gr', 3, 6), ('Gr', 3, 7), ('Gr', 3, 8), ('Gr', 4, 7), ('Gr', 4, 8), ('Gr', 5, 8), ('Gr', 3, 9)]:
        for r in range(3 if tier == 'quick' else 40):
            out.append(('hooks', key, r))
    rng.shuffle(out)
    return [('programs',)] + out


def programs(ctx):
    judge.judge_events(ctx, ['qmult_rh'])
    work.run_readme(ctx)
    work.run_repo_tests(ctx)


def both(ctx, sp, g, x, y):
    what = '%s.qmult_rh(%s, %s)' % (sp, x, y)
    ok, r = ctx.call(what, g.qmult_rh, x, y)
    ok2, s = ctx.call(what.replace('qmult_rh', 'qmult'), g.qmult, x, y)
    if not (ok and ok2):
        return None
    A, B = S.norm(ex.element(str(r))), S.norm(ex.element(str(s)))
    ctx.note('products')
    top = max([q[0] for q, _ in A], default=0)
    if top:
        ctx.note('with_q')
    if top > 1:
        ctx.note('with_q2')
    ctx.check(A == B, '%s = %s but qmult gives %s' % (what, str(r)[:600], str(s)[:600]))
    return A


def table(ctx, key, a, b):
    judge.judge_events(ctx, ['qmult_rh'])
    sp = S.sp(key)
    g = sp.make()
    m, N = key[1], key[2]
    B = sp.model.basis()
    for x in B[a:b]:
        for y in B:
            A = both(ctx, sp, g, ex.S(x), ex.S(y))
            if A is not None and m:
                w = rm.qlr_product(x, y, m, N)
                ctx.note('independent_products')
                ctx.check(A == S.norm(w), '%s.qmult_rh(%s, %s) = %s, but the alternant computation gives %s' % (
                    sp, ex.S(x), ex.S(y), ex.show(A), ex.show(w)))


def tops(ctx, key):
    sp = S.sp(key)
    g = sp.make()
    B = sorted(sp.model.basis(), key=sum)
    near = B[-4:]
    for x, y in [(near[-1], near[-1])] + [(ctx.rng.choice(near), ctx.rng.choice(near)) for _ in range(2)] + \
            [(ctx.rng.choice(near), ctx.rng.choice(B[len(B) // 3:])) for _ in range(3)]:
        A = both(ctx, sp, g, ex.S(x), ex.S(y))
        w = rm.qlr_product(x, y, key[1], key[2]) if key[1] <= 2 else None
        if A is not None and w is not None:
            ctx.note('independent_products')
            ctx.check(A == S.norm(w), '%s.qmult_rh(%s, %s) = %s, but the alternant computation gives %s' % (sp, ex.S(x), ex.S(y), ex.show(A), ex.show(w)))
    ctx.note('products_near_the_point')


def hooks(ctx, key, rep):
    """classes of the upper half: most terms lose two or more rim hooks, of both signs"""
    sp = S.sp(key)
    g = sp.make()
    B = sorted(sp.model.basis(), key=sum)
    B = B[len(B) // 2:]
    for _ in range(8):
        both(ctx, sp, g, ex.S(ctx.rng.choice(B)), ex.S(ctx.rng.choice(B)))
    ctx.note('upper_half')


def mixed(ctx, key, rep):
    import schubertpy as api
    judge.judge_events(ctx, ['qmult_rh'])
    sp = S.sp(key)
    g = sp.make()
    m = sp.model
    rng = ctx.rng
    pool = sorted((S.random_class(rng, m) for _ in range(16)), key=sum)
    for i in range(2):
        both(ctx, sp, g, ex.S(rng.choice(pool[8:])), ex.S(rng.choice(pool[4:])))
    X = S.random_element(rng, m, 2, q=True, frac=True, cls=lambda: rng.choice(pool))
    Y = S.random_element(rng, m, 2, q=True, cls=lambda: rng.choice(pool))
    both(ctx, sp, g, work.arg(rng, X, 1, api), work.arg(rng, Y, 1, api))
