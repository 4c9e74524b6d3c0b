"""Quantum products: qmult, qact, qtoS judged against the reference model."""
import judge
import spaces as S
import work

Q = 'q'
QVAR = True     # scalars q may occur in inputs of classical operations too
RULE = ('one observation = one outermost call of qmult/qact/qtoS judged against the reference model; non-trivial = non-zero '
        'result; distinct = distinct (space, operation, arguments). Full multiplication tables of small spaces, random '
        'elements and polynomials in larger ones, README and repository tests under the same monitor')
MIN = {'quick': 1500, 'thorough': 12000}
MUST_SEE = ('bulk_arguments',)


def ops():
    return [Q + 'mult', Q + 'act', Q + 'toS']


def units(tier, rng):
    return [('programs',)] + work.product_units(tier, rng, reps=3) + work.bulk_units(tier, False, None)


def programs(ctx):
    judge.judge_events(ctx, ops())
    work.run_readme(ctx)
    work.run_repo_tests(ctx)


def table(ctx, key, a, b):
    judge.judge_events(ctx, ops())
    sp = S.sp(key)
    g = sp.make()
    B = sp.model.basis()
    for x in B[a:b]:
        for y in B:
            ctx.call('%s.%smult(%s, %s)' % (sp, Q, x, y), getattr(g, Q + 'mult'), S.ex.S(x), S.ex.S(y))
    ctx.note('table_rows', b - a)


def mixed(ctx, key, rep):
    import schubertpy as api
    judge.judge_events(ctx, ops())
    sp = S.sp(key)
    g = sp.make()
    m = sp.model
    rng = ctx.rng
    for i in range(3):
        x = S.random_element(rng, m, 2, q=True)
        y = S.random_element(rng, m, 3, q=True, frac=True)
        ctx.call('%s.%smult(%s, %s)' % (sp, Q, S.ex.show(x, m.nq), S.ex.show(y, m.nq)), getattr(g, Q + 'mult'),
                 work.arg(rng, x, m.nq, api), work.arg(rng, y, m.nq, api))
    # nearly top-dimensional classes: long quantum products
    tops = [lam for lam in (S.random_class(rng, m) for _ in range(30)) if 2 * sum(lam) >= m.dim][:2]
    for x in tops:
        for y in tops:
            ctx.call('%s.%smult(%s, %s)' % (sp, Q, x, y), getattr(g, Q + 'mult'), S.ex.S(x), S.ex.S(y))
    for i in range(3):
        f = work.special_poly(rng, m, deg=3, terms=3, q=True)
        y = S.random_element(rng, m, 2, q=True)
        ctx.call('%s.%sact(%s, %s)' % (sp, Q, f, S.ex.show(y, m.nq)), getattr(g, Q + 'act'), f, work.arg(rng, y, m.nq, api))
    for i in range(2):
        f = work.class_poly(rng, m, deg=3, terms=2, q=True)
        ctx.call('%s.%stoS(%s)' % (sp, Q, f), getattr(g, Q + 'toS'), f)


def wide(ctx, key, rep):
    judge.judge_events(ctx, ops())
    work.wide(ctx, key, Q)


def bulk(ctx, key):
    judge.judge_events(ctx, ops())
    work.bulk(ctx, key, ops())
