"""Poincare duality: dualize against the pairing the library itself computes, and against the dual index
sets of the reference model where the pairing is too expensive."""
import expr as ex
import judge
import spaces as S
import work

RULE = ('one observation = one pairing of two classes of complementary degree (coefficient of the point class in mult against '
        'dualize) or one judged dualize call; non-trivial = the coefficient is 1 or the class is not its own dual; distinct = '
        'distinct (space, classes)')
MIN = {'quick': 4000, 'thorough': 20000}
MUST_SEE = ('spaces_anywhere', 'bulk_arguments', 'pairings_1', 'pairings_0', 'permutations')


def units(tier, rng):
    out = []
    for key in S.upto(26 if tier == 'quick' else 80, *((7, 8, 9) if tier == 'quick' else (8, 10, 12))):
        n = S.sp(key).size
        for a, b in work.chunks(n, 12):
            out.append(('pairing', key, a, b))
    for key in S.upto(250 if tier == 'quick' else 1500, *((10, 14, 15) if tier == 'quick' else (13, 18, 19))):
        out.append(('duals', key))
    for key in work.MEDIUM + work.BIG:
        for r in range(1 if tier == 'quick' else 8):
            out.append(('mixed', key, r))
    for key in work.LARGE + work.XL:
        for r in range(1 if tier == 'quick' else 10):
            out.append(('large', key, r))
    out += work.anywhere_units(tier)
    rng.shuffle(out)
    return [('programs',)] + work.bulk_units(tier, True, None) + out


def programs(ctx):
    judge.judge_events(ctx, ['dualize'])
    work.run_readme(ctx)
    work.run_repo_tests(ctx)


def one_class(ctx, g, sp, x):
    ok, r = ctx.call('%s.dualize(%s)' % (sp, ex.S(x)), g.dualize, ex.S(x))
    if not ok:
        return None
    e = ex.parse(str(r)).d
    if len(e) == 1:
        (mo, c), = e.items()
        if c == 1 and len(mo) == 1 and mo[0][1] == 1 and isinstance(mo[0][0], tuple):
            return mo[0][0][1]
    ctx.fail('%s.dualize(%s) = %s is not a single Schubert class' % (sp, ex.S(x), r))


def pairing_of(ctx, g, sp, x, y, dx):
    pt = tuple(g.point_class().partition())
    what = '%s.mult(%s, %s)' % (sp, ex.S(x), ex.S(y))
    ok, r = ctx.call(what, g.mult, ex.S(x), ex.S(y))
    if not ok:
        return
    e = ex.element(str(r), sp.model.nq)
    c = e.get((sp.model.q0, pt), 0)
    want = 1 if y == dx else 0
    ctx.note('pairings_%d' % want)
    ctx.seen((sp.key, x, y), c != 0, '%s = %s, dualize(%s) = %s' % (what, r, ex.S(x), ex.S(dx)))
    ctx.check(c == want, '%s has the point class with coefficient %s although dualize(%s) = %s' % (what, c, ex.S(x), ex.S(dx)))


def pairing(ctx, key, a, b):
    judge.judge_events(ctx, ['dualize'])
    sp = S.sp(key)
    g = sp.make()
    B = sorted(tuple(s.partition()) for s in g.schub_classes())
    dim = sum(g.point_class().partition())
    for x in B[a:b]:
        dx = one_class(ctx, g, sp, x)
        if dx is None:
            continue
        ctx.check(sum(dx) + sum(x) == dim, '%s.dualize(%s) = %s is not of complementary dimension' % (sp, ex.S(x), ex.S(dx)))
        for y in B:
            if sum(x) + sum(y) == dim:
                pairing_of(ctx, g, sp, x, y, dx)


def duals(ctx, key):
    judge.judge_events(ctx, ['dualize'])
    sp = S.sp(key)
    g = sp.make()
    B = sp.model.basis()
    D = {}
    for x in B:
        D[x] = one_class(ctx, g, sp, x)
    ctx.note('permutations')
    ctx.check(sorted(D.values()) == sorted(B), '%s: dualize does not permute the Schubert classes' % sp)
    for x in B:
        ctx.check(D[D[x]] == x, '%s: dualize twice sends %s to %s' % (sp, ex.S(x), ex.S(D[D[x]])))


def mixed(ctx, key, rep):
    judge.judge_events(ctx, ['dualize'])
    import schubertpy as api
    sp = S.sp(key)
    g = sp.make()
    m = sp.model
    rng = ctx.rng
    for i in range(2):
        x = S.random_class(rng, m)
        dx = one_class(ctx, g, sp, x)
        if dx is None:
            continue
        pairing_of(ctx, g, sp, x, dx, dx)
        near = [y for y in (m.basis() if sp.size < 3000 else []) if sum(y) == sum(dx)]
        for y in rng.sample(near, min(3, len(near))):
            pairing_of(ctx, g, sp, x, y, dx)
    for i in range(6):
        x = S.random_element(rng, m, 4, q=True, frac=True)
        ctx.call('%s.dualize(%s)' % (sp, S.ex.show(x, m.nq)), g.dualize, work.arg(rng, x, m.nq, api))


def large(ctx, key, rep):
    judge.judge_events(ctx, ['dualize'])
    import schubertpy as api
    sp = S.sp(key)
    g = sp.make()
    m = sp.model
    rng = ctx.rng
    for i in range(20):
        x = S.random_element(rng, m, 1 if i % 2 else 3, q=True)
        ctx.call('%s.dualize(%s)' % (sp, S.ex.show(x, m.nq)), g.dualize, work.arg(rng, x, m.nq, api))


def bulk(ctx, key):
    judge.judge_events(ctx, ['dualize'])
    work.bulk(ctx, key, ['dualize'])


def anywhere(ctx, r):
    judge.judge_events(ctx, ['dualize'])
    work.anywhere(ctx, ['dualize'], 'ABCD')
