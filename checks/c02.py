"""Quantum Pieri: every outermost qpieri() call is judged against the reference model."""
import judge
import refmodel as rm
import spaces as S
import work

OP = "qpieri"
RULE = ('one observation = one outermost call of the monitored operation judged against the reference model; '
        'non-trivial = non-zero result; distinct = distinct (space, arguments). Sweeps take every special class times '
        'every Schubert class of every small space; the rest is random classes and combinations of large spaces')
MIN = {'quick': 4000, 'thorough': 20000}
MUST_SEE = ('spaces_anywhere', 'combs', 'bulk_arguments',)


def units(tier, rng):
    lim = 110 if tier == 'quick' else 700
    out = []
    for key in S.upto(lim, *((8, 12, 13) if tier == 'quick' else (11, 16, 17))):
        n = S.sp(key).size
        npieri = max(1, len(S.sp(key).model.specials()))
        for a, b in work.chunks(n, max(1, 400 // npieri)):
            out.append(('sweep', key, a, b))
    reps = 4 if tier == 'quick' else 30
    for key in work.XL + work.LARGE + work.MEDIUM:
        for r in range(reps):
            out.append(('large', key, r))
    out += work.bulk_units(tier, True, None)
    out += work.anywhere_units(tier) + work.comb_units(tier)
    rng.shuffle(out)
    out.insert(0, ('programs',))
    return out


def programs(ctx):
    judge.judge_events(ctx, [OP])
    work.run_readme(ctx)
    work.run_repo_tests(ctx)


def sweep(ctx, key, a, b):
    judge.judge_events(ctx, [OP])
    sp = S.sp(key)
    g = sp.make()
    for lam in sp.model.basis()[a:b]:
        for p in sp.model.specials():
            x = S.ex.S(lam) if ctx.rng.random() < 0.8 else list(lam)
            ctx.call('%s.%s(%s, %s)' % (sp, OP, p, lam), getattr(g, OP), p, x)
    ctx.note('classes_swept', b - a)


def large(ctx, key, rep):
    import schubertpy as api
    judge.judge_events(ctx, [OP])
    sp = S.sp(key)
    g = sp.make()
    m = sp.model
    rng = ctx.rng
    n = 14
    for i in range(n):
        p = rng.choice(m.specials())
        if i % 3 == 2:
            el = S.random_element(rng, m, terms=3, q=True)
        else:
            el = m.cls(S.random_class(rng, m))
        x = work.arg(rng, el, m.nq, api)
        ctx.call('%s.%s(%s, %s)' % (sp, OP, p, S.ex.show(el, m.nq)), getattr(g, OP), p, x)


def bulk(ctx, key):
    judge.judge_events(ctx, [OP])
    work.bulk(ctx, key, [OP])


def anywhere(ctx, r):
    judge.judge_events(ctx, [OP])
    work.anywhere(ctx, [OP], 'ABCD')


def combs(ctx, r):
    judge.judge_events(ctx, [OP])
    work.combs(ctx, OP)
