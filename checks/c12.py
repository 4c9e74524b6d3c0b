"""part2pair / pair2part in types B, C, D: judged against the definition, inverse laws asserted."""
import expr as ex
import judge
import spaces as S
import work

OPS = ['part2pair', 'pair2part']
RULE = ('one observation = one judged conversion (conjugate of the first k columns, remaining part, type D marker); '
        'non-trivial = non-zero; distinct = distinct (space, operation, argument)')
MIN = {'quick': 5000, 'thorough': 30000}
MUST_SEE = ('spaces_anywhere', 'bulk_arguments', 'spaces_swept',)


def units(tier, rng):
    ks = [k for k in S.upto(260 if tier == 'quick' else 2000, *((1, 12, 13) if tier == 'quick' else (1, 16, 17))) if k[0] != 'Gr']
    out = [('sweep', k) for k in ks]
    for key in work.XL + work.LARGE + work.MEDIUM:
        if key[0] != 'Gr':
            for r in range(1 if tier == 'quick' else 15):
                out.append(('mixed', key, r))
    out += work.anywhere_units(tier)
    rng.shuffle(out)
    return [('programs',)] + work.bulk_units(tier, True, lambda k: k[0] != 'Gr') + out


def programs(ctx):
    judge.judge_events(ctx, OPS)
    work.run_readme(ctx)
    work.run_repo_tests(ctx)


def sweep(ctx, key):
    judge.judge_events(ctx, OPS)
    sp = S.sp(key)
    g = sp.make()
    m = sp.model
    seen = {}
    for lam in m.basis():
        form = list(lam) if ctx.rng.random() < 0.25 else ex.S(lam)
        ok, r = ctx.call('%s.part2pair(%s)' % (sp, form), g.part2pair, form)
        if not ok:
            continue
        ctx.check(str(r) not in seen, '%s.part2pair sends both %s and %s to %s' % (sp, seen.get(str(r)), lam, r))
        seen[str(r)] = lam
        top, bot = judge.pair(m, lam)
        back = ctx.rng.choice([r, str(r), [list(top), list(bot)]])
        ok, b = ctx.call('%s.pair2part(%s)' % (sp, back), g.pair2part, back)
        ctx.check(ok and str(b) == ex.S(lam), '%s.pair2part(part2pair(%s)) = %s (pair %s)' % (sp, ex.S(lam), b, r))
    ctx.note('spaces_swept')


def mixed(ctx, key, rep):
    import schubertpy as api
    judge.judge_events(ctx, OPS)
    sp = S.sp(key)
    g = sp.make()
    m = sp.model
    rng = ctx.rng
    for i in range(10):
        x = S.random_element(rng, m, 1 if i % 3 == 0 else 4, q=True, frac=True)
        ok, r = ctx.call('%s.part2pair(%s)' % (sp, S.ex.show(x, m.nq)), g.part2pair, work.arg(rng, x, m.nq, api))
        if not ok:
            continue
        form = r if rng.random() < 0.5 else str(r)
        ok, b = ctx.call('%s.pair2part(%s)' % (sp, r), g.pair2part, form)
        ctx.check(ok and S.norm(ex.element(str(b), m.nq)) == S.norm(x), '%s.pair2part(part2pair(%s)) = %s' % (sp, S.ex.show(x, m.nq), b))


def bulk(ctx, key):
    judge.judge_events(ctx, OPS)
    work.bulk(ctx, key, OPS)


def anywhere(ctx, r):
    judge.judge_events(ctx, OPS)
    work.anywhere(ctx, OPS, 'BCD')
