"""part2index / index2part: every call judged against the Schubert index sets, and the inverse laws asserted."""
import expr as ex
import judge
import spaces as S
import work

OPS = ['part2index', 'index2part']
RULE = ('one observation = one judged conversion (against the index set of the Schubert variety) or one class of a swept space; '
        'non-trivial = non-zero; distinct = distinct (space, operation, argument)')
MIN = {'quick': 6000, 'thorough': 40000}
MUST_SEE = ('spaces_anywhere', 'bulk_arguments', 'spaces_swept',)


def units(tier, rng):
    out = [('sweep', k) for k in S.upto(260 if tier == 'quick' else 2000, *((10, 12, 13) if tier == 'quick' else (13, 16, 17)))]
    for key in work.XL + work.LARGE + work.MEDIUM:
        for r in range(1 if tier == 'quick' else 15):
            out.append(('mixed', key, r))
    out += work.anywhere_units(tier)
    rng.shuffle(out)
    return [('programs',)] + work.bulk_units(tier, True, None) + out


def programs(ctx):
    judge.judge_events(ctx, OPS)
    work.run_readme(ctx)
    work.run_repo_tests(ctx)


def single(text):
    e = ex.parse(text).d
    if len(e) == 1:
        (mo, c), = e.items()
        if c == 1 and len(mo) == 1 and mo[0][1] == 1 and isinstance(mo[0][0], tuple):
            return mo[0][0][1]


def sweep(ctx, key):
    judge.judge_events(ctx, OPS)
    sp = S.sp(key)
    g = sp.make()
    m = sp.model
    images = {}
    for lam in m.basis():
        form = list(lam) if ctx.rng.random() < 0.25 else ex.S(lam)
        ok, r = ctx.call('%s.part2index(%s)' % (sp, form), g.part2index, form)
        idx = single(str(r)) if ok else None
        if idx is None:
            ctx.fail('%s.part2index(%s) = %s is no index set' % (sp, form, r))
            continue
        ctx.check(list(idx) == sorted(set(idx)) and len(idx) == m.rows and all(1 <= i <= m.N for i in idx),
                  '%s.part2index(%s) = %s is not an increasing set of %d indices in 1..%d' % (sp, form, r, m.rows, m.N))
        ctx.check(idx not in images, '%s.part2index sends both %s and %s to %s' % (sp, images.get(idx), lam, r))
        images[idx] = lam
        if m.rows:
            back = list(idx) if ctx.rng.random() < 0.25 else r if ctx.rng.random() < 0.5 else ex.S(idx)
            ok, b = ctx.call('%s.index2part(%s)' % (sp, back), g.index2part, back)
            ctx.check(ok and single(str(b)) == lam, '%s.index2part(part2index(%s)) = %s (index set %s)' % (sp, ex.S(lam), b, r))
        # dimension formula of Schubert varieties in type A, C as an independent cross-check
        if m.type == 'A':
            ctx.check(sum(idx) == m.dim + m.rows * (m.rows + 1) // 2 - sum(lam), '%s.part2index(%s) = %s has the wrong dimension' % (sp, ex.S(lam), r))
    adm = {tuple(c) for c in m.valid_index_sets()} if m.type != 'D' or m.k > 0 else None
    if adm is not None and (m.type != 'D'):
        ctx.check(set(images) == adm, '%s: the index sets obtained are not the admissible ones' % sp)
    elif adm is not None:
        # even orthogonal: index sets of T-fixed points
        ctx.check(set(images) <= adm and len(images) == len(adm), '%s: the index sets obtained are not the admissible ones' % sp)
    ctx.note('spaces_swept')


def mixed(ctx, key, rep):
    import schubertpy as api
    judge.judge_events(ctx, OPS)
    sp = S.sp(key)
    g = sp.make()
    m = sp.model
    rng = ctx.rng
    for i in range(8):
        x = S.random_element(rng, m, 1 if i % 3 == 0 else 4, q=True, frac=True)
        ok, r = ctx.call('%s.part2index(%s)' % (sp, S.ex.show(x, m.nq)), g.part2index, work.arg(rng, x, m.nq, api))
        if not ok:
            continue
        form = r if rng.random() < 0.5 else str(r)
        ok, b = ctx.call('%s.index2part(%s)' % (sp, r), g.index2part, form)
        ctx.check(ok and S.norm(ex.element(str(b), m.nq)) == S.norm(x), '%s.index2part(part2index(%s)) = %s' % (sp, S.ex.show(x, m.nq), b))


def bulk(ctx, key):
    judge.judge_events(ctx, OPS)
    work.bulk(ctx, key, OPS)


def anywhere(ctx, r):
    judge.judge_events(ctx, OPS)
    work.anywhere(ctx, OPS, 'ABCD')
