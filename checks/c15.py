"""remove_rim_hooks against the set of everything reachable by removing rim hooks.

The oracle works on boxes: a rim hook is a connected skew shape without a 2x2 square; it enumerates every
removal sequence (with the accumulated height), so no removal strategy is presupposed."""
from functools import lru_cache

import spaces as S

RULE = ('one observation = one remove_rim_hooks call on a partition that does not fit the grid, checked against every sequence of '
        'removals; non-trivial = at least one hook is removed or removal gets stuck; distinct = distinct (partition, size, grid)')
MIN = {'quick': 14000, 'thorough': 40000}
MUST_SEE = ('empty', 'removed', 'stuck', 'removed_several', 'is_in_range', 'unremovable_size', 'boundary_sizes')


def parts(maxrows, maxcols):
    out = [()]

    def rec(t):
        for x in range(1, (t[-1] if t else maxcols) + 1):
            u = t + (x,)
            out.append(u)
            if len(u) < maxrows:
                rec(u)
    rec(())
    return out


@lru_cache(maxsize=None)
def removals(lam, r):
    """every (mu, height) with lam/mu a rim hook of r boxes; boxes are enumerated, no formula"""
    boxes = {(i, j) for i, x in enumerate(lam) for j in range(x)}
    rim = [b for b in boxes if (b[0] + 1, b[1] + 1) not in boxes]
    # the rim is a path: order it from the top right to the bottom left and take windows
    rim.sort(key=lambda b: (b[1] - b[0]), reverse=True)
    out = []
    for s in range(len(rim) - r + 1):
        left = boxes - set(rim[s:s + r])
        mu = []
        ok = True
        for i in range(len(lam)):
            row = sorted(j for (a, j) in left if a == i)
            if row != list(range(len(row))) or (mu and len(row) > mu[-1]):
                ok = False
                break
            mu.append(len(row))
        if ok:
            while mu and mu[-1] == 0:
                mu.pop()
            out.append((tuple(mu), len({b[0] for b in rim[s:s + r]})))
    return out


def reach(lam, r, limit=60000):
    """{(mu, count): set of total heights} over all sequences; None if too many"""
    cur = {lam: {0}}
    out = {}
    c = 0
    n = 0
    while cur:
        c += 1
        nxt = {}
        for p, hs in cur.items():
            for mu, h in removals(p, r):
                nxt.setdefault(mu, set()).update(x + h for x in hs)
        for mu, hs in nxt.items():
            out[mu, c] = hs
            n += len(hs)
        if n > limit:
            return None
        cur = nxt
    return out


def fits(mu, grid):
    return len(mu) <= grid[0] and (not mu or mu[0] <= grid[1])


def units(tier, rng):
    R, C = (5, 7) if tier == 'quick' else (6, 7)
    ps = parts(R, C)
    out = [('sweep', R, C, i, 24) for i in range(24)]
    out += [('rand', i) for i in range(120 if tier == 'quick' else 600)]
    out += [('boundary', i) for i in range(60 if tier == 'quick' else 400)]
    return out


def one(ctx, lam, r, grid):
    import schubertpy as api
    lst = list(lam)
    p = api.Partition(lst)
    what = 'Partition(%s).remove_rim_hooks(%d, %s)' % (lst, r, grid)
    ok, inr = ctx.call('is_in_range', p.is_in_range, *grid)
    ctx.note('is_in_range')
    ctx.check(bool(inr) == fits(lam, grid), 'Partition(%s).is_in_range%s = %s' % (lst, grid, inr))
    if fits(lam, grid):
        return
    R = reach(lam, r)
    if R is None:
        ctx.note('too_many_sequences')
        return
    ok, res = ctx.call(what, p.remove_rim_hooks, r, grid)
    if not ok:
        return
    ctx.check(list(p.partition) == list(lam) and lst == list(lam), '%s changed the partition to %s' % (what, p))
    x, cnt, height = res
    good = {k for k in R if fits(k[0], grid)}
    ctx.seen((lam, r, grid), bool(R) or r <= sum(lam), '%s = %s' % (what, res))
    if not good:
        ctx.note('stuck' if R else 'unremovable_size')
        mu = getattr(x, 'partition', x)
        ctx.check(cnt == 0 and height == 0 and not mu, '%s = %s although no sequence of removals reaches the grid' % (what, res))
        return
    ctx.note('removed')
    if cnt > 1:
        ctx.note('removed_several')
    mu = getattr(x, 'partition', None)
    if not ctx.check(mu is not None, '%s = %s although removals reach %s' % (what, res, sorted(good)[:3])):
        return
    mu = tuple(i for i in mu if i)
    ctx.check(fits(mu, grid), '%s = %s does not fit the grid' % (what, res))
    ctx.check((mu, cnt) in good, '%s = %s: not reachable by removing %s rim hooks (reachable: %s)' % (what, res, cnt, sorted(good)[:5]))
    ctx.check(height in R.get((mu, cnt), ()), '%s = %s: total height must be one of %s' % (what, res, sorted(R.get((mu, cnt), ()))))


def sweep(ctx, R, C, i, step):
    rng = ctx.rng
    import schubertpy as api
    for lam in parts(R, C)[i::step]:
        if not lam:
            # nothing to remove: the partition stays, whatever the size and the grid
            for _ in range(20):
                r, grid = rng.randint(1, 9), (rng.randint(0, 4), rng.randint(0, 5))
                lst = [0] * rng.randint(0, 2)
                w = 'Partition(%s).remove_rim_hooks(%d, %s)' % (lst, r, grid)
                ok, res = ctx.call(w, api.Partition(lst).remove_rim_hooks, r, grid)
                if ok:
                    ctx.seen(('empty', len(lst), r, grid), True, '%s = %s' % (w, res))
                    mu = getattr(res[0], 'partition', res[0])
                    ctx.check(not mu or not any(mu), '%s = %s' % (w, res))
                    ctx.check(res[1] == 0 and res[2] == 0, '%s = %s: there is nothing to remove' % (w, res))
                    ctx.note('empty')
            continue
        mx = len(lam) + lam[0] - 1
        for r in range(1, mx + 2):
            for grid in {(rng.randint(0, 4), rng.randint(0, 5)), (len(lam), max(0, lam[0] - 1)), (len(lam) - 1, lam[0]),
                         (rng.randint(1, 3), rng.randint(1, 4))}:
                if not fits(lam, grid):
                    one(ctx, lam, r, grid)


def boundary(ctx, i):
    """tall or wide partitions and sizes around the whole rim, the first hooks and the number of boxes"""
    rng = ctx.rng
    for _ in range(20):
        r, c = rng.choice([(14, 3), (3, 14), (12, 9), (9, 12), (11, 2), (10, 10), (7, 7), (16, 5)])
        lam = tuple(sorted((rng.randint(max(1, c - rng.choice([0, 1, 2, c])), c) for _ in range(rng.randint(max(1, r - 4), r))), reverse=True))
        whole = lam[0] + len(lam) - 1
        size = rng.choice([whole, whole, whole - 1, whole + 1, lam[-1] + len(lam) - 1, lam[0], len(lam), sum(lam), rng.randint(2, whole)])
        grid = rng.choice([(rng.randint(0, 4), rng.randint(0, 4)), (len(lam) - 1, lam[0]), (len(lam), lam[0] - 1), (len(lam) - 2, lam[0] - 1),
                           (rng.randint(0, len(lam)), rng.randint(0, lam[0]))])
        if size > 0 and min(grid) >= 0 and not fits(lam, grid):
            ctx.note('boundary_sizes')
            one(ctx, lam, size, grid)


def rand(ctx, i):
    """larger partitions, as they occur in qmult_rh: rim size N, grid (m, N-m); and arbitrary ones"""
    rng = ctx.rng
    for _ in range(25):
        m = rng.randint(1, 7)
        k = rng.randint(1, 7)
        N = m + k
        lam = []
        hi = rng.randint(k + 1, 2 * k + N)
        for _ in range(rng.randint(1, m + (rng.random() < 0.3) * 3)):
            hi = rng.randint(1, hi)
            lam.append(hi)
        lam = tuple(sorted(lam, reverse=True))
        if fits(lam, (m, k)):
            continue
        one(ctx, lam, N if rng.random() < 0.7 else rng.randint(1, N + 2), (m, k))
