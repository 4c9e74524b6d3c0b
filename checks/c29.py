"""Partition helpers against brute-force enumeration."""
import itertools

import polytext as pt
import spaces as S

RULE = ('one observation = one helper call compared with a brute-force result, its argument compared before and after; '
        'non-trivial = more than one element or box; distinct = distinct (helper, arguments)')
MIN = {'quick': 2500, 'thorough': 15000}
MUST_SEE = ('kstrict_boxes', 'kstrict_total', 'k_equals_cols', 'zero_rows', 'rectangles', 'conjugates', 'clips', 'unique_lists', 'duplicates', 'padded', 'big_boxes', 'long_rectangles')


def units(tier, rng):
    top = 6 if tier == 'quick' else 8
    out = [('boxes', r, c) for r in range(0, top + 1) for c in range(0, top + 2)]
    out += [('big_boxes', i) for i in range(16 if tier == 'quick' else 100)]
    out += [('rects', r, c) for r in range(1, top + 1) for c in range(0, top + 1)]
    from math import comb
    long = [(r, c) for r in range(1, 31) for c in range(0, 61) if (r > top or c > top) and comb(r + c, r) <= (5000 if tier == 'quick' else 60000)]
    out += [('rects', r, c) for r, c in (long if tier != 'quick' else [(1, rng.randint(7, 60)), (rng.randint(7, 30), 1)] + rng.sample(long, 14))]
    n = 80 if tier == 'quick' else 500
    out += [('lists', i) for i in range(n)] + [('uniq', i) for i in range(n)]
    rng.shuffle(out)
    return out


def brute(k, rows, cols):
    """k-strict partitions in the box: parts larger than k are distinct"""
    out = set()

    def rec(acc, top):
        out.add(tuple(acc))
        if len(acc) == rows:
            return
        for x in range(1, top + 1):
            rec(acc + [x], x - 1 if x > k else x)
    rec([], cols)
    return out


def one_box(ctx, k, rows, cols, want):
    from schubertpy.qcalc import all_kstrict
    w = 'all_kstrict(%d, %d, %d)' % (k, rows, cols)
    ok, r = ctx.call(w, all_kstrict, k, rows, cols)
    if not ok:
        return
    ts = [tuple(x) for x in r]
    ctx.note('kstrict_boxes')
    ctx.note('kstrict_total', len(want))
    ctx.seen((k, rows, cols), len(want) > 1, '%s: %d partitions' % (w, len(ts)))
    ctx.check(all(not t or t[-1] != 0 for t in ts), '%s lists partitions with trailing zeros: %s' % (w, [t for t in ts if t and not t[-1]][:4]))
    ctx.check(len(ts) == len(set(ts)), '%s lists %s more than once' % (w, [t for t in ts if ts.count(t) > 1][:4] if len(ts) < 3000 else 'something'))
    ctx.check(set(ts) == want, '%s: missing %s, extra %s' % (w, sorted(want - set(ts))[:4], sorted(set(ts) - want)[:4]))
    if k == cols:
        ctx.note('k_equals_cols')
    if not rows:
        ctx.note('zero_rows')


def boxes(ctx, rows, cols):
    for k in range(0, cols + 1):
        one_box(ctx, k, rows, cols, brute(k, rows, cols))


def big_boxes(ctx, i):
    rng = ctx.rng
    for _ in range(2):
        r = rng.random()
        if r < 0.3:
            rows, cols = rng.randint(1, 3), rng.randint(10, 25)
        elif r < 0.6:
            rows, cols = rng.randint(10, 20), rng.randint(1, 3)
        else:
            rows, cols = rng.randint(7, 9), rng.randint(7, 10)
        ks = [k for k in range(cols + 1)]
        k = rng.choice([0, 1, 2, cols, cols - 1, rng.choice(ks)])
        k = max(0, min(k, cols))
        want = brute(k, rows, cols)
        if len(want) > 60000:
            continue
        ctx.note('big_boxes')
        one_box(ctx, k, rows, cols, want)


def rects(ctx, rows, cols):
    from schubertpy.qcalc import part_gen
    rect = [cols] * rows
    ok, r = ctx.call('part_gen(%s)' % rect, part_gen, rect)
    ts = [tuple(x) for x in r]
    want = brute(cols, rows, cols)
    ctx.note('rectangles')
    if rows > 8 or cols > 8:
        ctx.note('long_rectangles')
    ctx.seen(('rect', rows, cols), len(want) > 1, 'part_gen(%s): %d' % (rect, len(ts)))
    ctx.check(all(not t or t[-1] != 0 for t in ts), 'part_gen(%s) lists partitions with trailing zeros' % rect)
    ctx.check(len(ts) == len(set(ts)), 'part_gen(%s) lists a partition twice' % rect)
    ctx.check(set(ts) == want, 'part_gen(%s): missing %s, extra %s' % (rect, sorted(want - set(ts))[:4], sorted(set(ts) - want)[:4]))
    ctx.check(rect == [cols] * rows, 'part_gen changed its argument to %s' % rect)


def clip(p):
    p = list(p)
    while p and p[-1] == 0:
        p.pop()
    return p


def lists(ctx, i):
    from schubertpy.qcalc import part_clip, part_conj
    rng = ctx.rng
    for _ in range(40):
        p = pt.part(rng, big=False)
        if rng.random() < 0.15:
            p = sorted((rng.randint(0, 60) for _ in range(rng.randint(1, 30))), reverse=True)
        c = clip(p)
        want = [sum(1 for x in c if x > j) for j in range(c[0] if c else 0)]
        a = list(p)
        ok, r = ctx.call('part_conj(%s)' % p, part_conj, a)
        if not ok:
            continue
        ctx.note('conjugates')
        if p != c:
            ctx.note('padded')
        ctx.seen(('conj', tuple(p)), sum(p) > 1, 'part_conj(%s) = %s' % (p, r))
        ctx.check(list(r) == want, 'part_conj(%s) = %s, expected %s' % (p, r, want))
        ctx.check(a == p, 'part_conj changed its argument %s to %s' % (p, a))
        ok, rr = ctx.call('part_conj(%s)' % r, part_conj, list(r))
        ctx.check(list(rr) == c, 'conjugating %s twice gives %s' % (p, rr))
        # clipping: any list of non-negative integers
        z = list(p) if rng.random() < 0.5 else [rng.choice([0, 0, 1, 2, 10]) for _ in range(rng.randint(0, 7))]
        z += [0] * rng.choice([0, 0, 1, 3])
        a = list(z)
        ok, r = ctx.call('part_clip(%s)' % z, part_clip, a)
        ctx.note('clips')
        ctx.seen(('clip', tuple(z)), len(z) > 1, 'part_clip(%s) = %s' % (z, r))
        ctx.check(list(r) == clip(z), 'part_clip(%s) = %s' % (z, r))
        ctx.check(a == z, 'part_clip changed its argument %s to %s' % (z, a))


def uniq(ctx, i):
    import schubertpy as api
    from schubertpy.qcalc import unique_schur_list
    rng = ctx.rng
    for _ in range(20):
        pool = [pt.part(rng) for _ in range(rng.randint(1, 8))]
        if rng.random() < 0.2:
            # same numbers, differently grouped: [1,11] / [11,1], [1,1,1] / [11,1]
            pool += [[1, 1, 1], [11, 1], [111], [1, 11][::-1], [11, 1, 0], [1, 1, 1, 0], []]
        ps = [rng.choice(pool) for _ in range(rng.randint(0, 14))]
        ss = [api.Schur(list(p)) if rng.random() < 0.7 else api.Schur(pt.S(p)) for p in ps]
        keep = list(ss)
        ok, r = ctx.call('unique_schur_list(%s)' % ss, unique_schur_list, ss)
        if not ok:
            continue
        ctx.note('unique_lists')
        want = [list(p) for p, _ in itertools.groupby(sorted(ps))]
        if len(want) < len(ps):
            ctx.note('duplicates')
        got = [list(s.partition()) for s in r]
        ctx.seen(('uniq', repr(ps)), len(want) > 1, 'unique_schur_list(%s) = %s' % (keep, r))
        ctx.check(got == want, 'unique_schur_list(%s) = %s, expected the classes %s' % (keep, r, want))
        ctx.check(len(ss) == len(keep) and all(x is y for x, y in zip(ss, keep)) and [list(s.partition()) for s in ss] == [list(p) for p in ps],
                  'unique_schur_list changed its argument to %s' % ss)
