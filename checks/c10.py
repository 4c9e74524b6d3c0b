"""Descriptive data of every space against definitions: basis, generators, point class, type data, deg(q)."""
import re

import expr as ex
import spaces as S

RULE = ('one observation = one descriptive item of one space (basis, generators, point class, type data, printed form, deg q) '
        'compared with its definition, or one listed class checked; distinct = distinct (space, item)')
MIN = {'quick': 4000, 'thorough': 20000}
MUST_SEE = ('basis', 'generators', 'point_class', 'type_data', 'printed_form', 'huge_spaces')


def units(tier, rng):
    ks = S.upto(2500 if tier == 'quick' else 20000, *((11, 14, 15) if tier == 'quick' else (14, 18, 19)))
    ks += [('Gr', 0, 1), ('Gr', 2, 40), ('Gr', 38, 40), ('Gr', 1, 60), ('IG', 2, 40), ('IG', 1, 60), ('OG', 2, 41), ('OG', 2, 40),
           ('OG', 1, 61), ('OG', 1, 60), ('IG', 10, 20), ('OG', 10, 21), ('OG', 10, 20), ('OG', 11, 22), ('OG', 9, 20), ('IG', 9, 20)]
    rng.shuffle(ks)
    return [('space', k) for k in ks] + [('huge', r) for r in range(12 if tier == 'quick' else 60)]


def describe(ctx, sp, g):
    m = sp.model
    cls, mm, N = sp.key
    want = [m.type, m.k, m.n, cls, mm, N, m.deg_q]
    ok, d = ctx.call('%s.degree_q()' % sp, g.degree_q)
    ctx.check(d == m.deg_q, '%s.degree_q() = %s, expected %d' % (sp, d, m.deg_q))
    ok, td = ctx.call('%s.get_type_data()' % sp, g.get_type_data)
    ctx.note('type_data')
    ctx.seen((sp.key, 'type_data'))
    ctx.check(list(td) == want, '%s.get_type_data() = %s, expected %s' % (sp, td, want))
    ok, t = ctx.call('str(%s)' % sp, str, g)
    r = re.search(r'Type\s+(\w+)\W.*\(k,\s*n\)\s*=\s*\((-?\d+),\s*(-?\d+)\).*?(\w\w)\((-?\d+),\s*(-?\d+)\).*deg\(q\)\s*=\s*(-?\d+)', str(t))
    ctx.note('printed_form')
    ctx.seen((sp.key, 'str'))
    got = r and [r.group(1), int(r.group(2)), int(r.group(3)), r.group(4), int(r.group(5)), int(r.group(6)), int(r.group(7))]
    ctx.check(got == want, '%s prints as %r, expected the data %s' % (sp, t, want))


def gens(ctx, sp, g):
    m = sp.model
    ok, gs = ctx.call('%s.generators()' % sp, g.generators)
    got = [tuple(s.partition()) for s in gs]
    want = [m.special(p) for p in m.specials()]
    ctx.note('generators')
    ctx.seen((sp.key, 'generators'), bool(want))
    ctx.check(sorted(got) == sorted(want), '%s.generators() = %s, expected %s' % (sp, gs, [ex.S(x) for x in want]))
    texts = [str(s) for s in gs]
    ctx.check(sorted(texts) == sorted(ex.S(x) for x in want), '%s.generators() print as %s' % (sp, texts))


def point(ctx, sp, g):
    m = sp.model
    ok, p = ctx.call('%s.point_class()' % sp, g.point_class)
    t = tuple(p.partition())
    rows, cols = m.rows, m.cols
    if m.type == 'A':
        want = (cols,) * rows if cols else ()
    else:
        want = tuple(cols - i for i in range(rows) if cols - i > 0)
    ctx.note('point_class')
    ctx.seen((sp.key, 'point'), bool(want))
    ctx.check(t == want and str(p) == ex.S(want), '%s.point_class() = %s, expected %s' % (sp, p, ex.S(want)))
    ctx.check(sum(t) == m.dim, '%s.point_class() = %s does not have degree dim = %d' % (sp, p, m.dim))


def space(ctx, key):
    sp = S.sp(key)
    ok, g = ctx.call('constructing %s' % sp, sp.make)
    if not ok:
        return
    m = sp.model
    ok, cl = ctx.call('%s.schub_classes()' % sp, g.schub_classes)
    got = [tuple(s.partition()) for s in cl]
    want = m.basis()
    ctx.note('basis')
    for x in got:
        ctx.seen((key, x))
    ctx.seen((key, 'basis'), True, '%s: %d classes' % (sp, len(got)))
    extra = [ex.S(x) for x in set(got) - set(want)][:3]
    missing = [ex.S(x) for x in set(want) - set(got)][:3]
    ctx.check(not extra and not missing, '%s.schub_classes(): not in the basis %s, missing %s' % (sp, extra, missing))
    ctx.check(len(set(got)) == len(got) == sp.size, '%s.schub_classes() lists %d classes (%d distinct), expected %d' % (
        sp, len(got), len(set(got)), sp.size))
    ctx.check(all(str(s) == ex.S(x) for s, x in zip(cl, got)), '%s.schub_classes() print differently from their partitions' % sp)
    pt = tuple(g.point_class().partition())
    top = max(sum(x) for x in got)
    ctx.check([x for x in got if sum(x) == top] == [pt], '%s: point_class() %s is not the unique class of top degree' % (sp, ex.S(pt)))
    describe(ctx, sp, g)
    gens(ctx, sp, g)
    point(ctx, sp, g)
    # the same answers a second time and from a space of equal data
    g2 = sp.make()
    ctx.check([str(s) for s in g2.schub_classes()] == [str(s) for s in cl] == [str(s) for s in g.schub_classes()],
              '%s.schub_classes() differs between two calls' % sp)


def huge(ctx, rep):
    """spaces whose basis cannot be listed"""
    rng = ctx.rng
    for i in range(6):
        cls = rng.choice(['Gr', 'IG', 'OG'])
        N = rng.randint(20, 120)
        if cls == 'IG':
            N += N % 2
        hi = N if cls == 'Gr' else N // 2
        m = rng.choice([1, hi, max(1, hi - 1), rng.randint(1, hi), rng.randint(1, hi)])
        sp = S.Sp(cls, m, N)
        g = sp.make()
        describe(ctx, sp, g)
        gens(ctx, sp, g)
        point(ctx, sp, g)
        ctx.note('huge_spaces')
