"""Constructors accept exactly the existing spaces; clones describe and compute the same."""
from decimal import Decimal
from fractions import Fraction

import expr as ex
import script
import spaces as S

RULE = ('one observation = one constructor call (accepted, ValueError, TypeError as specified) or one call made on a clone and on '
        'its original; distinct = distinct (class, arguments) or (space, call)')
MIN = {'quick': 4000, 'thorough': 30000}
MUST_SEE = ('accepted', 'refused_value', 'refused_type', 'clones', 'clone_calls', 'huge', 'clone_of_clone', 'after_use')
TOP = {'quick': 20, 'thorough': 40}


def cls_(name):
    import schubertpy as api
    return {'Gr': api.Grassmannian, 'IG': api.IsotropicGrassmannian, 'OG': api.OrthogonalGrassmannian}[name]


def exists(name, m, N):
    if name == 'Gr':
        return 0 <= m <= N
    if name == 'IG':
        return N % 2 == 0 and 0 <= 2 * m <= N
    return 0 <= 2 * m <= N


def units(tier, rng):
    top = TOP[tier]
    out = [('grid', n, N) for n in ('Gr', 'IG', 'OG') for N in range(-4, top + 1)]
    out += [('odd_arguments', n, r) for n in ('Gr', 'IG', 'OG') for r in range(4 if tier == 'quick' else 40)]
    ks = S.upto(80, 7, 10, 11) if tier == 'quick' else S.upto(400, 10, 14, 15)
    out += [('clone', k) for k in ks + [('Gr', 10, 25), ('IG', 8, 30), ('OG', 8, 31), ('OG', 9, 30), ('OG', 14, 30), ('OG', 15, 30), ('OG', 1, 40)]]
    rng.shuffle(out)
    return out


def one(ctx, name, m, N):
    C = cls_(name)
    w = '%s(%r, %r)' % (name, m, N)
    try:
        g = C(m, N)
    except ValueError as e:
        got, g = 'ValueError', None
    except Exception as e:
        got, g = type(e).__name__ + ': ' + str(e)[:200], None
    else:
        got = 'a space'
    want = 'a space' if exists(name, m, N) else 'ValueError'
    ctx.seen((name, m, N), True, '%s -> %s' % (w, got))
    ctx.note('accepted' if want == 'a space' else 'refused_value')
    ctx.check(got == want, '%s gives %s, expected %s' % (w, got, want))
    return g


def grid(ctx, name, N):
    for m in range(-4, TOP[ctx.tier] + 4):
        g = one(ctx, name, m, N)
        if g is not None:
            td = list(g.get_type_data())
            ctx.check(td[3:6] == [name, m, N], '%s(%d, %d) describes itself as %s' % (name, m, N, td))


def odd_arguments(ctx, name, r):
    import schubertpy as api
    rng = ctx.rng
    C = cls_(name)
    bad = [2.0, 2.5, float('inf'), float('nan'), '2', b'2', None, Fraction(2), Decimal(2), 2 + 0j, [2], (2,), {2}, {}, '', [], api.Schur([2]),
           api.LinearCombination('2'), C(1, 4), C, len, range(2), rng.uniform(0, 9), str(rng.randint(0, 9))]
    for b in bad:
        for args in ((b, rng.choice([4, 8, 12])), (rng.randint(0, 2), b), (b, b)):
            w = '%s%r' % (name, args)
            try:
                C(*args)
            except TypeError:
                got = 'TypeError'
            except Exception as e:
                got = type(e).__name__ + ': ' + str(e)[:200]
            else:
                got = 'a space'
            ctx.note('refused_type')
            ctx.seen(w, True, '%s -> %s' % (w[:100], got))
            ctx.check(got == 'TypeError', '%s gives %s, expected TypeError' % (w, got))
    for _ in range(12):
        N = rng.choice([10 ** 6, 4 * 10 ** 6, 10 ** 20, 10 ** 30, rng.randint(100, 10 ** 9)])
        N += rng.randint(-1, 1)
        m = rng.choice([0, 1, N // 2, N // 2 + 1, N, N + 1, -N, rng.randint(0, N)])
        ok, _x = ctx.call('%s(%d, %d)' % (name, m, N), one, ctx, name, m, N)
        ctx.note('huge')


def text(v):
    if isinstance(v, list):
        return [text(x) for x in v]
    return str(v)


def clone(ctx, key):
    sp = S.sp(key)
    m = sp.model
    rng = ctx.rng
    g = sp.make()
    for step in range(2):
        ok, c = ctx.call('%s.clone()' % sp, g.clone)
        if not ok:
            return
        ctx.note('clones')
        ctx.check(c is not g, '%s.clone() is the same object' % sp)
        ctx.check(type(c) is type(g), '%s.clone() is a %s' % (sp, type(c).__name__))
        td, tc = list(g.get_type_data()), list(c.get_type_data())
        ctx.check(td == tc and td[3:6] == list(key), '%s.clone() describes itself as %s' % (sp, tc))
        ctx.check(str(c) == str(g), '%s.clone() prints as %s' % (sp, c))
        ctx.check(c.degree_q() == g.degree_q(), '%s.clone().degree_q() = %s' % (sp, c.degree_q()))
        ok, cc = ctx.call('%s.clone().clone()' % sp, c.clone)
        ctx.note('clone_of_clone')
        ctx.check(list(cc.get_type_data()) == td and type(cc) is type(g), 'clone of clone of %s is %s' % (sp, cc))
        small = sp.size <= 80
        for _ in range(8 if small else 4):
            call = script.gen(rng, key, heavy=False)
            if not small and call[1] not in ('pieri', 'qpieri', 'dualize', 'part2index', 'data', 'str', 'schub_type', 'type_swap'):
                continue
            who = rng.choice([c, cc])
            r1, t1 = script.outcome(g, call)
            r2, t2 = script.outcome(who, call)
            ctx.note('clone_calls')
            if step:
                ctx.note('after_use')
            ctx.seen((key, call), True, '%s -> %s' % (script.show(call), t1))
            ctx.check(script.same(t1, t2), '%s: original gives %s, clone gives %s' % (script.show(call), t1[:500], t2[:500]))
            ctx.check(not t1.startswith('EXC'), '%s raised: %s' % (script.show(call), t1[:300]))
        # the original after its clones were used, and the other way round
        td2 = list(g.get_type_data())
        ctx.check(td2 == td, '%s describes itself as %s after its clone was used' % (sp, td2))
