"""Schur polynomials against the count of semistandard tableaux."""
import functools

import expr as ex
import spaces as S

RULE = ('one observation = one printed Schur polynomial compared coefficient by coefficient with the number of semistandard '
        'tableaux of each content; non-trivial = at least two monomials; distinct = distinct (partition as written, n, form)')
MIN = {'quick': 200, 'thorough': 500}
MUST_SEE = ('polynomials', 'zero', 'padded', 'many_variables', 'repeated', 'coefficients', 'empty', 'large_values', 'many_parts')


@functools.lru_cache(None)
def ssyt(lam, n):
    """{content: number of semistandard tableaux}: the entries n form a horizontal strip"""
    if not lam:
        return {(0,) * n: 1}
    if len(lam) == n and lam[-1] > 1:
        return {tuple(x + lam[-1] - 1 for x in c): k for c, k in ssyt(tuple(x - lam[-1] + 1 for x in lam), n).items()}
    if len(lam) > n:
        return {}
    out = {}

    def strip(i, acc):
        if i == len(lam):
            mu = tuple(x for x in acc if x)
            for c, k in ssyt(mu, n - 1).items():
                key = c + (sum(lam) - sum(mu),)
                out[key] = out.get(key, 0) + k
            return
        lo = lam[i + 1] if i + 1 < len(lam) else 0
        for x in range(lo, lam[i] + 1):
            strip(i + 1, acc + [x])
    strip(0, [])
    return out


def parts_of(n, top=None):
    top = n if top is None else top
    if n == 0:
        yield ()
        return
    for a in range(min(n, top), 0, -1):
        for r in parts_of(n - a, a):
            yield (a,) + r


def units(tier, rng):
    top, nv = (8, 5) if tier == 'quick' else (9, 6)
    out = []
    for s in range(0, top + 1):
        for lam in parts_of(s):
            for n in range(1, nv + 1):
                if s * n <= (32 if tier == 'quick' else 50):
                    out.append(('poly', lam, n))
    extra = [((1,), 30), ((), 12), ((2,), 14), ((1, 1), 12), ((12,), 2), ((10, 2), 2), ((20, 11), 2), ((15, 4, 1), 2), ((30,), 1), ((9, 3), 3), ((1, 1, 1), 10), ((11,), 3), ((40, 40), 2), ((3, 3, 3, 3, 3), 5),
             ((1,) * 12, 12), ((2, 1), 9), ((8, 8, 7), 3), ((101, 100), 2), ((4, 3, 2, 1), 3), ((2, 2, 2, 2, 2, 2), 5)]
    out += [('poly', lam, n) for lam, n in extra]
    # a rectangle with a few boxes added: few monomials, but the recursion runs through many shapes
    for n, c in ((2, 200), (3, 33), (4, 14), (4, 15), (5, 8), (5, 14), (6, 6), (6, 9), (7, 4), (8, 3), (11, 2), (16, 1)):
        for mu in ((), (1,), (2,), (1, 1), (2, 1)) if n <= 3 else ((), (1,)) if n <= 4 else ((),):
            if (c + 2) ** n <= (10 ** 5 if tier == 'quick' and n < 6 else 2 * 10 ** 6) and len(mu) <= n:
                out.append(('poly', tuple(c + (mu[i] if i < len(mu) else 0) for i in range(n)), n))
    # many more parts than variables
    for rows in (10, 16, 31, 32, 33, 40, 63, 64, 65, 70, 100, 200):
        for top in (1, 2, 9, 300):
            out.append(('poly', tuple(sorted((rng.randint(1, top) for _ in range(rows)), reverse=True)), rng.randint(1, 6)))
    rng.shuffle(out)
    return out


def poly(ctx, lam, n):
    import schubertpy as api
    rng = ctx.rng
    want = ssyt(lam, n)
    pad = [0] * rng.randint(1, 3)
    forms = [('Schur(%s)' % list(lam), list(lam))]
    if rng.random() < 0.6 or not lam:
        forms.append(('Schur(%s)' % (list(lam) + pad), list(lam) + pad))
        ctx.note('padded')
    if rng.random() < 0.3:
        forms.append(('Schur(%r)' % ex.S(lam), None))
    for w, p in forms:
        arg = ex.S(lam) if p is None else p
        ok, s = ctx.call(w, api.Schur, arg)
        before = repr(s.partition()) + str(s)
        for rep in range(2 if rng.random() < 0.3 else 1):
            ww = '%s.to_polinomial_str(%d)' % (w, n)
            ok, t = ctx.call(ww, s.to_polinomial_str, n)
            if not ok:
                break
            judge(ctx, ww, t, n, want)
            ctx.seen((w, n), len(want) > 1, '%s = %s' % (ww, t[:150]))
            if rep:
                ctx.note('repeated')
            now = repr(s.partition()) + str(s)
            ctx.check(now == before, '%s changed the class from %s to %s' % (ww, before, now))
            if p is not None:
                ctx.check(repr(p) in before, '%s changed the given list to %s' % (ww, p))
    ctx.note('polynomials')
    if not want:
        ctx.note('zero')
        if len(lam) > 30:
            ctx.note('many_parts')
    if not lam:
        ctx.note('empty')
    if n >= 10:
        ctx.note('many_variables')
    if max(lam, default=0) > 9:
        ctx.note('large_values')


def judge(ctx, w, t, n, want):
    ctx.check(isinstance(t, str), '%s is a %s' % (w, type(t).__name__))
    P = ex.parse(t)
    got = {}
    for mo, c in P.d.items():
        e = [0] * n
        for v, k in mo:
            name = str(v)
            i = int(name[1:]) if name[:1] == 'x' and name[1:].isdigit() else 0
            if not 1 <= i <= n:
                ctx.fail('%s = %s contains the unknown %s' % (w, t[:300], name))
                return
            e[i - 1] = k
        got[tuple(e)] = c
    ctx.note('coefficients', len(want))
    if got != want:
        bad = [k for k in set(got) | set(want) if got.get(k, 0) != want.get(k, 0)][0]
        ctx.fail('%s = %s: coefficient %s at exponents %s, expected %s' % (w, t[:300], got.get(bad, 0), bad, want.get(bad, 0)))
