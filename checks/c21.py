"""schur_expansion against the exact reading of the combination."""
import expr as ex
import polytext as pt
import spaces as S

RULE = ('one observation = one schur_expansion of one combination (or its refusal), judged against the terms the text denotes; '
        'non-trivial = at least two terms or a refused product; distinct = distinct (text, include_q)')
MIN = {'quick': 3000, 'thorough': 40000}
MUST_SEE = ('expansions', 'single_term', 'zero', 'fraction_coefficient', 'q_terms_dropped', 'all_dropped', 'refused', 'operation_results', 'same_class_twice', 'pairs', 'neighbours')


def units(tier, rng):
    n = 40 if tier == 'quick' else 600
    out = [('random', i) for i in range(n)] + [('refuse', i) for i in range(n)]
    out += [('results', k) for k in S.upto(30, 6, 8, 9)]
    rng.shuffle(out)
    return out


def entries(ctx, what, e):
    """[(coef as P, partition)]"""
    if isinstance(e, tuple) and len(e) == 2 and not (isinstance(e[0], tuple)):
        e = [e]
    out = []
    for x in e:
        c, p = x
        p = p.partition() if hasattr(p, 'partition') and not isinstance(p, str) else p
        out.append((ex.parse(str(c)), ex._tup(list(p))))
    return out


def judge(ctx, what, o, P):
    """o: LinearCombination; P: its exact value (linear in the classes, no constant term unless zero)"""
    want = {}
    for mo, c in P.d.items():
        lam = [v[1] for v, e in mo if isinstance(v, tuple)]
        qm = tuple((v, e) for v, e in mo if not isinstance(v, tuple))
        want[(lam[0], qm)] = c
    before = str(o)
    for inc in (True, False, None):
        w = '%s.schur_expansion(%s)' % (what, '' if inc is None else 'include_q=%s' % inc)
        ok, e = ctx.call(w, o.schur_expansion, *(() if inc is None else (inc,)))
        if not ok:
            continue
        es = entries(ctx, w, e)
        exp = {k: c for k, c in want.items() if inc is not False or not k[1]}
        ctx.seen((what, inc), len(want) > 1, '%s = %s' % (w, e))
        ctx.note('expansions')
        if not exp:
            tot = ex.P()
            for c, p in es:
                tot = tot + c * ex.P.var(('S', p))
            ctx.check(not tot.d and all(not c.d for c, p in es), '%s = %s, but there is nothing to list' % (w, e))
            ctx.note('zero' if not want else 'all_dropped')
            continue
        if len(exp) < len(want):
            ctx.note('q_terms_dropped')
        tot, tgt = ex.P(), ex.P()
        for c, p in es:
            tot = tot + c * ex.P.var(('S', p))
        for (lam, qm), c in exp.items():
            t = ex.P.const(c) * ex.P.var(('S', lam))
            for v, n in qm:
                t = t * (ex.P.var(v) ** n)
            tgt = tgt + t
        ctx.check(tot == tgt, '%s = %s, which does not sum to the combination' % (w, e))
        ctx.check(len(es) == len(exp), '%s = %s has %d entries, the combination has %d terms' % (w, e, len(es), len(exp)))
        ps = [list(p) for _, p in es]
        ctx.check(all(a <= b for a, b in zip(ps, ps[1:])), '%s = %s is not in increasing order of the partition' % (w, e))
        if len(want) == 1:
            ctx.note('single_term')
        if any(getattr(c, 'denominator', 1) != 1 for c in exp.values()):
            ctx.note('fraction_coefficient')
        if len({k[0] for k in exp}) < len(exp):
            ctx.note('same_class_twice')
        if exp and isinstance(next(iter(exp))[0], tuple) and next(iter(exp))[0] and isinstance(next(iter(exp))[0][0], tuple):
            ctx.note('pairs')
    ctx.check(str(o) == before, '%s is changed by schur_expansion to %s' % (what, o))


def random(ctx, i):
    import schubertpy as api
    rng = ctx.rng
    for j in range(40):
        r = rng.random()
        if r < 0.1:
            parts = [[pt.part(rng), pt.part(rng)] for _ in range(5)]
        elif r < 0.5:
            parts = [pt.part(rng) for _ in range(5)]
        else:
            parts = None
        t, terms = pt.linear(rng, rng.choice([1, 1, 2, 4, 8]), parts=parts, distinct=False)
        P = pt.value(terms)
        if j == 0:
            t, P = rng.choice(['0', 'S[2]-S[2]', '0*S[1]', 'q - q']), ex.P()
        ok, o = ctx.call('LinearCombination(%r)' % t, api.LinearCombination, t)
        if ok:
            judge(ctx, 'LinearCombination(%r)' % t, o, P)
        if ok and j and rng.random() < 0.4:
            # nearly the same combination next
            for _ in range(2):
                terms = pt.neighbour(rng, terms)
                t = pt.write(rng, terms)
                if '[[' in t and ',0]' in t:
                    continue
                ok, o = ctx.call('LinearCombination(%r)' % t, api.LinearCombination, t)
                if ok:
                    ctx.note('neighbours')
                    judge(ctx, 'LinearCombination(%r)' % t, o, pt.value(terms))


def refuse(ctx, i):
    """products and powers of classes, alone, in a sum, with scalars"""
    import schubertpy as api
    rng = ctx.rng
    for j in range(25):
        ps = [pt.S(pt.part(rng)) for _ in range(3)]
        a, b, c = ps
        if len(set(ps)) < 3:
            continue
        forms = ['%s*%s' % (a, b), '%s^2' % a, '%s*%s*%s' % (a, b, c), '%s^2*%s' % (a, b), '%s^3*%s^2' % (a, b), '(%s+%s)*%s' % (a, b, c),
                 '(%s+%s)^2' % (a, b), '%s*(%s - 2*%s)' % (a, b, c), '%s*%s^2*%s' % (a, b, c), '(%s+1)*%s' % (a, b), '(%s+%s)*(%s+1)' % (a, b, c),
                 '%s*(%s+%s)^2' % (a, b, c), '%s*%s' % (a, a)]
        t = rng.choice(forms)
        r = rng.random()
        if r < 0.3:
            t = rng.choice(['3*%s', '2/7*(%s)', '-%s']) % t
        has_q = False
        if rng.random() < 0.2:
            t, has_q = 'q*(%s)' % t, True
        if rng.random() < 0.4:
            x, _ = pt.linear(rng, 3)
            t = '%s + %s' % (x, t) if rng.random() < 0.5 else '%s + %s' % (t, x)
        P = ex.parse(t)
        if all(sum(e for v, e in mo if isinstance(v, tuple)) <= 1 for mo in P.d):
            continue
        ok, o = ctx.call('LinearCombination(%r)' % t, api.LinearCombination, t)
        if not ok:
            continue
        for inc in ([True] if has_q else [True, False]):
            w = 'LinearCombination(%r).schur_expansion(include_q=%s)' % (t, inc)
            ctx.note('refused')
            try:
                e = o.schur_expansion(include_q=inc)
            except ValueError as err:
                ctx.seen((t, inc), True, '%s -> ValueError: %s' % (w, str(err)[:80]))
            except Exception as err:
                ctx.seen((t, inc))
                ctx.fail('%s raised %s instead of ValueError: %s' % (w, type(err).__name__, err))
            else:
                ctx.seen((t, inc))
                ctx.fail('%s = %s, but the expression contains a product or power of classes' % (w, e))


def results(ctx, key):
    sp = S.sp(key)
    g = sp.make()
    m = sp.model
    rng = ctx.rng
    for _ in range(6):
        a, b = S.random_class(rng, m), S.random_class(rng, m)
        for op in ('qmult', 'mult'):
            ok, r = ctx.call('%s.%s(%s, %s)' % (sp, op, a, b), getattr(g, op), ex.S(a), ex.S(b))
            if ok:
                ctx.note('operation_results')
                judge(ctx, '%s.%s(%s, %s)' % (sp, op, a, b), r, ex.parse(str(r)))
    if m.specials():
        for _ in range(4):
            p, lam = rng.choice(m.specials()), S.random_class(rng, m)
            ok, r = ctx.call('%s.qpieri(%s, %s)' % (sp, p, lam), g.qpieri, p, ex.S(lam))
            if ok:
                judge(ctx, '%s.qpieri(%s, %s)' % (sp, p, lam), r, ex.parse(str(r)))
