"""Workloads shared by the checks of the ring operations."""
import contextlib
import io
import os
import random
import sys

import expr as ex
import refmodel as rm
import spaces as S
import target

# spaces too large to sweep; multi-digit parts, long rows, every type, k = 0, 1, 2, large
LARGE = [('Gr', 2, 24), ('Gr', 3, 15), ('Gr', 5, 12), ('Gr', 9, 12), ('Gr', 11, 13), ('Gr', 6, 12), ('Gr', 4, 17),
         ('IG', 2, 24), ('IG', 3, 16), ('IG', 4, 14), ('IG', 6, 14), ('IG', 7, 14), ('IG', 5, 16), ('IG', 1, 26),
         ('OG', 2, 25), ('OG', 3, 17), ('OG', 4, 15), ('OG', 6, 15), ('OG', 7, 15), ('OG', 5, 17), ('OG', 1, 25),
         ('OG', 2, 24), ('OG', 3, 16), ('OG', 4, 14), ('OG', 6, 14), ('OG', 7, 14), ('OG', 5, 16), ('OG', 1, 24),
         ('OG', 7, 16), ('OG', 8, 16), ('OG', 6, 16), ('OG', 5, 12), ('OG', 4, 12)]
# very large: Pieri products, index sets and conversions only
XL = [('Gr', 8, 20), ('Gr', 10, 20), ('Gr', 15, 19), ('IG', 8, 16), ('IG', 10, 20), ('IG', 9, 22), ('IG', 6, 22), ('IG', 4, 24),
      ('OG', 9, 19), ('OG', 11, 23), ('OG', 8, 21), ('OG', 5, 21), ('OG', 10, 20), ('OG', 12, 24), ('OG', 8, 20),
      ('OG', 6, 20), ('OG', 9, 22), ('OG', 11, 24), ('OG', 9, 20),
      ('Gr', 1, 60), ('Gr', 40, 41), ('IG', 1, 50), ('OG', 1, 51), ('OG', 1, 52), ('IG', 2, 34), ('OG', 2, 34), ('OG', 2, 35)]
# medium: products are affordable
MEDIUM = [('Gr', 2, 8), ('Gr', 3, 7), ('Gr', 4, 8), ('Gr', 5, 8), ('Gr', 2, 12), ('Gr', 6, 8), ('Gr', 3, 9),
          ('IG', 2, 10), ('IG', 3, 8), ('IG', 4, 8), ('IG', 3, 10), ('IG', 5, 10), ('IG', 2, 14), ('IG', 4, 10),
          ('OG', 2, 9), ('OG', 3, 9), ('OG', 4, 9), ('OG', 3, 11), ('OG', 2, 13), ('OG', 5, 11), ('OG', 4, 11),
          ('OG', 2, 8), ('OG', 3, 8), ('OG', 4, 8), ('OG', 3, 10), ('OG', 4, 10), ('OG', 5, 10), ('OG', 2, 12),
          ('OG', 5, 12), ('OG', 6, 12)]


def chunks(n, size):
    return [(i, min(i + size, n)) for i in range(0, n, size)]


def arg(rng, el, nq, api):
    """an element as an argument in a random accepted form"""
    r = rng.random()
    if len(el) == 1:
        (q, lam), c = next(iter(el.items()))
        if c == 1 and not any(q):
            if r < 0.15:
                return list(lam)
            if r < 0.3:
                return api.Schur(list(lam) if r < 0.25 else tuple(lam))
    t = S.spell(rng, el, nq)
    if r > 0.85:
        return api.LinearCombination(t)
    if r > 0.78:
        return api.LinearCombination(t).expr
    return t


def special_poly(rng, model, deg=3, terms=3, q=False):
    """a random polynomial in special classes, as text"""
    ts = []
    sps = model.specials()
    if not sps:
        return '1'
    for _ in range(rng.randint(1, terms)):
        f = []
        c = rng.choice([1, 1, 2, 3, -1, -4, 11])
        if c != 1:
            f.append(str(c) if c > 0 or not ts else '(%d)' % c)
        for i, e in enumerate(S.qexp(rng, model) if q and rng.random() < 0.4 else model.q0):
            if e:
                f.append('%s^%d' % (S.qname(i, model.nq), e))
        for _ in range(rng.randint(0 if rng.random() < 0.2 else 1, deg)):
            f.append(ex.S(model.special(rng.choice(sps))))
        if f and rng.random() < 0.2:
            f.append(f[-1] if f[-1].startswith('S') else '1')
        ts.append('*'.join(f) or '1')
    t = ' + '.join(ts)
    if rng.random() < 0.15:
        t = '(%s)^2' % t if len(ts) < 3 else '(%s)*%s' % (t, ex.S(model.special(rng.choice(sps))))
    return t


def class_poly(rng, model, deg=3, terms=2, q=False, small=True):
    """a random polynomial in arbitrary classes, as text"""
    ts = []
    for _ in range(rng.randint(1, terms)):
        f = []
        c = rng.choice([1, 1, 2, -1, 3])
        if c != 1:
            f.append('(%d)' % c if c < 0 else str(c))
        for i, e in enumerate(S.qexp(rng, model, 1) if q and rng.random() < 0.3 else model.q0):
            if e:
                f.append(S.qname(i, model.nq))
        for _ in range(rng.randint(1, deg)):
            f.append(ex.S(S.random_class(rng, model)))
        if rng.random() < 0.15:
            f[-1] += '^2'
        ts.append('*'.join(f))
    return ' + '.join(ts)


@contextlib.contextmanager
def quiet():
    old = sys.stdout
    sys.stdout = io.StringIO()
    try:
        yield sys.stdout
    finally:
        sys.stdout = old


def run_readme(ctx):
    """the README's program and the repository's example, under whatever monitor is installed"""
    import re
    for path in ('README.md', 'example/main.py'):
        try:
            text = open(os.path.join(target.REPO, path)).read()
        except OSError:
            continue
        if path.endswith('.md'):
            blocks = re.findall(r'```python\n(.*?)```', text, re.S)
        else:
            blocks = [text]
        for b in blocks:
            with quiet():
                ctx.call('the program in ' + path, exec, compile(b, path, 'exec'), {'__name__': '__main__'})
            ctx.note('documented_programs_run')


def run_repo_tests(ctx, names=None):
    """the repository's own unit tests as a workload for the installed monitor (their verdict is not used)"""
    import unittest
    d = os.path.join(target.REPO, 'schubertpy', 'testcases', 'basic')
    for f in sorted(os.listdir(d)):
        if not f.startswith('test_') or not f.endswith('.py'):
            continue
        import importlib
        name = 'schubertpy.testcases.basic.' + f[:-3]
        try:
            m = importlib.import_module(name)
        except Exception:
            ctx.note('repo_test_modules_not_importable')
            continue
        suite = unittest.defaultTestLoader.loadTestsFromModule(m)
        with quiet():
            r = unittest.TestResult()
            suite.run(r)
        ctx.note('repo_tests_run', r.testsRun)


BIG = [('Gr', 4, 9), ('Gr', 5, 10), ('Gr', 3, 12), ('IG', 3, 12), ('IG', 5, 12), ('IG', 6, 12), ('OG', 3, 13), ('OG', 5, 13),
       ('OG', 6, 13), ('OG', 3, 12), ('OG', 4, 12), ('OG', 7, 14), ('OG', 6, 14)]


def product_units(tier, rng, reps=2, quick=16, thorough=56):
    """units (fn, key, a, b): exhaustive pairs of small spaces, random work in larger ones"""
    out = []
    lim = quick if tier == 'quick' else thorough
    for key in S.upto(lim, *((6, 8, 9) if tier == 'quick' else (8, 10, 12))):
        n = S.sp(key).size
        for a, b in chunks(n, max(1, 120 // n)):
            out.append(('table', key, a, b))
    for key in MEDIUM + (BIG if tier != 'quick' else []):
        for r in range(reps if tier == 'quick' else reps * 8):
            out.append(('mixed', key, r))
    for key in LARGE + XL:
        for r in range(1 if tier == 'quick' else 12):
            out.append(('wide', key, r))
    rng.shuffle(out)
    return out


def wide(ctx, key, q):
    """products of a class with few boxes and any class, in spaces too large for anything else"""
    import schubertpy as api
    sp = S.sp(key)
    g = sp.make()
    m = sp.model
    rng = ctx.rng
    for i in range(6):
        x, y = S.small_class(rng, m), S.random_class(rng, m)
        if rng.random() < 0.4:
            y = m.dual(S.small_class(rng, m))
        if i % 3 == 0 and sum(1 for t in y if t) <= 3 and sum(y) <= 9:
            x, y = y, x
        if len(m.mul1(x, y)) > 45:
            ctx.note('wide_products_skipped')
            continue
        ctx.call('%s.%smult(%s, %s)' % (sp, q, x, y), getattr(g, q + 'mult'), arg(rng, m.cls(x), m.nq, api), arg(rng, m.cls(y), m.nq, api))
    for i in range(2):
        f = special_poly(rng, m, deg=2, terms=2, q=True)
        y = S.random_class(rng, m)
        if max(len(m.qpieri(p, y)) for p in m.specials()) > 8:
            y = m.dual(S.small_class(rng, m))
            if max(len(m.qpieri(p, y)) for p in m.specials()) > 12:
                y = ()
        y = m.cls(y)
        ctx.call('%s.%sact(%s, %s)' % (sp, q, f, S.ex.show(y, m.nq)), getattr(g, q + 'act'), f, arg(rng, y, m.nq, api))
    ctx.note('wide_space_units')


def bulk_element(rng, m, terms, topq=23):
    """an element with many terms: the same class with several powers of q, huge and rational coefficients"""
    el = {}
    for _ in range(terms):
        c = rng.choice([1, -1, 2, 17, -250, 10 ** 12 + 1, -(2 ** 53 + 1), 3 ** 50, 2 ** 31, 127, 256])
        if rng.random() < 0.1:
            c = rm.Fraction(c, rng.choice([2, 3, 7, 10 ** 9 + 7]))
        q = tuple(rng.choice([0, 0, 1, rng.randint(0, topq)]) for _ in range(m.nq))
        lam = rng.choice(list(el))[1] if el and rng.random() < 0.2 else S.random_class(rng, m)
        rm.add_into(el, {(q, lam): c})
    return el or {(m.q0, ()): 1}


def bulk(ctx, key, ops):
    """calls with long arguments; the installed monitor judges them"""
    import schubertpy as api
    sp = S.sp(key)
    g = sp.make()
    m = sp.model
    rng = ctx.rng
    for op in ops:
        if op in ('type_swap', 'schub_type') and m.type != 'D':
            continue
        if op in ('part2pair', 'pair2part') and m.type == 'A':
            continue
        heavy = op in ('mult', 'qmult', 'toS', 'qtoS', 'act', 'qact', 'giambelli', 'qgiambelli')
        n = rng.randint(4, 9) if heavy else rng.choice([11, 20, 33, 70, 130])
        el = bulk_element(rng, m, n)
        if op == 'index2part':
            el = {(q, tuple(m.index(lam))): c for (q, lam), c in el.items()}
        t = S.spell(rng, el, m.nq)
        if op == 'pair2part':
            import judge
            t = ' + '.join('(%s)*%s' % (c, '*'.join(['%s^%d' % (S.qname(i, m.nq), e) for i, e in enumerate(q) if e] +
                           [ex.S(tuple(list(z) for z in judge.pair(m, lam))).replace(' ', '')]))
                           for (q, lam), c in el.items())
        x = t if rng.random() < 0.7 else api.LinearCombination(t)
        w = '%s.%s of %d terms, %s...' % (sp, op, len(el), t[:200])
        if op in ('pieri', 'qpieri'):
            p = rng.choice(m.specials())
            ctx.call('%s, by %d' % (w, p), getattr(g, op), p, x)
        elif op in ('mult', 'qmult'):
            y = bulk_element(rng, m, rng.randint(1, 3))
            a = (x, S.spell(rng, y, m.nq))
            ctx.call(w, getattr(g, op), *(a if rng.random() < 0.5 else a[::-1]))
        elif op in ('act', 'qact'):
            # a high power of one special class, and a product of many
            ps = m.specials()
            f = [ex.S(m.special(rng.choice(ps[:3]))) + '^%d' % rng.randint(3, 9)]
            if rng.random() < 0.5:
                f.append(ex.S(m.special(rng.choice(ps))))
            if rng.random() < 0.5:
                f.insert(0, str(rng.choice([10 ** 13 + 1, -77, 2 ** 60])))
            f = '*'.join(f) + rng.choice(['', ' + ' + ex.S(m.special(rng.choice(ps))), ' - 10^3*' + ex.S(m.special(ps[-1])) + '^2'])
            y = S.spell(rng, bulk_element(rng, m, rng.randint(1, 2)), m.nq)
            ctx.call('%s.%s(%s, %s)' % (sp, op, f, y), getattr(g, op), f, y)
        elif op == 'type_swap':
            ctx.call(w, g.type_swap, x, m.k)
        else:
            ctx.call(w, getattr(g, op), x)
        ctx.note('bulk_arguments')


def anywhere_units(tier):
    return [('anywhere', r) for r in range(12 if tier == 'quick' else 120)]


def anywhere(ctx, ops, types='ABCD', spaces=6, calls=5):
    """calls in spaces drawn from all sizes up to N = 130, not only from the listed ones; the installed monitor judges"""
    import schubertpy as api
    rng = ctx.rng
    for _ in range(spaces):
        t = rng.choice(types)
        N = rng.choice([rng.randint(6, 30), rng.randint(20, 60), rng.randint(40, 130)])
        if t == 'A':
            m = rng.choice([1, 2, 3, rng.randint(1, 14), N - 1])
            key = ('Gr', min(m, N - 1), N)
        else:
            N = N // 2 * 2 + (t == 'B')
            m = rng.choice([1, 2, 3, rng.randint(1, 14), min(N // 2, 12), min(N // 2 - 1, 13)])
            key = ('IG' if t == 'C' else 'OG', max(1, min(m, N // 2)), N)
        sp = S.sp(key)
        m = sp.model
        if 'pieri' in ops or 'qpieri' in ops:
            if m.rows > 3 or N > 70:
                continue
        g = sp.make()
        ctx.note('spaces_anywhere')
        for i in range(calls):
            for op in ops:
                if op in ('pieri', 'qpieri'):
                    sps = m.specials()
                    lam = S.random_class(rng, m)
                    if not sps:
                        continue
                    el = m.cls(lam)
                    ctx.call('%s.%s(%s)' % (sp, op, ex.S(lam)), getattr(g, op), rng.choice(sps), arg(rng, el, m.nq, api))
                    continue
                el = S.random_element(rng, m, 1 if i % 2 else 3, q=True)
                if op == 'index2part':
                    el = {(q, tuple(m.index(lam))): c for (q, lam), c in el.items()}
                x = S.spell(rng, el, m.nq)
                if op == 'pair2part':
                    import judge
                    x = ex.S(tuple(list(z) for z in judge.pair(m, S.random_class(rng, m)))).replace(' ', '')
                ctx.call('%s.%s(%s)' % (sp, op, x), getattr(g, op), x, *([m.k] if op == 'type_swap' else []))


def comb_units(tier):
    return [('combs', r) for r in range(10 if tier == 'quick' else 100)]


def combs(ctx, op):
    """Pieri products with many components: long classes with gaps, in spaces with many rows"""
    rng = ctx.rng
    done = 0
    while done < 3:
        t = rng.randint(6, 8)
        k = rng.choice([0, 0, 0, 1])
        rows = rng.randint(max(8, t + 1), 18)
        key = rng.choice([('OG', rows, 2 * (rows + k) + 1), ('IG', rows, 2 * (rows + k)), ('OG', rows, 2 * (rows + k))])
        m = S.sp(key).model
        if m.cols < 2 * t + k:
            continue
        g = S.sp(key).make()
        lo = rng.randint(1, m.cols - 2 * t + 2 - k) + k if m.cols - 2 * t + 2 - k >= 1 else 2
        lam = tuple(x for x in range(lo + 2 * t - 2, lo - 1, -2) if x <= m.cols)
        p = rng.choice([len(lam) - 1, len(lam), len(lam) + 1])
        if p not in m.specials():
            continue
        ctx.note('combs')
        done += 1
        ctx.call('%s.%s(%d, %s)' % (S.sp(key), op, p, ex.S(lam)), getattr(g, op), p, ex.S(lam))


def bulk_units(tier, light=True, only=None):
    """spaces for bulk: many for conversions and Pieri products, small ones for general products"""
    keys = MEDIUM + LARGE + BIG if light else [k for k in S.upto(30, 6, 8, 9) if S.sp(k).size > 3]
    keys = [k for k in keys if S.sp(k).model.specials() and (only is None or only(k))]
    return [('bulk', k) for k in keys for _ in range(1 if tier == 'quick' else 10)]
