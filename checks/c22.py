"""apply / apply2 / apply_lc against exact substitution in the polynomial the text denotes."""
from fractions import Fraction

import expr as ex
import polytext as pt
import spaces as S

RULE = ('one observation = one function applied to one expression by apply, apply2 or apply_lc and compared with exact substitution '
        '(the arguments the function received are recorded and compared with the partitions written); non-trivial = the expression '
        'contains a class; distinct = distinct (expression, function, entry point)')
MIN = {'quick': 3000, 'thorough': 40000}
MUST_SEE = ('returns_schur', 'returns_lc', 'returns_expr', 'returns_number', 'returns_text', 'returns_list', 'returns_q', 'polynomial', 'linear',
            'pair_argument', 'padded_argument', 'mutating_function', 'library_functions', 'apply', 'apply2', 'apply_lc', 'zero_images')


def units(tier, rng):
    n = 150 if tier == 'quick' else 1500
    out = [('apply', i) for i in range(n)] + [('library', k) for k in S.upto(12, 5, 6, 8)]
    rng.shuffle(out)
    return out


def subst(P, img):
    r = ex.P()
    for mo, c in P.d.items():
        t = ex.P.const(c)
        for v, e in mo:
            b = img[v[1]] if isinstance(v, tuple) else ex.P.var(v)
            t = t * (b ** e)
        r = r + t
    return r


def classes(P):
    return {v[1] for mo in P.d for v, _ in mo if isinstance(v, tuple)}


def as_list(x):
    return [as_list(i) for i in x] if isinstance(x, (list, tuple)) else x


class Fn:
    """a random function on partitions: its value is a pure function of the partition"""

    def __init__(self, rng, kinds, table=None):
        self.rng, self.kinds, self.memo, self.got = rng, kinds, {}, []
        self.mutate = rng.random() < 0.25
        self.notes = {}

    def image(self, p):
        k = repr(as_list(p))
        if k not in self.memo:
            rng = self.rng
            kind = rng.choice(self.kinds)
            if kind == 'number':
                v = rng.choice([0, 1, -1, 2, 5, 10 ** 25 + 1])
                self.memo[k] = (kind, str(v))
            elif kind == 'list':
                self.memo[k] = (kind, pt.S(pt.part(rng)))
            elif kind == 'schur':
                self.memo[k] = (kind, pt.S(pt.part(rng, pairs=True)))
            else:
                t = rng.choice([lambda: pt.linear(rng, rng.choice([3, 3, 3, 25]))[0], lambda: pt.poly(rng, 1), lambda: pt.q(rng), lambda: '0',
                                lambda: pt.linear(rng, 2, qs=True)[0]])()
                self.memo[k] = (kind, t)
        return self.memo[k]

    def __call__(self, p):
        import schubertpy as api
        import sympy
        self.got.append(as_list(p))
        kind, t = self.image(p)
        self.notes['returns_' + kind] = self.notes.get('returns_' + kind, 0) + 1
        if 'q' in t:
            self.notes['returns_q'] = 1
        if t == '0':
            self.notes['zero_images'] = 1
        if self.mutate and isinstance(p, list):
            p.append(4)
            p[:1] = []
            self.notes['mutating_function'] = 1
        if kind == 'number':
            return int(t) if self.rng.random() < 0.6 else sympy.Integer(t)
        if kind == 'list':
            return list(ex.ast.literal_eval(t[1:]))
        if kind == 'schur':
            return api.Schur(as_list(ex.ast.literal_eval(t[1:])))
        if kind == 'lc':
            return api.LinearCombination(t)
        if kind == 'expr':
            return api.LinearCombination(t).expr
        return t

    def values(self, cl):
        return {c: ex.parse(self.image(as_list(c))[1]) for c in cl}


def entry_points():
    from schubertpy.qcalc import apply_lc
    import schubertpy as api
    base = ['number', 'schur', 'lc', 'expr']
    return [('apply', base, lambda o, f, t: o.apply(f)), ('apply2', base + ['text', 'list'], lambda o, f, t: o.apply2(f)),
            ('apply_lc', base, lambda o, f, t: apply_lc(f, t))]


def apply(ctx, i):
    import schubertpy as api
    rng = ctx.rng
    eps = entry_points()
    for j in range(30):
        if j % 2:
            t, terms = pt.linear(rng, 6, pairs=True)
            lin = True
        else:
            t, lin = pt.poly(rng, rng.choice([1, 2, 2])), False
        P = ex.parse(t)
        cl = classes(P)
        if len(P.d) > 40 or max([sum(e for v, e in mo if isinstance(v, tuple)) for mo in P.d] or [0]) > 4:
            continue
        name, kinds, call = rng.choice(eps)
        f = Fn(rng, kinds if rng.random() < 0.5 else [rng.choice(kinds)])
        img = f.values(cl)
        size = 1
        for mo in P.d:
            s = 1
            for v, e in mo:
                if isinstance(v, tuple):
                    s *= max(1, len(img[v[1]].d)) ** e
            size += s
        if size > 1500:
            continue
        want = subst(P, img)
        if rng.random() < 0.3:
            # only the linear functions' images
            pass
        ok, o = ctx.call('LinearCombination(%r)' % t, api.LinearCombination, t)
        if not ok:
            continue
        before, ebefore = str(o), o.expr
        w = '%s(f, %r) with f = %s' % (name, t, f.memo)
        arg = rng.choice([t, o, o.expr]) if name == 'apply_lc' else None
        ok, r = ctx.call(w, call, o, f, arg)
        if not ok:
            continue
        ctx.note(name)
        ctx.note('linear' if lin else 'polynomial')
        for k, n in f.notes.items():
            ctx.note(k, n)
        for c in cl:
            if c and isinstance(c[0], tuple):
                ctx.note('pair_argument')
            elif c and c[-1] == 0:
                ctx.note('padded_argument')
        ctx.seen((name, t, sorted(f.memo.items())), bool(cl), '%s = %s' % (w, str(r)[:200]))
        if not ctx.check(isinstance(r, api.LinearCombination), '%s is a %s' % (w, type(r).__name__)):
            continue
        ctx.check(ex.parse(str(r)) == want, '%s = %s, expected %s' % (w, str(r)[:500], str(want)[:500]))
        raw = ex.parse(before)
        exp = sorted(map(repr, map(as_list, cl)))
        got = sorted(set(map(repr, f.got)))
        # classes that cancel only after expansion may be visited too; the others must be, as written
        ctx.check(set(exp) <= set(got), '%s: the function received %s, the classes are %s' % (w, got, exp))
        written = {repr(as_list(v)) for v in ex_classes(t)}
        ctx.check(set(got) <= written, '%s: the function received %s, written are %s' % (w, got, sorted(written)))
        ctx.check(str(o) == before and o.expr == ebefore, '%s changed the original to %s' % (w, o))


def ex_classes(t):
    return [ex._tup(ex.ast.literal_eval('[' + m.group(1) + ']')) for m in ex._TOK.finditer(t)]


def library(ctx, key):
    """the library's own maps as functions: dualize, conversions, products by a class"""
    import schubertpy as api
    from schubertpy.qcalc import apply_lc
    sp = S.sp(key)
    g = sp.make()
    m = sp.model
    rng = ctx.rng
    if not m.specials():
        return
    x = S.random_class(rng, m)
    p = rng.choice(m.specials())
    fns = [('dualize', lambda l: g.dualize(l)), ('part2index', lambda l: g.part2index(l)), ('qmult by %s' % (x,), lambda l: g.qmult(l, list(x))),
           ('qpieri %d' % p, lambda l: g.qpieri(p, l)), ('the identity', lambda l: api.Schur(l))]
    for name, f in fns:
        el = S.random_element(rng, m, 3, q=True)
        t = S.spell(rng, el, m.nq)
        want = ex.P()
        for (q, lam), c in el.items():
            s = ex.P.const(c) * ex.parse(str(f(list(lam))))
            for i, e in enumerate(q):
                s = s * (ex.P.var(S.qname(i, m.nq)) ** e)
            want = want + s
        for ep, call in (('apply', lambda: api.LinearCombination(t).apply(f)), ('apply2', lambda: api.LinearCombination(t).apply2(f)),
                         ('apply_lc', lambda: apply_lc(f, t))):
            w = '%s of %s in %s on %r' % (ep, name, sp, t)
            ok, r = ctx.call(w, call)
            if ok:
                ctx.note('library_functions')
                ctx.seen(w, True, '%s = %s' % (w, r))
                ctx.check(ex.parse(str(r)) == want, '%s = %s, linear extension gives %s' % (w, str(r)[:400], want))
