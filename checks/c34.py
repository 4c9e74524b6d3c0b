"""Classical products in different spaces of one family determine each other.

Restriction: with k fixed (and, in type A, with either side of the box enlarged) the products of a smaller space are those
of a larger one without the classes that do not fit.  Types B and C: Gr, IG(m,2n) and OG(m,2n+1) have the same classical
ring once each class is multiplied by 2 to the number of its parts greater than k.  The monitor runs the same operation in
both spaces and compares; no product oracle is involved."""
from fractions import Fraction

import expr as ex
import spaces as S
import work

RULE = ('one observation = one classical operation run in two related spaces on corresponding arguments and compared; non-trivial '
        '= the result in the smaller (or odd orthogonal) space is not zero; distinct = distinct (spaces, operation, arguments)')
MIN = {'quick': 5000, 'thorough': 30000}
MUST_SEE = ('rows', 'columns', 'both', 'restricted_C', 'restricted_B', 'restricted_D', 'powers_of_2', 'mult', 'pieri', 'act', 'toS',
            'giambelli', 'classes_dropped', 'argument_restricts_to_zero', 'large_spaces')


def shift(key, d, rng=None):
    """a larger space of the same family and the same k"""
    c, m, N = key
    if c == 'Gr':
        a = d if rng is None else rng.choice([0, d, rng.randint(0, d)])
        b = d if rng is None or not a else rng.choice([0, d])
        return ('Gr', m + a, N + a + b)
    return (c, m + d, N + 2 * d)


class Restrict:
    def __init__(self, small, big):
        self.A, self.B = S.sp(small), S.sp(big)
        a, b = small, big
        if a[0] == 'Gr':
            dr, dc = b[1] - a[1], (b[2] - b[1]) - (a[2] - a[1])
            self.kind = 'both' if dr and dc else 'rows' if dr else 'columns'
        else:
            self.kind = 'restricted_' + self.A.model.type

    def fits(self, lam):
        m = self.A.model
        l = [x for x in lam if x]
        return len(l) <= m.rows and (not l or l[0] <= m.cols)

    def text(self, lam):
        """what a class of the larger space is in the smaller"""
        return ex.S(lam) if self.fits(lam) else '0'

    def value(self, el):
        return {lam: c for lam, c in el.items() if self.fits(lam)}


class Powers:
    kind = 'powers_of_2'

    def __init__(self, ig, og):
        self.A, self.B = S.sp(og), S.sp(ig)
        self.k = self.A.model.k
        assert self.k == self.B.model.k

    def factor(self, lam):
        return 2 ** sum(1 for x in lam if x > self.k)

    def text(self, lam):
        return '%d*%s' % (self.factor(lam), ex.S(lam))

    def value(self, el):
        return {lam: c * self.factor(lam) for lam, c in el.items()}


def rel(small, big):
    return Powers(big, small) if big[0] == 'IG' and small[0] == 'OG' else Restrict(small, big)


class Pair:
    def __init__(self, ctx, small, big):
        self.ctx = ctx
        self.r = rel(small, big)
        self.A, self.B = self.r.A, self.r.B
        self.ga, self.gb = self.A.make(), self.B.make()
        self.ma, self.mb = self.A.model, self.B.model

    def read(self, what, t):
        try:
            e = ex.element(str(t), self.ma.nq)
        except ex.Unreadable as u:
            self.ctx.fail('%s: %s' % (what, u))
            return None
        if any(any(q) for q, lam in e):
            self.ctx.fail('%s = %s has q terms' % (what, str(t)[:500]))
            return None
        return {lam: Fraction(c) for (q, lam), c in e.items()}

    def same(self, opb, argsb, opa, argsa):
        ctx, r = self.ctx, self.r
        what = ['%s.%s(%s)' % (s, o, ', '.join(map(str, a))) for s, o, a in ((self.B, opb, argsb), (self.A, opa, argsa))]
        ok, y = ctx.call(what[0], getattr(self.gb, opb), *argsb)
        ok2, x = ctx.call(what[1], getattr(self.ga, opa), *argsa)
        if not (ok and ok2):
            return
        Y, X = self.read(what[0], y), self.read(what[1], x)
        if X is None or Y is None:
            return
        V = r.value(Y)
        ctx.note(opb)
        ctx.note(r.kind)
        if len(V) < len(Y):
            ctx.note('classes_dropped')
        ctx.seen((self.A.key, self.B.key, opb, argsb), bool(X), '%s = %s | %s = %s' % (what[0], y, what[1], x))
        ctx.check(V == X, '%s = %s; in %s this is %s, but %s = %s' % (
            what[0], str(y)[:600], self.A, show(V), what[1], str(x)[:600]))

    def mult(self, x, y):
        t = [self.r.text(l) for l in (x, y)]
        if '0' in t:
            self.ctx.note('argument_restricts_to_zero')
            # nothing is multiplied in the smaller space: every class of the product must be dropped
            ok, v = self.ctx.call('%s.mult(%s, %s)' % (self.B, ex.S(x), ex.S(y)), self.gb.mult, ex.S(x), ex.S(y))
            if ok:
                Y = self.read('%s.mult(%s, %s)' % (self.B, ex.S(x), ex.S(y)), v)
                if Y is not None:
                    self.ctx.seen((self.A.key, self.B.key, 'zero', x, y), bool(Y))
                    self.ctx.check(not self.r.value(Y), '%s.mult(%s, %s) = %s has classes of %s, where one factor is zero' % (
                        self.B, ex.S(x), ex.S(y), str(v)[:600], self.A))
            return
        self.same('mult', (ex.S(x), ex.S(y)), 'mult', tuple(t))

    def pieri(self, p, y):
        s = self.mb.special(p)
        if not self.r.fits(s) if isinstance(self.r, Restrict) else False:
            self.same('pieri', (p, ex.S(y)), 'mult', ('0', self.r.text(y)))
        elif isinstance(self.r, Powers):
            self.same('pieri', (p, ex.S(y)), 'pieri', (p, '%d*%s' % (self.r.factor(s) * self.r.factor(y), ex.S(y))))
        else:
            self.same('pieri', (p, ex.S(y)), 'pieri', (p, self.r.text(y)))

    def poly(self, rng, deg=2, terms=3, special=False, cls=None):
        m = self.mb
        tb, ta = [], []
        for _ in range(rng.randint(1, terms)):
            c = rng.choice(['', '', '2*', '3*', '(-1)*', '1/2*'])
            fs = [m.special(rng.choice(m.specials())) if special else (cls or (lambda: S.random_class(rng, m)))()
                  for _ in range(rng.randint(1, deg)) if m.specials()]
            tb.append(c + ('*'.join(ex.S(x) for x in fs) or '1'))
            ta.append(c + ('*'.join('(%s)' % self.r.text(x) for x in fs) or '1'))
        return ' + '.join(tb), ' + '.join(ta)

    def el(self, rng, terms=2, cls=None):
        e = S.random_element(rng, self.mb, terms, q=False, frac=True, cls=cls)
        tb = S.spell(rng, e, self.mb.nq)
        ta = ' + '.join('(%s)*(%s)' % (c, self.r.text(lam)) for (q, lam), c in e.items())
        return tb, ta


def show(V):
    return ' + '.join('%s*%s' % (c, ex.S(l)) for l, c in V.items())[:600] or '0'


def units(tier, rng):
    quick = tier == 'quick'
    out, pairs = [], []
    for key in S.upto(13 if quick else 40, *((6, 6, 7) if quick else (7, 8, 9))):
        for d in (1,) if quick else (1, 2):
            big = shift(key, d)
            if key[0] == 'Gr':
                c, m, N = key
                pairs += [(key, ('Gr', m + d, N + d)), (key, ('Gr', m, N + d))]
            if S.sp(big).size <= (64 if quick else 200):
                pairs.append((key, big))
    for n in range(1, 5 if quick else 6):
        for m in range(0, n + 1):
            if S.sp(('IG', m, 2 * n)).size <= (32 if quick else 90):
                pairs.append((('OG', m, 2 * n + 1), ('IG', m, 2 * n)))
    for p in pairs:
        n = S.sp(p[1]).size
        for a, b in work.chunks(n, max(1, 120 // n)):
            out.append(('table', p, a, b))
        out.append(('mixed', p, 0))
    for key in work.MEDIUM + ([] if quick else work.BIG):
        for r in range(2 if quick else 10):
            out.append(('medium', key, r))
    for key in work.LARGE + work.XL:
        for r in range(3 if quick else 24):
            out.append(('large', key, r))
    rng.shuffle(out)
    return out


def table(ctx, p, a, b):
    P = Pair(ctx, *p)
    B = P.mb.basis()
    for x in B[a:b]:
        for y in B:
            z = P.r.text(x) == '0' or P.r.text(y) == '0'
            if (z or len(B) > 40) and ctx.rng.random() < 0.75:
                continue
            P.mult(x, y)
    if not a:
        for s in P.mb.specials():
            for y in B:
                P.pieri(s, y)


def mixed(ctx, p, rep, n=3, cls=None):
    P = Pair(ctx, *p)
    rng = ctx.rng
    for i in range(n):
        (xb, xa), (yb, ya) = P.el(rng, cls=cls), P.el(rng)
        P.same('mult', (xb, yb), 'mult', (xa, ya))
        fb, fa = P.poly(rng, cls=cls)
        P.same('toS', (fb,), 'toS', (fa,))
        fb, fa = P.poly(rng, special=True)
        P.same('act', (fb, yb), 'toS', ('(%s)*(%s)' % (fa, ya),))
        what = '%s.giambelli(%s)' % (P.B, xb)
        ok, f = ctx.call(what, P.gb.giambelli, xb)
        if not ok:
            continue
        try:
            t = relabel(ex.parse(str(f)), P.r.text)
        except ex.Unreadable as u:
            ctx.fail('%s = %s: %s' % (what, f, u))
            continue
        ok, v = ctx.call('%s.toS(%s)' % (P.A, t), P.ga.toS, t)
        ok2, w = ctx.call('%s.toS(%s)' % (P.A, xa), P.ga.toS, xa)
        if ok and ok2:
            ctx.note('giambelli')
            V, W = P.read(t, v), P.read(xa, w)
            ctx.seen((P.A.key, P.B.key, 'giambelli', xb), bool(W))
            ctx.check(V == W, '%s = %s has in %s the value %s instead of %s' % (what, str(f)[:600], P.A, v, w))


def relabel(p, text):
    ts = []
    for mo, c in p.d.items():
        fs = ['(%d)' % c.numerator] + (['(1/%d)' % c.denominator] if c.denominator != 1 else [])
        for v, e in mo:
            fs.append(('(%s)' % text(v[1]) if isinstance(v, tuple) else v) + '^%d' % e)
        ts.append('*'.join(fs))
    return ' + '.join(ts) or '0'


def relatives(key, rng):
    """(smaller, larger) pairs that have this space as one member"""
    c, m, N = key
    out = [(key, shift(key, rng.choice([1, 1, 2]), rng))]
    if c == 'IG':
        out.append((('OG', m, N + 1), key))
    if c == 'OG' and N % 2:
        out.append((key, ('IG', m, N - 1)))
    if c == 'Gr' and 1 < m < N - 1:
        out += [(('Gr', m - 1, N - 1), key), (('Gr', m, N - 1), key)]
    elif c != 'Gr' and m > 2:
        out.append(((c, m - 1, N - 2), key))
    return out


def medium(ctx, key, rep):
    rng = ctx.rng
    p = rng.choice(relatives(key, rng)[:3])
    P = Pair(ctx, *p)
    small = lambda: S.small_class(rng, P.mb)
    for i in range(4):
        P.mult(small(), S.random_class(rng, P.mb if i % 2 else P.ma))
        P.pieri(rng.choice(P.mb.specials()), S.random_class(rng, P.ma))
    mixed(ctx, p, rep, n=1, cls=small)


def tiny(P):
    for _ in range(100):
        z = S.small_class(P.ctx.rng, P.mb)
        if sum(z) <= 4:
            return z
    return (1,)


def large(ctx, key, rep):
    rng = ctx.rng
    for p in relatives(key, rng):
        P = Pair(ctx, *p)
        ctx.note('large_spaces')
        for i in range(5):
            P.pieri(rng.choice(P.ma.specials() or P.mb.specials()), S.random_class(rng, P.ma if i else P.mb))
        z, y = tiny(P), rng.choice([tiny(P), S.random_class(rng, P.ma)])
        if len(P.mb.mul1(z, y)) <= 30:
            P.mult(z, y)
