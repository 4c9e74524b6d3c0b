"""Isomorphic spaces must give the same rings: every operation is run in two spaces and the answers compared under the
known relabelling of the classes.  No product oracle is involved: the code is its own witness in the other space, where
it takes other code (type A by rows and by columns; odd and even maximal orthogonal; a symplectic or orthogonal space
and the projective space, quadric or Grassmannian it coincides with; the triality of the spaces of lines in Q^6)."""
import expr as ex
import refmodel as rm
import spaces as S
import work

RULE = ('one observation = one operation run in both spaces on corresponding arguments, results compared under the relabelling; '
        'non-trivial = the result is not zero; distinct = distinct (pair of spaces, operation, arguments)')
MIN = {'quick': 6000, 'thorough': 40000}
MUST_SEE = ('columns', 'spinor', 'projective', 'listed', 'triality', 'terms_with_q', 'qmult', 'qpieri', 'qtoS', 'qact', 'dualize',
            'mult', 'pieri', 'act', 'toS', 'qgiambelli', 'classes', 'very_large', 'degrees')


LINE = {(): (), (1,): (1,)}
P3 = {(): (), (1,): (1,), (2,): (2,), (3,): (2, 1)}
Q3 = {(): (), (1,): (1,), (2,): (2,), (2, 1): (3,)}
Q4 = {(): (), (1,): (1,), (2,): (2,), (1, 1): (2, 0), (2, 1): (3,), (2, 2): (4,)}
Q4b = dict(Q4)
Q4b.update({(2,): (2, 0), (1, 1): (2,)})
Q6 = {(): (), (1,): (1,), (2,): (2,), (3,): (3,), (2, 1): (3, 0), (3, 1): (4,), (3, 2): (5,), (3, 2, 1): (6,)}
Q6b = dict(Q6)
Q6b.update({(3,): (3, 0), (2, 1): (3,)})
SPIN3 = {x: x for x in Q6}
SPIN3.update({(3,): (2, 1), (2, 1): (3,)})
LISTED = [('OG', 2, 5, 'Gr', 1, 4, {v: k for k, v in P3.items()}), ('OG', 3, 6, 'IG', 1, 4, {v: k for k, v in P3.items()}),
          ('OG', 2, 5, 'IG', 1, 4, {v: k for k, v in P3.items()}), ('Gr', 1, 4, 'OG', 3, 6, P3),
          ('IG', 2, 4, 'OG', 1, 5, Q3), ('Gr', 2, 4, 'OG', 1, 6, Q4), ('Gr', 2, 4, 'OG', 1, 6, Q4b),
          ('OG', 3, 7, 'OG', 1, 8, Q6), ('OG', 4, 8, 'OG', 1, 8, Q6), ('OG', 3, 7, 'OG', 1, 8, Q6b), ('OG', 4, 8, 'OG', 1, 8, Q6b),
          ('OG', 3, 7, 'OG', 3, 7, SPIN3), ('OG', 4, 8, 'OG', 4, 8, SPIN3), ('OG', 3, 7, 'OG', 4, 8, SPIN3),
          ('IG', 1, 2, 'OG', 2, 4, LINE), ('OG', 1, 3, 'IG', 1, 2, LINE), ('Gr', 1, 2, 'OG', 1, 3, LINE)]
TRI = {}
for _a, _b in (((1, 1), (2,)), ((2, 1, 0), (3,)), ((2, 2, 0), (4,)), ((3, 2, 0), (5,)), ((4, 2, 0), (5, 1)), ((4, 3), (5, 2))):
    TRI[_a], TRI[_b] = _b, _a
SWP = {}
for _x in ((2,), (2, 1), (2, 2), (3, 2), (4, 2), (5, 2)):
    SWP[_x], SWP[_x + (0,)] = _x + (0,), _x


def triality(word):
    """an automorphism of the ring of OG(2,8), as a word in two of its involutions"""
    def f(lam):
        for w in word:
            lam = (TRI if w == 't' else SWP).get(lam, lam)
        return lam
    return f


class Pair:
    def __init__(self, ctx, kind, a, b, f):
        self.ctx, self.kind, self.f = ctx, kind, f
        self.A, self.B = S.sp(a), S.sp(b)
        self.ga, self.gb = self.A.make(), self.B.make()
        self.ma, self.mb = self.A.model, self.B.model
        assert self.ma.nq == self.mb.nq == 1

    def map(self, el):
        return {(q, self.f(lam)): c for (q, lam), c in el.items()}

    def same(self, op, argsa, argsb, opb=None):
        ctx = self.ctx
        what = ['%s.%s(%s)' % (s, o, ', '.join(map(str, a))) for s, o, a in ((self.A, op, argsa), (self.B, opb or op, argsb))]
        ok1, x = ctx.call(what[0], getattr(self.ga, op), *argsa)
        ok2, y = ctx.call(what[1], getattr(self.gb, opb or op), *argsb)
        if not (ok1 and ok2):
            return
        try:
            X, Y = S.norm(ex.element(str(x), 1)), S.norm(ex.element(str(y), 1))
        except ex.Unreadable as u:
            ctx.fail('%s, %s: %s' % (what[0], what[1], u))
            return
        ctx.note(op)
        ctx.note(self.kind)
        if any(q[0] for q, lam in X):
            ctx.note('terms_with_q')
        ctx.seen((self.kind, self.A.key, self.B.key, op, argsa, argsb), bool(X), '%s = %s | %s = %s' % (what[0], x, what[1], y))
        try:
            M = S.norm(self.map(X))
        except KeyError as k:
            ctx.fail('%s = %s contains %s, which is not a class of the space' % (what[0], x, ex.S(k.args[0])))
            return
        ctx.check(M == Y, '%s = %s, but in the isomorphic space %s = %s' % (what[0], str(x)[:700], what[1], str(y)[:700]))

    def el(self, rng, terms=2, q=True, cls=None):
        e = S.random_element(rng, self.ma, terms, q=q, cls=cls)
        return S.spell(rng, e, 1), S.spell(rng, self.map(e), 1)

    def poly(self, rng, deg=2, terms=2, special=False, cls=None):
        """a polynomial in classes, written for both spaces"""
        m = self.ma
        ta, tb = [], []
        for _ in range(rng.randint(1, terms)):
            c = rng.choice(['', '2*', '3*', '(-1)*', 'q*', '5*q*'])
            fs = []
            for _ in range(rng.randint(1, deg)):
                if special:
                    if m.specials():
                        fs.append(m.special(rng.choice(m.specials())))
                else:
                    fs.append((cls or (lambda: S.random_class(rng, m)))())
            ta.append(c + ('*'.join(ex.S(x) for x in fs) or '1'))
            tb.append(c + ('*'.join(ex.S(self.f(x)) for x in fs) or '1'))
        return ' + '.join(ta), ' + '.join(tb)

    def data(self):
        ctx = self.ctx
        for name, get in (('classes', lambda g: g.schub_classes()), ('point', lambda g: [g.point_class()])):
            ok1, x = ctx.call('%s %s' % (self.A, name), get, self.ga)
            ok2, y = ctx.call('%s %s' % (self.B, name), get, self.gb)
            try:
                X = sorted(self.f(tuple(s.partition())) for s in x)
            except KeyError as k:
                ctx.fail('%s has a class %s' % (self.A, k))
                continue
            ctx.seen((self.kind, self.A.key, self.B.key, name))
            ctx.note(name)
            ctx.check(X == sorted(tuple(s.partition()) for s in y),
                      '%s of %s and of %s do not correspond: %s, %s' % (name, self.A, self.B, str(x)[:500], str(y)[:500]))
        ok1, x = ctx.call('%s.degree_q()' % self.A, self.ga.degree_q)
        ok2, y = ctx.call('%s.degree_q()' % self.B, self.gb.degree_q)
        ctx.check(x == y, 'degree_q of %s is %s, of %s it is %s' % (self.A, x, self.B, y))


def units(tier, rng):
    out = []
    quick = tier == 'quick'
    pairs = []
    for key in S.upto(15 if quick else 60, *((7, 0, 0) if quick else (9, 0, 0))):
        pairs.append(('columns', key, ('Gr', key[2] - key[1], key[2])))
    for n in range(1, 5 if quick else 7):
        pairs.append(('spinor', ('OG', n, 2 * n + 1), ('OG', n + 1, 2 * n + 2)))
    for n in range(1, 8 if quick else 14):
        pairs.append(('projective', ('IG', 1, 2 * n), ('Gr', 1, 2 * n)))
    for i in range(len(LISTED)):
        pairs.append(('listed', i, None))
    for w in ('t', 'ts', 'st', 'tst', 's'):
        pairs.append(('triality', w, None))
    for p in pairs:
        n = make(None, *p).A.size
        for a, b in work.chunks(n, max(1, 60 // n)):
            out.append(('table', p, a, b))
        out.append(('data', p))
        for r in range(2 if quick else 8):
            out.append(('mixed', p, r))
    for r in range(2 if quick else 20):
        out.append(('degrees', r))
    for key in work.MEDIUM + ([] if quick else work.BIG):
        p = partner(key)
        if p:
            out.append(('data', p))
            for r in range(3 if quick else 12):
                out.append(('mixed', p, r))
    for key in work.LARGE + work.XL + [('OG', n, 2 * n + 1) for n in range(7, 12)] + [('IG', 1, 30), ('IG', 1, 44)]:
        p = partner(key)
        if p:
            for r in range(2 if quick else 16):
                out.append(('large', p, r))
    rng.shuffle(out)
    return out


def partner(key):
    c, m, N = key
    if c == 'Gr':
        return ('columns', key, ('Gr', N - m, N))
    if c == 'OG' and N % 2 and m == N // 2:
        return ('spinor', key, ('OG', m + 1, N + 1))
    if c == 'OG' and N % 2 == 0 and m == N // 2:
        return ('spinor', key, ('OG', m - 1, N - 1))
    if c == 'IG' and m == 1:
        return ('projective', key, ('Gr', 1, N))
    return None


def make(ctx, kind, a, b):
    if kind == 'listed':
        d = LISTED[a]
        return Pair(ctx, kind, d[:3], d[3:6], d[6].__getitem__)
    if kind == 'triality':
        return Pair(ctx, kind, ('OG', 2, 8), ('OG', 2, 8), triality(a))
    return Pair(ctx, kind, a, b, rm.conj if kind == 'columns' else (lambda lam: lam))


def data(ctx, p):
    make(ctx, *p).data()


def degrees(ctx, r):
    """deg q of isomorphic spaces too large to list their classes"""
    rng = ctx.rng
    for _ in range(150):
        n = rng.choice([rng.randint(1, 40), rng.randint(30, 2000), 10 ** rng.randint(3, 9) + rng.randint(0, 9)])
        m = rng.choice([0, 1, n // 2, n - 1, n, rng.randint(0, n)])
        a, b = rng.choice([(('Gr', m, n), ('Gr', n - m, n)), (('OG', n, 2 * n + 1), ('OG', n + 1, 2 * n + 2)), (('IG', 1, 2 * n), ('Gr', 1, 2 * n))])
        A, B = ('%s(%d,%d)' % x for x in (a, b))
        ok1, x = ctx.call('%s.degree_q()' % A, lambda: cls(a).degree_q())
        ok2, y = ctx.call('%s.degree_q()' % B, lambda: cls(b).degree_q())
        if not (ok1 and ok2):
            continue
        ctx.note('degrees')
        ctx.seen(('degrees', a, b), True, 'degree_q of %s and %s: %s, %s' % (A, B, x, y))
        ctx.check(x == y, 'degree_q of %s is %s, of %s it is %s' % (A, x, B, y))


def cls(key):
    import schubertpy as api
    return {'Gr': api.Grassmannian, 'IG': api.IsotropicGrassmannian, 'OG': api.OrthogonalGrassmannian}[key[0]](*key[1:])


def table(ctx, p, a, b):
    P = make(ctx, *p)
    B = P.ma.basis()
    sps = set(P.ma.specials())
    for x in B[a:b]:
        P.same('dualize', (ex.S(x),), (ex.S(P.f(x)),))
        for y in B:
            if len(B) > 16 and (sum(x) > 4 or ctx.rng.random() < 0.5):
                continue
            for op in ('qmult', 'mult') if ctx.rng.random() < 0.4 else ('qmult',):
                P.same(op, (ex.S(x), ex.S(y)), (ex.S(P.f(x)), ex.S(P.f(y))))
    if a == 0:
        for i in sps:
            for y in B:
                for q in ('', 'q'):
                    P.same(q + 'pieri', (i, ex.S(y)), (ex.S(P.f(P.ma.special(i))), ex.S(P.f(y))), q + 'mult')


def mixed(ctx, p, rep):
    P = make(ctx, *p)
    rng = ctx.rng
    for i in range(3):
        (xa, xb), (ya, yb) = P.el(rng), P.el(rng)
        P.same('qmult', (xa, ya), (xb, yb))
        P.same('mult', (xa, ya), (xb, yb))
        P.same('dualize', (xa,), (xb,))
        fa, fb = P.poly(rng, 2, 2)
        P.same('qtoS', (fa,), (fb,))
        P.same('toS', (fa,), (fb,))
        fa, fb = P.poly(rng, 2, 2, special=True)
        P.same('qact', (fa, ya), ('(%s)*(%s)' % (fb, yb),), 'qtoS')
        P.same('act', (fa, ya), ('(%s)*(%s)' % (fb, yb),), 'toS')
        for q in ('q', ''):
            # the Giambelli formula of one space, relabelled, has the value of the class in the other
            what = '%s.%sgiambelli(%s)' % (P.A, q, xa)
            ok, f = ctx.call(what, getattr(P.ga, q + 'giambelli'), xa)
            if not ok:
                continue
            try:
                t = relabel(ex.parse(str(f)), P.f)
            except (ex.Unreadable, KeyError) as u:
                ctx.fail('%s = %s: %s' % (what, f, u))
                continue
            ok, v = ctx.call('%s.%stoS(%s)' % (P.B, q, t), getattr(P.gb, q + 'toS'), t)
            if ok:
                ctx.note(q + 'giambelli')
                ctx.seen((P.A.key, P.B.key, q + 'giambelli', xa))
                ok, w = ctx.call('%s.%stoS(%s)' % (P.B, q, xb), getattr(P.gb, q + 'toS'), xb)
                ctx.check(ok and ex.element(str(v), 1) == ex.element(str(w), 1),
                          '%s = %s, relabelled for %s as %s, has the value %s instead of %s' % (what, f, P.B, t, v, w))


def relabel(p, f):
    ts = []
    for mo, c in p.d.items():
        fs = ['(%d)' % c.numerator] + (['(1/%d)' % c.denominator] if c.denominator != 1 else [])
        for v, e in mo:
            fs.append((ex.S(f(v[1])) if isinstance(v, tuple) else v) + '^%d' % e)
        ts.append('*'.join(fs))
    return ' + '.join(ts) or '0'


def tiny(P):
    """a class with at most four boxes, affordable as a factor in both spaces"""
    for _ in range(100):
        z = S.small_class(P.ctx.rng, P.ma)
        if sum(z) <= 4:
            return z
    return ()


def large(ctx, p, rep):
    P = make(ctx, *p)
    rng = ctx.rng
    kind, m = P.kind, P.ma
    ctx.note('very_large')
    for i in range(8):
        y = S.random_class(rng, m)
        fy = P.f(y)
        if kind == 'columns':
            # S[p] of one space is a column S[1,..,1] of the other; only short ones are affordable there
            s = m.special(rng.choice([p for p in m.specials() if p <= 2] or m.specials()[:1])) if m.specials() else ()
            for q in ('', 'q') if i < 4 else ('q',):
                if not s:
                    continue
                P.same(q + 'pieri', (sum(s), ex.S(y)), (ex.S(P.f(s)), ex.S(fy)), q + 'mult')
            # and the other way round, for a class with few boxes
            z = tiny(P)
            s = P.mb.special(rng.choice(P.mb.specials())) if P.mb.specials() else ()
            if s and P.mb.specials():
                P.same('qmult', (ex.S(z), ex.S(rm.conj(s)) if sum(s) <= 3 else ex.S((1,))), (ex.S(P.f(z)), ex.S(s) if sum(s) <= 3 else ex.S((1,))))
        else:
            for q in ('', 'q'):
                sp = rng.choice(m.specials())
                P.same(q + 'pieri', (sp, ex.S(y)), (sp, ex.S(fy)))
            if kind == 'projective':
                z = S.random_class(rng, m)
                P.same('qmult', (ex.S(z), ex.S(y)), (ex.S(z), ex.S(y)))
        P.same('dualize', (ex.S(y),), (ex.S(fy),))
    xa, xb = P.el(rng, 2)
    P.same('dualize', (xa,), (xb,))
    if m.specials():
        P.same('qmult', (ex.S((1,)), xa), (ex.S((1,)), xb))
        z, y = tiny(P), rng.choice([tiny(P), m.dual(tiny(P))])
        if len(m.mul1(z, y)) <= 30:
            P.same('qmult', (ex.S(z), ex.S(y)), (ex.S(P.f(z)), ex.S(P.f(y))))
