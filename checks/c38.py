"""Symmetry of Gromov-Witten invariants, read off the library's own products and duals.

The coefficient of q^d S[nu] in S[a]*S[b] is the invariant <a, b, dual(nu)>_d, which does not depend on the order of its three classes.
So three different products, computed by different runs of the code, have to show one number. No product oracle is used."""
import expr as ex
import spaces as S
import work

RULE = ('one observation = one number <a,b,c>_d read from the three products a*b, a*c and b*c of the library (classes found with dualize) and compared; '
        'or one quantum product looked at for vanishing; or one product compared with the pairing of its factors; non-trivial = a non-zero number; '
        'distinct = distinct (space, product kind, classes, degree)')
MIN = {'quick': 8000, 'thorough': 40000}
MUST_SEE = ('table', 'sampled', 'large', 'classical', 'with_q', 'with_q2', 'zero_numbers', 'two_parameters', 'never_zero', 'pieris', 'type_A', 'type_B', 'type_C', 'type_D', 'combinations')
SOFT = {'quick': 420, 'thorough': 1800}


def units(tier, rng):
    out = []
    quick = tier == 'quick'
    for key in S.upto(24 if quick else 48, *((6, 8, 9) if quick else (8, 10, 12)), m0=False):
        out.append(('table', key))
    for key in work.MEDIUM + work.BIG:
        for r in range(1 if quick else 8):
            out.append(('sampled', key, r))
    for key in work.LARGE + work.XL:
        for r in range(1 if quick else 8):
            out.append(('large', key, r))
    for key in S.upto(300 if quick else 1200, *((8, 12, 13) if quick else (11, 14, 15)), m0=False):
        if S.sp(key).size > 12:
            for r in range(1 if quick else 4):
                out.append(('pieris', key, r))
    for i in range(30 if quick else 200):
        out.append(('combos', i))
    rng.shuffle(out)
    return out


class Look:
    def __init__(self, ctx, key):
        self.ctx, self.sp = ctx, S.sp(key)
        self.m = self.sp.model
        self.g = self.sp.make()
        self.memo = {}
        self.duals = {}
        ctx.note('type_' + self.m.type)

    def product(self, op, a, b):
        """{(q, class): number}; None if it could not be computed"""
        k = (op, a, b)
        if k not in self.memo:
            w = '%s.%s(%s, %s)' % (self.sp, op, ex.S(a), ex.S(b))
            if op in ('pieri', 'qpieri'):
                p = self.special(a)
                ok, r = self.ctx.call(w, getattr(self.g, op), p, ex.S(b))
            else:
                ok, r = self.ctx.call(w, getattr(self.g, op), ex.S(a), ex.S(b))
            self.memo[k] = {t: c for t, c in S.norm(ex.element(str(r), self.m.nq)).items() if c} if ok else None
        return self.memo[k]

    def special(self, a):
        if not hasattr(self, 'sp_of'):
            self.sp_of = {tuple(self.m.special(p)): p for p in self.m.specials()}
        return self.sp_of[tuple(a)]

    def dual(self, a):
        if a not in self.duals:
            ok, r = self.ctx.call('%s.dualize(%s)' % (self.sp, ex.S(a)), self.g.dualize, ex.S(a))
            e = S.norm(ex.element(str(r), self.m.nq)) if ok else {}
            if len(e) != 1:
                self.ctx.fail('%s.dualize(%s) = %s is not one class' % (self.sp, ex.S(a), r))
                return None
            self.duals[a] = next(iter(e))[1]
        return self.duals[a]

    def triple(self, op, a, b, terms):
        """<a,b,c>_d for the given (q, nu), c = dual of nu, against the other products (which may use the general product)"""
        ctx = self.ctx
        P = self.product(op, a, b)
        if P is None:
            return
        gen = {'pieri': 'mult', 'qpieri': 'qmult'}.get(op, op)
        for q, nu in terms:
            n = P.get((q, nu), 0)
            c = self.dual(nu)
            if c is None:
                return
            for x, y in ((a, b), (b, a)):
                # x*c must have the same number at the dual of y
                o = op if op == gen or x == a else None
                if o is None:
                    continue
                Q = self.product(o, x, c)
                if Q is None:
                    return
                dy = self.dual(y)
                k = Q.get((q, dy), 0)
                ctx.seen((self.sp.key, op, a, b, nu, q), bool(n), '%s: <%s, %s, %s> = %s' % (self.sp, ex.S(a), ex.S(b), ex.S(c), n))
                if any(q):
                    ctx.note('with_q')
                    if sum(q) > 1:
                        ctx.note('with_q2')
                elif gen == 'mult':
                    ctx.note('classical')
                if not n:
                    ctx.note('zero_numbers')
                if len(q) > 1:
                    ctx.note('two_parameters')
                t1, t2 = ex.show({(q, nu): 1}, self.m.nq), ex.show({(q, dy): 1}, self.m.nq)
                ctx.check(n == k, '%s.%s(%s, %s) has %s %s, but %s(%s, %s) has %s %s: both are the number <%s, %s, %s>' % (
                    self.sp, op, ex.S(a), ex.S(b), n, t1, o, ex.S(x), ex.S(c), k, t2, ex.S(a), ex.S(b), ex.S(c)))

    def nonzero(self, a, b):
        P = self.product('qmult', a, b)
        if P is not None:
            self.ctx.note('never_zero')
            self.ctx.seen((self.sp.key, 'nonzero', a, b), bool(P))
            self.ctx.check(P, '%s.qmult(%s, %s) = 0; a quantum product of two classes is never zero' % (self.sp, ex.S(a), ex.S(b)))


def absent(rng, L, P, classes, qs, n):
    """some terms that P does not have: near its own terms and at random"""
    out = []
    for _ in range(n):
        q = rng.choice(qs)
        nu = rng.choice(classes)
        if (q, nu) not in P:
            out.append((q, nu))
    return out


def table(ctx, key):
    L = Look(ctx, key)
    rng = ctx.rng
    B = L.m.basis()
    ctx.note('table')
    pairs = [(a, b) for a in B for b in B]
    if len(pairs) > 200 and ctx.quick:
        pairs = rng.sample(pairs, 200)
    for a, b in pairs:
        L.nonzero(a, b)
        for op in ('qmult', 'mult'):
            P = L.product(op, a, b)
            if P is None:
                return
            qs = sorted({q for q, _ in P}) or [(0,) * L.m.nq]
            L.triple(op, a, b, sorted(P, key=repr) + absent(rng, L, P, B, qs, 2))


def sampled(ctx, key, rep):
    """larger spaces: classes of high degree by general products"""
    L = Look(ctx, key)
    rng = ctx.rng
    ctx.note('sampled')
    for _ in range(3 if ctx.quick else 6):
        a, b = S.small_class(rng, L.m), S.random_class(rng, L.m)
        for op in ('qmult', 'mult'):
            P = L.product(op, a, b)
            if P is None:
                return
            if op == 'qmult':
                L.nonzero(a, b)
            ts = sorted(P, key=lambda t: (-sum(t[0]), repr(t)))
            # only products by the small class: the third one would multiply two classes of any size
            for q, nu in ts[:2] + rng.sample(ts, min(2, len(ts))):
                c = L.dual(nu)
                if c is None:
                    return
                one(L, op, a, b, q, nu, c)


def pieris(ctx, key, rep):
    """middle-sized spaces: every special class, all q terms of its products with sampled classes"""
    L = Look(ctx, key)
    rng = ctx.rng
    ctx.note('pieris')
    B = L.m.basis()
    for p in L.m.specials():
        a = tuple(L.m.special(p))
        for b in rng.sample(B, min(len(B), 14)):
            P = L.product('qpieri', a, b)
            if P is None:
                return
            ts = [t for t in sorted(P, key=repr) if any(t[0])]
            for q, nu in ts if len(ts) <= 8 else rng.sample(ts, 8):
                c = L.dual(nu)
                if c is None:
                    return
                one(L, 'qpieri', a, b, q, nu, c)


def one(L, op, a, b, q, nu, c):
    """<a,b,c> from a*b at nu and from a*c at the dual of b"""
    P, Q = L.product(op, a, b), L.product(op, a, c)
    if P is None or Q is None:
        return
    db = L.dual(b)
    n, k = P.get((q, nu), 0), Q.get((q, db), 0)
    ctx = L.ctx
    ctx.seen((L.sp.key, op, a, b, nu, q), bool(n), '%s: <%s, %s, %s> = %s' % (L.sp, ex.S(a), ex.S(b), ex.S(c), n))
    if any(q):
        ctx.note('with_q')
    if len(q) > 1:
        ctx.note('two_parameters')
    ctx.check(n == k, '%s.%s(%s, %s) has %s %s, but %s(%s, %s) has %s %s: both are the number <%s, %s, %s>' % (
        L.sp, op, ex.S(a), ex.S(b), n, ex.show({(q, nu): 1}, L.m.nq), op, ex.S(a), ex.S(c), k, ex.show({(q, db): 1}, L.m.nq), ex.S(a), ex.S(b), ex.S(c)))


def large(ctx, key, rep):
    """spaces far beyond tables: special classes, all terms of the product"""
    L = Look(ctx, key)
    rng = ctx.rng
    ctx.note('large')
    for _ in range(8):
        p = rng.choice(L.m.specials())
        a, b = tuple(L.m.special(p)), S.random_class(rng, L.m)
        for op in ('qpieri', 'pieri'):
            P = L.product(op, a, b)
            if P is None:
                return
            ts = sorted(P, key=lambda t: (-sum(t[0]), repr(t)))
            for q, nu in ts[:4] + rng.sample(ts, min(6, len(ts))):
                c = L.dual(nu)
                if c is None:
                    return
                one(L, op, a, b, q, nu, c)


def combos(ctx, i):
    """the pairing itself: (x*y, z) = (x, y*z) for combinations, the pairing being the coefficient of the point in the classical product
    and, extended linearly over q, of the quantum product's expansion against duals"""
    rng = ctx.rng
    key = rng.choice([k for k in S.upto(20, 6, 8, 9, m0=False) if S.sp(k).size > 2])
    L = Look(ctx, key)
    nq = L.m.nq
    for _ in range(4):
        els = [S.random_element(rng, L.m, 3, q=True) for _ in range(3)]
        ts = [S.spell(rng, e, nq) for e in els]
        for op in ('qmult', 'mult'):
            w = '%s: (x %s y, z) = (x, y %s z) with x, y, z = %s' % (L.sp, op, op, ' ; '.join(ts))
            ok, xy = ctx.call(w, getattr(L.g, op), ts[0], ts[1])
            ok2, yz = ctx.call(w, getattr(L.g, op), ts[1], ts[2])
            if not (ok and ok2):
                continue
            left = pair(L, ex.element(str(xy), nq), els[2])
            right = pair(L, els[0], ex.element(str(yz), nq))
            if left is None or right is None:
                return
            ctx.note('combinations')
            ctx.seen((key, op, tuple(ts)), bool(left), w)
            ctx.check(left == right, '%s: %s against %s' % (w, left, right))


def pair(L, x, y):
    out = {}
    for (q, a), c in x.items():
        da = L.dual(a)
        if da is None:
            return None
        for (p, b), d in y.items():
            if b == da:
                k = tuple(i + j for i, j in zip(q, p))
                out[k] = out.get(k, 0) + c * d
    return {k: v for k, v in out.items() if v}
