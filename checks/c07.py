"""Grading and positivity of structure constants, asserted on every observed product.

The monitor needs no product oracle: it reads each result, asks the space itself for deg(q) and the
Schubert classes, and asserts degree, positivity, integrality and canonical form term by term."""
import expr as ex
import judge
import spaces as S
import work

RULE = ('one observation = one product of two Schubert classes whose terms were all asserted (degree with the space\'s own '
        'deg(q), positive integer coefficient, class of the space in canonical form, one term per class); non-trivial = '
        'non-zero product; distinct = distinct (space, operation, classes)')
MIN = {'quick': 6000, 'thorough': 30000}
MUST_SEE = ('terms', 'terms_with_q', 'terms_with_q2')


def units(tier, rng):
    out = []
    for key in S.upto(20 if tier == 'quick' else 60, *((6, 8, 9) if tier == 'quick' else (8, 10, 12))):
        n = S.sp(key).size
        for a, b in work.chunks(n, max(1, 150 // n)):
            out.append(('table', key, a, b))
    for key in S.upto(60 if tier == 'quick' else 300, *((8, 10, 11) if tier == 'quick' else (10, 14, 15))):
        out.append(('pieris', key))
    for key in work.MEDIUM + work.BIG:
        for r in range(1 if tier == 'quick' else 10):
            out.append(('mixed', key, r))
    for key in work.LARGE + work.XL:
        for r in range(1 if tier == 'quick' else 10):
            out.append(('large', key, r))
    rng.shuffle(out)
    return out


class Watch:
    def __init__(self, ctx, key):
        self.ctx, self.sp = ctx, S.sp(key)
        self.g = self.sp.make()
        self.m = self.sp.model
        self.d = self.g.degree_q()
        self.classes = {tuple(s.partition()) for s in self.g.schub_classes()} if self.sp.size <= 2000 else None

    def product(self, op, a, b, deg):
        ctx, nq = self.ctx, self.m.nq
        what = '%s.%s(%s, %s)' % (self.sp, op, a, b)
        ok, r = ctx.call(what, getattr(self.g, op), a, b)
        if not ok:
            return
        text = str(r)
        try:
            e = ex.element(text, nq)
        except ex.Unreadable as u:
            ctx.fail('%s = %s: %s' % (what, text[:400], u))
            return
        ctx.seen((self.sp.key, op, a, b), bool(e), '%s = %s' % (what, text))
        ctx.note(op)
        n = 0
        for (q, lam), c in e.items():
            n += 1
            ctx.note('terms')
            if any(q):
                ctx.note('terms_with_q')
                if sum(q) > 1:
                    ctx.note('terms_with_q2')
            t = ex.show({(q, lam): c}, nq)
            if lam is None:
                ctx.fail('%s contains the term %s, which is no Schubert class: %s' % (what, t, text[:400]))
            elif not judge.in_basis(self.m, lam) or (self.classes is not None and lam not in self.classes):
                ctx.fail('%s contains the term %s, not a class of the space in canonical form: %s' % (what, t, text[:400]))
            elif not (isinstance(c, int) and c > 0):
                ctx.fail('%s contains the term %s with a coefficient that is no positive integer: %s' % (what, t, text[:400]))
            elif sum(q) * self.d + sum(lam) != deg:
                ctx.fail('%s contains the term %s of degree %d, expected %d (deg q = %d): %s' % (
                    what, t, sum(q) * self.d + sum(lam), deg, self.d, text[:400]))
            elif any(q) and not op.startswith('q'):
                ctx.fail('%s contains a q term: %s' % (what, text[:400]))
        # the text itself lists each class once, no zero terms
        if e and judge.expanded(text):
            terms = text.replace(' - ', ' + -').split(' + ')
            ctx.check(len(terms) == n, '%s lists a class twice or a zero term: %s' % (what, text[:400]))


def table(ctx, key, a, b):
    w = Watch(ctx, key)
    B = w.m.basis()
    for x in B[a:b]:
        for y in B:
            for op in ('mult', 'qmult'):
                w.product(op, ex.S(x), ex.S(y), sum(x) + sum(y))


def pieris(ctx, key):
    w = Watch(ctx, key)
    B = w.m.basis()
    if len(B) > 40:
        B = ctx.rng.sample(B, 40)
    for p in w.m.specials():
        for y in B:
            for op in ('pieri', 'qpieri'):
                w.product(op, p, ex.S(y), abs(p) + sum(y))


def mixed(ctx, key, rep):
    w = Watch(ctx, key)
    rng = ctx.rng
    pool = [S.random_class(rng, w.m) for _ in range(12)]
    pool.sort(key=sum)
    for i in range(4):
        x = rng.choice(pool[-6:])
        y = rng.choice(pool[-4:] if i % 2 else pool)
        for op in ('mult', 'qmult'):
            w.product(op, ex.S(x), ex.S(y), sum(x) + sum(y))


def large(ctx, key, rep):
    w = Watch(ctx, key)
    rng = ctx.rng
    for i in range(10):
        y = S.random_class(rng, w.m)
        p = rng.choice(w.m.specials())
        for op in ('pieri', 'qpieri'):
            w.product(op, p, ex.S(y), abs(p) + sum(y))
    for i in range(2):
        # special * anything through the general product
        y = S.random_class(rng, w.m)
        x = w.m.special(rng.choice(w.m.specials()))
        for op in ('mult', 'qmult'):
            w.product(op, ex.S(x), ex.S(y), sum(x) + sum(y))
