"""Supported spaces, random elements and their spellings."""
import random
from fractions import Fraction

import refmodel as rm
import expr as ex


class Sp:
    """one space: constructor name and arguments, reference model, library instance on demand"""

    def __init__(self, cls, m, N):
        self.cls, self.m, self.N = cls, m, N
        self.model = rm.Space.of(cls, m, N)
        self.key = (cls, m, N)

    def __repr__(self):
        return '%s(%d,%d)' % (self.cls, self.m, self.N)

    def make(self):
        import schubertpy as s
        c = {'Gr': s.Grassmannian, 'IG': s.IsotropicGrassmannian, 'OG': s.OrthogonalGrassmannian}[self.cls]
        return c(self.m, self.N)

    @property
    def size(self):
        from math import comb
        n = self.N // 2
        if self.cls == 'Gr':
            return comb(self.N, self.m)
        if self.cls == 'IG' or self.N % 2:
            return 2 ** self.m * comb(n, self.m)
        return 2 ** (self.m - 1) if self.m == n else 2 ** self.m * comb(n, self.m)


def sp(key):
    return Sp(*key)


def all_spaces(gr, ig, og, m0=True):
    """keys of every supported space with N up to the given bounds"""
    out = []
    for N in range(1, gr + 1):
        for m in range(0 if m0 else 1, N + 1):
            out.append(('Gr', m, N))
    for N in range(2, ig + 1, 2):
        for m in range(0 if m0 else 1, N // 2 + 1):
            out.append(('IG', m, N))
    for N in range(3, og + 1):
        for m in range(0 if (m0 and N % 2) else 1, N // 2 + 1):
            out.append(('OG', m, N))
    return out


def upto(size, gr, ig, og, m0=True):
    return [k for k in all_spaces(gr, ig, og, m0) if Sp(*k).size <= size]


def random_class(rng, model, maxlen=None):
    """a random Schubert class without enumerating the basis"""
    t, k, rows, cols = model.type, model.k, model.rows, model.cols
    r = rng.random()
    if r < 0.3:
        return spread_class(rng, model) if r > 0.07 else flat_class(rng, model)
    ln = rng.randint(0, rows)
    parts = []
    hi = cols
    mode = rng.random()
    for _ in range(ln):
        if hi < 1:
            break
        if mode < 0.35:
            x = hi if rng.random() < 0.7 else rng.randint(max(1, hi - 2), hi)
        elif mode < 0.6 and t != 'A':
            x = rng.choice([hi, max(1, min(hi, k)), max(1, min(hi, k + 1)), rng.randint(1, hi)])
        else:
            x = rng.randint(1, hi)
        parts.append(x)
        hi = x if (t == 'A' or x <= k) else x - 1
    t_ = tuple(parts)
    if t == 'D' and k > 0 and k in t_ and rng.random() < 0.5:
        t_ = t_ + (0,)
    return t_


def flat_class(rng, model):
    """a class with few different part sizes: rectangles, hooks, everything at most k"""
    t, k, rows, cols = model.type, model.k, model.rows, model.cols
    top = cols if t == 'A' else min(k, cols)
    ln = rng.randint(min(1, rows), rows)
    parts = []
    if t != 'A' and cols > k and rng.random() < 0.4 or not top:
        parts = [rng.randint(k + 1, cols)][:ln] if cols > k else []
    if top:
        sizes = [rng.randint(1, top) for _ in range(rng.choice([1, 1, 2]))] + [k] * (t != 'A')
        sizes = [x for x in sizes if x <= top]
        parts += [rng.choice(sizes) for _ in range(ln - len(parts))]
    t_ = tuple(sorted(parts, reverse=True))
    if t == 'D' and k > 0 and k in t_ and rng.random() < 0.5:
        t_ = t_ + (0,)
    return t_


def spread_class(rng, model):
    """a class whose parts spread over the whole range: many components, long middle stretches"""
    t, k, rows, cols = model.type, model.k, model.rows, model.cols
    ln = rng.randint(min(1, rows), rows)
    if t == 'A':
        parts = [rng.randint(0, cols) for _ in range(ln)]
    else:
        big = rng.randint(0, min(ln, cols - k))
        parts = rng.sample(range(k + 1, cols + 1), big)
        parts += [rng.randint(0, k) for _ in range(ln - big)]
        if rng.random() < 0.4:
            step = rng.choice([2, 2, 3])
            parts = [x for x in range(cols - rng.randint(0, 2), k, -step)][:big] + parts[big:]
    t_ = tuple(sorted((x for x in parts if x > 0), reverse=True))
    if t == 'D' and k > 0 and k in t_ and rng.random() < 0.5:
        t_ = t_ + (0,)
    return t_


def small_class(rng, model):
    """a class with few boxes (or a special one), whose products are affordable in every space"""
    for _ in range(100):
        lam = rng.choice([(1,), (2,), (1, 1), (2, 1), (1, 1, 1), (3, 1), (2, 2), (3, 2), (2, 1, 1), (4, 1), 'special', 'hook', 'middle'])
        if lam == 'special':
            return model.special(rng.choice(model.specials()))
        if lam == 'hook':
            lam = (rng.randint(1, model.cols), 1)
        if lam == 'middle':
            lam = (model.k + rng.randint(0, 1), max(1, model.k - rng.randint(0, 1)))
        lam = tuple(x for x in lam if x)
        if len(lam) > model.rows or max(lam) > model.cols or lam != tuple(sorted(lam, reverse=True)):
            continue
        if model.type != 'A' and any(a == b and a > model.k for a, b in zip(lam, lam[1:])):
            continue
        if model.type == 'D' and model.k > 0 and model.k in lam and rng.random() < 0.5:
            lam += (0,)
        return lam
    return ()


def qexp(rng, model, top=2):
    return tuple(rng.randint(0, top) for _ in range(model.nq))


def random_element(rng, model, terms=3, q=True, frac=False, cls=None):
    el = {}
    pick = cls or (lambda: random_class(rng, model))
    for _ in range(rng.randint(1, terms)):
        c = rng.choice([1, 1, 2, 3, -1, -2, 5, 7, 12, -10])
        if frac and rng.random() < 0.3:
            c = Fraction(c, rng.choice([2, 3, 4]))
        qe = qexp(rng, model) if q and rng.random() < 0.4 else model.q0
        rm.add_into(el, {(qe, pick()): c})
    if not el:
        el = {(model.q0, ()): 1}
    return el


def qname(i, nq):
    return 'q' if nq == 1 else 'q%d' % (i + 1)


def spell(rng, el, nq=1):
    """the element written in a random style that denotes the same value"""
    sp1 = rng.choice(['', ' ', ' ', '  '])
    ss = rng.choice(['', '', ' '])
    sb = rng.choice(['', '', '', ' '])
    sc = rng.choice(['', '', '', ' '])
    pw = rng.choice(['^', '**'])

    def S(lam):
        return 'S[' + sb + (sc + ',' + ss).join(str(x) for x in lam) + sb + ']'

    def mono(q):
        f = []
        for i, e in enumerate(q):
            if e == 1:
                f.append(qname(i, nq))
            elif e:
                f.append(qname(i, nq) + pw + str(e) if rng.random() < 0.8 else '*'.join([qname(i, nq)] * e))
        return f

    def num(c):
        c = Fraction(c)
        s = str(abs(c.numerator))
        return s, c.denominator, c < 0
    items = list(el.items())
    rng.shuffle(items)
    groups = []
    if rng.random() < 0.4 and len(items) > 1:
        # factor out a common q monomial of some of them
        byq = {}
        for (q, lam), c in items:
            byq.setdefault(q, []).append((lam, c))
        for q, l in byq.items():
            groups.append((q, l))
    else:
        groups = [(q, [(lam, c)]) for (q, lam), c in items]
    brackets = rng.random() < 0.25
    terms = []
    for q, l in groups:
        inner = ''
        neg_all = False
        if len(l) == 1:
            lam, c = l[0]
            s, d, neg = num(c)
            f = mono(q) + [S(lam)]
            if brackets and d == 1 and rng.random() < 0.3:
                # the coefficient as a sum: (5 - 2)*S[..], (q + 0)*S[..]
                x = rng.randint(0, 9)
                s = '(%d%s-%s%d)' % (int(s) + x, sp1, sp1, x) if rng.random() < 0.5 else '(-%d%s+%s%d)' % (x, sp1, sp1, int(s) + x)
            elif brackets and len(f) > 1 and rng.random() < 0.3:
                f[0] = '(%s)' % '*'.join(f[:-1])
                del f[1:-1]
            if rng.random() < 0.3:
                rng.shuffle(f)
            if s != '1' or rng.random() < 0.2:
                f.insert(rng.randint(0, len(f)) if brackets else 0, s)
            t = '*'.join(f)
            if d != 1:
                t += '/%d' % d
            if rng.random() < (0.4 if d != 1 else 0.05) and s.isdigit():
                import polytext
                t = polytext.scaled(rng, mono(q) + [S(lam)], Fraction(c))
            neg_all = neg
        else:
            for lam, c in l:
                s, d, neg = num(c)
                t1 = (s + '*' if s != '1' else '') + S(lam) + ('/%d' % d if d != 1 else '')
                inner += (sp1 + '-' + sp1 if neg else (sp1 + '+' + sp1 if inner else '')) + t1
            f = mono(q)
            inner = '(' + inner + ')'
            t = '*'.join(f + [inner] if rng.random() < 0.5 else [inner] + f)
        if brackets and rng.random() < 0.4:
            t = '(' + sb + t + ')'
        terms.append((neg_all, t))

    def join(ts):
        o = ''
        for neg, t in ts:
            o += (sp1 + '-' + sp1 if neg else (sp1 + '+' + sp1 if o else '')) + t
        return o.strip()
    while brackets and len(terms) > 1 and rng.random() < 0.6:
        # bracket a run of terms, possibly with a minus in front
        i = rng.randrange(len(terms))
        j = rng.randint(i + 1, len(terms))
        flip = rng.random() < 0.3
        terms[i:j] = [(flip, '(' + join([(neg != flip, t) for neg, t in terms[i:j]]) + ')')]
    return join(terms) or '0'


def P_of(el, nq=1):
    """reference element -> polynomial of expr.P"""
    r = ex.P()
    for (q, lam), c in el.items():
        t = ex.P.const(c)
        for i, e in enumerate(q):
            if e:
                t = t * (ex.P.var(qname(i, nq)) ** e)
        if lam is not None:
            t = t * ex.P.var(('S', tuple(lam)))
        r = r + t
    return r


def norm(el):
    """element with integral Fractions turned into ints (for comparison and display)"""
    return {k: (int(c) if Fraction(c).denominator == 1 else Fraction(c)) for k, c in el.items() if c}
