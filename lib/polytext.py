"""Random polynomial expressions in S[...] and q variables, as text."""
import expr as ex


def part(rng, zeros=True, pairs=False, big=True):
    """a partition: empty, long, with trailing zeros, with parts of several digits"""
    if pairs and rng.random() < 0.2:
        a, b = part(rng, zeros, False, big), part(rng, zeros, False, big)
        return [a, b]
    r = rng.random()
    if r < 0.1:
        return []
    n = rng.randint(1, rng.choice([1, 2, 3, 3, 5, 8]))
    hi = rng.choice([1, 2, 3, 4, 9, 12, 15] + ([101, 10 ** 6] if big else []))
    p = sorted((rng.randint(1, hi) for _ in range(n)), reverse=True)
    if zeros and rng.random() < 0.2:
        p += [0] * rng.randint(1, 2)
    return p


def cousins(rng, n=5, big=True):
    """partitions that are easily taken for one another: one part changed, a zero more or less, digits grouped otherwise, a part repeated"""
    base = part(rng, big=False) if rng.random() < 0.3 else sorted((rng.randint(1, rng.choice([2, 5, 9, 20])) for _ in range(rng.randint(2, 9))), reverse=True)
    out = [base]
    for _ in range(40):
        if len(out) >= n:
            break
        p = list(rng.choice(out))
        how = rng.randrange(7)
        if how == 0:
            p = p + [0]
        elif how == 1:
            while p and p[-1] == 0:
                p.pop()
        elif how == 2 and p:
            i = rng.randrange(len(p))
            p[i] += rng.choice([1, -1, 10, 16, 100] if big else [1, -1, 10])
        elif how == 3 and len(p) > 1:
            i = rng.randrange(len(p) - 1)
            p[i:i + 2] = [int('%d%d' % (p[i], p[i + 1]))]
        elif how == 4 and p:
            i = rng.randrange(len(p))
            p.insert(i, p[i])
        elif how == 5 and len(p) > 1:
            i = rng.randrange(len(p) - 1)
            p[i] += 1
            p[i + 1] -= 1
        elif how == 6 and p:
            d = str(rng.choice(p))
            if len(d) > 1 and '0' not in d:
                p = sorted(p + [int(x) for x in d], reverse=True)
        if any(x < 0 for x in p) or max(p, default=0) > 10 ** 7:
            continue
        z = [x for x in p if x == 0]
        p = sorted((x for x in p if x), reverse=True) + z[:2]
        if p not in out:
            out.append(p)
    return out


def scaled(rng, f, c):
    """|c| * the product of the texts f, the fraction written in one of several ways"""
    n, d = abs(c.numerator), c.denominator
    r = rng.random()
    if r < 0.55:
        return '*'.join(([str(n)] if n != 1 or rng.random() < 0.1 else []) + f) + ('/%d' % d if d != 1 else '')
    k = rng.choice([1, 1, 1, 2, 3])
    sl = rng.choice(['/', '/', ' / '])
    if r < 0.7:
        return '%s%s%d*%d' % ('*'.join(f), sl, d * k, n * k)
    if r < 0.8:
        return '%d%s%d*%s' % (n * k, sl, d * k, '*'.join(f))
    if r < 0.9:
        return '*'.join(f + [str(n * k)]) + '%s%d' % (sl, d * k)
    return '%s%s%d*%s%s%d' % ('*'.join(f[:1]), sl, k, '*'.join([str(n * k)] + f[1:]), sl, d)


def S(p):
    return ('S[%s]' % ','.join(str(x) for x in p)).replace(' ', '')


def spaced(rng, t):
    """the same S[...] with other spacing"""
    r = rng.random()
    if r < 0.6:
        return t
    if r < 0.8:
        return t.replace(',', ', ')
    return t.replace('[', '[ ').replace(']', ' ]') if '[]' not in t else t.replace(',', ' , ')


def num(rng):
    return rng.choice(['1', '2', '3', '5', '7', '10', '12', '0', '1', '2', str(rng.randint(10, 10 ** 6)), str(rng.getrandbits(rng.choice([40, 64, 200, 340])))])


def frac(rng):
    a, b = num(rng), rng.choice(['2', '3', '4', '7', '12', '1000003'])
    return rng.choice(['%s/%s', '(%s/%s)']) % (a, b)


def q(rng):
    n = rng.choice(['q', 'q', 'q1', 'q2'])
    e = rng.choice([1, 1, 1, 2, 3, 7, 13])
    return n if e == 1 else n + rng.choice(['^', '**']) + str(e)


def poly(rng, depth=3, pairs=True, parts=None, qs=True):
    """text of a random polynomial; parts: list to draw classes from"""
    if parts is None and rng.random() < 0.2:
        parts = cousins(rng)

    def cls():
        return spaced(rng, S(rng.choice(parts) if parts else part(rng, pairs=pairs)))

    def atom():
        r = rng.random()
        if r < 0.55:
            return cls()
        if r < 0.7 and qs:
            return q(rng)
        if r < 0.82:
            return frac(rng)
        return num(rng)

    def go(d):
        r = rng.random()
        if d <= 0 or r < 0.15:
            return atom()
        if r < 0.5:
            sp = rng.choice(['', ' '])
            n = rng.randint(2, 4)
            t = rng.choice(['', '', '-']) + go(d - 1)
            for _ in range(n - 1):
                x = go(d - 1)
                t += sp + rng.choice('++-') + sp + ('(%s)' % x if x.startswith('-') or rng.random() < 0.3 else x)
            return '(%s)' % t if d < depth else t
        if r < 0.85:
            fs = []
            for _ in range(rng.randint(2, 3)):
                x = go(d - 1)
                fs.append(x if not ('+' in x or '-' in x or '/' in x) or x.startswith('(') and balanced(x) else '(%s)' % x)
            return rng.choice(['*', ' * ', '*']).join(fs)
        x = go(d - 1)
        return '(%s)%s%d' % (x, rng.choice(['^', '**']), rng.choice([2, 2, 3, 0, 1]))
    t = go(depth)
    return t


def balanced(x):
    """x is one parenthesised group"""
    d = 0
    for i, c in enumerate(x):
        d += (c == '(') - (c == ')')
        if d == 0:
            return i == len(x) - 1
    return False


def linear(rng, terms=5, parts=None, qs=True, fracs=True, pairs=False, distinct=True):
    """(text of an expanded linear combination, [(coef, {q: e}, part)]) with distinct classes"""
    from fractions import Fraction
    seen, out = set(), []
    if parts is None and rng.random() < 0.25:
        parts = cousins(rng, terms)
    for _ in range(rng.randint(1, terms)):
        p = rng.choice(parts) if parts else part(rng, pairs=pairs)
        k = repr(p)
        qd = {}
        if qs and rng.random() < 0.4:
            for n in (['q'] if rng.random() < 0.7 else ['q1', 'q2']):
                if rng.random() < 0.8:
                    qd[n] = rng.choice([1, 1, 2, 3, 10])
        if (k if distinct else (k, repr(qd))) in seen:
            continue
        seen.add(k if distinct else (k, repr(qd)))
        c = rng.choice([1, 1, 1, 2, 3, -1, -2, 7, 12, -10, 10 ** 30 + 7])
        c = Fraction(c, rng.choice([2, 3, 10])) if fracs and rng.random() < 0.2 else Fraction(c)
        out.append((c, qd, p))
    ts = []
    order = out[:]
    rng.shuffle(order)
    for c, qd, p in order:
        f = [n if e == 1 else '%s%s%d' % (n, rng.choice(['^', '**']), e) for n, e in qd.items()] + [spaced(rng, S(p))]
        rng.shuffle(f)
        t = scaled(rng, f, c) if rng.random() < (0.6 if c.denominator != 1 else 0.06) else plain(rng, f, c)
        ts.append((' - ' if ts else '-') + t if c < 0 else (' + ' if ts else '') + t)
    return ''.join(ts), out


def plain(rng, f, c):
    if abs(c.numerator) != 1 or rng.random() < 0.1:
        f = [str(abs(c.numerator))] + f
    return '*'.join(f) + ('/%d' % c.denominator if c.denominator != 1 else '')


def write(rng, terms):
    """text of [(coef, qd, part)] in random order"""
    ts = []
    order = list(terms)
    rng.shuffle(order)
    for c, qd, p in order:
        f = [n if e == 1 else '%s^%d' % (n, e) for n, e in qd.items()] + [S(p)]
        ts.append((' - ' if ts else '-') + plain(rng, f, c) if c < 0 else (' + ' if ts else '') + plain(rng, f, c))
    return ''.join(ts)


def neighbour(rng, terms):
    """the same terms except for one coefficient, exponent, or trailing zero"""
    out = [(c, dict(qd), list(p)) for c, qd, p in terms]
    if not out:
        return out
    i = rng.randrange(len(out))
    c, qd, p = out[i]
    r = rng.random()
    if r < 0.5:
        c = c + rng.choice([1, 2, -1]) or c * 2
    elif r < 0.7:
        n = rng.choice(list(qd) or ['q'])
        qd[n] = qd.get(n, 0) + 1
    elif r < 0.85 and not (p and isinstance(p[0], list)):
        p = p + [0]
    else:
        c = -c
    if any(q2 == qd and p2 == p for j, (_, q2, p2) in enumerate(out) if j != i):
        return terms
    out[i] = (c, qd, p)
    return out


def value(terms):
    """P of [(coef, qd, part)]"""
    r = ex.P()
    for c, qd, p in terms:
        t = ex.P.const(c)
        for n, e in qd.items():
            t = t * (ex.P.var(n) ** e)
        r = r + t * ex.P.var(('S', ex._tup(p)))
    return r
