"""Development: checks lib/refmodel.py (the oracle) against sources that share nothing with it or with /repo's code.

  golden    the Maple table shipped with the repository's tests
  chevalley the quantum Chevalley formula of G/P (Fulton-Woodward): fixed points, reflections, coroot pairings
  cyclic    how many spaces are determined completely by that (the divisor generates the ring at q=1)
  axioms    commutativity and associativity of the Pieri operators, grading, duality
  qlr       type A: products by alternants reduced modulo x^N = (-1)^(m-1) q
usage: validate_model.py [max rank]"""
import csv
import itertools
import os
import re
import sys
from fractions import Fraction

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(HERE, 'lib'))
import expr as ex
import refmodel as R

Space = R.Space


def spaces(N):
    for n in range(1, N + 1):
        for m in range(0, n + 1):
            yield 'Gr', m, n
    for n in range(2, N + 1):
        for m in range(0, n // 2 + 1):
            if n % 2 == 0:
                yield 'IG', m, n
            yield 'OG', m, n


def golden():
    f = '/repo/schubertpy/testcases/brute_force/testcase.csv'
    n = 0
    for row in csv.reader(open(f), delimiter=';'):
        c, m, N = re.match(r'(\w+)\((\d+),(\d+)\)', row[0]).groups()
        s = Space.of(c, int(m), int(N))
        # the table also has rows for parameters which are no spaces
        if s.k < 0 or s.rows < 0:
            continue
        a, b, r = (ex.element(t.replace('**', '^'), s.nq) for t in row[2:5])
        assert row[1] == 'qmult'
        got = s.mul(a, b)
        assert got == r, (row, got)
        n += 1
    return n


def fixed(s):
    """class -> weight of its fixed point"""
    N, h = s.N, s.N // 2
    out = {}
    for lam in s.basis():
        if s.type == 'A':
            v = tuple(int(i in s.index(lam)) for i in range(1, N + 1))
        else:
            v = [0] * h
            for i in s.index(lam):
                if i <= h:
                    v[i - 1] += 1
                else:
                    v[N - i] -= 1
            v = tuple(v)
        out[lam] = v
    assert len(set(out.values())) == len(out)
    return out


def roots(s):
    """(root, coroot) up to sign"""
    d = s.N if s.type == 'A' else s.N // 2
    e = lambda *xs: tuple(dict(xs).get(i, 0) for i in range(d))
    for a, b in itertools.combinations(range(d), 2):
        yield e((a, 1), (b, -1)), e((a, 1), (b, -1))
        if s.type != 'A':
            yield e((a, 1), (b, 1)), e((a, 1), (b, 1))
    for a in range(d):
        if s.type == 'B':
            yield e((a, 1)), e((a, 2))
        if s.type == 'C':
            yield e((a, 2)), e((a, 1))


def dot(u, v):
    return sum(x * y for x, y in zip(u, v))


def fundamental(s, v):
    """weights of the ample generators at the fixed point"""
    if s.type == 'A' or s.type == 'C' or s.k > 1 or (s.type == 'B' and s.k > 0):
        return [v]
    if s.k == 0:
        return [tuple(Fraction(x, 2) for x in v)]
    c = v.index(0)
    out = {}
    for sign in (1, -1):
        w = list(v)
        w[c] = sign
        out[w.count(-1) % 2] = tuple(Fraction(x, 2) for x in w)
    return [out[0], out[1]]


def chevalley(s):
    """[multiplication by each divisor] as {class: element}, from root data only"""
    pt = fixed(s)
    inv = {v: l for l, v in pt.items()}
    ops = [{lam: {} for lam in pt} for _ in fundamental(s, pt[()])] if len(pt) > 1 else []
    for lam, v in pt.items():
        if not ops:
            break
        om = fundamental(s, v)
        for g, gc in roots(s):
            x = dot(v, gc)
            if x == 0:
                continue
            w = tuple(a - x * b for a, b in zip(v, g))
            mu = inv[w]
            deg = [abs(dot(o, gc)) for o in om]
            deg = [int(y) for y in deg]
            if sum(mu) == sum(lam) + 1:
                qe = s.q0
            elif sum(mu) == sum(lam) + 1 - s.deg_q * sum(deg):
                qe = tuple(deg)
            else:
                continue
            for op, y in zip(ops, deg):
                if y:
                    R.add_into(op[lam], {(qe, mu): y})
    return ops


def check_chevalley(s):
    ops = chevalley(s)
    if not ops:
        return 0
    if s.type == 'D' and s.k == 1:
        names = [1, -1]
    else:
        names = [1]
    ok = False
    for perm in itertools.permutations(range(len(ops))):
        # which spinor family is called the first one depends on n
        good = True
        for j, p in enumerate(names):
            for lam in s.basis():
                want = ops[perm[j]][lam]
                if perm != tuple(range(len(ops))):
                    want = {(tuple(q[i] for i in perm), m): c for (q, m), c in want.items()}
                if s.qpieri(p, lam) != want:
                    good = False
                    break
        ok = ok or good
    assert ok, (s.type, s.k, s.n, [(lam, s.qpieri(1, lam), ops[0][lam]) for lam in s.basis() if s.qpieri(1, lam) != ops[0][lam]][:3])
    return len(s.basis()) * len(names)


def cyclic(s):
    """the powers of a divisor (a generic combination of both) span the ring at q=1 (q2=2): then the divisor operator and
    commutativity determine every other operator"""
    b = {l: i for i, l in enumerate(s.basis())}
    if len(b) == 1:
        return True
    P = (1 << 61) - 1

    def op(v):
        out = [0] * len(b)
        for lam, i in b.items():
            if v[i]:
                for p, c0 in ((1, 3), (-1, 5)) if s.nq == 2 else ((1, 1),):
                    for (q, mu), c in s.qpieri(p, lam).items():
                        out[b[mu]] = (out[b[mu]] + v[i] * int(c) * c0 * (2 ** q[1] if s.nq == 2 else 1)) % P
        return out
    v = [0] * len(b)
    v[b[()]] = 1
    rows = {}
    rank = 0
    while True:
        w = v[:]
        for c, r in rows.items():
            if w[c]:
                f = w[c]
                w = [(x - f * y) % P for x, y in zip(w, r)]
        c = next((i for i, x in enumerate(w) if x), None)
        if c is None:
            return rank == len(b)
        f = pow(w[c], P - 2, P)
        w = [x * f % P for x in w]
        rows = {k: ([(x - r[c] * y) % P for x, y in zip(r, w)] if r[c] else r) for k, r in rows.items()}
        rows[c] = w
        rank += 1
        v = op(v)


def axioms(s):
    n = 0
    sp = s.specials()
    for lam in s.basis():
        for p in sp:
            for (q, mu), c in s.qpieri(p, lam).items():
                assert c == int(c) > 0 and s.degree((q, mu)) == sum(lam) + abs(p), (s.type, s.k, s.n, p, lam)
                n += 1
        for a, b in itertools.combinations(sp, 2):
            x, y = s.act(a, s.qpieri(b, lam)), s.act(b, s.qpieri(a, lam))
            assert x == y, (s.type, s.k, s.n, a, b, lam, x, y)
            n += 1
    top = max(s.basis(), key=lambda l: sum(l))
    for lam in s.basis():
        for mu in s.basis():
            if sum(lam) + sum(mu) == sum(top):
                assert s.mul1(lam, mu, False).get((s.q0, top), 0) == (1 if s.dual(lam) == mu else 0), (s.type, s.k, s.n, lam, mu)
                n += 1
            elif len(s.basis()) < 40:
                assert s.mul1(lam, mu) == s.mul1(mu, lam)
                n += 1
    for p in sp:
        assert s.qpieri(p, ()) == s.cls(s.special(p))
    return n


def qlr(s):
    n = 0
    for lam, mu in itertools.combinations_with_replacement(s.basis(), 2):
        assert s.mul1(lam, mu) == R.qlr_product(lam, mu, s.rows, s.n), (s.k, s.n, lam, mu)
        n += 1
    return n


def main():
    N = int(sys.argv[1]) if len(sys.argv) > 1 else 9
    print('golden table rows:', golden())
    tot = {}
    for c, m, n in spaces(N):
        s = Space.of(c, m, n)
        if len(s.basis()) > 260:
            continue
        tot['spaces'] = tot.get('spaces', 0) + 1
        tot['chevalley'] = tot.get('chevalley', 0) + check_chevalley(s)
        tot['cyclic'] = tot.get('cyclic', 0) + cyclic(s)
        if len(s.basis()) <= 130:
            tot['axioms'] = tot.get('axioms', 0) + axioms(s)
        if c == 'Gr' and 0 < m < n and len(s.basis()) <= 60:
            tot['qlr'] = tot.get('qlr', 0) + qlr(s)
    print('spaces %(spaces)d, divisor products by root data %(chevalley)d, of which determined completely %(cyclic)d spaces, '
          'axiom instances %(axioms)d, alternant products %(qlr)d' % tot)


if __name__ == '__main__':
    main()
