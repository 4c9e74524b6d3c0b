"""Executable reference model of the (quantum) cohomology of the classical Grassmannians.

Pure integers / tuples / dicts, no sympy, no code shared with /repo.  The Pieri rule is
written from the *definition* (Buch-Kresch-Tamvakis, "Quantum Pieri rules for isotropic
Grassmannians"), by naive enumeration; everything else is derived from Pieri.
tools/validate_model.py checks this model against a third, root-theoretic oracle
(quantum Chevalley formula on G/B + Peterson-Woodward comparison), the Maple golden
table shipped in the repo, and the ring axioms.

An element is a dict {(qexp, lam): coefficient}; qexp is a tuple of exponents
((a,) for q, (a,b) for q1,q2), lam a tuple; a type-D class of type 2 carries a trailing 0.
"""
from functools import lru_cache
from fractions import Fraction


def clip(t):
    t = tuple(t)
    while t and t[-1] == 0:
        t = t[:-1]
    return t


def conj(t):
    t = clip(t)
    return tuple(sum(1 for x in t if x > i) for i in range(t[0])) if t else ()


def add_into(acc, el, c=1):
    for key, v in el.items():
        w = acc.get(key, 0) + c * v
        if w:
            acc[key] = w
        else:
            acc.pop(key, None)
    return acc


def qmul(el, qe):
    return {(tuple(a + b for a, b in zip(q, qe)), lam): c for (q, lam), c in el.items()}


# ---------------------------------------------------------------- type A pieri
def pieriA(p, lam, k, rows):
    """horizontal strips of size p on lam inside rows x k"""
    lam = list(lam) + [0] * (rows - len(lam))
    out = []

    def rec(i, left, acc):
        if i == rows:
            if left == 0:
                out.append(clip(acc))
            return
        top = k if i == 0 else lam[i - 1]
        for x in range(lam[i], min(top, lam[i] + left) + 1):
            rec(i + 1, left - (x - lam[i]), acc + [x])
    rec(0, p, [])
    return out


# ---------------------------------------------------------------- types B,C,D: lam -> mu
def _kstrict(part, k):
    return all(not (part[i] > k and part[i] == part[i + 1]) for i in range(len(part) - 1))


def _succ(p, lam, k, rows, cols, d):
    """All mu with lam -> mu, |mu| = |lam|+p, with number of components of A and whether a
    component meets column k+1.  d=0: k-related (B,C); d=1: k'-related (D).

    Boxes [r,c], c<=k<c' are related iff c + c' = 2k+2-d + r - r'.
    """
    lam = clip(lam)
    L = lambda i: lam[i - 1] if 1 <= i <= len(lam) else 0
    lcols = [sum(1 for x in lam if x >= c) for c in range(1, k + 1)]
    res = {}

    # mu: column heights in first k columns between lam's vertical-strip removal and +1
    size = sum(lam) + p

    # enumerate mu row by row:   mu_i <= ... ;  first k columns: lam1 = lam minus vertical strip
    # => row i loses at most 1 box within the first k columns; then add horizontal strip.
    def rec(i, prev, acc, left):
        if left < 0:
            return
        if i > rows:
            if left == 0:
                check(clip(acc))
            return
        # nu_i (after removal) ranges: lam_i if lam_i>k or 0 ; lam_i or lam_i-1 if 0<lam_i<=k
        lo = L(i) if (L(i) > k or L(i) == 0) else L(i) - 1
        hi = cols if i == 1 else L(i - 1)      # necessary: mu_i <= nu_{i-1} <= lam_{i-1}
        # mu_i > k is bounded by lam_{i-1}; within first k columns by nu_{i-1} <= lam_{i-1}
        hi = min(hi, prev)
        for x in range(lo, hi + 1):
            if x > left:
                break
            if i > 1 and x > k and x == prev:
                continue
            rec(i + 1, x, acc + [x], left - x)

    def check(mu):
        mcols = [sum(1 for x in mu if x >= c) for c in range(1, k + 1)]
        M = lambda i: mu[i - 1] if 1 <= i <= len(mu) else 0
        # existence of nu: nu subset of lam & mu, lam/nu vertical strip in first k columns,
        # mu/nu horizontal strip.  maximal choice nu = lam /\ mu.
        nrows = max(len(lam), len(mu))
        nu = [min(L(i), M(i)) for i in range(1, nrows + 2)]
        for i in range(1, nrows + 1):
            if L(i) - nu[i - 1] > 1 or (L(i) - nu[i - 1] == 1 and L(i) > k):
                return
            if M(i + 1) > nu[i - 1]:
                return
        # a column c<=k of mu may have at most one box more than lam (horizontal strip) -- implied
        added = [(r, c) for r in range(1, len(mu) + 1) for c in range(max(L(r), k) + 1, M(r) + 1)]
        addset = set(added)
        mention = set()
        for c in range(1, k + 1):
            hl, hm = lcols[c - 1], mcols[c - 1]
            if hm == hl:
                rel = [b for b in added if c + b[1] == 2 * k + 2 - d + hl - b[0]]
                if len(rel) > 1:
                    return
                mention.update(rel)
            elif hm < hl:
                rows_used = set()
                for r in range(hm, hl + 1):
                    rel = [b for b in added if c + b[1] == 2 * k + 2 - d + r - b[0]]
                    if len(rel) != 1:
                        return
                    rows_used.add(rel[0][0])
                    mention.update(rel)
                if len(rows_used) > 1:
                    return
        A = addset - mention
        seen = set()
        comps = first = 0
        for b in sorted(A):
            if b in seen:
                continue
            comps += 1
            meets = False
            stack = [b]
            seen.add(b)
            while stack:
                r, c = stack.pop()
                if c == k + 1:
                    meets = True
                # boxes are connected when they share at least a vertex
                for dr in (-1, 0, 1):
                    for dc in (-1, 0, 1):
                        t = (r + dr, c + dc)
                        if t in A and t not in seen:
                            seen.add(t)
                            stack.append(t)
            first += meets
        res[mu] = (comps, first)

    rec(1, cols, [], size)
    return res


class Space:
    """type_, k, n as in the Quantum Calculator (set_type)."""

    def __init__(self, type_, k, n):
        self.type, self.k, self.n = type_, k, n
        self.nq = 2 if (type_ == 'D' and k == 1) else 1
        self._pc = {}
        self._qpc = {}
        self._mc = {}

    # -- constructors in the user's convention
    @staticmethod
    def of(cls, m, N):
        if cls == 'Gr':
            return _space('A', N - m, N)
        if cls == 'IG':
            return _space('C', N // 2 - m, N // 2)
        if cls == 'OG':
            if N % 2:
                return _space('B', (N - 1) // 2 - m, (N - 1) // 2)
            return _space('D', N // 2 - m, N // 2 - 1)
        raise ValueError(cls)

    @property
    def q0(self):
        return (0,) * self.nq

    @property
    def rows(self):
        return self.n - self.k + (1 if self.type == 'D' else 0)

    @property
    def cols(self):
        return self.k if self.type == 'A' else self.n + self.k

    @property
    def deg_q(self):
        t, k, n = self.type, self.k, self.n
        if t == 'A':
            return n
        if t == 'C':
            return n + 1 + k
        return 2 * n if k == 0 else n + k

    @property
    def dim(self):
        t, k, n = self.type, self.k, self.n
        m = self.rows
        if t == 'A':
            return m * k
        N = {'B': 2 * n + 1, 'C': 2 * n, 'D': 2 * n + 2}[t]
        return m * (N - m) - (m * (m + 1) // 2 if t in 'BD' else m * (m - 1) // 2)

    def basis(self):
        """every Schubert class, by brute enumeration of (typed) k-strict partitions"""
        if hasattr(self, '_basis'):
            return self._basis
        out = []
        rows, cols, k = self.rows, self.cols, self.k

        def rec(acc):
            t = tuple(acc)
            out.append(t)
            if self.type == 'D' and k > 0 and k in t:
                out.append(t + (0,))
            if len(acc) == rows:
                return
            hi = acc[-1] if acc else cols
            for x in range(1, hi + 1):
                if self.type != 'A' and acc and x == acc[-1] and x > k:
                    continue
                rec(acc + [x])
        rec([])
        self._basis = sorted(out)
        return self._basis

    def specials(self):
        """Pieri indices: p, and -k for the second class of degree k in type D"""
        if self.type == 'A':
            return list(range(1, self.k + 1)) if self.rows > 0 else []
        if self.rows == 0:
            return []
        s = list(range(1, self.n + self.k + 1))
        if self.type == 'D' and self.k > 0:
            s.append(-self.k)
        return s

    def special(self, p):
        return (p,) if p > 0 else (-p, 0)

    # -- classical Pieri
    def pieri(self, p, lam, n=None, k=None):
        """classical product special(p)*lam, optionally in a neighbouring space of same type"""
        n = self.n if n is None else n
        k = self.k if k is None else k
        key = (p, lam, n, k)
        if key in self._pc:
            return self._pc[key]
        t = self.type
        res = {}
        if t == 'A':
            for mu in pieriA(p, lam, k, n - k):
                res[mu] = res.get(mu, 0) + 1
        elif t == 'C':
            for mu, (c, f) in _succ(p, lam, k, n - k, n + k, 0).items():
                res[mu] = 2 ** (c - f)
        elif t == 'B':
            b = 0 if p <= k else 1
            for mu, (c, f) in _succ(p, lam, k, n - k, n + k, 0).items():
                e = c - b
                res[mu] = 2 ** e if e >= 0 else Fraction(1, 2 ** -e)
        else:
            tl = 0 if k not in lam else (2 if lam[-1] == 0 else 1)
            for mu, (c, f) in _succ(abs(p), lam, k, n + 1 - k, n + k, 1).items():
                for nu, v in self._dcoef(p, lam, mu, tl, k, c).items():
                    res[nu] = res.get(nu, 0) + v
        self._pc[key] = res
        return res

    @staticmethod
    def _dcoef(p, lam, mu, tl, k, comps):
        cc = comps - (0 if abs(p) < k else 1)
        has = k in mu if k > 0 else True
        # k == 0: the trailing "0" convention is not used, every class has one name
        if k == 0:
            return {mu: 2 ** cc} if cc >= 0 else {mu: 1}
        if cc >= 0:
            if not has or tl == 1:
                return {mu: 2 ** cc}
            if tl == 2:
                return {mu + (0,): 2 ** cc}
            return {mu: 2 ** cc, mu + (0,): 2 ** cc}
        # number of boxes in the first k columns that are in mu and "new" (see BKT Thm D):
        h = k + tl + (1 if p < 0 else 0)
        # count columns c<=k whose height in mu differs from lam by +1 row-wise
        for i in range(len(mu)):
            li = lam[i] if i < len(lam) else 0
            below = mu[i + 1] if i + 1 < len(mu) else 0
            hi = min(mu[i], k)
            lo = max(min(below, k), min(li, k))
            if li < hi and hi > lo:
                h -= hi - lo
        h %= 2
        if tl == 0 and has:
            return {mu: 1} if h == 0 else {mu + (0,): 1}
        if h == 0:
            return {}
        if tl == 2 and has:
            return {mu + (0,): 1}
        return {mu: 1}

    # -- quantum Pieri
    def qpieri(self, p, lam):
        key = (p, lam)
        if key in self._qpc:
            return self._qpc[key]
        t, k, n = self.type, self.k, self.n
        q0 = self.q0
        res = {(q0, mu): c for mu, c in self.pieri(p, lam).items()}
        if t == 'A':
            if len(lam) == n - k and n - k > 0 and k > 0:
                if k == 1:
                    extra = {(): 1}      # p == 1
                else:
                    lab = tuple(x - 1 for x in lam if x > 1)
                    extra = {}
                    for mu, c in self.pieri(p - 1, lab, n, k - 1).items():
                        if mu and mu[0] == k - 1:
                            extra[mu[1:]] = extra.get(mu[1:], 0) + c
                        elif k - 1 == 0:
                            extra[mu] = c
                add_into(res, {((1,), mu): c for mu, c in extra.items()})
        elif t == 'C':
            for mu, c in self.pieri(p, lam, n + 1).items():
                if mu and mu[0] == n + k + 1:
                    assert c % 2 == 0
                    add_into(res, {((1,), mu[1:]): c // 2})
        elif t == 'B':
            if k == 0:
                if lam and lam[0] == n + k:
                    self._star(res, p, lam, (1,))
            else:
                if len(lam) == n - k and n > k:
                    self._tilde(res, p, lam, n - k + 1, (1,))
                if lam and lam[0] == n + k:
                    self._star(res, p, lam, (2,))
        else:
            if k == 0:
                if lam and lam[0] == n + k:
                    self._star(res, p, lam, (1,))
            elif k == 1:
                self._q12(res, p, lam)
                if lam and lam[0] == n + k:
                    self._star(res, p, lam, (1, 1))
            else:
                if len(clip(lam)) == n + 1 - k and n + 1 > k:
                    self._tilde(res, p, lam, n - k + 2, (1,))
                if lam and lam[0] == n + k:
                    self._star(res, p, lam, (2,))
        self._qpc[key] = res
        return res

    def _star(self, res, p, lam, qe):
        for mu, c in self.pieri(p, lam[1:]).items():
            if mu and mu[0] == self.n + self.k:
                add_into(res, {(qe, mu[1:]): c})

    def _tilde(self, res, p, lam, rows, qe):
        n, k = self.n, self.k
        cols = n + k
        for mu, c in self.pieri(p, lam, n + 1).items():
            m = clip(mu)
            if len(m) != rows or m[0] > cols:
                continue
            r = rows + m[0] - cols
            if r <= 0 or (r < rows and m[r] > 1):
                continue
            nu = m[1:r]
            if self.type == 'D':
                # type swap of the result
                t2 = mu[-1] == 0
                if k in nu:
                    nu = nu if t2 else nu + (0,)
            add_into(res, {(qe, nu): c})

    def _q12(self, res, p, lam):
        """type D, k=1 (OG(n,2n+2), Picard rank two): first order terms, from the Maple code"""
        n = self.n
        core = clip(lam)
        if len(core) < n:
            return
        lb = clip(x - 1 for x in core)
        prod = {lb: 1}
        if abs(p) > 1:
            prod = {}
            for mu, c in _space('D', 0, n).pieri(abs(p) - 1, lb, n).items():
                # classes of the maximal OG(n+1-0..): k=0 partitions, no trailing zero names
                prod[clip(mu)] = prod.get(clip(mu), 0) + c
        for mu, c in prod.items():
            comp = tuple(x for x in range(n, 0, -1) if x not in mu)
            up = tuple(x + 1 for x in comp) + (1,) * (n - len(comp))
            if lam[-1] > 0 and p > 0:
                add_into(res, {((1, 0), self.dual(up)): c})
            if (lam[-1] == 0 or 1 not in lam) and (p == -1 or p > 1):
                add_into(res, {((0, 1), self.dual(up + (0,))): c})

    # -- products
    def act(self, p, el):
        """quantum Pieri operator on an element"""
        out = {}
        for (q, lam), c in el.items():
            add_into(out, qmul(self.qpieri(p, lam), q), c)
        return out

    def cact(self, p, el):
        out = {}
        for (q, lam), c in el.items():
            add_into(out, {(q, mu): v for mu, v in self.pieri(p, lam).items()}, c)
        return out

    def _split(self, lam):
        """giambelli recursion head: special index p and remainder lam0 with
        special(p) * lam0 = lam + lower-order rest"""
        p = lam[0]
        if self.type == 'D' and self.k > 0 and p == self.k and lam[-1] == 0:
            p = -self.k
        rest = lam[1:]
        if rest and rest[-1] == 0:
            if self.k not in rest:
                rest = rest[:-1]
        return p, rest

    def mul1(self, lam, mu, quantum=True):
        """lam * mu as an element"""
        key = (lam, mu, quantum)
        if key in self._mc:
            return self._mc[key]
        if not lam:
            r = {(self.q0, mu): 1}
        elif not mu:
            r = {(self.q0, lam): 1}
        else:
            p, rest = self._split(lam)
            op = self.act if quantum else self.cact
            r = op(p, self.mul1(rest, mu, quantum))
            head = op(p, {(self.q0, rest): 1})
            assert head.get((self.q0, lam), 0) == 1, (lam, p, rest, head)
            for (q, nu), c in head.items():
                if (q, nu) == (self.q0, lam):
                    continue
                r = add_into(dict(r), qmul(self.mul1(nu, mu, quantum), q), -c)
        self._mc[key] = r
        return r

    def mul(self, a, b, quantum=True):
        out = {}
        for (q1, l1), c1 in a.items():
            for (q2, l2), c2 in b.items():
                q = tuple(x + y for x, y in zip(q1, q2))
                add_into(out, qmul(self.mul1(l1, l2, quantum), q), c1 * c2)
        return out

    def one(self):
        return {(self.q0, ()): 1}

    def cls(self, lam):
        return {(self.q0, tuple(lam)): 1}

    def degree(self, key):
        q, lam = key
        return sum(q) * self.deg_q + sum(lam)

    # -- index sets / duality (definition: Schubert index sets; dual = opposite index set)
    def index(self, lam):
        """strictly increasing index set p_1<...<p_m of the Schubert variety X_lam"""
        t, k, n, m = self.type, self.k, self.n, self.rows
        la = list(lam) + [0] * m
        out = []
        two = self.type == 'D' and len(lam) > 0 and lam[-1] == 0
        for j in range(1, m + 1):
            x = la[j - 1]
            if t == 'A':
                out.append(k + j - x)
                continue
            d = 1 if t == 'D' else 0
            cnt = sum(1 for i in range(1, j) if la[i - 1] + x <= 2 * k - d + j - i)
            if t == 'C':
                out.append(n + k + 1 - x + cnt)
            elif t == 'B':
                out.append(n + k + 1 - x + (0 if x > k else 1 + cnt))
            else:
                nt = n + (2 if two else 1)
                special = x == k and (j == 1 or k < la[j - 2]) and (nt + j) % 2 == 0
                out.append(n + k - x + cnt + (1 if (x > k or special) else 2))
        return tuple(out)

    @property
    def N(self):
        return {'A': self.n, 'B': 2 * self.n + 1, 'C': 2 * self.n, 'D': 2 * self.n + 2}[self.type]

    def valid_index_sets(self):
        """all m-subsets of [1,N] that index T-fixed points (isotropic coordinate subspaces);
        for maximal type D (k=0) one component only"""
        from itertools import combinations
        t, N, m = self.type, self.N, self.rows
        out = []
        for c in combinations(range(1, N + 1), m):
            s = set(c)
            if t != 'A':
                if any(N + 1 - x in s for x in c):
                    continue
            out.append(c)
        return out

    def from_index(self):
        if not hasattr(self, '_inv'):
            self._inv = {self.index(l): l for l in self.basis()}
            assert len(self._inv) == len(self.basis())
        return self._inv

    def part_of(self, idx):
        """the class with this index set, or None: an entry depends only on the parts up to its row (and on the marker)"""
        memo = self.__dict__.setdefault('_part_of', {})
        idx = tuple(idx)
        if idx in memo:
            return memo[idx]
        found = None
        if len(idx) == self.rows:
            for two in ((), (0,)) if self.type == 'D' and self.k > 0 else ((),):
                prefixes = [()]
                for j in range(self.rows):
                    prefixes = [p + (x,) for p in prefixes for x in range((p[-1] if p else self.cols) + 1)
                                if not (p and x == p[-1] and x > self.k and self.type != 'A')
                                and self._entry(p + (x,), j, two) == idx[j]]
                for p in prefixes:
                    lam = tuple(x for x in p if x) + two
                    if two and self.k not in p:
                        continue
                    if self.index(lam) == idx:
                        assert found is None, (idx, found, lam)
                        found = lam
        memo[idx] = found
        return found

    def _entry(self, prefix, j, two):
        t, k, n = self.type, self.k, self.n
        x = prefix[j]
        if t == 'A':
            return k + j + 1 - x
        d = 1 if t == 'D' else 0
        cnt = sum(1 for i in range(j) if prefix[i] + x <= 2 * k - d + j - i)
        if t == 'C':
            return n + k + 1 - x + cnt
        if t == 'B':
            return n + k + 1 - x + (0 if x > k else 1 + cnt)
        nt = n + (2 if two else 1)
        special = x == k and (j == 0 or k < prefix[j - 1]) and (nt + j + 1) % 2 == 0
        return n + k - x + cnt + (1 if (x > k or special) else 2)

    def dual(self, lam):
        idx = [self.N + 1 - x for x in reversed(self.index(lam))]
        if self.type == 'D' and (self.N // 2) % 2 == 1:
            h = self.N // 2
            idx = [h + 1 if x == h else h if x == h + 1 else x for x in idx]
        return self.part_of(sorted(idx))

    def swap(self, lam):
        """type swap (type D outer automorphism)"""
        if self.type != 'D' or self.k == 0 or self.k not in lam:
            return lam
        return lam[:-1] if lam[-1] == 0 else lam + (0,)


@lru_cache(maxsize=None)
def _space(t, k, n):
    return Space(t, k, n)


# ---------------------------------------------------------------- type A, independent product
def qlr_product(lam, mu, m, N):
    """Quantum product in QH*(Gr(m,N)) without any Pieri rule: multiply the Schur polynomial of
    lam in m variables into the alternant of mu, then reduce exponents with x^N = (-1)^(m-1) q."""
    lamw = _schur_weights(tuple(lam), m)
    base = [(mu[i] if i < len(mu) else 0) + m - 1 - i for i in range(m)]
    out = {}
    for w, c in lamw.items():
        e = [base[i] + w[i] for i in range(m)]
        d = sum(x // N for x in e)
        s = (-1) ** ((m - 1) * d)
        e = [x % N for x in e]
        if len(set(e)) < m:
            continue
        inv = sum(1 for i in range(m) for j in range(i + 1, m) if e[i] < e[j])
        e.sort(reverse=True)
        nu = clip(e[i] - (m - 1 - i) for i in range(m))
        add_into(out, {((d,), nu): c * s * (-1) ** inv})
    return out


@lru_cache(maxsize=None)
def _schur_weights(lam, m):
    """weight multiplicities of the Schur polynomial s_lam(x_1..x_m)"""
    lam = clip(lam)
    if len(lam) > m:
        return {}
    if m == 0:
        return {(): 1}
    lam = lam + (0,) * (m - len(lam))
    out = {}

    def rec(i, acc):
        if i == m - 1:
            for w, c in _schur_weights(tuple(acc), m - 1).items():
                ww = w + (sum(lam) - sum(acc),)
                out[ww] = out.get(ww, 0) + c
            return
        for x in range(lam[i + 1], lam[i] + 1):
            rec(i + 1, acc + [x])
    rec(0, [])
    return out
