"""Reader for the notation the library prints ('S[2,1]*q^2 - 7*S[3,2]'): an exact polynomial
arithmetic over the rationals in the variables q,q1,q2 and S[...], independent of sympy.
Only the *printed* value is read, so the checks do not depend on internal encodings."""
import ast
import re
from fractions import Fraction

_TOK = re.compile(r'S\[((?:[^\[\]]|\[[^\[\]]*\])*)\]')


class Unreadable(Exception):
    pass


class P:
    """polynomial: {monomial: coeff}; monomial = sorted tuple of (var, exp)"""
    __slots__ = ('d',)

    def __init__(self, d=None):
        self.d = d or {}

    @staticmethod
    def const(c):
        return P({(): Fraction(c)} if c else {})

    @staticmethod
    def var(v):
        return P({((v, 1),): Fraction(1)})

    def __add__(self, o):
        r = dict(self.d)
        for m, c in o.d.items():
            w = r.get(m, 0) + c
            if w:
                r[m] = w
            else:
                r.pop(m, None)
        return P(r)

    def __neg__(self):
        return P({m: -c for m, c in self.d.items()})

    def __sub__(self, o):
        return self + (-o)

    def __mul__(self, o):
        r = {}
        for m1, c1 in self.d.items():
            for m2, c2 in o.d.items():
                e = dict(m1)
                for v, x in m2:
                    e[v] = e.get(v, 0) + x
                m = tuple(sorted(e.items(), key=repr))
                w = r.get(m, 0) + c1 * c2
                if w:
                    r[m] = w
                else:
                    r.pop(m, None)
        return P(r)

    def __pow__(self, n):
        r = P.const(1)
        for _ in range(n):
            r = r * self
        return r

    def __eq__(self, o):
        return self.d == o.d

    def __repr__(self):
        return repr(self.d)


def parse(text):
    """text -> P"""
    names = {}

    def rep(m):
        key = '_v%d' % len(names)
        names[key] = ('S', _tup(ast.literal_eval('[' + m.group(1) + ']')))
        return key
    s = _TOK.sub(rep, str(text)).replace('^', '**').strip()
    def ev(t):
        if isinstance(t, ast.Constant) and isinstance(t.value, int):
            return P.const(t.value)
        if isinstance(t, ast.Name):
            if t.id in names:
                return P.var(names[t.id])
            if re.fullmatch(r'[A-Za-z]\w*', t.id):
                return P.var(t.id)
        if isinstance(t, ast.UnaryOp):
            v = ev(t.operand)
            return -v if isinstance(t.op, ast.USub) else v
        if isinstance(t, ast.BinOp):
            a = ev(t.left)
            b = ev(t.right)
            if isinstance(t.op, ast.Add):
                return a + b
            if isinstance(t.op, ast.Sub):
                return a - b
            if isinstance(t.op, ast.Mult):
                return a * b
            if isinstance(t.op, ast.Div) and set(b.d) == {()}:
                return a * P.const(1 / b.d[()])
            if isinstance(t.op, ast.Pow) and set(b.d) <= {()}:
                e = b.d.get((), Fraction(0))
                if e.denominator == 1 and e >= 0:
                    return a ** int(e)
        raise Unreadable(str(text)[:300])
    tot = {}
    for sign, chunk in _summands(s):
        try:
            tree = ast.parse(chunk.strip(), mode='eval').body
        except SyntaxError:
            raise Unreadable(str(text)[:300])
        for m, c in ev(tree).d.items():
            w = tot.get(m, 0) + sign * c
            if w:
                tot[m] = w
            else:
                tot.pop(m, None)
    return P(tot)


def _summands(s):
    """[(sign, text)] of the outermost sum (long sums would be nested too deeply otherwise)"""
    out, depth, start, sign, last = [], 0, 0, 1, ''
    for i, c in enumerate(s):
        if c in '([':
            depth += 1
        elif c in ')]':
            depth -= 1
        elif depth == 0 and c in '+-' and last and last not in '+-*/':
            out.append((sign, s[start:i]))
            sign, start = (1 if c == '+' else -1), i + 1
        if not c.isspace():
            last = c
    out.append((sign, s[start:]))
    return out


def _tup(x):
    return tuple(_tup(i) for i in x) if isinstance(x, (list, tuple)) else x


def element(text, nq=1):
    """text -> reference-model element {(qexp, lam): coeff}; every term must carry at most one S
    (a term without S is a multiple of the plain number 1, reported with lam None)"""
    out = {}
    for m, c in parse(text).d.items():
        q = [0] * nq
        lam = None
        for v, e in m:
            if isinstance(v, tuple):
                if lam is not None or e != 1:
                    raise Unreadable('not linear in Schubert classes: ' + str(text)[:300])
                lam = v[1]
            elif nq == 1 and v == 'q':
                q[0] += e
            elif nq == 2 and v in ('q1', 'q2'):
                q[int(v[1]) - 1] += e
            else:
                raise Unreadable('unexpected variable %s in %s' % (v, str(text)[:300]))
        out[(tuple(q), lam)] = int(c) if c.denominator == 1 else c
    return out


def show(el, nq=1):
    """reference element -> text in the library's notation"""
    if not el:
        return '0'
    ts = []
    for (q, lam), c in sorted(el.items(), key=lambda t: (t[0][0], str(t[0][1]))):
        f = []
        if c != 1:
            f.append('(%s)' % c if c < 0 else str(c))
        for i, e in enumerate(q):
            if e:
                n = 'q' if nq == 1 else 'q%d' % (i + 1)
                f.append(n if e == 1 else '%s^%d' % (n, e))
        if lam is not None:
            f.append(S(lam))
        ts.append('*'.join(f) or '1')
    return ' + '.join(ts)


def S(lam):
    return 'S[' + ','.join(str(x) for x in lam) + ']'
