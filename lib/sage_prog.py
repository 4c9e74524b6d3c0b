"""Run under SageMath's interpreter: reads a JSON list of jobs, writes the JSON list of outcomes to fd 3."""
import contextlib
import io
import json
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import target  # noqa: E402


def main():
    jobs = json.load(sys.stdin)
    out = []
    with contextlib.redirect_stdout(io.StringIO()):
        target.load()
        from schubertsage import conversion as cv
        from schubertpy.schur import Schur
        from sage.combinat.sf.sf import SymmetricFunctions
        assert os.path.realpath(cv.__file__).startswith(target.REPO + os.sep)
        Sym = SymmetricFunctions(cv.S.base_ring())

        def support(x):
            return [[list(map(int, k)), str(c)] for k, c in x.monomial_coefficients().items()]

        for kind, *a in jobs:
            try:
                if kind == 'forth':            # Schur -> Sage -> Schur
                    p, form = a
                    s = Schur(form)
                    x = cv.schur_to_sage_schur(s)
                    r = {'in_basis': x.parent() is cv.S or x.parent() == cv.S, 'support': support(x), 'unchanged': str(s)}
                    b = cv.sage_schur_to_schur(x)
                    r['back'] = list(b.partition())
                    r['back_text'] = str(b)
                    r['back_type'] = type(b).__name__
                    r['equal'] = bool(b == Schur(r['back']))
                    r['hash'] = hash(b) == hash(Schur(r['back']))
                    r['symbol'] = str(b.symbol())
                elif kind == 'back':           # Sage -> Schur -> Sage
                    x = cv.S(a[0])
                    before = support(x)
                    b = cv.sage_schur_to_schur(x)
                    y = cv.schur_to_sage_schur(b)
                    r = {'back': list(b.partition()), 'back_text': str(b), 'same': bool(x == y), 'support': support(y),
                         'untouched': support(x) == before}
                elif kind == 'other':          # another basis
                    basis, p = a
                    x = getattr(Sym, basis)()(p)
                    try:
                        b = cv.sage_schur_to_schur(x)
                        r = {'got': str(b)}
                    except ValueError as e:
                        r = {'got': 'ValueError'}
            except Exception as e:
                r = {'raised': '%s: %s' % (type(e).__name__, str(e)[:300])}
            out.append(r)
    with os.fdopen(3, 'w') as f:
        json.dump(out, f)


main()
