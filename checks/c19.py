"""Reproducibility: the same calls in separate processes with different hash seeds and orders, text for text."""
import os
import pickle
import shutil
import subprocess
import sys
import tempfile

import script
import spaces as S

RULE = ('one observation = the printed outcome of one call compared byte for byte between two processes (different hash seed, '
        'different order of the calls); non-trivial = the outcome has more than one term or line; distinct = distinct (call, process)')
MIN = {'quick': 1500, 'thorough': 15000}
MUST_SEE = ('processes', 'processes_in_another_environment', 'processes_without_sympy_cache', 'distinct_hash_seeds', 'several_terms')
LIB = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'lib')


def units(tier, rng):
    n = 8 if tier == 'quick' else 80
    return [('batch', i) for i in range(n)] + [('uncached', i) for i in range(n)]


WIDE = [('Gr', 4, 9), ('Gr', 3, 12), ('IG', 4, 12), ('IG', 5, 12), ('IG', 7, 14), ('OG', 4, 13), ('OG', 7, 15), ('OG', 3, 15), ('OG', 4, 12), ('OG', 5, 12),
        ('OG', 3, 14), ('OG', 6, 14), ('OG', 7, 14), ('OG', 8, 16), ('IG', 2, 20), ('OG', 2, 22), ('OG', 2, 21)]


def bulk(rng):
    """results with very many terms"""
    calls = []
    for key in rng.sample(WIDE, 4):
        m = S.sp(key).model
        calls += [(key, 'classes'), (key, 'generators')]
        els = list(m.basis())
        some = rng.sample(els, min(len(els), rng.choice([30, 90, 200])))
        t = ' + '.join('%d*%s' % (rng.randint(1, 9), script.ex.S(p)) for p in some)
        few = ' + '.join(script.ex.S(p) for p in rng.sample(els, 12))
        calls += [(key, 'dualize', ('text', t)), (key, 'type_swap', ('text', t), ('int', m.k)), (key, 'expansion', ('text', t), ('int', 1)),
                  (key, 'part2index', ('text', few)), (key, 'arith', ('text', t), ('text', few))]
        if m.specials():
            calls += [(key, 'qpieri', ('int', rng.choice(m.specials())), ('text', few)), (key, 'pieri', ('int', rng.choice(m.specials())), ('text', t))]
    return calls


def batch(ctx, i):
    rng = ctx.rng
    calls = []
    keys = rng.sample(script.SMALL, 12)
    for key in keys:
        calls += [script.gen(rng, key) for _ in range(6)]
        calls += [(key, 'classes'), (key, 'generators'), (key, 'str')]
        m = S.sp(key).model
        if S.sp(key).size <= 12:
            calls.append((key, rng.choice(['table', 'qtable'])))
        # sums of many terms: the order of terms is what could vary
        for op in ('qmult', 'mult'):
            calls.append((key, op, ('text', S.spell(rng, S.random_element(rng, m, 4), m.nq)), ('text', S.spell(rng, S.random_element(rng, m, 3), m.nq))))
        calls.append((key, 'expansion', ('text', script.ex.show(S.random_element(rng, m, 8), m.nq)), ('int', 1)))
        calls.append((key, 'qgiambelli', ('list', list(S.random_class(rng, m)))))
    big = [('Gr', 3, 8), ('IG', 3, 10), ('OG', 3, 11), ('OG', 3, 10), ('OG', 4, 10)]
    key = rng.choice(big)
    m = S.sp(key).model
    calls.append((key, 'qmult', ('list', list(S.random_class(rng, m))), ('list', list(S.random_class(rng, m)))))
    calls += bulk(rng)
    compare(ctx, calls, [(hs, ['0', '0', None, None, None, None][j], j) for j, hs in enumerate(
        ['0', str(rng.randint(1, 10 ** 6)), str(rng.randint(1, 10 ** 6)), 'random', str(rng.randint(1, 10 ** 6)), str(rng.randint(1, 10 ** 6))])])


def uncached(ctx, i):
    """with and without SymPy's own cache (which hides whether equal symbols are the same object)"""
    rng = ctx.rng
    calls = []
    for key in rng.sample([k for k in script.SMALL if S.sp(k).size <= 12], 4):
        calls += [script.gen(rng, key, heavy=False) for _ in range(5)]
        calls += [(key, 'classes'), (key, 'generators'), (key, 'str')]
    ctx.note('processes_without_sympy_cache')
    compare(ctx, calls, [('0', '0', 0), (str(rng.randint(1, 10 ** 6)), None, 6)])


def compare(ctx, calls, plan):
    rng = ctx.rng
    d = tempfile.mkdtemp(prefix='c19-')
    try:
        src = os.path.join(d, 'calls')
        with open(src, 'wb') as f:
            pickle.dump(calls, f)
        runs = []
        for hs, order, j in plan:
            # the last two processes also differ in what surrounds them
            flags, more, cwd = [], {}, None
            if j == 4:
                flags, more, cwd = ['-OO'], {'LC_ALL': 'C', 'COLUMNS': '31', 'PYTHONUTF8': '0', 'TZ': 'Asia/Tokyo'}, '/'
            elif j == 5:
                flags, more, cwd = ['-X', 'utf8', '-X', 'int_max_str_digits=5000'], {'COLUMNS': '500', 'LC_ALL': 'C.UTF-8'}, d
            elif j == 6:
                more = {'SYMPY_USE_CACHE': 'no'}
            order = order or str(rng.randint(1, 10 ** 6))
            out = os.path.join(d, 'out%d' % j)
            env = dict(os.environ, PYTHONHASHSEED=hs, **more)
            r = subprocess.run([sys.executable, '-B'] + flags + [os.path.join(LIB, 'repro_prog.py'), src, order, out], env=env, cwd=cwd,
                               stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, timeout=400)
            if r.returncode != 0:
                raise RuntimeError(r.stderr.decode()[-2000:])
            ctx.note('processes')
            if more:
                ctx.note('processes_in_another_environment')
            with open(out, 'rb') as f:
                runs.append((hs, order) + pickle.load(f))
        ctx.note('distinct_hash_seeds', len({r[2] for r in runs}))
        hs0, o0, _, ref = runs[0]
        for hs, order, probe, res in runs[1:]:
            for k, c in enumerate(calls):
                many = ' ' in ref[k]
                if many:
                    ctx.note('several_terms')
                ctx.seen((c, probe), many, '%s -> %s (hash seed %s)' % (script.show(c), res[k], hs))
                if ref[k] != res[k]:
                    ctx.fail('%s prints %s with hash seed %s (order %s) and %s with hash seed %s (order %s)' % (
                        script.show(c), ref[k][:500], hs0, o0, res[k][:500], hs, order))
    finally:
        shutil.rmtree(d, ignore_errors=True)
