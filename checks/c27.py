"""Conversion to and from SageMath, run under SageMath's interpreter."""
import json
import os
import shutil
import subprocess
import tempfile

import expr as ex
import polytext as pt
import spaces as S
import target

RULE = ('one observation = one conversion there and back (or one refused symmetric function in another basis) run under the '
        'SageMath interpreter; non-trivial = non-empty partition; distinct = distinct (direction, partition as written)')
MIN = {'quick': 500, 'thorough': 1500}
MUST_SEE = ('forth', 'back', 'refused', 'padded', 'empty', 'multi_digit', 'many_parts')
PY = '/opt/venv-sage/bin/python'
BASES = ('e', 'h', 'p', 'm', 'elementary', 'homogeneous', 'power', 'monomial', 'forgotten')
NO_TARGET = True
NO_MEM_LIMIT = True
PROG = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'lib', 'sage_prog.py')


def units(tier, rng):
    return [('batch', i) for i in range(8 if tier == 'quick' else 48)]


def parts_upto(n):
    def rec(left, top, acc):
        yield acc
        for a in range(1, min(left, top) + 1):
            yield from rec(left - a, a, acc + [a])
    return list(rec(n, n, []))


def batch(ctx, i):
    rng = ctx.rng
    jobs = []
    pool = parts_upto(9)
    mine = [p for k, p in enumerate(pool) if k % 8 == i % 8]
    tall = [sorted((rng.randint(1, rng.choice([1, 2, 3, 12])) for _ in range(rng.randint(6, 30))), reverse=True) for _ in range(12)]
    for p in mine + [pt.part(rng, zeros=False) for _ in range(90)] + tall:
        p = [int(x) for x in p]
        if sum(p) <= 10 ** 4:
            pad = p + [0] * (rng.randint(1, 2) if rng.random() < 0.2 else 0)
            jobs.append(('forth', pad, pad if rng.random() < 0.7 else pt.S(pad)))
            jobs.append(('back', p))
    for _ in range(30):
        p = rng.choice([p for p in pool if sum(p) <= 6])
        jobs.append(('other', rng.choice(BASES), p))
    rng.shuffle(jobs)
    d = tempfile.mkdtemp(prefix='c27-')
    try:
        r, w = os.pipe()
        env = {'PATH': os.environ.get('PATH', ''), 'HOME': d, 'DOT_SAGE': d, 'PYTHONHASHSEED': '0', 'MPLBACKEND': 'Agg', 'MPLCONFIGDIR': d,
               'PYTHONDONTWRITEBYTECODE': '1', 'VP_REPO': target.REPO, 'OMP_NUM_THREADS': '1', 'OPENBLAS_NUM_THREADS': '1'}
        # the outcome pipe is handed over as fd 3 by a tiny shell redirection
        p = subprocess.Popen(['/bin/bash', '-c', 'exec "$@" 3>&%d' % w, 'x', PY, '-B', '-W', 'ignore', PROG], stdin=subprocess.PIPE, stdout=subprocess.DEVNULL,
                             stderr=subprocess.PIPE, env=env, pass_fds=(w,), cwd=d)
        os.close(w)
        import threading
        got = []
        t = threading.Thread(target=lambda: got.append(open(r).read()))
        t.start()
        try:
            _o, err = p.communicate(json.dumps(jobs).encode(), timeout=400)
        except subprocess.TimeoutExpired:
            p.kill()
            raise RuntimeError('SageMath did not answer in 400 s')
        t.join(10)
        err = err.decode(errors='replace')
        if p.returncode or not got or not got[0]:
            if target.REPO + os.sep in err and 'Traceback' in err and ('schubertsage' in err or 'schubertpy' in err):
                ctx.fail('the conversion module cannot be used: ' + err[-1200:])
                return
            raise RuntimeError('SageMath program failed (%s): %s' % (p.returncode, err[-1500:]))
        res = json.loads(got[0])
    finally:
        shutil.rmtree(d, ignore_errors=True)
    for job, x in zip(jobs, res):
        judge(ctx, job, x)


def clip(p):
    p = list(p)
    while p and p[-1] == 0:
        p.pop()
    return p


def judge(ctx, job, x):
    kind = job[0]
    if kind != 'other' and len(clip(job[1])) > 9:
        ctx.note('many_parts')
    w = '%s%s' % (kind, list(job[1:]))
    if kind == 'forth':
        p = job[1]
        w = 'Schur(%r) to SageMath and back' % (job[2],)
        if len(p) > len(clip(p)):
            ctx.note('padded')
        if not p:
            ctx.note('empty')
        if max(p, default=0) > 9:
            ctx.note('multi_digit')
        ctx.seen((kind, p, str(job[2])), bool(clip(p)), '%s: %s' % (w, x))
        ctx.note('forth')
        if not ctx.check('raised' not in x, '%s raised %s' % (w, x.get('raised'))):
            return
        ctx.check(x['in_basis'], '%s: not a Schur function of the conversion basis' % w)
        ctx.check(x['support'] == [[clip(p), '1']], '%s: the SageMath object is %s' % (w, x['support']))
        ctx.check(clip(x['back']) == clip(p) and x['back_type'] == 'Schur', '%s gives %s %s' % (w, x['back_type'], x['back']))
        ctx.check(ex.parse(x['back_text']) == ex.P.var(('S', tuple(clip(p)))), '%s prints %s' % (w, x['back_text']))
        ctx.check(x['equal'] and x['hash'], '%s: the result is not equal to Schur(%s)' % (w, x['back']))
        ctx.check(x['unchanged'] == pt.S(p), '%s changed the class to %s' % (w, x['unchanged']))
    elif kind == 'back':
        p = job[1]
        w = 'the SageMath Schur function of %s to Schur and back' % p
        ctx.seen((kind, p), bool(p), '%s: %s' % (w, x))
        ctx.note('back')
        if not ctx.check('raised' not in x, '%s raised %s' % (w, x.get('raised'))):
            return
        ctx.check(x['back'] == p, '%s: the Schur object has partition %s' % (w, x['back']))
        ctx.check(x['same'] and x['support'] == [[p, '1']], '%s gives %s' % (w, x['support']))
        ctx.check(x['untouched'], '%s changed the SageMath object' % w)
    else:
        ctx.seen((kind,) + tuple(map(str, job[1:])), True, '%s: %s' % (w, x))
        ctx.note('refused')
        ctx.check(x.get('got') == 'ValueError', 'converting the %s function of %s gives %s, expected ValueError' % (job[1], job[2], x))
