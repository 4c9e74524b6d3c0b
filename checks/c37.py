"""Copies: copy.copy, copy.deepcopy and pickling (in this process, and sent to a newly started interpreter) of spaces and values.

The other interpreter (lib/copy_prog.py) only unpickles, prints and computes; the comparison is made here."""
import contextlib
import copy
import io
import os
import pickle
import subprocess
import sys

import expr as ex
import script
import spaces as S
import target

RULE = ('one observation = one copy of a space or value (copy, deepcopy, a pickle of every protocol, a pickle read by another interpreter) compared with its '
        'original: kind, printed form, equality and hash where the kind has one, and what it computes; non-trivial = a space, or a value that is '
        'not empty; distinct = distinct (original, way of copying, what was asked)')
MIN = {'quick': 3500, 'thorough': 20000}
MUST_SEE = ('space', 'Schur', 'LinearCombination', 'Partition', 'MultTable', 'QMultTable', 'copy', 'deepcopy', 'pickle', 'other_interpreter', 'nested', 'after_use',
            'computed_by_copy', 'independent')
PROG = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'lib', 'copy_prog.py')
NO_MEM_LIMIT = True
OPS = ('pieri', 'qpieri', 'mult', 'qmult', 'toS', 'qtoS', 'giambelli', 'qgiambelli', 'act', 'qact', 'dualize', 'type_swap', 'miami_swap', 'part2index', 'index2part',
       'qmult_rh', 'part2pair', 'pair2part', 'schub_type', 'classes', 'generators', 'data', 'str')


def units(tier, rng):
    return [('copies', i) for i in range(120 if tier == 'quick' else 800)] + [('remote', i) for i in range(10 if tier == 'quick' else 60)]


def ways(rng):
    w = [('copy', copy.copy), ('deepcopy', copy.deepcopy)]
    p = rng.randint(2, pickle.HIGHEST_PROTOCOL)
    w.append(('pickle', lambda x: pickle.loads(pickle.dumps(x, p))))
    w.append(('pickle', lambda x: pickle.loads(pickle.dumps(x))))
    return w


def gen_call(rng, key):
    while True:
        c = script.gen(rng, key, heavy=False)
        if c[1] in OPS:
            return c


def describe(x):
    """what can be seen of a value from outside"""
    import schubertpy as api
    out = [type(x).__name__]
    if isinstance(x, (api.MultTable, api.QMultTable)):
        out += [str([str(c) for c in x.df.index]), str([str(c) for c in x.df.columns]), str([[str(c) for c in r] for r in x.to_matrix()]), str(x)]
        return out
    out += [str(x), repr(x) if not isinstance(x, (api.Grassmannian, api.IsotropicGrassmannian, api.OrthogonalGrassmannian)) else '']
    if isinstance(x, api.Schur):
        out += [str(x.partition()), str(hash(x) == hash(api.Schur(list(x.partition())))), x.latex(), str(x.symbol())]
    elif isinstance(x, api.LinearCombination):
        out += [str(x.expr), str(len(x)), str(x + x), str(x.is_valid())]
    elif isinstance(x, api.Partition):
        out += [str(list(x.partition)), str(x.is_in_range(2, 3)), str(x.remove_rim_hooks(3, (2, 3)))]
    elif isinstance(x, (api.Grassmannian, api.IsotropicGrassmannian, api.OrthogonalGrassmannian)):
        out += [str(x.degree_q()), str(list(x.get_type_data())), str(x.point_class())]
    return out


def same_desc(a, b):
    return len(a) == len(b) and all(x == y or script.same(x, y) for x, y in zip(a, b))


def value(ctx, rng, key):
    import schubertpy as api
    sp = S.sp(key)
    kind = rng.choice(['Schur', 'Schur', 'LinearCombination', 'LinearCombination', 'LinearCombination', 'Partition', 'result', 'result', 'table'])
    if kind == 'Schur' and rng.random() < 0.4:
        # far outside the space: many parts, large parts, padding
        p = sorted((rng.randint(1, rng.choice([3, 15, 200])) for _ in range(rng.randint(1, rng.choice([4, 12, 30])))), reverse=True)
        return api.Schur(p + [0] * rng.choice([0, 0, 1, 2]))
    if kind == 'Schur':
        return api.Schur(list(S.random_class(rng, sp.model)))
    if kind == 'LinearCombination' and rng.random() < 0.1:
        import polytext as pt
        return api.LinearCombination(' + '.join('%d*q^%d*%s' % (rng.choice([1, 3, -7, 10 ** 20]), rng.randint(0, 12), pt.S(pt.part(rng, pairs=False)))
                                                for _ in range(rng.choice([40, 150, 400]))))
    if kind == 'LinearCombination':
        return api.LinearCombination(S.spell(rng, S.random_element(rng, sp.model, 4, q=True, frac=rng.random() < 0.4), sp.model.nq))
    if kind == 'Partition':
        return api.Partition(sorted((rng.randint(0, 12) for _ in range(rng.randint(0, 6))), reverse=True))
    if kind == 'table' and sp.size <= 6:
        return rng.choice([api.MultTable, api.QMultTable])(sp.make())
    g = sp.make()
    a, b = S.random_class(rng, sp.model), S.random_class(rng, sp.model)
    return g.qmult(list(a), list(b)) if sp.size <= 30 else g.dualize(list(a))


def agree(ctx, w, how, x, y):
    import schubertpy as api
    ctx.note(how)
    if not ctx.check(type(x) is type(y), '%s is a %s, not a %s' % (w, type(y).__name__, type(x).__name__)):
        return False
    ok, dx = ctx.call('looking at the original of %s' % w, describe, x)
    ok2, dy = ctx.call('looking at %s' % w, describe, y)
    if ok and ok2:
        ctx.check(same_desc(dx, dy), '%s shows %s, its original %s' % (w, str(dy)[:600], str(dx)[:600]))
    if isinstance(x, api.Schur):
        ctx.check(x == y and not (x != y) and hash(x) == hash(y) and len({x, y}) == 1 and not x < y and not y < x, '%s is not equal to its original' % w)
    return ok and ok2


def copies(ctx, i):
    import schubertpy as api
    rng = ctx.rng
    key = rng.choice(script.SMALL)
    sp = S.sp(key)
    # spaces, before and after they have computed something
    for used in (False, True):
        g = sp.make()
        calls = [gen_call(rng, key) for _ in range(6)]
        if used:
            for c in calls[:3]:
                script.outcome(g, c)
            ctx.note('after_use')
        for how, f in ways(rng):
            w = 'a %s of %s%s' % (how, sp, ' after use' if used else '')
            ok, h = ctx.call(w, f, g)
            if not ok:
                continue
            ctx.note('space')
            ctx.check(h is not g, '%s is the original itself' % w)
            if not agree(ctx, w, how, g, h):
                continue
            for c in rng.sample(calls, 3):
                with contextlib.redirect_stdout(io.StringIO()):
                    a, b = script.outcome(g, c)[1], script.outcome(h, c)[1]
                    fresh = script.outcome(None, c)[1]
                ctx.seen((key, how, used, c), True, '%s on %s: %s' % (script.show(c), w, b))
                ctx.note('computed_by_copy')
                ctx.check(script.same(a, b) and script.same(b, fresh), '%s gives %s on %s, %s on the original, %s on a new space' % (script.show(c), b[:300], w, a[:300], fresh[:300]))
            if how != 'copy' and rng.random() < 0.5:
                # a copy of a copy, and the copy when the original is gone
                ok, k = ctx.call('a %s of %s' % (how, w), f, h)
                if ok:
                    agree(ctx, 'a %s of %s' % (how, w), how, g, k)
    for _ in range(8):
        ok, x = ctx.call('a value of %s' % sp, value, ctx, rng, rng.choice([key, rng.choice(script.SMALL)]))
        if not ok:
            continue
        ctx.note(type(x).__name__)
        for how, f in ways(rng):
            w = 'a %s of the %s %s' % (how, type(x).__name__, str(x).replace('\n', ' / ')[:200])
            before = describe(x)
            ok, y = ctx.call(w, f, x)
            if not ok:
                continue
            if agree(ctx, w, how, x, y):
                ctx.seen((how, type(x).__name__, str(before)), str(x) not in ('[]', '0'), w)
            # what is done to one does not show in the other
            if how != 'copy':
                for z in (y,):
                    p = z.partition() if isinstance(z, api.Schur) else z.partition if isinstance(z, api.Partition) else None
                    if isinstance(p, list):
                        p.append(0)
                        p[:0] = [99]
                    if isinstance(z, api.LinearCombination):
                        z += 1
                ctx.note('independent')
                ctx.check(same_desc(describe(x), before), '%s: changing the copy changed the original' % w)
    # containers
    xs = [value(ctx, rng, key) for _ in range(4)]
    box = {'list': xs, 'tuple': tuple(xs), 'space': sp.make(), 'set': {x for x in xs if isinstance(x, api.Schur)}}
    for how, f in ways(rng)[1:]:
        ok, b2 = ctx.call('a %s of a container' % how, f, box)
        if ok:
            ctx.note('nested')
            for x, y in zip(box['list'] + list(box['tuple']), b2['list'] + list(b2['tuple'])):
                agree(ctx, 'a %s inside a container of %s' % (how, str(x)[:100]), how, x, y)
            ctx.check(b2['set'] == box['set'], 'a %s of a set of classes %s is %s' % (how, box['set'], b2['set']))
            agree(ctx, 'a %s inside a container of %s' % (how, sp), how, box['space'], b2['space'])


def remote(ctx, i):
    """pickles made here, read by another interpreter, and the answers sent back as objects"""
    import schubertpy as api
    rng = ctx.rng
    jobs = []
    for key in rng.sample(script.SMALL, 6):
        g = S.sp(key).make()
        calls = [gen_call(rng, key) for _ in range(8)]
        if rng.random() < 0.7:
            for c in calls[:4]:
                script.outcome(g, c)
        jobs.append((g, calls, [value(ctx, rng, key) for _ in range(4)]))
    data = pickle.dumps((target.REPO, [(pickle.dumps(g), calls, pickle.dumps(vs)) for g, calls, vs in jobs]))
    env = {k: v for k, v in os.environ.items() if not k.startswith('PYTHON')}
    env.update(PYTHONHASHSEED=str(rng.randint(1, 10 ** 6)), VP_REPO=target.REPO)
    r = subprocess.run([sys.executable, '-B', PROG], input=data, stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=env, timeout=600)
    if r.returncode != 0 or not r.stdout:
        if b'VPCOPY' in r.stderr:
            ctx.fail('another interpreter could not use the pickles: ' + r.stderr.decode(errors='replace')[-1200:])
        else:
            raise RuntimeError('the other interpreter ended with %d: %s' % (r.returncode, r.stderr.decode(errors='replace')[-800:]))
        return
    res = pickle.loads(r.stdout)
    for (g, calls, vs), (desc, outs, vdesc, back) in zip(jobs, res):
        key = calls[0][0]
        w = '%s sent to another interpreter' % S.sp(key)
        ctx.check(same_desc(desc, describe(g)), '%s shows %s there, %s here' % (w, desc, describe(g)))
        for c, t in zip(calls, outs):
            here = script.outcome(None, c)[1]
            ctx.note('other_interpreter')
            ctx.seen((i, 'remote', c), True, '%s in another interpreter: %s' % (script.show(c), t))
            ctx.check(script.same(t, here), '%s gives %s when the space was sent to another interpreter, %s here' % (script.show(c), t[:300], here[:300]))
        ok, vb = ctx.call('values sent back by another interpreter', pickle.loads, back)
        for x, d in zip(vs, vdesc):
            ctx.check(same_desc(d, describe(x)), 'the %s %s shows %s in another interpreter' % (type(x).__name__, str(x)[:100], str(d)[:400]))
        if ok:
            for x, y in zip(vs, vb):
                agree(ctx, 'the %s %s sent to another interpreter and back' % (type(x).__name__, str(x)[:100]), 'other_interpreter', x, y)
