"""Meaningless requests are refused, and histories that contain refusals go on normally.

Every history runs in its own fork; the normal calls in it are compared with the same call in a process in which nothing
happened before."""
import contextlib
import io

import expr as ex
import refmodel as rm
import script
import spaces as S
import work

RULE = ('one observation = one meaningless request that was made (an exception is required) or one normal call made after such failures, '
        'compared with the same call in a pristine process; distinct = distinct (history, position, call)')
MIN = {'quick': 2500, 'thorough': 25000}
KINDS = ('pair_conversion', 'schub_type', 'act', 'qact', 'polynomial', 'partition', 'combination_list', 'combination_object',
         'operation_list', 'operation_object')
MUST_SEE = tuple('refused_' + k for k in KINDS) + ('normal_after_failure', 'same_instance', 'new_instance', 'noise', 'failing_streaks', 'arguments_compared')
ASSUMES = ['normal calls are deterministic', 'a list of ints in another order than non-increasing, with a negative entry or with an entry that is not a number is not a partition; '
           'tuples, booleans and nested lists are not judged']
SPACES = script.SMALL + [('Gr', 0, 3), ('Gr', 3, 3), ('Gr', 4, 8), ('IG', 5, 10), ('OG', 5, 11), ('OG', 5, 10), ('OG', 1, 4), ('OG', 2, 4), ('IG', 0, 4), ('OG', 0, 5)]


def units(tier, rng):
    n = 200 if tier == 'quick' else 1100
    out = [('history', i) for i in range(n)] + [('lists', i) for i in range(16 if tier == 'quick' else 160)]
    rng.shuffle(out)
    return out


def bad_list(rng):
    r = rng.random()
    n = rng.randint(2, 5)
    if r < 0.45:
        p = sorted((rng.randint(0, 6) for _ in range(n)), reverse=True)
        i = rng.randrange(n - 1)
        p[i + 1] = p[i] + rng.randint(1, 3)
        return p
    p = sorted((rng.randint(1, 6) for _ in range(n - 1)), reverse=True)
    if r < 0.7:
        return p + [-rng.randint(1, 4)]
    if r < 0.75:
        return [-1]
    i = rng.randrange(len(p) + 1)
    return p[:i] + [rng.choice(['a', None, 2.5, '1', {}])] + p[i:]


OBJECTS = {'None': lambda: None, 'dict': dict, 'set': lambda: {1}, 'object': object, 'bytes': lambda: b'S[1]', 'function': lambda: len, 'class': lambda: Exception,
           'file': io.StringIO, 'generator': lambda: (x for x in [2, 1]), 'range': lambda: range(3)}


def two_parts(rng, m):
    """a class with two or more non-zero parts"""
    for _ in range(20):
        p = list(S.random_class(rng, m))
        if len([x for x in p if x]) >= 2:
            return p
    return sorted((rng.randint(1, 4) for _ in range(rng.randint(2, 4))), reverse=True)


def gen_refused(rng, key):
    """-> (kind, key, request as data)"""
    m = S.sp(key).model
    kind = rng.choice(KINDS)
    if kind == 'pair_conversion':
        keys = [k for k in SPACES if k[0] == 'Gr']
        key = key if key[0] == 'Gr' else rng.choice(keys)
        m = S.sp(key).model
        lam = S.random_class(rng, m)
        op = rng.choice(['part2pair', 'pair2part'])
        a = rng.choice([('text', ex.S(lam)), ('list', list(lam)), ('lc', ex.S(lam)), ('schur', list(lam)), ('list', [list(lam), []]), ('text', 'S[[%s],[]]' % ','.join(map(str, lam))),
                        ('text', ex.show(S.random_element(rng, m, 3), m.nq)), ('text', '0')])
        return kind, key, (op, a)
    if kind == 'schub_type':
        if m.type == 'D':
            key = rng.choice([k for k in SPACES if S.sp(k).model.type != 'D'])
            m = S.sp(key).model
        lam = list(S.random_class(rng, m))
        return kind, key, ('schub_type', rng.choice([('list', lam), ('schur', lam), ('list', [])]))
    if kind in ('act', 'qact'):
        bad = ex.S(two_parts(rng, m))
        e = rng.choice(['', '', '^2', '^3'])
        t = bad + e
        for _ in range(rng.randint(0, 2)):
            sp_ = m.specials()
            if sp_ and rng.random() < 0.6:
                f = ex.S(m.special(rng.choice(sp_)))
                t = rng.choice(['%s*%s', '%s + %s', '%s - %s']) % ((t, f) if rng.random() < 0.5 else (f, t))
            else:
                t = rng.choice(['2*(%s)', '%s + 3', '%s*' + S.qname(0, m.nq), '(%s)/3']) % t
        el = S.random_element(rng, m, 2, q=True)
        return kind, key, (kind, rng.choice([('text', t), ('lc', t), ('sym', t)]), script.form(rng, el, m.nq))
    if kind == 'polynomial':
        return kind, key, ('poly', ('list', [x for x in S.random_class(rng, m) if x][:3]), ('int', rng.choice([0, -1, -2, -7])))
    if kind in ('partition', 'combination_list'):
        return kind, key, (kind, ('list', bad_list(rng)))
    if kind == 'combination_object':
        return kind, key, (kind, ('object', rng.choice(sorted(OBJECTS))))
    ops = ['mult1', 'mult2', 'qmult1', 'qmult2', 'act', 'qact', 'act1', 'giambelli', 'qgiambelli', 'toS', 'qtoS', 'dualize', 'miami_swap', 'part2index', 'type_swap']
    if m.specials():
        ops += ['pieri', 'qpieri', 'pieri', 'qpieri']
    if kind == 'operation_list':
        if key[0] != 'Gr':
            ops += ['part2pair']
        if m.type == 'D':
            ops += ['schub_type', 'schub_type']
        a = ('list', bad_list(rng))
    else:
        a = ('object', rng.choice([x for x in sorted(OBJECTS) if x != 'generator']))
        ops = [o for o in ops if o not in ('type_swap',)] + ['type_swap']
    op = rng.choice(ops)
    if key[0] == 'Gr':
        ops += ['qmult_rh1', 'qmult_rh2', 'qmult_rh2']
    good = ('text', ex.S(S.random_class(rng, m)))
    sp1 = ('text', ex.S(m.special(rng.choice(m.specials())))) if m.specials() else ('text', '1')
    if op[-1] == '1':
        return kind, key, (op[:-1], a, good)
    if op[-1] == '2':
        return kind, key, (op[:-1], good, a)
    if op in ('act', 'qact'):
        return kind, key, (op, sp1, a)
    if op in ('pieri', 'qpieri'):
        return kind, key, (op, ('int', rng.choice(m.specials())), a)
    if op == 'type_swap':
        return kind, key, (op, a, ('int', m.k))
    return kind, key, (op, a)


def build(a):
    return OBJECTS[a[1]]() if a[0] == 'object' else script.build(a)


def look(x):
    return str(x) if type(x).__name__ != 'generator' else ''


def request(g, req):
    """make the request -> (refused, shown answer or exception, arguments unchanged)"""
    import schubertpy as api
    op = req[0]
    try:
        args = [build(a) for a in req[1:]]
    except Exception as e:      # building the arguments is itself a normal call and must work
        return None, 'building the arguments raised %r' % e, True
    before = [look(a) for a in args]
    try:
        if op == 'poly':
            r = api.Schur(args[0]).to_polinomial_str(args[1])
        elif op == 'partition':
            r = api.Partition(args[0])
        elif op in ('combination_list', 'combination_object'):
            r = api.LinearCombination(args[0])
        else:
            r = getattr(g, op)(*args)
        out = (False, str(r))
    except Exception as e:
        out = (True, type(e).__name__)
    return out + ([look(a) for a in args] == before,)


NOISE = ['S[2,', 'S[1]+', ')', 'S[1]**', '[', 'S[1] S[2]', '', 'S[1]]']


def noise(g, i, j, api):
    """failing or useless calls whose outcome is not specified"""
    t = NOISE[i % len(NOISE)]
    x = api.LinearCombination('S[1]')
    fs = [lambda: api.LinearCombination(t), lambda: g.qmult(t, 'S[1]'), lambda: g.qtoS(t), lambda: x + None, lambda: x * 'S[1]', lambda: x - {}, lambda: x ** None,
          lambda: api.Schur('S[1'), lambda: api.Schur(t), lambda: api.Grassmannian(5, 2), lambda: api.OrthogonalGrassmannian(9, 8),
          lambda: api.IsotropicGrassmannian(1, 5), lambda: api.Grassmannian('2', 4), lambda: x.schur_expansion(1, 2, 3),
          lambda: (x * x).schur_expansion(), lambda: x.is_operator('?'), lambda: api.Partition([2, 1]).is_in_range(-1, 2), lambda: g.qpieri(1), lambda: g.dualize(), lambda: g.act()]
    # every operation of the instance with a text that is none, an index or a class that is not in the space
    far = api.Schur([40, 1])
    for op in ('mult', 'qmult', 'qmult_rh'):
        if hasattr(g, op):
            fs += [lambda op=op: getattr(g, op)('S[1]', t), lambda op=op: getattr(g, op)(t, 'S[1]'), lambda op=op: getattr(g, op)('S[1]', None)]
    for op in ('giambelli', 'qgiambelli', 'toS', 'qtoS', 'dualize', 'part2index', 'index2part', 'part2pair', 'pair2part', 'miami_swap'):
        fs += [lambda op=op: getattr(g, op)(t), lambda op=op: getattr(g, op)(None)]
    fs += [lambda: g.act('S[1]', t), lambda: g.qact('S[1]', t), lambda: g.act(t, 'S[1]'), lambda: g.qact(t, 'S[1]'), lambda: g.pieri(1, t), lambda: g.qpieri(1, t),
           lambda: g.pieri('x', 'S[1]'), lambda: g.qpieri(None, 'S[1]'), lambda: g.qpieri([1], 'S[1]'), lambda: g.dualize(far), lambda: g.part2index(far),
           lambda: g.type_swap(t, 1), lambda: g.schub_type(t), lambda: x.apply(lambda p: 1 // 0), lambda: x.apply2(lambda p: 1 // 0), lambda: x.apply2(lambda p: None),
           lambda: api.Schur([2, 1]).to_polinomial_str('x'), lambda: api.Partition([2, 1]).remove_rim_hooks('x', (1, 1)), lambda: api.Partition([2, 1]).remove_rim_hooks(2, None)]
    try:
        fs[j % len(fs)]()
    except Exception:
        pass


def play(steps):
    """run in a child -> [(refused, text, unchanged) or text]"""
    import schubertpy as api
    insts = {}
    out = []

    def inst(key, fresh):
        if fresh or key not in insts:
            insts[key] = S.sp(key).make()
        return insts[key]
    with contextlib.redirect_stdout(io.StringIO()):
        for s in steps:
            if s[0] == 'normal':
                out.append(script.outcome(inst(s[1][0], s[2]), s[1])[1])
            elif s[0] == 'noise':
                noise(inst(s[1], False), s[2], s[3], api)
                out.append(None)
            else:
                out.append(request(inst(s[2], s[4]), s[3]))
    return out


def history(ctx, i):
    rng = ctx.rng
    fam = rng.choice(script.FAMILIES) if rng.random() < 0.5 else [rng.choice(SPACES) for _ in range(rng.randint(1, 3))]
    pool = []
    for _ in range(5):
        key = rng.choice(fam)
        pool.append(script.gen(rng, key, heavy=False))
    steps = []
    n = 36 if ctx.quick else 48
    streak = 0
    for _ in range(n):
        r = rng.random()
        if streak:
            streak -= 1
            r = 0.3
        if r < 0.55:
            kind, key, req = gen_refused(rng, rng.choice(fam))
            if not streak and rng.random() < 0.08:
                streak = rng.randint(4, 10)
                ctx.note('failing_streaks')
            for _ in range(rng.choice([1, 1, 2])):
                steps.append(('bad', kind, key, req, rng.random() < 0.15))
        elif r < 0.65:
            steps.append(('noise', rng.choice(fam), rng.randrange(8), rng.randrange(120)))
        else:
            fresh = rng.random() < 0.25
            steps.append(('normal', rng.choice(pool), fresh))
    for c in pool:
        steps.append(('normal', c, False))
    run(ctx, steps, i)


def run(ctx, steps, i):
    memo = {}
    for c in {repr(s[1]): s[1] for s in steps if s[0] == 'normal'}.values():
        script.baseline(ctx, c, memo)
    ok, out = script.in_child(play, steps, cpu=300, wall=600)
    if ok is None:
        raise RuntimeError(out)
    if not ok:
        ctx.fail('a history with refused requests: %s' % out, steps=[text(s) for s in steps])
        return
    failed = 0
    for j, (s, o) in enumerate(zip(steps, out)):
        if s[0] == 'noise':
            failed += 1
            ctx.note('noise')
            continue
        if s[0] == 'normal':
            want = memo[repr(s[1])]
            ctx.check(script.same(o, want), '%s after %d failures: %s, in a fresh process %s' % (script.show(s[1]), failed, str(o)[:400], want[:400]),
                      before=[text(x) for x in steps[max(0, j - 12):j]])
            if failed:
                ctx.note('normal_after_failure')
            ctx.note('new_instance' if s[2] else 'same_instance')
            ctx.seen((i, j, repr(s[1])), failed > 0, '%s after %d failures = %s' % (script.show(s[1]), failed, str(o)[:80]))
            continue
        w = text(s)
        refused, t, unchanged = o
        if refused is None:
            ctx.fail('%s: %s' % (w, t))
            continue
        ctx.check(refused, '%s is answered: %s' % (w, t[:300]), before=[text(x) for x in steps[max(0, j - 6):j]])
        ctx.check(unchanged, '%s changed its arguments' % w)
        ctx.note('arguments_compared')
        if refused:
            failed += 1
            ctx.note('refused_' + s[1])
        ctx.seen((i, j, w), True, '%s: %s' % (w, t))


def text(s):
    if s[0] == 'bad':
        return '%s(%d,%d) %s(%s)' % (s[2] + (s[3][0], ', '.join('%s as %s' % (a[1], a[0]) for a in s[3][1:])))
    if s[0] == 'noise':
        return 'noise %d %d' % (s[2], s[3])
    return script.show(s[1])


def lists(ctx, i):
    """validity of lists, decided for many lists at once"""
    import schubertpy as api
    rng = ctx.rng
    for _ in range(60):
        p = [rng.randint(0, 3) for _ in range(rng.randint(0, 5))] if rng.random() < 0.6 else bad_list(rng)
        if rng.random() < 0.1:
            p = [rng.randint(-1, 2) for _ in range(rng.randint(1, 4))]
        valid = all(isinstance(x, int) for x in p) and all(x >= 0 for x in p) and p == sorted(p, reverse=True)
        for name, fn in (('Partition', api.Partition), ('LinearCombination', api.LinearCombination)):
            q = list(p)
            try:
                r = fn(q)
                ok = True
            except Exception as e:
                r, ok = e, False
            ctx.check(ok == valid, '%s(%s) %s: %r' % (name, p, 'is accepted' if ok else 'is refused', r))
            ctx.check(q == p, '%s(%s) changed the list to %s' % (name, p, q))
            if ok and valid and name == 'LinearCombination':
                ctx.check(str(r) == ex.S(p), 'LinearCombination(%s) = %s' % (p, r))
        ctx.note('valid_lists' if valid else 'invalid_lists')
        ctx.seen(('list', repr(p)), not valid, None)
