"""History independence: every call of a long history against the same call in a pristine process.

Workers never call the library themselves: each baseline call and each history runs in its own fork."""
import contextlib
import io
import random

import script
import spaces as S

RULE = ('one observation = one call made inside a history (mixed spaces, shared/fresh/cloned instances, repeated, after failing '
        'calls, after the caller changed lists) compared with the same call in a pristine process; arguments are compared before '
        'and after the call and all earlier results are printed again at the end; distinct = distinct (history, position, call)')
MIN = {'quick': 2000, 'thorough': 20000}
MUST_SEE = ('calls_in_history', 'repeated', 'failing_calls', 'mutated_lists', 'cloned_instances', 'results_reprinted', 'distinct_histories', 'neighbour_calls')
NO_MEM_LIMIT = True


def units(tier, rng):
    n = 90 if tier == 'quick' else 900
    return [('history', i) for i in range(n)]


def snapshot(x):
    if isinstance(x, list):
        return repr(x)
    if isinstance(x, int):
        return x
    return str(x) + (repr(getattr(x, 'p', '')) if hasattr(x, 'p') else '')


def spoil(rng, r):
    """what a careless caller does with lists it was given"""
    import schubertpy as api
    n = 0
    if isinstance(r, list):
        for s in list(r):
            if isinstance(s, api.Schur):
                p = s.partition()
                if isinstance(p, list):
                    p.append(7)
                    p[:1] = [9, 9]
                    n += 1
            elif isinstance(s, tuple) and len(s) == 2 and isinstance(s[1], list):
                s[1].append(3)
                n += 1
        r.reverse()
        del r[1:]
        r.append('x')
        n += 1
    elif isinstance(r, api.Schur):
        p = r.partition()
        if isinstance(p, list):
            p.append(5)
            n += 1
    return n


def play(calls, seed):
    """runs in a child; returns (texts, problems, counters)"""
    rng = random.Random(seed)
    inst = {}
    kept = []
    texts, problems, cnt = [], [], {}

    def note(k, n=1):
        cnt[k] = cnt.get(k, 0) + n
    with contextlib.redirect_stdout(io.StringIO()):
        for call in calls:
            key = call[0]
            how = rng.random()
            try:
                if how < 0.55:
                    g = inst.get(key)
                    if g is None:
                        g = inst[key] = S.sp(key).make()
                    note('shared_instances')
                elif how < 0.8:
                    g = S.sp(key).make()
                    inst.setdefault(key, g)
                    note('fresh_instances')
                else:
                    g = (inst.get(key) or S.sp(key).make()).clone()
                    if rng.random() < 0.5:
                        inst[key] = g
                    note('cloned_instances')
            except Exception as e:
                problems.append('%s %s%s after %d calls raises %r' % ('constructing' if how < 0.8 else 'cloning', key[0], key[1:], len(texts), e))
                g = inst[key] = S.sp(key).make()
            if rng.random() < 0.15:
                bad = script.gen_bad(rng, key)
                script.outcome(g, bad)
                note('failing_calls')
            try:
                args = [script.build(a) for a in call[2:]]
            except Exception as e:
                texts.append('EXC ' + type(e).__name__)
                continue
            before = [snapshot(a) for a in args]
            r, t = script.outcome(g, call, args)
            texts.append(t)
            after = [snapshot(a) for a in args]
            if before != after:
                problems.append('%s changed its arguments from %s to %s' % (script.show(call), before, after))
            if r is not None and rng.random() < 0.5 and isinstance(r, (list,)) or (r is not None and rng.random() < 0.2 and hasattr(r, 'partition')):
                note('mutated_lists', spoil(rng, r))
            elif r is not None and not isinstance(r, list) and not t.startswith('['):
                kept.append((call, r, str(r)))
            for a in args:
                if isinstance(a, list) and rng.random() < 0.3:
                    a.append(11)
                    note('mutated_lists')
        for call, r, t in kept:
            note('results_reprinted')
            if str(r) != t:
                problems.append('the result of %s was %s and later prints as %s' % (script.show(call), t[:300], str(r)[:300]))
    return texts, problems, cnt


def history(ctx, i):
    rng = ctx.rng
    fam = rng.choice(script.FAMILIES) if i % 3 else rng.sample(script.SMALL, 4)
    base = [script.gen(rng, rng.choice(fam)) for _ in range(18 if ctx.quick else 24)]
    # the same arguments in sibling spaces: what a cache keyed by too little would confuse
    for c in rng.sample(base, 6):
        key = rng.choice(fam)
        if key != c[0] and c[1] in ('pieri', 'qpieri', 'mult', 'qmult', 'giambelli', 'qgiambelli', 'toS', 'qtoS', 'dualize', 'part2index'):
            m = S.sp(key).model
            if c[1] in ('pieri', 'qpieri') and c[2][1] not in m.specials():
                continue
            import judge
            try:
                for a in c[2:]:
                    if a[0] == 'text' or a[0] in ('lc', 'sym'):
                        for t in script.ex.parse(a[1]).d:
                            for v, e in t:
                                if isinstance(v, tuple) and not judge.in_basis(m, v[1]):
                                    raise ValueError
                                if v == 'q' and m.nq == 2 or v in ('q1', 'q2') and m.nq == 1:
                                    raise ValueError
                    elif a[0] in ('list', 'schur') and not judge.in_basis(m, tuple(a[1])):
                        raise ValueError
            except ValueError:
                continue
            base.append((key,) + c[1:])
            ctx.note('sibling_calls')
    # nearly the same calls: what a cache keyed by a part of the argument would confuse
    for c in rng.sample(base, 10):
        c = script.neighbour(rng, c)
        if c is not None:
            base.append(c)
            ctx.note('neighbour_calls')
    calls = list(base) + [rng.choice(base) for _ in range(len(base))]
    rng.shuffle(calls)
    for _ in range(8):
        # and directly one after the other
        j = rng.randrange(len(calls))
        c = script.neighbour(rng, calls[j])
        if c is not None:
            calls.insert(j + rng.randint(0, 1), c)
            ctx.note('neighbour_calls')
    for key in rng.sample(fam, min(3, len(fam))) + [rng.choice(fam) for _ in range(3)]:
        c = script.gen(rng, key, ops=('expansion', 'expansion', 'draw', 'arith'))
        j = rng.randrange(len(calls))
        n = script.neighbour(rng, c)
        calls[j:j] = [c] + ([n, script.neighbour(rng, n)] if n else [])
    memo = {}
    ok, v = script.in_child(play, calls, rng.random(), cpu=200, wall=500)
    if ok is None:
        raise RuntimeError(v)
    if not ok:
        ctx.fail('a history of %d calls: %s' % (len(calls), v), calls='; '.join(map(script.show, calls)))
        return
    texts, problems, cnt = v
    for k, n in cnt.items():
        ctx.note(k, n)
    ctx.note('distinct_histories')
    for p in problems:
        ctx.fail(p)
    seen = set()
    for pos, (c, t) in enumerate(zip(calls, texts)):
        b = script.baseline(ctx, c, memo)
        ctx.note('calls_in_history')
        if repr(c) in seen:
            ctx.note('repeated')
        seen.add(repr(c))
        ctx.seen((i, pos, c), not t.startswith('EXC'), '%s after %d other calls -> %s' % (script.show(c), pos, t))
        if not script.same(t, b):
            ctx.fail('%s gives %s after %d other calls, but %s in a fresh process' % (script.show(c), t[:600], pos, b[:600]),
                     history='; '.join(map(script.show, calls[:pos])))
