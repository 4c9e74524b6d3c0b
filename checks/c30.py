"""check_bijection_with_permutation on generated pairs of result files."""
import os
import shutil
import tempfile

import expr as ex
import polytext as pt
import spaces as S

RULE = ('one observation = one comparison of two generated result files whose row sets are known; non-trivial = at least two rows; '
        'distinct = distinct pair of files')
MIN = {'quick': 1200, 'thorough': 10000}
CHANGES = ('operand', 'swap_operands', 'coefficient', 'sign', 'q_power', 'class', 'drop', 'add', 'swap_results', 'digit_grouping', 'extra_zero', 'other_q', 'one_term', 'column_border', 'operand_spelling')
MUST_SEE = ('equal_pairs', 'different_pairs', 'respelled', 'repeated_rows', 'blank_lines', 'permuted', 'both_empty', 'library_results', 'long_results', 'long_operands') + tuple('changed_' + c for c in CHANGES)


def units(tier, rng):
    n = 80 if tier == 'quick' else 800
    out = [('files', i) for i in range(n)] + [('library', i) for i in range(16 if tier == 'quick' else 120)]
    rng.shuffle(out)
    return out


def write(path, rows, rng, ctx=None):
    """rows: [(a, b, text)] -> file with random layout"""
    lines = ['%s;%s;%s' % r for r in rows]
    if rng.random() < 0.5 and lines:
        for _ in range(rng.randint(1, 3)):
            lines.insert(rng.randint(0, len(lines)), '')
        ctx.note('blank_lines')
    nl = rng.choice(['\n', '\n', '\r\n'])
    text = nl.join(lines) + (nl if rng.random() < 0.7 else '')
    with open(path, 'w', newline='') as f:
        f.write(text)
    return text


def respell(rng, el):
    """another way to write the element"""
    r = rng.random()
    t = S.spell(rng, el, 1) if el else rng.choice(['0', 'S[1]-S[1]', '0*q'])
    if r < 0.15:
        t = '(%s)' % t
    elif r < 0.25:
        t = '%s + S[3] - S[3]' % t
    elif r < 0.3:
        t = '2*(%s)/2' % t
    return t


def rand_el(rng, parts, terms=4):
    from fractions import Fraction
    el = {}
    for _ in range(rng.randint(max(1, terms // 2), terms)):
        c = rng.choice([1, 1, 2, 3, -1, 12, 10 ** 12 + 1])
        if rng.random() < 0.1:
            c = Fraction(c, 3)
        el[((rng.choice([0, 0, 1, 2, 11]),), tuple(rng.choice(parts)))] = c
    return el


def compare(ctx, d, rows1, rows2, what, want):
    from schubertpy.csv_bijection import check_bijection_with_permutation as same
    rng = ctx.rng
    f1, f2 = os.path.join(d, 'a.csv'), os.path.join(d, 'b.csv')
    t1, t2 = write(f1, rows1, rng, ctx), write(f2, rows2, rng, ctx)
    for a, b, w in ((f1, f2, what), (f2, f1, what + ' (files exchanged)')):
        ok, r = ctx.call('comparing result files: ' + w, same, a, b)
        if ok:
            ctx.seen((t1, t2, w[-1]), len(rows1) > 1, w)
            ctx.check(r is want or r == want, 'result files (%s) compare as %s, expected %s' % (w, r, want), first=t1, second=t2)
    ctx.note('equal_pairs' if want else 'different_pairs')
    ctx.check(open(f1, newline='').read() == t1 and open(f2, newline='').read() == t2, 'the comparison changed a file')


def equivalent(ctx, rows):
    """rows of the reference [(a, b, el)] written otherwise"""
    rng = ctx.rng
    out = [(a, b, respell(rng, el)) for a, b, el in rows]
    ctx.note('respelled', len(out))
    for r in list(rows):
        if rng.random() < 0.2:
            out.append((r[0], r[1], respell(rng, r[2])))
            ctx.note('repeated_rows')
    if rng.random() < 0.7:
        rng.shuffle(out)
        ctx.note('permuted')
    return out


def key(rows):
    return {(a, b, frozenset(S.P_of(el).d.items())) for a, b, el in rows}


def change(rng, rows, how, parts):
    rows = [(a, b, dict(el)) for a, b, el in rows]
    i = rng.randrange(len(rows))
    a, b, el = rows[i]
    ks = list(el)
    k = rng.choice(ks) if ks else None
    if how == 'operand':
        rows[i] = rng.choice([(pt.S(rng.choice(parts)), b, el), (a, pt.S(rng.choice(parts)), el), (a.replace('S[', 'S[9,') if '[]' not in a else 'S[9]', b, el)])
    elif how == 'operand_spelling':
        # another class that looks much like it: one zero more or less, digits grouped otherwise, an index one off
        t, j = rng.choice([(a, 0), (b, 1)])
        ops = [t.replace('S[', 'S[' + rng.choice('123456789') + (',' if 'S[]' not in t else ''), 1), t[:-1] + ',0]' if not t.endswith('[]') else 'S[0]',
               t.replace(',0]', ']'), t.replace(',', '', 1), t.replace('1', '1,', 1).replace(',,', ',').replace(',]', ',1]'),
               '2*' + t, 'q*' + t, t + '+' + t, t.replace('[0]', '[]')]
        ops = [x for x in ops if x != t]
        u = rng.choice(ops)
        rows[i] = (u, b, el) if j == 0 else (a, u, el)
    elif how == 'swap_operands':
        rows[i] = (b, a, el)
    elif how == 'column_border':
        # the same characters, divided between the two operand columns elsewhere
        t = a + b
        cuts = [j for j in range(1, len(t)) if j != len(a) and (t[j] in 'S+ ' or rng.random() < 0.1)]
        if cuts:
            j = rng.choice(cuts)
            rows[i] = (t[:j], t[j:], el)
    elif how == 'drop':
        del rows[i]
    elif how == 'add':
        rows.insert(rng.randint(0, len(rows)), (pt.S(rng.choice(parts)), pt.S(rng.choice(parts)), rand_el(rng, parts)))
    elif how == 'swap_results':
        j = rng.randrange(len(rows))
        rows[i], rows[j] = (a, b, rows[j][2]), (rows[j][0], rows[j][1], el)
    elif k is None:
        rows[i] = (a, b, {((0,), (1,)): 1})
    elif how == 'coefficient':
        el[k] += rng.choice([1, -1, 10])
    elif how == 'sign':
        el[k] = -el[k]
    elif how == 'q_power':
        c = el.pop(k)
        el[((k[0][0] + rng.choice([1, 2, -k[0][0] or 1]),), k[1])] = c
    elif how == 'class':
        c = el.pop(k)
        el[(k[0], tuple(rng.choice(parts)))] = c
    elif how == 'digit_grouping':
        c = el.pop(k)
        lam = k[1]
        s = ''.join(map(str, lam))
        el[(k[0], (int(s),) if len(lam) > 1 else tuple(int(x) for x in s))] = c
    elif how == 'extra_zero':
        c = el.pop(k)
        el[(k[0], k[1] + (0,))] = c
    elif how == 'one_term':
        if len(el) > 1:
            del el[k]
        else:
            el[((0,), (4, 1))] = 1
    elif how == 'other_q':
        return rows, (i, k)
    rows = [(a, b, {k: c for k, c in el.items() if c}) for a, b, el in rows]
    return rows, None


def files(ctx, i):
    rng = ctx.rng
    d = tempfile.mkdtemp(prefix='c30-')
    try:
        for j in range(6):
            parts = (pt.cousins(rng, 5, False) if rng.random() < 0.4 else [pt.part(rng, big=False) for _ in range(5)]) + [[1, 1], [11], [2, 0], [2]]
            rows = [(pt.S(rng.choice(parts)), pt.S(rng.choice(parts)), rand_el(rng, parts) if rng.random() < 0.9 else {})
                    for _ in range(rng.randint(1, 6))]
            if j == 1:
                # a long result
                many = parts + [[a, b] for a in range(3, 14) for b in range(1, 4)]
                rows[0] = rows[0][:2] + (rand_el(rng, many, 70),)
                ctx.note('long_results')
            if rng.random() < 0.25:
                # operands that are sums themselves
                for n, (a, b, el) in enumerate(rows):
                    c, e = (' + '.join(pt.S(rng.choice(parts)) for _ in range(rng.choice([1, 2, 6, 12]))) for _ in 'ab')
                    rows[n] = (c, e, el)
                ctx.note('long_operands')
            base = [(a, b, respell(rng, el)) for a, b, el in rows]
            if j == 0 and i % 4 == 0:
                compare(ctx, d, [], [], 'no rows', True)
                compare(ctx, d, [], base, 'an empty file against some rows', False)
                ctx.note('both_empty')
            compare(ctx, d, base, equivalent(ctx, rows), 'the same rows written otherwise', True)
            how = CHANGES[(i * 6 + j) % len(CHANGES)] if rng.random() < 0.5 else rng.choice(CHANGES)
            new, special = change(rng, rows, how, parts)
            if special:
                # the same term with q1 in place of q
                k, term = special
                a, b, el = new[k]
                if not term[0][0]:
                    continue
                rest = {x: c for x, c in el.items() if x != term}
                alt = '%s + (%s)*q1^%d*%s' % (respell(rng, rest) if rest else '0', el[term], term[0][0], pt.S(term[1]))
                rows2 = [(x, y, respell(rng, e)) for n, (x, y, e) in enumerate(new) if n != k] + [(a, b, alt)]
                if sum(1 for r in key(rows)) != len(key([r for n, r in enumerate(rows) if n != k])) + 1:
                    continue
                ctx.note('changed_other_q')
                compare(ctx, d, base, rows2, 'one q replaced by q1', False)
                continue
            want = key(new) == key(rows)
            if want:
                continue
            ctx.note('changed_' + how)
            out = equivalent(ctx, new) if rng.random() < 0.5 else [(a, b, respell(rng, el)) for a, b, el in new]
            compare(ctx, d, base, out, 'one change: ' + how, False)
    finally:
        shutil.rmtree(d)


def library(ctx, i):
    """the library's own results as a file against respelled ones, and with one product wrong"""
    rng = ctx.rng
    key_ = rng.choice([('Gr', 2, 4), ('Gr', 2, 5), ('IG', 2, 4), ('OG', 2, 5), ('IG', 2, 6), ('OG', 2, 8), ('OG', 2, 7)])
    sp = S.sp(key_)
    g = sp.make()
    m = sp.model
    d = tempfile.mkdtemp(prefix='c30-')
    try:
        rows, plain = [], []
        for _ in range(8):
            a, b = S.random_class(rng, m), S.random_class(rng, m)
            r = g.qmult(ex.S(a), ex.S(b))
            rows.append((ex.S(a), ex.S(b), ex.element(str(r), m.nq)))
            plain.append((ex.S(a), ex.S(b), str(r)))
        ctx.note('library_results')
        compare(ctx, d, plain, equivalent(ctx, rows), 'printed products of %s' % sp, True)
        new, special = change(rng, rows, rng.choice(['coefficient', 'drop', 'add', 'q_power', 'sign']), [list(S.random_class(rng, m)) for _ in range(4)])
        if key(new) != key(rows):
            compare(ctx, d, plain, equivalent(ctx, new), 'printed products of %s, one changed' % sp, False)
    finally:
        shutil.rmtree(d)
