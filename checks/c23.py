"""Multiplication tables: labels, entries, matrix form and printing."""
import contextlib
import io

import expr as ex
import refmodel as rm
import spaces as S

RULE = ('one observation = one entry of one table judged against the product of its row and column class (reference model and the '
        'operation itself), in the data frame, the matrix and the printed text; non-trivial = non-zero product; distinct = '
        'distinct (space, quantum, row, column)')
MIN = {'quick': 5000, 'thorough': 40000}
MUST_SEE = ('tables', 'matrix', 'printed', 'printed_default', 'asymmetric_zero', 'q_entries', 'one_class_spaces', 'results_left_alone', 'matrices_spoiled')


def units(tier, rng):
    ks = S.upto(13 if tier == 'quick' else 32, *((6, 8, 9) if tier == 'quick' else (9, 10, 12)))
    out = [('table', k, q) for k in ks for q in (False, True)]
    big = [k for k in S.upto(24, 8, 10, 11) if S.sp(k).size > 13]
    if tier == 'quick':
        out += [('table', k, rng.random() < 0.7) for k in rng.sample(big, 10)]
        wide = [k for k in S.upto(45, 9, 10, 11) if S.sp(k).size > 30]
        out += [('table', k, i < 3) for i, k in enumerate(rng.sample(wide, 4))]
    rng.shuffle(out)
    return out


def printed(text, labels, entries):
    """problem or None: header and rows of the printed text carry labels and entries in order"""
    lines = [l.replace(' ', '') for l in text.splitlines() if l.strip()]
    # the header line, then one line per row (decoration between them is allowed)
    i = 0

    def follows(line, words):
        p = 0
        for w in words:
            j = line.find(w.replace(' ', ''), p)
            if j < 0:
                return False
            p = j + len(w.replace(' ', ''))
        return True
    rows = [(labels, 'the column labels')] + [([labels[r]] + entries[r], 'row %s' % labels[r]) for r in range(len(labels))]
    for words, what in rows:
        while i < len(lines) and not follows(lines[i], words):
            i += 1
        if i >= len(lines):
            return '%s (%s) not found in order' % (what, ' | '.join(words)[:300])
        i += 1
    return None


def table(ctx, key, quantum):
    import pandas as pd
    import schubertpy as api
    sp = S.sp(key)
    m = sp.model
    g = sp.make()
    T = api.QMultTable if quantum else api.MultTable
    name = '%s(%s)' % (T.__name__, sp)
    ok, t = ctx.call(name, T, g)
    if not ok:
        return
    ctx.note('tables')
    cl = [tuple(s.partition()) for s in sp.make().schub_classes()]
    n = len(cl)
    ctx.check(sorted(cl) == sorted(m.basis()), '%s: the classes are listed as %s' % (sp, cl))
    if n == 1:
        ctx.note('one_class_spaces')
    labels = [ex.S(c) for c in cl]
    for axis, ls in (('rows', t.df.index), ('columns', t.df.columns)):
        ctx.check([str(x) for x in ls] == labels, '%s: the %s are labelled %s, expected %s' % (name, axis, [str(x) for x in ls], labels))
    ctx.check(t.df.shape == (n, n), '%s has shape %s, expected %d x %d' % (name, t.df.shape, n, n))
    ok, M = ctx.call(name + '.to_matrix()', t.to_matrix)
    ctx.check(len(M) == n and all(len(r) == n for r in M), '%s.to_matrix() has %d rows of lengths %s' % (name, len(M), {len(r) for r in M}))
    h = sp.make()
    entries = []
    for i in range(n):
        row = []
        for j in range(n):
            want = m.mul1(cl[i], cl[j], quantum)
            got = str(t.df.iloc[i, j])
            el = S.norm(ex.element(got, m.nq))
            what = '%s[%s, %s]' % (name, labels[i], labels[j])
            ctx.seen((key, quantum, i, j), bool(want), '%s = %s' % (what, got))
            ctx.check(el == S.norm(want), '%s = %s, the product is %s' % (what, got, ex.show(want, m.nq)))
            ctx.check(str(M[i][j]) == got, '%s: matrix form has %s in the place of %s' % (what, M[i][j], got))
            ctx.note('matrix')
            if not want:
                ctx.note('asymmetric_zero')
            if any(any(q) for q, _ in want):
                ctx.note('q_entries')
            row.append(got)
        entries.append(row)
    # a few entries against the operation itself, on another instance
    for _ in range(4):
        i, j = ctx.rng.randrange(n), ctx.rng.randrange(n)
        op = h.qmult if quantum else h.mult
        ok, r = ctx.call('%s.%s' % (sp, 'qmult' if quantum else 'mult'), op, list(cl[i]), list(cl[j]))
        ctx.check(ex.parse(str(r)) == ex.parse(entries[i][j]), '%s[%s, %s] = %s, but the operation gives %s' % (name, labels[i], labels[j], entries[i][j], r))
    opts = ('display.max_rows', None, 'display.max_columns', None, 'display.width', None, 'display.max_colwidth', None,
            'display.expand_frame_repr', False)
    with pd.option_context(*opts):
        shown = outputs(ctx, t, name)
    if n <= 4 and max(len(str(r)) for r in [''.join(r) for r in entries] + [''.join(labels)]) < 40:
        shown += [(w + ' (default options)', x) for w, x in outputs(ctx, t, name)]
        ctx.note('printed_default')
    for w, text in shown:
        ctx.note('printed')
        p = printed(text, labels, entries)
        ctx.check(p is None, '%s does not show the table: %s' % (w, p), text=text)
    # printing and reading the matrix leave the table as it is
    again = [[str(x) for x in r] for r in t.to_matrix()]
    ctx.check(again == entries, '%s: the matrix changed after printing' % name)
    ctx.note('results_left_alone')
    # a matrix belongs to the caller, who may change it
    T1 = t.to_matrix()
    T1.reverse()
    for r in T1:
        if isinstance(r, list):
            r.append(None)
            r[0] = 'x'
    del T1[1:]
    again = [[str(x) for x in r] for r in t.to_matrix()]
    ctx.check(again == entries, '%s: the matrix is %s after the caller changed an earlier one' % (name, str(again)[:400]))
    ctx.check([str(x) for x in t.df.values.ravel()] == [x for r in entries for x in r], '%s: the table changed when the caller changed its matrix' % name)
    ctx.note('matrices_spoiled')


def outputs(ctx, t, name):
    buf = io.StringIO()
    with contextlib.redirect_stdout(buf):
        ctx.call(name + '.print()', t.print)
    return [(name + '.print()', buf.getvalue()), ('str(%s)' % name, str(t)), ('repr(%s)' % name, repr(t))]
