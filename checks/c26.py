"""Renderings of partitions, read back into rows of boxes."""
import contextlib
import io
import os
import re
import shutil
import tempfile
import warnings

from fractions import Fraction

import expr as ex
import polytext as pt
import spaces as S

RULE = ('one observation = one rendering of one partition or combination read back (rows of boxes, label, coefficients) and '
        'compared; non-trivial = at least two boxes; distinct = distinct (partition or text, kind of rendering)')
MIN = {'quick': 1800, 'thorough': 12000}
MUST_SEE = ('text', 'latex', 'plot', 'png', 'combination', 'empty', 'padded', 'wide', 'very_wide', 'q_filtered', 'empty_term', 'fraction_coefficient', 'png_boxes', 'many_terms')
NO_MEM_LIMIT = True


def units(tier, rng):
    n = 40 if tier == 'quick' else 300
    out = [('texts', i) for i in range(n)] + [('combos', i) for i in range(n)] + [('images', i) for i in range(n // 2)]
    rng.shuffle(out)
    return out


def some_part(rng):
    r = rng.random()
    if r < 0.08:
        return [0] * rng.randint(0, 2)
    if r < 0.25:
        # tall and narrow, or short and wide
        n = rng.randint(4, 14)
        p = [2] * rng.randint(0, n // 2)
        p += [1] * (n - len(p))
        if rng.random() < 0.4:
            p = [n] * rng.randint(1, 2)
        return p
    if r < 0.29:
        return sorted((rng.randint(1, rng.choice([20, 60, 150, 300])) for _ in range(rng.randint(1, 3))), reverse=True)
    p = sorted((rng.randint(1, rng.choice([1, 2, 4, 6, 11, 23])) for _ in range(rng.randint(1, rng.choice([2, 4, 7, 12])))), reverse=True)
    return p + [0] * (rng.randint(1, 2) if rng.random() < 0.25 else 0)


def out_of(ctx, what, fn, *a):
    buf = io.StringIO()
    with contextlib.redirect_stdout(buf):
        ok, r = ctx.call(what, fn, *a)
    return buf.getvalue()


def rows_of(lines, box):
    """row lengths of a left-aligned text diagram, or None"""
    out = []
    for l in lines:
        l = l.rstrip()
        n = len(l) // len(box)
        if l != box * n:
            return None
        out.append(n)
    return out


def clip(p):
    p = list(p)
    while p and p[-1] == 0:
        p.pop()
    return p


def kinds(ctx, p):
    if not clip(p):
        ctx.note('empty')
    if p and p[-1] == 0:
        ctx.note('padded')
    if max(p, default=0) > 9:
        ctx.note('wide')
    if max(p, default=0) > 80:
        ctx.note('very_wide')


def tikz(t):
    """(label, row lengths) of a TikZ picture; None if it is not left-aligned on a regular grid"""
    lab = re.findall(r'\\node\[draw=none[^\]]*\][^\n]*\{\$(.*?)\$\};', t)
    pos = [(float(x), float(y)) for x, y in re.findall(r'\\node at \((-?[\d.]+)mm, *(-?[\d.]+)mm\) \{\};', t)]
    return lab, grid(pos, 5.0)


def grid(pos, step):
    """lower-left or centre positions -> row lengths from the top, or None"""
    if not pos:
        return []
    if len(set(pos)) != len(pos):
        return None
    x0 = min(x for x, _ in pos)
    y0 = max(y for _, y in pos)
    cells = set()
    for x, y in pos:
        i, j = (x - x0) / step, (y0 - y) / step
        if abs(i - round(i)) > 1e-6 or abs(j - round(j)) > 1e-6:
            return None
        cells.add((round(j), round(i)))
    return cells_rows(cells)


def cells_rows(cells):
    n = max(j for j, _ in cells) + 1
    out = []
    for j in range(n):
        r = sorted(i for jj, i in cells if jj == j)
        if r != list(range(len(r))):
            return None
        out.append(len(r))
    return out


def numbers(label):
    return [int(x) for x in re.findall(r'\d+', label)]


def texts(ctx, i):
    import schubertpy as api
    rng = ctx.rng
    for _ in range(12):
        p = some_part(rng)
        kinds(ctx, p)
        s = api.Schur(list(p))
        P = api.Partition(list(p))
        # text diagrams
        for what, fn, a, box in (('Schur(%s).print_partition()' % p, s.print_partition, (), '[ ]'), ('Partition(%s).draw()' % p, P.draw, (), '[]'),
                                 ('yd(%s)' % p, api.yd, (list(p),), '[]')):
            o = out_of(ctx, what, fn, *a)
            lines = o.splitlines()
            ctx.note('text')
            ctx.seen((p, what), sum(p) > 1, what)
            if what.startswith('yd'):
                ctx.check(lines and numbers(lines[0]) == p, '%s has the heading %r' % (what, lines[:1]))
                lines = lines[1:]
            got = rows_of(lines, box)
            if not p and what.startswith('Partition'):
                ctx.check(o.strip() in ('0', '', '()', '[]') or not o.strip(), '%s prints %r' % (what, o))
                continue
            ctx.check(got is not None and got == p or got is not None and clip(got) == clip(p), '%s shows the rows %s:\n%s' % (what, got, o[:800]))
        for what, fn in (('Schur(%s).latex()' % p, s.latex), ('Schur(%s).latex_standalone()' % p, s.latex_standalone)):
            ok, t = ctx.call(what, fn)
            lab, rows = tikz(t)
            ctx.note('latex')
            ctx.seen((p, what), sum(p) > 1, what)
            ctx.check(len(lab) == 1 and numbers(lab[0]) == p and 'S' in lab[0], '%s has the label %s' % (what, lab))
            ctx.check(rows == clip(p), '%s draws the rows %s' % (what, rows), text=t)
            ctx.check(t.count('\\begin{tikzpicture}') == 1 == t.count('\\end{tikzpicture}'), '%s is not one picture: %s' % (what, t[:300]))
            full = 'standalone' in what
            ctx.check((t.count('\\begin{document}'), t.count('\\end{document}'), t.count('\\documentclass')) == ((1, 1, 1) if full else (0, 0, 0)),
                      '%s is not a complete document: %s' % (what, t[:300]))
            if full:
                order = [t.find(x) for x in ('\\documentclass', '\\begin{document}', '\\begin{tikzpicture}', '\\end{tikzpicture}', '\\end{document}')]
                ctx.check(order == sorted(order) and order[0] >= 0, '%s: parts in the wrong order' % what)
        ctx.check(list(s.partition()) == p, 'rendering changed the class %s to %s' % (p, s.partition()))


def images(ctx, i):
    import matplotlib.pyplot as plt
    import schubertpy as api
    rng = ctx.rng
    d = tempfile.mkdtemp(prefix='c26-')
    warnings.filterwarnings('ignore')
    try:
        for j in range(3):
            p = some_part(rng)
            while sum(p) > 60:
                p = some_part(rng)
            kinds(ctx, p)
            s = api.Schur(list(p))
            w = 'Schur(%s).plot_partition()' % p
            ok, fa = ctx.call(w, s.plot_partition)
            if not ok:
                continue
            fig, ax = fa
            rects = [r for r in ax.patches if hasattr(r, 'get_xy') and hasattr(r, 'get_width')]
            boxes = [(round(float(r.get_x()), 6), round(float(r.get_y()), 6)) for r in rects]
            ctx.note('plot')
            ctx.seen((p, 'plot'), sum(p) > 1, w)
            sizes = {(round(float(r.get_width()), 6), round(float(r.get_height()), 6)) for r in rects}
            ctx.check(len(sizes) <= 1, '%s draws boxes of different sizes %s' % (w, sizes))
            step = sizes.pop()[0] if sizes else 1.0
            ctx.check(grid(boxes, step) == clip(p), '%s draws the rows %s (boxes at %s)' % (w, grid(boxes, step), boxes[:40]))
            lab = [t.get_text() for t in ax.texts]
            ctx.check(len(lab) == 1 and numbers(lab[0]) == p and 'S' in lab[0], '%s has the label %s' % (w, lab))
            (x0, x1), (y0, y1) = sorted(ax.get_xlim()), sorted(ax.get_ylim())
            ctx.check(all(x0 <= x and x + step <= x1 and y0 <= y and y + step <= y1 for x, y in boxes), '%s: boxes outside the visible area' % w)
            ctx.check(ax.get_ylim()[0] < ax.get_ylim()[1] and ax.get_xlim()[0] < ax.get_xlim()[1], '%s: inverted axes' % w)
            plt.close(fig)
            f = os.path.join(d, 'p%d.png' % j)
            w = 'Schur(%s).export_png(...)' % p
            before = set(plt.get_fignums())
            ok, _x = ctx.call(w, s.export_png, f)
            if not ok:
                continue
            ctx.note('png')
            if not ctx.check(os.path.isfile(f), '%s wrote no file' % w):
                continue
            ctx.seen((p, 'png'), sum(p) > 1, w)
            with open(f, 'rb') as h:
                head = h.read(8)
            ctx.check(head == b'\x89PNG\r\n\x1a\n', '%s wrote something that is no PNG file: %r' % (w, head))
            got, dark = read_png(f)
            ctx.note('png_boxes', sum(got or []))
            ctx.check(got == clip(p), '%s shows the rows %s' % (w, got))
            ctx.check(dark > 0, '%s is blank' % w)
            ctx.check(set(os.listdir(d)) <= {'p%d.png' % k for k in range(3)}, '%s wrote other files: %s' % (w, os.listdir(d)))
            plt.close('all')
    finally:
        shutil.rmtree(d)


def read_png(f):
    """rows of boxes found in the picture: white rectangles enclosed by dark lines"""
    import matplotlib.image as mi
    import numpy as np
    im = mi.imread(f)[..., :3].mean(axis=2)
    white = im > 0.9
    H, W = white.shape
    comp = {}          # union-find over horizontal white runs
    par = []

    def find(a):
        while par[a] != a:
            par[a] = par[par[a]]
            a = par[a]
        return a
    prev = []
    info = []
    for y in range(H):
        row = np.concatenate(([0], white[y].astype(np.int8), [0]))
        dlt = np.diff(row)
        runs = list(zip(np.flatnonzero(dlt == 1), np.flatnonzero(dlt == -1)))
        cur = []
        for a, b in runs:
            k = len(par)
            par.append(k)
            info.append((int(a), int(b), y))
            cur.append((a, b, k))
        i = 0
        for a, b, k in cur:
            while i < len(prev) and prev[i][1] <= a:
                i += 1
            j = i
            while j < len(prev) and prev[j][0] < b:
                par[find(k)] = find(prev[j][2])
                j += 1
        prev = cur
    groups = {}
    for k, (a, b, y) in enumerate(info):
        groups.setdefault(find(k), []).append((a, b, y))
    rects = []
    for rs in groups.values():
        x0, x1 = min(a for a, _, _ in rs), max(b for _, b, _ in rs)
        y0, y1 = min(y for _, _, y in rs), max(y for _, _, y in rs) + 1
        area = sum(b - a for a, b, _ in rs)
        if x0 == 0 or y0 == 0 or x1 == W or y1 == H:
            continue
        w, h = x1 - x0, y1 - y0
        if area >= 0.97 * w * h and w >= 6 and h >= 6 and 0.8 <= w / h <= 1.25:
            rects.append((x0, y0, w, h))
    dark = int((im < 0.5).sum())
    if not rects:
        return [], dark
    big = max(w * h for _, _, w, h in rects)
    rects = [r for r in rects if r[2] * r[3] >= 0.5 * big]
    cols, rws = bands(r[0] for r in rects), bands(r[1] for r in rects)
    if cols is None or rws is None:
        return None, dark
    cells = {(rws[r[1]], cols[r[0]]) for r in rects}
    if len(cells) != len(rects):
        return None, dark
    return cells_rows(cells), dark


def bands(values):
    """pixel coordinate -> band number; None if the bands are not evenly spaced"""
    vs = sorted(set(values))
    out, starts = {}, []
    for v in vs:
        if not starts or v - starts[-1] > 4:
            starts.append(v)
        out[v] = len(starts) - 1
    gaps = [b - a for a, b in zip(starts, starts[1:])]
    if gaps and max(gaps) > 1.3 * min(gaps):
        return None
    return out


def combos(ctx, i):
    import schubertpy as api
    rng = ctx.rng
    for j in range(25):
        parts = None
        if rng.random() < 0.6:
            parts = [some_part(rng) for _ in range(5)] + [[]]
        n = rng.choice([1, 2, 3, 5])
        if j % 12 == 1:
            # a long picture
            n, parts = rng.choice([12, 20]), [some_part(rng) for _ in range(25)] + [[rng.randint(1, 3)] * rng.randint(10, 24)]
            ctx.note('many_terms')
        t, terms = pt.linear(rng, n, parts=parts or [some_part(rng) for _ in range(8)])
        if j % 12 == 1:
            terms = [x for x in terms if x[2] != parts[-1]] + [(1, {}, parts[-1])]
            while len(terms) < 10:
                terms.append((rng.choice([1, 2, 5]), {}, [100 + len(terms)]))
            terms = [(Fraction(c), qd, p) for c, qd, p in terms]
            rng.shuffle(terms)
            t = pt.write(rng, terms)
        if j == 0:
            t, terms = '0', []
        ok, o = ctx.call('LinearCombination(%r)' % t, api.LinearCombination, t)
        for inc in (True, False, None):
            w = 'LinearCombination(%r).draw_ascii_partition(%s)' % (t, '' if inc is None else 'include_q=%s' % inc)
            a = () if inc is None else (inc,)
            exp = o.schur_expansion(*a)
            if isinstance(exp, tuple):
                exp = [exp]
            text = out_of(ctx, w, o.draw_ascii_partition, *a)
            ctx.note('combination')
            ctx.seen((t, inc), len(terms) > 1, w)
            keep = [x for x in terms if inc is not False or not x[1]]
            if len(keep) < len(terms):
                ctx.note('q_filtered')
            if terms and not keep:
                ctx.check(not text.strip(), '%s prints %r although no term is left' % (w, text))
                continue
            if any(not clip(x[2]) for x in keep):
                ctx.note('empty_term')
            if any(x[0].denominator != 1 for x in keep):
                ctx.note('fraction_coefficient')
            # the listed terms (C21 judges them) are the drawn ones, in order
            ps = sorted(repr(list(x[2])) for x in keep)
            ctx.check(not terms or sorted(repr(list(p)) for _, p in exp) == ps, '%s: schur_expansion lists %s' % (w, exp))
            want = picture([(str(c), list(p)) for c, p in exp])
            got = [l.rstrip() for l in text.splitlines()]
            while got and not got[-1]:
                got.pop()
            while want and not want[-1]:
                want.pop()
            if not terms:
                ctx.check(got and got[0].strip().startswith('0') and '[]' not in text, '%s prints %r' % (w, text))
                continue
            ctx.check(got == want, '%s prints\n%s\nexpected\n%s' % (w, '\n'.join(got), '\n'.join(want)))


def picture(terms):
    """' + '-separated blocks, coefficient on the first line, diagram to its right"""
    h = max([1] + [len(p) for _, p in terms])
    lines = [''] * h
    for n, (c, p) in enumerate(terms):
        s = (' + ' if n else '') + ('' if c == '1' else c + '*')
        wd = max(p, default=0)
        for y in range(h):
            lines[y] += (s if y == 0 else ' ' * len(s)) + ('[]' * (p[y] if y < len(p) else 0)).ljust(2 * wd)
    return [l.rstrip() for l in lines]
