"""Development: systematic small mutations of the library; which pass the repository's tests, and which of those the checks catch.

  mutate.py tests OUT.jsonl           generate all mutants, run the tests, keep the survivors
  mutate.py checks IN.jsonl OUT.jsonl run the checks (most relevant first) against every survivor until one catches it
Not used by any registered check."""
import ast
import concurrent.futures as cf
import json
import os
import shutil
import subprocess
import sys
import tempfile
import threading

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PYT = '/opt/venv/bin/python'
FILES = ['abstract_grassmannian', 'grassmannian', 'isotropic_grassmannian', 'orthogonal_grassmannian', 'qcalc', 'lc', 'schur', 'mult_table', 'partition',
         'csv_bijection', 'utils/mix', 'utils/hash', 'utils/kstrict', 'utils/const']
DEAD = {'spec2num', 'act_lc', 'fail_no_type', 'part2pair', 'pair2part', 'part2index', 'index2part', 'schub_type', 'pieri', 'act', 'giambelli', 'mult', 'toS',
        'qpieri', 'qact', 'qgiambelli', 'qtoS'}


def mutants(path, src):
    tree = ast.parse(src)
    lines = src.splitlines(keepends=True)
    off = [0]
    for l in lines:
        off.append(off[-1] + len(l.encode()))
    b = src.encode()

    def span(n):
        return off[n.lineno - 1] + n.col_offset, off[n.end_lineno - 1] + n.end_col_offset

    def seg(n):
        s, e = span(n)
        return b[s:e].decode()
    out = []

    def put(n, text, why):
        s, e = span(n)
        out.append((s, e, text, '%s:%d %s: %s -> %s' % (path, n.lineno, why, seg(n)[:60].replace('\n', ' '), text[:60].replace('\n', ' '))))
    CMP = {ast.Lt: ['<=', '>'], ast.LtE: ['<', '=='], ast.Gt: ['>=', '<'], ast.GtE: ['>', '=='], ast.Eq: ['!=', '>='], ast.NotEq: ['==', '>'], ast.In: ['not in'], ast.NotIn: ['in']}
    BIN = {ast.Add: '-', ast.Sub: '+', ast.Mult: '+', ast.Div: '*', ast.Mod: '//', ast.Pow: '*', ast.FloorDiv: '*'}

    def visit(n, fn):
        if isinstance(n, (ast.FunctionDef, ast.ClassDef)):
            if path.endswith('qcalc.py') and n.name in DEAD:
                return
            for d in n.body:
                visit(d, n.name)
            return
        if isinstance(n, ast.If) and isinstance(n.test, ast.Compare) and '__main__' in seg(n.test):
            return
        if isinstance(n, ast.JoinedStr) or isinstance(n, (ast.Import, ast.ImportFrom, ast.Raise, ast.AnnAssign)):
            return
        if isinstance(n, ast.Compare) and len(n.ops) == 1:
            l, r = seg(n.left), seg(n.comparators[0])
            for o in CMP.get(type(n.ops[0]), []):
                put(n, '(%s %s %s)' % (l, o, r), 'cmp')
        if isinstance(n, ast.BinOp) and type(n.op) in BIN:
            put(n, '(%s %s %s)' % (seg(n.left), BIN[type(n.op)], seg(n.right)), 'bin')
            put(n, '(%s)' % seg(n.left), 'left')
        if isinstance(n, ast.BoolOp):
            o = ' or ' if isinstance(n.op, ast.And) else ' and '
            put(n, '(' + o.join('(%s)' % seg(v) for v in n.values) + ')', 'bool')
            for i in range(len(n.values)):
                rest = [seg(v) for j, v in enumerate(n.values) if j != i]
                put(n, '(' + (' and ' if isinstance(n.op, ast.And) else ' or ').join('(%s)' % v for v in rest) + ')', 'drop')
        if isinstance(n, ast.Constant) and isinstance(n.value, int) and not isinstance(n.value, bool):
            put(n, str(n.value + 1), 'const')
            if n.value:
                put(n, str(n.value - 1), 'const')
        if isinstance(n, ast.Constant) and isinstance(n.value, bool):
            put(n, str(not n.value), 'const')
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Name):
            if n.func.id in ('min', 'max') and len(n.args) > 1:
                put(n, '%s(%s)' % ('max' if n.func.id == 'min' else 'min', ', '.join(map(seg, n.args))), 'minmax')
                for i in range(len(n.args)):
                    rest = [seg(a) for j, a in enumerate(n.args) if j != i]
                    put(n, '%s(%s)' % (n.func.id, ', '.join(rest)) if len(rest) > 1 else '(%s)' % rest[0], 'drop')
            if n.func.id in ('part_clip', 'sorted', 'list', 'reversed', 'set', 'abs') and len(n.args) == 1 and not n.keywords:
                put(n, '(%s)' % seg(n.args[0]), 'unwrap')
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in ('copy', 'expand', 'simplify'):
            if not n.args:
                put(n, '(%s)' % seg(n.func.value), 'nocopy')
            elif len(n.args) == 1:
                put(n, '(%s)' % seg(n.args[0]), 'noexpand')
        if isinstance(n, (ast.If, ast.While)) and not isinstance(n.test, ast.Compare):
            put(n.test, 'not (%s)' % seg(n.test), 'neg')
        if isinstance(n, ast.If):
            put(n.test, 'False', 'never')
        if isinstance(n, ast.IfExp):
            put(n, '(%s)' % seg(n.body), 'then')
            put(n, '(%s)' % seg(n.orelse), 'else')
        if isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.USub) and not isinstance(n.operand, ast.Constant):
            put(n, '(%s)' % seg(n.operand), 'pos')
        if isinstance(n, (ast.Continue, ast.Break)):
            put(n, 'pass', 'stmt')
        if isinstance(n, ast.AugAssign) or (isinstance(n, ast.Expr) and isinstance(n.value, ast.Call)) or (isinstance(n, ast.Assign) and fn):
            put(n, 'pass', 'stmt')
        if isinstance(n, ast.Return) and n.value is not None and fn:
            put(n, 'return None', 'ret')
        for c in ast.iter_child_nodes(n):
            if isinstance(c, (ast.expr_context, ast.operator, ast.arguments)):
                continue
            visit(c, fn)
    for n in tree.body:
        visit(n, None)
    seen = set()
    for s, e, t, why in out:
        new = (b[:s] + t.encode() + b[e:]).decode()
        if new in seen or new == src:
            continue
        try:
            compile(new, path, 'exec')
        except SyntaxError:
            continue
        seen.add(new)
        yield why, new


_local = threading.local()
_all = []


def area():
    if not hasattr(_local, 'w'):
        d = tempfile.mkdtemp(prefix='mut-', dir='/tmp')
        _all.append(d)
        _local.w = os.path.join(d, 'repo')
        subprocess.run('mkdir -p %s && git -C /repo archive HEAD | tar x -C %s' % (_local.w, _local.w), shell=True, check=True)
    return _local.w


def run(cmd, cwd, timeout, **env):
    e = dict(os.environ, PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0', MPLBACKEND='Agg', OMP_NUM_THREADS='1', OPENBLAS_NUM_THREADS='1')
    e.update(env)
    p = subprocess.Popen(cmd, cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, start_new_session=True)
    try:
        out, _ = p.communicate(timeout=timeout)
        return p.returncode, out
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, 9)
        p.communicate()
        return -9, 'timeout'


def test_one(m):
    w = area()
    path, why, new = m
    f = os.path.join(w, path)
    old = open(f).read()
    try:
        open(f, 'w').write(new)
        rc, out = run([PYT, '-m', 'pytest', '-q', '-x', '-p', 'no:cacheprovider', '--timeout=60', '--ignore=schubertpy/testcases/brute_force/test_zclass_csv_threaded.py',
                       'schubertpy/testcases'], w, 120, PYTHONPATH=w)
        return m, rc == 0 and '200 passed' in out
    finally:
        open(f, 'w').write(old)


REL = {'mult_table': ['C23'], 'csv_bijection': ['C30'], 'mix': ['C25', 'C26', 'C29'], 'hash': ['C28'], 'kstrict': ['C29', 'C10'], 'const': ['C20'],
       'partition': ['C15', 'C32', 'C26', 'C14'], 'schur': ['C26', 'C31', 'C20', 'C16', 'C25', 'C29'], 'lc': ['C31', 'C21', 'C22', 'C20', 'C16', 'C26', 'C32'],
       'abstract_grassmannian': ['C03', 'C04', 'C05', 'C13', 'C16', 'C32', 'C06', 'C24'], 'grassmannian': ['C10', 'C02', 'C14', 'C24', 'C32', 'C16', 'C11'],
       'isotropic_grassmannian': ['C10', 'C02', 'C12', 'C11', 'C24', 'C16', 'C32'], 'orthogonal_grassmannian': ['C02', 'C10', 'C01', 'C13', 'C12', 'C11', 'C24', 'C16', 'C32'],
       'qcalc': ['C02', 'C01', 'C11', 'C12', 'C29', 'C13', 'C09', 'C10']}
ALL = ['C%02d' % i for i in range(1, 33)]
SLOW = {'C17', 'C18', 'C19', 'C27'}


def check_one(m):
    w = area()
    path, why, new = m
    f = os.path.join(w, path)
    old = open(f).read()
    base = os.path.basename(path)[:-3]
    order = REL.get(base, [])
    order = order + [c for c in ALL if c not in order and c not in SLOW] + (['C19', 'C17', 'C18'] if base in ('lc', 'schur', 'hash', 'abstract_grassmannian', 'grassmannian', 'qcalc') else [])
    odd = []
    if 'ONLY' in os.environ:
        order = REL[{'testcases': 'qcalc'}.get(base, base)]
    try:
        open(f, 'w').write(new)
        for c in order:
            rc, out = run([sys.executable, os.path.join(HERE, 'run.py'), c], HERE, 900, VP_REPO=w, VERIF_SEED='1', VERIF_TIER='quick', VP_EVID=os.path.join(w, 'evidence'))
            if rc == 1 and 'VIOLATION property=%s ' % c in out:
                l = [x for x in out.splitlines() if x.startswith('  ')]
                return m, c, (l[0] if l else '')[:200], odd
            if rc != 0:
                odd.append((c, rc, out[-200:]))
        return m, None, '', odd
    finally:
        open(f, 'w').write(old)


def main():
    what = sys.argv[1]
    try:
        if what == 'tests':
            ms = []
            for f in FILES:
                p = 'schubertpy/%s.py' % f
                ms += [(p, why, new) for why, new in mutants(p, open('/repo/' + p).read())]
            print(len(ms), 'mutants', flush=True)
            ms = ms[int(os.environ.get('START', 0)):]
            with cf.ThreadPoolExecutor(int(os.environ.get('J', '8'))) as ex, open(sys.argv[2], 'w') as o:
                n = k = 0
                for m, ok in ex.map(test_one, ms):
                    n += 1
                    if ok:
                        k += 1
                        o.write(json.dumps(m) + '\n')
                        o.flush()
                    if n % 100 == 0:
                        print(n, 'tested', k, 'survive', flush=True)
        else:
            ms = [json.loads(l) for l in open(sys.argv[2])][int(os.environ.get('START', 0)):]
            with cf.ThreadPoolExecutor(int(os.environ.get('J', '3'))) as ex, open(sys.argv[3], 'w') as o:
                for m, c, t, odd in ex.map(check_one, ms):
                    o.write(json.dumps({'why': m[1], 'caught': c, 'text': t, 'odd': odd, 'm': m if not c else None}) + '\n')
                    o.flush()
    finally:
        for d in _all:
            shutil.rmtree(d, ignore_errors=True)


if __name__ == '__main__':
    main()
