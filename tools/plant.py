"""Development: author and verify planted bugs.

  plant.py new SPEC.py        writes seeded/<id>/ for every bug of SPEC.BUGS (and verifies them)
  plant.py verify [ID...]     applies, tests, demonstrates in a scratch copy
  plant.py check [ID...]      runs the property's check against each; --all: every check

Works in a scratch clone under /tmp, one per process."""
import importlib.util
import json
import os
import shutil
import subprocess
import sys
import tempfile

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SEED = os.path.join(HERE, 'seeded')
PYT = '/opt/venv/bin/python'


def sh(cmd, cwd, timeout=900, **env):
    e = dict(os.environ, PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0', MPLBACKEND='Agg')
    e.update(env)
    return subprocess.run(cmd, cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)


def scratch():
    d = tempfile.mkdtemp(prefix='plant-', dir='/tmp')
    w = os.path.join(d, 'repo')
    subprocess.run(['git', 'clone', '-q', '/repo', w], check=True)
    return d, w


def original_lines(w, path):
    """numbers of HEAD lines that come from the base commit"""
    base = subprocess.run(['git', '-C', w, 'rev-list', '--max-parents=0', 'HEAD'], capture_output=True, text=True).stdout.strip()
    out = subprocess.run(['git', '-C', w, 'blame', '-l', '--root', path], capture_output=True, text=True).stdout.splitlines()
    return {i + 1 for i, l in enumerate(out) if l.lstrip('^').startswith(base[:39])}


def demo(d, w):
    tmp = tempfile.mkdtemp(prefix='demo-', dir='/tmp')
    shutil.copytree(d, os.path.join(tmp, 'x'), ignore=shutil.ignore_patterns('*.diff', '*.patch', 'meta.json'))
    r = sh(['bash', os.path.join(tmp, 'x', 'demo.sh')], w, 300)
    shutil.rmtree(tmp)
    return r


def tests(w):
    r = sh([PYT, '-m', 'pytest', '-q', '-p', 'no:cacheprovider', '-x', '--ignore=schubertpy/testcases/brute_force/test_zclass_csv_threaded.py',
            'schubertpy/testcases'], w, 900, PYTHONPATH=w)
    return r.returncode == 0 and '200 passed' in r.stdout, r.stdout[-700:]


def verify(id, w, quiet=False):
    d = os.path.join(SEED, id)
    subprocess.run(['git', '-C', w, 'checkout', '-q', '--', '.'], check=True)
    bad = []
    r = demo(d, w)
    if r.returncode:
        bad.append('demo fails on the unchanged tree: ' + r.stdout[-600:])
    r = sh(['git', 'apply', os.path.join(d, 'patch.diff')], w)
    if r.returncode:
        bad.append('patch does not apply: ' + r.stdout)
    else:
        ok, t = tests(w)
        if not ok:
            bad.append('tests fail: ' + t)
        r = demo(d, w)
        if r.returncode == 0:
            bad.append('demo passes with the patch')
        # removed lines must be original ones
        diff = subprocess.run(['git', '-C', w, 'diff', '-U0'], capture_output=True, text=True).stdout
        subprocess.run(['git', '-C', w, 'checkout', '-q', '--', '.'], check=True)
        f = None
        for l in diff.splitlines():
            if l.startswith('--- a/'):
                f = l[6:]
                orig = original_lines(w, f)
            elif l.startswith('@@'):
                a = l.split()[1][1:].split(',')
                s, n = int(a[0]), int(a[1]) if len(a) > 1 else 1
                for i in range(s, s + n):
                    if i not in orig:
                        bad.append('changes line %d of %s, which a fix commit wrote' % (i, f))
    print(id, 'ok' if not bad else 'BAD')
    for b in bad:
        print('   ', b)
    return not bad


def check(id, w, props=None, seeds=('1',)):
    d = os.path.join(SEED, id)
    meta = json.load(open(os.path.join(d, 'meta.json')))
    subprocess.run(['git', '-C', w, 'checkout', '-q', '--', '.'], check=True)
    subprocess.run(['git', '-C', w, 'apply', os.path.join(d, 'patch.diff')], check=True)
    caught = []
    for p in props or [meta['property']]:
        for s in seeds:
            r = sh([sys.executable, os.path.join(HERE, 'run.py'), p], HERE, 1200, VP_REPO=w, VERIF_SEED=s, VERIF_TIER='quick')
            hit = r.returncode == 1 and 'VIOLATION property=%s ' % p in r.stdout
            if hit:
                caught.append(p)
            if p == meta['property']:
                lines = [l for l in r.stdout.splitlines() if l.startswith('  ') and not l.startswith('    ')]
                print(id, p, 'seed', s, 'CAUGHT' if hit else 'MISSED rc=%d' % r.returncode, (lines[0][:260] if lines else r.stdout[-200:]), flush=True)
    subprocess.run(['git', '-C', w, 'checkout', '-q', '--', '.'], check=True)
    if props:
        print(id, 'caught by', ' '.join(caught), flush=True)
    return caught


def new(spec, w):
    s = importlib.util.spec_from_file_location('spec', spec)
    m = importlib.util.module_from_spec(s)
    s.loader.exec_module(m)
    ids = []
    for b in m.BUGS:
        subprocess.run(['git', '-C', w, 'checkout', '-q', '--', '.'], check=True)
        fail = None
        for path, old, rep in b['edits']:
            t = open(os.path.join(w, path)).read()
            if t.count(old) != 1:
                fail = '%s: %d matches of %r' % (path, t.count(old), old)
                break
            open(os.path.join(w, path), 'w').write(t.replace(old, rep))
        if fail:
            print(b['id'], 'BAD edit', fail)
            continue
        diff = subprocess.run(['git', '-C', w, 'diff'], capture_output=True, text=True).stdout
        d = os.path.join(SEED, b['id'])
        os.makedirs(d, exist_ok=True)
        open(os.path.join(d, 'patch.diff'), 'w').write(diff)
        py = b.get('py', PYT)
        open(os.path.join(d, 'demo.sh'), 'w').write('#!/bin/bash\n# run in the repository\'s root: exit 0 if the property holds\nexport PYTHONPATH="$PWD" PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg DOT_SAGE=${DOT_SAGE:-/root/.sage}\nexec %s -B "$(dirname "$0")/demo.py"\n' % py)
        open(os.path.join(d, 'demo.py'), 'w').write(b['demo'].lstrip('\n'))
        json.dump({'property': b['property'], 'needs': b['needs'], 'what_it_breaks': b['breaks']}, open(os.path.join(d, 'meta.json'), 'w'), indent=1)
        ids.append(b['id'])
    return ids


def main():
    d, w = scratch()
    try:
        a = sys.argv[1:]
        if a[0] == 'new':
            ids = [i for i in new(a[1], w) if verify(i, w)]
            for i in ids:
                check(i, w)
            return
        allp = '--all' in a
        ids = [x for x in a[1:] if not x.startswith('--')] or sorted(os.listdir(SEED))
        props = [c['property'] for c in json.load(open(os.path.join(HERE, 'MANIFEST.json')))['checks']] if allp else None
        seeds = [x[8:] for x in a if x.startswith('--seeds=')]
        for i in ids:
            if a[0] == 'verify':
                verify(i, w)
            else:
                check(i, w, props, seeds[0].split(',') if seeds else ('1',))
    finally:
        shutil.rmtree(d)


if __name__ == '__main__':
    main()
