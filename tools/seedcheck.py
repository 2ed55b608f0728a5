#!/opt/venv/bin/python
"""seedcheck.py [--notests] ID...: check planted bugs in scratch copies of /repo: the patch applies and builds, the stable
tests pass with it, the demo passes without and fails with it."""
import json, os, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor
PY = '/opt/venv/bin/python'
ROOT = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'seeded')
base = json.load(open('/opt/vp/BASELINE.json'))
notests = '--notests' in sys.argv


def demo(d, cwd):
    t = tempfile.mkdtemp(prefix='demo-')
    for f in os.listdir(d):
        if not f.endswith(('.diff', '.patch')) and f != 'meta.json' and not f.startswith('__'):
            (shutil.copytree if os.path.isdir(os.path.join(d, f)) else shutil.copy)(os.path.join(d, f), os.path.join(t, f))
    try:
        p = subprocess.run(['bash', os.path.join(t, 'demo.sh')], cwd=cwd, stdout=subprocess.PIPE,
                           stderr=subprocess.STDOUT, timeout=300)
        return p.returncode, p.stdout.decode()[-600:]
    finally:
        shutil.rmtree(t)


def one(i):
    d = os.path.join(ROOT, i)
    w = tempfile.mkdtemp(prefix='seed-')
    try:
        r = os.path.join(w, 'repo')
        subprocess.check_call(['cp', '-a', '/repo', r])
        rc0, out0 = demo(d, r)
        p = subprocess.run(['git', 'apply', os.path.join(d, 'patch.diff')], cwd=r, stderr=subprocess.PIPE)
        if p.returncode:
            return i, f'PATCH FAILS {p.stderr.decode()}'
        subprocess.check_call([PY, '-m', 'compileall', '-q', '--invalidation-mode', 'checked-hash', 'openleadr'], cwd=r)
        rc1, out1 = demo(d, r)
        msg = f'demo clean={rc0} patched={rc1}'
        ok = rc0 == 0 and rc1 != 0
        if not ok:
            msg += f'\n--clean: {out0}\n--patched: {out1}'
        if not notests:
            x = os.path.join(w, 'junit.xml')
            env = dict(os.environ, PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0', TZ='UTC')
            subprocess.run(['unshare', '-rn', 'bash', '-c', f'ip link set lo up; timeout 800 {PY} -m pytest -q -p no:cacheprovider '
                            f'--forked --timeout=15 -o timeout_func_only=true -o junit_family=xunit2 --junitxml={x} test'],
                           cwd=r, env=env, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
            import xml.etree.ElementTree as ET
            passed = set()
            for c in ET.parse(x).iter('testcase'):
                if not list(c.iter('failure')) and not list(c.iter('error')) and not list(c.iter('skipped')):
                    passed.add((c.get('classname'), c.get('name')))
            names = {f'{a}::{b}' for a, b in passed}
            missing = [t for t in base['stable'] if t not in names]
            msg += f' tests: {len(passed)} passed, missing {missing[:5]}'
            ok = ok and not missing
        return i, ('OK ' if ok else 'BAD ') + msg
    finally:
        shutil.rmtree(w, ignore_errors=True)


if __name__ == '__main__':
    ids = [a for a in sys.argv[1:] if not a.startswith('-')] or sorted(os.listdir(ROOT))
    with ThreadPoolExecutor(6) as ex:
        for i, m in ex.map(one, ids):
            print(i, m, flush=True)
