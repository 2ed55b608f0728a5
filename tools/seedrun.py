#!/opt/venv/bin/python
"""seedrun.py [ID...]: run the quick check of each planted bug's property against a scratch copy with the bug applied
(development aid; the registered checks run against /repo itself)."""
import json, os, shutil, subprocess, sys, tempfile
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')


def main():
    ids = [a for a in sys.argv[1:] if not a.startswith('-')] or sorted(os.listdir(ROOT + '/seeded'))
    for i in ids:
        d = f'{ROOT}/seeded/{i}'
        prop = json.load(open(d + '/meta.json'))['property']
        w = tempfile.mkdtemp(prefix='seedrun-')
        try:
            subprocess.check_call(['git', 'clone', '-q', REPO, w + '/r'])
            shutil.copytree(REPO + '/certificates', w + '/r/certificates', dirs_exist_ok=True)
            subprocess.check_call(['git', 'apply', d + '/patch.diff'], cwd=w + '/r')
            env = dict(os.environ, VERIF_REPO=w + '/r', VERIF_SEED='1', VERIF_EVIDENCE=w)
            p = subprocess.run(['/opt/venv/bin/python', f'{ROOT}/harness/check.py', prop, 'quick'], env=env,
                               stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
            out = p.stdout.decode()
            print(i, prop, 'CAUGHT' if p.returncode == 1 and f'VIOLATION property={prop}' in out else f'MISSED rc={p.returncode}',
                  out.strip().splitlines()[0][:300] if p.returncode in (0, 1) else out[-1500:], flush=True)
        finally:
            shutil.rmtree(w, ignore_errors=True)


main()
