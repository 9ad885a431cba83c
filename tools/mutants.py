"""Development aid: apply one-line changes to a scratch copy of /repo and report which checks notice.

usage: mutants.py SPEC [N...]     SPEC lines: file :: old :: new :: C01,C02      ('\\n' in old/new stands for a line break)
"""
import os
import shutil
import subprocess
import sys
import tempfile

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def main():
    spec = [l.rstrip('\n') for l in open(sys.argv[1]) if '::' in l and not l.startswith('#')]
    only = {int(i) for i in sys.argv[2:]}
    miss = 0
    for i, l in enumerate(spec):
        if only and i not in only:
            continue
        f, old, new, checks = (p.replace('\\n', '\n') for p in l.split(' :: '))
        d = tempfile.mkdtemp(prefix='mut-')
        shutil.copytree('/repo/ctbayes', d + '/repo/ctbayes')
        p = f'{d}/repo/ctbayes/{f}'
        s = open(p).read()
        if s.count(old) < 1:
            print(i, 'NOT FOUND', f, repr(old))
            shutil.rmtree(d)
            continue
        open(p, 'w').write(s.replace(old, new, 1))
        shutil.copytree(HERE, d + '/verif', ignore=shutil.ignore_patterns('.git', 'evidence', 'seeded', '__pycache__'))
        res = []
        for c in checks.split(','):
            r = subprocess.run(['./run', c], cwd=d + '/verif', env=dict(os.environ, VERIF_REPO=d + '/repo'), capture_output=True, text=True)
            res.append(f'{c}={r.returncode}')
            if r.returncode == 1:
                break
        first = r.stdout.strip().splitlines()[0][:150] if r.stdout.strip() else r.stderr[-200:]
        hit = res[-1].endswith('=1')
        miss += not hit
        print(i, 'caught' if hit else 'MISSED', ' '.join(res), f, '|', old.strip()[:50], '->', new.strip()[:50], '|', first if hit else '', flush=True)
        shutil.rmtree(d)
    print('missed', miss)


main()
