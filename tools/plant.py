"""Regenerates /verif/seeded from tools/bugs/*.py, confirms each bug and runs the checks against it.

usage: plant.py [--detect] [--only ID,...] [--force]
A bug is a dict: id, property, edits [(file, old, new)], demo (Python text), needs, breaks.
"""
import glob, json, os, subprocess, sys, shutil, runpy
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = '/repo'
W = '/tmp/plant'


def sh(cmd, cwd=None, env=None, timeout=900):
    p = subprocess.run(cmd, shell=True, cwd=cwd, env=env, capture_output=True, text=True, timeout=timeout)
    return p.returncode, p.stdout + p.stderr


def bugs():
    res = []
    for f in sorted(glob.glob(os.path.join(V, 'tools', 'bugs', '*.py'))):
        res += runpy.run_path(f)['BUGS']
    return res


def main():
    a = sys.argv[1:]
    only = None
    if '--only' in a:
        only = set(a[a.index('--only') + 1].split(','))
    detect = '--detect' in a
    shutil.rmtree(W, ignore_errors=True)
    os.makedirs(W)
    rc, out = sh(f'git -C {REPO} worktree prune; cp -a {REPO} {W}/repo && git -C {W}/repo checkout -q -- .')
    assert rc == 0, out
    R = W + '/repo'
    seen = set()
    dj = os.path.join(V, 'tools', 'detect.json')
    detected = json.load(open(dj)) if os.path.exists(dj) else {}
    base = {}
    for f in glob.glob(REPO + '/pdfsyntax/*.py'):
        n = os.path.basename(f)
        base[n] = set(sh(f'git show ec6efd7:pdfsyntax/{n}', REPO)[1].splitlines())
    if not only:
        ids = {b['id'] for b in bugs()}
        for d in os.listdir(os.path.join(V, 'seeded')):
            if d not in ids:
                shutil.rmtree(os.path.join(V, 'seeded', d))
    for b in bugs():
        i = b['id']
        assert i not in seen, i
        seen.add(i)
        if only and i not in only and b['property'] not in only:
            continue
        sh('git checkout -q -- .', R)
        d = os.path.join(V, 'seeded', i)
        os.makedirs(d, exist_ok=True)
        bad = None
        for f, old, new in b['edits']:
            p = os.path.join(R, 'pdfsyntax', f)
            s = open(p).read()
            if s.count(old) != 1:
                bad = f'{f}: {s.count(old)} occurrences of {old[:50]!r}'
                break
            open(p, 'w').write(s.replace(old, new))
        if bad:
            print(i, 'STALE', bad)
            continue
        rc, diff = sh('git diff', R)
        f = None
        own = False
        for ln in diff.splitlines():
            if ln.startswith('+++'):
                f = ln.split('/')[-1]
            elif ln.startswith('-') and not ln.startswith('---') and ln[1:] in base.get(f, ()):
                own = True
        if not own:
            print(i, 'changes no original line?')
        open(d + '/patch.diff', 'w').write(diff)
        open(d + '/demo.py', 'w').write(b['demo'].lstrip('\n'))
        open(d + '/demo.sh', 'w').write('#!/bin/bash\nset -e\nd=$(cd "$(dirname "$0")" && pwd)\nPYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$PWD" timeout 120 python3 "$d/demo.py"\n')
        os.chmod(d + '/demo.sh', 0o755)
        json.dump({'property': b['property'], 'needs': b['needs'], 'what_it_breaks': b['breaks']}, open(d + '/meta.json', 'w'), indent=1)
        rc0, o0 = sh(d + '/demo.sh', REPO)
        rc1, o1 = sh(d + '/demo.sh', R)
        # tests in the copy
        rct, ot = sh(f'PYTHONDONTWRITEBYTECODE=1 PYTHONPATH={R} /opt/venv/bin/python -m pytest -q -p no:cacheprovider tests 2>&1 | tail -1', R)
        ok = rc0 == 0 and rc1 != 0 and ' failed' not in ot and 'passed' in ot
        line = f"{i} {b['property']} demo {rc0}/{rc1} tests {ot.strip()} {'OK' if ok else 'BAD'}"
        if not ok:
            print(line, o0[-300:], o1[-300:])
            continue
        if detect:
            env = dict(os.environ, PDFSYNTAX_REPO=R, VERIF_SEED='1', VERIF_TIER='quick', VERIF_SCRATCH=W + '/out')
            rcd, od = sh(f"python3-vt run_check.py {b['property']}", V, env)
            v = [x for x in od.splitlines() if x.startswith('VIOLATION')]
            detected[i] = [b['property'], rcd == 1 and bool(v), b['needs'], b['breaks'], own]
            line += f' check exit {rcd}' + (' CAUGHT' if rcd == 1 and v else ' MISSED') + ' ' + od.strip().splitlines()[-1]
        if not own:  # kept as a test of the checks, not listed as planted
            shutil.rmtree(d)
        print(line, flush=True)
    ids = {b['id'] for b in bugs()}
    json.dump({k: v for k, v in sorted(detected.items()) if k in ids}, open(dj, 'w'), indent=0)
    shutil.rmtree(W, ignore_errors=True)


main()
