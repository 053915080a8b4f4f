"""Builds and verifies a planted bug from a spec file.

mkseed.py SPEC.py [...]   (spec: PROPERTY, NEEDS, BREAKS, EDITS, DEMO)
mkseed.py --recheck ID [...]   re-verify folders in /verif/seeded

Works in a scratch copy of /repo under /tmp that is removed afterwards. A spec
that passes (tests green, demo clean=0 / patched!=0) is written to
/verif/seeded/<id>/ whether or not the property's check catches it.
"""
import json
import os
import re
import runpy
import shutil
import subprocess
import sys
import tempfile
from concurrent.futures import ThreadPoolExecutor

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SEEDED = os.path.join(V, 'seeded')
BASE = '62549fc'
DEMO_SH = ('#!/bin/sh\nPYTHONPATH="$PWD/src" PYTHONDONTWRITEBYTECODE=1 '
           'exec /opt/venv/bin/python "$(dirname "$0")/demo.py"\n')


def sh(cmd, cwd, env=None, timeout=900):
    e = dict(os.environ)
    e['PYTHONDONTWRITEBYTECODE'] = '1'
    e.update(env or {})
    return subprocess.run(cmd, cwd=cwd, env=e, capture_output=True, text=True,
                          timeout=timeout)


def at_base(repo):
    """True if the change in repo's working tree touches a line of BASE."""
    ok = False
    for path in sh(['git', 'diff', '--name-only'], repo).stdout.split():
        added = set()
        for m in re.finditer(r'(?m)^@@ -\S+ \+(\d+)(?:,(\d+))? @@', sh(
                ['git', 'diff', '-U0', BASE, 'HEAD', '--', path], repo).stdout):
            added.update(range(int(m[1]), int(m[1]) + int(m[2] or 1)))
        for m in re.finditer(r'(?m)^@@ -(\d+)(?:,(\d+))? ', sh(
                ['git', 'diff', '-U0', '--', path], repo).stdout):
            at, n = int(m[1]), int(m[2] or 1)
            old = [x not in added for x in (range(at, at + n) if n else (at, at + 1))]
            ok |= any(old) if n else all(old)
    return ok


def verify(sid, spec=None, props=None):
    out = []
    tmp = tempfile.mkdtemp(prefix='pl-' + sid + '-')
    try:
        repo = os.path.join(tmp, 'repo')
        shutil.copytree('/repo', repo, symlinks=True)
        sh(['git', 'checkout', '--', '.'], repo)
        folder = os.path.join(tmp, 'seed')
        os.mkdir(folder)
        if spec:
            for fn, old, new in spec['EDITS']:
                p = os.path.join(repo, 'src/fauxdoc', fn)
                s = open(p).read()
                if s.count(old) != 1:
                    return sid, 'EDIT matches %d times in %s: %r' % (s.count(old), fn, old[:60])
                open(p, 'w').write(s.replace(old, new))
            diff = sh(['git', 'diff'], repo).stdout
            open(folder + '/patch.diff', 'w').write(diff)
            open(folder + '/demo.py', 'w').write(spec['DEMO'].lstrip())
            open(folder + '/demo.sh', 'w').write(DEMO_SH)
            os.chmod(folder + '/demo.sh', 0o755)
            json.dump({'property': spec['PROPERTY'], 'needs': spec['NEEDS'],
                       'what_it_breaks': spec['BREAKS']},
                      open(folder + '/meta.json', 'w'), indent=1)
            sh(['git', 'checkout', '--', '.'], repo)
        else:
            shutil.rmtree(folder)
            shutil.copytree(os.path.join(SEEDED, sid), folder)
            diff = open(folder + '/patch.diff').read()
        meta = json.load(open(folder + '/meta.json'))
        clean = sh(['sh', folder + '/demo.sh'], repo)
        if clean.returncode:
            return sid, 'demo fails on the clean tree:\n' + clean.stderr[-600:]
        ap = sh(['git', 'apply', folder + '/patch.diff'], repo)
        if ap.returncode:
            return sid, 'does not apply: ' + ap.stderr
        if not at_base(repo):
            return sid, 'changes no original line'
        t = sh(['/opt/venv/bin/python', '-m', 'pytest', '-q', '-x', '-p',
                'no:cacheprovider', 'tests'], repo,
               {'PYTHONPATH': repo + '/src'})
        if t.returncode:
            return sid, 'TESTS fail: ' + '\n'.join(t.stdout.splitlines()[-4:])
        d = sh(['sh', folder + '/demo.sh'], repo, timeout=300)
        if d.returncode == 0:
            return sid, 'demo passes with the patch'
        if spec:
            dst = os.path.join(SEEDED, sid)
            shutil.rmtree(dst, ignore_errors=True)
            shutil.copytree(folder, dst)
        for prop in props or [meta['property']]:
            c = sh(['python3-vt', 'run.py', 'check', prop], V,
                   {'FZ_REPO': repo, 'FZ_EVIDENCE': tmp, 'VERIF_SEED': '1',
                    'VERIF_TIER': 'quick'})
            viol = [l for l in c.stdout.splitlines() if l.startswith('VIOLATION')]
            if c.returncode == 1 and viol:
                subs = sorted({re.search(r'(\w+)-[0-9a-f]+\.json|$', l).group(0) for l in viol})
                out.append('%s CAUGHT %d (%s)' % (prop, len(viol), viol[0][-60:]))
            else:
                out.append('%s MISSED rc=%d %s' % (prop, c.returncode, c.stdout[-300:]))
        return sid, '; '.join(out)
    finally:
        shutil.rmtree(tmp)


def main(argv):
    jobs = []
    if argv[0] == '--recheck':
        ids = argv[1:] or sorted(os.listdir(SEEDED))
        jobs = [(i, None) for i in ids if os.path.isdir(os.path.join(SEEDED, i))]
    else:
        for a in argv:
            jobs.append((os.path.basename(a)[:-3], runpy.run_path(a)))
    with ThreadPoolExecutor(2) as ex:
        for sid, res in ex.map(lambda j: verify(*j), jobs):
            print(sid, '->', res, flush=True)
            if 'CAUGHT' in res or 'MISSED' in res:
                path = os.path.join(V, 'tools', 'seed_results.json')
                known = json.load(open(path)) if os.path.exists(path) else {}
                known = {k: v for k, v in known.items()
                         if os.path.isdir(os.path.join(SEEDED, k))}
                known[sid] = 'caught' if 'CAUGHT' in res else 'missed'
                json.dump(known, open(path, 'w'), indent=0, sort_keys=True)


if __name__ == '__main__':
    main(sys.argv[1:])
