"""Small changes that show only under a condition: do the checks notice them?

rare.py MUT.jsonl OUT.jsonl SECONDS [FILE-SUBSTRING ...]

Takes the mutants of mutate.py that tests or checks notice (MUT.jsonl, MUT.jsonl.checks)
and makes them active only when an object has been used some times, when something is
large, negative, repeated, ... Those that pass the tests are given to the checks. OUT:
{..., cond, caught, active: was the condition ever met in the checks?}
Only a tool of development: nothing in MANIFEST.json uses it.
"""
import json
import os
import queue
import random
import shutil
import subprocess
import sys
import tempfile
import threading
import time
from concurrent.futures import ThreadPoolExecutor

from mutate import ORDER, V, mutants, run_tests

HELPER = '''
import os as _os, weakref as _weakref
_uses, _marked = {}, []


def _values(loc):
    out = list(loc.values())
    me = loc.get('self')
    if me is not None:
        out += [v for k, v in getattr(me, '__dict__', {}).items()]
    return out


def _num(v):
    return type(v) in (int, float)


def _sized(v):
    return type(v) in (list, tuple, str, dict, set, range)


def _rare(cond, arg, site, loc):
    hit = False
    try:
        if cond == 'uses':
            me = loc.get('self')
            if me is not None:
                key = id(me), site
                if key not in _uses:
                    _uses[key] = 0
                    _weakref.finalize(me, _uses.pop, key, None)
                _uses[key] += 1
                hit = _uses[key] > arg
        elif cond == 'large':
            hit = any(_num(v) and abs(v) > arg or _sized(v) and len(v) > arg
                      for v in _values(loc))
        elif cond == 'is':
            hit = any(_num(v) and v == arg or _sized(v) and len(v) == arg
                      for v in _values(loc))
        elif cond == 'negative':
            hit = any(_num(v) and v < 0 for v in _values(loc))
        elif cond == 'fraction':
            hit = any(type(v) is float and v != int(v) for v in _values(loc))
        elif cond == 'bytes':
            hit = any(isinstance(v, bytes) for v in _values(loc))
        elif cond == 'same':
            hit = any(_sized(v) and 2 < len(v) < 99 and len({repr(x) for x in v}) < len(v)
                      for v in _values(loc) if type(v) in (list, tuple))
        elif cond == 'alike':
            hit = any(_sized(v) and 1 < len(v) < 99 and len({repr(x) for x in v}) == 1
                      for v in _values(loc) if type(v) in (list, tuple))
        elif cond == 'nones':
            hit = any(type(v) in (list, tuple) and None in v for v in _values(loc))
        elif cond == 'zeros':
            hit = any(type(v) in (list, tuple) and len(v) > 1 and 0 in v
                      for v in _values(loc))
        elif cond == 'sorted':
            hit = any(type(v) in (list, tuple) and len(v) > 2 and list(v) == sorted(v)[::-1]
                      for v in _values(loc))
    except Exception:
        hit = False
    if hit and not _marked:
        _marked.append(1)
        path = _os.environ.get('RARE_MARK')
        if path:
            open(path, 'a').close()
    return hit


'''
CONDS = [('uses', 4), ('uses', 25), ('uses', 60), ('large', 30), ('large', 200), ('large', 2000),
         ('is', 1), ('is', 2), ('is', 7), ('is', 16), ('negative', 0), ('fraction', 0),
         ('bytes', 0), ('same', 0), ('alike', 0), ('nones', 0), ('zeros', 0), ('sorted', 0)]


def build(src, line, kind, a, b, new, cond, arg):
    old = src[a:b]
    call = '_rare(%r, %r, %d, locals())' % (cond, arg, a)
    if kind == 'delete':
        text = 'if not %s: %s' % (call, old)
    elif kind == 'return':
        text = 'return None if %s else (%s)' % (call, old[len('return'):])
    elif kind in ('decorator', 'except'):
        return None
    else:
        text = '((%s) if %s else (%s))' % (new, call, old)
    out = src[:a] + text + src[b:]
    # the helper goes behind the module docstring
    end = out.index('"""', 3) + 3 if out.startswith('"""') else 0
    return out[:end] + '\n' + HELPER + out[end:]


def main(mut, out, seconds, *only):
    deadline = time.time() + float(seconds)
    noticed, done = set(), set()
    for ln in open(mut):
        d = json.loads(ln)
        if not d['tests']:
            noticed.add((d['file'], d['kind'], d['old'], d['new']))
    for ln in open(mut + '.checks'):
        d = json.loads(ln)
        if d['caught']:
            noticed.add((d['file'], d['kind'], d['old'], d['new']))
    if os.path.exists(out):
        for ln in open(out):
            d = json.loads(ln)
            done.add((d['file'], d['at'], d['new'], tuple(d['cond'])))
    src = '/repo/src/fauxdoc'
    jobs = []
    for base, _, files in os.walk(src):
        for f in sorted(files):
            fn = os.path.relpath(os.path.join(base, f), src)
            if not f.endswith('.py') or only and not any(o in fn for o in only):
                continue
            s = open(os.path.join(src, fn)).read()
            for line, kind, a, b, new in mutants(s):
                if (fn, kind, s[a:b], new) not in noticed:
                    continue
                for cond in CONDS:
                    if (fn, a, new, cond) in done:
                        continue
                    text = build(s, line, kind, a, b, new, *cond)
                    if text is None:
                        continue
                    try:
                        compile(text, fn, 'exec')
                    except SyntaxError:
                        continue
                    jobs.append((fn, line, kind, s[a:b], new, a, cond, text))
    random.Random(5).shuffle(jobs)
    print(len(jobs), 'rare mutants', flush=True)
    workers = int(os.environ.get('MUT_WORKERS', '3'))
    scale = os.environ.get('MUT_SCALE', '0.5')
    pool = queue.Queue()
    root = tempfile.mkdtemp(prefix='rare-')
    for i in range(workers):
        repo = os.path.join(root, 'r%d' % i)
        shutil.copytree('/repo', repo, symlinks=True)
        subprocess.run(['git', 'checkout', '-q', '--', '.'], cwd=repo)
        pool.put(repo)
    lock = threading.Lock()

    def check(repo, fn, mark):
        for c in next((v for k, v in ORDER.items() if k in fn), '').split():
            try:
                r = subprocess.run(
                    ['python3-vt', 'run.py', 'check', 'C' + c, '--scale', scale], cwd=V,
                    capture_output=True, text=True, timeout=400, env=dict(
                        os.environ, FZ_REPO=repo, FZ_EVIDENCE=repo + '-ev', VERIF_SEED='1',
                        VERIF_TIER='quick', PYTHONDONTWRITEBYTECODE='1', RARE_MARK=mark))
            except subprocess.TimeoutExpired:
                return 'C%s (hangs)' % c
            if r.returncode:
                return 'C%s%s' % (c, '' if 'VIOLATION property=C' + c in r.stdout else
                                  ' (rc %d) %s' % (r.returncode, r.stderr[-300:]))
        return None

    def one(job):
        if time.time() > deadline:
            return
        fn, line, kind, old, new, at, cond, text = job
        repo = pool.get()
        path = os.path.join(repo, 'src/fauxdoc', fn)
        orig = open(path).read()
        os.makedirs(repo + '-ev', exist_ok=True)
        mark = repo + '-mark'
        caught = None
        try:
            if os.path.exists(mark):
                os.remove(mark)
            open(path, 'w').write(text)
            passed = run_tests(repo)
            if passed:
                caught = check(repo, fn, mark)
            active = os.path.exists(mark)
        finally:
            open(path, 'w').write(orig)
            pool.put(repo)
        with lock:
            with open(out, 'a') as f:
                f.write(json.dumps({'file': fn, 'line': line, 'kind': kind, 'old': old,
                                    'new': new, 'at': at, 'cond': cond, 'tests': passed,
                                    'caught': caught, 'active': active}) + '\n')
            if passed and active:
                print('%-8s %-14s %s:%d %s: %.70r -> %.70r' % (
                    caught, '%s %s' % cond, fn, line, kind, old, new), flush=True)
    try:
        with ThreadPoolExecutor(workers) as ex:
            list(ex.map(one, jobs))
    finally:
        shutil.rmtree(root)


if __name__ == '__main__':
    main(*sys.argv[1:])
