"""Systematic small changes to fauxdoc: which of them do tests and checks miss?

mutate.py OUT.jsonl 1 [FILE-SUBSTRING ...]    which mutants pass the tests?
mutate.py OUT.jsonl 2 [FILE-SUBSTRING ...]    which of these are caught? (OUT.jsonl.checks)

Works in scratch copies under /tmp. For every mutant that passes the existing
tests, checks are run (reduced scale) until one reports it. Lines of OUT:
{file, line, kind, old, new, tests: bool, caught: "Cxx"|null}. Resumes OUT.
Only a tool of development: nothing in MANIFEST.json uses it.
"""
import ast
import json
import os
import shutil
import subprocess
import sys
import tempfile
from concurrent.futures import ThreadPoolExecutor

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ORDER = {
    'dtrange': '12 13 14 15', 'emitter.py': '28 01 20', 'group': '25', 'mathtools': '10 09 27 05 08',
    'mixins': '28 02 03 19', 'profile': '21 22 29 30 23', 'typing': '26 28', 'warn': '26 15',
    'emitters/__init__': '26 01', 'choice': '05 06 04 07 09 08 19', 'fixed': '11 19 01',
    'fromfields': '23 24 29', 'text': '16 17 18 19 27', 'wrappers': '20 24 23',
}
CMP = {ast.Lt: ['<='], ast.LtE: ['<'], ast.Gt: ['>='], ast.GtE: ['>'], ast.Eq: ['!='],
       ast.NotEq: ['=='], ast.Is: ['is not'], ast.IsNot: ['is'], ast.In: ['not in'],
       ast.NotIn: ['in']}
BIN = {ast.Add: ['-'], ast.Sub: ['+'], ast.Mult: ['+', '//'], ast.Div: ['*', '//'],
       ast.FloorDiv: ['/', '*'], ast.Mod: ['//'], ast.Pow: ['*']}


def mutants(src):
    """Yields (line, kind, start, end, text) replacements of source offsets."""
    tree = ast.parse(src)
    lines = src.splitlines(keepends=True)
    starts = [0]
    for ln in lines:
        starts.append(starts[-1] + len(ln))

    def off(line, col):
        # col is in utf-8 bytes
        return starts[line - 1] + len(lines[line - 1].encode()[:col].decode())

    def span(n):
        return off(n.lineno, n.col_offset), off(n.end_lineno, n.end_col_offset)

    def text(n):
        a, b = span(n)
        return src[a:b]
    docs, hints = set(), set()
    for n in ast.walk(tree):
        body = getattr(n, 'body', None)
        if isinstance(body, list) and body and isinstance(body[0], ast.Expr) and isinstance(
                body[0].value, ast.Constant):
            docs.add(body[0].value)
            docs.add(body[0])
        for f in ('annotation', 'returns'):
            h = getattr(n, f, None)
            if h is not None:
                hints.update(ast.walk(h))

    def rep(n, kind, new):
        a, b = span(n)
        return n.lineno, kind, a, b, new
    for n in ast.walk(tree):
        if n in docs or n in hints:
            continue
        if isinstance(n, ast.Compare) and len(n.ops) == 1:
            for o in CMP.get(type(n.ops[0]), []):
                yield rep(n, 'compare', '%s %s %s' % (text(n.left), o, text(n.comparators[0])))
        elif isinstance(n, ast.BinOp):
            for o in BIN.get(type(n.op), []):
                yield rep(n, 'arith', '(%s) %s (%s)' % (text(n.left), o, text(n.right)))
        elif isinstance(n, ast.BoolOp):
            other = ' or ' if isinstance(n.op, ast.And) else ' and '
            yield rep(n, 'bool', '(' + other.join('(%s)' % text(v) for v in n.values) + ')')
            for i in range(len(n.values)):
                rest = n.values[:i] + n.values[i + 1:]
                word = ' and ' if isinstance(n.op, ast.And) else ' or '
                yield rep(n, 'bool drop', '(' + word.join('(%s)' % text(v) for v in rest) + ')')
        elif isinstance(n, ast.UnaryOp):
            yield rep(n, 'unary', '(%s)' % text(n.operand))
        elif isinstance(n, ast.Constant):
            if n.value is True or n.value is False:
                yield rep(n, 'const', str(not n.value))
            elif n.value is None:
                yield rep(n, 'const', '0')
            elif isinstance(n.value, (int, float)):
                yield rep(n, 'const', repr(n.value + 1))
                yield rep(n, 'const', '(%r)' % (n.value - 1))
            elif isinstance(n.value, str) and n.value and not isinstance(n, ast.JoinedStr):
                if text(n)[:1] in '\'"':
                    yield rep(n, 'const', repr(n.value + 'x'))
        elif isinstance(n, ast.IfExp):
            yield rep(n, 'ifexp', '(%s)' % text(n.body))
            yield rep(n, 'ifexp', '(%s)' % text(n.orelse))
        elif isinstance(n, (ast.If, ast.While)):
            yield rep(n.test, 'test', 'True' if isinstance(n, ast.If) else 'False')
            yield rep(n.test, 'test', 'False')
        elif isinstance(n, ast.comprehension) and n.ifs:
            yield rep(n.ifs[0], 'filter', 'True')
        elif isinstance(n, ast.Call):
            args = n.args
            for kw in n.keywords:
                parts = [text(a) for a in args] + [
                    ('%s=%s' % (k.arg, text(k.value)) if k.arg else '**' + text(k.value))
                    for k in n.keywords if k is not kw]
                yield rep(n, 'drop kw', '%s(%s)' % (text(n.func), ', '.join(parts)))
            if len(args) >= 1:
                kws = [('%s=%s' % (k.arg, text(k.value)) if k.arg else '**' + text(k.value))
                       for k in n.keywords]
                yield rep(n, 'drop arg', '%s(%s)' % (text(n.func), ', '.join(
                    [text(a) for a in args[:-1]] + kws)))
                yield rep(n, 'call to arg', '(%s)' % text(args[0]).lstrip('*'))
            if len(args) >= 2:
                yield rep(n, 'swap args', '%s(%s)' % (text(n.func), ', '.join(
                    [text(args[1]), text(args[0])] + [text(a) for a in args[2:]] + kws)))
        elif isinstance(n, ast.Subscript) and isinstance(n.slice, ast.Slice):
            yield rep(n, 'slice', text(n.value))
        if isinstance(n, (ast.Assign, ast.AugAssign, ast.Expr, ast.Raise, ast.Delete,
                          ast.Break, ast.Continue)):
            yield rep(n, 'delete', 'pass')
        elif isinstance(n, ast.Return) and n.value is not None:
            yield rep(n, 'return', 'return None')
        elif isinstance(n, ast.FunctionDef):
            for d in n.decorator_list:
                a, b = span(d)
                yield d.lineno, 'decorator', a - 1, b, ''
            for name in ('defaults', 'kw_defaults'):
                pass
        elif isinstance(n, ast.ExceptHandler) and n.type is not None:
            yield rep(n.type, 'except', 'ZeroDivisionError')


def run_tests(repo):
    try:
        t = subprocess.run(
            ['/opt/venv/bin/python', '-m', 'pytest', '-q', '-x', '-p', 'no:cacheprovider',
             'tests'], cwd=repo, capture_output=True, timeout=60,
            env=dict(os.environ, PYTHONPATH=repo + '/src', PYTHONDONTWRITEBYTECODE='1'))
        return t.returncode == 0
    except subprocess.TimeoutExpired:
        return False


def run_checks(repo, fn, tmp):
    first = next((v for k, v in ORDER.items() if k in fn), '').split()
    for c in first:
        try:
            r = subprocess.run(
                ['python3-vt', 'run.py', 'check', 'C' + c, '--scale', '0.3'], cwd=V,
                capture_output=True, text=True, timeout=300, env=dict(
                    os.environ, FZ_REPO=repo, FZ_EVIDENCE=tmp, VERIF_SEED='1',
                    VERIF_TIER='quick', PYTHONDONTWRITEBYTECODE='1'))
        except subprocess.TimeoutExpired:
            return 'C%s (hangs)' % c
        if r.returncode == 1 and 'VIOLATION property=C' + c in r.stdout:
            return 'C' + c
        if r.returncode:
            return 'C%s (rc %d) %s' % (c, r.returncode, (r.stdout + r.stderr)[-300:])
    return None


def main(out, phase, *only):
    phase = int(phase)
    src = '/repo/src/fauxdoc'
    done, passing = set(), set()
    if phase == 2:
        for ln in open(out):
            d = json.loads(ln)
            if d['tests']:
                passing.add((d['file'], d['line'], d['kind'], d['old'], d['new'], d['at']))
        out += '.checks'
    if os.path.exists(out):
        for ln in open(out):
            d = json.loads(ln)
            done.add((d['file'], d['line'], d['kind'], d['old'], d['new'], d['at']))
    jobs = []
    for base, _, files in os.walk(src):
        for f in sorted(files):
            fn = os.path.relpath(os.path.join(base, f), src)
            if not f.endswith('.py') or only and not any(o in fn for o in only):
                continue
            s = open(os.path.join(src, fn)).read()
            seen = set()
            for line, kind, a, b, new in mutants(s):
                text = s[:a] + new + s[b:]
                if text in seen or text == s or (fn, line, kind, s[a:b], new, a) in done:
                    continue
                seen.add(text)
                try:
                    compile(text, fn, 'exec')
                except SyntaxError:
                    continue
                if phase == 2 and (fn, line, kind, s[a:b], new, a) not in passing:
                    continue
                jobs.append((fn, line, kind, s[a:b], new, text, a))
    import random
    random.Random(1).shuffle(jobs)
    print(len(jobs), 'mutants', flush=True)
    import queue
    import threading
    workers = int(os.environ.get('MUT_WORKERS', '6'))
    pool = queue.Queue()
    root = tempfile.mkdtemp(prefix='mut-')
    for i in range(workers):
        repo = os.path.join(root, 'r%d' % i)
        shutil.copytree('/repo', repo, symlinks=True)
        subprocess.run(['git', 'checkout', '-q', '--', '.'], cwd=repo)
        pool.put(repo)
    lock = threading.Lock()

    def one(job):
        fn, line, kind, old, new, text, at = job
        key = fn, line, kind, old, new, at
        repo = pool.get()
        path = os.path.join(repo, 'src/fauxdoc', fn)
        orig = open(path).read()
        tmp = repo + '-ev'
        os.makedirs(tmp, exist_ok=True)
        try:
            open(path, 'w').write(text)
            passed = run_tests(repo) if key not in passing else True
            caught = None
            if passed and phase == 2:
                caught = run_checks(repo, fn, tmp)
        finally:
            open(path, 'w').write(orig)
            pool.put(repo)
        with lock:
            with open(out, 'a') as f:
                f.write(json.dumps({'file': fn, 'line': line, 'kind': kind, 'old': old,
                                    'new': new, 'at': at, 'tests': passed,
                                    'caught': caught}) + '\n')
            if passed:
                print('%-14s %s:%d %s: %.70r -> %.70r' % (caught, fn, line, kind, old, new),
                      flush=True)
    try:
        with ThreadPoolExecutor(workers) as ex:
            list(ex.map(one, jobs))
    finally:
        shutil.rmtree(root)


if __name__ == '__main__':
    main(*sys.argv[1:])
