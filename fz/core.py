"""Runner: generation, sharding, shrinking, replay, evidence.

A property module defines PROP, RULE, SUBS (a list of Sub) and optionally
ASSUMPTIONS. Every Sub has a Hypothesis strategy that yields a *plain data*
case (repr/eval round-trips) and a check function `check(case, obs)` that
builds real fauxdoc objects, drives them and raises if the property does not
hold. All random choices live in the case.
"""
import datetime
import hashlib
import importlib
import json
import os
import resource
import shutil
import signal
import subprocess
import sys
import tempfile
import time
import traceback
import warnings

from . import env, forms, odd

VERIF = env.VERIF
CASE_SECONDS = 20          # wall-clock alarm per case; only *suspects* a hang
HANG_LINES = 12_000_000    # executed fauxdoc lines that count as "does not end"
SHRINK_CALLS = 600
SHRINK_SECONDS = 45


class Violation(AssertionError):
    """Raised by oracles: the property does not hold for this case."""


class HarnessError(Exception):
    """Raised by oracles when the harness itself is at fault (exit 2)."""


class CaseTimeout(BaseException):
    pass


class Sub:
    def __init__(self, name, strategy, check, quick, thorough=None):
        self.name = name
        self._strategy = strategy
        self.check = check
        self.quick = quick
        self.thorough = thorough or quick * 25

    @property
    def strategy(self):
        return self._strategy() if callable(self._strategy) else self._strategy


class Obs:
    """What a check reports about one case."""
    __slots__ = ('tags', 'nontrivial', 'evals')

    def __init__(self):
        self.tags = set()
        self.nontrivial = False
        self.evals = 1

    def tag(self, *labels):
        self.tags.update(labels)

    def interesting(self, cond=True):
        if cond:
            self.nontrivial = True


def req(cond, msg, *args):
    if not cond:
        raise Violation(msg % args if args else msg)


def eq(got, want, what):
    if got != want or type(got) is not type(want):
        raise Violation('%s: got %.600r, expected %.600r' % (what, got, want))


def raises(exc, what, fn, *args, **kwargs):
    """Requires fn(*args) to raise exc; returns the exception."""
    try:
        res = fn(*args, **kwargs)
    except exc as e:
        return e
    except Exception as e:
        raise Violation('%s: expected %s, got %s: %s' % (
            what, exc, type(e).__name__, e)) from e
    raise Violation('%s: expected %s, got result %.300r' % (what, exc, res))


_EVAL_NS = {'datetime': datetime, 'inf': float('inf'), 'nan': float('nan'),
            'range': range, 'frozenset': frozenset, '__builtins__': {}, **odd.NAMES}


def dump_case(case):
    text = repr(case)
    return text


def load_case(text):
    return eval(text, dict(_EVAL_NS))


def load_module(prop):
    return importlib.import_module('fz.props.' + prop.lower())


def derive_seed(*parts):
    h = hashlib.sha256('|'.join(map(str, parts)).encode()).digest()
    return int.from_bytes(h[:8], 'big')


def limit_memory():
    lim = 4 << 30
    resource.setrlimit(resource.RLIMIT_AS, (lim, lim))


def _alarm(signum, frame):
    raise CaseTimeout()


def run_case(sub, case, obs):
    """Runs one case; turns anything it raises into Violation/HarnessError."""
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        try:
            forms.start(repr(case))
            sub.check(case, obs)
        except (Violation, HarnessError):
            raise
        except Exception as e:
            tb = traceback.format_exc(limit=-6)
            raise Violation('unexpected %s: %s\n%s' % (
                type(e).__name__, e, tb)) from e


def confirm_hang(prop, subname, text):
    """Reruns a suspected hang counting lines; 'hang', 'ok' or 'unknown'."""
    try:
        p = subprocess.run(
            [sys.executable, os.path.join(VERIF, 'run.py'), 'linecount', prop,
             subname], input=text, text=True, stdout=subprocess.PIPE,
            stderr=subprocess.DEVNULL, timeout=240)
    except subprocess.TimeoutExpired:
        return 'unknown'
    out = p.stdout.strip().splitlines()
    return out[-1] if out and out[-1] in ('hang', 'ok') else 'unknown'


def linecount_main(prop, subname, text):
    class TooMany(BaseException):
        pass
    env.setup()
    limit_memory()
    mod = load_module(prop)
    sub = [s for s in mod.SUBS if s.name == subname][0]
    case = load_case(text)
    left = [HANG_LINES]
    src = env.SRC

    def local(frame, event, arg):
        if event == 'line':
            left[0] -= 1
            if left[0] < 0:
                raise TooMany()
        return local

    def tracer(frame, event, arg):
        if frame.f_code.co_filename.startswith(src):
            left[0] -= 1
            if left[0] < 0:
                raise TooMany()
            return local
        return None
    sys.settrace(tracer)
    try:
        forms.start(repr(case))
        sub.check(case, Obs())
        res = 'ok'
    except TooMany:
        res = 'hang'
    except Exception:
        res = 'ok'
    finally:
        sys.settrace(None)
    print(res)


class Recorder:
    def __init__(self, prop, sub):
        self.prop, self.sub = prop, sub
        self.evals = 0
        self.hashes = set()
        self.tags = {}
        self.samples = []
        self.failures = {}      # text -> message
        self.best = None
        self.first_text = None
        self.fail_time = None
        self.calls_after = 0
        self.no_shrink = False
        self.harness_error = None
        self.inconclusive = 0

    def __call__(self, case):
        if self.harness_error or self.inconclusive >= 4:
            return
        if self.fail_time is not None:
            self.calls_after += 1
            if (self.no_shrink or self.calls_after > SHRINK_CALLS
                    or time.monotonic() - self.fail_time > SHRINK_SECONDS):
                return
        text = dump_case(case)
        obs = Obs()
        signal.alarm(CASE_SECONDS)
        try:
            try:
                run_case(self.sub, case, obs)
            finally:
                signal.alarm(0)
        except CaseTimeout:
            verdict = ('unknown' if self.inconclusive >= 2 else
                       confirm_hang(self.prop, self.sub.name, text))
            if verdict == 'hang':
                self.no_shrink = True
                self._fail(text, 'does not terminate (more than %d lines of '
                                 'fauxdoc code executed)' % HANG_LINES)
            self.inconclusive += 1
            return
        except HarnessError as e:
            self.harness_error = '%s\ncase: %s' % (traceback.format_exc(), text)
            return
        except Violation as e:
            self._fail(text, str(e))
        self.evals += obs.evals
        for t in obs.tags:
            self.tags[t] = self.tags.get(t, 0) + 1
        if obs.nontrivial:
            h = hashlib.blake2b(text.encode('utf-8', 'backslashreplace'),
                                digest_size=8).hexdigest()
            if h not in self.hashes:
                self.hashes.add(h)
                n = len(self.hashes)
                if n in (1, 10, 100, 400) and len(text) < 1500:
                    self.samples.append(text)

    def _fail(self, text, msg):
        if self.fail_time is None:
            self.fail_time = time.monotonic()
            self.first_text = text
        self.failures[text] = msg
        if self.best is None or len(text) < len(self.best):
            self.best = text
        raise Violation(msg)

    def result(self):
        return {
            'sub': self.sub.name, 'evals': self.evals,
            'hashes': sorted(self.hashes), 'tags': self.tags,
            'samples': self.samples, 'best': self.best,
            'first': self.first_text,
            'message': self.failures.get(self.best),
            'first_message': self.failures.get(self.first_text),
            'harness_error': self.harness_error,
            'inconclusive': self.inconclusive,
        }


def run_sub(prop, sub, n, seed):
    import hypothesis
    from hypothesis import HealthCheck, Phase, given, settings
    rec = Recorder(prop, sub)

    @hypothesis.seed(seed)
    @settings(max_examples=n, database=None, deadline=None, print_blob=False,
              report_multiple_bugs=False,
              phases=[Phase.generate, Phase.shrink],
              suppress_health_check=[HealthCheck.too_slow])
    @given(sub.strategy)
    def test(case):
        rec(case)

    try:
        test()
    except Violation:
        pass
    except BaseException as e:
        # Flaky (shrink budget used up, or behaviour that depends on earlier
        # cases) is fine when a failing case was recorded; anything else is an
        # error of the harness.
        if rec.best is None:
            rec.harness_error = rec.harness_error or traceback.format_exc()
        if isinstance(e, KeyboardInterrupt):
            raise
    return rec.result()


def worker_main(prop, shard, nshards, tier, vseed, outpath, only=None, scale=1.0):
    env.setup()
    limit_memory()
    signal.signal(signal.SIGALRM, _alarm)
    mod = load_module(prop)
    results = []
    for sub in mod.SUBS:
        if only and sub.name not in only:
            continue
        total = sub.quick if tier == 'quick' else sub.thorough
        n = max(1, -(-int(total * scale) // nshards))
        seed = derive_seed(vseed, prop, sub.name, shard, nshards, tier)
        t0 = time.monotonic()
        r = run_sub(prop, sub, n, seed)
        r['wall'] = round(time.monotonic() - t0, 2)
        r['seed'] = seed
        r['n'] = n
        results.append(r)
        with open(outpath + '.tmp', 'w') as f:
            json.dump(results, f)
        os.replace(outpath + '.tmp', outpath)
        if r['best'] is not None or r['harness_error']:
            break
    with open(outpath + '.done', 'w') as f:
        f.write('done')


# --------------------------------------------------------------- parent side

def child_env(**extra):
    e = dict(os.environ)
    e['PYTHONHASHSEED'] = '0'
    e['PYTHONDONTWRITEBYTECODE'] = '1'
    e.pop('PYTHONPATH', None)
    e.update(extra)
    return e


def read_findings(prop):
    path = os.path.join(VERIF, 'KNOWN_FINDINGS.txt')
    out = []
    if os.path.exists(path):
        for line in open(path):
            if line.startswith('finding: property=%s ' % prop):
                body = line[len('finding: property=%s ' % prop):].rstrip('\n')
                head, case = body.split(' case=', 1)
                sub, what = head.split(' ', 1)
                out.append((sub.split('=', 1)[1], what, case))
    return out


def replay_text(prop, subname, text, timeout=300):
    """Runs one case in a fresh process: (failed?, message)."""
    p = subprocess.run([sys.executable, os.path.join(VERIF, 'run.py'),
                        'one', prop, subname], input=text, text=True,
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                       env=child_env(), timeout=timeout)
    if p.returncode == 0:
        return False, p.stdout
    if p.returncode == 1:
        return True, p.stdout
    raise RuntimeError('replay ended with %s:\n%s' % (p.returncode, p.stdout))


def one_main(prop, subname, text):
    env.setup()
    limit_memory()
    signal.signal(signal.SIGALRM, _alarm)
    mod = load_module(prop)
    allsubs = list(mod.SUBS) + list(getattr(mod, 'FINDING_SUBS', []))
    sub = [s for s in allsubs if s.name == subname][0]
    signal.alarm(CASE_SECONDS)
    try:
        run_case(sub, load_case(text), Obs())
    except Violation as e:
        print(e)
        return 1
    except CaseTimeout:
        signal.alarm(0)
        v = confirm_hang(prop, subname, text)
        print('timeout, confirmed as:', v)
        return 1 if v == 'hang' else 3
    finally:
        signal.alarm(0)
    return 0


def nshards_for(tier):
    return 8 if tier == 'quick' else 8


def check_main(prop, tier, vseed, only=None, scale=1.0, verbose=False):
    t0 = time.monotonic()
    env.setup()
    mod = load_module(prop)
    known = []
    for subname, what, case in read_findings(prop):
        failed, msg = replay_text(prop, subname, case)
        if failed:
            print('KNOWN-FINDING: property=%s %s' % (prop, what))
            known.append(what)
    k = nshards_for(tier)
    limit = 780 if tier == 'quick' else 6 * 3600
    tmp = tempfile.mkdtemp(prefix='fz-%s-' % prop.lower())
    procs = []
    try:
        for shard in range(k):
            out = os.path.join(tmp, 'r%d.json' % shard)
            log = open(os.path.join(tmp, 'l%d.txt' % shard), 'w')
            cmd = [sys.executable, os.path.join(VERIF, 'run.py'), 'worker', prop,
                   str(shard), str(k), tier, str(vseed), out,
                   ','.join(only or []), str(scale)]
            procs.append((subprocess.Popen(
                cmd, stdout=log, stderr=subprocess.STDOUT, env=child_env(),
                cwd=VERIF), out, log))
        failed_early = False
        while any(p.poll() is None for p, _, _ in procs):
            time.sleep(0.1)
            if time.monotonic() - t0 > limit:
                for p, _, _ in procs:
                    p.kill()
                print('ERROR: time limit of %d s reached' % limit)
                return 2
            for p, out, _ in procs:
                if p.poll() is not None and os.path.exists(out):
                    if any(r['best'] for r in json.load(open(out))):
                        failed_early = True
            if failed_early:
                # Give the others a moment, then stop them.
                for p, _, _ in procs:
                    if p.poll() is None:
                        p.terminate()
                for p, _, _ in procs:
                    p.wait()
        results = []
        bad = []
        for i, (p, out, log) in enumerate(procs):
            log.close()
            got = json.load(open(out)) if os.path.exists(out) else []
            for r in got:
                r['shard'] = i
            results.extend(got)
            if not failed_early and not (p.returncode == 0 and
                                         os.path.exists(out + '.done')):
                bad.append('worker %d ended with %s:\n%s' % (
                    i, p.returncode,
                    open(os.path.join(tmp, 'l%d.txt' % i)).read()[-3000:]))
        fails = [r for r in results if r['best'] is not None]
        for r in results:
            if r['harness_error']:
                bad.append('sub %s shard %d:\n%s' % (r['sub'], r['shard'],
                                                     r['harness_error']))
        code = 0
        if fails:
            code = report_violation(prop, tier, vseed, k, fails, scale)
        elif bad:
            print('ERROR: the check could not run properly')
            print('\n'.join(bad))
            return 2
        write_evidence(mod, prop, tier, vseed, results, known, fails,
                       time.monotonic() - t0)
        if verbose or os.environ.get('FZ_VERBOSE'):
            summary(results)
        if code == 0:
            print('OK property=%s tier=%s seed=%s cases=%d wall=%.1fs' % (
                prop, tier, vseed, sum(r['evals'] for r in results),
                time.monotonic() - t0))
        return code
    finally:
        for p, _, _ in procs:
            if p.poll() is None:
                p.kill()
        shutil.rmtree(tmp, ignore_errors=True)


def report_violation(prop, tier, vseed, k, fails, scale):
    fails.sort(key=lambda r: len(r['best']))
    os.makedirs(os.path.join(VERIF, 'replays'), exist_ok=True)
    for r in fails:
        for key in ('best', 'first'):
            text = r[key]
            try:
                failed, msg = replay_text(prop, r['sub'], text)
            except Exception as e:
                failed, msg = False, str(e)
            if failed:
                return _emit(prop, {'property': prop, 'kind': 'case',
                                    'sub': r['sub'], 'case': text,
                                    'message': msg.strip()})
    # It needs the cases before it (state leaking between objects): the replay
    # is the whole deterministic run of that shard.
    r = fails[0]
    return _emit(prop, {
        'property': prop, 'kind': 'shard', 'sub': r['sub'], 'tier': tier,
        'seed': r['seed'], 'n': r['n'], 'case': r['first'],
        'message': 'only fails after earlier cases of this run: '
                   + (r['first_message'] or '')})


def _emit(prop, rep):
    h = hashlib.sha256(json.dumps(rep, sort_keys=True).encode()).hexdigest()[:10]
    path = os.path.join(VERIF, 'replays', '%s-%s.json' % (prop, h))
    with open(path, 'w') as f:
        json.dump(rep, f, indent=1)
    print(rep['message'][-2500:])
    print('sub=%s case=%s' % (rep['sub'], rep['case'][:3000]))
    print('VIOLATION property=%s replay=%s' % (prop, path))
    return 1


def replay_main(path):
    rep = json.load(open(path))
    if rep['kind'] == 'case':
        failed, msg = replay_text(rep['property'], rep['sub'], rep['case'])
    else:
        env.setup()
        limit_memory()
        signal.signal(signal.SIGALRM, _alarm)
        mod = load_module(rep['property'])
        sub = [s for s in mod.SUBS if s.name == rep['sub']][0]
        r = run_sub(rep['property'], sub, rep['n'], rep['seed'])
        failed, msg = r['best'] is not None, str(r['message'])
    print(msg)
    if failed:
        print('VIOLATION property=%s replay=%s' % (rep['property'], path))
        return 1
    print('does not fail on this tree')
    return 0


def merged(results):
    subs = {}
    for r in results:
        s = subs.setdefault(r['sub'], {'evals': 0, 'hashes': set(), 'tags': {},
                                       'samples': [], 'wall': 0,
                                       'inconclusive': 0})
        s['evals'] += r['evals']
        s['hashes'].update(r['hashes'])
        s['samples'].extend(r['samples'])
        s['wall'] += r.get('wall', 0)
        s['inconclusive'] += r['inconclusive']
        for t, c in r['tags'].items():
            s['tags'][t] = s['tags'].get(t, 0) + c
    return subs


def summary(results):
    for name, s in merged(results).items():
        print('  %-16s evals=%d distinct_nontrivial=%d wall(sum)=%.1f' % (
            name, s['evals'], len(s['hashes']), s['wall']))
        print('      ' + ', '.join('%s=%d' % t for t in sorted(s['tags'].items())))


def write_evidence(mod, prop, tier, vseed, results, known, fails, wall):
    subs = merged(results)
    samples = []
    for name, s in subs.items():
        for text in sorted(s['samples'], key=len)[-3:]:
            samples.append({'sub': name, 'case': text[:1200]})
    ev = {
        'property': prop, 'tier': tier, 'seed': int(vseed),
        'level': 'exploration',
        'coverage': {
            'evaluations': sum(s['evals'] for s in subs.values()),
            'distinct_nontrivial': sum(len(s['hashes']) for s in subs.values()),
            'rule': mod.RULE,
            'samples': samples[:24],
            'per_check': {name: {
                'evaluations': s['evals'],
                'distinct_nontrivial': len(s['hashes']),
                'classes': dict(sorted(s['tags'].items())),
                'inconclusive': s['inconclusive'],
            } for name, s in subs.items()},
            'known_findings_seen': known,
        },
        'assumptions': list(getattr(mod, 'ASSUMPTIONS', [])),
        'wall_s': round(wall, 2),
        'violations': len(fails),
    }
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    path = os.path.join(VERIF, 'evidence', prop + '.json')
    with open(path + '.tmp', 'w') as f:
        json.dump(ev, f, indent=1)
    os.replace(path + '.tmp', path)
