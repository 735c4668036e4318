"""
Runs the parts of one property's check: every part is a function over generated
plain-data arguments, driven by Hypothesis in a process of its own.
"""
import base64
import collections
import hashlib
import importlib
import json
import os
import pickle
import random
import signal
import sys
import time
import traceback

from . import env
from .env import HarnessError, VERIF

DEFAULT_CPU_LIMIT = 90
MAX_WORKERS = 7


class Ctx(object):
    """what a part's body uses to say what kind of case it was given"""

    def __init__(self):
        self.labels = collections.Counter()
        self._flag = False
        self._seen = []

    def begin(self):
        self._flag = False
        self._seen = []

    def nontrivial(self, condition=True):
        if condition:
            self._flag = True

    def label(self, *names):
        self._seen.extend(names)


class Part(object):
    def __init__(self, name, fn, strategies, quick, thorough, rule, cpu_limit):
        self.name = name
        self.fn = fn
        self.strategies = strategies
        self.quick = quick
        self.thorough = thorough
        self.rule = rule
        self.cpu_limit = cpu_limit


class Suite(object):
    def __init__(self, prop, rule, assumptions=()):
        self.prop = prop
        self.rule = rule
        self.assumptions = list(assumptions)
        self.parts = []
        self.probes = {}

    def part(self, quick, thorough=None, rule=None,
             cpu_limit=DEFAULT_CPU_LIMIT, **strategies):
        def deco(fn):
            self.parts.append(Part(
                fn.__name__, fn, strategies, quick, thorough or quick * 20,
                rule or (fn.__doc__ or '').strip(), cpu_limit))
            return fn
        return deco

    def probe(self, fn):
        """a known finding's fixed input: returns True while it still fails"""
        self.probes[fn.__name__] = fn
        return fn


def seed_everything():
    import numpy as np
    random.seed(0)
    np.random.seed(0)
    torch = sys.modules.get('torch')
    if torch is not None:
        torch.manual_seed(0)


class _Abort(BaseException):
    pass


def describe(args, limit=1200):
    r = repr(args)
    return r if len(r) <= limit else r[:limit] + '...'


def run_part(part, seed, tier):
    """returns a plain dict; runs in the part's own process"""
    import hypothesis
    from hypothesis import HealthCheck, Phase

    ctx = Ctx()
    state = dict(
        evaluations=0, distinct=set(), samples=[], last_fail=None,
        first_fail=None)
    n = part.quick if tier == 'quick' else part.thorough
    scale = float(os.environ.get('VERIF_SCALE', '1'))
    n = max(1, int(n * scale))
    pid = os.getpid()

    def on_alarm(signum, frame):
        raise _Abort()

    signal.signal(signal.SIGPROF, on_alarm)

    def body(**kwargs):
        seed_everything()
        ctx.begin()
        state['current'] = kwargs
        state['evaluations'] += 1
        signal.setitimer(signal.ITIMER_PROF, part.cpu_limit)
        try:
            part.fn(ctx, **kwargs)
        except (HarnessError, hypothesis.errors.UnsatisfiedAssumption):
            raise
        except MemoryError as e:
            raise HarnessError('out of memory: %r' % (e,))
        except _Abort:
            raise
        except BaseException as e:
            if isinstance(e, (KeyboardInterrupt, GeneratorExit)):
                raise
            if 'hypothesis' in type(e).__module__:
                raise
            state['last_fail'] = (kwargs, traceback.format_exc())
            if state['first_fail'] is None:
                state['first_fail'] = state['last_fail']
            raise
        finally:
            signal.setitimer(signal.ITIMER_PROF, 0)
        ctx.labels.update(ctx._seen)
        if ctx._flag:
            key = hashlib.sha1(repr(kwargs).encode()).digest()
            if key not in state['distinct']:
                state['distinct'].add(key)
                k = len(state['distinct'])
                if k in (3, 20, 100):
                    state['samples'].append(
                        dict(part=part.name, case=describe(kwargs, 600)))

    part_seed = int.from_bytes(hashlib.sha256(
        ('%d:%s' % (seed, part.name)).encode()).digest()[:6], 'big')
    test = hypothesis.given(**part.strategies)(body)
    test = hypothesis.settings(
        max_examples=n, database=None, deadline=None, derandomize=False,
        print_blob=False, report_multiple_bugs=False,
        suppress_health_check=list(HealthCheck),
        phases=(Phase.generate, Phase.target, Phase.shrink),
        verbosity=hypothesis.Verbosity.quiet)(test)
    test = hypothesis.seed(part_seed)(test)

    start = time.time()
    failure = None
    try:
        test()
    except HarnessError:
        raise
    except _Abort:
        failure = dict(
            args=state['current'],
            error='did not finish within %d s of CPU time' % part.cpu_limit)
    except BaseException as e:
        f = state['last_fail'] or state['first_fail']
        if f is None:
            raise HarnessError(
                'part %s: %s' % (part.name, traceback.format_exc()))
        failure = dict(args=f[0], error=f[1])

    if failure is not None:
        try:
            pickled = base64.b64encode(pickle.dumps(failure['args'])).decode()
        except Exception:
            # the case can't be stored: its replay runs the part again
            pickled = None
        failure = dict(
            repr=describe(failure['args'], 20000), pickle=pickled,
            error=failure['error'])
    if failure is None and not state['distinct']:
        raise HarnessError('part %s made no non-trivial case' % part.name)
    return dict(
        name=part.name, evaluations=state['evaluations'],
        distinct=len(state['distinct']), samples=state['samples'],
        labels=dict(ctx.labels), failure=failure, rule=part.rule,
        wall=round(time.time() - start, 2))


def _child(part, seed, tier, path):
    code = 0
    try:
        result = run_part(part, seed, tier)
    except HarnessError as e:
        result = dict(harness_error=str(e))
    except BaseException:
        result = dict(harness_error=traceback.format_exc())
    with open(path, 'w') as f:
        json.dump(result, f)
    # sweep the scratch folders this process made
    env._cleanup()
    sys.stdout.flush()
    sys.stderr.flush()
    os._exit(code)


def run_parts(parts, seed, tier):
    """one process per part, a few at a time; yields (part, result)"""
    pending = list(parts)
    running = {}
    out = env.scratch_dir()
    results = {}
    debug = os.environ.get('VERIF_VERBOSE')
    while pending or running:
        while pending and len(running) < MAX_WORKERS:
            part = pending.pop(0)
            path = os.path.join(out, part.name + '.json')
            sys.stdout.flush()
            pid = os.fork()
            if pid == 0:
                if not debug:
                    # the code under test prints; only our own lines count
                    devnull = os.open(os.devnull, os.O_WRONLY)
                    os.dup2(devnull, 1)
                _child(part, seed, tier, path)
            running[pid] = (part, path)
        pid, status = os.wait()
        if pid not in running:
            continue
        part, path = running.pop(pid)
        if os.WIFSIGNALED(status):
            sig = os.WTERMSIG(status)
            if sig in (signal.SIGSEGV, signal.SIGBUS, signal.SIGABRT,
                       signal.SIGFPE, signal.SIGILL):
                results[part.name] = dict(
                    name=part.name, evaluations=0, distinct=0, samples=[],
                    labels={}, rule=part.rule, wall=0,
                    failure=dict(
                        repr='the whole part, seed %d' % seed, pickle=None,
                        error='the process died of signal %d' % sig))
            else:
                results[part.name] = dict(
                    harness_error='part %s was ended by signal %d' % (
                        part.name, sig))
        else:
            try:
                with open(path) as f:
                    results[part.name] = json.load(f)
            except (OSError, ValueError) as e:
                results[part.name] = dict(
                    harness_error='part %s left no result: %r' % (
                        part.name, e))
    env.remove_scratch(out)
    return [(p, results[p.name]) for p in parts]


def fails_alone(part, pickled):
    """whether a case fails in a process that has seen no other"""
    sys.stdout.flush()
    pid = os.fork()
    if pid == 0:
        code = 1
        try:
            devnull = os.open(os.devnull, os.O_WRONLY)
            os.dup2(devnull, 1)
            os.dup2(devnull, 2)
            signal.alarm(100)
            args = pickle.loads(base64.b64decode(pickled))
            seed_everything()
            part.fn(Ctx(), **args)
            code = 0
        except BaseException:
            pass
        env._cleanup()
        os._exit(code)
    _, status = os.waitpid(pid, 0)
    return status != 0


def load_findings(prop):
    """{probe name: text} of the findings listed for the property"""
    found = {}
    path = os.path.join(VERIF, 'KNOWN_FINDINGS.txt')
    if not os.path.exists(path):
        return found
    with open(path) as f:
        for line in f:
            line = line.strip()
            prefix = 'finding: property=%s probe=' % prop
            if line.startswith(prefix):
                name, text = line[len(prefix):].split(' ', 1)
                found[name] = text
    return found


def write_replay(prop, seed, tier, name, failure):
    d = os.path.join(VERIF, 'replays')
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, '%s-%s.json' % (prop, name))
    with open(path, 'w') as f:
        json.dump(dict(
            property=prop, part=name, seed=seed, tier=tier,
            args=failure['repr'], args_pickle=failure['pickle'],
            error=failure['error'],
            how_to_replay='./run_check.sh --replay ' + path), f, indent=1)
    return path


def load_suite(prop):
    module = importlib.import_module('checks.' + prop)
    return module.suite


LOADING = 'loading'


def raised_by_the_project(e):
    """whether any of the code of the project was running"""
    root = os.path.join(env.REPO, '')
    return any(os.path.abspath(f.filename).startswith(root)
               for f in traceback.extract_tb(e.__traceback__))


def replay(path):
    with open(path) as f:
        r = json.load(f)
    try:
        suite = load_suite(r['property'])
    except Exception as e:
        if not raised_by_the_project(e):
            raise
        traceback.print_exc(file=sys.stdout)
        print('VIOLATION property=%s replay=%s' % (r['property'], path))
        return 1
    if r['part'] == LOADING:
        print('the replayed case passes')
        return 0
    for part in suite.parts:
        if part.name == r['part']:
            break
    else:
        raise HarnessError('no part %(part)s in %(property)s' % r)
    if r['args_pickle'] is None:
        (_, result), = run_parts([part], r['seed'], r['tier'])
        failed = result.get('failure')
    else:
        args = pickle.loads(base64.b64decode(r['args_pickle']))
        seed_everything()
        try:
            part.fn(Ctx(), **args)
            failed = None
        except HarnessError:
            raise
        except BaseException:
            failed = traceback.format_exc()
    if failed:
        print(failed)
        print('VIOLATION property=%s replay=%s' % (r['property'], path))
        return 1
    print('the replayed case passes')
    return 0


def check(prop, tier, seed, only=None):
    start = time.time()
    try:
        suite = load_suite(prop)
    except Exception as e:
        if not raised_by_the_project(e):
            raise
        failure = dict(
            repr='importing it', pickle=None, error=traceback.format_exc())
        print(failure['error'][-3500:])
        print('VIOLATION property=%s replay=%s' % (
            prop, write_replay(prop, seed, tier, LOADING, failure)))
        return 1
    if suite.prop != prop:
        raise HarnessError('checks/%s.py is about %s' % (prop, suite.prop))
    parts = [p for p in suite.parts if only is None or p.name in only]
    findings = load_findings(prop)
    violations = []

    for name, fn in suite.probes.items():
        seed_everything()
        try:
            still = bool(fn())
        except HarnessError:
            raise
        except Exception:
            # something else is wrong, which is up to the parts to report
            traceback.print_exc(file=sys.stdout)
            still = False
        if still and name in findings:
            print('KNOWN-FINDING: property=%s %s' % (prop, findings[name]))
        elif still:
            failure = dict(
                repr='probe ' + name, pickle=None, error='probe failed')
            violations.append(
                (name, write_replay(prop, seed, tier, name, failure)))

    errors = []
    coverage_parts = []
    samples = []
    evaluations = distinct = 0
    for part, result in run_parts(parts, seed, tier):
        if 'harness_error' in result:
            errors.append(result['harness_error'])
            continue
        evaluations += result['evaluations']
        distinct += result['distinct']
        samples.extend(result['samples'][:2])
        coverage_parts.append({
            k: result[k] for k in
            ('name', 'rule', 'evaluations', 'distinct', 'labels', 'wall')})
        if result['failure']:
            f = result['failure']
            if f['pickle'] and 'did not finish' not in f['error'] \
                    and not fails_alone(part, f['pickle']):
                # it takes the cases before it, so that all are the replay
                f['pickle'] = None
                f['repr'] = 'after other cases, ' + f['repr']
            path = write_replay(prop, seed, tier, part.name, result['failure'])
            violations.append((part.name, path))
            print('--- %s/%s failed for %s' % (
                prop, part.name, result['failure']['repr'][:3000]))
            print(result['failure']['error'][-3500:])

    evidence = dict(
        property=prop, tier=tier, seed=seed, level='exploration',
        coverage=dict(
            evaluations=evaluations, distinct_nontrivial=distinct,
            rule=suite.rule, samples=samples, parts=coverage_parts),
        assumptions=suite.assumptions,
        wall_s=round(time.time() - start, 2), violations=len(violations))
    if only is None:
        d = os.path.join(VERIF, 'evidence')
        os.makedirs(d, exist_ok=True)
        with open(os.path.join(d, prop + '.json'), 'w') as f:
            json.dump(evidence, f, indent=1)
    for p in coverage_parts:
        print('%s %-38s %6d cases %6d non-trivial %7.1f s  %s' % (
            prop, p['name'], p['evaluations'], p['distinct'], p['wall'],
            json.dumps(p['labels'], sort_keys=True)[:300]))
    for name, path in violations:
        print('VIOLATION property=%s replay=%s' % (prop, path))
    if violations:
        return 1
    if errors:
        for e in errors:
            print('HARNESS ERROR: ' + e, file=sys.stderr)
        return 2
    print('%s held: %d cases, %d non-trivial, %.1f s' % (
        prop, evaluations, distinct, time.time() - start))
    return 0
