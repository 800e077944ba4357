"""
Runs a property's simulations over seeds on several worker processes, minimises a violation, writes
the replay file and the evidence.

    python -m sim.runner C01 [--runs N] [--workers N]
    python -m sim.runner --worker C01 START STRIDE RUNS SEED TIER DEADLINE
    python -m sim.runner --replay FILE
"""
import hashlib
import importlib
import json
import os
import random
import subprocess
import sys
import time
import traceback

from . import sched
from .loader import PILO, StepLimit

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
WORKERS = 8


def prop(pid):
    return importlib.import_module('sim.props.' + pid.lower()).CHECK


class Check(object):
    """
    A property's check: `plan(rng, tier)` draws a plan (plain JSON), `run(plan)` executes it and
    returns an Outcome.
    """

    id = None
    level = 'exploration'
    rule = ''
    runs = {'quick': 4000, 'thorough': 60000}
    real = ['pilo (all modules; instrumented in memory with yield points, meaning unchanged)']
    stub = []
    #: keys that a shrinking step does not remove
    keep = frozenset((
        'n', 'k', 'h', 'o', 'src', 'id', 'ret', 'acts', 'kind', 'sid', 'data', 'form', 'fields', 'forms', 'order',
        'schema', 'base', 'tk', 'idents', 'ident', 'item', 'items', 'key', 'val', 'group', 'op', 'ops', 'sched',
        'threads', 'inst', 'field', 'srcs', 'sections', 'merge', 'stop', 'bvars', 'explicit', 'how',
    ))

    def plan(self, rng, tier):
        raise NotImplementedError

    def run(self, plan):
        raise NotImplementedError

    def sample(self, plan):
        return plan


class Outcome(object):

    def __init__(self):
        self.violation = None      # (class, detail)
        self.trace = None          # explicit schedule
        self.nontrivial = False
        self.sig = ''              # what was executed, for counting distinct executions
        self.stats = {}
        self.fired = {}
        self.probes = {}

    def violate(self, cls, detail):
        if self.violation is None:
            self.violation = (cls, detail)

    def add(self, name, n=1):
        self.stats[name] = self.stats.get(name, 0) + n

    def probe(self, name, n=1):
        if n:
            self.probes[name] = self.probes.get(name, 0) + n

    def fire(self, fired):
        for k, n in fired.items():
            self.fired[k] = self.fired.get(k, 0) + n


def seed_rng(pid, seed, index):
    return random.Random('{0}/{1}/{2}'.format(pid, seed, index))


def one(check, seed, index, tier):
    plan = check.plan(seed_rng(check.id, seed, index), tier)
    if plan is None:
        return None, None
    return plan, execute(check, plan)


def execute(check, plan):
    """
    Runs a plan. What a plan only prepares with (definitions of forms, ...) is to be accepted: that
    pilo itself raises there is a violation, not a plan that cannot be run.
    """
    try:
        return check.run(plan)
    except StepLimit:
        cls, ex = 'does not end', None
    except (sched.PlanError, sched.Abort):
        raise
    except Exception as error:
        where = sched.raised_by(error, PILO)
        if where is None:
            raise
        cls, ex = 'pilo raised {0} in {1}'.format(type(error).__name__, where), error
    o = Outcome()
    o.sig = cls
    o.violate(cls, {'what': cls, 'exception': repr(ex)})
    return o


def digest(*parts):
    return hashlib.sha1(repr(parts).encode('utf-8', 'replace')).hexdigest()[:16]


def merge(into, d):
    for k, n in d.items():
        into[k] = into.get(k, 0) + n


# workers

def worker(pid, start, stride, runs, seed, tier, deadline):
    check = prop(pid)
    out = {
        'runs': 0, 'nontrivial': set(), 'sigs': set(), 'stats': {}, 'fired': {}, 'probes': {},
        'violation': None, 'error': None, 'sample': None, 'discarded': 0, 'digest': 0,
        'known': {},
    }
    t0 = time.time()
    index = start
    while index < runs and time.time() - t0 < deadline:
        try:
            plan, o = one(check, seed, index, tier)
        except sched.PlanError:
            out['discarded'] += 1
            if out['discarded'] > 50 and out['discarded'] > out['runs']:
                out['error'] = 'plans cannot be run: ' + traceback.format_exc()
                break
            index += stride
            continue
        except BaseException:
            out['error'] = 'run {0}: {1}'.format(index, traceback.format_exc())
            break
        if o is None:
            index += stride
            continue
        out['runs'] += 1
        # a sum: the same however the runs are divided among the workers
        text = '{0} {1} {2}\n'.format(index, o.sig, o.violation).encode('utf-8', 'replace')
        out['digest'] += int(hashlib.sha1(text).hexdigest(), 16)
        sig = digest(o.sig)
        out['sigs'].add(sig)
        if o.nontrivial:
            out['nontrivial'].add(sig)
            if out['sample'] is None:
                out['sample'] = {'index': index, 'plan': check.sample(plan)}
        for name in ('stats', 'fired', 'probes'):
            merge(out[name], getattr(o, name))
        if o.violation is not None:
            out['violation'] = {
                'index': index, 'class': o.violation[0], 'detail': o.violation[1], 'plan': plan,
                'trace': o.trace,
            }
            break
        index += stride
    out['wall'] = time.time() - t0
    out['nontrivial'] = sorted(out['nontrivial'])
    out['sigs'] = sorted(out['sigs'])
    out['stopped'] = index < runs and out['violation'] is None and out['error'] is None
    sys.stdout.write(json.dumps(out, default=repr))
    sys.stdout.flush()


def python():
    return os.environ.get('SIM_PYTHON') or sys.executable


def environment():
    env = dict(os.environ)
    env['PYTHONPATH'] = ROOT
    env['PYTHONDONTWRITEBYTECODE'] = '1'
    env.setdefault('PYTHONHASHSEED', '0')
    return env


def spawn(args, **kwargs):
    return subprocess.Popen(
        [python(), '-m', 'sim.runner'] + [str(a) for a in args],
        cwd=ROOT, env=environment(), stdout=subprocess.PIPE, stderr=subprocess.PIPE, **kwargs
    )


# minimisation

def reproduces(check, plan, cls):
    try:
        o = execute(check, plan)
    except BaseException:
        return None
    if o is not None and o.violation is not None and o.violation[0] == cls:
        return o
    return None


def size(x):
    if isinstance(x, dict):
        return 1 + sum(1 + size(v) for v in x.values())
    if isinstance(x, list):
        return 1 + sum(size(v) for v in x)
    return 1


def variants(check, node, in_data=False):
    """Smaller versions of a JSON value."""
    if isinstance(node, list):
        n = len(node)
        chunk = n
        while chunk >= 1:
            for i in range(0, n, chunk):
                if chunk < n or n == 1 or chunk == n:
                    yield node[:i] + node[i + chunk:]
            chunk //= 2
        for i, x in enumerate(node):
            for v in variants(check, x, in_data):
                yield node[:i] + [v] + node[i + 1:]
    elif isinstance(node, dict):
        for k in list(node):
            if in_data and not k.startswith('$') or k not in check.keep:
                rest = dict(node)
                del rest[k]
                yield rest
        for k in list(node):
            for v in variants(check, node[k], in_data or k in ('data', 'vars', 'bvars')):
                rest = dict(node)
                rest[k] = v
                yield rest


def minimise(check, plan, cls, trace, seconds):
    """-> smallest plan found that still violates in the same way, its outcome"""
    t0 = time.time()
    best = json.loads(json.dumps(plan))
    if trace is not None:
        explicit = dict(best, sched={'explicit': trace})
        if reproduces(check, explicit, cls):
            best = explicit
    outcome = reproduces(check, best, cls)
    if outcome is None:
        return plan, None, 0
    # fewer switches may do
    if trace and 'explicit' in best.get('sched', {}):
        for spec in ([], trace[:1], trace[:2]):
            candidate = dict(best, sched={'explicit': spec})
            o = reproduces(check, candidate, cls)
            if o:
                best, outcome = candidate, o
                break
    tried = 0
    progress = True
    while progress and time.time() - t0 < seconds:
        progress = False
        for candidate in variants(check, best):
            if time.time() - t0 > seconds:
                break
            if size(candidate) >= size(best):
                continue
            tried += 1
            o = reproduces(check, candidate, cls)
            if o is None and 'sched' in candidate and 'explicit' not in candidate['sched']:
                continue
            if o is not None:
                best, outcome = candidate, o
                progress = True
                break
    return best, outcome, tried


def minimise_main(path):
    """Child process: minimises the violation in the file, in place."""
    with open(path) as fo:
        job = json.load(fo)
    check = prop(job['property'])
    plan, outcome, tried = minimise(check, job['plan'], job['class'], job.get('trace'), job['seconds'])
    job['original_size'] = size(job['plan'])
    if outcome is not None:
        job['plan'] = plan
        job['detail'] = outcome.violation[1]
        job['minimised'] = True
    job['size'] = size(job['plan'])
    job['candidates_tried'] = tried
    with open(path + '.min', 'w') as fo:
        json.dump(job, fo, indent=1, default=repr)
    os.rename(path + '.min', path)


def replay(path, quiet=False):
    with open(path) as fo:
        job = json.load(fo)
    check = prop(job['property'])
    o = execute(check, job['plan'])
    if o.violation is not None and o.violation[0] == job['class']:
        if not quiet:
            print('VIOLATION property={0} replay={1}'.format(job['property'], path))
            print('class: {0}'.format(o.violation[0]))
            print(json.dumps(o.violation[1], indent=1, default=repr))
        return 1
    if o.violation is not None:
        print('another violation: {0} {1}'.format(o.violation[0], json.dumps(o.violation[1], default=repr)))
        return 1
    print('not reproduced')
    return 0


# main

def main(pid, runs=None, workers=WORKERS, out=None):
    check = prop(pid)
    seed = int(os.environ.get('VERIF_SEED', '1'))
    tier = os.environ.get('VERIF_TIER', 'quick')
    if tier not in ('quick', 'thorough'):
        tier = 'quick'
    runs = runs or check.runs[tier]
    deadline = 150 if tier == 'quick' else 700
    print('property={0} seed={1} tier={2} runs={3} workers={4}'.format(pid, seed, tier, runs, workers))
    sys.stdout.flush()
    t0 = time.time()
    procs = [
        spawn(['--worker', pid, w, workers, runs, seed, tier, deadline]) for w in range(workers)
    ]
    results, errors = [], []
    for p in procs:
        left = max(1, deadline + 60 - (time.time() - t0))
        try:
            stdout, stderr = p.communicate(timeout=left)
            results.append(json.loads(stdout.decode('utf-8')))
        except subprocess.TimeoutExpired:
            p.kill()
            p.communicate()
            errors.append('worker killed after {0:.0f} s'.format(time.time() - t0))
        except ValueError:
            errors.append('worker failed: ' + stderr.decode('utf-8', 'replace')[-3000:])
    errors.extend(r['error'] for r in results if r['error'])
    violations = sorted((r['violation'] for r in results if r['violation']), key=lambda v: v['index'])
    wall = time.time() - t0
    known = known_findings(pid)
    status = 0
    reported = []
    for v in violations[:1]:
        path = write_replay(check, seed, tier, v)
        reported.append(path)
    evidence(check, seed, tier, results, wall, len(violations), out)
    for line in known:
        print('KNOWN-FINDING: property={0} {1}'.format(pid, line))
    total = sum(r['runs'] for r in results)
    print('{0} runs, {1} distinct, {2:.1f} s'.format(
        total, len(set(s for r in results for s in r['sigs'])), wall))
    if reported:
        v = violations[0]
        print('class: {0}'.format(v['class']))
        print('VIOLATION property={0} replay={1}'.format(pid, reported[0]))
        status = 1
    elif errors or total == 0:
        sys.stderr.write('\n'.join(e[-1500:] for e in errors[:2]) + '\n')
        status = 2
    return status


def known_findings(pid):
    path = os.path.join(ROOT, 'KNOWN_FINDINGS.txt')
    out = []
    if os.path.exists(path):
        with open(path) as fo:
            for line in fo:
                if line.startswith('known: property={0} '.format(pid)):
                    out.append(line.split(' ', 2)[2].strip())
    return out


def write_replay(check, seed, tier, v):
    directory = os.environ.get('VERIF_REPLAYS') or os.path.join(ROOT, 'replays')
    if not os.path.isdir(directory):
        os.makedirs(directory)
    path = os.path.join(directory, '{0}-{1}-{2}.json'.format(check.id, seed, v['index']))
    job = {
        'property': check.id, 'seed': seed, 'tier': tier, 'index': v['index'], 'class': v['class'],
        'detail': v['detail'], 'plan': v['plan'], 'trace': v['trace'], 'seconds': 25,
        'replay_command': './replay {0}'.format(path), 'minimised': False,
    }
    with open(path, 'w') as fo:
        json.dump(job, fo, indent=1, default=repr)
    p = spawn(['--minimise', path])
    try:
        p.communicate(timeout=90)
    except subprocess.TimeoutExpired:
        p.kill()
        p.communicate()
    # a fresh process must fail in the same way
    p = spawn(['--replay', path])
    try:
        p.communicate(timeout=60)
        same = p.returncode == 1
    except subprocess.TimeoutExpired:
        p.kill()
        p.communicate()
        same = False
    print('replay in a fresh process: {0}'.format('same violation' if same else 'NOT reproduced'))
    return path


def evidence(check, seed, tier, results, wall, violations, out=None):
    total = sum(r['runs'] for r in results)
    sigs = set(s for r in results for s in r['sigs'])
    nontrivial = set(s for r in results for s in r['nontrivial'])
    stats, fired, probes = {}, {}, {}
    for r in results:
        merge(stats, r['stats'])
        merge(fired, r['fired'])
        merge(probes, r['probes'])
    samples = [r['sample'] for r in results if r['sample']][:1]
    text = json.dumps(samples, default=repr)
    if len(text) > 20000:
        samples = [text[:20000] + '...']
    doc = {
        'property': check.id,
        'tier': tier,
        'seed': seed,
        'level': check.level,
        'coverage': {
            'evaluations': total,
            'distinct_nontrivial': len(nontrivial),
            'rule': check.rule,
            'samples': samples or ['none'],
            'distinct_executions': len(sigs),
            'distinct_measure': 'hash of the schedule decisions, faults and recorded history of a run',
            'runs_per_hour': int(total / wall * 3600) if wall else 0,
            'seeds_per_hour': int(total / wall * 3600) if wall else 0,
            'simulated_steps': stats.pop('steps', 0),
            'simulated_time': 'the library has no clock of its own; time is counted in simulated steps '
                              '(one per statement or attribute load) and, where a check has one, in ticks '
                              'of a simulated clock that advances at each reading',
            'counts': stats,
            'faults_injected': fired,
            'probes': probes,
            'discarded_plans': sum(r['discarded'] for r in results),
            'stopped_early': any(r['stopped'] for r in results),
            'real_components': check.real,
            'stubbed_components': check.stub,
            'digest': digest(sum(r['digest'] for r in results)),
        },
        'assumptions': [
            'the interpreter switches threads only between the steps instrumented here (statements and '
            'attribute loads of the library, accesses to input containers, starts of user hooks)',
        ],
        'wall_s': round(wall, 2),
        'violations': violations,
    }
    directory = os.environ.get('VERIF_EVIDENCE') or os.path.join(ROOT, 'evidence')
    path = out or os.path.join(directory, '{0}.json'.format(check.id))
    if not os.path.isdir(os.path.dirname(path)):
        os.makedirs(os.path.dirname(path))
    with open(path, 'w') as fo:
        json.dump(doc, fo, indent=1, default=repr)


if __name__ == '__main__':
    args = sys.argv[1:]
    if args[0] == '--worker':
        worker(args[1], int(args[2]), int(args[3]), int(args[4]), int(args[5]), args[6], float(args[7]))
    elif args[0] == '--minimise':
        minimise_main(args[1])
    elif args[0] == '--replay':
        sys.exit(replay(args[1]))
    else:
        runs = workers = None
        if '--runs' in args:
            runs = int(args[args.index('--runs') + 1])
        if '--workers' in args:
            workers = int(args[args.index('--workers') + 1])
        sys.exit(main(args[0], runs, workers or WORKERS))
