"""C07: mapping leaves process-wide interpreter settings untouched."""
import builtins
import calendar
import codecs
import copyreg
import csv
import decimal
import gc
import locale
import logging
import os
import random as randoms
import resource
import signal
import socket
import sys
import threading
import time
import warnings

from .common import *
from .. import env as envs

CATEGORIES = {
    'UserWarning': UserWarning, 'DeprecationWarning': DeprecationWarning, 'RuntimeWarning': RuntimeWarning,
    'BytesWarning': BytesWarning, 'UnicodeWarning': UnicodeWarning, 'FutureWarning': FutureWarning,
    'SyntaxWarning': SyntaxWarning, 'ImportWarning': ImportWarning, 'ResourceWarning': ResourceWarning,
    'PendingDeprecationWarning': PendingDeprecationWarning,
}
ACTIONS = ['always', 'default', 'once', 'error', 'ignore', 'module']
ROUNDINGS = [decimal.ROUND_HALF_EVEN, decimal.ROUND_DOWN, decimal.ROUND_UP, decimal.ROUND_CEILING]


def of_decimal(c):
    return (c.prec, c.rounding, c.Emin, c.Emax, c.capitals, c.clamp,
            tuple(sorted(s.__name__ for s, on in c.traps.items() if on)))


SIGNALS = [n for n in ('SIGINT', 'SIGTERM', 'SIGALRM', 'SIGHUP', 'SIGUSR1', 'SIGPIPE') if hasattr(signal, n)]


def umask():
    mask = os.umask(0o22)
    os.umask(mask)
    return mask


def set_signals(handlers):
    for n, handler in zip(SIGNALS, handlers):
        if handler is not None and signal.getsignal(getattr(signal, n)) is not handler:
            try:
                signal.signal(getattr(signal, n), handler)
            except ValueError:
                # not on the main thread
                pass


def logging_state():
    root = logging.getLogger()
    return root.level, list(root.handlers), root.disabled, logging.raiseExceptions, root.manager.disable


def set_logging(state):
    root = logging.getLogger()
    root.level, root.handlers[:], root.disabled, logging.raiseExceptions, root.manager.disable = state


def set_builtins(values):
    space = vars(builtins)
    for n in set(space) - set(values):
        delattr(builtins, n)
    for n, value in values.items():
        if space.get(n, values) is not value:
            setattr(builtins, n, value)


#: what a REPL or an import of ours may set meanwhile
OTHERS = ('_', '__warningregistry__')


def all_builtins():
    return {n: value for n, value in vars(builtins).items() if n not in OTHERS}


LIMITS = [n for n in ('RLIMIT_NOFILE', 'RLIMIT_CORE', 'RLIMIT_STACK', 'RLIMIT_CPU', 'RLIMIT_AS', 'RLIMIT_FSIZE')
          if hasattr(resource, n)]


def limits():
    return [resource.getrlimit(getattr(resource, n)) for n in LIMITS]


def set_limits(values):
    for n, value in zip(LIMITS, values):
        if resource.getrlimit(getattr(resource, n)) != value:
            try:
                resource.setrlimit(getattr(resource, n), value)
            except (ValueError, OSError):
                pass


HANDLERS = ('strict', 'ignore', 'replace', 'backslashreplace', 'xmlcharrefreplace', 'surrogateescape')


def handlers():
    return [codecs.lookup_error(n) for n in HANDLERS]


def set_handlers(values):
    for n, handler in zip(HANDLERS, values):
        if codecs.lookup_error(n) is not handler:
            codecs.register_error(n, handler)


def set_zone(was):
    zone, names = was
    if zone is None:
        os.environ.pop('TZ', None)
    else:
        os.environ['TZ'] = zone
    time.tzset()


def set_tracebacks(n):
    if n is not None:
        sys.tracebacklimit = n
    elif hasattr(sys, 'tracebacklimit'):
        del sys.tracebacklimit


class Compared(object):
    """By identity of what is in it."""

    def __init__(self, items):
        self.items = items

    def __eq__(self, other):
        return set(self.items) == set(other.items) and all(v is other.items[k] for k, v in self.items.items())

    def __ne__(self, other):
        return not self == other

    def __repr__(self):
        return 'Compared({0} items)'.format(len(self.items))


#: further settings of the process: name -> (how to read, how to restore)
FURTHER = {
    'signal handlers': (lambda: [signal.getsignal(getattr(signal, n)) for n in SIGNALS], set_signals),
    'file mode mask': (umask, os.umask),
    'socket timeout': (socket.getdefaulttimeout, socket.setdefaulttimeout),
    'logging': (logging_state, set_logging),
    'builtins': (lambda: Compared(all_builtins()), lambda was: set_builtins(was.items)),
    'time zone': (lambda: (os.environ.get('TZ'), time.tzname), set_zone),
    'resource limits': (limits, set_limits),
    'error handlers of codecs': (handlers, set_handlers),
    'first day of a week': (calendar.firstweekday, calendar.setfirstweekday),
    'length of tracebacks': (lambda: getattr(sys, 'tracebacklimit', None), set_tracebacks),
    'path hooks': (lambda: list(sys.path_hooks), lambda hooks: sys.path_hooks.__setitem__(slice(None), hooks)),
    'display hook': (lambda: sys.displayhook, lambda hook: setattr(sys, 'displayhook', hook)),
    'csv field size': (csv.field_size_limit, csv.field_size_limit),
    'pickling': (lambda: sorted(map(repr, copyreg.dispatch_table)), lambda table: None),
    'stack size': (threading.stack_size, threading.stack_size),
    'digits of an integer': (
        getattr(sys, 'get_int_max_str_digits', lambda: None), getattr(sys, 'set_int_max_str_digits', lambda n: None)),
}


def of_thread():
    """Settings that each thread has its own of."""
    return {
        'decimal context': of_decimal(decimal.getcontext()),
        'trace function': sys.gettrace(),
        'profile function': sys.getprofile(),
    }


def of_process():
    return dict(basic(), **{name: read() for name, (read, restore) in FURTHER.items()})


def basic():
    return {
        'warning filters': [(f[0], getattr(f[1], 'pattern', f[1]), f[2].__name__, getattr(f[3], 'pattern', f[3]), f[4])
                            for f in warnings.filters],
        'warning display function': warnings.showwarning,
        'warning display implementation': getattr(warnings, '_showwarnmsg_impl', None),
        'default decimal context': of_decimal(decimal.DefaultContext),
        'random generator': randoms.getstate(),
        'environment': dict(os.environ),
        'import path': list(sys.path),
        'import hooks': list(sys.meta_path),
        'recursion limit': sys.getrecursionlimit(),
        'collector': gc.isenabled(),
        'collector thresholds': gc.get_threshold() if hasattr(gc, 'get_threshold') else None,
        'locale': locale.setlocale(locale.LC_ALL, None),
        'directory': os.getcwd(),
        'standard streams': (sys.stdin, sys.stdout, sys.stderr),
        'exception hook': (sys.excepthook, threading.excepthook),
        'switch interval': sys.getswitchinterval() if hasattr(sys, 'getswitchinterval') else None,
        'bytecode setting': sys.dont_write_bytecode,
        'threading trace': (getattr(threading, '_trace_hook', None), getattr(threading, '_profile_hook', None)),
    }


class Settings(object):
    """Puts the process in the state of a plan, and back."""

    def __init__(self, spec):
        self.spec = spec
        self.shown = {}

    def __enter__(self):
        self.filters = list(warnings.filters)
        self.showwarning = warnings.showwarning
        self.impl = getattr(warnings, '_showwarnmsg_impl', None)
        self.random = randoms.getstate()
        self.environ = dict(os.environ)
        self.path, self.meta = list(sys.path), list(sys.meta_path)
        self.limit = sys.getrecursionlimit()
        self.gc = gc.isenabled()
        self.context = decimal.getcontext().copy()
        self.default = decimal.DefaultContext.copy()
        self.cwd = os.getcwd()
        self.streams = sys.stdin, sys.stdout, sys.stderr
        self.hooks = sys.excepthook, threading.excepthook
        self.trace = sys.gettrace(), sys.getprofile()
        self.locale = locale.setlocale(locale.LC_ALL, None)
        self.bytecode = sys.dont_write_bytecode
        self.further = {name: read() for name, (read, restore) in FURTHER.items()}
        spec = self.spec
        warnings.resetwarnings()
        for action, category in reversed(spec['filters']):
            warnings.simplefilter(action, CATEGORIES[category] if category else Warning)
        warnings.showwarning = self.show
        warnings.onceregistry.clear()
        randoms.seed(spec['random'])
        os.environ['SIM_SETTING'] = str(spec['random'])
        sys.path.append('/sim/{0}'.format(spec['random']))
        sys.setrecursionlimit(spec['limit'])
        (gc.enable if spec['gc'] else gc.disable)()
        self.thread()
        return self

    def thread(self):
        """Settings of the calling thread."""
        c = decimal.getcontext()
        c.prec, c.rounding = self.spec['prec'], ROUNDINGS[self.spec['rounding']]
        c.traps[decimal.Inexact] = False
        for trap in (decimal.InvalidOperation, decimal.DivisionByZero, decimal.Overflow):
            c.traps[trap] = trap.__name__ not in self.spec['untrapped']

    def show(self, message, category, filename, lineno, file=None, line=None):
        self.shown.setdefault(threading.get_ident(), []).append((category.__name__, str(message), lineno))

    def __exit__(self, *args):
        warnings.filters[:] = self.filters
        warnings._filters_mutated()
        warnings.showwarning = self.showwarning
        if self.impl is not None:
            warnings._showwarnmsg_impl = self.impl
        warnings.onceregistry.clear()
        randoms.setstate(self.random)
        if dict(os.environ) != self.environ:
            os.environ.clear()
            os.environ.update(self.environ)
        sys.path[:], sys.meta_path[:] = self.path, self.meta
        sys.setrecursionlimit(self.limit)
        (gc.enable if self.gc else gc.disable)()
        decimal.setcontext(self.context)
        for name in ('prec', 'rounding', 'Emin', 'Emax', 'capitals', 'clamp'):
            setattr(decimal.DefaultContext, name, getattr(self.default, name))
        os.chdir(self.cwd)
        sys.stdin, sys.stdout, sys.stderr = self.streams
        sys.excepthook, threading.excepthook = self.hooks
        sys.settrace(self.trace[0])
        sys.setprofile(self.trace[1])
        locale.setlocale(locale.LC_ALL, self.locale)
        sys.dont_write_bytecode = self.bytecode
        for name, (read, restore) in FURTHER.items():
            restore(self.further[name])
        return False

    def warn(self, op, registry):
        """One warning, and what became of it."""
        ident = threading.get_ident()
        before = len(self.shown.get(ident, ()))
        try:
            warnings.warn_explicit(
                op['text'], CATEGORIES[op['cat']], 'file.py', op['line'], module='some.module', registry=registry)
        except Warning as ex:
            return ('raised', type(ex).__name__, str(ex))
        return ('shown',) + tuple(self.shown.get(ident, [])[before:])


def changed(before, after):
    for name in before:
        if before[name] != after[name]:
            return name, brief(before[name]), brief(after[name])


def brief(x):
    return repr(x)[:300]


class C07(runner.Check):

    id = 'C07'
    rule = ('a run counts when mappings of two threads overlapped, a warning was issued while one was under way, or one '
            'failed; runs are told apart by schedule, faults and outcomes')
    runs = {'quick': 9000, 'thorough': 90000}
    keep = runner.Check.keep | frozenset((
        'settings', 'filters', 'random', 'limit', 'gc', 'prec', 'rounding', 'untrapped', 'cat', 'text', 'line'))

    def plan(self, rng, tier):
        for _ in range(10):
            plan = self.plan_once(rng, tier)
            if len(repr(plan)) < MAX_PLAN:
                break
        return plan

    def plan_once(self, rng, tier):
        cfg = {
            'forms': (1, 3), 'fields': (1, 5), 'hook_p': 0.3, 'acts_n': (0, 2), 'bad_p': 0.15,
            'acts': {'read': 3, 'getvar': 1, 'push': 1, 'map': 2, 'loc': 1, 'reset': 1, 'other': 1, 'try': 1},
            'kinds': dict(gen.BASE_CFG['kinds'], code=rng.choice([2, 2, 12]), dec=4, float=3, date=3, datetime=2, time=2, uuid=2),
            'format_p': 0.2,
        }
        r = rng.random()
        if r < 0.15:
            cfg['sources'] = {'plain': 0, 'default': 0, 'json': 0, 'mount': 0, 'seq': 0, 'union': 1}
            cfg['call_p'] = cfg['obj_p'] = 0
        elif r < 0.35:
            cfg['kinds'].update(CONFIG_KINDS)
            cfg['sources'] = {'plain': 1, 'default': 0, 'json': 0, 'mount': 0, 'seq': 0, 'config': 3}
        d = Drawn(rng, **cfg)
        n = rng.choice([1, 1, 2, 2, 3])
        threads = [[self.op(d, rng) for _ in range(rng.randint(1, 3))] for _ in range(n)]
        if rng.random() < 0.7:
            p_warn, most = rng.choice([(0.9, 8), (0.6, 8), (0.1, 24)])
            threads.append([{
                'op': 'warn', 'cat': rng.choice(sorted(CATEGORIES)), 'text': rng.choice(['w0', 'w1', 'w2']),
                'line': rng.randint(1, 3),
            } if rng.random() < p_warn else {'op': 'look'} for _ in range(rng.randint(2, most))])
        d.plan['threads'] = threads
        d.plan['settings'] = {
            'filters': [
                [rng.choice(ACTIONS), rng.choice([None] + sorted(CATEGORIES))] for _ in range(rng.randint(0, 4))
            ],
            'random': rng.randint(0, 9), 'limit': rng.randint(900, 1100), 'gc': rng.random() < 0.7,
            'prec': rng.choice([28, 28, 5, 60]), 'rounding': rng.randrange(4),
            'untrapped': [t for t in ('InvalidOperation', 'DivisionByZero', 'Overflow') if rng.random() < 0.2],
        }
        plan = d.finish()
        for op in all_ops(plan['threads']):
            if op['op'] not in ('warn', 'look') and rng.random() < 0.5:
                try:
                    place(plan, op, rng, envs.CAUGHT + envs.ABSENT + envs.ESCAPING, rng.choice([1, 1, 2]))
                except sched.PlanError:
                    pass
        plan['sched'] = draw_sched(rng, rng.choice([300, 1000, 4000]))
        plan['sched_seed'] = rng.getrandbits(32)
        return plan

    def op(self, d, rng):
        if rng.random() < 0.15 and d.gen.hierarchies:
            base, ident, names = rng.choice(d.gen.hierarchies)
            data = d.gen.data(rng.choice(names))
            data[ident] = rng.choice([i for n in names for f in d.gen.fields(n) if f['n'] == ident
                                      for i in f['idents']] + ['unknown'])
            if rng.random() < 0.1:
                data[ident] = gen.near(rng, data[ident])
            d.sid += 1
            return {'op': 'cast', 'base': base, 'ident': ident, 'data': data, 'sid': 'c{0}'.format(d.sid)}
        return d.map_op()

    def run(self, plan):
        out = runner.Outcome()
        settings = Settings(plan['settings'])
        world = engine.fresh(plan)
        with settings:
            self.under(plan, out, settings, world)
        return out

    def under(self, plan, out, settings, world):
        threads = plan['threads']
        expected = {}
        for tid, ops in enumerate(threads):
            if ops and ops[0]['op'] in ('warn', 'look'):
                registry = {}
                expected[tid] = [settings.warn(op, registry) if op['op'] == 'warn' else None for op in ops]
                warnings.onceregistry.clear()
        start = of_process()
        found = []
        inside = [0]
        overlaps = [0]

        def body(world, env, tid, ops):
            settings.thread()
            recs = []
            registry = {}
            for i, op in enumerate(ops):
                if op['op'] == 'warn':
                    sched.yield_now()
                    if inside[0]:
                        overlaps[0] += 1
                    rec = {'op': 'warn', 'out': settings.warn(op, registry), 'events': []}
                    for _ in range(3):
                        sched.yield_now()
                elif op['op'] == 'look':
                    sched.yield_now()
                    if inside[0]:
                        overlaps[0] += 1
                    # also while others are mapping
                    d = changed(start, of_process())
                    if d is not None and not found:
                        found.append((tid, i, op) + d)
                    rec = {'op': 'look', 'out': None, 'events': []}
                    for _ in range(3):
                        sched.yield_now()
                else:
                    before = of_thread()
                    if inside[0]:
                        overlaps[0] += 1
                    inside[0] += 1
                    try:
                        rec = engine.real_op(world, env, op, {})
                    finally:
                        inside[0] -= 1
                    d = changed(before, of_thread()) or (None if inside[0] else changed(start, of_process()))
                    if d is not None and not found:
                        found.append((tid, i, op) + d)
                recs.append(rec)
            return recs

        run = engine.run_threads(plan, threads, world=world, make_body=body)
        out.trace = run.trace
        out.fire(run.fired)
        out.add('steps', run.steps)
        out.add('thread_switches', run.switches)
        out.add('operations_while_another_was_under_way', overlaps[0])
        if run.stuck:
            out.violate('stuck', run.stuck)
            return
        count_outcomes(out, [r for tid, r in enumerate(run.records) if tid not in expected])
        out.sig = repr((run.trace, plan['settings'], [op.get('faults') for op in all_ops(threads)],
                        [[r['out'] for r in recs] for recs in run.records]))
        out.nontrivial = bool(overlaps[0] or run.fired)
        d = changed(start, of_process())
        if not found and d is not None:
            found.append((None, None, {}) + d)
        if found:
            tid, i, op, name, was, now = found[0]
            out.violate('interpreter settings changed', dict(diff(name, tid, i, op, was, now), setting=name))
            return
        for tid, want in expected.items():
            out.add('warnings_issued', sum(x is not None for x in want))
            got = [r['out'] for r in run.records[tid]]
            for i, (x, y) in enumerate(zip(want, got)):
                if x != y:
                    out.violate('a warning of another thread is treated otherwise',
                                dict(diff('warning', tid, i, {}, x, y), warning=threads[tid][i]))
                    return


CHECK = C07()
