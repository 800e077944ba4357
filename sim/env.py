"""
What surrounds the code under test in one client thread: faults of the operation under way, the
recorded events, counters (simulated clocks and random ids), and the seams that consult them.
"""
import collections
import contextlib
import json
import _thread

from . import sched, values


class SimError(Exception):
    """A fault class of the application's own."""


class SimBaseError(BaseException):
    """A fault class of the application's own, not derived from Exception."""


class SimValueError(ValueError):
    """A value error class of the application's own."""


class MExc(BaseException):
    """An exception in the reference model."""

    def __init__(self, kind, site=None):
        self.kind, self.site = kind, site


#: kind -> (class, reported as invalid when reading or parsing, means "absent" in a container)
KINDS = {
    'ValueError': (ValueError, True, False),
    'SimValueError': (SimValueError, True, False),
    'SourceError': (None, True, False),
    'UnicodeError': (UnicodeError, True, False),
    'UnicodeDecodeError': (UnicodeDecodeError, True, False),
    'JSONDecodeError': (json.JSONDecodeError, True, False),
    'OSError': (OSError, False, False),
    'RuntimeError': (RuntimeError, False, False),
    'ZeroDivisionError': (ZeroDivisionError, False, False),
    'AssertionError': (AssertionError, False, False),
    'SimError': (SimError, False, False),
    'KeyError': (KeyError, False, True),
    'IndexError': (IndexError, False, True),
    'TypeError': (TypeError, False, True),
    'ImportError': (ImportError, False, False),
    'SyntaxError': (SyntaxError, False, False),
    'NameError': (NameError, False, False),
    'StopIteration': (StopIteration, False, False),
    'MemoryError': (MemoryError, False, False),
    'KeyboardInterrupt': (KeyboardInterrupt, False, False),
    'SystemExit': (SystemExit, False, False),
    'GeneratorExit': (GeneratorExit, False, False),
    'SimBaseError': (SimBaseError, False, False),
    # only raised by the library itself
    'FormError': (None, True, False),
    'AttributeError': (AttributeError, False, False),
}

CAUGHT = ['ValueError', 'SimValueError', 'SourceError', 'UnicodeError', 'UnicodeDecodeError', 'JSONDecodeError']
#: what some classes are made of besides their message
MADE_OF = {
    'UnicodeDecodeError': lambda text: ('ascii', b'\xff', 0, 1, text),
    'JSONDecodeError': lambda text: (text, '', 0),
}

ABSENT = ['KeyError', 'IndexError', 'TypeError']
ESCAPING = [
    'OSError', 'RuntimeError', 'ZeroDivisionError', 'AssertionError', 'SimError', 'MemoryError',
    'KeyboardInterrupt', 'SystemExit', 'GeneratorExit', 'SimBaseError',
]


def made(kind, text):
    """An exception of that kind."""
    return KINDS[kind][0](*MADE_OF.get(kind, lambda text: (text,))(text))


ENVS = {}     # thread ident -> Env


def current():
    return ENVS.get(_thread.get_ident())


class Env(object):

    def __init__(self, model=False, pilo=None):
        self.model = model
        self.pilo = pilo
        self.faults = {}
        self.seen = collections.Counter()
        self.fired = collections.Counter()
        self.sites = None          # set to a list to record the sites passed
        self.events = []
        self.counters = collections.Counter()
        self.base = 0
        self.raised = []
        self.violations = []
        self.ctxcheck = None
        self.on_seam = None        # called at each seam (real runs)

    def set_faults(self, faults):
        self.faults = {f[0]: (f[1], f[2] if len(f) > 2 else 1) for f in faults or ()}
        self.seen = collections.Counter()

    def seam(self, site):
        if not self.model:
            if self.on_seam is not None:
                self.on_seam(site)
            sched.yield_now()
        self.fault(site)

    def fault(self, site):
        if self.sites is not None:
            self.sites.append(site)
        if site not in self.faults:
            return
        kind, nth = self.faults[site]
        self.seen[site] += 1
        if self.seen[site] < nth:
            return
        self.fired[kind] += 1
        if self.model:
            raise MExc(kind, site)
        raise self.exception(kind, site)

    def exception(self, kind, site):
        if kind == 'SourceError':
            ex = self.pilo.SourceError(None, 'simulated ' + site)
        else:
            ex = made(kind, 'simulated ' + site)
        self.raised.append((ex, kind, site))
        return ex

    def identify(self, ex):
        """What an escaped exception is: the very fault raised, or an exception of the library."""
        for r, kind, site in self.raised:
            if r is ex:
                return [kind, site]
        if isinstance(ex, self.pilo.SourceError):
            return ['SourceError', None]
        if isinstance(ex, self.pilo.fields.FormError):
            return ['FormError', None]
        if isinstance(ex, ValueError):
            return ['ValueError', None]
        return [type(ex).__name__, None]

    def ev(self, *event):
        self.events.append(event)

    def count(self, name):
        self.counters[name] += 1
        return self.base + self.counters[name]


@contextlib.contextmanager
def installed(env):
    ident = _thread.get_ident()
    saved = ENVS.get(ident)
    ENVS[ident] = env
    try:
        yield env
    finally:
        if saved is None:
            ENVS.pop(ident, None)
        else:
            ENVS[ident] = saved


def seam(site):
    env = ENVS.get(_thread.get_ident())
    if env is not None:
        env.seam(site)


# containers in source data

class FDict(dict):

    sim_path = ''

    def __getitem__(self, key):
        seam('r|{0}/{1}'.format(self.sim_path, key))
        return dict.__getitem__(self, key)

    def get(self, key, default=None):
        try:
            return self[key]
        except (KeyError, IndexError, TypeError):
            return default

    def keys(self):
        seam('k|{0}'.format(self.sim_path))
        return dict.keys(self)

    def __iter__(self):
        seam('k|{0}'.format(self.sim_path))
        return dict.__iter__(self)


class FList(list):

    sim_path = ''

    def __getitem__(self, key):
        seam('r|{0}/{1}'.format(self.sim_path, key))
        return list.__getitem__(self, key)


class FObj(object):

    def __init__(self, attrs, sim_path):
        self.__dict__['sim_attrs'] = attrs
        self.__dict__['sim_path'] = sim_path

    def __getattr__(self, name):
        seam('a|{0}/{1}'.format(self.__dict__['sim_path'], name))
        try:
            return self.__dict__['sim_attrs'][name]
        except KeyError:
            raise AttributeError(name)


class FCall(object):

    def __init__(self, value, sim_path):
        self.value, self.sim_path = value, sim_path

    def __call__(self):
        seam('c|{0}'.format(self.sim_path))
        return self.value


def wrap(v, path):
    """Decoded value -> the same with seams in its containers."""
    if isinstance(v, dict):
        out = FDict((k, wrap(x, '{0}/{1}'.format(path, k))) for k, x in v.items())
        out.sim_path = path
        return out
    if isinstance(v, list):
        out = FList(wrap(x, '{0}/{1}'.format(path, i)) for i, x in enumerate(v))
        out.sim_path = path
        return out
    if isinstance(v, tuple) and type(v) is tuple:
        return tuple(wrap(x, '{0}/{1}'.format(path, i)) for i, x in enumerate(v))
    if isinstance(v, values.Call):
        return FCall(wrap(v.value, path + '()'), path)
    if isinstance(v, values.Obj):
        return FObj({k: wrap(x, '{0}/{1}'.format(path, k)) for k, x in v.attrs.items()}, path)
    return v
