"""C16: primitives are converted by the table of their source, whatever was read before or is read meanwhile."""
import enum
import json

from .common import *
from .. import env as envs, model, values
from .c09 import Fake, load

BASES = {'str': str, 'int': int, 'float': float, 'bool': bool}
STRINGS = [
    '', ' ', '0', '1', '2', '-1', '+5', '12', ' 12 ', '007', '1_000', '0x10', '1e3', '1E3', '1.0', '1.5', '-2.50', '.5', '5.',
    'nan', 'inf', '-inf', 'Infinity', 't', 'T', 'f', 'F', 'true', 'True', 'TRUE', 'tRuE', 'false', 'False', 'FALSE', 'fAlse',
    'tr', 'truex', 'yes', 'no', 'on', 'off', 'None', 'null', 'a b', '\u0661\u0662', '\u212a', '1 2', '12a', '9' * 30,
]
NUMBERS = [
    0, 1, -1, 2, 7, 2 ** 31, 2 ** 53 + 1, 2 ** 63, 10 ** 30, 10 ** 400, -10 ** 400, True, False, 0.5, 1.5, 1e16, 1e300, -3.0,
    {'$float': '-0.0'}, {'$float': '0.0'}, {'$float': '1.0'}, {'$float': '7.0'}, {'$float': 'nan'}, {'$float': 'inf'},
    {'$float': '-inf'}, {'$float': '1e-320'},
]
LETTERS = '0123456789+-._eEtTrRuUfFaAlLsSinx '
KINDS = ['ValueError', 'SimValueError', 'UnicodeError', 'TypeError', 'KeyError', 'AttributeError', 'OSError', 'RuntimeError',
         'SimError', 'MemoryError', 'KeyboardInterrupt', 'SystemExit', 'GeneratorExit', 'SimBaseError', 'StopIteration']
FIELDS = {'str': 'String', 'int': 'Integer', 'float': 'Float', 'bool': 'Boolean'}
SOURCES = ['default', 'default', 'json', 'json', 'strict', 'strict', 'config', 'own', 'own', 'ownjson', 'errors']


class Text(str):
    pass


class Whole(int):
    pass


class Real(float):
    pass


class Level(enum.IntEnum):
    LOW = 0
    HIGH = 3


class Opaque(object):
    """A value of the application's own: it offers conversions, but denotes no primitive."""

    def __init__(self, name):
        self.name = name

    def describe(self):
        envs.seam('o|' + self.name)
        return 'opaque'

    def __str__(self):
        return self.describe()

    __repr__ = __str__

    def __format__(self, spec):
        return self.describe()

    def __int__(self):
        return 3

    def __float__(self):
        return 3.0

    def __index__(self):
        return 3

    def lower(self):
        return 'true'

    def is_integer(self):
        return True


WRAPPERS = {'$text': Text, '$whole': Whole, '$real': Real}


def decode(v):
    if isinstance(v, dict) and len(v) == 1:
        (k, x), = v.items()
        if k in WRAPPERS:
            return WRAPPERS[k](x)
        if k == '$level':
            return Level(x)
        if k == '$opaque':
            return Opaque(x)
    return values.decode(v)


class Meta(type):
    """Types whose own code runs, and can fail, when they are looked up."""

    def __hash__(cls):
        envs.seam('t|' + cls.__name__)
        return type.__hash__(cls)


class Plain(object):
    pass


def mro_kind(types, name):
    """The primitive a type derives from, as the order of its bases has it."""
    for c in types[name].__mro__:
        for kind in ('str', 'int', 'float', 'bool'):
            if c is BASES[kind]:
                return kind
    return None


def same(a, b):
    return values.fp(a) == values.fp(b) and type(a) is type(b)


class C16(runner.Check):

    id = 'C16'
    rule = ('a run counts when types derived from a primitive were looked up, application code failed or threads overlapped; '
            'runs are told apart by plan, schedule and outcomes')
    runs = {'quick': 6000, 'thorough': 200000}
    keep = runner.Check.keep | frozenset(('types', 'name', 'bases', 'key', 'values', 'reads', 'members', 'src'))

    # plans

    def plan(self, rng, tier):
        types = [self.type(rng, i) for i in range(rng.randint(1, 6))]
        sources = {}
        for i in range(rng.randint(1, 5)):
            sources['s{0}'.format(i)] = self.source(rng, rng.choice(SOURCES), types)
        if rng.random() < 0.3:
            names = sorted(sources)
            for how in ('mount', 'union'):
                if rng.random() < 0.7:
                    sources['z' + how] = {'kind': how, 'members': rng.sample(names, rng.randint(1, min(3, len(names))))}
        threads = []
        for _ in range(rng.choice([1, 1, 2, 2, 3])):
            threads.append([self.op(rng, types, sources) for _ in range(rng.randint(2, 14))])
        plan = {
            'types': types, 'sources': sources, 'threads': threads,
            'sched': draw_sched(rng, rng.choice([100, 300, 1000])), 'sched_seed': rng.getrandbits(32)}
        if rng.random() < 0.2:
            plan['interrupts'] = sorted(rng.randint(1, 300 * len(threads)) for _ in range(rng.choice([1, 1, 2])))
        return json_copy(plan)

    def type(self, rng, i):
        spec = {'name': 'T{0}'.format(i), 'bases': []}
        r = rng.random()
        if r < 0.1:
            spec['bases'] = ['object']
        elif i and r < 0.45:
            spec['bases'] = ['T{0}'.format(rng.randrange(i))]
        elif i and r < 0.6:
            spec['bases'] = ['T{0}'.format(rng.randrange(i)), rng.choice(['object', 'str', 'int', 'float'])]
        elif r < 0.7:
            spec['bases'] = ['Plain', rng.choice(['str', 'int', 'float'])]
        else:
            spec['bases'] = [rng.choice(['str', 'int', 'float'])]
        if rng.random() < 0.4:
            spec['meta'] = True
        return spec

    def source(self, rng, kind, types):
        s = {'kind': kind, 'values': []}
        for i in range(rng.randint(2, 8)):
            s['values'].append(['k{0}'.format(i), self.value(rng, kind)])
        if kind in ('own', 'ownjson'):
            # a table of its own
            s['own'] = {t: rng.choice(['mine', 'str', 'int']) for t in rng.sample(
                [t['name'] for t in types] + ['str', 'int', 'float', 'bool'], rng.randint(1, 2))}
            s['strict'] = rng.random() < 0.3
        if rng.random() < 0.2 and kind != 'config':
            s['location'] = 'here'
        return s

    def value(self, rng, kind):
        r = rng.random()
        if r < 0.15:
            text = ''.join(rng.choice(LETTERS) for _ in range(rng.randint(1, 5)))
            v = text
        elif r < 0.55 or kind == 'config':
            v = rng.choice(STRINGS)
        elif r < 0.84:
            v = rng.choice(NUMBERS)
        elif r < 0.88:
            v = rng.choice([None, None, [], [1], {}, {'a': 1}])
        elif kind in ('default', 'own', 'errors'):
            v = rng.choice([
                {'$opaque': 'o'}, {'$opaque': 'o'}, {'$opaque': 'o'}, {'$text': 'true'}, {'$text': '12'}, {'$whole': 5}, {'$whole': 0},
                {'$real': 2.0}, {'$real': 2.5}, {'$level': 0}, {'$level': 3}, {'$dec': '3'}, {'$dec': '1.5'},
                {'$date': [2001, 2, 3]}, {'$tuple': [1]}])
        else:
            v = rng.choice([0, '1', 1.0])
        if kind == 'config':
            v = v.strip() if isinstance(v, str) else 'x'
        return v

    def op(self, rng, types, sources):
        op = {'op': 'read', 'src': rng.choice(sorted(sources))}
        s = sources[op['src']]
        if s['kind'] in ('mount', 'union'):
            member = rng.choice(s['members'])
            op['member'] = member
            s = sources[member]
        op['key'] = rng.choice(s['values'])[0]
        if op.get('member') is None and not s.get('own') and rng.random() < 0.2:
            op['op'] = 'map'
            op['reads'] = [[rng.choice(sorted(FIELDS)), rng.choice(s['values'])[0]] for _ in range(rng.randint(1, 4))]
            return op
        names = [t['name'] for t in types]
        r = rng.random()
        if r < 0.4:
            op['types'] = [rng.choice(['str', 'int', 'float', 'bool'])]
        elif r < 0.45:
            op['types'] = []
        elif r < 0.85:
            op['types'] = [rng.choice(names)]
        else:
            op['types'] = [rng.choice(names + ['str', 'int', 'float', 'bool']) for _ in range(rng.randint(2, 3))]
        if rng.random() < 0.35:
            metas = [t['name'] for t in types if t.get('meta') and t['name'] in op['types']]
            sites = ['t|' + n for n in metas]
            if {'$opaque': 'o'} in [v for _, v in s['values']] or not sites:
                sites.append('o|o')
            op['faults'] = [[rng.choice(sites), rng.choice(KINDS), rng.choice([1, 1, 2, 3])]]
        return op

    # runs

    def run(self, plan):
        out = runner.Outcome()
        pilo = load()
        world = Fake(pilo)
        bench = Bench(pilo, plan)

        def body(world, env, tid, ops):
            bench.script(env, tid, ops)
            return True

        def interrupt():
            env = envs.current()
            if env is not None:
                raise env.exception('KeyboardInterrupt', 'interrupt')

        run = engine.run_threads(plan, plan['threads'], world=world, make_body=body, interrupts=plan.get('interrupts'),
                                 on_interrupt=interrupt)
        out.trace = run.trace
        out.add('steps', run.steps)
        out.add('thread_switches', run.switches)
        out.add('operations', sum(len(ops) for ops in plan['threads']))
        for k, n in bench.counts.items():
            out.add(k, n)
        out.fire(run.fired)
        if bench.counts.get('interrupted'):
            out.fire({'interrupt': bench.counts['interrupted']})
        out.sig = repr((run.trace, plan['types'], plan['sources'], plan['threads'], plan.get('interrupts'), bench.log))
        out.nontrivial = bool(
            run.fired or run.switches or bench.counts.get('derived') or bench.counts.get('interrupted'))
        if run.stuck:
            out.violate('stuck', run.stuck)
        elif bench.found:
            out.violate(*bench.found[0])
        return out


class Bench(object):

    def __init__(self, pilo, plan):
        self.pilo, self.plan = pilo, plan
        self.found, self.counts, self.log = [], {}, []
        self.types = dict(BASES, object=object, Plain=Plain)
        for spec in plan['types']:
            try:
                bases = [self.types[b] for b in spec['bases']]
            except KeyError:
                raise sched.PlanError('no base')
            if bases.count(object) and len(bases) > 1:
                bases.remove(object)
            kind = Meta if spec.get('meta') else type(bases[0])
            try:
                self.types[spec['name']] = kind(str(spec['name']), tuple(bases), {})
            except TypeError:
                # not a class that python can make
                try:
                    self.types[spec['name']] = type(bases[0])(str(spec['name']), (bases[0],), {})
                except TypeError:
                    raise sched.PlanError('bases')
        self.data = {}
        self.sources = {}
        for name, spec in sorted(plan['sources'].items()):
            self.sources[name] = self.build(name, spec)

    def count(self, name):
        self.counts[name] = self.counts.get(name, 0) + 1

    def build(self, name, spec):
        pilo, kind = self.pilo, spec['kind']
        if kind in ('mount', 'union'):
            if kind == 'mount':
                return pilo.source.MountSource(**{m: self.source(m) for m in spec["members"]})
            return pilo.source.UnionSource([self.source(m) for m in spec['members']])
        data = self.data[name] = {k: decode(v) for k, v in spec['values']}
        kwargs = {'location': spec['location']} if spec.get('location') else {}
        if kind in ('default', 'errors', 'own'):
            cls = pilo.source.DefaultSource
            if kind == 'errors':
                cls = type('Errors', (cls,), {'error': type('OwnError', (pilo.SourceError,), {})})
            elif kind == 'own':
                cls = self.own(cls, spec)
            return cls(data, **kwargs)
        if kind == 'config':
            text = '[s]\n' + ''.join('{0} = {1}\n'.format(k, v) for k, v in data.items())
            return pilo.source.ConfigSource(text, section='s')
        cls = pilo.source.JsonSource
        if kind == 'ownjson':
            cls = self.own(cls, spec)
        text = json.dumps(data)
        self.data[name] = json.loads(text)
        return cls(text, strict=kind == 'strict' or bool(spec.get('strict')), **kwargs)

    def source(self, name):
        if name not in self.sources:
            if name not in self.plan['sources'] or self.plan['sources'][name]['kind'] in ('mount', 'union'):
                raise sched.PlanError('no member')
            self.sources[name] = self.build(name, self.plan['sources'][name])
        return self.sources[name]

    def own(self, cls, spec):
        parsers = dict(cls.parsers)
        for t, how in spec['own'].items():
            if t not in self.types:
                raise sched.PlanError('no type')
            parsers[self.types[t]] = mine if how == 'mine' else cls.parsers[BASES[how]]
        return type('Own', (cls,), {'parsers': parsers})

    # reference

    def rule(self, spec, names):
        """Which rule applies -> kind, 'mine' or None when there is none."""
        if not names:
            return 'auto'
        own = {self.types[t]: how for t, how in (spec.get('own') or {}).items()}
        for name in names:
            if name not in self.types:
                raise sched.PlanError('no type')
            for c in self.types[name].__mro__:
                if c in own:
                    return own[c]
                for kind in BASES:
                    if c is BASES[kind]:
                        return kind
        return None

    def expected(self, name, key, types):
        """-> ('value', v) or ('error',) or ('unknown',)"""
        spec = self.plan['sources'][name]
        if key not in self.data[name]:
            raise sched.PlanError('no key')
        v = self.data[name][key]
        rule = self.rule(spec, types)
        if rule is None:
            return ('unknown',)
        if rule == 'auto':
            return ('value', v)
        if rule == 'mine':
            return ('value', ('mine', v))
        js = spec['kind'] in ('json', 'strict', 'ownjson')
        strict = spec['kind'] == 'strict' or bool(js and spec.get('strict'))
        try:
            return ('value', model.convert(v, rule, 'json' if js else 'default', strict))
        except envs.MExc:
            return ('error',)

    # operations

    def script(self, env, tid, ops):
        for i, op in enumerate(ops):
            env.set_faults(op.get('faults'))
            n = sum(env.fired.values())
            self.count('op_' + op['op'])
            try:
                if op['op'] == 'read':
                    got, want = self.read(env, op)
                else:
                    got, want = self.map(env, op)
            except BaseException as ex:
                env.set_faults(None)
                if isinstance(ex, (sched.PlanError, sched.Abort)):
                    raise
                if any(ex is r[0] for r in env.raised):
                    self.count('interrupted' if ex.args == ('simulated interrupt',) else 'escaped')
                    continue
                got, want = ('raised', type(ex).__name__, str(ex)), None
            env.set_faults(None)
            self.log.append((tid, i, repr(got)[:60]))
            if want is None or not self.agree(got, want):
                self.found.append(('another value than the table says' if got[0] != 'raised' else 'another exception', {
                    'thread': tid, 'operation': i, 'op': op, 'source': self.plan['sources'][op['src']]['kind'],
                    'expected': self.show(want), 'actual': self.show(got), 'faults fired': sum(env.fired.values()) - n}))

    def show(self, x):
        if x is None:
            return 'a value, or an error of the source'
        return [repr(i)[:200] if not isinstance(i, str) else i for i in x]

    def agree(self, got, want):
        if got[0] != want[0]:
            return False
        if got[0] == 'value':
            a, b = got[1], want[1]
            if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b) == 2 and a[0] == b[0] == 'mine':
                a, b = a[1], b[1]
            if a is b:
                return True
            return same(a, b)
        if got[0] == 'map':
            return len(got[1]) == len(want[1]) and all(
                x == y or x[0] == y[0] == 'value' and (x[1] is y[1] or same(x[1], y[1]))
                for x, y in zip(got[1], want[1]))
        return True

    def read(self, env, op):
        pilo = self.pilo
        src = self.sources.get(op['src'])
        if src is None:
            raise sched.PlanError('no source')
        spec = self.plan['sources'][op['src']]
        name = op.get('member') or op['src']
        if spec['kind'] == 'union':
            # the first member that has it
            having = [m for m in spec['members'] if op['key'] in self.data[m]]
            if not having:
                raise sched.PlanError('no key')
            name = having[0]
            if any(self.data[m][op['key']] is None or isinstance(self.data[m][op['key']], (list, tuple, dict))
                   for m in having):
                return ('skipped',), ('skipped',)
        if 'types' not in op:
            raise sched.PlanError('no types')
        want = self.expected(name, op['key'], op['types'])
        if self.data[name][op['key']] is None:
            # fields never convert it
            return ('skipped',), ('skipped',)
        if any(t.startswith('T') for t in op['types']):
            self.count('derived')
        types = [self.types[t] for t in op['types']]
        path = src.path()
        if spec['kind'] == 'mount':
            if op['member'] not in spec.get('members', ()):
                raise sched.PlanError('no member')
            path.append(op['member'])
        path.append(op['key'])
        try:
            value = path.primitive(*types)
        except pilo.SourceError as ex:
            if any(ex is r[0] for r in env.raised):
                raise
            owner = self.sources[name]
            if type(ex) is not type(owner).error:
                return ('raised', type(ex).__name__, 'not the error of the source'), want
            if str(ex.path).split('.')[-1].split(':')[-1] != op['key'] and spec['kind'] != 'union':
                return ('raised', type(ex).__name__, 'located at ' + str(ex.path)), want
            return ('error',), want
        except ValueError as ex:
            if any(ex is r[0] for r in env.raised):
                raise
            if want[0] == 'unknown' and type(ex) is ValueError:
                return ('unknown',), want
            raise
        return ('value', value), want

    def map(self, env, op):
        pilo = self.pilo
        f = pilo.fields
        members, want = {}, []
        for i, (kind, key) in enumerate(op['reads']):
            members['f{0}'.format(i)] = getattr(f, FIELDS[kind])(key, nullable=True)
            v = self.expected(op['src'], key, [kind])
            if self.data[op['src']][key] is None:
                v = ('value', None)
            want.append(v)
        cls = type(pilo.Form)('M', (pilo.Form,), members)
        form = cls()
        try:
            errors = form.map(self.sources[op['src']])
        finally:
            self.count('mapped')
        bad = set(e.field.name for e in errors)
        got = []
        for i in range(len(want)):
            n = 'f{0}'.format(i)
            if n in bad:
                got.append(('error',))
            elif n in form:
                got.append(('value', form[n]))
            else:
                got.append(('nothing',))
        return ('map', got), ('map', want)


def mine(src, path, value):
    return ('mine', value)


CHECK = C16()
