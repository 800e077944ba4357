"""C19: code fields evaluate to the object named by their text, or to a module of their own."""
import builtins
import importlib.abc
import importlib.machinery
import sys
import types

from .common import *
from .. import env as envs
from .c09 import Fake, load

#: module -> attributes; those of a package and of its modules share names
MODULES = {
    'simx': ['K', 'only_x'],
    'simx.b': ['K', 'f', 'only_b'],
    'simx.b.c': ['K', 'f'],
    'simx.d': ['K'],
    'simy': ['K', 'f'],
}
ABSENT_MODULES = ['simz', 'simx.nope', 'simx.b.nope', 'simy.K']
NAMES = ['A', 'B', 'C', 'D']
#: names that a block does not define, though the library does
FOREIGN = ['String', 'ERROR', 'six', 'match', 'value', 'self', 'module', 'cls', 'code']
KINDS = ['ValueError', 'ImportError', 'SyntaxError', 'OSError', 'RuntimeError', 'NameError', 'AssertionError', 'SimError',
         'KeyError', 'TypeError', 'StopIteration', 'MemoryError', 'FormError', 'KeyboardInterrupt', 'SystemExit',
         'GeneratorExit', 'SimBaseError']
BASE = ['KeyboardInterrupt', 'SystemExit', 'GeneratorExit', 'SimBaseError']
HIDDEN = '__sim_code_'


class Named(object):
    """What the simulated modules hold."""

    def __init__(self, name, depth=0):
        self.name = name
        if depth < 2:
            self.v = Named(name + '.v', depth + 1)


class Modules(importlib.abc.MetaPathFinder, importlib.abc.Loader):
    """Modules that exist only in a run; importing one is a place for a fault."""

    def find_spec(self, name, path, target=None):
        if name in MODULES:
            spec = importlib.machinery.ModuleSpec(name, self, is_package=True)
            return spec
        return None

    def create_module(self, spec):
        return None

    def exec_module(self, module):
        name = module.__name__
        env = envs.current()
        if env is not None:
            n = sum(env.fired.values())
            try:
                env.fault('i|' + name)
            finally:
                env.ev('import', name, sum(env.fired.values()) > n)
        for attr in MODULES[name]:
            setattr(module, attr, Named('{0}:{1}'.format(name, attr)))

    def __enter__(self):
        self.purge()
        sys.meta_path.insert(0, self)

    def __exit__(self, *exc):
        sys.meta_path.remove(self)
        self.purge()

    def purge(self):
        for name in [n for n in sys.modules if n.split('.')[0] in ('simx', 'simy', 'simz', 'sim_hooks')]:
            del sys.modules[name]


def imported(name):
    """Whether a module is there because it was imported."""
    module = sys.modules.get(name)
    return name == 'sim_hooks' or getattr(module, '__spec__', None) is not None


class Escape(Exception):

    def __init__(self, kind):
        self.kind = kind


class Failed(Exception):
    """What the model's block or import raised, short of ending the mapping."""


class C19(runner.Check):

    id = 'C19'
    rule = ('a run counts when a fault fired in an import or a block, blocks of several threads overlapped, or a block '
            'mapped another form; runs are told apart by plan, schedule and outcomes')
    runs = {'quick': 6000, 'thorough': 200000}
    keep = runner.Check.keep | frozenset(('t', 'open', 'mod', 'attr', 'body', 'name', 'c', 'bid', 'shape', 'opt', 'text', 'value'))
    stub = ['modules named by import texts (a finder and loader of the simulator)']

    # plans

    def plan(self, rng, tier):
        self.nbid = 0
        self.nop = 0
        self.texts = []
        threads = []
        for _ in range(rng.choice([1, 1, 2, 2, 3])):
            threads.append([self.op(rng) for _ in range(rng.randint(1, 3))])
        return json_copy({
            'threads': threads, 'sched': draw_sched(rng, rng.choice([100, 500, 2000])),
            'sched_seed': rng.getrandbits(32)})

    def op(self, rng, depth=0):
        self.nop += 1
        bid = 'o{0}'.format(self.nop)
        fields = []
        for i in range(rng.randint(1, 4) if not depth else rng.randint(1, 2)):
            f = {'n': 'c{0}'.format(i), 'shape': rng.choice(['one'] * 6 + ['list', 'dict'])}
            r = rng.random()
            f['opt'] = rng.choice([None, None, 'default', 'nullable'])
            if f['shape'] == 'one' and r < 0.12:
                f['src'] = rng.choice(['absent', 'null'])
            else:
                n = 1 if f['shape'] == 'one' else rng.randint(0, 3)
                f['src'] = [self.text(rng, depth) for _ in range(n)]
            fields.append(f)
        op = {'op': 'map', 'how': rng.choice(['map', 'map', 'raise', 'ctor', 'json']), 'fields': fields,
              'bid': bid}
        if not depth:
            faults = {}
            if rng.random() < 0.3:
                faults['i|' + rng.choice(sorted(MODULES))] = [rng.choice(KINDS), rng.choice([1, 1, 2])]
            hits = list(self.hits(op))
            if hits and rng.random() < 0.4:
                for h in rng.sample(hits, min(len(hits), rng.choice([1, 1, 2]))):
                    faults['b|' + h] = [rng.choice(KINDS), 1]
            op['faults'] = [[site] + f for site, f in sorted(faults.items())]
        return op

    def hits(self, op):
        for f in op['fields']:
            if isinstance(f['src'], list):
                for t in f['src']:
                    for s in t.get('body', ()):
                        if s[0] == 'hit':
                            yield s[1]
                        elif s[0] == 'map':
                            for h in self.hits(s[1]):
                                yield h

    def text(self, rng, depth):
        if rng.random() < 0.4:
            mod = rng.choice(sorted(MODULES) + rng.sample(ABSENT_MODULES, 1))
            attr = rng.choice(['K', 'K', 'f', 'only_x', 'only_b', 'nope'])
            if rng.random() < 0.25:
                attr += rng.choice(['.v', '.v.v', '.v.v.v', '.nope'])
            return {'t': 'import', 'mod': mod, 'attr': attr}
        r = rng.random()
        if r < 0.06:
            # neither a block nor the name of anything
            return {'t': 'odd', 'text': rng.choice(['!', '', 'K', '::', 'simx:', ' ', '- 1'])}
        if r < 0.12:
            # not text
            return {'t': 'value', 'value': rng.choice([7, 0, True, False])}
        if self.texts and rng.random() < 0.15:
            # the same text again
            return rng.choice(self.texts)
        self.nbid += 1
        tag = 't{0}'.format(self.nbid)
        body = []
        for i in range(rng.choice([1, 2, 3, 4, 5, 6])):
            r = rng.random()
            name = rng.choice(NAMES)
            if r < 0.3:
                body.append(['set', name, '{0}.{1}'.format(tag, i)])
            elif r < 0.45:
                body.append(['def', name.lower(), rng.sample(NAMES, rng.randint(0, 2)),
                             [n.lower() for n in rng.sample(NAMES, rng.randint(0, 1)) if n != name]])
            elif r < 0.52:
                body.append(['list', name, rng.choice(NAMES)])
            elif r < 0.58:
                body.append(['global', name, '{0}.{1}'.format(tag, i)])
            elif r < 0.68:
                body.append(['import', rng.choice(sorted(MODULES) + rng.sample(ABSENT_MODULES, 1)), name])
            elif r < 0.9 or depth:
                self.nbid += 1
                body.append(['hit', 'h{0}'.format(self.nbid)])
            else:
                body.append(['map', self.op(rng, depth + 1)])
        r = rng.random()
        if r < 0.05:
            body.insert(rng.randint(0, len(body)), ['raise', rng.choice(['ValueError', 'KeyError', 'KeyboardInterrupt'])])
        elif r < 0.1:
            body.append(['syntax'])
        elif r < 0.18:
            body.insert(rng.randint(0, len(body)), ['name', rng.choice(FOREIGN + NAMES)])
        text = {'t': 'block', 'body': body, 'open': rng.choice(['# a block', '', None])}
        if not any(s[0] == 'map' for s in body):
            self.texts.append(text)
        return text

    # texts

    def source(self, t):
        if t['t'] == 'import':
            return '{0}:{1}'.format(t['mod'], t['attr'])
        if t['t'] == 'odd':
            return t['text']
        if t['t'] == 'value':
            return t['value']
        out = [t['open']] if t.get('open') is not None else []
        for s in t['body']:
            if s[0] == 'set':
                out.append('{0} = {1!r}'.format(s[1], s[2]))
            elif s[0] == 'def':
                out.append('def {0}():'.format(s[1]))
                out.append('    return [{0}]'.format(', '.join([repr(s[1])] + s[2] + [n + '.__name__' for n in s[3]])))
            elif s[0] == 'list':
                out.append('{0} = [x + {1} for x in "ab"]'.format(s[1], s[2]))
            elif s[0] == 'global':
                out += ['def {0}set():'.format(HIDDEN), '    global ' + s[1], '    {0} = {1!r}'.format(s[1], s[2]), '',
                        '{0}set()'.format(HIDDEN), 'del {0}set'.format(HIDDEN)]
            elif s[0] == 'import':
                out.append('from {0} import K as {1}'.format(s[1], s[2]))
            elif s[0] == 'hit':
                out.append('__import__("sim_hooks").hit({0!r})'.format(s[1]))
            elif s[0] == 'map':
                out.append('__import__("sim_hooks").map({0!r})'.format(s[1]['bid']))
            elif s[0] == 'raise':
                out.append('raise {0}("said so")'.format(s[1]))
            elif s[0] == 'syntax':
                out.append('this is not = code')
            elif s[0] == 'name':
                out.append('{0}'.format(s[1]))
        return '\n'.join(out) + '\n'

    # the model: what a text comes to, given the imports that happened meanwhile

    def model_op(self, op, m):
        """-> (outcome, values by field)"""
        out, errors = {}, []
        for f in op['fields']:
            n = f['n']
            if f['src'] == 'absent' or (f['src'] == 'null' and f['opt'] != 'nullable'):
                if f['opt'] == 'default' and f['src'] == 'absent':
                    out[n] = 'the default'
                elif f['src'] == 'null' and f['opt'] == 'default':
                    # a default that is not null makes a field not nullable: see Field.nullable
                    errors.append(n)
                else:
                    errors.append(n)
            elif f['src'] == 'null':
                out[n] = None
            else:
                got, bad = [], 0
                for i, t in enumerate(f['src']):
                    try:
                        got.append((i, self.model_text(t, m)))
                    except Failed:
                        bad += 1
                        errors.append(n)
                        if op['how'] == 'raise':
                            break
                if f['shape'] == 'one':
                    if not bad:
                        out[n] = got[0][1]
                elif f['shape'] == 'list':
                    out[n] = [v for _, v in got]
                else:
                    out[n] = {'k{0}'.format(i): v for i, v in got}
            if errors and op['how'] == 'raise':
                return ('formerror', errors[:1]), None
        if errors and op['how'] == 'ctor':
            return ('formerror', errors[:1]), None
        return ('errors' if errors else 'ok', sorted(set(errors))), out

    def model_import(self, mod, m):
        parts = mod.split('.')
        for i in range(len(parts)):
            name = '.'.join(parts[:i + 1])
            if name not in MODULES:
                raise Failed()
            if m.events and m.events[0][:2] == ('import', name):
                failed = m.events.pop(0)[2]
                if failed:
                    self.fault(m.faults['i|' + name][0])

    def fault(self, kind):
        if kind in BASE:
            raise Escape(kind)
        raise Failed()

    def model_text(self, t, m):
        if t['t'] == 'import':
            self.model_import(t['mod'], m)
            attr = t['attr'].split('.')
            if attr[0] not in MODULES[t['mod']] or 'nope' in attr or len(attr) > 3:
                raise Failed()
            return '{0}:{1}'.format(t['mod'], t['attr'])
        if t['t'] == 'odd':
            raise Failed()
        if t['t'] == 'value':
            return t['value']
        ns = {}
        if ['syntax'] in t['body']:
            raise Failed()
        for s in t['body']:
            if s[0] in ('set', 'global'):
                ns[s[1]] = s[2]
            elif s[0] == 'def':
                ns[s[1]] = s
            elif s[0] == 'list':
                if not isinstance(ns.get(s[2]), str) or ':' in ns[s[2]]:
                    raise Failed()
                ns[s[1]] = [x + ns[s[2]] for x in 'ab']
            elif s[0] == 'import':
                self.model_import(s[1], m)
                ns[s[2]] = s[1] + ':K'
            elif s[0] == 'hit':
                m.expect.append(('hit', s[1]))
                if 'b|' + s[1] in m.faults:
                    self.fault(m.faults['b|' + s[1]][0])
            elif s[0] == 'map':
                try:
                    got = self.model_op(s[1], m)
                except Escape as ex:
                    m.expect.append(('nested', s[1]['bid'], ('exc', ex.kind)))
                    raise
                m.expect.append(('nested', s[1]['bid'], self.judged(*got)))
                if got[0][0] == 'formerror':
                    raise Failed()
            elif s[0] == 'raise':
                if s[1] in BASE:
                    raise Escape(s[1])
                raise Failed()
            elif s[0] == 'name' and s[1] not in ns:
                raise Failed()
        return ('block', {n: self.model_value(ns, v) for n, v in ns.items()})

    def model_value(self, ns, v):
        if isinstance(v, list) and v and v[0] == 'def':
            names = v[2] + v[3]
            if any(n not in ns for n in names):
                return ('call', 'NameError')
            return ('call', [v[1]] + [self.model_value(ns, ns[n]) if not isinstance(ns[n], list) or ns[n][0] != 'def'
                                      else 'a function' for n in v[2]] + list(v[3]))
        return v

    def judged(self, outcome, values):
        return [list(outcome), self.plain(values)]

    def plain(self, x):
        if isinstance(x, dict):
            return {k: self.plain(v) for k, v in sorted(x.items())}
        if isinstance(x, (list, tuple)):
            return [self.plain(v) for v in x]
        return x

    # what was observed

    def seen(self, v):
        if isinstance(v, Named):
            return v.name
        if isinstance(v, types.ModuleType):
            out = {}
            for name, x in vars(v).items():
                if name.startswith('__'):
                    continue
                if isinstance(x, types.FunctionType):
                    try:
                        x = ('call', [self.seen(y) for y in x()])
                    except NameError:
                        x = ('call', 'NameError')
                    except Exception as ex:
                        x = ('call', repr(ex))
                elif isinstance(x, list):
                    x = [self.seen(y) for y in x]
                elif isinstance(x, Named):
                    x = x.name
                out[name] = x
            return ('block', out)
        if isinstance(v, types.FunctionType):
            return 'a function'
        if isinstance(v, dict):
            return {k: self.seen(x) for k, x in v.items()}
        if isinstance(v, list):
            return [self.seen(x) for x in v]
        if v is None or isinstance(v, (str, int)):
            return v
        return repr(type(v))

    def define(self, pilo, op):
        f = pilo.fields
        attrs = {}
        for x in op['fields']:
            opts = {}
            if x['opt'] == 'default':
                opts['default'] = 'the default'
            elif x['opt'] == 'nullable':
                opts['nullable'] = True
            if x['opt'] != 'nullable':
                opts['nullable'] = False
            if x['shape'] == 'one':
                attrs[x['n']] = f.Code(**opts)
            elif x['shape'] == 'list':
                attrs[x['n']] = f.List(f.Code(nullable=False), **opts)
            else:
                attrs[x['n']] = f.Dict(f.String(), f.Code(nullable=False), **opts)
        return type('Form_' + op['bid'], (pilo.Form,), attrs)

    def data(self, op):
        out = {}
        for f in op['fields']:
            if f['src'] == 'null':
                out[f['n']] = None
            elif f['src'] != 'absent':
                texts = [self.source(t) for t in f['src']]
                if f['shape'] == 'one':
                    if len(texts) != 1:
                        raise sched.PlanError('one text')
                    out[f['n']] = texts[0]
                elif f['shape'] == 'list':
                    out[f['n']] = texts
                else:
                    out[f['n']] = {'k{0}'.format(i): t for i, t in enumerate(texts)}
        return out

    def operate(self, pilo, classes, op, kept):
        """-> outcome, form"""
        form = classes[op['bid']]()
        data = self.data(op)
        FormError = pilo.fields.FormError
        try:
            if op['how'] == 'ctor':
                form = classes[op['bid']](data)
                errors = []
            elif op['how'] == 'raise':
                form.map(data, error='raise')
                errors = []
            elif op['how'] == 'json':
                import json
                errors = form.map(pilo.source.JsonSource(json.dumps(data)))
            else:
                errors = form.map(data)
        except FormError as ex:
            if any(r is ex for r, _, _ in envs.current().raised):
                raise
            return ('formerror', [self.named(e, op) for e in ex.field_errors][:1]), None
        kept.append(form)
        names = sorted(set(self.named(e, op) for e in errors))
        return ('errors' if names else 'ok', names), form

    def named(self, error, op):
        path = [p.key for p in error.path if p.key in [f['n'] for f in op['fields']]]
        return path[0] if path else '?'

    # runs

    def run(self, plan):
        out = runner.Outcome()
        ops = {}

        def collect(op):
            if op['bid'] in ops:
                raise sched.PlanError('twice')
            ops[op['bid']] = op
            for f in op['fields']:
                for t in f['src'] if isinstance(f['src'], list) else ():
                    for s in t.get('body', ()):
                        if s[0] == 'map':
                            collect(s[1])

        for op in all_ops(plan['threads']):
            collect(op)
            if any(len(f) != 3 or f[1] not in KINDS for f in op.get('faults') or ()):
                raise sched.PlanError('fault')
        pilo = load()
        classes = {bid: self.define(pilo, op) for bid, op in ops.items()}
        spaces = [m.__dict__ for n, m in sorted(sys.modules.items()) if n == 'pilo' or n.startswith('pilo.')]
        spaces.append(builtins.__dict__)
        before = [dict(s) for s in spaces]
        modules = set(sys.modules)
        inside, overlap = [0], [0]
        hooks = types.ModuleType('sim_hooks')
        kept = []

        def hit(bid):
            env = envs.current()
            env.ev('hit', bid)
            overlap[0] += inside[0] > 1
            env.seam('b|' + bid)

        def nested(bid):
            env = envs.current()
            try:
                got, form = self.operate(pilo, classes, ops[bid], kept)
            except BaseException as ex:
                if isinstance(ex, (sched.Abort, engine.StepLimit, sched.PlanError)):
                    raise
                env.ev('nested', bid, ('exc', env.identify(ex)[0]))
                raise
            overlap[0] += 1
            env.ev('nested', bid, self.judged(got, self.seen(dict(form)) if form is not None else None))
            if got[0] == 'formerror':
                raise ValueError('the nested form is invalid')

        hooks.hit, hooks.map = hit, nested

        def body(world, env, tid, script):
            recs, held = [], []
            for op in script:
                env.set_faults(op.get('faults'))
                env.events = []
                inside[0] += 1
                form = None

                def go():
                    return self.operate(pilo, classes, op, kept)

                got = engine.guarded(env, go)
                inside[0] -= 1
                if got[0] != 'exc':
                    got, form = got
                rec = {'out': got, 'events': env.events, 'values': None}
                if form is not None:
                    rec['values'] = self.plain(self.seen(dict(form)))
                    held.append((form, rec))
                env.set_faults(None)
                recs.append(rec)
            for form, rec in held:
                sched.yield_now()
                rec['later'] = self.plain(self.seen(dict(form)))
            return recs, held

        with Modules():
            sys.modules['sim_hooks'] = hooks
            run = engine.run_threads(plan, plan['threads'], world=Fake(pilo), make_body=body)
            if not run.stuck:
                # what is not imported under its own name was put there by a block
                kept_modules = sorted(n for n in set(sys.modules) - modules if not imported(n))
                for recs, held in run.records:
                    for form, rec in held:
                        rec['last'] = self.plain(self.seen(dict(form)))
        out.trace = run.trace
        out.fire(run.fired)
        out.add('steps', run.steps)
        out.add('thread_switches', run.switches)
        out.add('operations', sum(len(t) for t in plan['threads']))
        if run.stuck:
            out.violate('stuck', run.stuck)
            return out
        records = [recs for recs, _ in run.records]
        out.sig = repr((plan, run.trace, records))
        out.nontrivial = bool(run.fired or overlap[0])
        out.add('overlapping_blocks', overlap[0])
        self.judge(out, plan, records)
        if out.violation is None and kept_modules:
            out.violate('something of a block is left behind', {'modules': kept_modules})
        if out.violation is None:
            for was, space in zip(before, spaces):
                changed = sorted(k for k in set(was) | set(space) if was.get(k, self) is not space.get(k, self))
                if changed:
                    out.violate('a block changes a namespace of others', {
                        'module': was.get('__name__'), 'names': changed})
                    break
        return out

    def judge(self, out, plan, records):
        for tid, recs in enumerate(records):
            for i, rec in enumerate(recs):
                op = plan['threads'][tid][i]
                m = types.SimpleNamespace(
                    events=[e for e in rec['events'] if e[0] == 'import'], expect=[],
                    faults={f[0]: f[1:] for f in op.get('faults') or ()})
                got = rec['out']
                try:
                    outcome, values = self.model_op(op, m)
                    expected = list(outcome)
                except Escape as ex:
                    expected, values = ['exc', ex.kind], None
                actual = list(got[:2])
                out.add('outcome_' + str(got[0]))
                where = {'thread': tid, 'operation': i, 'op': op}
                if jsonable(self.plain(expected)) != jsonable(self.plain(actual)):
                    return out.violate('another outcome', dict(where, expected=expected, actual=jsonable(got)))
                hits = [e for e in rec['events'] if e[0] in ('hit', 'nested')]
                if jsonable(self.plain(m.expect)) != jsonable(self.plain(hits)):
                    return out.violate('blocks are not evaluated once and in order', dict(
                        where, expected=jsonable(m.expect), actual=jsonable(hits)))
                if values is None or rec['values'] is None:
                    continue
                values = self.plain(values)
                for when, name in (('values', 'at once'), ('later', 'later'), ('last', 'in the end')):
                    if jsonable(values) != jsonable(rec.get(when)):
                        return out.violate('another value ' + name, dict(
                            where, expected=jsonable(values), actual=jsonable(rec.get(when))))


CHECK = C19()
