"""C11: a path cursor always shows the value at its current keys."""
import copy

from .common import *
from .. import build, env as envs, gen, loader, model, values
from ..values import decode, fp

SCALAR_TYPES = ['str', 'int', 'float', 'bool']
NAMES = ['a', 'b', 'c', 'k1', 'x.y', 'd.e', 'n-m']
RAISES = ['SimError', 'ValueError', 'KeyboardInterrupt', 'SourceError']


class C11(runner.Check):

    id = 'C11'
    rule = ('a run counts when a cursor was read at three or more different positions, and was moved back, rewound '
            'or hit by a fault in between')
    runs = {'quick': 8000, 'thorough': 250000}
    keep = runner.Check.keep | frozenset(('s', 'i', 'what', 'mark', 'raise', 'n', 'mode', 'sources', 'spec', 'srcs',
                                         'cursors', 'strict', 'aliases'))

    # plans

    def plan(self, rng, tier):
        deep = tier == 'thorough' and rng.random() < 0.3
        d = Draw(rng, deep)
        mode = rng.choice(['ctx', 'direct', 'direct'])
        sources = [d.source() for _ in range(1 if mode == 'direct' else rng.choice([1, 1, 2]))]
        cursors = [0] * (rng.choice([1, 1, 1, 2, 3]) if mode == 'direct' else 1)
        plan = {'sources': sources, 'mode': mode, 'cursors': cursors}
        plan = json_copy(plan)
        walker = Walker(rng, plan)
        plan['ops'] = walker.steps(rng.randint(6, 40 if deep else 24), 0)
        return json_copy(plan)

    # runs

    def run(self, plan):
        out = runner.Outcome()
        real = Real(plan)
        try:
            engine.bounded(lambda: real.all(), 400000)
        except loader.StepLimit:
            out.violate('stuck', 'a read does not end')
        out.fire(real.env.fired)
        out.sig = repr((plan['sources'], plan['ops']))
        out.add('reads', real.reads)
        out.add('moves', real.moves)
        out.add('rewinds', real.rewinds)
        out.add('snapshots', len(real.snaps))
        out.add('aborted_blocks', real.aborts)
        for spec in plan['sources']:
            out.add('source_' + spec['kind'])
        out.probe('missing', real.missing)
        out.probe('null', real.nulls)
        out.probe('source_error', real.failed)
        out.nontrivial = len(real.places) >= 3 and bool(real.back or real.rewinds or real.env.fired)
        if real.violation and not out.violation:
            out.violate(*real.violation)
        return out


# drawing

class Draw(object):

    def __init__(self, rng, deep):
        self.rng, self.deep = rng, deep
        self.n = 0

    def source(self, kinds=None):
        rng = self.rng
        kind = rng.choice(kinds or ['default', 'default', 'default', 'json', 'json', 'mount', 'config', 'union'])
        self.n += 1
        sid = 's{0}'.format(self.n)
        spec = {'kind': kind, 'sid': sid}
        if kind in ('default', 'json'):
            native = kind == 'default'
            data = self.tree(0, native)
            if not isinstance(data, dict) and rng.random() < 0.8:
                data = {rng.choice(NAMES): data, 'b': self.tree(1, native)}
            spec['data'] = data
            if rng.random() < 0.25:
                spec['location'] = rng.choice(['L', 'f.json'])
            if kind == 'json' and rng.random() < 0.3:
                spec['strict'] = True
            if kind == 'json' and rng.random() < 0.15:
                spec['enc'] = rng.choice(gen.ENCODINGS)
            if native and rng.random() < 0.3:
                spec['ignores'] = [self.dotted() for _ in range(rng.randint(1, 2))]
            if native and rng.random() < 0.3:
                keys = list(data) if isinstance(data, dict) else list(range(3))
                keys = [k for k in keys if k[:1] != '$'] if isinstance(data, dict) else keys
                spec['aliases'] = {n: rng.choice(keys) for n in rng.sample(['p', 'q', 'a', 'b'], 2) if keys}
        elif kind == 'mount':
            spec['srcs'] = {
                n: gen.bare(rng, self.source(['default', 'json', 'config']))
                for n in rng.sample(['a', 'b', 'm'], rng.randint(1, 3))}
            if rng.random() < 0.1:
                spec['srcs']['m'] = {'kind': 'nothing', 'sid': 'none'}
        elif kind == 'config':
            names = rng.sample(['a', 'b', 's'], rng.randint(1, 3))
            spec['sections'] = {n: self.options() for n in names}
            if rng.random() < 0.5:
                spec['section'] = rng.choice(names)
                if rng.random() < 0.5:
                    spec['defaults'] = {n: rng.choice(['7', 'dflt', '1 2']) for n in rng.sample(NAMES[:4], 2)}
            elif rng.random() < 0.5:
                spec['defaults'] = {s: {n: 'dflt' for n in rng.sample(NAMES[:4], 2)} for s in names if rng.random() < 0.7}
            if rng.random() < 0.3:
                spec['location'] = 'conf'
        else:
            merges = ['first', 'last', 'combine']
            spec['merge'] = rng.choice(merges)
            for n in ('mapping', 'sequence'):
                if rng.random() < 0.4:
                    spec[n] = rng.choice(merges)
            if rng.random() < 0.25:
                spec['depth'] = rng.randint(0, 4)
            template = self.template(0)
            spec['srcs'] = []
            for i in range(rng.choice([1, 2, 2, 3])):
                self.n += 1
                spec['srcs'].append(gen.bare(rng, {
                    'kind': rng.choice(['default', 'default', 'json']), 'sid': 's{0}'.format(self.n),
                    'data': self.instance(template, root=True),
                }))
        return spec

    def options(self):
        rng = self.rng
        out = []
        for n in rng.sample(['a', 'b', 'c', 'k1', 'p', 'q'], rng.randint(0, 4)):
            if rng.random() < 0.3:
                for key in rng.sample(['x', 'y', 'z'], rng.randint(1, 3)):
                    out.append(['{0}[{1}]'.format(n, key), rng.choice(['1', 'zz', '1.5'])])
                if rng.random() < 0.15:
                    out.insert(rng.randint(0, len(out)), [n, '7'])
            else:
                out.append([n, rng.choice(['1', 'true', 'zz', '1 2 3', 'one two', 'l1\nl2', '1\n\n2', '2.0'])])
        return out

    def dotted(self):
        rng = self.rng
        names = ['a', 'b', 'c', 'k1', 'p', 'q']
        return '.'.join(rng.choice(names) for _ in range(rng.choice([1, 1, 2, 2, 3])))

    def scalar(self):
        rng = self.rng
        return rng.choice([0, 1, 7, -3, '', 'zz', '12', 'abc', {'$float': '1.5'}, {'$float': '2.0'}, True, False, None])

    def tree(self, depth, native):
        rng = self.rng
        r = rng.random()
        limit = 5 if self.deep else 4
        if depth >= limit or r < 0.12 + 0.1 * depth:
            v = self.scalar()
            if not native and isinstance(v, dict):
                v = 1.5
            return v
        if r < 0.65:
            out = {}
            for n in rng.sample(NAMES, rng.randint(0, 4)):
                v = self.tree(depth + 1, native)
                if native and rng.random() < 0.1:
                    v = {'$call': v}
                out[n] = v
            return out
        if native and r < 0.72:
            return {'$obj': {n: self.tree(depth + 1, native) for n in rng.sample(['a', 'b', 'c'], rng.randint(1, 2))}}
        items = [self.tree(depth + 1, native) for _ in range(rng.randint(0, 3))]
        if native and rng.random() < 0.2:
            return {'$tuple': items}
        return items

    # members of a merged source agree on what is at each place

    def template(self, depth):
        rng = self.rng
        r = rng.random()
        if depth == 0 or (r < 0.45 and depth < 4):
            return {'t': 'dict', 'c': {n: self.template(depth + 1) for n in rng.sample(NAMES[:4], rng.randint(1, 4))}}
        if r < 0.7 and depth < 4:
            return {'t': 'list', 'c': self.template(depth + 1)}
        return {'t': rng.choice(SCALAR_TYPES)}

    def instance(self, t, root=False):
        rng = self.rng
        if t['t'] == 'dict':
            if not root and rng.random() < 0.08:
                return None
            return {n: self.instance(c) for n, c in t['c'].items() if rng.random() < 0.75}
        if t['t'] == 'list':
            if rng.random() < 0.08:
                return None
            return [self.instance(t['c']) for _ in range(rng.randint(0, 3))]
        return {
            'str': lambda: rng.choice(['u', 'v', 'w', 'abc']), 'int': lambda: rng.randint(0, 9),
            'float': lambda: 1.5 + rng.randint(0, 3), 'bool': lambda: rng.random() < 0.5,
        }[t['t']]()


def kind_at(cur):
    """What is at a place of a merged source, of whose members the first one tells."""
    v = cur.value()
    if isinstance(v, model.MMapping):
        return 'map'
    if isinstance(v, model.MSequence):
        return 'seq'
    if isinstance(v, model.Join):
        for m in v.members:
            x = m.value()
            if isinstance(x, dict):
                return 'map'
            if isinstance(x, (list, tuple)):
                return 'seq'
            if x is not None and x is not model.NONE:
                for t, n in ((bool, 'bool'), (int, 'int'), (float, 'float'), (str, 'str')):
                    if isinstance(x, t):
                        return 'prim:' + n
        return 'null'
    return None


class Oracle(object):
    """Follows keys from the root of a source, afresh each time."""

    def __init__(self, plan):
        self.plan = plan
        self.env = envs.Env(model=True)
        values.register_marks(model.MARKS)
        self.make = build.model_sources(plan)

    def at(self, spec, keys):
        cur = self.make(spec, None, None)
        for key in keys:
            if isinstance(cur, (model.Union,)):
                self.settle(cur)
            cur = cur.child(key)
        if isinstance(cur, model.Union):
            self.settle(cur)
        return cur

    def settle(self, cur):
        kind = kind_at(cur)
        if kind == 'map':
            cur.mapping()
        elif kind == 'seq':
            cur.sequence()

    def read(self, spec, keys, what, sites=None):
        self.env.sites = sites
        try:
            with envs.installed(self.env):
                cur = self.at(spec, keys)
                return look(cur, spec, what)
        except envs.MExc as ex:
            return ('exc', ex.kind)
        finally:
            self.env.sites = None


def look(cur, spec, what):
    kind, _, arg = what.partition(':')
    if kind == 'exists':
        return ('exists', cur.exists())
    if kind == 'null':
        return ('null', cur.is_null())
    if kind == 'value':
        return ('value', fp(cur.value()))
    if kind == 'str':
        return ('str', cur.loc())
    if kind == 'map':
        return ('map', tuple(sorted(set(str(k) for k in cur.mapping()))))
    if kind == 'seq':
        return ('seq', cur.sequence())
    if kind == 'prim':
        return ('prim', fp(cur.primitive(None if arg == 'none' else arg)))
    raise sched.PlanError('read')


class Walker(object):
    """Draws steps that make sense where they happen."""

    def __init__(self, rng, plan):
        self.rng, self.plan = rng, plan
        self.oracle = Oracle(plan)
        self.ctx = plan['mode'] == 'ctx'
        # (source, keys) of each cursor; in ctx mode a stack of them for the only one
        self.at = [(0, []) for _ in plan['cursors']]
        self.marks = []
        self.count = 0

    def spec(self, i):
        return self.plan['sources'][self.at[i][0]]

    def steps(self, n, depth):
        rng = self.rng
        out = []
        while n > 0:
            n -= 1
            i = rng.randrange(len(self.at))
            src, keys = self.at[i]
            r = rng.random()
            if r < 0.78 and r >= 0.5 and self.leaf(i):
                r = 0.4
            if r < 0.5:
                out.append(self.read(i))
            elif r < 0.78 and depth < 6 and (self.ctx or rng.random() < 0.5):
                out.extend(self.before(i))
                key = self.key(i)
                self.at[i] = (src, keys + [key])
                step = {'s': 'key', 'i': i, 'key': key}
                size = rng.randint(1, max(1, min(n, 8)))
                self.body(step, size, depth)
                n -= size
                self.at[i] = (src, keys)
                out.append(step)
            elif self.ctx and r < 0.84 and depth < 6:
                self.count += 1
                saved = self.at[i]
                step = {'s': 'vars', 'i': i, 'mark': self.count}
                self.marks.append((self.count, saved))
                size = rng.randint(1, max(1, min(n, 8)))
                self.body(step, size, depth)
                n -= size
                self.marks.pop()
                out.append(step)
            elif self.ctx and r < 0.87 and depth < 6:
                saved = self.at[i]
                j = rng.randrange(len(self.plan['sources']))
                self.at[i] = (j, [])
                step = {'s': 'src', 'i': i, 'n': j}
                size = rng.randint(1, max(1, min(n, 8)))
                self.body(step, size, depth)
                n -= size
                self.at[i] = saved
                out.append(step)
            elif self.ctx and self.marks and depth < 8:
                at = rng.randrange(len(self.marks))
                mark, there = self.marks[at]
                saved, marks = self.at[i], self.marks
                self.at[i], self.marks = there, marks[:at + 1]
                step = {'s': 'rewind', 'i': i, 'mark': mark}
                size = rng.randint(1, max(1, min(n, 6)))
                self.body(step, size, depth)
                n -= size
                self.at[i], self.marks = saved, marks
                out.append(step)
            elif not self.ctx and r < 0.84 and not self.leaf(i):
                out.extend(self.before(i))
                key = self.key(i)
                self.at[i] = (src, keys + [key])
                out.append({'s': 'go', 'i': i, 'key': key, 'way': rng.randint(0, 1)})
            elif not self.ctx and r < 0.9 and len(keys) > self.floor(i):
                self.at[i] = (src, keys[:-1])
                out.append({'s': 'up', 'i': i, 'way': rng.randint(0, 1)})
            elif not self.ctx and r < 0.93 and len(keys) > self.floor(i) and self.spec(i)['kind'] != 'union':
                self.at[i] = (src, keys[:-1])
                key = self.key(i)
                self.at[i] = (src, keys[:-1] + [key])
                out.append({'s': 'set', 'i': i, 'key': key, 'way': rng.randint(0, 1)})
            elif not self.ctx and r < 0.97 and len(keys) > self.floor(i):
                k = rng.randint(1, len(keys) - self.floor(i))
                self.at[i] = (src, keys[:-k])
                step = {'s': 'rew', 'i': i, 'n': k}
                size = rng.randint(1, max(1, min(n, 5)))
                self.body(step, size, depth)
                n -= size
                self.at[i] = (src, keys)
                out.append(step)
            else:
                out.append({'s': 'snap', 'i': i})
        return out

    def floor(self, i):
        return self.floors[i] if hasattr(self, 'floors') else 0

    def body(self, step, size, depth):
        """Steps of a block: cursors end where they began, and do not go above that."""
        before = [(s, list(k)) for s, k in self.at]
        floors = getattr(self, 'floors', [0] * len(self.at))
        self.floors = [len(k) for _, k in self.at] if not self.ctx else floors
        step['ops'] = self.steps(size, depth + 1)
        self.floors = floors
        if not self.ctx:
            for i, (s, k) in enumerate(self.at):
                for _ in range(len(k) - len(before[i][1])):
                    step['ops'].append({'s': 'up', 'i': i})
        elif self.rng.random() < 0.15:
            step['raise'] = self.rng.choice(RAISES)
        self.at = before

    def leaf(self, i):
        if self.spec(i)['kind'] != 'union':
            return False
        with envs.installed(self.oracle.env):
            return (kind_at(self.oracle.at_raw(self.spec(i), self.at[i][1])) or '').startswith('prim')

    def before(self, i):
        """Often no level is read before the next is entered."""
        return [self.read(i)] if self.rng.random() < 0.3 else []

    def key(self, i):
        rng = self.rng
        spec, keys = self.spec(i), self.at[i][1]
        found = []
        with envs.installed(self.oracle.env):
            try:
                cur = self.oracle.at(spec, keys)
                for fn in (lambda: list(cur.mapping()), lambda: list(range(cur.sequence()))):
                    try:
                        found.extend(fn())
                    except envs.MExc:
                        pass
                v = cur.value()
                if isinstance(v, envs.FObj):
                    found.extend(v.__dict__['sim_attrs'])
            except envs.MExc:
                pass
        found = [k for k in found if isinstance(k, (str, int))]
        r = rng.random()
        union = spec['kind'] == 'union'
        if found and r < 0.78:
            key = rng.choice(found)
        elif r < 0.92 or union:
            key = rng.choice([rng.choice(NAMES), 'zzz', rng.randint(0, 4), 99] + ([] if union else [-1, -7]))
        else:
            key = '.'.join(rng.choice(['a', 'b', 'c', 'k1', 'x.y', 'zzz']) for _ in range(2))
        if isinstance(key, str) and spec['kind'] in ('default', 'mount') and rng.random() < 0.08:
            key += '()'
        return key

    def read(self, i):
        rng = self.rng
        spec, keys = self.spec(i), self.at[i][1]
        union = spec['kind'] == 'union'
        whats = ['exists', 'exists', 'null', 'str', 'map', 'seq', 'prim']
        if spec['kind'] in ('default', 'json'):
            whats += ['value', 'value']
        what = rng.choice(whats)
        if union:
            with envs.installed(self.oracle.env):
                kind = kind_at(self.oracle.at_raw(spec, keys))
            if kind in (None, 'null'):
                what = rng.choice(['exists', 'str'])
            elif what in ('map', 'seq', 'prim'):
                what = kind
            elif what == 'null':
                # settled by the read that suits it
                what = 'null' if kind in ('map', 'seq') else 'str'
        elif what == 'prim':
            exists = self.oracle.read(spec, keys, 'exists')
            if exists != ('exists', True) or (
                    spec['kind'] in ('mount', 'config')[not keys:] and self.oracle.read(spec, keys, 'map')[0] == 'map'):
                what = 'exists'
            else:
                what = 'prim:' + rng.choice(SCALAR_TYPES + ['none'])
        step = {'s': 'read', 'i': i, 'what': what}
        if union and what == 'null':
            step['settle'] = kind
        if rng.random() < 0.15:
            sites = []
            self.oracle.read(spec, keys, what, sites)
            if sites:
                step['faults'] = [[rng.choice(sites), rng.choice(envs.CAUGHT + envs.ESCAPING)]]
        return step


def at_raw(self, spec, keys):
    """As `at`, with the last place not read yet."""
    cur = self.make(spec, None, None)
    for key in keys:
        if isinstance(cur, model.Union):
            self.settle(cur)
        cur = cur.child(key)
    return cur


Oracle.at_raw = at_raw


# the real library

class Real(object):

    def __init__(self, plan):
        self.plan = plan
        self.world = engine.fresh(plan)
        self.env = self.world.env()
        self.oracle = Oracle(plan)
        self.ctx = plan['mode'] == 'ctx'
        self.sources = [self.world.source(s) for s in plan['sources']]
        self.at = [(0, []) for _ in plan['cursors']]
        self.marks = {}
        self.snaps = []
        self.violation = None
        self.reads = self.moves = self.rewinds = self.aborts = self.back = 0
        self.missing = self.nulls = self.failed = 0
        self.places = set()

    def all(self):
        with envs.installed(self.env):
            if self.ctx:
                with self.world.ctx(src=self.sources[0]):
                    self.steps(self.plan['ops'])
            else:
                self.paths = [self.sources[0].path() for _ in self.plan['cursors']]
                self.steps(self.plan['ops'])

    def path(self, i):
        return self.world.ctx.src_path if self.ctx else self.paths[i]

    def spec(self, i):
        return self.plan['sources'][self.at[i][0]]

    def found(self, cls, i, expected, actual, **more):
        if self.violation is None:
            src, keys = self.at[i]
            self.violation = (cls, dict(
                more, cursor=i, source=self.plan['sources'][src], keys=keys, expected=jsonable(expected),
                actual=jsonable(actual)))

    def steps(self, ops):
        for op in ops:
            if self.violation:
                return
            self.step(op)

    def step(self, op):
        i, kind = op.get('i', 0), op['s']
        if i >= len(self.at):
            raise sched.PlanError('no cursor')
        src, keys = self.at[i]
        if kind == 'read':
            return self.read(i, op)
        if kind == 'snap':
            path = self.path(i)
            self.snaps.append((copy.copy(path), str(path), list(keys)))
            return
        self.moves += 1
        if kind in ('go', 'key') and self.spec(i)['kind'] == 'union':
            # a merged source tells a mapping from a sequence by how it is read
            with envs.installed(self.oracle.env):
                found = kind_at(self.oracle.at_raw(self.spec(i), keys))
            if found in ('map', 'seq'):
                self.look(i, found)
            elif found not in (None, 'null'):
                raise sched.PlanError('below a primitive')
        if kind == 'go':
            if op.get('way'):
                self.moved(i, op, lambda: self.path(i).extend([op['key']]))
            else:
                self.moved(i, op, lambda: self.path(i).append(op['key']))
            self.at[i] = (src, keys + [op['key']])
        elif kind == 'up':
            if not keys:
                raise sched.PlanError('up')
            if op.get('way'):
                self.moved(i, op, lambda: self.path(i).__delitem__(len(keys) - 1))
            else:
                self.moved(i, op, lambda: self.path(i).pop())
            self.at[i] = (src, keys[:-1])
            self.back += 1
        elif kind == 'set':
            if not keys:
                raise sched.PlanError('set')

            def assign():
                self.path(i)[len(keys) - 1 if op.get('way') else -1] = op['key']

            self.moved(i, op, assign)
            self.at[i] = (src, keys[:-1] + [op['key']])
        elif kind == 'rew':
            n = op['n']
            if n > len(keys):
                raise sched.PlanError('rew')
            parts = []
            self.moved(i, op, lambda: [parts.append(self.path(i).pop()) for _ in range(n)])
            self.at[i] = (src, keys[:len(keys) - n])
            self.rewinds += 1
            self.steps(op['ops'])
            if self.at[i] != (src, keys[:len(keys) - n]):
                raise sched.PlanError('unbalanced')
            self.moved(i, op, lambda: [self.path(i).append(p) for p in reversed(parts)])
            self.at[i] = (src, keys)
        elif kind == 'key' and not self.ctx:
            self.moved(i, op, lambda: self.path(i).append(op['key']))
            self.at[i] = (src, keys + [op['key']])
            self.steps(op['ops'])
            if self.at[i] != (src, keys + [op['key']]):
                raise sched.PlanError('unbalanced')
            if self.violation:
                return
            self.moved(i, op, lambda: self.path(i).pop())
            self.at[i] = (src, keys)
            self.back += 1
        else:
            self.block(i, op)

    def moved(self, i, op, fn):
        try:
            fn()
        except (sched.Abort, loader.StepLimit, sched.PlanError):
            raise
        except BaseException as ex:
            self.found('moving the cursor fails', i, 'moved', repr(ex), step=op['s'], key=op.get('key'))

    def block(self, i, op):
        ctx, kind = self.world.ctx, op['s']
        src, keys = saved = self.at[i]
        marks = dict(self.marks)
        if kind == 'key':
            enter = lambda: ctx(src=op['key'])
            self.at[i] = (src, keys + [op['key']])
        elif kind == 'vars':
            enter = lambda: ctx(c11=op['mark'])
            self.marks[op['mark']] = saved
        elif kind == 'src':
            if op['n'] >= len(self.sources):
                raise sched.PlanError('source')
            enter = lambda: ctx(src=self.sources[op['n']])
            self.at[i] = (op['n'], [])
        elif kind == 'rewind':
            if op['mark'] not in self.marks:
                raise sched.PlanError('mark')
            enter = lambda: ctx.rewind(lambda frame: frame.get('c11') == op['mark'])
            self.at[i] = self.marks[op['mark']]
            self.marks = {m: at for m, at in self.marks.items() if m <= op['mark']}
            self.rewinds += 1
        else:
            raise sched.PlanError('step')
        ex = self.env.exception(op['raise'], 'block') if op.get('raise') else None
        inside = []
        try:
            with enter():
                inside.append(1)
                self.steps(op['ops'])
                if ex is not None:
                    raise ex
        except (sched.Abort, loader.StepLimit, sched.PlanError):
            raise
        except BaseException as got:
            if got is not ex:
                self.found('a block ends in another way', i, repr(ex), repr(got), step=kind)
            self.aborts += 1
        self.at[i], self.marks = saved, marks
        if not self.violation:
            self.check(i)
        self.back += 1

    def check(self, i):
        """The keys and the printed location are those of the moves made."""
        src, keys = self.at[i]
        path = self.path(i)
        got = self.attempt(lambda: ([part.key for part in path], len(path)))
        if got != (keys, len(keys)):
            self.found('the cursor is elsewhere', i, keys, got)
            return
        want = self.oracle.read(self.spec(i), keys, 'str')
        got = self.attempt(lambda: ('str', str(path)))
        if got != want:
            self.found('the printed location is another', i, want, got)
        if keys and not self.ctx and self.attempt(lambda: path.name) != keys[-1]:
            self.found('the name is another', i, keys[-1], self.attempt(lambda: path.name))
        for snap, text, at in self.snaps:
            got = self.attempt(lambda: (str(snap), [part.key for part in snap]))
            if got != (text, at):
                self.found('a copy of the path has moved', i, (text, at), got)

    def attempt(self, fn):
        try:
            return fn()
        except (sched.Abort, loader.StepLimit, sched.PlanError):
            raise
        except BaseException as ex:
            return ('exc', repr(ex))

    def read(self, i, op):
        what, spec = op['what'], self.spec(i)
        src, keys = self.at[i]
        if spec['kind'] == 'union' and what not in ('exists', 'str'):
            with envs.installed(self.oracle.env):
                suits = kind_at(self.oracle.at_raw(spec, keys))
            if suits != (op.get('settle') if what == 'null' else what):
                raise sched.PlanError('read of another kind')
        self.reads += 1
        self.places.add((i, src, tuple(keys)))
        if op.get('settle'):
            self.look(i, op['settle'])
        want = self.oracle.read(spec, keys, what)
        if op.get('faults'):
            self.env.set_faults(op['faults'])
            fired = sum(self.env.fired.values())
            got = self.look(i, what)
            self.env.set_faults(None)
            if sum(self.env.fired.values()) > fired:
                kind, site = op['faults'][0][1], op['faults'][0][0]
                if got != ('exc', kind, site) and got != self.with_site(want):
                    self.found('a failing read gives something else', i, [want, ('exc', kind)], got, what=what,
                               faults=op['faults'])
                    return
            elif got != self.with_site(want):
                self.found('not the value at the current keys', i, want, got, what=what)
                return
            self.check(i)
        got = self.look(i, what)
        if got != self.with_site(want):
            self.found('not the value at the current keys', i, want, got, what=what)
            return
        if want == ('exists', False):
            self.missing += 1
        elif want == ('null', True):
            self.nulls += 1
        elif want[0] == 'exc':
            self.failed += 1
        self.check(i)

    def with_site(self, want):
        return want + (None,) if want[0] == 'exc' else want

    def look(self, i, what):
        path = self.path(i)
        kind, _, arg = what.partition(':')
        try:
            if kind == 'exists':
                return ('exists', path.exists)
            if kind == 'null':
                return ('null', path.is_null)
            if kind == 'value':
                return ('value', fp(path.value))
            if kind == 'str':
                return ('str', str(path))
            if kind == 'map':
                found = path.mapping()
                keys = list(found)
                if len(set(keys)) != len(keys):
                    return ('map', 'some keys twice')
                listed = set(str(k) for k in keys)
                if hasattr(found, '__len__') and len(found) != len(keys):
                    return ('map', 'of length {0}'.format(len(found)))
                return ('map', tuple(sorted(listed)))
            if kind == 'seq':
                return ('seq', path.sequence())
            if kind == 'prim':
                types = {'str': (str,), 'int': (int,), 'float': (float,), 'bool': (bool,), 'none': ()}[arg]
                return ('prim', fp(path.primitive(*types)))
        except (sched.Abort, loader.StepLimit, sched.PlanError):
            raise
        except BaseException as ex:
            kind, site = self.env.identify(ex)
            return ('exc', kind, site)
        raise sched.PlanError('read')


CHECK = C11()
