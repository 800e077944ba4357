"""C02: the context is restored after every operation, however it ends."""
import contextlib

from .common import *
from .. import env as envs

NAMES = (
    'src', 'src_path', 'form', 'parent', 'field', 'errors', 'tags', 'ignore_default', 'ignore_missing', 'v0', 'v1',
    'v2',
)
GONE = object()


def snapshot(ctx):
    """Everything observable of the calling thread's context."""
    out = {}
    for name in NAMES:
        out[name] = getattr(ctx, name, GONE)
        out[name + '*'] = list(ctx.values_for(name))
    path = out['src_path']
    out['location'] = str(path)
    out['keys'] = [part.key for part in path] if path is not None and path is not GONE else None
    return out


def changed(before, after):
    for name in before:
        a, b = before[name], after[name]
        if name in ('location', 'keys'):
            if a != b:
                return name, a, b
        elif name.endswith('*'):
            if len(a) != len(b) or any(x is not y for x, y in zip(a, b)):
                return name, [text(x) for x in a], [text(x) for x in b]
        elif a is not b:
            return name, text(a), text(b)


def text(x):
    return str(x)[:80] if isinstance(x, (int, str)) or x is None else type(x).__name__


def ctxcheck(env):

    @contextlib.contextmanager
    def check(ctx, what):
        before = snapshot(ctx)
        env.snapshots = getattr(env, 'snapshots', 0) + 1
        how = 'return'
        try:
            yield
        except (sched.Abort, sched.PlanError):
            raise
        except BaseException as ex:
            how = type(ex).__name__
            raise
        finally:
            if how not in ('Abort', 'StepLimit'):
                d = changed(before, snapshot(ctx))
                if d is not None:
                    env.violations.append({'after': what, 'ended by': how, 'name': d[0], 'was': d[1], 'is': d[2]})

    return check


class C02(runner.Check):

    id = 'C02'
    rule = ('a run counts when at least one operation ended by an exception or a field was read on demand; runs are '
            'told apart by faults and the recorded history')
    runs = {'quick': 9000, 'thorough': 90000}
    #: also run two threads at once now and then
    p_threads = 0.1

    def plan(self, rng, tier):
        for _ in range(10):
            plan = self.plan_once(rng, tier)
            if len(repr(plan)) < MAX_PLAN:
                break
        return plan

    def plan_once(self, rng, tier):
        cfg = {
            'forms': (1, 3), 'fields': (1, 4), 'hook_p': 0.6, 'acts_n': (0, 3), 'bad_p': 0.08, 'read_p': 0.3,
            'acts': {'read': 5, 'getvar': 3, 'push': 3, 'map': 2, 'loc': 2, 'reset': 2, 'other': 1, 'try': 2,
                     'ohas': 1},
        }
        r = rng.random()
        if r < 0.12:
            cfg['kinds'] = dict(gen.BASE_CFG['kinds'], **UNION_KINDS)
            cfg['sources'] = {'plain': 0, 'default': 0, 'json': 0, 'mount': 0, 'seq': 0, 'union': 1}
        d = Drawn(rng, **cfg)
        n = 2 if rng.random() < self.p_threads else 1
        d.plan['threads'] = [[self.op(d, rng, 0) for _ in range(rng.randint(1, 4))] for _ in range(n)]
        plan = d.finish()
        if n > 1:
            plan['sched'] = draw_sched(rng)
            plan['sched_seed'] = rng.getrandbits(32)
        for op in flatten(plan):
            if op['op'] in ('map', 'read', 'cast') and rng.random() < 0.6:
                place(plan, op, rng, envs.CAUGHT + envs.ABSENT[:1] + envs.ESCAPING * 2, 1)
        return plan

    def op(self, d, rng, depth):
        r = rng.random()
        if r < 0.4 and depth < 4:
            kind = rng.choice(['push', 'push', 'reset', 'rewind', 'src', 'key', 'key'])
            op = {'op': 'block', 'kind': kind, 'ops': [self.op(d, rng, depth + 1) for _ in range(rng.randint(1, 3))]}
            if kind == 'push':
                op['bvars'] = {v: rng.randint(0, 3) for v in ('v0', 'v1', 'v2') if rng.random() < 0.5}
            elif kind == 'rewind':
                op['stop'] = [rng.choice(['v0', 'v1', 'v2']), rng.randint(0, 3)]
                if rng.random() < 0.05:
                    op['stop'] = 'raise'
                elif rng.random() < 0.15:
                    # after it was asked about some
                    op['stop'][1] = 'raise'
            elif kind == 'src':
                op['src'] = d.source(d.form(), kinds={'default': 3, 'json': 2, 'mount': 1})
            elif kind == 'key':
                names = [f['src'] for f in d.gen.fields(d.form()) if f.get('src')]
                op['key'] = rng.choice(names + [0, 'x'])
            if rng.random() < 0.3:
                op['raise'] = rng.choice(envs.CAUGHT[:1] + envs.ESCAPING)
            return op
        if r < 0.5:
            return {'op': 'getvar', 'var': rng.choice(['v0', 'v1', 'v2'])}
        if r < 0.55:
            return {'op': 'loc'}
        if r < 0.65:
            form = d.form()
            names = [f['n'] for f in d.gen.fields(form)]
            if names:
                d.sid += 1
                return {'op': 'read', 'inst': 'r{0}'.format(d.sid), 'form': form, 'field': rng.choice(names)}
        if r < 0.75 and d.gen.hierarchies:
            base, ident, names = rng.choice(d.gen.hierarchies)
            data = d.gen.data(rng.choice(names))
            data[ident] = rng.choice([i for n in names for f in d.gen.fields(n) if f['n'] == ident
                                      for i in f['idents']] + ['unknown'])
            if rng.random() < 0.1:
                data[ident] = gen.near(rng, data[ident])
            d.sid += 1
            return {'op': 'cast', 'base': base, 'ident': ident, 'data': data, 'sid': 'c{0}'.format(d.sid)}
        return d.map_op(hows=('map', 'map', 'ctor', 'raise'))

    def run(self, plan):
        out = runner.Outcome()
        expected = [engine.run_model(plan, ops) for ops in plan['threads']]
        world = engine.fresh(plan)
        make = world.env

        def env():
            e = make()
            e.ctxcheck = ctxcheck(e)
            return e

        world.env = env
        records, run = run_plan(plan, out, world=world)
        if records is None:
            return out
        out.sig += repr(expected)
        for e in run.envs:
            out.add('context_snapshots_compared', getattr(e, 'snapshots', 0))
            if e.violations:
                v = e.violations[0]
                out.violate('context changed by {0}'.format(v['after']), v)
                return out
        out.add('operations_nested', sum(1 for _ in flatten(plan)))
        ended = False
        for tid, (e, a) in enumerate(zip(expected, records)):
            for i, (x, y) in enumerate(zip(e, a)):
                op = plan['threads'][tid][i]
                p, q = seen(x), seen(y)
                ended = ended or "'exc'" in repr(y['out']) or "'read'" in repr(p)
                if p != q:
                    out.violate('another variable or location seen', diff('seen', tid, i, op, p, q))
                    return out
        out.nontrivial = ended
        count_outcomes(out, records)
        return out


def flatten(plan):

    def walk(ops):
        for op in ops:
            yield op
            for sub in walk(op.get('ops') or ()):
                yield sub

    for ops in plan['threads']:
        for op in walk(ops):
            yield op


def seen(rec):
    """Variables and locations that an operation saw (and how nested operations ended)."""
    out = []

    def walk(name, o, events):
        for e in events:
            if e[0] in ('var', 'loc', 'leave'):
                out.append(e)
        if name in ('getvar', 'loc'):
            out.append(o)
        if o[0] == 'block':
            for sub in o[1]:
                walk(*sub)
            out.append(o[2])
        elif o[0] in ('exc', 'nostop', 'nosource'):
            out.append(o)

    walk(rec['op'], rec['out'], rec['events'])
    return out


CHECK = C02()
