"""C03: a failed operation leaves no residue; a retry behaves as if it were first."""
from .common import *
from .. import env as envs


class C03(runner.Check):

    id = 'C03'
    rule = ('a run counts when at least one fault fired in the failing phase; runs are told apart by schedule, faults '
            'and the history of the retries')
    runs = {'quick': 6000, 'thorough': 90000}
    keep = runner.Check.keep | frozenset(('fail', 'retry', 'mode'))

    def plan(self, rng, tier):
        for _ in range(10):
            plan = self.plan_once(rng, tier)
            if len(repr(plan)) < MAX_PLAN:
                break
        return plan

    def plan_once(self, rng, tier):
        cfg = {
            'forms': (1, 3), 'fields': (1, 4), 'hook_p': 0.45, 'acts_n': (0, 2), 'bad_p': 0.06, 'factory_p': 0.3,
            'acts': {'read': 4, 'getvar': 1, 'push': 1, 'map': 2, 'loc': 1, 'reset': 0, 'other': 1, 'try': 1},
            'tags': rng.random() < 0.2,
        }
        r = rng.random()
        if r < 0.15:
            cfg['kinds'] = dict(gen.BASE_CFG['kinds'], **UNION_KINDS)
            cfg['sources'] = {'plain': 0, 'default': 0, 'json': 0, 'mount': 0, 'seq': 0, 'union': 1}
        elif r < 0.25:
            cfg['kinds'] = dict(gen.BASE_CFG['kinds'], **CONFIG_KINDS)
            cfg.update(call_p=0, obj_p=0, flat_p=0)
            cfg['sources'] = {'plain': 1, 'default': 0, 'json': 0, 'mount': 0, 'seq': 0, 'config': 4}
        else:
            cfg['kinds'] = dict(gen.BASE_CFG['kinds'], poly=6)
            cfg['alias_p'] = 0.5
            cfg['sources'] = dict(gen.BASE_CFG['sources'], default=5)
        d = Drawn(rng, **cfg)
        d.plan['sources'] = {}
        shared = []
        for i in range(rng.randint(1, 3)):
            form = d.form()
            spec = d.source(form)
            d.plan['sources']['S{0}'.format(i)] = spec
            shared.append((form, 'S{0}'.format(i)))
        retry = [self.op(d, rng, shared) for _ in range(rng.randint(1, 3))]
        d.plan['fail'] = d.grown([dict(rng.choice(retry)) for _ in range(rng.randint(1, 4))], 0.2)
        d.plan['retry'] = retry
        d.plan['mode'] = rng.choice(['same', 'same', 'same', 'other', 'concurrent', 'concurrent'])
        plan = d.finish()
        for op in plan['fail']:
            if rng.random() < 0.9:
                place(plan, op, rng, envs.CAUGHT + envs.ABSENT * 2 + envs.ESCAPING, rng.choice([1, 1, 2]),
                      nth=[1, 1, 1, 2, 3])
        if plan['mode'] == 'concurrent':
            plan['sched'] = draw_sched(rng, rng.choice([500, 2000, 6000]))
            plan['sched_seed'] = rng.getrandbits(32)
        return plan

    def op(self, d, rng, shared):
        r = rng.random()
        if r < 0.15:
            form = d.form()
            names = [f['n'] for f in d.gen.fields(form)]
            if names:
                return {'op': 'read', 'form': form, 'inst': None, 'field': rng.choice(names)}
        if r < 0.35 and d.gen.hierarchies:
            base, ident, names = rng.choice(d.gen.hierarchies)
            data = d.gen.data(rng.choice(names))
            data[ident] = rng.choice([i for n in names for f in d.gen.fields(n) if f['n'] == ident
                                      for i in f['idents']] + ['unknown'])
            if rng.random() < 0.1:
                data[ident] = gen.near(rng, data[ident])
            d.sid += 1
            return {'op': 'cast', 'base': base, 'ident': ident, 'data': data, 'sid': 'c{0}'.format(d.sid)}
        op = d.map_op()
        if rng.random() < 0.7 and op['how'] != 'ctor':
            op['form'], name = rng.choice(shared)
            op['src'] = {'shared': name}
        if d.gen.cfg['tags'] and op['how'] == 'map' and rng.random() < 0.5:
            op['tags'] = rng.sample(['t0', 't1', 't2'], rng.randint(1, 2))
        return op

    def run(self, plan):
        out = runner.Outcome()
        fail = [dict(op, inst='f{0}'.format(i)) if op['op'] == 'read' else op for i, op in enumerate(plan['fail'])]
        retry = [dict(op, inst='r{0}'.format(i)) if op['op'] == 'read' else op for i, op in enumerate(plan['retry'])]
        first = engine.run_solo(plan, retry)
        if first.stuck:
            out.violate('stuck alone', first.stuck)
            return out
        world = engine.fresh(plan)
        mode = plan['mode']
        runs = []
        if mode == 'same':
            runs.append(engine.run_solo(plan, fail, world=world))
            runs.append(engine.run_solo(plan, retry, world=world))
            got = [runs[1].records]
        elif mode == 'other':
            runs.append(engine.run_solo(plan, fail, world=world))
            runs.append(engine.run_threads(plan, [retry], spec={'mode': 'none'}, world=world))
            got = runs[1].records
        elif mode == 'concurrent':

            def body(world, env, tid, ops):
                if tid == 0:
                    state = {}
                    for op in fail:
                        engine.real_op(world, env, op, state)
                    env.counters.clear()
                state = {}
                return [engine.real_op(world, env, op, state) for op in retry]

            runs.append(engine.run_threads(plan, [fail, retry], world=world, make_body=body))
            got = runs[0].records
            out.trace = runs[0].trace
        else:
            raise sched.PlanError('mode')
        for run in runs:
            out.fire(run.fired)
            out.add('steps', run.steps)
            out.add('thread_switches', run.switches)
            if run.stuck:
                out.violate('stuck', run.stuck)
                return out
        out.add('mode_' + mode)
        out.add('retried_operations', len(retry) * len(got))
        out.sig = repr((mode, out.trace, [op.get('faults') for op in fail], first.records))
        out.nontrivial = bool(out.fired)
        for records in got:
            d = engine.first_difference(first.records, records)
            if d is not None:
                i, x, y = d
                for key in ('out', 'inst', 'events'):
                    if x.get(key) != y.get(key):
                        out.violate('a retry differs from a first attempt',
                                    diff(key, mode, i, retry[i], x.get(key), y.get(key)))
        return out


CHECK = C03()
