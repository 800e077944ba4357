"""C01: concurrent mappings never influence one another."""
from .common import *
from .. import build


class C01(runner.Check):

    id = 'C01'
    rule = ('a run counts when the scheduler switched threads at least once while more than one thread had work '
            'left; runs are told apart by schedule decisions, faults and the recorded history')
    runs = {'quick': 3500, 'thorough': 80000}

    def plan(self, rng, tier):
        for _ in range(10):
            plan = self.plan_once(rng, tier)
            if len(repr(plan)) < MAX_PLAN:
                break
        return plan

    def plan_once(self, rng, tier):
        cfg = {
            'forms': (1, 3), 'fields': (1, 4), 'hook_p': 0.4, 'acts_n': (0, 2), 'bad_p': 0.08,
            'acts': {'read': 4, 'getvar': 3, 'push': 2, 'map': 2, 'loc': 2, 'reset': 1, 'other': 1, 'try': 1,
                     'ohas': 1},
            'tags': rng.random() < 0.3,
        }
        r = rng.random()
        if r < 0.15:
            cfg['kinds'] = dict(gen.BASE_CFG['kinds'], **UNION_KINDS)
            kind = {'plain': 0, 'default': 0, 'json': 0, 'mount': 0, 'seq': 0, 'union': 1}
        elif r < 0.3:
            cfg['kinds'] = dict(gen.BASE_CFG['kinds'], **CONFIG_KINDS)
            cfg.update(call_p=0, obj_p=0, flat_p=0)
            kind = {'plain': 1, 'default': 0, 'json': 0, 'mount': 0, 'seq': 0, 'config': 5}
        else:
            kind = {'plain': 2, 'default': 3, 'json': 3, 'mount': 2, 'seq': 1}
        cfg['sources'] = kind
        d = Drawn(rng, **cfg)
        # sources shared by the threads
        d.plan['sources'] = {}
        shared = []
        for i in range(rng.randint(1, 3)):
            form = d.form()
            spec = d.source(form)
            if spec['kind'] in ('plain', 'seq'):
                spec['kind'] = 'plain'
            d.plan['sources']['S{0}'.format(i)] = spec
            shared.append((form, 'S{0}'.format(i)))
        threads = []
        same = rng.random() < 0.4     # the same forms and input everywhere
        n = rng.choice([2, 2, 2, 3, 4])
        for tid in range(n):
            if same and tid:
                threads.append(json_copy(threads[0]))
                continue
            threads.append(d.grown([self.op(d, rng, shared) for _ in range(rng.randint(1, 3))], 0.2))
        d.plan['threads'] = threads
        plan = d.finish()
        plan['sched'] = draw_sched(rng, rng.choice([500, 2000, 6000]))
        plan['sched_seed'] = rng.getrandbits(32)
        for op in all_ops(plan['threads']):
            if op['op'] == 'map' and rng.random() < 0.4:
                place(plan, op, rng, envs.CAUGHT + envs.ABSENT + envs.ESCAPING, rng.choice([1, 1, 2]),
                      nth=[1, 1, 2])
        return plan

    def op(self, d, rng, shared):
        r = rng.random()
        if r < 0.08:
            return {'op': 'getvar', 'var': rng.choice(gen.VARS)}
        if r < 0.16:
            form = d.form()
            names = [f['n'] for f in d.gen.fields(form)]
            if names:
                return {'op': 'read', 'inst': 'r', 'form': form, 'field': rng.choice(names)}
        if r < 0.3 and d.gen.hierarchies:
            base, ident, names = rng.choice(d.gen.hierarchies)
            data = d.gen.data(rng.choice(names))
            data[ident] = rng.choice([i for n in names for f in d.gen.fields(n) if f['n'] == ident
                                      for i in f['idents']] + ['unknown'])
            if rng.random() < 0.1:
                data[ident] = gen.near(rng, data[ident])
            d.sid += 1
            return {'op': 'cast', 'base': base, 'ident': ident, 'data': data, 'sid': 'c{0}'.format(d.sid)}
        if r < 0.4:
            return {
                'op': 'block', 'kind': rng.choice(['push', 'push', 'reset']), 'bvars': {'v0': rng.randint(100, 200)},
                'ops': [self.op(d, rng, shared) for _ in range(rng.randint(1, 2))],
                'raise': rng.choice([None, 'RuntimeError']),
            }
        op = d.map_op()
        if rng.random() < 0.6 and op['how'] != 'ctor':
            op['form'], name = rng.choice(shared)
            op['src'] = {'shared': name}
            if rng.random() < 0.2:
                op['form'] = d.form()
        if op['how'] == 'map' and rng.random() < 0.2:
            op['inst'] = 'i{0}'.format(op['form'])
            if rng.random() < 0.3:
                op['reset'] = True
        if d.gen.cfg['tags'] and op['how'] == 'map' and rng.random() < 0.5:
            op['tags'] = rng.sample(['t0', 't1', 't2'], rng.randint(1, 2))
        return op

    def run(self, plan):
        out = runner.Outcome()
        solo = [engine.run_solo(plan, ops) for ops in plan['threads']]
        for run in solo:
            if run.stuck:
                out.violate('stuck alone', run.stuck)
                return out
        records, run = run_plan(plan, out)
        if records is None:
            return out
        out.sig += repr(records)
        count_outcomes(out, records)
        for tid, (e, a) in enumerate(zip([r.records for r in solo], records)):
            d = engine.first_difference(e, a)
            if d is None:
                continue
            i, x, y = d
            for key in ('out', 'inst', 'events'):
                if x.get(key) != y.get(key):
                    out.violate(
                        'another result than alone', diff(key, tid, i, plan['threads'][tid][i], x.get(key), y.get(key)))
        out.nontrivial = run.switches > 0
        return out


CHECK = C01()
