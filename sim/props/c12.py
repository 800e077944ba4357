"""C12: merged sources combine members by policy and never mask a failing member."""
from .common import *
from .. import env as envs, gen


class C12(ModelCheck):

    id = 'C12'
    rule = ('a run counts when two or more members were merged and a value was read from them; runs are told apart by '
            'schedule, faults and the expected history')
    runs = {'quick': 7000, 'thorough': 120000}
    keep = runner.Check.keep | frozenset(('sources', 'shared', 'mapping', 'sequence'))
    ops = (1, 3)
    p_threads = 0.12

    def plan_once(self, rng, tier):
        kinds = dict(gen.BASE_CFG['kinds'], **UNION_KINDS)
        kinds.update(sub=4, dict=4, list=5)
        members = {'default': 4, 'json': 2, 'mount': 0, 'config': 0, 'union': 0}
        r = rng.random()
        cfg = {'bad_p': 0.06, 'absent_p': 0.1, 'null_members': 0.1}
        if r < 0.15:
            members['config'] = 3
            kinds.update(CONFIG_KINDS)
            cfg['flat_p'] = cfg['unmapped_p'] = 0
        elif r < 0.4:
            members['mount'] = 1
        if rng.random() < 0.35:
            members['union'] = 2
        if rng.random() < 0.5:
            cfg['hook_p'] = 0
        d = Drawn(
            rng, kinds=kinds, members=members, call_p=0, obj_p=0,
            sources={'plain': 0, 'default': 0, 'json': 0, 'mount': 0, 'seq': 0, 'union': 1}, **cfg)
        d.plan['sources'] = {}
        shared = []
        for i in range(rng.randint(1, 2)):
            form = d.form()
            d.plan['sources']['S{0}'.format(i)] = d.source(form)
            shared.append((form, 'S{0}'.format(i)))
        n = rng.choice([2, 2, 3]) if rng.random() < self.p_threads else 1
        threads = []
        for _ in range(n):
            ops = []
            for _ in range(rng.randint(*self.ops)):
                op = d.map_op()
                if members['config'] and op.get('unmapped') == 'capture':
                    # what a section is when read as any value is not specified
                    del op['unmapped']
                if rng.random() < 0.6:
                    op['form'], name = rng.choice(shared)
                    op['src'] = {'shared': name}
                ops.append(op)
            threads.append(ops)
        d.plan['threads'] = threads
        plan = d.finish()
        for op in all_ops(plan['threads']):
            r = rng.random()
            if r < 0.35:
                place(plan, op, rng, envs.CAUGHT, rng.choice([1, 1, 2]), prefer='rkmsp')
            elif r < 0.6:
                place(plan, op, rng, envs.ESCAPING, 1, prefer='rkmsp')
        if n > 1:
            plan['sched'] = draw_sched(rng)
            plan['sched_seed'] = rng.getrandbits(32)
        return plan

    def run(self, plan):
        out = runner.Outcome()
        clean = [engine.run_model(plan, [dict(op, faults=None) for op in ops]) for ops in plan['threads']]
        expected = [engine.run_model(plan, ops) for ops in plan['threads']]
        records, run = run_plan(plan, out)
        out.sig += repr(expected)
        if records is None:
            return out
        count_outcomes(out, records)
        for tid, ops in enumerate(plan['threads']):
            for i, op in enumerate(ops):
                self.judge(out, tid, i, op, clean[tid][i], expected[tid][i], records[tid][i])
                if out.violation:
                    return out
        for spec in specs(plan):
            if spec.get('kind') == 'union':
                out.add('merge_{0}'.format(spec.get('merge')))
                out.add('members', len(spec['srcs']))
                for m in spec['srcs']:
                    out.add('member_' + m['kind'])
        out.nontrivial = any(len(s['srcs']) > 1 for s in specs(plan) if s.get('kind') == 'union')
        return out

    def judge(self, out, tid, i, op, clean, x, y):
        a, b, c = x['out'], y['out'], clean['out']
        for site, kind in ((f[0], f[1]) for f in op.get('faults') or ()):
            if b[0] == 'ok' and not b[1] and b != c and site[0] in 'rkmsp' and a != b:
                # nothing was reported though a member could not be read
                return out.violate('a failing member is masked', diff('values', tid, i, op, c, b))
        if a[0] != b[0]:
            return out.violate('other outcome', diff('outcome', tid, i, op, a, b))
        if a != b:
            out.violate('another merge than declared', diff('outcome', tid, i, op, a, b))


def specs(plan):
    def walk(spec):
        if not isinstance(spec, dict):
            return
        yield spec
        srcs = spec.get('srcs') or []
        for s in srcs.values() if isinstance(srcs, dict) else srcs:
            for x in walk(s):
                yield x
    for s in list(plan.get('sources', {}).values()) + [op.get('src') for op in all_ops(plan['threads'])]:
        for x in walk(s):
            yield x


CHECK = C12()
