"""C06: re-mapping one form instance is consistent, even when a mapping is aborted."""
import itertools

from .common import *
from .. import build, env as envs

TAGS = ['t0', 't1', 't2']


class C06(runner.Check):

    id = 'C06'
    rule = ('a run counts when an instance was mapped at least twice and a mapping was aborted, reset, or selected by '
            'tags; runs are told apart by schedule, faults and the recorded history')
    runs = {'quick': 6000, 'thorough': 90000}
    keep = runner.Check.keep | frozenset(['counter'])

    def plan(self, rng, tier):
        for _ in range(10):
            plan = self.plan_once(rng, tier)
            if len(repr(plan)) < MAX_PLAN:
                break
        return plan

    def plan_once(self, rng, tier):
        cfg = {
            'forms': (1, 3), 'fields': (2, 6), 'hook_p': 0.3, 'acts_n': (0, 1), 'bad_p': 0.1, 'absent_p': 0.25,
            'acts': {'read': 0, 'getvar': 2, 'push': 1, 'map': 1, 'loc': 1, 'reset': 0, 'other': 0, 'try': 0},
            'read_p': 0, 'format_p': 0, 'tags': rng.random() < 0.85, 'inherit_p': 0.25, 'opt_p': 0.4,
        }
        r = rng.random()
        if r < 0.1:
            cfg['kinds'] = dict(gen.BASE_CFG['kinds'], **UNION_KINDS)
            cfg.update(call_p=0, obj_p=0)
            cfg['sources'] = {'plain': 0, 'default': 0, 'json': 0, 'mount': 0, 'seq': 0, 'union': 1}
        elif r < 0.2:
            cfg['kinds'] = dict(gen.BASE_CFG['kinds'], **CONFIG_KINDS)
            cfg.update(call_p=0, obj_p=0, flat_p=0)
            cfg['sources'] = {'plain': 1, 'default': 0, 'json': 0, 'mount': 0, 'seq': 0, 'config': 3}
        d = Drawn(rng, **cfg)
        n = 2 if rng.random() < 0.15 else 1
        d.plan['threads'] = [self.script(d, rng) for _ in range(n)]
        plan = d.finish()
        if n > 1:
            plan['sched'] = draw_sched(rng, rng.choice([500, 2000, 6000]))
            plan['sched_seed'] = rng.getrandbits(32)
        for op in all_ops(plan['threads']):
            r = rng.random()
            if r < 0.35:
                place(plan, op, rng, envs.ESCAPING, 1)
            elif r < 0.5:
                place(plan, op, rng, envs.CAUGHT, rng.choice([1, 1, 2]))
        return plan

    def script(self, d, rng):
        insts = [(d.form(), 'x')]
        if rng.random() < 0.3:
            insts.append((rng.choice([insts[0][0], d.form()]), 'y'))
        ops = []
        for i in range(rng.randint(2, 6)):
            form, inst = rng.choice(insts)
            op = d.map_op(hows=('map', 'map', 'map', 'map', 'raise'), form=form)
            op.pop('unmapped', None)
            op['inst'] = inst
            if rng.random() < 0.3:
                op['reset'] = True
            if d.gen.cfg['tags']:
                if rng.random() < 0.4:
                    op['tags'] = rng.sample(TAGS + ['t9'], rng.randint(1, 2))
                if rng.random() < 0.15:
                    op.setdefault('vars', {})['tags'] = rng.sample(TAGS, rng.randint(1, 2))
            op['counter'] = 100 * (i + 1)
            ops.append(op)
        return ops

    def run(self, plan):
        out = runner.Outcome()
        records, run = run_plan(plan, out)
        if records is None:
            return out
        count_outcomes(out, records)
        schema = build.Schema(plan['schema'])
        for tid, recs in enumerate(records):
            self.check(out, plan, schema, tid, recs)
            if out.violation:
                return out
        out.sig += repr(records)
        return out

    def check(self, out, plan, schema, tid, recs):
        states = {}
        touched = set()
        for i, (op, rec) in enumerate(zip(plan['threads'][tid], recs)):
            names = [f['n'] for f in schema.fields(op['form'])]
            if op['inst'] in states and states[op['inst']][0] != op['form']:
                raise sched.PlanError('instance of another class')
            before = states.get(op['inst'], (op['form'], {}))[1]
            after = content(rec['inst'])
            tags = op.get('tags') or (op.get('vars') or {}).get('tags')
            if isinstance(tags, list) and all(isinstance(t, str) for t in tags):
                tags = set(tags)
            elif tags:
                raise sched.PlanError('tags')
            selected = [
                f['n'] for f in schema.fields(op['form'])
                if not tags or tags & set(f['o'].get('tags') or ())
            ]
            # what a mapping of a new instance produces
            alone = dict(op, inst=None, reset=None, how='map')
            what, produced = self.produced(plan, alone)
            aborted = rec['out'][0] in ('exc', 'raised')
            if not aborted and what is None:
                # faults that the model says abort the mapping
                aborted = True
            reported = []
            if aborted:
                # failing items of a container are left out, and reported: what a mapping
                # produces with some of the faults, as it may not get to the one that aborts it
                faults = alone.get('faults') or []
                for n in range(1, len(faults) + 1):
                    for some in itertools.combinations(faults, n):
                        reported.append(self.produced(plan, dict(alone, faults=list(some)))[1])
                what, produced = self.produced(plan, dict(alone, faults=None))
                if what is None:
                    raise sched.PlanError('hooks that always abort')
                out.add('aborted')
            if op['inst'] in touched and (aborted or op.get('reset') or tags):
                out.nontrivial = True
            touched.add(op['inst'])
            extra = set(after) - set(names)
            if extra:
                return self.bad(out, 'names that are no fields', tid, i, op, [], sorted(extra))
            for name in names:
                old = before.get(name, ABSENT_)
                if name not in selected:
                    allowed = [old]
                    rule = 'a field not selected changed'
                else:
                    start = ABSENT_ if op.get('reset') else old
                    new = produced.get(name, ABSENT_)
                    if aborted:
                        allowed = [start]
                        if new is not ABSENT_:
                            allowed.append(new)
                        allowed += [r[name] for r in reported if name in r]
                        rule = 'a field of an aborted mapping is neither its earlier nor its new value'
                    else:
                        allowed = [new if new is not ABSENT_ else start]
                        rule = 'a field differs from the last value produced'
                got = after.get(name, ABSENT_)
                if got not in allowed:
                    return self.bad(out, rule, tid, i, dict(op, field=name), allowed, got)
            states[op['inst']] = (op['form'], after)

    def produced(self, plan, op):
        rec = engine.run_model(plan, [op])[0]
        if rec['out'][0] != 'ok':
            return None, {}
        return 'ok', content(rec['out'][2])

    def bad(self, out, rule, tid, i, op, expected, actual):
        detail = diff(rule, tid, i, op, expected, actual)
        detail['field'] = op.get('field')
        detail['reset'], detail['tags'] = op.get('reset'), op.get('tags')
        out.violate(rule, detail)


ABSENT_ = ('absent',)


def content(f):
    """Fingerprint of a form -> {field: fingerprint of the value}"""
    if f is None:
        return {}
    return {k: v for k, _, v in f[2]}


CHECK = C06()
