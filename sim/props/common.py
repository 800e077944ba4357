"""Shared by the properties' checks."""
import json

from .. import engine, env as envs, gen, runner, sched
from ..values import has_mark, jsonable

SCALARS = {'str': 5, 'int': 6, 'float': 2, 'bool': 2, 'any': 2}
#: kinds of fields whose reading a merged source supports
UNION_KINDS = {
    'dec': 0, 'date': 0, 'datetime': 0, 'time': 0, 'uuid': 0, 'poly': 0, 'any': 0, 'group': 0,
}
CONFIG_KINDS = {'sub': 0, 'poly': 0, 'group': 0}


#: plans are drawn again while larger than this
MAX_PLAN = 12000


def json_copy(x):
    return json.loads(json.dumps(x))


class Drawn(object):
    """A schema and the means to draw operations on it."""

    def __init__(self, rng, **cfg):
        self.rng = rng
        self.gen = gen.Gen(rng, **cfg)
        self.plan = {'schema': self.gen.schema()}
        self.sid = 0

    def source(self, form, **kwargs):
        self.sid += 1
        return self.gen.source(form, 'd{0}'.format(self.sid), **kwargs)

    def form(self):
        rng = self.rng
        if rng.random() < 0.8:
            return self.gen.root
        return rng.choice(self.gen.order)

    def map_op(self, hows=('map', 'map', 'map', 'ctor', 'raise'), form=None, **kwargs):
        rng = self.rng
        form = form or self.form()
        op = {'op': 'map', 'form': form, 'src': self.source(form, **kwargs), 'how': rng.choice(list(hows))}
        src = op['src']
        if op['how'] == 'ctor' and src['kind'] == 'plain' and isinstance(src['data'], dict) and src['data']:
            if '$' not in ''.join(map(str, src['data'])) and 'self' not in src['data'] and rng.random() < 0.4:
                src['kw'] = True
        if op['how'] == 'map' and rng.random() < 0.1:
            op['unmapped'] = 'capture'
        if op['how'] != 'ctor' and rng.random() < 0.02:
            op['src'] = None
        if rng.random() < 0.3:
            op['vars'] = {v: rng.choice([rng.randint(0, 9), 'ab']) for v in gen.VARS if rng.random() < 0.6}
        if rng.random() < 0.06:
            op.setdefault('vars', {})[rng.choice(['ignore_default', 'ignore_missing'])] = rng.random() < 0.8
        return op

    def read_op(self):
        """A read on demand, outside of any mapping, of one of a few form instances."""
        rng = self.rng
        form = self.form()
        names = [f['n'] for f in self.gen.fields(form)]
        if not names:
            return None
        op = {'op': 'read', 'form': form, 'inst': 'q{0}{1}'.format(form, rng.randint(0, 1)), 'field': rng.choice(names)}
        if rng.random() < 0.3:
            return self.change(op)
        if rng.random() < 0.5:
            op['fsrc'] = self.source(form, kinds={'default': 3, 'json': 2, 'mount': 1})
        return op

    def change(self, op):
        """The same place, assigned to or removed."""
        rng = self.rng
        field = [f for f in self.gen.fields(op['form']) if f['n'] == op['field']][0]
        if rng.random() < 0.4:
            return dict(op, op='del')
        value = self.gen.good(field) if field['k'] in gen.SCALARS and rng.random() < 0.9 else None
        return dict(op, op='set', how=rng.choice(['attr', 'attr', 'item']), value=value)

    def grow_op(self, op):
        """Adds in place to a container that a mapping produced, or None"""
        if op['op'] != 'map' or op.get('inst') or op['how'] == 'ctor':
            return None
        if op.get('unmapped') not in (None, 'ignore'):
            # what is captured belongs to the source
            return None
        names = [f['n'] for f in self.gen.fields(op['form']) if f['k'] in ('list', 'dict', 'group')]
        if not names:
            return None
        self.sid += 1
        op['keep'] = 'g{0}'.format(self.sid)
        return {'op': 'grow', 'inst': op['keep'], 'form': op['form'], 'field': self.rng.choice(names)}

    def grown(self, ops, p):
        out = []
        for op in ops:
            out.append(op)
            more = self.grow_op(op) if self.rng.random() < p else None
            if more:
                out.append(more)
        return out

    def finish(self):
        self.plan = json_copy(self.plan)
        return self.plan


def op_sites(plan, op):
    """Fault sites that the model passes when the operation runs alone and fault free."""
    sites = []
    engine.run_model(plan, [dict(op, faults=None, inst=None, keep=None)], sites=sites)
    return list(dict.fromkeys(sites))


def is_root(site):
    kind, _, rest = site.partition('|')
    return kind == 'k' and '/' not in rest or kind in 'ms' and rest.endswith('|')


def place(plan, op, rng, kinds, n=1, nth=None, prefer=None):
    """Adds up to `n` faults of `kinds` to an operation, at sites that it passes."""
    sites = op_sites(plan, op)
    if not sites:
        return
    if prefer:
        preferred = [s for s in sites if s[0] in prefer]
        if preferred and rng.random() < 0.7:
            sites = preferred
    if rng.random() < 0.9:
        # a root that cannot be read ends the operation before it starts
        deep = [s for s in sites if not is_root(s)]
        sites = deep or sites
    faults = []
    for site in rng.sample(sites, min(len(sites), n)):
        fault = [site, rng.choice(kinds)]
        if nth:
            fault.append(rng.choice(nth))
        faults.append(fault)
    op['faults'] = faults


def place_mixed(plan, op, rng, p=0.6):
    """
    Usual mixture: some faults that become errors or absence, or a single one that escapes (which of
    several comes first is nobody's business).
    """
    r = rng.random()
    if r > p:
        return
    r /= p
    if r < 0.5:
        place(plan, op, rng, envs.CAUGHT, rng.choice([1, 1, 2, 3]))
    elif r < 0.6:
        place(plan, op, rng, envs.ABSENT, rng.choice([1, 2]), prefer='r')
    else:
        place(plan, op, rng, envs.ESCAPING, 1)


def all_ops(threads):
    for ops in threads:
        for op in ops:
            yield op


def draw_sched(rng, span=4000):
    r = rng.random()
    if r < 0.45:
        return {'mode': 'few', 'n': rng.choice([1, 1, 2, 3, 5, 8]), 'span': span}
    if r < 0.95:
        return {'mode': 'random', 'p': rng.choice([0.3, 0.1, 0.03, 0.01, 0.003])}
    return {'mode': 'none'}


def run_plan(plan, out, **kwargs):
    """
    Runs a plan's threads (or its only script) for real.

    :return: [records of each thread], Run
    """
    threads = plan['threads']
    if len(threads) > 1:
        run = engine.run_threads(plan, threads, **kwargs)
        out.trace = run.trace
        out.add('steps', run.steps)
        out.add('thread_switches', run.switches)
        records = run.records
    else:
        run = engine.run_solo(plan, threads[0], **kwargs)
        records = [run.records]
        out.trace = None
    out.add('operations', sum(len(ops) for ops in threads))
    out.fire(run.fired)
    out.sig += repr((run.trace, [f for op in all_ops(threads) for f in op.get('faults') or ()]))
    if run.stuck:
        out.violate('stuck', run.stuck)
        return None, run
    return records, run


def outcome_class(out):
    if out[0] == 'ok':
        return 'clean' if len(out) < 2 or not out[1] else 'errors'
    return out[0]


def count_outcomes(out, records):
    for recs in records:
        for rec in recs:
            o = rec['out']
            out.add('outcome_' + outcome_class(o))
            if o[0] in ('ok', 'formerror') and len(o) > 1:
                for e in o[1]:
                    out.add('error_' + e[0])
            out.add('events', len(rec['events']))
            for e in rec['events']:
                if e[0] in ('hook', 'read', 'factory', 'map'):
                    out.add('event_' + e[0])


def groups(events):
    """Events by hook and location, each in order."""
    table = {}
    at = None
    for e in events:
        if e[0] == 'hook':
            at = (e[1], e[2])
            table.setdefault(at, []).append(e)
        elif e[0] == 'given another form':
            table.setdefault(e, []).append(e)
        elif e[0] == 'factory':
            table.setdefault(('factory', e[1]), []).append(e)
    return table


def form_names(f):
    """Names of the fields present in a form's fingerprint (also of nested forms)."""
    if isinstance(f, tuple):
        if f and f[0] == 'form':
            return ('form', f[1], tuple((k[0], form_names(k[2])) for k in f[2]))
        return tuple(form_names(x) for x in f if isinstance(x, tuple))
    return None


def diff(what, tid, i, op, expected, actual):
    return {
        'what': what, 'thread': tid, 'operation': i, 'op': op.get('op'), 'form': op.get('form'),
        'faults': op.get('faults'), 'expected': jsonable(expected), 'actual': jsonable(actual),
    }


class ModelCheck(runner.Check):
    """Runs plans in the library and in the reference model, and compares."""

    cfg = {}
    p_threads = 0.15
    ops = (1, 3)
    union_p = 0.1
    config_p = 0.08

    def draw(self, rng, tier):
        cfg = {k: (dict(v) if isinstance(v, dict) else v) for k, v in self.cfg.items()}
        union = rng.random() < self.union_p
        if union:
            cfg.setdefault('kinds', {})
            cfg['kinds'] = dict(gen.BASE_CFG['kinds'], **cfg['kinds'])
            cfg['kinds'].update(UNION_KINDS)
            cfg['sources'] = {'plain': 0, 'default': 0, 'json': 0, 'mount': 0, 'seq': 0, 'union': 1}
            cfg['call_p'] = cfg['obj_p'] = 0
        elif rng.random() < self.config_p:
            cfg.setdefault('kinds', {})
            cfg['kinds'] = dict(gen.BASE_CFG['kinds'], **cfg['kinds'])
            cfg['kinds'].update(CONFIG_KINDS)
            cfg['sources'] = {'plain': 0, 'default': 0, 'json': 0, 'mount': 0, 'seq': 0, 'config': 1}
            cfg['call_p'] = cfg['obj_p'] = cfg['flat_p'] = 0
        if tier == 'thorough' and rng.random() < 0.3:
            cfg['forms'], cfg['fields'] = (2, 6), (2, 7)
        return Drawn(rng, **cfg)

    def draw_op(self, d, rng):
        return d.map_op()

    def draw_ops(self, d, rng):
        return [self.draw_op(d, rng) for _ in range(rng.randint(*self.ops))]

    def faults(self, plan, op, rng):
        place_mixed(plan, op, rng)

    def plan(self, rng, tier):
        for _ in range(10):
            plan = self.plan_once(rng, tier)
            if len(repr(plan)) < MAX_PLAN:
                break
        return plan

    def plan_once(self, rng, tier):
        d = self.draw(rng, tier)
        n = rng.choice([2, 2, 3]) if rng.random() < self.p_threads else 1
        threads = []
        for _ in range(n):
            threads.append(self.draw_ops(d, rng))
        d.plan['threads'] = threads
        plan = d.finish()
        for op in all_ops(plan['threads']):
            self.faults(plan, op, rng)
        if n > 1:
            plan['sched'] = draw_sched(rng)
            plan['sched_seed'] = rng.getrandbits(32)
        return plan

    def run(self, plan):
        out = runner.Outcome()
        expected = [engine.run_model(plan, ops) for ops in plan['threads']]
        records, run = run_plan(plan, out)
        out.sig += repr(expected)
        if records is None:
            return out
        count_outcomes(out, records)
        for tid, (e, a) in enumerate(zip(expected, records)):
            for i, (x, y) in enumerate(zip(e, a)):
                self.compare(out, tid, i, plan['threads'][tid][i], x, y)
                if out.violation:
                    return out
        self.nontrivial(out, plan, expected, records)
        return out

    def nontrivial(self, out, plan, expected, records):
        out.nontrivial = bool(out.fired) or any(
            outcome_class(r['out']) != 'clean' for recs in records for r in recs)

    def compare(self, out, tid, i, op, x, y):
        raise NotImplementedError


__all__ = [n for n in dir() if not n.startswith('_')] + ['has_mark']
