"""C15: parent links and mapped forms respect object lifetimes under garbage collection."""
import gc
import weakref

from .common import *
from .. import env as envs, gen, values


class Tracker(object):
    """Weak references to the forms made and the sources given, by client thread."""

    def __init__(self, world):
        self.world = world
        self.refs = {}
        self.Form = world.pilo.Form
        self.Source = world.pilo.Source
        tracker = self
        made = world.source
        init = self.Form.__init__

        def source(spec):
            obj = made(spec)
            tracker.source(obj)
            return obj

        def __init__(form, *args, **kwargs):
            tracker.add('form ' + type(form).__name__, form)
            init(form, *args, **kwargs)

        world.source = source
        self.Form.__init__ = __init__

    def add(self, what, obj):
        env = envs.current()
        self.refs.setdefault(env.tid if env is not None else None, []).append((what, weakref.ref(obj)))

    def source(self, obj, depth=0):
        if isinstance(obj, (envs.FDict, envs.FList, envs.FObj, envs.FCall, self.Source)):
            self.add('source ' + type(obj).__name__, obj)
        if depth > 6:
            return
        if isinstance(obj, dict):
            values = list(dict.values(obj))
        elif isinstance(obj, (list, tuple)):
            values = list(list.__iter__(obj)) if isinstance(obj, list) else list(obj)
        elif isinstance(obj, self.Source):
            values = list(obj.__dict__.values())
        else:
            return
        for v in values:
            self.source(v, depth + 1)

    def alive(self, tid, held):
        """What is alive though no client holds it."""
        gc.collect()
        keep = set()
        for obj in held:
            self.reach(obj, keep)
        out, left = [], []
        for what, ref in self.refs.get(tid, ()):
            obj = ref()
            if obj is None:
                continue
            left.append((what, ref))
            if id(obj) not in keep:
                out.append(what)
        self.refs[tid] = left
        return sorted(out)

    def reach(self, obj, keep):
        if id(obj) in keep:
            return
        keep.add(id(obj))
        if isinstance(obj, dict):
            for k, v in dict.items(obj):
                self.reach(k, keep)
                self.reach(v, keep)
        elif isinstance(obj, (list, tuple)):
            for v in (list.__iter__(obj) if isinstance(obj, list) else obj):
                self.reach(v, keep)


class C15(runner.Check):

    id = 'C15'
    rule = ('a run counts when a collection ran while a mapping was under way, or a form was dropped while one nested '
            'in it was kept; runs are told apart by schedule, faults, collections and the expected history')
    runs = {'quick': 1500, 'thorough': 60000}
    keep = runner.Check.keep | frozenset(('collect', 'drop', 'collections'))
    stub = ['the moments of garbage collection (automatic collection is off; gc.collect() at simulated steps)']

    def plan(self, rng, tier):
        for _ in range(10):
            plan = self.plan_once(rng, tier)
            if len(repr(plan)) < MAX_PLAN:
                break
        return plan

    def plan_once(self, rng, tier):
        # fields that hand out source data as it is would rightly keep it alive
        kinds = dict(gen.BASE_CFG['kinds'], any=0, sub=rng.choice([6, 12]), list=4, dict=3, tuple=2)
        clean = {}
        if rng.random() < 0.6:
            clean = {'bad_p': 0, 'absent_p': 0.02, 'opt_p': 0.05, 'null_p': 0.01, 'dotted_p': 0}
            kinds.update(type=0, group=0)
        d = Drawn(
            rng, kinds=kinds, attach_p=rng.choice([0.5, 0.9]), unmapped_p=0.1, call_p=0.02, obj_p=0.02,
            sources={'plain': 4, 'default': 3, 'json': 3, 'mount': 1, 'seq': 1, 'union': 0, 'config': 0},
            **dict(clean, **({'hook_p': 0} if rng.random() < 0.5 else {})))
        n = rng.choice([2, 2, 3]) if rng.random() < 0.3 else 1
        threads = []
        for _ in range(n):
            ops = []
            for _ in range(rng.randint(1, 4)):
                # instances of before a drop are other ones
                epoch = sum(op['op'] == 'drop' for op in ops)
                r = rng.random()
                if r < 0.75 or not ops:
                    op = d.map_op(hows=('map', 'map', 'map', 'ctor', 'raise'))
                    if rng.random() < 0.7:
                        name = rng.choice(['x', 'y'])
                        op['inst' if op['how'] == 'map' and rng.random() < 0.5 else 'keep'] = name
                        if 'inst' in op:
                            # one class per instance
                            op['inst'] = '{0}.{1}.{2}'.format(name, op['form'], epoch)
                elif r < 0.85:
                    form = d.form()
                    fields = d.gen.fields(form)
                    if not fields:
                        continue
                    op = {'op': 'read', 'inst': 'r.{0}.{1}'.format(form, epoch), 'form': form, 'field': rng.choice(fields)['n']}
                else:
                    op = {'op': 'drop'}
                op['collect'] = rng.random() < 0.4
                ops.append(op)
                if op['op'] == 'map' and rng.random() < 0.3:
                    ops.append({'op': 'drop', 'collect': rng.random() < 0.5})
            threads.append(ops)
        d.plan['threads'] = threads
        plan = d.finish()
        for op in all_ops(plan['threads']):
            if op['op'] == 'map':
                place_mixed(plan, op, rng, 0.4)
        plan['sched'] = draw_sched(rng)
        plan['sched_seed'] = rng.getrandbits(32)
        plan['collections'] = sorted(rng.randrange(1, rng.choice([60, 300, 1500])) for _ in range(rng.choice([1, 2, 3, 4])))
        return plan

    def run(self, plan):
        out = runner.Outcome()
        expected = [
            engine.run_model(plan, [op for op in ops if op['op'] != 'drop']) for ops in plan['threads']]
        records, found, run, done = self.execute(plan, plan.get('collections'))
        out.trace = run.trace
        out.fire(run.fired)
        out.fire({'gc': done[0]})
        out.add('steps', run.steps)
        out.add('thread_switches', run.switches)
        out.add('operations', sum(len(ops) for ops in plan['threads']))
        out.add('collections_during', done[0])
        out.add('lifetime_checks', done[1])
        out.add('parent_links', done[2])
        out.add('orphans', done[3])
        out.sig = repr((run.trace, plan.get('collections'), expected,
                        [op.get('faults') for op in all_ops(plan['threads'])]))
        out.nontrivial = bool(done[0] or done[3])
        if run.stuck:
            out.violate('stuck', run.stuck)
            return out
        if found:
            cls, detail = found[0]
            out.violate(cls, jsonable(detail))
            return out
        count_outcomes(out, records)
        if not self.same(expected, records):
            explicit = dict(plan, sched={'explicit': run.trace})
            alone = self.execute(explicit, None)[0]
            if not self.same(alone, records):
                for tid, (xs, ys) in enumerate(zip(alone, records)):
                    for i, (x, y) in enumerate(zip(xs, ys)):
                        if x['out'] != y['out']:
                            out.violate('a collection changes a result', {
                                'thread': tid, 'operation': i, 'collections': plan.get('collections'),
                                'expected': jsonable(x['out']), 'actual': jsonable(y['out'])})
                            return out
                out.violate('a collection changes a result', {'collections': plan.get('collections')})
            else:
                out.add('differs_from_model')
        return out

    def same(self, a, b):
        return [[x['out'] for x in recs] for recs in a] == [[x['out'] for x in recs] for recs in b]

    def execute(self, plan, collections):
        done = [0, 0, 0, 0]
        found = []
        gc_was = gc.isenabled()
        gc.disable()

        def collect():
            done[0] += 1
            gc.collect()

        def script(world, env, tid, ops):
            state, held, recs = {}, [], []
            for i, op in enumerate(ops):
                if op['op'] == 'drop':
                    self.drop(world, state, held, found, done)
                else:
                    recs.append(engine.real_op(world, env, op, state))
                env.raised = []
                if op['op'] != 'drop':
                    self.all_links(world, state, found, done)
                if op.get('collect') and collections is not None:
                    self.leftover(tracker, tid, list(state.values()) + held, found, done, (tid, i, op))
            state.clear()
            self.orphans(held, found)
            del held[:]
            if collections is not None:
                self.leftover(tracker, tid, [], found, done, (tid, len(ops), {'op': 'end'}))
            return recs

        try:
            world = engine.fresh(plan)
            tracker = Tracker(world)
            run = engine.run_threads(
                plan, plan['threads'], world=world, make_body=script,
                interrupts=collections, on_interrupt=collect)
        finally:
            if gc_was:
                gc.enable()
        return run.records, found, run, done

    def leftover(self, tracker, tid, held, found, done, where):
        done[1] += 1
        alive = tracker.alive(tid, held)
        if alive:
            found.append(('something is kept alive after a mapping', {
                'thread': where[0], 'operation': where[1], 'op': where[2].get('op'), 'form': where[2].get('form'),
                'faults': where[2].get('faults'), 'alive': alive}))

    # parent links

    def nested(self, world, spec, value):
        """Forms in a field's value, with whether they are to have a link."""
        Form = world.pilo.Form
        k = spec['k']
        if k in ('sub', 'poly'):
            if isinstance(value, Form):
                yield spec, value
        elif k == 'list' and isinstance(value, list):
            for v in value:
                for x in self.nested(world, spec['item'], v):
                    yield x
        elif k == 'tuple' and isinstance(value, tuple) and len(value) == len(spec['items']):
            for s, v in zip(spec['items'], value):
                for x in self.nested(world, s, v):
                    yield x
        elif k == 'dict' and isinstance(value, dict):
            for v in value.values():
                for x in self.nested(world, spec['val'], v):
                    yield x

    def children(self, world, form):
        name = type(form).__name__
        if name not in world.schema.plan['forms']:
            return
        for spec in world.schema.fields(name):
            if spec['n'] in form:
                for x in self.nested(world, spec, dict.__getitem__(form, spec['n'])):
                    yield x

    def all_links(self, world, state, found, done):
        for form in list(state.values()):
            if form is not None:
                self.links(world, form, found, done)

    def links(self, world, form, found, done, depth=0):
        if depth > 8:
            return
        for spec, child in self.children(world, form):
            if spec['o'].get('attach_parent'):
                done[2] += 1
                why = None
                if 'parent' not in child.__dict__:
                    why = 'none'
                else:
                    link = child.__dict__['parent']
                    form.__dict__['sim_mark'] = mark = object()
                    try:
                        if link is form:
                            why = 'a strong reference'
                        elif getattr(link, 'sim_mark', None) is not mark:
                            why = 'another object: {0}'.format(type(link).__name__)
                    except ReferenceError:
                        why = 'a dead reference'
                    finally:
                        del form.__dict__['sim_mark']
                if why:
                    found.append(('a parent link does not refer to the enclosing form', {
                        'form': type(form).__name__, 'nested': type(child).__name__, 'field': spec.get('n'),
                        'link': why}))
            self.links(world, child, found, done, depth + 1)

    def drop(self, world, state, held, found, done):
        """Drops all instances; keeps the forms nested in them."""
        kept = []
        for name in sorted(state):
            form = state[name]
            if form is None:
                continue
            for spec, child in self.children(world, form):
                if spec['o'].get('attach_parent'):
                    kept.append((weakref.ref(form), child, values.fp(child)))
        form = child = None
        state.clear()
        if not kept:
            return
        held.extend([child for _, child, _ in kept])
        gc.collect()
        for ref, child, before in kept:
            done[3] += 1
            if ref() is not None:
                found.append(('a parent link keeps the enclosing form alive', {'nested': type(child).__name__}))
                continue
            if values.fp(child) != before:
                found.append(('a nested form changes when the enclosing one is gone', {'nested': type(child).__name__}))
        self.orphans(held, found)

    def orphans(self, held, found):
        for child in held:
            try:
                child.parent.fields
            except ReferenceError:
                continue
            except AttributeError:
                pass
            found.append(('a parent link outlives the enclosing form', {'nested': type(child).__name__}))


CHECK = C15()
