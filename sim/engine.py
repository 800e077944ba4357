"""Runs the client scripts of a plan: in the real library under the scheduler, and in the model."""
import random

from . import build, env as envs, loader, model, sched, values
from .loader import STATE, StepLimit
from .values import fp

MAX_STEPS = 3000000


class Violation(Exception):

    def __init__(self, cls, detail):
        super(Violation, self).__init__(cls)
        self.cls, self.detail = cls, detail


class Run(object):
    """What happened in one simulated execution."""

    def __init__(self):
        self.records = []
        self.trace = []
        self.steps = 0
        self.switches = 0
        self.fired = {}
        self.envs = []
        self.world = None
        self.stuck = None


# operations on the real library

def grow(form, field):
    """Somebody goes on with what they got: adds to a container, in place."""
    value = form.get(field) if form is not None else None
    if type(value) is list:
        value.append('grown')
    elif type(value) is dict:
        value['grown'] = 'grown'
    else:
        return ('grown', False)
    return ('grown', True)


def op_name(op):
    return op['op']


def source_of(world, env, op):
    return world.source(op['src'])


def guarded(env, fn):
    """Outcome of `fn`, with an escaping exception as ('exc', kind, site)."""
    try:
        return fn()
    except (sched.Abort, StepLimit, sched.PlanError):
        raise
    except BaseException as ex:
        out = ('exc',) + tuple(env.identify(ex))
        ex.__traceback__ = None
        return out


def start(env, op):
    if 'counter' in op:
        # clocks and identifiers of this operation start here
        env.base = op['counter']
        env.counters.clear()


def real_op(world, env, op, state):
    """-> record of one operation"""
    kind = op['op']
    outer = env.faults, env.seen
    env.set_faults(op.get('faults'))
    start(env, op)
    env.events = []
    if env.ctxcheck is not None:
        with env.ctxcheck(world.ctx, kind):
            out = guarded(env, lambda: real_body(world, env, op, state))
    else:
        out = guarded(env, lambda: real_body(world, env, op, state))
    rec = {'op': kind, 'out': out, 'events': env.events}
    env.faults, env.seen = outer
    if op.get('inst'):
        inst = state.get(op['inst'])
        rec['inst'] = fp(inst) if inst is not None else None
    env.events = []
    return rec


def real_body(world, env, op, state):
    if op.get('vars'):
        with world.ctx(**values.decode(op['vars'])):
            return real_body(world, env, dict(op, vars=None), state)
    kind = op['op']
    if kind == 'map':
        form = None
        if op.get('inst'):
            if op['inst'] not in state:
                state[op['inst']] = world.classes[op['form']]()
            form = state[op['inst']]
        out, form = world.op_map(op, form)
        if op.get('keep') and form is not None:
            state[op['keep']] = form
        return out
    if kind == 'new':
        state[op['inst']] = world.classes[op['form']]()
        return ('ok',)
    if kind == 'read':
        form = state.get(op['inst'])
        if form is None:
            form = state[op['inst']] = world.classes[op['form']]()
        if op.get('fsrc'):
            form.src = world.source(op['fsrc'])
        try:
            return ('val', fp(getattr(form, op['field'])))
        except AttributeError:
            return ('novalue',)
        except world.pilo.fields.FormError as ex:
            return ('formerror',)
    if kind in ('set', 'del'):
        form = state.get(op['inst'])
        if form is None:
            form = state[op['inst']] = world.classes[op['form']]()
        if kind == 'del':
            delattr(form, op['field'])
        elif op['how'] == 'attr':
            setattr(form, op['field'], values.decode(op['value']))
        else:
            form[op['field']] = values.decode(op['value'])
        return ('ok',)
    if kind == 'grow':
        return grow(state.get(op['inst']), op['field'])
    if kind == 'has':
        form = state.get(op['inst'])
        if form is None:
            form = state[op['inst']] = world.classes[op['form']]()
        name = op['field']
        return ('has', form.has(getattr(type(form), name) if op['how'] == 'field' else name))
    if kind == 'cast':
        type_field = getattr(world.classes[op['base']], op['ident'])
        data = envs.wrap(values.decode(op['data']), op['sid'])
        try:
            return ('class', type_field.cast(data).__name__)
        except ValueError as ex:
            if any(r is ex for r, _, _ in env.raised):
                raise
            return ('rejected',)
    if kind == 'getvar':
        return ('var', fp(getattr(world.ctx, op['var'], None)))
    if kind == 'loc':
        return ('loc', str(world.ctx.src_path))
    if kind == 'block':
        return real_block(world, env, op, state)
    raise sched.PlanError('op {0}'.format(kind))


def real_block(world, env, op, state):
    recs = []
    ctx = world.ctx

    def body():
        inside()
        for sub in op['ops']:
            recs.append(real_op_nested(world, env, sub, state))
        if op.get('raise'):
            raise env.exception(op['raise'], 'block')

    def stop(frame):
        if op['stop'] == 'raise':
            raise env.exception('RuntimeError', 'stop')
        name, value = op['stop']
        if value == 'raise':
            if name in frame:
                raise env.exception('RuntimeError', 'stop')
            return False
        return getattr(frame, name, None) == value

    def enter():
        kind = op['kind']
        if kind == 'push':
            return ctx(**values.decode(op['bvars']))
        if kind == 'reset':
            return ctx.reset()
        if kind == 'src':
            entered.append(world.source(op['src']))
            return ctx(src=entered[0])
        if kind == 'key':
            return ctx(src=op['key'])
        if kind == 'rewind':
            return ctx.rewind(stop)
        raise sched.PlanError('block')

    def inside():
        """The block that has just begun sets what it was given."""
        kind = op['kind']
        if kind == 'reset' and (ctx.src is not None or ctx.src_path is not None):
            raise RuntimeError('the outer source shows through')
        if kind == 'src' and entered[0] is not None and ctx.src is not entered[0]:
            raise RuntimeError('not the source that was given')
        if kind == 'key' and ctx.src != op['key']:
            raise RuntimeError('not the key that was given')

    entered = []

    if op['kind'] == 'key' and ctx.src_path is None:
        return ('nosource',)
    try:
        close = enter()
    except ctx.RewindDidNotStop:
        return ('nostop',)
    out = ('done',)
    try:
        with close:
            body()
    except (sched.Abort, StepLimit, sched.PlanError):
        raise
    except BaseException as ex:
        out = ('exc',) + tuple(env.identify(ex))
    return ('block', [(r['op'], r['out'], r['events']) for r in recs], out)


def real_op_nested(world, env, op, state):
    events = env.events
    rec = real_op(world, env, op, state)
    env.events = events
    return rec


# the same on the model

def model_op(m, env, c, op, state):
    outer = env.faults, env.seen
    env.set_faults(op.get('faults'))
    start(env, op)
    env.events = []
    try:
        out = model_body(m, env, c, op, state)
    except envs.MExc as ex:
        out = ('exc', ex.kind, ex.site)
    rec = {'op': op['op'], 'out': out, 'events': env.events}
    env.faults, env.seen = outer
    if op.get('inst'):
        inst = state.get(op['inst'])
        rec['inst'] = fp(inst) if inst is not None else None
    env.events = []
    return rec


def model_body(m, env, c, op, state):
    if op.get('vars'):
        c = c.setvars(values.decode(op['vars']))
    kind = op['op']
    if kind == 'map':
        form = None
        if op.get('inst'):
            if op['inst'] not in state:
                state[op['inst']] = model.MForm(op['form'])
            form = state[op['inst']]
        out, form = m.op_map(c, op, form)
        if op.get('keep'):
            state[op['keep']] = form
        return out
    if kind == 'new':
        state[op['inst']] = model.MForm(op['form'])
        return ('ok',)
    if kind == 'read':
        form = state.get(op['inst'])
        if form is None:
            form = state[op['inst']] = model.MForm(op['form'])
        if op.get('fsrc'):
            form.src = op['fsrc']
        try:
            return ('val', fp(m.read(c, form, op['field'])))
        except envs.MExc as ex:
            if ex.site is None and ex.kind == 'AttributeError':
                return ('novalue',)
            if ex.site is None and ex.kind == 'FormError':
                return ('formerror',)
            raise
    if kind in ('set', 'del'):
        form = state.get(op['inst'])
        if form is None:
            form = state[op['inst']] = model.MForm(op['form'])
        if kind == 'del':
            form.pop(op['field'], None)
        else:
            form[op['field']] = values.decode(op['value'])
        return ('ok',)
    if kind == 'grow':
        return grow(state.get(op['inst']), op['field'])
    if kind == 'has':
        form = state.get(op['inst'])
        if form is None:
            form = state[op['inst']] = model.MForm(op['form'])
        return ('has', m.has(c, form, op['field'], op['how']))
    if kind == 'cast':
        data = envs.wrap(values.decode(op['data']), op['sid'])
        try:
            name = m.cast(c, op['base'], op['ident'], data)
        except envs.MExc as ex:
            if ex.site is None:
                return ('rejected',)
            raise
        return ('class', name)
    if kind == 'getvar':
        return ('var', fp(c.vars.get(op['var'])))
    if kind == 'loc':
        return ('loc', c.cur.loc() if c.cur is not None else 'None')
    if kind == 'block':
        bkind = op['kind']
        if bkind == 'push':
            bvars = values.decode(op['bvars'])
            c = c.setvars(bvars).but(outer=c, pushed=bvars)
        elif bkind == 'reset':
            c = c.but(cur=None, outer=c, pushed={})
        elif bkind == 'src':
            c = c.but(cur=m.sources(op['src'], m, None), outer=c, pushed={})
        elif bkind == 'key':
            if c.cur is None:
                return ('nosource',)
            c = c.push(op['key']).but(outer=c, pushed={})
        elif bkind == 'rewind':
            if op['stop'] == 'raise':
                return ('exc', 'RuntimeError', 'stop')
            name, value = op['stop']
            at = c
            if value == 'raise':
                while at is not None and name not in (at.pushed or {}):
                    at = at.outer
                return ('exc', 'RuntimeError', 'stop') if at is not None else ('nostop',)
            while at is not None and not (at.pushed or {}).get(name) == value:
                at = at.outer
            if at is None:
                return ('nostop',)
            c = at
        else:
            raise sched.PlanError('block')
        recs = []
        for sub in op['ops']:
            events = env.events
            recs.append(model_op(m, env, c, sub, state))
            env.events = events
        out = ('exc', op['raise'], 'block') if op.get('raise') else ('done',)
        return ('block', [(r['op'], r['out'], r['events']) for r in recs], out)
    raise sched.PlanError('op {0}'.format(kind))


# runs

def fresh(plan, define=True):
    """A new simulated process."""
    pilo = loader.load()
    values.forget_marks()
    values.register_marks(model.MARKS)
    try:
        return build.World(pilo, plan, define=define)
    except sched.PlanError:
        raise
    except Exception as ex:
        if sched.raised_by(ex, loader.PILO):
            raise
        raise sched.PlanError('cannot build: {0!r}'.format(ex))


def bounded(fn, steps=MAX_STEPS):
    """Runs `fn` outside the scheduler with a bound on its steps."""
    saved = STATE.budget, STATE.hook
    STATE.budget, STATE.hook = steps, None
    try:
        return fn()
    finally:
        STATE.budget, STATE.hook = saved


def run_solo(plan, ops, world=None, env=None, state=None, faults=True, ctxcheck=None):
    """Runs operations on this thread, one after the other, in a fresh process unless given one."""
    run = Run()
    run.world = world = world if world is not None else fresh(plan)
    env = env if env is not None else world.env()
    if ctxcheck is not None:
        env.ctxcheck = ctxcheck
    run.envs.append(env)
    state = {} if state is None else state

    def body():
        with envs.installed(env):
            for op in ops:
                if not faults and op.get('faults'):
                    op = dict(op, faults=None)
                run.records.append(real_op(world, env, op, state))

    before = STATE.budget
    try:
        bounded(body)
    except StepLimit:
        run.stuck = 'no end after {0} steps'.format(MAX_STEPS)
    run.fired = dict(env.fired)
    run.state = state
    return run


def run_threads(plan, threads, spec=None, rng=None, world=None, make_body=None, max_steps=MAX_STEPS,
                interrupts=None, on_interrupt=None):
    """
    Runs scripts on scheduled threads.

    :param make_body: (world, tid, ops) -> callable returning the thread's records
    :param interrupts: steps at which `on_interrupt` is called in the thread that runs
    """
    run = Run()
    run.world = world = world if world is not None else fresh(plan)
    world.share()
    spec = spec or plan['sched']
    s = sched.Scheduler(spec, rng or random.Random(plan.get('sched_seed', 0)), max_steps=max_steps)
    s.interrupts, s.on_interrupt = sorted(interrupts or ()), on_interrupt
    for tid, ops in enumerate(threads):
        env = world.env()
        env.tid = tid
        run.envs.append(env)

        def body(tid=tid, ops=ops, env=env):
            with envs.installed(env):
                if make_body is not None:
                    return make_body(world, env, tid, ops)
                state = {}
                return [real_op(world, env, op, state) for op in ops]

        s.spawn(body)
    s.run()
    run.trace = [list(t) for t in s.trace]
    run.steps, run.switches = s.steps, s.switches
    if s.deadlock:
        run.stuck = 'deadlock'
    elif s.limit_hit:
        run.stuck = 'no end after {0} steps'.format(max_steps)
    for t in s.tasks:
        if t.error is not None:
            raise t.error
        run.records.append(t.result)
    fired = {}
    for e in run.envs:
        for k, n in e.fired.items():
            fired[k] = fired.get(k, 0) + n
    run.fired = fired
    return run


def run_model(plan, ops, faults=True, sites=None):
    """Records of the model for operations on one thread."""
    env = envs.Env(model=True)
    env.sites = sites
    out = []
    with envs.installed(env):
        m = build.make_model(plan, env)
        state = {}
        for op in ops:
            if not faults and op.get('faults'):
                op = dict(op, faults=None)
            try:
                out.append(model_op(m, env, m.top(), op, state))
            except (sched.PlanError, envs.MExc):
                raise
            except Exception as ex:
                import traceback
                raise sched.PlanError('model: {0!r} {1}'.format(ex, traceback.format_exc()))
    return out


def first_difference(a, b):
    for i, (x, y) in enumerate(zip(a, b)):
        if x != y:
            return i, x, y
    if len(a) != len(b):
        n = min(len(a), len(b))
        return n, a[n] if n < len(a) else None, b[n] if n < len(b) else None
    return None
