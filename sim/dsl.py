"""
The behaviour of user hooks and default factories, run against the real library and the reference
model alike through a handle `h`.
"""
from . import sched
from .values import decode, fp


def run(env, spec, h, *args):
    """
    spec: {"id": ..., "acts": [...], "ret": [...]}
    """
    loc = h.loc()
    value = args[0] if args else None
    kind = spec['id'].rsplit(':', 1)[1]
    env.ev('hook', spec['id'], loc, fp(value) if args and kind != 'parse' else None)
    env.seam('h|{0}|{1}'.format(spec['id'], loc))
    acts(env, spec.get('acts') or (), h)
    return ret(env, spec['id'], kind, spec['ret'], h, value)


def _target(h, up):
    forms = h.forms()
    return forms[-1 - up] if up < len(forms) else None


def read(env, h, up, name, schema_has):
    target = _target(h, up)
    if target is None or not schema_has(h.form_name(target), name):
        return False, None
    return h.read(target, name)


def acts(env, items, h):
    for act in items:
        op = act[0]
        if op == 'read':
            ok, value = read(env, h, act[1], act[2], env.schema_has)
            env.ev('read', act[1], act[2], fp(value) if ok else 'no value')
        elif op == 'has':
            target = _target(h, act[1])
            if target is not None:
                how = act[3] if env.schema_has(h.form_name(target), act[2]) else 'name'
                env.ev('has', act[1], act[2], how, h.has(target, act[2], how))
        elif op == 'getvar':
            env.ev('var', act[1], fp(h.getvar(act[1])))
        elif op == 'push':
            _inside(env, h, {act[1]: decode(act[2])}, False, act[3])
        elif op == 'reset':
            _inside(env, h, {}, True, act[1])
        elif op == 'map':
            env.ev('map', act[1], h.map(act[1], act[2], act[3] if len(act) > 3 else 'map'))
        elif op == 'other':
            env.ev('other', act[1], act[2], h.other(act[1], act[2]))
        elif op == 'ohas':
            env.ev('has', act[1], act[2], 'other', h.other_has(act[1], act[2]))
        elif op == 'try':
            # an exception the hook itself catches
            try:
                acts(env, act[1], h)
            except h.caught as ex:
                env.ev('caught', h.describe(ex))
        elif op == 'loc':
            env.ev('loc', h.loc())
        elif op == 'yield':
            if not env.model:
                sched.yield_now()
        else:
            raise sched.PlanError('act {0}'.format(op))


def _inside(env, h, vars, reset, items):
    env.ev('enter')
    h.inside(vars, reset, lambda: acts(env, items, h))
    env.ev('leave', h.loc())


def factory(env, name, none):
    """A default factory: a fresh value for each call (a clock or id)."""
    env.seam('f|{0}'.format(name))
    n = env.count(name)
    env.ev('factory', name, n)
    if name.startswith('none'):
        return none
    if name.startswith('empty'):
        # every empty value there is, in turn; new objects every time
        return [0, '', [], {}, False, None][n % 6]
    return '{0}@{1}'.format(name, n)


def ret(env, hid, kind, spec, h, value):
    op = spec[0]
    if op == 'same':
        return value
    if op == 'const':
        return decode(spec[1])
    if op == 'none':
        return h.NONE
    if op == 'invalid':
        h.invalid()
        return h.ERROR if kind not in ('validate', 'key_filter') else False
    if op == 'clock':
        n = env.count(hid)
        return '{0}@{1}'.format(hid, n)
    if op == 'readval':
        ok, got = read(env, h, spec[1], spec[2], env.schema_has)
        env.ev('read', spec[1], spec[2], fp(got) if ok else 'no value')
        return got if ok and isinstance(got, type(decode(spec[3]))) else decode(spec[3])
    if op == 'addread':
        ok, got = read(env, h, spec[1], spec[2], env.schema_has)
        env.ev('read', spec[1], spec[2], fp(got) if ok else 'no value')
        if ok and type(got) is type(value) and isinstance(got, (int, str)) and not isinstance(got, bool):
            return value + got
        return value
    if op == 'add':
        got = decode(spec[1])
        return value + got if type(value) is type(got) else value
    if op == 'var':
        got = h.getvar(spec[1])
        return got if isinstance(got, type(decode(spec[2]))) else decode(spec[2])
    if op == 'prim':
        got = h.primitive(spec[1])
        return got
    if op == 'wrapprim':
        return '<{0}>'.format(h.primitive('str'))
    if op == 'raise':
        # a rejection by the hook itself, the same on every attempt
        h.fail(spec[1])
    if op == 'true':
        return True
    if op == 'false':
        return False
    if op == 'ne':
        return value != decode(spec[1])
    if op == 'bad':
        if value == decode(spec[1]):
            h.invalid()
            return False
        return True
    if op == 'src':
        return h.src(spec[1])
    raise sched.PlanError('ret {0}'.format(op))
