"""C17: transformations of forms yield the selected contents in order, whatever else is going on."""
import gc

from .common import *
from .. import build, values
from ..loader import STATE

MISSING = ('missing',)
DEPTH = 12
TAGS = ['t0', 't1', 't2']


class Odd(object):
    """A value of the application's own, with its own idea of equality."""

    def __init__(self, mode):
        self.mode = mode

    def __eq__(self, other):
        if self.mode == 'all':
            return True
        if self.mode == 'raise':
            raise ValueError('cannot be compared')
        if self.mode == 'vague':
            return Vague()
        return self is other

    def __ne__(self, other):
        return not self == other

    def __bool__(self):
        if self.mode == 'false':
            return False
        if self.mode == 'raise':
            raise ValueError('has no truth value')
        return True

    __hash__ = object.__hash__


class Vague(object):

    def __bool__(self):
        raise ValueError('has no truth value')


def put(v, world, odds):
    """Content of a plan -> value"""
    if isinstance(v, dict):
        if '$form' in v:
            form = world.classes[v['$form']]()
            for k, x in v['data']:
                dict.__setitem__(form, k, put(x, world, odds))
            return form
        if '$odd' in v:
            odd = Odd(v['$odd'])
            odds.append(odd)
            return odd
        if '$tuple' in v:
            return tuple(put(x, world, odds) for x in v['$tuple'])
        if '$map' in v:
            return {k: put(x, world, odds) for k, x in v['$map']}
        return values.decode(v)
    if isinstance(v, list):
        return [put(x, world, odds) for x in v]
    return v


def snap(v, Form):
    """Contents of a value, with the order in which they are held."""
    if isinstance(v, Form):
        return ('form', type(v).__name__, tuple((k, snap(x, Form)) for k, x in dict.items(v)))
    if isinstance(v, dict):
        return ('dict', tuple((k, snap(x, Form)) for k, x in v.items()))
    if isinstance(v, list):
        return ('list', tuple(snap(x, Form) for x in v))
    if isinstance(v, tuple):
        return ('tuple', tuple(snap(x, Form) for x in v))
    if isinstance(v, Odd):
        return ('odd', v.mode, Same(v))
    return ('v', values.fp(v))


class Same(object):
    """An object, equal to none but itself."""

    def __init__(self, x):
        self.x = x

    def __eq__(self, other):
        return isinstance(other, Same) and self.x is other.x

    def __ne__(self, other):
        return not self == other

    def __hash__(self):
        return 0

    def __repr__(self):
        return 'an object'


def is_form(s):
    return s[0] == 'form'


# what a user's munge function returns

def answer(spec, name, s, get):
    """-> snapshot, or MISSING"""
    ret = spec['by'].get(name) or spec['ret']
    op = ret[0]
    if op == 'drop':
        return MISSING
    if op == 'const':
        return ('v', values.fp(values.decode(ret[1])))
    if op == 'inst':
        return get(ret[1])
    if s is MISSING:
        return MISSING
    if op == 'same':
        return s
    if op == 'list':
        return ('list', (s, ('v', ('i', 1))))
    if op == 'tuple':
        return ('tuple', (s, ('v', ('i', 1))))
    raise sched.PlanError('ret')


def respond(spec, name, value, NONE, get):
    """The same on values."""
    ret = spec['by'].get(name) or spec['ret']
    op = ret[0]
    if op == 'drop':
        return NONE
    if op == 'const':
        return values.decode(ret[1])
    if op == 'inst':
        return get(ret[1])
    if value is NONE or op == 'same':
        return value
    if op == 'list':
        return [value, 1]
    return value, 1


# reference

def munged(schema, s, fn, calls, depth=0):
    if depth > DEPTH:
        raise sched.PlanError('too deep')
    held = dict(s[2])
    out, mine = [], []
    for f in schema.fields(s[1]):
        name = f['n']
        x = held.get(name, MISSING)
        mine.append((name, x, tuple(k for k, _ in out)))
        x = fn(s[1], f, x)
        if x is MISSING:
            continue
        if is_form(x):
            x = munged(schema, x, fn, calls, depth + 1)
        elif x[0] in ('list', 'tuple'):
            x = (x[0], tuple(munged(schema, i, fn, calls, depth + 1) if is_form(i) else i for i in x[1]))
        out.append((name, x))
    calls.append((s[1], tuple(mine)))
    return ('form', s[1], tuple(out))


def flat(schema, s, path=()):
    held = dict(s[2])
    for f in schema.fields(s[1]):
        name = f['n']
        if name not in held:
            continue
        here = path + ((s[1], name),)
        if is_form(held[name]):
            for x in flat(schema, held[name], here):
                yield x
        else:
            yield here, held[name]


def multiset(calls):
    return sorted(calls, key=repr)


class Bench(object):
    """The forms of one simulated process, and what they are to hold."""

    def __init__(self, world, plan):
        self.world, self.plan = world, plan
        self.pilo, self.schema = world.pilo, world.schema
        self.Form = world.pilo.Form
        self.odds = []
        self.shared, self.before = {}, {}
        self.found = []
        self.counts = {}
        self.keep = []
        for name, content in plan['insts'].items():
            if '$form' not in content:
                raise sched.PlanError('no form')
            self.shared[name] = form = put(content, world, self.odds)
            self.before[name] = snap(form, self.Form)

    def count(self, name):
        self.counts[name] = self.counts.get(name, 0) + 1

    def fail(self, cls, where, op, expected, actual):
        self.found.append((cls, {
            'operation': where, 'op': {k: v for k, v in op.items() if k != 'ops'},
            'expected': jsonable(expected), 'actual': jsonable(actual)}))

    def originals(self, where, op):
        for name, form in self.shared.items():
            now = snap(form, self.Form)
            if now != self.before[name]:
                self.fail('the original changed', where, dict(op, inst=name), self.before[name], now)
                self.before[name] = now


class Script(object):
    """One client thread."""

    def __init__(self, bench, env, tid):
        self.b, self.env, self.tid = bench, env, tid
        self.state, self.expect, self.gens = {}, {}, {}
        self.outer = None
        self.depth = 0

    def get(self, name):
        if name in self.b.shared:
            return self.b.shared[name]
        if name == '@' and self.outer is not None:
            return self.outer
        return self.state.get(name)

    def seen(self, name):
        form = self.get(name)
        return None if form is None else snap(form, self.b.Form)

    def run(self, ops, at=()):
        for i, op in enumerate(ops):
            where = at + (i,)
            self.op(op, where)
            self.b.originals((self.tid,) + where, op)

    def op(self, op, where):
        b = self.b
        kind = op['op']
        full = (self.tid,) + where
        if kind == 'during':
            return self.during(op, where)
        if kind == 'set':
            form = self.state.get(op['inst'])
            if form is not None:
                for name in [g for g in self.gens if self.gens[g][3] not in b.shared]:
                    del self.gens[name]
                poke(form, b.Form, op['deep'] and op['inst'] in self.expect)
            return
        if kind in ('pull', 'throw', 'close'):
            return self.generator(op, full)
        source = self.get(op['inst'])
        if source is None:
            return
        s = snap(source, b.Form)
        out = None
        calls = []
        self.depth += 1
        before = self.env.faults, self.env.seen
        try:
            if self.depth > DEPTH:
                raise sched.PlanError('too deep')
            self.env.set_faults(op.get('faults'))
            out = engine.guarded(self.env, lambda: ('ok', self.real(op, source, calls, where)))
        finally:
            self.depth -= 1
            self.env.faults, self.env.seen = before
        expected, wanted, failing = self.reference(op, s)
        b.count('op_' + kind)
        if out[0] != 'ok':
            b.count('outcome_exc')
            if out[2] == 'interrupt':
                b.count('interrupted')
            elif list(out[1:]) not in failing:
                b.fail('another exception', full, op, failing or 'a result', out)
        elif failing:
            b.fail('an exception is lost', full, op, failing, 'a result')
        else:
            if kind == 'flat':
                self.gens[op['dst']] = (out[1], list(flat(b.schema, s)), [0], op['inst'])
                b.keep.append(out[1])
            elif kind == 'flatten':
                actual = [self.item(x, expected[j] if j < len(expected) else None) for j, x in enumerate(out[1])]
                if actual != expected:
                    b.fail('flattened to something else', full, op, expected, actual)
            else:
                actual = snap(out[1], b.Form)
                if out[1] is source:
                    b.fail('not another form', full, op, 'another form', 'the original')
                elif actual != expected:
                    cls = 'another result'
                    if isinstance(out[1], b.Form) and values.fp(out[1]) == fp_of(expected):
                        cls = 'another order'
                    b.fail(cls, full, op, expected, actual)
                elif wanted is not None and multiset(calls) != multiset(wanted):
                    b.fail('the function was called otherwise', full, op, multiset(wanted), multiset(calls))
                self.state[op['dst']] = out[1]
                if kind != 'copy':
                    self.expect[op['dst']] = True
                else:
                    self.expect.pop(op['dst'], None)
        if source is not self.outer and snap(source, b.Form) != s:
            b.fail('the original changed', full, op, s, snap(source, b.Form))

    def item(self, x, want):
        path, value = x
        classes = [cls for cls, _ in want[0]] if want else []
        out = []
        for j, f in enumerate(path):
            cls = classes[j] if j < len(classes) else '?'
            if cls != '?' and not any(f is g for g in self.b.world.classes[cls].fields):
                cls = '?'
            out.append((cls, f.name))
        return tuple(out), snap(value, self.b.Form)

    def real(self, op, source, calls, where):
        b = self.b
        kind = op['op']
        if kind == 'copy':
            return source.copy()
        if kind == 'filter':
            return source.filter(*op['tags'], **({'inv': op['inv']} if 'inv' in op else {}))
        if kind == 'flatten':
            return list(source.flatten())
        if kind == 'flat':
            return source.flatten()
        if kind != 'munge':
            raise sched.PlanError('op')
        spec = op['fn']
        groups = {}
        order = []
        NONE = b.pilo.NONE

        def func(form, field, value):
            key = id(form)
            if key not in groups:
                groups[key] = (form, [])
                order.append(key)
                if type(form).__name__ not in b.world.classes or any(form is x for x in b.shared.values()):
                    b.fail('the function was given another form', (self.tid,) + where, op, 'a new form', 'an original')
            groups[key][1].append((
                field.name, MISSING if value is NONE else snap(value, b.Form), tuple(dict.keys(form))))
            self.env.seam('u|{0}.{1}'.format(type(form).__name__, field.name))
            for j, (name, ops) in enumerate(spec.get('acts') or ()):
                if name == field.name and self.depth < 3:
                    self.run(ops, where + ('fn', j))
            return respond(spec, field.name, value, NONE, self.get)

        try:
            return source.munge(func)
        finally:
            for key in order:
                form, seq = groups[key]
                calls.append((type(form).__name__, tuple(seq)))

    def reference(self, op, s):
        """-> expected snapshot, expected calls, exceptions one of which is to escape"""
        b = self.b
        kind = op['op']
        if kind == 'copy':
            return s, None, []
        if kind == 'filter':
            inv = bool(op.get('inv'))

            def select(cls, f, x):
                hit = bool(set(op['tags']) & set(f['o'].get('tags') or ()))
                return x if hit != inv else MISSING

            return munged(b.schema, s, select, []), None, []
        if kind == 'flatten':
            return list(flat(b.schema, s)), None, []
        if kind == 'flat':
            return None, None, []
        failing, calls = [], []
        faults = dict((f[0], f[1]) for f in op.get('faults') or ())

        def fn(cls, f, x):
            site = 'u|{0}.{1}'.format(cls, f['n'])
            if site in faults:
                failing.append([faults[site], site])
            return answer(op['fn'], f['n'], x, self.want)

        out = munged(b.schema, s, fn, calls)
        if failing:
            # calls below the failing one may or may not come first
            return None, None, failing
        return out, calls, []

    def want(self, name):
        s = self.seen(name)
        if s is None:
            raise sched.PlanError('no instance')
        return s

    def generator(self, op, full):
        b = self.b
        if op['gen'] not in self.gens:
            return
        gen, items, at, inst = self.gens[op['gen']]
        if op['op'] == 'pull':
            for _ in range(op['n']):
                want = ('item', items[at[0]]) if at[0] < len(items) else ('end',)
                out = engine.guarded(self.env, lambda: self.pull(gen, op, want))
                if out[0] == 'exc':
                    if out[2] != 'interrupt':
                        b.fail('flattening fails', full, op, 'a value', out)
                    else:
                        b.count('interrupted')
                    del self.gens[op['gen']]
                    return
                at[0] += 1
                if out != want:
                    b.fail('flattened to something else', full, op, want, out)
                    del self.gens[op['gen']]
                    return
                if out == ('end',):
                    b.count('exhausted')
                    del self.gens[op['gen']]
                    return
            return
        del self.gens[op['gen']]
        b.count('abandoned')
        if op['op'] == 'close':
            out = engine.guarded(self.env, lambda: gen.close())
            if out is not None and out[2] != 'interrupt':
                b.fail('flattening cannot be abandoned', full, op, None, out)
            return
        ex = self.env.exception(op['kind'], 'thrown')
        out = engine.guarded(self.env, lambda: gen.throw(ex))
        if out is None or out[0] != 'exc' or out[2] != 'interrupt' and list(out[1:]) != [op['kind'], 'thrown']:
            b.fail('another exception', full, op, ('exc', op['kind'], 'thrown'), out)

    def pull(self, gen, op, want):
        try:
            path, value = next(gen)
        except StopIteration:
            return ('end',)
        item = self.item((path, value), want[1] if len(want) > 1 else None)
        if op.get('scribble') and isinstance(path, list):
            # what is handed out is the client's
            del path[:]
        return ('item', item)

    def during(self, op, where):
        """Operations by a hook of a form that is being mapped, which is '@' to them."""
        b = self.b
        saved = self.outer
        script = self

        def hook():
            script.outer = b.pilo.ctx.form
            try:
                script.run(op['ops'], where)
            finally:
                script.outer = saved

        HOOKS[self.tid] = hook
        made = []

        def body():
            made.append(b.world.classes['Outer']())
            return 'ok', made[0].map({'x': 1, 'y': 2, 'z': {'v': 3}})

        try:
            out = engine.guarded(self.env, body)
        finally:
            HOOKS.pop(self.tid, None)
            self.outer = saved
            for name in [g for g in self.gens if self.gens[g][3] == '@']:
                del self.gens[name]
        b.count('op_during')
        if out[0] != 'ok':
            if out[2] != 'interrupt':
                b.fail('the mapping fails', (self.tid,) + where, op, 'ok', out)
            else:
                b.count('interrupted')
            return
        got = snap(made[0], b.Form)
        if got != OUTER_DONE:
            b.fail('the mapping gives something else', (self.tid,) + where, op, OUTER_DONE, got)


HOOKS = {}
OUTER_DONE = ('form', 'Outer', (
    ('z', ('form', 'Inner', (('v', ('v', ('i', 3))),))), ('x', ('v', ('i', 1))), ('y', ('v', ('i', 2)))))
OUTER_SCHEMA = {
    'Inner': {'base': None, 'fields': [{'n': 'v', 'k': 'int', 'o': {'tags': ['t0']}, 'h': {}, 'src': 'v'}]},
    'Outer': {'base': None, 'fields': [
        {'n': 'z', 'k': 'sub', 'form': 'Inner', 'o': {'tags': ['t0', 't1']}, 'h': {}, 'src': 'z'},
        {'n': 'x', 'k': 'int', 'o': {'tags': ['t1']}, 'h': {}, 'src': 'x'},
        {'n': 'y', 'k': 'int', 'o': {'tags': ['t0']}, 'h': {}, 'src': 'y'},
    ]},
}


def define_outer(world):
    fields = world.pilo.fields

    def munge(self, value):
        hook = HOOKS.get(envs.current().tid)
        if hook is not None:
            HOOKS.pop(envs.current().tid)
            hook()
        return value

    meta = type(world.pilo.Form)
    inner = meta('Inner', (world.pilo.Form,), {'v': fields.Integer(tags=['t0'])})
    members = {'z': fields.SubForm(inner, tags=['t0', 't1']), 'x': fields.Integer(tags=['t1'])}
    y = fields.Integer(tags=['t0'])
    members['y'] = y
    y.munge(munge)
    world.classes['Inner'] = inner
    world.classes['Outer'] = meta('Outer', (world.pilo.Form,), members)


def fp_of(s):
    """Fingerprint (without order) of a snapshot without objects."""
    k = s[0]
    if k == 'form':
        return ('form', s[1], tuple(sorted(
            ((str(n), n, fp_of(x)) for n, x in s[2]), key=lambda i: (i[0], str(i[1])))))
    if k == 'dict':
        return ('dict', tuple(sorted(
            ((str(n), n, fp_of(x)) for n, x in s[1]), key=lambda i: (i[0], str(i[1])))))
    if k in ('list', 'tuple'):
        return (k,) + tuple(fp_of(x) for x in s[1])
    if k == 'odd':
        return ('other', 'Odd')
    return s[1]


def poke(form, Form, deep):
    """Changes a form; if `deep` also the forms and lists in it."""
    for v in list(dict.values(form)):
        if not deep:
            break
        if isinstance(v, Form):
            poke(v, Form, True)
        elif isinstance(v, (list, tuple)):
            for i in v:
                if isinstance(i, Form):
                    poke(i, Form, True)
            if isinstance(v, list):
                v.append('poked')
    keys = list(dict.keys(form))
    if keys:
        dict.__delitem__(form, keys[0])
    dict.__setitem__(form, 'poked', 1)


def field_names(schema, content):
    """Names of the fields of a form in a plan, and of those in it."""
    out = set()
    if isinstance(content, dict):
        if '$form' in content:
            out.update(f['n'] for f in schema.fields(content['$form']))
        for x in content.values():
            out |= field_names(schema, x)
    elif isinstance(content, list):
        for x in content:
            out |= field_names(schema, x)
    return out


class C17(runner.Check):

    id = 'C17'
    rule = ('a run counts when forms were transformed and a user function failed, ran other operations or changed '
            'values, a flattening was left unfinished or interleaved with others, an operation was interrupted, or '
            'threads shared the forms; runs are told apart by schedule and script')
    runs = {'quick': 6000, 'thorough': 90000}
    keep = runner.Check.keep | frozenset(('by', 'fn', 'gen', 'dst', 'n', 'insts', 'deep', 'tags', '$form', '$map', 'kind'))

    def plan(self, rng, tier):
        for _ in range(20):
            plan = self.plan_once(rng, tier)
            if len(repr(plan)) < MAX_PLAN:
                break
        return plan

    def plan_once(self, rng, tier):
        kinds = {k: 0 for k in gen.BASE_CFG['kinds']}
        kinds.update({'str': 3, 'int': 4, 'sub': 6, 'list': 2, 'tuple': 1, 'dict': 1, 'any': 1})
        d = Drawn(rng, forms=(1, 4) if tier == 'quick' else (1, 6), fields=(1, 5), kinds=kinds, hook_p=0.1, opt_p=0.4,
                  tags=True, inherit_p=0.35, src_p=0.05, dotted_p=0, call_p=0, flat_p=0, factory_p=0.3,
                  ctx_fields=False, acts_n=(0, 0))
        self.d = d
        plan = d.plan
        schema = build.Schema(plan['schema'])
        plan['insts'] = {}
        for i in range(rng.randint(1, 3)):
            form = d.gen.root if rng.random() < 0.6 else rng.choice(d.gen.order)
            plan['insts']['i{0}'.format(i)] = self.content(rng, schema, d, form, 0)
        n = rng.choice([2, 2, 3]) if rng.random() < 0.3 else 1
        plan['threads'] = [self.script(rng, schema, plan, tid) for tid in range(n)]
        plan['sched'] = draw_sched(rng, rng.choice([200, 1000])) if n > 1 else {'mode': 'none'}
        plan['sched_seed'] = rng.getrandbits(32)
        if rng.random() < 0.25:
            plan['interrupts'] = sorted(rng.randint(1, 400 * n) for _ in range(rng.choice([1, 1, 2])))
        return d.finish()

    def content(self, rng, schema, d, form, depth):
        data = []
        p = rng.choice([1.0, 0.8, 0.5])
        for f in schema.fields(form):
            if rng.random() < p:
                data.append([f['n'], self.value(rng, schema, d, f, depth)])
        if rng.random() < 0.3:
            rng.shuffle(data)
        if rng.random() < 0.15:
            data.insert(rng.randint(0, len(data)), ['extra', 5])
        return {'$form': form, 'data': data}

    def value(self, rng, schema, d, f, depth):
        r = rng.random()
        if depth < 3 and (r < 0.25 or f['k'] == 'sub' and r < 0.8):
            return self.content(rng, schema, d, f.get('form') or rng.choice(d.gen.order), depth + 1)
        if depth < 3 and r < 0.45:
            items = []
            for _ in range(rng.randint(0, 3)):
                if rng.random() < 0.6:
                    items.append(self.content(rng, schema, d, rng.choice(d.gen.order), depth + 1))
                else:
                    items.append(self.leaf(rng))
            shape = rng.random()
            if shape < 0.5:
                return items
            if shape < 0.8:
                return {'$tuple': items}
            return {'$map': [['k{0}'.format(i), x] for i, x in enumerate(items)]}
        return self.leaf(rng)

    def leaf(self, rng):
        return rng.choice([
            0, 1, 7, '', 'a', None, False, True, {'$float': '0.0'}, {'$float': 'nan'}, {'$dec': '1.50'}, [], [1, 2], {'$map': []},
            {'$date': [2001, 2, 3]}, {'$odd': rng.choice(['all', 'raise', 'vague', 'false', 'plain'])},
        ])

    def script(self, rng, schema, plan, tid, depth=0, src=None):
        names = list(plan['insts']) + list(src or ())
        own, gens, ops = [], [], []
        n = rng.randint(2, 6) if not depth else rng.randint(1, 3)
        for i in range(n):
            r = rng.random()
            inst = rng.choice(names + own)
            dst = 'r{0}.{1}.{2}'.format(depth, tid, i)
            if gens and r < 0.35:
                g = rng.choice(gens)
                r = rng.random()
                if r < 0.8:
                    ops.append({'op': 'pull', 'gen': g, 'n': rng.choice([1, 1, 2, 3, 9, 40]),
                                'scribble': rng.random() < 0.3})
                elif r < 0.9:
                    ops.append({'op': 'close', 'gen': g})
                else:
                    ops.append({'op': 'throw', 'gen': g, 'kind': rng.choice(['SimError', 'ValueError', 'KeyError'])})
                continue
            r = rng.random()
            if r < 0.13:
                ops.append({'op': 'copy', 'inst': inst, 'dst': dst})
                own.append(dst)
            elif r < 0.33:
                op = {'op': 'filter', 'inst': inst, 'dst': dst,
                      'tags': rng.sample(TAGS + ['t9'], rng.choice([0, 1, 1, 1, 2, 2, 3]))}
                if rng.random() < 0.4:
                    op['inv'] = rng.random() < 0.8
                ops.append(op)
                own.append(dst)
            elif r < 0.58:
                ops.append(self.munge_op(rng, schema, plan, tid, inst, dst, names + own, depth))
                own.append(dst)
            elif r < 0.7:
                ops.append({'op': 'flatten', 'inst': inst})
            elif r < 0.85:
                ops.append({'op': 'flat', 'inst': inst, 'dst': 'g{0}.{1}'.format(depth, i)})
                gens.append('g{0}.{1}'.format(depth, i))
            elif r < 0.93 and own:
                ops.append({'op': 'set', 'inst': rng.choice(own), 'deep': rng.random() < 0.7})
            elif not depth:
                ops.append({'op': 'during', 'ops': self.script(rng, schema, plan, tid, 2, ['@', '@'])})
        return ops

    def munge_op(self, rng, schema, plan, tid, inst, dst, names, depth):
        fields = sorted(set(f['n'] for x in plan['schema']['order'] for f in schema.fields(x)))
        by = {}
        given = rng.choice(sorted(plan['insts']))
        inside = field_names(schema, plan['insts'][given])
        for name in fields:
            if rng.random() < 0.3:
                rets = [['same'], ['drop'], ['const', rng.choice([0, 'new', None, {'$dec': '2.0'}])], ['list'], ['tuple']]
                if name not in inside:
                    # it has no place for itself
                    rets += [['inst', given]] * 2
                by[name] = rng.choice(rets)
        op = {'op': 'munge', 'inst': inst, 'dst': dst, 'fn': {
            'ret': rng.choice([['same'], ['same'], ['same'], ['drop']]), 'by': by}}
        if depth < 1 and rng.random() < 0.35:
            op['fn']['acts'] = [
                [rng.choice(fields), self.script(rng, schema, plan, tid, depth + 1)]
                for _ in range(rng.choice([1, 1, 2]))]
        if rng.random() < 0.3:
            forms = [x for x in plan['schema']['order'] if schema.fields(x)]
            form = rng.choice(forms)
            op['faults'] = [['u|{0}.{1}'.format(form, rng.choice(schema.fields(form))['n']),
                             rng.choice(envs.CAUGHT + envs.ABSENT + envs.ESCAPING + ['AttributeError'])]]
        return op

    def run(self, plan):
        out = runner.Outcome()
        plan = json_copy(plan)
        plan['schema']['forms'].update(OUTER_SCHEMA)
        gc_was = gc.isenabled()
        # an abandoned generator is collected after the run
        gc.disable()
        HOOKS.clear()
        try:
            world = engine.fresh(plan)
            define_outer(world)
            bench = Bench(world, plan)
            run = self.simulate(plan, world, bench)
            STATE.budget = engine.MAX_STEPS
            for g in bench.keep:
                g.close()
        finally:
            HOOKS.clear()
            STATE.budget = engine.MAX_STEPS
            if gc_was:
                gc.enable()
        out.trace = run.trace
        out.add('steps', run.steps)
        out.add('thread_switches', run.switches)
        out.fire(run.fired)
        for k, n in bench.counts.items():
            out.add(k, n)
        if bench.counts.get('interrupted'):
            out.fire({'interrupt': bench.counts['interrupted']})
        out.sig = repr((run.trace, plan['threads'], plan['insts'], plan.get('interrupts')))
        out.nontrivial = bool(
            run.fired or len(plan['threads']) > 1 or bench.counts.get('interrupted') or bench.counts.get('abandoned')
            or bench.counts.get('op_munge') or bench.counts.get('op_during'))
        if run.stuck:
            out.violate('stuck', run.stuck)
        elif bench.found:
            out.violate(*bench.found[0])
        return out

    def simulate(self, plan, world, bench):
        def body(world, env, tid, ops):
            Script(bench, env, tid).run(ops)
            return True

        def interrupt():
            env = envs.current()
            if env is not None:
                raise env.exception('KeyboardInterrupt', 'interrupt')

        return engine.run_threads(
            plan, plan['threads'], world=world, make_body=body, interrupts=plan.get('interrupts'),
            on_interrupt=interrupt)


CHECK = C17()
