"""C09: fields keep declaration order while other threads define or create forms."""
from .common import *
from .. import env as envs, values

KINDS = ['str', 'int', 'any', 'list', 'tuple', 'dict', 'sub', 'group', 'type', 'constant', 'hooked']


class C09(runner.Check):

    id = 'C09'
    rule = ('a run counts when a thread switch happened while a class with at least two fields was being defined or '
            'used; runs are told apart by schedule and script')
    runs = {'quick': 4000, 'thorough': 80000}
    keep = runner.Check.keep | frozenset(('name', 'bases', 'how', 'of', 'count', 'fail'))

    def plan(self, rng, tier):
        n = rng.choice([1, 2, 2, 2, 3, 4])
        shared = [self.cls(rng, 'S{0}'.format(i), [], {}) for i in range(rng.randint(0, 2))]
        known = {c['name']: c for c in shared}
        threads = []
        for tid in range(n):
            mine = dict(known)
            ops = []
            for i in range(rng.randint(1, 4)):
                r = rng.random()
                if r < 0.6 or not mine:
                    name = 'T{0}{1}'.format(tid, i)
                    bases = []
                    if mine and rng.random() < 0.5:
                        bases = [rng.choice(sorted(mine))]
                        for _ in range(2):
                            other = rng.choice(sorted(mine))
                            if rng.random() < 0.4 and linear(mine, bases + [other]):
                                bases.append(other)
                    op = dict(self.cls(rng, name, bases, mine), op='define')
                    if rng.random() < 0.1:
                        op['fail'] = True
                    else:
                        mine[name] = op
                    ops.append(op)
                elif r < 0.8:
                    ops.append({'op': 'use', 'name': rng.choice(sorted(mine)), 'how': rng.choice(['map', 'seq', 'new', 'fields'])})
                else:
                    ops.append({'op': 'create', 'count': rng.randint(1, 6), 'k': rng.choice(KINDS)})
            threads.append(ops)
        return json_copy({
            # so many fields exist before: an order by number is not one by the number's text
            'pad': rng.choice([1, 90, 900, 985, 990, 995]) if rng.random() < 0.1 else 0,
            'shared': shared, 'threads': threads, 'sched': draw_sched(rng, rng.choice([100, 300, 1000])),
            'sched_seed': rng.getrandbits(32),
        })

    def cls(self, rng, name, bases, known):
        fields = []
        inherited = [n for b in bases for n in names_of(known, b)]
        letters = list('qwertyuiopasdfghjklzxcvbnm')
        rng.shuffle(letters)
        for i in range(rng.randint(1, 6)):
            if inherited and rng.random() < 0.3:
                n = rng.choice(inherited)
            else:
                n = letters[i] + name.lower() if rng.random() < 0.7 else rng.choice('abc')
            if n in [f['n'] for f in fields]:
                continue
            if n in inherited and ambiguous(known, bases, n):
                continue
            fields.append({'n': n, 'k': rng.choice(KINDS)})
        if not fields:
            fields.append({'n': 'one' + name.lower(), 'k': rng.choice(KINDS)})
        return {'name': name, 'bases': bases, 'fields': fields, 'how': rng.choice(['class', 'class', 'class', 'from_fields'])}

    def run(self, plan):
        out = runner.Outcome()
        pilo = load()
        classes = {}
        log = []
        for _ in range(plan['pad']):
            pilo.fields.Field()
        for c in plan['shared']:
            classes[c['name']] = define(pilo, dict(classes), c, None)
        found = []

        def body(world, env, tid, ops):
            mine = dict(classes)
            specs = {c['name']: c for c in plan['shared']}
            for i, op in enumerate(ops):
                sched.yield_now()
                if op['op'] == 'define':
                    try:
                        mine[op['name']] = define(pilo, mine, op, specs)
                    except Broken:
                        continue
                    specs[op['name']] = op
                    check(tid, i, op, mine[op['name']], names_of(specs, op['name']), 'fields')
                    use(tid, i, dict(op, how='map'), mine[op['name']], names_of(specs, op['name']))
                    use(tid, i, dict(op, how='seq'), mine[op['name']], names_of(specs, op['name']))
                elif op['op'] == 'use':
                    if op['name'] not in mine:
                        raise sched.PlanError('no class')
                    use(tid, i, op, mine[op['name']], names_of(specs, op['name']))
                elif op['op'] == 'create':
                    for _ in range(op['count']):
                        field(pilo, op['k'])
                        pilo.Form()
            for name, spec in specs.items():
                check(tid, None, spec, mine[name], names_of(specs, name), 'fields at the end')
            return []

        def check(tid, i, op, cls, want, what):
            got = [f.name for f in cls.fields]
            log.append((tid, i, got))
            if got != want:
                found.append((what, tid, i, op, want, got))

        def use(tid, i, op, cls, want):
            how = op['how']
            if how == 'new':
                cls()
            elif how == 'fields':
                check(tid, i, op, cls, want, 'fields')
            elif how == 'map':
                # every field reports in the order in which it is mapped
                order = []
                form = cls()
                data = Missing_(order)
                errors = form.map(pilo.DefaultSource(data))
                got = [k for k in order if k in want]
                seen = [k for j, k in enumerate(got) if k not in got[:j]]
                check_list(tid, i, op, [n for n in want if n in seen], seen, 'mapping order')
                reported = []
                for e in errors:
                    name = getattr(e.field, 'name', None)
                    if name in want and name not in reported:
                        reported.append(name)
                check_list(tid, i, op, [n for n in want if n in reported], reported, 'order of errors')
            elif how == 'seq':
                items = ['v{0}'.format(j) for j in range(len(want))]
                form = cls()
                form.map(list(items))
                for name, v in zip(want, items):
                    f = getattr(cls, name)
                    if type(f) is pilo.fields.Field or type(f) is pilo.fields.String:
                        if form.get(name) != v:
                            found.append(('positional input', tid, i, op, {name: v}, {name: repr(form.get(name))}))

        def check_list(tid, i, op, want, got, what):
            log.append((tid, i, what, got))
            if want != got:
                found.append((what, tid, i, op, want, got))

        world = Fake(pilo)
        run = engine.run_threads(plan, plan['threads'], world=world, make_body=body)
        out.trace = run.trace
        out.add('steps', run.steps)
        out.add('thread_switches', run.switches)
        out.add('operations', sum(len(ops) for ops in plan['threads']))
        for ops in plan['threads']:
            for op in ops:
                out.add('op_' + op['op'])
        out.add('orders_checked', len(log))
        out.sig = repr((run.trace, plan['threads'], plan['shared']))
        out.nontrivial = run.switches > 0 and any(len(l[-1]) > 1 for l in log)
        if run.stuck:
            out.violate('stuck', run.stuck)
        elif found:
            what, tid, i, op, want, got = found[0]
            out.violate('another order than declared', {
                'what': what, 'thread': tid, 'operation': i, 'class': op.get('name'), 'expected': want, 'actual': got})
        return out


def shape(specs, name, made=None):
    """A plain class whose attributes are the places of the fields of a form class."""
    made = {} if made is None else made
    for n, spec in specs.items():
        if n in made:
            continue
        try:
            bases = tuple(made[b] for b in spec['bases'])
        except KeyError:
            raise sched.PlanError('no base')
        members = {}
        over = type('over', bases or (object,), {})
        for i, f in enumerate(spec['fields']):
            place = getattr(over, f['n'], None)
            members[f['n']] = place if place is not None else (len(made), i)
        made[n] = type(str(n), bases or (object,), members)
        if n == name:
            break
    return made[name]


def linear(specs, bases):
    """Whether a class may have these bases."""
    if len(set(bases)) != len(bases):
        return False
    try:
        type('probe', tuple(shapes(specs, bases)), {})
    except TypeError:
        return False
    return True


def shapes(specs, names):
    made = {}
    return [shape(specs, n, made) if n not in made else made[n] for n in names]


def ambiguous(specs, bases, n):
    """Whether the nearest base shows another field of that name than the class inherits.

    Which of the two a further override replaces is not declared anywhere."""
    over = type('over', tuple(shapes(specs, bases)), {})
    for base in over.__mro__[1:]:
        if hasattr(base, n):
            return getattr(base, n) != getattr(over, n)
    return False


def names_of(specs, name):
    """Declared order of a class's fields."""
    cls = shape(specs, name)
    out = [n for n in dir(cls) if not n.startswith('__')]
    return sorted(out, key=lambda n: getattr(cls, n))


class Broken(Exception):
    pass


class Missing_(dict):
    """An empty mapping that records the keys looked up."""

    def __init__(self, order):
        dict.__init__(self)
        self.order = order

    def __getitem__(self, key):
        self.order.append(key)
        raise KeyError(key)


class Fake(object):
    """A world with the library only."""

    def __init__(self, pilo):
        self.pilo = pilo

    def share(self):
        pass

    def env(self):
        return envs.Env(pilo=self.pilo)


def load():
    from .. import loader
    pilo = loader.load()
    values.forget_marks()
    return pilo


def field(pilo, k):
    f = pilo.fields
    if k == 'str':
        return f.String()
    if k == 'int':
        return f.Integer(default=None)
    if k == 'any':
        return f.Field()
    if k == 'list':
        return f.List(f.List(f.Integer()))
    if k == 'tuple':
        return f.Tuple([f.Integer(), f.String()])
    if k == 'dict':
        return f.Dict(f.String(), f.Integer())
    if k == 'sub':
        return f.SubForm.from_fields(x=f.Integer(), y=f.String())
    if k == 'group':
        return f.Group(('g', f.Integer()))
    if k == 'type':
        return f.Type.abstract()
    if k == 'constant':
        return f.Integer().constant(3)
    if k == 'hooked':
        field = f.String()

        def munge(self, value):
            return value

        return field.munge(munge)
    raise sched.PlanError('kind')


def define(pilo, known, op, specs):
    try:
        bases = tuple(known[b] for b in op['bases']) or (pilo.Form,)
    except KeyError:
        raise sched.PlanError('no base')
    members = {}
    for spec in op['fields']:
        members[spec['n']] = field(pilo, spec['k'])
    if op.get('fail'):
        try:
            failing(pilo)
        except Exception:
            raise Broken()
        raise sched.PlanError('does not fail')
    if op['how'] == 'from_fields' and len(bases) == 1:
        return bases[0].from_fields(**members)
    return type(pilo.Form)(op['name'], bases, members)


def failing(pilo):
    """The class body fails after some of its fields have been created."""
    pilo.fields.String(no_such_option=1)


CHECK = C09()
