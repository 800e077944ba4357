"""C10: polymorphic input always gets the class declared for its identity."""
from .common import *
from .. import build, env as envs
from .c09 import Fake, load

IDENTS = ['a', 'b', 'c', 'd', 'e', 'f', 'g']


class C10(runner.Check):

    id = 'C10'
    rule = ('a run counts when casts overlapped a definition or another cast, a probe failed, or a class was defined '
            'after the first use; runs are told apart by schedule, faults and outcomes')
    runs = {'quick': 7000, 'thorough': 120000}
    keep = runner.Check.keep | frozenset((
        'name', 'tops', 'classes', 'late', 'own', 'entry', 'want', 'via', 'abstract', 'translate', 'kindsrc', 'top',
        'extra', 'shape'))

    # plans

    def plan(self, rng, tier):
        tops, classes = [], []
        for i in range(rng.choice([1, 1, 2])):
            top = {
                'name': 'B{0}'.format(i), 'field': rng.choice(['kind', 'type_']),
                'src': rng.choice([None, None, 'k']), 'before': rng.randint(0, 1), 'after': rng.randint(0, 2),
                'translate': rng.choice([None, None, None, [['z', rng.choice(IDENTS)]]]),
            }
            tops.append(top)
        used = {t['name']: set() for t in tops}
        count = [0]

        def cls(bases):
            base = rng.choice(bases)
            top = base['top'] if 'top' in base else base['name']
            free = [x for x in IDENTS if x not in used[top]]
            count[0] += 1
            kind = rng.choice(['instance', 'instance', 'instance', 'constant', 'inherit', 'abstract'])
            own = []
            if kind in ('instance', 'constant') and free:
                own = rng.sample(free, 1 if kind == 'constant' else min(len(free), rng.choice([1, 1, 2])))
                used[top].update(own)
            elif kind != 'abstract':
                kind = 'inherit'
            return {
                'name': 'C{0}'.format(count[0]), 'base': base['name'], 'top': top, 'tk': kind, 'own': own,
                'extra': rng.randint(0, 2),
            }

        for _ in range(rng.randint(0, 4)):
            classes.append(cls(tops * 2 + classes))
        threads = []
        n = rng.choice([1, 2, 2, 2, 3, 4])
        same = rng.random() < 0.35
        first = rng.choice(tops)
        for tid in range(n):
            mine = list(classes)
            ops = []
            for _ in range(rng.randint(1, 4)):
                r = rng.random()
                if r < 0.3:
                    c = cls(tops + mine)
                    mine.append(c)
                    ops.append({'op': 'define', 'late': c})
                    continue
                top = first if same or rng.random() < 0.6 else rng.choice(tops)
                abstracts = [top['name']] + [c['name'] for c in mine if c['top'] == top['name'] and c['tk'] == 'abstract']
                entry = top['name'] if rng.random() < 0.75 else rng.choice(abstracts)
                want = rng.choice(IDENTS + ['z', 'unknown']) if rng.random() < 0.5 else rng.choice(
                    sorted(used[top['name']]) or ['a'])
                r = rng.random()
                if r < 0.03:
                    want = None
                elif r < 0.06:
                    want = 5
                elif r < 0.08:
                    want = '$absent'
                elif r < 0.16:
                    want = gen.near(rng, want)
                ops.append({
                    'op': 'cast', 'entry': entry, 'top': top['name'], 'want': want,
                    'via': rng.choice(['cast', 'cast', 'sub', 'list', 'hook', 'ctx']),
                    'shape': rng.choice(['dict', 'dict', 'dict', 'source', 'json']),
                    'sid': 'c{0}.{1}'.format(tid, len(ops)),
                })
                if rng.random() < 0.2:
                    # an identity where none is looked for
                    name = rng.choice(['kind', 'type_', 'k', 'type', 'name'])
                    if name != (top['src'] or top['field']):
                        ops[-1]['decoy'] = [name, rng.choice(IDENTS + ['z'])]
            threads.append(ops)
        plan = json_copy({
            'tops': tops, 'classes': classes, 'threads': threads,
            'sched': draw_sched(rng, rng.choice([200, 800, 3000])), 'sched_seed': rng.getrandbits(32),
        })
        for op in all_ops(plan['threads']):
            if op['op'] == 'cast' and rng.random() < 0.25 and op['shape'] != 'json':
                top = [t for t in tops if t['name'] == op['top']][0]
                key = top['src'] or top['field']
                site = 'r|{0}{1}/{2}'.format(op['sid'], self.prefix(op['via']), key)
                op['faults'] = [[site, rng.choice(envs.CAUGHT + envs.ESCAPING), rng.choice([1, 1, 2])]]
        return plan

    def prefix(self, via):
        return {'sub': '/p', 'list': '/ps/0'}.get(via, '')

    # runs

    def run(self, plan):
        out = runner.Outcome()
        pilo = load()
        tops = {t['name']: t for t in plan['tops']}
        shared = {}
        specs = {}
        for t in plan['tops']:
            shared[t['name']] = self.top(pilo, t)
        for c in plan['classes']:
            specs[c['name']] = c
            shared[c['name']] = self.define(pilo, tops, shared, c)
        holders = {}
        self.holder(pilo, tops, shared, holders)
        for c in plan['classes']:
            if c['tk'] == 'abstract':
                self.holder(pilo, tops, {c['name']: shared[c['name']]}, holders, c['top'])
        clock = [0]
        # (class, spec, declared from, declared until)
        declared = [[c['name'], c, 0, 0] for c in plan['classes']]
        history = []
        overlaps = [0]
        active = [0]
        alive = []       # a class that nobody refers to any more may or may not be found

        def tick():
            clock[0] += 1
            return clock[0]

        def body(world, env, tid, ops):
            mine = dict(shared)
            holders_mine = dict(holders)
            for i, op in enumerate(ops):
                sched.yield_now()
                if active[0]:
                    overlaps[0] += 1
                active[0] += 1
                try:
                    if op['op'] == 'define':
                        entry = [op['late']['name'], op['late'], tick(), 1 << 60]
                        declared.append(entry)
                        mine[op['late']['name']] = self.define(pilo, tops, mine, op['late'])
                        alive.append(mine[op['late']['name']])
                        entry[3] = tick()
                        if op['late']['tk'] == 'abstract':
                            self.holder(pilo, tops, {op['late']['name']: mine[op['late']['name']]}, holders_mine,
                                        op['late']['top'])
                        continue
                    if op['top'] not in tops or op['entry'] not in mine:
                        raise sched.PlanError('no class')
                    env.set_faults(op.get('faults'))
                    start = tick()
                    before = dict(env.fired)
                    got = engine.guarded(env, lambda: self.cast(pilo, tops[op['top']], mine, holders_mine, op))
                    history.append((tid, i, op, start, tick(), got, dict(env.fired) != before))
                finally:
                    active[0] -= 1
            return []

        run = engine.run_threads(plan, plan['threads'], world=Fake(pilo), make_body=body)
        out.trace = run.trace
        out.fire(run.fired)
        out.add('steps', run.steps)
        out.add('thread_switches', run.switches)
        out.add('operations', sum(len(ops) for ops in plan['threads']))
        out.sig = repr((plan, run.trace, [h[5] for h in history]))
        out.nontrivial = bool(overlaps[0] or run.fired or any(h[3] for h in declared))
        if run.stuck:
            out.violate('stuck', run.stuck)
            return out
        for tid, i, op, start, end, got, fired in history:
            allowed = self.allowed(plan, tops, declared, op, start, end)
            out.add('cast_' + str(got[0]))
            if op['via'] not in ('sub', 'list') and fired:
                allowed = allowed + [('exc',), ('rejected',)]
            elif fired:
                allowed = allowed + [('exc',), ('rejected',)]
            # input with a null identity counts as absent
            ok = got in allowed or op['want'] is None and got[0] == 'lost'
            if got[0] == 'exc':
                ok = fired and ('exc',) in allowed and got[2] is not None
            if not ok:
                out.violate('another class than declared', {
                    'thread': tid, 'operation': i, 'identity': op['want'], 'entry': op['entry'], 'via': op['via'],
                    'faults': op.get('faults'), 'allowed': jsonable(allowed), 'actual': jsonable(got)})
                break
        return out

    def allowed(self, plan, tops, declared, op, start, end):
        want = op['want']
        translate = dict(tops[op['top']]['translate'] or ()) if op['entry'] == op['top'] else {}
        if not isinstance(want, str) or want == '$absent':
            return [('rejected',)]
        # a sub-form selected by a translated identity may itself reject the text that was translated
        also = [('rejected',)] if want in translate and op['via'] in ('sub', 'list') else []
        want = translate.get(want, want)
        table = {name: spec for name, spec, _, _ in declared}

        def under(name):
            while name in table:
                if name == op['entry']:
                    return True
                name = table[name]['base']
            return name == op['entry']

        for name, spec, since, until in declared:
            if want in spec['own'] and under(name):
                if until < start:
                    return [('class', name)] + also
                if since > end:
                    return [('rejected',)]
                return [('class', name), ('rejected',)]
        return [('rejected',)]

    # the library

    def top(self, pilo, t):
        f = pilo.fields
        members = {}
        for i in range(t['before']):
            members['b{0}'.format(i)] = f.Integer(default=None)
        options = {}
        if t['src']:
            options['src'] = t['src']
        if t['translate']:
            options['translate'] = dict(t['translate'])
        members[t['field']] = f.Type.abstract(**options)
        for i in range(t['after']):
            members['a{0}'.format(i)] = f.String(default='dflt')
        return type(pilo.Form)(t['name'], (pilo.Form,), members)

    def define(self, pilo, tops, known, c):
        f = pilo.fields
        if c['top'] not in tops or c['base'] not in known:
            raise sched.PlanError('no base')
        t = tops[c['top']]
        members = {}
        options = {'src': t['src']} if t['src'] else {}
        for i in range(c['extra']):
            if i == 1:
                break
            members['x{0}{1}'.format(c['name'], i)] = f.Integer(default=1)
        if c['tk'] == 'instance':
            members[t['field']] = f.Type.instance(*c['own'], **options)
        elif c['tk'] == 'constant':
            members[t['field']] = f.Type.constant(c['own'][0])
        elif c['tk'] == 'abstract':
            members[t['field']] = f.Type.abstract(**options)
        if c['extra'] > 1:
            members['y{0}'.format(c['name'])] = f.List(f.Integer(), default=list)
        return type(pilo.Form)(c['name'], (known[c['base']],), members)

    def holder(self, pilo, tops, known, holders, top=None):
        f = pilo.fields
        for name, cls in known.items():
            t = tops.get(top) or tops.get(name)
            if t is None:
                continue
            field = getattr(cls, t['field'])
            members = {
                'p': f.PolymorphicSubForm(field, default=None),
                'ps': f.List(f.PolymorphicSubForm(field), default=None),
                'h': f.Field(default=None),
            }

            members['h'].munge(self.munge(field))
            holders[name] = type(pilo.Form)('Holder', (pilo.Form,), members)

    def munge(self, field):
        check = self

        def munge(self, value):
            return check.plain(field, value)

        return munge

    def plain(self, field, data):
        try:
            return ('class', field.cast(data).__name__)
        except ValueError as ex:
            if any(r is ex for r, _, _ in envs.current().raised):
                raise
            return ('rejected',)

    def cast(self, pilo, t, known, holders, op):
        field = getattr(known[op['entry']], t['field'])
        key = t['src'] or t['field']
        data = {'other': 1} if op['want'] == '$absent' else {key: op['want'], 'other': 1}
        if op.get('decoy') and op['decoy'][0] not in data:
            data[op['decoy'][0]] = op['decoy'][1]
        via = op['via']
        if via in ('sub', 'list') and op['entry'] not in holders:
            via = 'cast'
        sid = op['sid']
        if via in ('cast', 'ctx'):
            value = self.shape(pilo, op, envs.wrap(data, sid), data)
            if via == 'cast':
                return self.plain(field, value)
            with pilo.ctx(src=pilo.DefaultSource({'deep': {key: 'a'}}), errors=pilo.fields.RaiseErrors(), tags=None):
                with pilo.ctx(src='deep'):
                    return self.plain(field, value)
        if via == 'hook':
            if op['entry'] not in holders:
                return self.plain(field, envs.wrap(data, sid))
            form = holders[op['entry']]()
            errors = form.map({'h': envs.wrap(data, sid)})
            if errors:
                return ('rejected',)
            return form['h']
        outer = {'p': data} if via == 'sub' else {'ps': [data]}
        form = holders[op['entry']]()
        errors = form.map(self.shape(pilo, op, envs.wrap(outer, sid), outer))
        got = form.get('p') if via == 'sub' else form.get('ps')
        if errors:
            return ('rejected',)
        if via == 'list':
            if not got or len(got) != 1:
                return ('lost', repr(got))
            got = got[0]
        if got is None:
            return ('lost', repr(got))
        return ('class', type(got).__name__)

    def shape(self, pilo, op, wrapped, data):
        if op['shape'] == 'source':
            return pilo.DefaultSource(wrapped)
        if op['shape'] == 'json':
            return pilo.source.JsonSource(build.json_text(data))
        return wrapped


CHECK = C10()
