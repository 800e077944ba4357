"""C20: asking a form whether it has a field answers, and does nothing else."""
from .common import *


class C20(ModelCheck):

    id = 'C20'
    rule = ('a run counts when a form was asked for a field that it did not hold; runs are told apart by schedule, '
            'faults and the expected history')
    cfg = {
        'forms': (1, 3), 'fields': (2, 5), 'hook_p': 0.5, 'acts_n': (1, 2), 'read_p': 0.2, 'bad_p': 0.12,
        'absent_p': 0.25, 'opt_p': 0.6, 'acts': {'has': 8, 'read': 2, 'loc': 1, 'map': 1, 'ohas': 2},
        'kinds': {'sub': 5}, 'factory_p': 0.3,
    }
    ops = (2, 6)
    union_p = 0.05
    runs = {'quick': 8000, 'thorough': 120000}
    keep = ModelCheck.keep | frozenset(('counter',))

    def draw_op(self, d, rng):
        r = rng.random()
        form = d.form()
        inst = 'i.' + form
        if r < 0.3:
            op = d.map_op(hows=('map',), form=form)
            op['inst'] = inst
            op.pop('vars', None)
            return op
        names = [f['n'] for f in d.gen.fields(form)]
        if not names or rng.random() < 0.15:
            return {'op': 'has', 'inst': inst, 'form': form, 'field': rng.choice(gen.NOT_FIELDS), 'how': 'name'}
        op = {'op': 'has', 'inst': inst, 'form': form, 'field': rng.choice(names),
              'how': rng.choice(['name', 'name', 'field'])}
        r = rng.random()
        if r < 0.15:
            op['op'] = 'read'
        elif r < 0.25:
            return d.change(op)
        return op

    def faults(self, plan, op, rng):
        r = rng.random()
        if r < 0.15:
            place(plan, op, rng, envs.CAUGHT, rng.choice([1, 1, 2]))
        elif r < 0.35:
            place(plan, op, rng, envs.ESCAPING + envs.ABSENT[:2], 1)

    def compare(self, out, tid, i, op, x, y):
        if x['out'] != y['out']:
            return out.violate('another answer' if op['op'] == 'has' else 'another result', diff(
                'result', tid, i, op, x['out'], y['out']))
        a, b = [[e for e in r['events'] if e[0] == 'has'] for r in (x, y)]
        if a != b:
            return out.violate('another answer in a hook', diff('answers', tid, i, op, a, b))
        if x.get('inst') != y.get('inst'):
            return out.violate('another form afterwards', diff('form', tid, i, op, x.get('inst'), y.get('inst')))
        if x['events'] != y['events']:
            out.violate('other hooks ran', diff('events', tid, i, op, x['events'], y['events']))

    def nontrivial(self, out, plan, expected, records):
        out.nontrivial = any(
            r['op'] == 'has' or any(e[0] == 'has' for e in r['events']) for recs in records for r in recs)


CHECK = C20()
