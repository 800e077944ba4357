"""C08: fields read on demand during a mapping agree with the finished form."""
from .common import *


class C08(ModelCheck):

    id = 'C08'
    rule = ('a run counts when a hook read a field on demand or ran another mapping; runs are told apart by schedule, '
            'faults and the expected history')
    cfg = {
        'forms': (2, 4), 'fields': (2, 5), 'hook_p': 0.6, 'acts_n': (1, 3), 'read_p': 0.5, 'bad_p': 0.08,
        'acts': {'read': 8, 'map': 2, 'push': 2, 'loc': 2, 'getvar': 1, 'other': 1, 'ohas': 1},
        'kinds': {'sub': 9, 'list': 4, 'dict': 4, 'tuple': 3}, 'max_depth': 3, 'factory_p': 0.25,
        'format_p': 0.3, 'sources': {'plain': 4, 'default': 2, 'json': 2, 'mount': 2, 'seq': 1},
    }
    union_p = 0.15
    ops = (1, 2)
    runs = {'quick': 6000, 'thorough': 120000}

    def draw_op(self, d, rng):
        return (d.read_op() if rng.random() < 0.1 else None) or d.map_op()

    def faults(self, plan, op, rng):
        place_mixed(plan, op, rng, 0.35)

    def compare(self, out, tid, i, op, x, y):
        a, b = x['out'], y['out']
        if a != b:
            return out.violate('result differs', diff('result', tid, i, op, a, b))
        if x.get('inst') != y.get('inst'):
            return out.violate('result differs', diff('form', tid, i, op, x.get('inst'), y.get('inst')))
        if a[0] == 'exc':
            # what ran before the exception
            return
        reads = [[e for e in r['events'] if e[0] in ('read', 'loc', 'var', 'map', 'leave')] for r in (x, y)]
        if reads[0] != reads[1]:
            d = first(*reads)
            return out.violate('a hook saw something else', diff('read', tid, i, op, d[0], d[1]))
        if x['events'] != y['events']:
            d = first(x['events'], y['events'])
            out.violate('hooks ran elsewhere', diff('event', tid, i, op, d[0], d[1]))

    def nontrivial(self, out, plan, expected, records):
        out.nontrivial = any(e[0] in ('read', 'map') for recs in records for r in recs for e in r['events'])


def first(a, b):
    for x, y in zip(a, b):
        if x != y:
            return x, y
    return (a[len(b)] if len(a) > len(b) else None), (b[len(a)] if len(b) > len(a) else None)


CHECK = C08()
