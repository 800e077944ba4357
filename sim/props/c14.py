"""C14: hooks and default factories run exactly when needed, once, and in order."""
from .common import *


class C14(ModelCheck):

    id = 'C14'
    rule = ('a run counts when a hook or default factory ran; runs are told apart by schedule, faults and the '
            'expected history')
    cfg = {
        'hook_p': 0.8, 'acts_n': (0, 2), 'read_p': 0.3, 'factory_p': 0.4, 'bad_p': 0.08, 'absent_p': 0.2,
        'opt_p': 0.6, 'forms': (1, 3), 'acts': {'read': 6, 'map': 1, 'push': 1, 'loc': 1},
        'hook_kinds': {'compute': 2, 'resolve': 1, 'parse': 3, 'default': 4, 'munge': 4, 'filter': 4, 'validate': 4},
    }
    ops = (1, 4)
    runs = {'quick': 12000, 'thorough': 120000}

    def draw_op(self, d, rng):
        return (d.read_op() if rng.random() < 0.15 else None) or d.map_op()

    def draw_ops(self, d, rng):
        return d.grown(super(C14, self).draw_ops(d, rng), 0.3)

    def faults(self, plan, op, rng):
        place_mixed(plan, op, rng, 0.45)

    def compare(self, out, tid, i, op, x, y):
        a, b = groups(x['events']), groups(y['events'])
        if x['out'][0] == 'exc' and y['out'] == x['out']:
            # each hook that ran did so in order and once; how far the operation had got is compared too
            pass
        if a != b:
            for key in list(a) + list(b):
                if a.get(key) != b.get(key):
                    return out.violate(
                        'calls differ', diff('calls of {0}'.format(key), tid, i, op, a.get(key), b.get(key)))
        if op['op'] == 'map' and x['out'][0] == 'ok' == y['out'][0] and x['out'][2] != y['out'][2]:
            # clock readings and identifiers are in the values
            out.violate('values differ', diff('values', tid, i, op, x['out'][2], y['out'][2]))
        if op['op'] in ('read', 'set', 'del', 'grow') and (x['out'], x['inst']) != (y['out'], y['inst']):
            out.violate('values differ', diff('values', tid, i, op, (x['out'], x['inst']), (y['out'], y['inst'])))

    def nontrivial(self, out, plan, expected, records):
        out.nontrivial = any(e[0] in ('hook', 'factory') for recs in records for r in recs for e in r['events'])


CHECK = C14()
