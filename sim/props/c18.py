"""C18: captured input and group entries are complete, in order and convey what the input holds."""
from .common import *


class C18(ModelCheck):

    id = 'C18'
    rule = ('a run counts when a mapping captured unmapped input or filled a group; runs are told apart by schedule, '
            'faults and the expected history')
    cfg = {
        'forms': (1, 3), 'fields': (1, 4), 'hook_p': 0.2, 'acts_n': (0, 1), 'bad_p': 0.1, 'absent_p': 0.25,
        'kinds': {'group': 8, 'sub': 6, 'poly': 2, 'int': 4, 'str': 3}, 'unmapped_p': 0.5, 'odd_p': 0.3, 'src_p': 0.3,
        'tags': True, 'inherit_p': 0.2,
    }
    ops = (1, 4)
    runs = {'quick': 8000, 'thorough': 120000}

    def draw_op(self, d, rng):
        op = d.map_op(hows=('map', 'map', 'map', 'raise', 'ctor'))
        if op['how'] == 'ctor':
            return op
        op.pop('unmapped', None)
        if rng.random() < 0.8:
            op['unmapped'] = d.gen.unmapped(op['form'])
        if rng.random() < 0.5:
            # one form, mapped again
            op['inst'] = 'i.' + op['form']
            if rng.random() < 0.3:
                op['reset'] = True
        if rng.random() < 0.2:
            op['tags'] = rng.sample(['t0', 't1', 't2'], 1)
        return op

    def faults(self, plan, op, rng):
        r = rng.random()
        if r < 0.35:
            place(plan, op, rng, envs.CAUGHT, rng.choice([1, 1, 2]), prefer='rkmps')
        elif r < 0.5:
            place(plan, op, rng, envs.ABSENT, 1, prefer='r')
        elif r < 0.6:
            place(plan, op, rng, envs.ESCAPING, 1)

    def compare(self, out, tid, i, op, x, y):
        a, b = x['out'], y['out']
        if a[0] != b[0]:
            return out.violate('another outcome', diff('outcome', tid, i, op, a, b))
        if a[0] == 'ok' and a[2] != b[2]:
            return out.violate('other contents', diff('contents', tid, i, op, a[2], b[2]))
        if x.get('inst') != y.get('inst') and a[0] == 'ok':
            return out.violate('other contents', diff('instance', tid, i, op, x.get('inst'), y.get('inst')))
        if a[0] in ('ok', 'formerror') and a[1] != b[1]:
            out.violate('other errors', diff('errors', tid, i, op, a[1], b[1]))

    def nontrivial(self, out, plan, expected, records):
        out.nontrivial = any(op.get('unmapped') for op in all_ops(plan['threads'])) or 'group' in repr(plan['schema'])


CHECK = C18()
