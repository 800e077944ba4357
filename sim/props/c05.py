"""C05: a form accepted without errors holds only valid, correctly derived values."""
from .common import *


class C05(ModelCheck):

    id = 'C05'
    rule = ('a run counts when a fault fired or an operation ended clean with at least one value derived by a hook, '
            'default or constraint; runs are told apart by schedule, faults and the expected history')
    cfg = {
        'bad_p': 0.03, 'absent_p': 0.08, 'null_p': 0.04, 'acts_n': (0, 1), 'read_p': 0.2, 'opt_p': 0.7,
        'fields': (1, 4), 'forms': (1, 3), 'hook_p': 0.4,
    }
    runs = {'quick': 12000, 'thorough': 120000}

    def draw_op(self, d, rng):
        return d.map_op(hows=('map', 'map', 'ctor', 'raise'))

    def faults(self, plan, op, rng):
        place_mixed(plan, op, rng, 0.5)

    def compare(self, out, tid, i, op, x, y):
        a, b = x['out'], y['out']
        if b[0] == 'ok' and has_mark(b[2]):
            return out.violate('marker stored', diff('marker', tid, i, op, a[2:], b[2]))
        clean = [outcome_class(r) == 'clean' for r in (a, b)]
        if clean[1] and not clean[0]:
            return out.violate('accepted', diff('accepted', tid, i, op, a, b))
        if clean[0] and not clean[1]:
            return out.violate('rejected', diff('rejected', tid, i, op, a, b))
        if a[0] == b[0] == 'ok' and a[2] != b[2]:
            cls = 'values differ' if clean[0] else 'values differ in a form with errors'
            out.violate(cls, diff('values', tid, i, op, a[2], b[2]))

    def nontrivial(self, out, plan, expected, records):
        derived = any(e[0] in ('hook', 'factory') for recs in records for r in recs for e in r['events'])
        clean = any(outcome_class(r['out']) == 'clean' for recs in records for r in recs)
        out.nontrivial = bool(out.fired) or (derived and clean)


CHECK = C05()
