"""C04: read and parse failures become exactly one located error; others escape."""
from .common import *
from .. import gen


class C04(ModelCheck):

    id = 'C04'
    rule = ('a run counts when at least one fault fired or one operation did not end clean; runs are told apart by '
            'schedule, faults and the expected history')
    cfg = {'bad_p': 0.15, 'absent_p': 0.15, 'acts_n': (0, 1), 'read_p': 0.15}
    runs = {'quick': 12000, 'thorough': 120000}

    def faults(self, plan, op, rng):
        place_mixed(plan, op, rng, 0.75)

    def compare(self, out, tid, i, op, x, y):
        a, b = x['out'], y['out']
        if a[0] != b[0]:
            return out.violate('other outcome', diff('outcome', tid, i, op, a[:2], b[:3]))
        if a[0] == 'exc':
            if a != b:
                out.violate('another exception escaped', diff('escaped', tid, i, op, a, b))
            return
        if a[0] in ('ok', 'formerror') and a[1] != b[1]:
            out.violate('errors differ', diff('errors', tid, i, op, a[1], b[1]))
        elif a[0] == 'ok' and form_names(a[2]) != form_names(b[2]):
            out.violate('other fields mapped', diff('fields', tid, i, op, form_names(a[2]), form_names(b[2])))


CHECK = C04()
