"""JSON encodings of input values and fingerprints of results."""
import datetime
import decimal
import time
import uuid


def decode(v):
    """Plan value -> plain python value (no seams)."""
    if isinstance(v, dict):
        if len(v) == 1:
            (k, x), = v.items()
            if k == '$dec':
                return decimal.Decimal(x)
            if k == '$date':
                return datetime.date(*x)
            if k == '$dt':
                return datetime.datetime(*x)
            if k == '$dtz':
                return datetime.datetime(*x).replace(tzinfo=datetime.timezone.utc)
            if k == '$clock':
                return datetime.time(*x)
            if k == '$time':
                return time.strptime(x, '%H:%M')
            if k == '$uuid':
                return uuid.UUID(x)
            if k == '$float':
                return float(x)
            if k == '$tuple':
                return tuple(decode(i) for i in x)
            if k == '$call':
                return Call(decode(x))
            if k == '$obj':
                return Obj({n: decode(i) for n, i in x.items()})
            if k == '$pairs':
                return {decode(a): decode(b) for a, b in x}
        return {k: decode(x) for k, x in v.items()}
    if isinstance(v, list):
        return [decode(x) for x in v]
    return v


class Call(object):
    """A callable in the source data (before it gets its seam)."""

    def __init__(self, value):
        self.value = value


class Obj(object):
    """An object in the source data, read by attribute (before it gets its seam)."""

    def __init__(self, attrs):
        self.attrs = attrs


MARKS = {}       # id -> (object, name), of every live instance of the package
MARK_TEXTS = set()


def register_marks(names):
    for name, obj in names.items():
        MARKS[id(obj)] = (obj, name)
        MARK_TEXTS.add(str(obj))


def forget_marks():
    MARKS.clear()


def fp(v):
    """Fingerprint of a value: plain nested tuples, equal iff the values are the same."""
    if v is None or isinstance(v, bool):
        return v
    if isinstance(v, int):
        return ('i', int(v))
    if isinstance(v, str):
        return str(v)
    if isinstance(v, float):
        return ('f', repr(v))
    if isinstance(v, decimal.Decimal):
        return ('dec', str(v))
    if isinstance(v, datetime.datetime):
        return ('dt', v.isoformat())
    if isinstance(v, datetime.date):
        return ('date', v.isoformat())
    if isinstance(v, datetime.time):
        return ('t', v.isoformat())
    if isinstance(v, time.struct_time):
        return ('time',) + tuple(v)[:6]
    if isinstance(v, uuid.UUID):
        return ('uuid', str(v))
    m = MARKS.get(id(v))
    if m is not None and m[0] is v:
        return ('MARK', m[1])
    if isinstance(v, dict):
        items = tuple(sorted(((str(k), fp(k), fp(x)) for k, x in v.items()), key=lambda i: (i[0], str(i[1]))))
        name = getattr(v, 'sim_form', None)
        if name is None and isinstance(getattr(type(v), 'fields', None), list):
            name = type(v).__name__
        if name is not None:
            return ('form', name, items)
        return ('dict', items)
    if isinstance(v, tuple):
        return ('tuple',) + tuple(fp(x) for x in v)
    if isinstance(v, list):
        return ('list',) + tuple(fp(x) for x in v)
    if hasattr(v, 'groups') and hasattr(v, 'pos'):
        return ('match', v.group(0), v.groups())
    if isinstance(v, type):
        return ('class', v.__name__)
    # the model has the same containers under another name
    return ('other', {'MMapping': 'Mapping', 'MSequence': 'Sequence'}.get(type(v).__name__, type(v).__name__))


def has_mark(f):
    """Whether a fingerprint contains a marker for a missing or failed value, or the text of one."""
    if isinstance(f, tuple):
        if f and f[0] == 'MARK':
            return True
        return any(has_mark(x) for x in f)
    return isinstance(f, str) and any(t in f for t in MARK_TEXTS)


def jsonable(x):
    if isinstance(x, (tuple, list)):
        return [jsonable(i) for i in x]
    if isinstance(x, dict):
        return {str(k): jsonable(v) for k, v in x.items()}
    if x is None or isinstance(x, (bool, int, float, str)):
        return x
    return repr(x)
