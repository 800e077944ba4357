"""
Reference model: an independent interpreter of schema plans.

It has no context stack: each step gets an immutable record of the surrounding variables, forms and
source position, and a form being mapped keeps the record of its own, so that a field that a hook
reads on demand is simply mapped there.
"""
import collections
import datetime
import decimal
import numbers
import re
import shlex
import time
import uuid

import iso8601

from .env import KINDS, MExc, seam
from . import dsl
from .values import decode


class Mark(object):

    def __init__(self, name):
        self.name = name

    def __repr__(self):
        return '<{0}>'.format(self.name)


NONE, ERROR, NOT_SET = Mark('NONE'), Mark('ERROR'), Mark('NOT_SET')
MARKS = {'NONE': NONE, 'ERROR': ERROR, 'NOT_SET': NOT_SET}
ABSENT = ('<absent>',)


def is_mark(v):
    return v is NONE or v is ERROR or v is NOT_SET


def source_error():
    return MExc('SourceError')


# cursors

class Cur(object):
    """A position in a source. `keys` from the root of its source."""

    parent = None
    keys = ()

    def exists(self):
        return self.value() is not NONE

    def is_null(self):
        return self.value() is None

    def native(self):
        return self.value()


def keys_text(keys):
    out = ''
    for i, key in enumerate(keys):
        if i == 0:
            out = str(key)
        elif isinstance(key, str):
            out += '.' + key
        else:
            out += '[{0}]'.format(key)
    return out


class PlainRoot(object):

    def __init__(self, data, kind, sid, strict=False, aliases=None, ignores=(), location=None, seams=False):
        self.data, self.kind, self.sid, self.strict = data, kind, sid, strict
        self.aliases, self.ignores, self.location, self.seams = aliases, ignores or (), location, seams


class Plain(Cur):

    def __init__(self, root, parent=None, key=None):
        self.root, self.parent, self.key = root, parent, key
        self.keys = parent.keys + (key,) if parent is not None else ()
        self.cache = ABSENT

    def child(self, key):
        return Plain(self.root, self, key)

    def loc(self):
        text = keys_text(self.keys)
        return '{0}:{1}'.format(self.root.location, text) if self.root.location else text

    def value(self):
        if self.parent is None:
            return self.root.data
        if self.cache is not ABSENT:
            return self.cache
        container = self.parent.value()
        if container is NONE:
            return NONE
        self.cache = self._json(container) if self.root.kind == 'json' else self._default(container, self.key)
        return self.cache

    def _item(self, container, key):
        try:
            return container[key]
        except (IndexError, KeyError, TypeError):
            return NONE
        except MExc as ex:
            if KINDS[ex.kind][2]:
                return NONE
            raise

    def _json(self, container):
        value = self._item(container, self.key)
        if value is not NONE or not isinstance(self.key, str) or '.' not in self.key:
            return value
        value = container
        for atom in self.key.split('.'):
            value = self._item(value, atom)
            if value is NONE:
                break
        return value

    def _one(self, container, atom):
        if list(self.keys) in [i.split('.') for i in self.root.ignores]:
            return NONE
        value = self._item(container, atom)
        if value is not NONE:
            return value
        if self.root.aliases and atom in self.root.aliases and len(self.keys) == 1:
            value = self._item(container, self.root.aliases[atom])
            if value is not NONE:
                return value
        if isinstance(atom, str):
            try:
                return getattr(container, atom)
            except (AttributeError, TypeError):
                return NONE
            except MExc as ex:
                if ex.kind in ('AttributeError', 'TypeError'):
                    return NONE
                raise
        return NONE

    def _default(self, container, key):
        if isinstance(key, str) and key.endswith('()'):
            value = self._one(container, key)
            if value is not NONE:
                return value
            value = self._default(container, key[:-2])
            if value is NONE:
                return value
            if not callable(value):
                raise MExc('TypeError')
            return value()
        value = self._one(container, key)
        if isinstance(key, str) and value is NONE:
            value = container
            for atom in key.split('.'):
                value = self._one(value, atom)
                if value is NONE:
                    break
        return value

    def _site(self, what):
        if self.root.seams:
            seam('{0}|{1}|{2}'.format(what, self.root.sid, '/'.join(str(k) for k in self.keys)))

    def mapping(self):
        self._site('m')
        value = self.value()
        if self.root.kind == 'json':
            if not isinstance(value, dict):
                raise source_error()
            return list(value.keys())
        if isinstance(value, dict):
            if self.root.aliases and not self.keys:
                return list(self.root.aliases)
            return list(value.keys())
        if isinstance(value, (str, list, tuple)) and self.root.aliases and not self.keys:
            return list(self.root.aliases)
        raise source_error()

    def sequence(self):
        self._site('s')
        value = self.value()
        if isinstance(value, (list, tuple)) or (self.root.kind != 'json' and isinstance(value, (str, bytes))):
            return len(value)
        raise source_error()

    def primitive(self, kind=None):
        self._site('p')
        return convert(self.value(), kind, self.root.kind, self.root.strict)


def convert(v, kind, source, strict=False):
    """Conversion tables of the sources."""
    json = source == 'json'
    text, num = isinstance(v, str), isinstance(v, (int, float)) and not isinstance(v, bool)
    if kind is None:
        return v
    if kind == 'str':
        if text:
            return v
        if json and not strict:
            return str(v)
    elif kind == 'int':
        if isinstance(v, int) and num:
            return v
        if not strict:
            if isinstance(v, float) and v.is_integer():
                return int(v)
            if text:
                try:
                    return int(v)
                except ValueError:
                    pass
    elif kind == 'float':
        if isinstance(v, float):
            return v
        if isinstance(v, int):
            try:
                return float(v)
            except OverflowError:
                raise source_error()
        if text and not strict:
            try:
                return float(v)
            except ValueError:
                pass
    elif kind == 'bool':
        if isinstance(v, bool):
            return v
        if isinstance(v, int) and not strict:
            return v != 0
        if text and not json:
            if v.lower() in ('1', 't', 'true'):
                return True
            if v.lower() in ('0', 'f', 'false'):
                return False
    raise source_error()


class Gone(Cur):
    """Below an unknown mount point."""

    def __init__(self, keys=()):
        self.keys = keys

    def child(self, key):
        return Gone(self.keys + (key,))

    def value(self):
        return NONE

    def loc(self):
        return keys_text(self.keys)

    def mapping(self):
        raise source_error()

    sequence = mapping

    def primitive(self, kind=None):
        raise source_error()


class Mount(Cur):

    def __init__(self, roots):
        self.roots = roots

    def child(self, key):
        return Mounted(key, self.roots[key] if key in self.roots else Gone())

    def loc(self):
        return ''

    def value(self):
        return NONE

    def exists(self):
        return True

    def is_null(self):
        return False

    def mapping(self):
        return list(self.roots)

    def sequence(self):
        raise source_error()

    def primitive(self, kind=None):
        raise source_error()


class Mounted(Cur):

    def __init__(self, point, cur):
        self.point, self.cur = point, cur
        self.keys = (point,) + cur.keys

    def child(self, key):
        return Mounted(self.point, self.cur.child(key))

    def loc(self):
        if not self.cur.keys:
            return '@{0}'.format(self.point)
        return '@{0}:{1}'.format(self.point, self.cur.loc())

    def value(self):
        return self.cur.value()

    def exists(self):
        return self.cur.exists()

    def is_null(self):
        return self.cur.is_null()

    def native(self):
        return self.cur.native()

    def mapping(self):
        return self.cur.mapping()

    def sequence(self):
        return self.cur.sequence()

    def primitive(self, kind=None):
        return self.cur.primitive(kind)


# merged sources

def holds(cur, keys, key):
    while isinstance(cur, Mounted):
        cur = cur.cur
    if isinstance(cur, Cfg):
        # also what it has a default for
        return cur.child(key).exists()
    if isinstance(cur, Union) and isinstance(cur.node, MMapping):
        return any(holds(m, ks, key) for m, ks in cur.node.parts)
    return key in keys


def beyond(cfg, depth):
    """Whether a container that deep is taken from the first member that has it."""
    return cfg.get('depth') is not None and cfg['depth'] <= depth


class MMapping(object):

    def __init__(self, cfg, members, merge=None, depth=0):
        merge = merge or ('first' if beyond(cfg, depth) else cfg['mapping'])
        self.cfg, self.parts = cfg, []
        for m in members:
            if not m.exists():
                continue
            if merge == 'first':
                if not m.is_null():
                    self.parts = [(m, list(m.mapping()))]
                break
            if m.is_null():
                continue
            keys = list(m.mapping())
            if merge == 'last':
                self.parts = [(m, keys)]
            else:
                self.parts.append((m, keys))

    def keys(self):
        return list(collections.OrderedDict((k, 1) for _, ks in self.parts for k in ks))

    def child(self, key):
        members = [m.child(key) for m, keys in self.parts if holds(m, keys, key)]
        return Join(members) if members else NONE


class MSequence(object):

    def __init__(self, cfg, members, depth):
        self.parts = []
        merge = 'first' if beyond(cfg, depth) else cfg['sequence']
        for m in members:
            if not m.exists() or m.is_null():
                continue
            length = m.sequence()
            if not self.parts or merge == 'combine':
                self.parts.append((m, length))
            elif merge == 'last':
                self.parts = [(m, length)]

    def __len__(self):
        return sum(n for _, n in self.parts)

    def child(self, key):
        if not isinstance(key, int):
            return NONE
        for m, n in self.parts:
            if key < n:
                return Join([m.child(key)])
            key -= n
        return NONE


class Join(object):

    def __init__(self, members):
        self.members = members


class Union(Cur):

    def __init__(self, cfg, members=None, parent=None, key=None):
        self.cfg, self.parent, self.key = cfg, parent, key
        self.keys = parent.keys + (key,) if parent is not None else ()
        self.node = ABSENT
        if parent is None:
            self.node = MMapping(cfg, members, 'combine')

    def child(self, key):
        return Union(self.cfg, None, self, key)

    def loc(self):
        return keys_text(self.keys)

    def value(self):
        if self.node is ABSENT:
            above = self.parent.value()
            if above is NONE:
                return NONE
            self.node = above.child(self.key) if isinstance(above, (MMapping, MSequence)) else NONE
        return self.node

    def is_null(self):
        v = self.value()
        return v is None or (isinstance(v, (MMapping, MSequence)) and not v.parts)

    def mapping(self):
        if isinstance(self.value(), Join):
            self.node = MMapping(self.cfg, self.node.members, depth=len(self.keys))
        if isinstance(self.value(), MMapping):
            return self.node.keys()
        raise source_error()

    def sequence(self):
        if isinstance(self.value(), Join):
            self.node = MSequence(self.cfg, self.node.members, len(self.keys))
        if isinstance(self.value(), MSequence):
            return len(self.node)
        raise source_error()

    def primitive(self, kind=None):
        if isinstance(self.value(), Join):
            self.node = self.node.members[0].primitive(kind)
        return self.value()


# configuration text

class Cfg(Cur):
    """`sections`: {name: [[option, value], ...]}"""

    def __init__(self, cfg, parent=None, key=None):
        self.cfg, self.parent, self.key = cfg, parent, key
        self.keys = parent.keys + (key,) if parent is not None else ()

    def child(self, key):
        return Cfg(self.cfg, self, key)

    def loc(self):
        parts = []
        if self.cfg.get('location'):
            parts.append(self.cfg['location'])
        if self.cfg.get('section'):
            parts.append('[{0}]'.format(self.cfg['section']))
        return ':'.join(parts + [keys_text(self.keys)])

    def _section(self, name):
        # mappings spelled as options come first, and before an option of that name
        groups, plain = collections.OrderedDict(), collections.OrderedDict()
        for option, value in self.cfg['sections'][name]:
            m = re.match(r'(\w+)\[([\w.-]+)\]$', option)
            if m:
                groups.setdefault(m.group(1), {})[m.group(2)] = value
            plain[option] = value
        for option, value in plain.items():
            groups.setdefault(option, value)
        return groups

    def value(self):
        if self.parent is None:
            if self.cfg.get('section'):
                return self._section(self.cfg['section'])
            return {name: self._section(name) for name in self.cfg['sections']}
        above = self.parent.value()
        if above is NONE:
            return NONE
        if isinstance(above, str):
            above = cfg_sequence(above)
        try:
            return above[self.key]
        except (KeyError, IndexError, TypeError):
            pass
        defaults = self.cfg.get('defaults') or {}
        if self.cfg.get('section'):
            if len(self.keys) == 1:
                return defaults.get(self.key, NONE)
        elif len(self.keys) == 2:
            return (defaults.get(self.keys[0]) or {}).get(self.key, NONE)
        return NONE

    def mapping(self):
        if isinstance(self.value(), dict):
            return list(self.value())
        raise source_error()

    def sequence(self):
        if isinstance(self.value(), str):
            return len(cfg_sequence(self.value()))
        raise source_error()

    def primitive(self, kind=None):
        return convert(self.value(), kind, 'config')


def cfg_sequence(text):
    if '\n' in text:
        return [line.strip() for line in text.splitlines() if line.strip()]
    return shlex.split(text)


# mapping

class C(object):
    """What surrounds a step."""

    names = ('vars', 'forms', 'cur', 'errors', 'field', 'outer', 'pushed')

    def __init__(self, vars, forms, cur, errors, field, outer=None, pushed=None):
        self.vars, self.forms, self.cur, self.errors, self.field = vars, forms, cur, errors, field
        # block that surrounds the innermost one that a client has open, and what that one has set
        self.outer, self.pushed = outer, pushed

    def but(self, **kwargs):
        values = [kwargs.get(n, getattr(self, n)) for n in C.names]
        return C(*values)

    def push(self, key):
        return self.but(cur=self.cur.child(key))

    def setvars(self, vars):
        new = dict(self.vars)
        new.update(vars)
        return self.but(vars=new)

    def missing(self):
        self.errors.append(('missing', self.cur.loc(), self.field['n']))

    def invalid(self):
        self.errors.append(('invalid', self.cur.loc(), self.field['n']))


class Raising(list):
    """Collector that ends the operation at the first error."""

    def append(self, error):
        list.append(self, error)
        ex = MExc('FormError')
        ex.errors = list(self)
        raise ex


class Vars(object):
    """The context read as a source."""

    def __init__(self, vars):
        self.__dict__.update(vars)


class MForm(dict):
    """A form instance."""

    def __init__(self, name):
        self.sim_form = name
        self.mapping = None       # its C while being mapped
        self.mapped = None        # results by field while being mapped
        self.parent_link = ABSENT
        self.src = None           # spec of what fields are read from on demand, outside of a mapping


class Handle(object):
    """What a hook sees (see dsl.py)."""

    NONE, ERROR = NONE, ERROR

    def __init__(self, model, c, form):
        self.model, self.c, self.form = model, c, form

    def loc(self):
        return self.c.cur.loc() if self.c.cur is not None else 'None'

    def forms(self):
        return list(self.c.forms)

    def form_name(self, form):
        return form.sim_form

    def read(self, form, name):
        """-> (True, value) or (False, None) if there is none"""
        try:
            return True, self.model.read(self.c, form, name)
        except MExc as ex:
            if ex.kind == 'AttributeError' and ex.site is None:
                return False, None
            raise

    def has(self, form, name, how):
        return self.model.has(self.c, form, name, how)

    def getvar(self, name):
        return self.c.vars.get(name)

    def invalid(self):
        self.c.invalid()

    def primitive(self, kind):
        return self.c.cur.primitive(kind)

    def fail(self, kind):
        raise MExc(kind)

    def src(self, key):
        return key

    caught = MExc

    def describe(self, ex):
        return (ex.kind, ex.site)

    def inside(self, vars, reset, fn):
        saved = self.c
        self.c = self.c.but(cur=None) if reset else self.c.setvars(vars)
        try:
            return fn()
        finally:
            self.c = saved

    def map(self, form_name, source, how):
        out, _ = self.model.op_map(self.c, {'form': form_name, 'src': source, 'how': how})
        return out

    def other(self, form_name, field):
        form = MForm(form_name)
        try:
            return ('val', self.model.fp(self.model.read(self.c, form, field)))
        except MExc as ex:
            if ex.site is None and ex.kind in ('AttributeError', 'FormError'):
                return (ex.kind,)
            raise

    def other_has(self, form_name, field):
        return self.model.has(self.c, MForm(form_name), field, 'name')


class Model(object):

    def __init__(self, schema, env, sources, fp):
        """
        :param schema: a `schema.Schema`
        :param sources: callable giving the root cursor of a source spec
        """
        self.schema, self.env, self.sources, self.fp = schema, env, sources, fp

    def fields(self, form):
        name = form if isinstance(form, str) else form.sim_form
        if name.startswith('?'):
            return form.probe_fields
        return self.schema.fields(name)

    def top(self):
        return C({}, (), None, None, None)

    # fields

    def read(self, c, form, name):
        if name in form:
            return form[name]
        field = [f for f in self.fields(form) if f['n'] == name][0]
        if form.mapping is not None and any(f is form for f in c.forms):
            value = self.map_field(form.mapping, form, field)
        else:
            src = None if c.forms else form.src
            inner = c.but(forms=c.forms + (form,), errors=Raising(), cur=self.sources(src, self, form))
            saved, form.mapping, form.mapped = (form.mapping, form.mapped), inner, None
            try:
                value = self.map_one(inner, field)
            finally:
                form.mapping, form.mapped = saved
        if is_mark(value):
            raise MExc('AttributeError')
        form[name] = value
        return value

    def has(self, c, form, name, how):
        if how == 'name':
            if name in form:
                return True
            if not any(f['n'] == name for f in self.fields(form)):
                return False
        try:
            return self.read(c, form, name) is not None
        except MExc as ex:
            if ex.site is None and ex.kind in ('AttributeError', 'FormError'):
                return False
            if ex.kind in ('KeyError', 'IndexError'):
                # a lookup that fails, also in a hook: there is none
                return False
            raise

    def map_field(self, c, form, field):
        if form.mapped is None:
            return self.map_one(c, field)
        if field['n'] not in form.mapped:
            form.mapped[field['n']] = self.map_one(c, field)
        return form.mapped[field['n']]

    def map_one(self, c, f, value=NONE):
        value = self.pipeline(c.but(field=f), f, value)
        if f['o'].get('attach_parent') and isinstance(value, MForm):
            value.parent_link = c.forms[-1] if c.forms else None
        return value

    def hook(self, c, f, name, *args):
        spec = f['h'].get(name)
        if spec['id'].endswith(':const'):
            return decode(spec['ret'][1])
        return dsl.run(self.env, spec, Handle(self, c, c.forms[-1] if c.forms else None), *args)

    def pipeline(self, c, f, value):
        h = f['h']
        given = value is not NONE
        if not given:
            if 'resolve' in h:
                key = self.hook(c, f, 'resolve')
                if key is not None:
                    c = c.push(key)
            elif f.get('from_ctx'):
                c = c.but(cur=Plain(PlainRoot(Vars(c.vars), 'default', 'none')).child(f['src']))
            elif f['k'] != 'group' and f.get('src') is not None:
                c = c.push(f['src'])
            if 'fmt' in f:
                value = self.format(c, f)
            elif 'compute' in h:
                value = self.hook(c, f, 'compute')
            else:
                value = self.compute(c, f)
            if value is NONE:
                if 'default' in h and 'default' not in f['o'] and not f['o'].get('optional'):
                    return self.hook(c, f, 'default')
                return self.default(c, f)
            if is_mark(value):
                return value
        if f['o'].get('translate'):
            table = decode({'$pairs': f['o']['translate']})
            if value in table:
                value = table[value]
        if f['o'].get('cap') and value is not None:
            value = self.captured(f, value)
        if 'munge' in h:
            value = self.hook(c, f, 'munge', value)
        if value is NONE:
            return self.default(c, f)
        if is_mark(value):
            return value
        if f['o'].get('ignore') and value in [decode(v) for v in f['o']['ignore']]:
            return self.default(c, f)
        if 'filter' in h and not self.hook(c, f, 'filter', value):
            return self.default(c, f)
        if not self.validate(c, f, value):
            return ERROR
        if 'validate' in h and not self.hook(c, f, 'validate', value):
            return ERROR
        return value

    def captured(self, f, value):
        pattern, group = f['o']['cap']
        m = re.match(pattern, value)
        if m is None:
            return NONE
        group = group or f['n']
        if group is not None and group in m.groupdict():
            return m.group(group)
        return m.group(1) if m.groups() else NONE

    def patterned(self, c, f):
        m = re.match(f['o']['pat'], c.cur.primitive('str'))
        if m is None:
            raise MExc('ValueError')
        return m.group(0)

    def format(self, c, f):
        values = {}
        for name, source in f['fmt'][1]:
            try:
                values[name] = self.read(c, c.forms[-1], source)
            except MExc as ex:
                if ex.kind != 'AttributeError' or ex.site is not None:
                    raise
                c.invalid()
                return ERROR
        return f['fmt'][0].format(**values)

    def default(self, c, f):
        o = f['o']
        if c.vars.get('ignore_default'):
            if not c.vars.get('ignore_missing'):
                c.missing()
            return NOT_SET
        if 'default' in o:
            d = o['default']
            if isinstance(d, dict) and '$fac' in d:
                return dsl.factory(self.env, d['$fac'], NONE)
            if isinstance(d, dict) and '$none' in d:
                return NONE
            return decode(d)
        if o.get('optional'):
            return NONE
        if 'default' in f['h']:
            return self.hook(c, f, 'default')
        if f['k'] == 'group':
            return []
        if f['k'] == 'type' and f.get('tk') != 'abstract':
            # the instance default of type fields
            return f['idents'][0] if len(f['idents']) == 1 else NONE
        if not c.vars.get('ignore_missing'):
            c.missing()
        return NOT_SET

    def compute(self, c, f):
        try:
            if not c.cur.exists():
                return NONE
            if c.cur.is_null():
                return None
            if 'parse' in f['h']:
                return self.hook(c, f, 'parse', c.cur)
            return getattr(self, 'parse_' + f['k'])(c, f)
        except MExc as ex:
            if not KINDS[ex.kind][1]:
                raise
        except ValueError:
            pass
        c.invalid()
        return ERROR

    # kinds

    def parse_any(self, c, f):
        return c.cur.primitive(None)

    def parse_str(self, c, f):
        return c.cur.primitive('str')

    parse_type = parse_str

    def parse_int(self, c, f):
        if f['o'].get('pat'):
            return int(self.patterned(c, f))
        return c.cur.primitive('int')

    def parse_float(self, c, f):
        if f['o'].get('pat'):
            return float(self.patterned(c, f))
        return c.cur.primitive('float')

    def parse_bool(self, c, f):
        return c.cur.primitive('bool')

    def parse_dec(self, c, f):
        v = c.cur.native()
        if isinstance(v, decimal.Decimal):
            return v
        if isinstance(v, numbers.Number):
            return decimal.Decimal(v)
        v = c.cur.primitive('str')
        try:
            return decimal.Decimal(v)
        except decimal.InvalidOperation:
            raise MExc('ValueError')

    def parse_date(self, c, f):
        v = c.cur.native()
        if isinstance(v, datetime.datetime):
            return v.date()
        if isinstance(v, datetime.date):
            return v
        v = c.cur.primitive('str')
        formats = f['o'].get('format')
        for spec in formats if isinstance(formats, list) else [formats] if formats else []:
            try:
                if spec == 'iso8601':
                    return iso8601.parse_date(v).date()
                return datetime.datetime.strptime(v, spec).date()
            except ValueError:
                pass
        raise MExc('ValueError')

    def parse_datetime(self, c, f):
        v = c.cur.native()
        if isinstance(v, datetime.datetime):
            return v
        v = c.cur.primitive('str')
        spec = f['o'].get('format')
        if spec == 'iso8601':
            return iso8601.parse_date(v)
        if spec is None:
            raise MExc('ValueError')
        return datetime.datetime.strptime(v, spec)

    def parse_time(self, c, f):
        v = c.cur.native()
        if isinstance(v, (time.struct_time, datetime.time)):
            return v
        v = c.cur.primitive('str')
        if f['o'].get('format') is None:
            raise MExc('ValueError')
        return time.strptime(v, f['o']['format'])

    def parse_uuid(self, c, f):
        v = c.cur.primitive(None)
        if isinstance(v, uuid.UUID):
            return v
        return uuid.UUID(c.cur.primitive('str'))

    def parse_list(self, c, f):
        try:
            n = c.cur.sequence()
        except MExc as ex:
            if ex.kind != 'SourceError' or not f['o'].get('allow_field'):
                raise
            value = self.map_one(c, f['item'])
            return value if is_mark(value) else [value]
        out = []
        for i in range(n):
            value = self.map_one(c.push(i), f['item'])
            if not is_mark(value):
                out.append(value)
        return out

    def parse_tuple(self, c, f):
        n = c.cur.sequence()
        if n != len(f['items']):
            raise MExc('ValueError')
        out = []
        for i, item in enumerate(f['items']):
            value = self.map_one(c.push(i), item)
            if not is_mark(value):
                out.append(value)
        return tuple(out)

    def parse_dict(self, c, f, taken=None):
        out = {}
        for key in c.cur.mapping():
            if taken is not None and key in taken:
                continue
            if 'key_filter' in f['h'] and not self.hook(c, f, 'key_filter', key):
                continue
            value = self.map_one(c.push(key), f['val'])
            if is_mark(value):
                continue
            key = self.map_one(c, f['key'], key)
            if is_mark(key):
                continue
            out[key] = value
        for key in taken or ():
            # a converted key is no way to a field
            out.pop(key, None)
        return out

    def parse_group(self, c, f):
        out, hits = [], 0
        for key in c.cur.mapping():
            for entry in f['group']:
                src, field = entry[:2]
                if isinstance(src, dict):
                    m = re.match(src['re'], key) if isinstance(key, str) else None
                    if m is None:
                        continue
                elif src == key:
                    m = None
                else:
                    continue
                hits += 1
                value = self.map_one(c.push(key), field)
                if not is_mark(value):
                    out.append((key, m, value))
                break
        return out if hits else NONE

    def nested(self, c, f, name):
        form = MForm(name)
        errors = []
        inner = c.but(errors=errors)
        self.map_form(inner, form, c.vars.get('tags'), f['o'].get('unmapped', 'ignore'))
        c.errors.extend(errors)
        return ERROR if errors else form

    def parse_sub(self, c, f):
        return self.nested(c, f, f['form'])

    def parse_poly(self, c, f):
        base, ident_field = f['base'], f['ident']
        identity = self.probe(c, base, ident_field, c.cur.native())
        if identity is None:
            return NONE
        name = self.schema.identities(base, ident_field).get(identity)
        if name is None:
            raise MExc('ValueError')
        return self.nested(c, f, name)

    def cast(self, c, base, ident_field, value):
        identity = self.probe(c, base, ident_field, value)
        name = self.schema.identities(base, ident_field).get(identity)
        if name is None:
            raise MExc('ValueError')
        return name

    def probe(self, c, base, ident_field, value):
        probe = MForm('?probe')
        probe.probe_fields = []
        for pf in self.schema.fields(base):
            probe.probe_fields.append(pf)
            if pf['n'] == ident_field:
                break
        errors = []
        cur = self.as_source(value, probe)
        self.map_form(c.but(cur=cur, errors=errors), probe, c.vars.get('tags'), 'ignore')
        if errors:
            raise MExc('ValueError')
        return self.read(c, probe, ident_field)

    def as_source(self, value, form):
        if value is None:
            value = {}
        if isinstance(value, dict):
            return Plain(PlainRoot(value, 'default', 'none'))
        if isinstance(value, (list, tuple)):
            return Plain(PlainRoot(value, 'default', 'none', aliases=self.aliases(form)))
        raise MExc('ValueError')

    def aliases(self, form):
        return collections.OrderedDict((f['n'], i) for i, f in enumerate(self.fields(form)))

    # constraints

    def validate(self, c, f, v):
        o = f['o']
        nullable = o['nullable'] if 'nullable' in o else True
        if 'default' in o and o['default'] is None:
            nullable = True
        ok = True
        if v is None:
            ok = bool(nullable)
        elif f['k'] in ('str', 'type'):
            choices = o.get('choices')
            if f['k'] == 'type':
                choices = f['idents'] if f.get('tk') != 'abstract' else None
            if o.get('alphabet') and any(ch not in o['alphabet'] for ch in v):
                ok = False
            elif o.get('minlen') is not None and len(v) < o['minlen']:
                ok = False
            elif o.get('maxlen') is not None and len(v) > o['maxlen']:
                ok = False
            elif o.get('pattern') and not re.match(o['pattern'], v):
                ok = False
            elif choices and v not in choices:
                if v not in list(decode({'$pairs': o.get('translate') or []}).values()):
                    ok = False
        elif f['k'] in ('int', 'float', 'dec'):
            lo, hi = decode(o.get('min')), decode(o.get('max'))
            nan = v.is_nan() if isinstance(v, decimal.Decimal) else v != v
            if nan and not (lo is None and hi is None):
                ok = False
            elif lo is not None and v < lo:
                ok = False
            elif hi is not None and v > hi:
                ok = False
        elif f['k'] in ('date', 'datetime', 'time'):
            lo, hi = decode(o.get('after')), decode(o.get('before'))
            try:
                ok = not (lo is not None and v < lo or hi is not None and v > hi)
            except TypeError:
                ok = False
        elif f['k'] == 'list':
            if o.get('minlen') is not None and len(v) < o['minlen']:
                ok = False
            elif o.get('maxlen') is not None and len(v) > o['maxlen']:
                ok = False
        elif f['k'] == 'dict':
            if o.get('required_keys') and set(o['required_keys']) - set(v):
                ok = False
            elif o.get('max_keys') and len(v) > o['max_keys']:
                ok = False
        if not ok:
            c.invalid()
        return ok

    # forms

    def reset(self, form, tags):
        for f in self.fields(form):
            if tags and not set(tags) & set(f['o'].get('tags') or ()):
                continue
            form.pop(f['n'], None)

    def map_form(self, c, form, tags, unmapped):
        c.cur.mapping()
        inner = c.but(forms=c.forms + (form,))
        saved, form.mapping, form.mapped = (form.mapping, form.mapped), inner, {}
        try:
            for f in self.fields(form):
                if tags and not set(tags) & set(f['o'].get('tags') or ()):
                    continue
                value = self.map_field(inner, form, f)
                if not is_mark(value):
                    form[f['n']] = value
            if unmapped != 'ignore':
                rest = dict({'n': None, 'k': 'dict', 'h': {}, 'o': {}, 'key': simple('str'), 'val': simple('any')},
                            **(unmapped if isinstance(unmapped, dict) else {}))
                taken = [f['n'] for f in self.fields(form) if f['n'] in form]
                value = self.pipeline_capture(inner.but(field=rest), rest, taken)
                if value is not None and not is_mark(value):
                    form.update(value)
        finally:
            form.mapping, form.mapped = saved

    def pipeline_capture(self, c, f, taken):
        try:
            if not c.cur.exists():
                return NONE
            if c.cur.is_null():
                return None
            return self.parse_dict(c, f, taken=taken)
        except MExc as ex:
            if not KINDS[ex.kind][1]:
                raise
        c.invalid()
        return ERROR

    # operations

    def op_map(self, c, op, form=None):
        """
        -> outcome, form instance. Exceptions other than FormError are raised.
        """
        how = op.get('how', 'map')
        form = form if form is not None else MForm(op['form'])
        tags, unmapped = c.vars.get('tags'), 'ignore'
        if how != 'ctor':
            tags, unmapped = op.get('tags') or tags, op.get('unmapped') or 'ignore'
            if op.get('reset'):
                self.reset(form, tags)
        errors = Raising() if how == 'raise' else []
        nested = how != 'ctor' and op['src'] is None and c.cur is not None
        cur = c.cur if nested else self.sources(op['src'], self, form)
        try:
            self.map_form(c.but(cur=cur, errors=errors), form, tags, unmapped)
            if nested and c.errors is not None:
                c.errors.extend(errors)
        except MExc as ex:
            if ex.kind == 'FormError' and how == 'raise':
                return ('raised',), form
            if ex.kind == 'FormError' and how == 'ctor':
                return ('formerror', sorted(ex.errors, key=repr)), form
            raise
        if how == 'ctor' and errors:
            return ('formerror', sorted(errors, key=repr)), form
        if how == 'raise':
            return ('raised',) if errors else ('ok', [], self.fp(form)), form
        return ('ok', sorted(errors, key=repr), self.fp(form)), form


def simple(kind):
    return {'n': None, 'k': kind, 'h': {}, 'o': {}}
