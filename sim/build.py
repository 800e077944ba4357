"""Builds pilo classes, sources and operations from plans, and runs them."""
import re

from . import dsl, env as envs, model, sched, values
from .values import decode, fp


class Schema(object):
    """
    Plan of form classes: {"order": [names], "forms": {name: {"base": name or null, "fields": [...]}}}
    """

    def __init__(self, plan):
        self.plan = plan
        self._fields = {}
        self._identities = {}

    def fields(self, name):
        """Fields in the order in which they are mapped."""
        if name not in self._fields:
            spec = self.plan['forms'][name]
            out = list(self.fields(spec['base'])) if spec.get('base') else []
            for field in spec['fields']:
                for i, old in enumerate(out):
                    if old['n'] == field['n']:
                        out[i] = field
                        break
                else:
                    out.append(field)
            self._fields[name] = out
        return self._fields[name]

    def has(self, form_name, field_name):
        return form_name in self.plan['forms'] and any(f['n'] == field_name for f in self.fields(form_name))

    def descends(self, name, base):
        while name:
            if name == base:
                return True
            name = self.plan['forms'][name].get('base')
        return False

    def identities(self, base, ident):
        """identity -> form name, over all the classes of a hierarchy"""
        key = (base, ident)
        if key not in self._identities:
            table = {}
            for name in self.plan['order']:
                if not self.descends(name, base):
                    continue
                for f in self.fields(name):
                    if f['n'] == ident and f.get('tk') != 'abstract':
                        for value in f['idents']:
                            table[value] = name
            self._identities[key] = table
        return self._identities[key]


def walk(field):
    """A field and those nested in it (not through sub-forms)."""
    yield field
    for name in ('item', 'key', 'val'):
        if name in field:
            for f in walk(field[name]):
                yield f
    for f in field.get('items', ()):
        for g in walk(f):
            yield g
    for entry in field.get('group', ()):
        for g in walk(entry[1]):
            yield g


# real side

class Handle(object):
    """What a hook sees (see dsl.py)."""

    def __init__(self, world, form):
        self.world, self.form = world, form
        pilo = world.pilo
        self.NONE, self.ERROR = pilo.NONE, pilo.ERROR
        self.caught = world.caught

    def loc(self):
        return str(self.world.ctx.src_path)

    def forms(self):
        return self.world.ctx.values_for('form')

    def form_name(self, form):
        return type(form).__name__

    def read(self, form, name):
        with self.checked('read'):
            try:
                return True, getattr(form, name)
            except AttributeError:
                return False, None

    def has(self, form, name, how):
        with self.checked('has'):
            return form.has(getattr(type(form), name) if how == 'field' else name)

    def getvar(self, name):
        return getattr(self.world.ctx, name, None)

    def invalid(self):
        self.world.ctx.errors.invalid('rejected by hook')

    def primitive(self, kind):
        types = {'str': (str,), 'int': (int,), 'float': (float,), 'bool': (bool,), None: ()}[kind]
        return self.world.ctx.src_path.primitive(*types)

    def fail(self, kind):
        if kind == 'SourceError':
            raise self.world.pilo.SourceError(self.world.ctx.src_path, 'rejected by hook')
        raise envs.made(kind, 'rejected by hook')

    def src(self, key):
        return self.world.ctx(src=key)

    def describe(self, ex):
        return tuple(envs.current().identify(ex))

    def checked(self, what):
        env = envs.current()
        if env.ctxcheck is None:
            return _NOTHING
        return env.ctxcheck(self.world.ctx, what)

    def inside(self, vars, reset, fn):
        ctx = self.world.ctx
        with self.checked('reset' if reset else 'push'):
            with ctx.reset() if reset else ctx(**vars):
                if reset and (ctx.src is not None or ctx.src_path is not None):
                    raise RuntimeError('the outer source shows through')
                return fn()

    def map(self, form_name, source, how):
        with self.checked('map'):
            out, _ = self.world.op_map({'form': form_name, 'src': source, 'how': how})
            return out

    def other(self, form_name, field):
        form = self.world.classes[form_name]()
        with self.checked('other'):
            try:
                return ('val', fp(getattr(form, field)))
            except AttributeError:
                return ('AttributeError',)
            except self.world.pilo.fields.FormError:
                return ('FormError',)

    def other_has(self, form_name, field):
        form = self.world.classes[form_name]()
        with self.checked('has'):
            return form.has(field)


class _Nothing(object):
    def __enter__(self):
        return self

    def __exit__(self, *args):
        return False


_NOTHING = _Nothing()

_ARGS = {'compute': 0, 'resolve': 0, 'default': 0, 'parse': 1, 'munge': 1, 'filter': 1, 'validate': 1, 'key_filter': 1}


class _Classes(dict):

    def __missing__(self, name):
        raise sched.PlanError('no form {0}'.format(name))


class World(object):
    """One simulated process: an instance of the library with the classes and sources of a plan."""

    def __init__(self, pilo, plan, define=True):
        self.pilo = pilo
        self.ctx = pilo.ctx
        self.plan = plan
        self.schema = Schema(plan['schema']) if 'schema' in plan else None
        self.classes = _Classes()
        self.shared = {}        # shared source objects by name
        values.register_marks({'NONE': pilo.NONE, 'ERROR': pilo.ERROR, 'NOT_SET': pilo.NOT_SET})
        self.caught = tuple(
            k[0] for k in envs.KINDS.values() if k[0] is not None and k[0] is not AttributeError
        ) + (pilo.SourceError, pilo.fields.FormError)
        self.src_classes = self._src_classes()
        if define and self.schema:
            for name in plan['schema']['order']:
                self.define(name)

    def env(self):
        e = envs.Env(pilo=self.pilo)
        if self.schema:
            e.schema_has = self.schema.has
        return e

    # sources

    def _src_classes(self):
        pilo = self.pilo

        def keys(path):
            return '/'.join(str(part.key) for part in path)

        def seamed(base):

            class Seamed(base):

                sim_sid = ''

                def mapping(self, path):
                    envs.seam('m|{0}|{1}'.format(self.sim_sid, keys(path)))
                    return base.mapping(self, path)

                def sequence(self, path):
                    envs.seam('s|{0}|{1}'.format(self.sim_sid, keys(path)))
                    return base.sequence(self, path)

                def primitive(self, path, *types):
                    envs.seam('p|{0}|{1}'.format(self.sim_sid, keys(path)))
                    return base.primitive(self, path, *types)

            return Seamed

        return {'default': seamed(pilo.DefaultSource), 'json': seamed(pilo.source.JsonSource)}

    def source(self, spec):
        """Source spec -> what is given to Form.map"""
        if spec is None:
            return None
        if 'shared' in spec:
            name = spec['shared']
            if name not in self.shared:
                self.shared[name] = self.source(self.plan['sources'][name])
            return self.shared[name]
        kind = spec['kind']
        if kind == 'nothing':
            return None
        if kind == 'plain' or kind == 'seq':
            data = envs.wrap(decode(spec['data']), spec['sid'])
            return dict(dict.items(data)) if spec.get('kw') else data
        if kind == 'default':
            data = envs.wrap(decode(spec['data']), spec['sid'])
            src = self.src_classes['default'](
                data, ignores=spec.get('ignores'), location=spec.get('location'),
                aliases=spec.get('aliases'),
            )
            src.sim_sid = spec['sid']
            return src
        if kind == 'json':
            text, options = json_text(spec['data']), {}
            if spec.get('enc'):
                text, options = text.encode(spec['enc']), {'encoding': spec['enc']}
            src = self.src_classes['json'](
                text, strict=spec.get('strict', False), location=spec.get('location'), **options
            )
            src.sim_sid = spec['sid']
            return src
        if kind == 'mount':
            return self.pilo.source.MountSource(**{k: self.source(s) for k, s in spec['srcs'].items()})
        if kind == 'union':
            return self.pilo.UnionSource(
                [self.source(s) for s in spec['srcs']],
                merge=spec.get('merge', 'first'),
                mapping_merge=spec.get('mapping'), sequence_merge=spec.get('sequence'),
                **({'merge_depth': spec['depth']} if spec.get('depth') is not None else {})
            )
        if kind == 'config':
            return self.pilo.source.ConfigSource(
                config_text(spec['sections']), section=spec.get('section'),
                location=spec.get('location'), defaults=decode(spec.get('defaults')),
            )
        raise sched.PlanError('source {0}'.format(kind))

    def share(self):
        for name in self.plan.get('sources', ()):
            self.source({'shared': name})

    # classes

    def define(self, name):
        spec = self.schema.plan['forms'][name]
        members = {}
        for f in spec['fields']:
            members[f['n']] = self.override(f) if 'of' in f else self.field(f)
        base = self.classes[spec['base']] if spec.get('base') else self.pilo.Form
        cls = type(self.pilo.Form)(name, (base,), members)
        self.classes[name] = cls
        return cls

    def override(self, f):
        """A field of the base class, with a fixed value."""
        field = getattr(self.classes[f['of']], f['n']).constant(decode(f['h']['compute']['ret'][1]))
        more = f.get('more', {})
        for name in more.get('h', ()):
            getattr(field, name)(self.hook(name, f['h'][name]))
        field.tag(*more.get('tags', ()))
        field.ignore(*decode(more.get('ignore', [])))
        return field

    def options(self, f):
        o = f['o']
        out = {}
        for name in ('nullable', 'optional', 'attach_parent'):
            if name in o:
                out[name] = o[name]
        if 'default' in o:
            d = o['default']
            if isinstance(d, dict) and '$fac' in d:
                fname = d['$fac']
                out['default'] = lambda: dsl.factory(envs.current(), fname, self.pilo.NONE)
            elif isinstance(d, dict) and '$none' in d:
                out['default'] = self.pilo.NONE
            else:
                out['default'] = decode(d)
        if o.get('ignore') and len(o['ignore']) == 1:
            out['ignore'] = decode(o['ignore'][0])
        if o.get('tags') and not o.get('style'):
            tags = o['tags']
            out['tags'] = [tags, set(tags), {t: len(t) for t in tags}, tags[0]][len(tags) if len(tags) < 3 else 0]
            if len(tags) == 1:
                out['tags'] = tags[0]
        if o.get('translate') and not o.get('style'):
            out['translate'] = decode({'$pairs': o['translate']})
        return out

    def field(self, f):
        fields = self.pilo.fields
        o, k = f['o'], f['k']
        opts = self.options(f)
        args = [f['src']] if f.get('src') is not None and f.get('explicit', True) else []
        field = None
        if k in ('str', 'int', 'float', 'bool', 'dec', 'any', 'uuid', 'date', 'datetime', 'time'):
            cls = {
                'str': fields.String, 'int': fields.Integer, 'float': fields.Float, 'bool': fields.Boolean,
                'dec': fields.Decimal, 'any': fields.Field, 'uuid': fields.UUID, 'date': fields.Date,
                'datetime': fields.Datetime, 'time': fields.Time,
            }[k]
            if k == 'str':
                for name, opt in (
                    ('min_length', 'minlen'), ('max_length', 'maxlen'), ('pattern', 'pattern'),
                    ('alphabet', 'alphabet'), ('choices', 'choices'),
                ):
                    if o.get(opt) is not None:
                        opts[name] = o[opt]
                if o.get('style'):
                    if 'min_length' in opts and 'max_length' in opts:
                        opts['length'] = [opts.pop('min_length'), opts.pop('max_length')]
                    if 'pattern' in opts:
                        opts['pattern'] = re.compile(opts['pattern'])
                    if 'choices' in opts:
                        opts['choices'] = tuple(opts['choices'])
            if k in ('int', 'float', 'dec'):
                if o.get('range_option'):
                    opts['range'] = (decode(o.get('min')), decode(o.get('max')))
                elif o.get('style') and o.get('min') is not None and o.get('max') is not None:
                    field = cls(*args, **opts).range(decode(o['min']), decode(o['max']))
                elif o.get('style'):
                    for name in ('min', 'max'):
                        if o.get(name) is not None:
                            opts[name + '_value'] = decode(o[name])
                else:
                    field = cls(*args, **opts)
                    if o.get('min') is not None:
                        field.min(decode(o['min']))
                    if o.get('max') is not None:
                        field.max(decode(o['max']))
            elif k in ('date', 'datetime', 'time') and o.get('style'):
                field = cls(*args, **opts)
                if o.get('format'):
                    field = field.format(o['format'])
                if o.get('after') is not None and o.get('before') is not None:
                    field = field.between(decode(o['after']), decode(o['before']))
                elif o.get('after') is not None:
                    field = field.after(decode(o['after']))
                elif o.get('before') is not None:
                    field = field.before(decode(o['before']))
            elif k in ('date', 'datetime', 'time'):
                if o.get('format'):
                    opts['format'] = o['format']
                for name in ('after', 'before'):
                    if o.get(name) is not None:
                        opts[name] = decode(o[name])
            if field is None:
                field = cls(*args, **opts)
        elif k == 'code':
            field = fields.Code(*args, **opts)
        elif k == 'type':
            tk = f['tk']
            args = f['idents'] if tk != 'abstract' else []
            if f.get('src') is not None and f.get('explicit', True):
                opts['src'] = f['src']
            if tk == 'constant':
                field = fields.Type.constant(f['idents'][0])
            else:
                field = getattr(fields.Type, tk)(*args, **opts)
        elif k == 'list':
            item = self.field(f['item'])
            inner = f['item']
            if o.get('style') and inner['k'] == 'sub' and not (inner['o'] or inner['h'] or inner.get('flat')):
                item = self.classes[inner['form']]
            if o.get('style') and len(args) % 2 and item is not self.classes.get(inner.get('form')):
                opts['field'] = item
            else:
                args.append(item)
            for name, opt in (('min_length', 'minlen'), ('max_length', 'maxlen'), ('allow_field', 'allow_field')):
                if o.get(opt) is not None:
                    opts[name] = o[opt]
            if o.get('style') and 'min_length' in opts and 'max_length' in opts:
                opts['length'] = (opts.pop('min_length'), opts.pop('max_length'))
            elif o.get('style') and 'min_length' in opts:
                n = opts.pop('min_length')
                field = fields.List(*args, **opts).min(n)
            elif o.get('style') and 'max_length' in opts:
                n = opts.pop('max_length')
                field = fields.List(*args, **opts).max(n)
            if field is None:
                field = fields.List(*args, **opts)
        elif k == 'tuple':
            field = fields.Tuple(*(args + [[self.field(i) for i in f['items']]]), **opts)
        elif k == 'dict':
            if o.get('required_keys'):
                opts['required_keys'] = list(o['required_keys']) if o.get('style') else set(o['required_keys'])
            if o.get('max_keys'):
                opts['max_keys'] = o['max_keys']
            field = fields.Dict(self.field(f['key']), self.field(f['val']), *args, **opts)
        elif k == 'sub':
            if o.get('unmapped'):
                opts['unmapped'] = self.unmapped(o['unmapped'])
            if f.get('src') is None and f.get('flat'):
                opts['flat'] = True
            elif o.get('style'):
                opts['flat'] = False
            if o.get('style'):
                opts['reset'] = True
            field = fields.SubForm(self.classes[f['form']], *args, **opts)
        elif k == 'poly':
            if o.get('unmapped'):
                opts['unmapped'] = self.unmapped(o['unmapped'])
            if o.get('style'):
                opts['reset'] = True
            type_field = getattr(self.classes[f['base']], f['ident'])
            field = fields.PolymorphicSubForm(type_field, *args, **opts)
        elif k == 'group':
            group = []
            for entry in f['group']:
                src, item = entry[:2]
                if isinstance(src, dict):
                    src = re.compile(src['re'])
                if len(entry) > 2 and 'bare' in entry[2]:
                    group.append(self.field(dict(item, src=src)))
                else:
                    group.append((src, self.field(item)))
                if len(entry) > 2 and 'list' in entry[2]:
                    group[-1] = [group[-1]]
            field = fields.Group(*group, **opts)
        else:
            raise sched.PlanError('kind {0}'.format(k))
        if o.get('tags') and o.get('style'):
            field = field.tag(*o['tags'])
        elif o.get('tags'):
            field.tag(**{t: None for t in o['tags'] if not field.has_tag(t)})
        if o.get('ignore') and len(o['ignore']) > 1:
            field = field.ignore(*decode(o['ignore']))
        if o.get('translate') and o.get('style'):
            field = field.translate(decode({'$pairs': o['translate']}))
        if o.get('cap'):
            field = field.capture(re.compile(o['cap'][0]) if o.get('style') else o['cap'][0], *o['cap'][1:])
        if o.get('pat'):
            field = field.pattern(re.compile(o['pat']) if o.get('style') else o['pat'])
        if f.get('flat') and k != 'sub':
            field.src = None
        for name, spec in f['h'].items():
            if k == 'type' and f['tk'] == 'constant' and name == 'compute':
                continue
            if spec['id'].endswith(':const'):
                field = field.constant(decode(spec['ret'][1]))
                continue
            getattr(field, name)(self.hook(name, spec))
        if 'fmt' in f:
            field = field.format(f['fmt'][0], **dict(f['fmt'][1]))
        if f.get('from_ctx'):
            field = field.from_context()
        return field

    def unmapped(self, spec):
        if not isinstance(spec, dict):
            return spec
        if 'key' not in spec:
            return self.field(spec['val'])
        return self.field(spec['key']), self.field(spec['val'])

    def hook(self, name, spec):
        world = self

        def run(form, *args):
            forms = world.ctx.values_for('form')
            if forms and forms[-1] is not form:
                # not the one it is mapped for
                envs.current().ev('given another form', spec['id'], type(form).__name__)
            return dsl.run(envs.current(), spec, Handle(world, form), *args)

        if name == 'parse':
            def hook(self, path):
                return run(self, path)
        elif name == 'key_filter':
            def hook(self, key):
                return run(self, key)
        elif _ARGS[name]:
            def hook(self, value):
                return run(self, value)
        else:
            def hook(self):
                return run(self)
        return hook

    # operations

    def errors(self, errors):
        """Comparable form of field errors."""
        out = []
        for e in errors:
            if isinstance(e, self.pilo.Missing):
                kind = 'missing'
            elif isinstance(e, self.pilo.Invalid):
                kind = 'invalid'
            else:
                kind = type(e).__name__
            name = getattr(e.field, 'name', None)
            loc = str(e.path)
            if loc not in str(e):
                loc = 'message without location: {0} / {1}'.format(loc, e)
            out.append((kind, loc, name))
        return sorted(out, key=repr)

    def op_map(self, op, form=None, src=None):
        """-> outcome, form instance; exceptions other than FormError propagate"""
        how = op.get('how', 'map')
        if src is None:
            src = self.source(op['src'])
        cls = self.classes[op['form']]
        FormError = self.pilo.fields.FormError
        if how == 'ctor':
            try:
                form = cls(**src) if op['src'].get('kw') else cls(src)
            except FormError as ex:
                return ('formerror', self.errors(ex.field_errors)), None
            return ('ok', [], fp(form)), form
        form = form if form is not None else cls()
        kwargs = {}
        for name in ('tags', 'reset', 'unmapped'):
            if op.get(name):
                kwargs[name] = op[name]
        if 'unmapped' in kwargs:
            kwargs['unmapped'] = self.unmapped(kwargs['unmapped'])
        if how == 'raise':
            try:
                form.map(src, error='raise', **kwargs)
            except FormError as ex:
                return ('raised',), form
            return ('ok', [], fp(form)), form
        errors = form.map(src, **kwargs)
        return ('ok', self.errors(errors), fp(form)), form


def json_text(data):
    import json
    return json.dumps(decode(data))


def config_text(sections):
    out = []
    for name, options in sections.items():
        out.append('[{0}]'.format(name))
        for option, value in options:
            out.append('{0} = {1}'.format(option, value.replace('\n', '\n    ')))
        out.append('')
    return '\n'.join(out)


def model_sources(plan):
    """Root cursors of the reference model."""
    def make(spec, m, form):
        if spec is None:
            return model.Plain(model.PlainRoot({}, 'default', 'none'))
        if 'shared' in spec:
            return make(plan['sources'][spec['shared']], m, form)
        kind = spec['kind']
        if kind == 'nothing':
            return model.Plain(model.PlainRoot(None, 'default', 'none'))
        if kind == 'plain':
            data = envs.wrap(decode(spec['data']), spec['sid'])
            if spec.get('kw'):
                # keywords of the constructor
                data = dict(dict.items(data))
            return model.Plain(model.PlainRoot(data, 'default', spec['sid']))
        if kind == 'seq':
            data = envs.wrap(decode(spec['data']), spec['sid'])
            return model.Plain(model.PlainRoot(data, 'default', spec['sid'], aliases=m.aliases(form)))
        if kind == 'default':
            data = envs.wrap(decode(spec['data']), spec['sid'])
            return model.Plain(model.PlainRoot(
                data, 'default', spec['sid'], ignores=spec.get('ignores'), location=spec.get('location'),
                aliases=spec.get('aliases'), seams=True,
            ))
        if kind == 'json':
            import json
            return model.Plain(model.PlainRoot(
                json.loads(json_text(spec['data'])), 'json', spec['sid'], strict=spec.get('strict', False),
                location=spec.get('location'), seams=True,
            ))
        if kind == 'mount':
            return model.Mount({k: make(s, m, form) for k, s in spec['srcs'].items()})
        if kind == 'union':
            if not spec['srcs']:
                raise sched.PlanError('nothing to merge')
            cfg = {
                'mapping': spec.get('mapping') or spec.get('merge', 'first'),
                'sequence': spec.get('sequence') or spec.get('merge', 'first'),
                'depth': spec.get('depth'),
            }
            return model.Union(cfg, [make(s, m, form) for s in spec['srcs']])
        if kind == 'config':
            return model.Cfg(dict(spec, defaults=decode(spec.get('defaults'))))
        raise sched.PlanError('source {0}'.format(kind))
    return make


def make_model(plan, env):
    schema = Schema(plan['schema'])
    env.schema_has = schema.has
    values.register_marks(model.MARKS)
    return model.Model(schema, env, model_sources(plan), fp)
