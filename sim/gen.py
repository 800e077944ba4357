"""Seeded generation of plans. Everything drawn comes from the one `random.Random` given."""
import copy

from . import build, env as envs

ENCODINGS = ('utf-8', 'cp500', 'utf-16')
SCALARS = ('str', 'int', 'float', 'bool', 'dec', 'any', 'uuid', 'date', 'datetime', 'time')

#: attributes of forms that are not fields, and names of nothing
NOT_FIELDS = ['keys', 'map', 'fields', 'update', 'parent', 'nothing', 'ctx']

BASE_CFG = {
    'forms': (1, 4),
    'fields': (1, 5),
    'kinds': {
        'str': 5, 'int': 6, 'float': 2, 'dec': 2, 'bool': 2, 'date': 2, 'datetime': 1, 'time': 1, 'uuid': 1,
        'any': 2, 'list': 3, 'tuple': 2, 'dict': 3, 'sub': 6, 'poly': 2, 'group': 1, 'type': 1, 'code': 0,
    },
    'hook_p': 0.35,
    'hook_kinds': {'compute': 2, 'resolve': 1, 'parse': 3, 'default': 3, 'munge': 4, 'filter': 3, 'validate': 3},
    'acts': {'read': 4, 'getvar': 1, 'push': 1, 'map': 1, 'loc': 1, 'reset': 0, 'other': 0, 'try': 0, 'has': 0, 'ohas': 0},
    'acts_n': (0, 2),
    'alias_p': 0.2,        # default sources with aliases
    'read_p': 0.3,         # results that depend on other fields
    'opt_p': 0.5,
    'bad_p': 0.12,
    'absent_p': 0.12,
    'null_p': 0.05,
    'flat_p': 0.06,
    'src_p': 0.15,
    'dotted_p': 0.04,
    'call_p': 0.03,
    'obj_p': 0.03,
    'tags': False,
    'inherit_p': 0.15,
    'const_p': 0.03,
    'sources': {'plain': 4, 'default': 3, 'json': 3, 'mount': 1, 'seq': 1, 'union': 0, 'config': 0},
    'max_depth': 3,
    'members': {'default': 2, 'json': 1, 'mount': 0, 'config': 0, 'union': 0},
    'null_members': 0,
    'attach_p': 0.1,
    'factory_p': 0.15,
    'ctx_fields': True,
    'format_p': 0.06,
    'unmapped_p': 0.1,
    'odd_p': 0.05,
    'mutable': True,
}

#: keys of input, native containers only
ODD_KEYS = [None, {'$float': '1.5'}, 7, 0, True, {'$tuple': [1, 'a']}, '', 'e.f', 'e()', 'x[0]', -1]

VARS = ['v0', 'v1']


def weighted(rng, table):
    items = [(k, w) for k, w in table.items() if w > 0]
    total = sum(w for _, w in items)
    x = rng.random() * total
    for k, w in items:
        x -= w
        if x < 0:
            return k
    return items[-1][0]


def bare(rng, spec):
    """A member given as what a source is made of."""
    if spec['kind'] == 'default' and set(spec) == {'kind', 'sid', 'data'} and isinstance(spec['data'], dict):
        if rng.random() < 0.25 and not any(k[:1] == '$' for k in spec['data']):
            spec['kind'] = 'plain'
    return spec


def near(rng, ident):
    """An identity that looks like another."""
    if not isinstance(ident, str):
        return ident
    return rng.choice([ident + ' ', ' ' + ident, ident.upper(), ident + ident, ident[:-1], ident + '\n', ident + '.'])


class Gen(object):

    def __init__(self, rng, **cfg):
        self.rng = rng
        self.cfg = copy.deepcopy(BASE_CFG)
        for k, v in cfg.items():
            if isinstance(v, dict) and isinstance(self.cfg.get(k), dict):
                self.cfg[k].update(v)
            else:
                self.cfg[k] = v
        # swarm: each run leaves out some kinds of fields and hooks
        for table, keep in (('kinds', 0.75), ('hook_kinds', 0.75), ('acts', 0.8)):
            for k in list(self.cfg[table]):
                if rng.random() > keep and k not in ('str', 'int'):
                    self.cfg[table][k] = 0
        if not any(self.cfg['hook_kinds'].values()):
            self.cfg['hook_kinds']['munge'] = 1
        self.forms = {}
        self.order = []
        self.ranks = {}        # (form, field) -> rank
        self.contained_in = {}   # form -> set of forms that contain it
        self.hierarchies = []    # (base, ident field name, [form names])
        self.nfac = 0
        self.nunmapped = 0

    # schema

    def schema(self):
        rng = self.rng
        n = rng.randint(*self.cfg['forms'])
        for level in range(n):
            self.form('F{0}'.format(level), chr(ord('a') + level), level)
        self.root = self.order[-1]
        for name in self.order:
            for f in self.forms[name]['fields']:
                if 'of' in f:
                    continue
                for g in build.walk(f):
                    self.hooks(name, f, g)
        self.constants()
        return {'order': list(self.order), 'forms': self.forms}

    def form(self, name, prefix, level):
        rng = self.rng
        # hierarchies, now and then
        if level and rng.random() < 0.5 and self.cfg['kinds'].get('poly'):
            self.hierarchy(prefix, level)
        spec = {'base': None, 'fields': []}
        count = rng.randint(*self.cfg['fields'])
        plain = [x for x in self.order if not self.is_poly(x)]
        if plain and rng.random() < self.cfg['inherit_p']:
            spec['base'] = rng.choice(plain)
        self.forms[name] = spec
        for i in range(count):
            f = self.field('{0}{1}'.format(prefix, i), name, 0)
            spec['fields'].append(f)
        if spec['base']:
            inherited = self.fields(spec['base'])
            if inherited and rng.random() < 0.5:
                old = rng.choice(inherited)
                f = self.scalar(old['n'])
                spec['fields'].insert(0, f)
            if inherited and rng.random() < 0.4:
                # the field of the base, with a fixed value here
                n = rng.choice(inherited)['n']
                if not any(f['n'] == n for f in spec['fields']):
                    spec['fields'].insert(0, {'n': n, 'k': 'any', 'src': n, 'h': {}, 'o': {}, 'of': spec['base']})
            for f in inherited:
                self.ranks.setdefault((name, f['n']), self.ranks[(spec['base'], f['n'])])
                for x in self.subforms(f):
                    self.contained_in.setdefault(x, set()).add(name)
        if self.cfg['tags']:
            for f in spec['fields']:
                f['o']['tags'] = [t for t in ('t0', 't1', 't2') if rng.random() < 0.4]
        self.order.append(name)

    def fields(self, name):
        return build.Schema({'forms': self.forms}).fields(name)

    def is_poly(self, name):
        return any(name in names for _, _, names in self.hierarchies)

    def hierarchy(self, prefix, level):
        rng = self.rng
        base = 'P{0}'.format(level)
        ident = 'kind'
        names = [base]
        self.forms[base] = {'base': None, 'fields': [
            {'n': ident, 'k': 'type', 'tk': 'abstract', 'idents': [], 'h': {}, 'o': {}, 'src': ident},
        ]}
        self.ranks[(base, ident)] = 0
        if rng.random() < 0.5:
            f = self.scalar('p{0}'.format(prefix))
            self.forms[base]['fields'].append(f)
            self.ranks[(base, f['n'])] = rng.random() * 10
        self.order.append(base)
        for i in range(rng.randint(1, 3)):
            name = 'P{0}{1}'.format(level, chr(ord('x') + i))
            tk = rng.choice(['instance', 'instance', 'constant'])
            idents = ['{0}{1}{2}'.format(prefix, i, j) for j in range(1 if tk == 'constant' else rng.randint(1, 2))]
            t = {'n': ident, 'k': 'type', 'tk': tk, 'idents': idents, 'h': {}, 'o': {}, 'src': ident}
            if tk == 'constant':
                t['h']['compute'] = {'id': '{0}.{1}:const'.format(name, ident), 'acts': [], 'ret': ['const', idents[0]]}
            spec = {'base': base if i == 0 or rng.random() < 0.7 else names[-1], 'fields': [t]}
            self.forms[name] = spec
            for f in self.fields(spec['base']):
                self.ranks[(name, f['n'])] = self.ranks[(spec['base'], f['n'])]
            for j in range(rng.randint(0, 2)):
                f = self.field('{0}q{1}{2}'.format(prefix, i, j), name, 0)
                spec['fields'].append(f)
            names.append(name)
            self.order.append(name)
        self.hierarchies.append((base, ident, names))

    def scalar(self, name):
        kinds = {k: w for k, w in self.cfg['kinds'].items() if k not in (
            'list', 'tuple', 'dict', 'sub', 'poly', 'group', 'type')}
        return self.field_of(weighted(self.rng, kinds), name, None, 0)

    def field(self, name, form, depth):
        f = self.field_of(weighted(self.rng, self.cfg['kinds']), name, form, depth)
        inner = [0.0]
        for x in self.subforms(f):
            self.contained_in.setdefault(x, set()).add(form)
            inner.extend(self.ranks[(x, g['n'])] for g in self.fields(x))
        rank = self.rng.random() * 10
        if self.rng.random() < 0.3:
            rank += 8 * len(self.order)
        if self.subforms(f):
            rank = max(inner) + 0.01 + self.rng.random()
        self.ranks[(form, name)] = rank
        return f

    def subforms(self, f):
        out = []
        for g in build.walk(f):
            if g['k'] == 'sub':
                out.append(g['form'])
            elif g['k'] == 'poly':
                out.extend([n for b, _, names in self.hierarchies if b == g['base'] for n in names])
        return out

    def field_of(self, kind, name, form, depth):
        rng, cfg = self.rng, self.cfg
        nested = depth > 0
        f = {'n': name, 'k': kind, 'h': {}, 'o': {}, 'src': name}
        if nested:
            f['n'] = None
            f['src'] = None
        elif rng.random() < cfg['src_p']:
            f['src'] = 's' + name
        elif rng.random() < cfg['dotted_p']:
            f['src'] = 'd{0}.e'.format(name)
        if depth >= cfg['max_depth'] and kind in ('list', 'tuple', 'dict', 'poly', 'sub', 'group'):
            kind = f['k'] = 'int'
        if kind == 'sub':
            names = [x for x in self.order if x != form]
            if not names:
                kind = f['k'] = 'str'
            else:
                f['form'] = names[-1] if rng.random() < 0.6 else rng.choice(names)
                if not nested and rng.random() < cfg['flat_p'] * 2:
                    f['flat'], f['src'] = True, None
                if rng.random() < cfg['unmapped_p']:
                    f['o']['unmapped'] = self.unmapped() if cfg['unmapped_p'] > 0.3 else 'capture'
        if kind == 'poly':
            if not self.hierarchies:
                kind = f['k'] = 'int'
            else:
                f['base'], f['ident'], _ = rng.choice(self.hierarchies)
                if rng.random() < cfg['unmapped_p']:
                    f['o']['unmapped'] = self.unmapped() if cfg['unmapped_p'] > 0.3 else 'capture'
        if kind in ('sub', 'poly') and rng.random() < 0.1:
            f['o']['style'] = 1
        if kind in ('sub', 'poly') and rng.random() < cfg['attach_p']:
            f['o']['attach_parent'] = True
        if kind == 'list':
            f['item'] = self.field_of(weighted(rng, cfg['kinds']), None, form, depth + 1)
            if rng.random() < 0.15:
                f['o']['allow_field'] = True
        if kind == 'tuple':
            f['items'] = [
                self.field_of(weighted(rng, cfg['kinds']), None, form, depth + 1) for _ in range(rng.randint(1, 3))
            ]
        if kind == 'dict':
            f['key'] = self.field_of(rng.choice(['str', 'any']), None, form, depth + 1)
            f['key']['o'] = {k: v for k, v in f['key']['o'].items() if k in ('minlen', 'maxlen')}
            f['val'] = self.field_of(weighted(rng, cfg['kinds']), None, form, depth + 1)
        if kind == 'group':
            if nested:
                kind = f['k'] = 'str'
            else:
                f['src'] = None
                f['group'] = []
                for i in range(rng.randint(1, 3)):
                    item = self.field_of(rng.choice(['int', 'str', 'int', 'list']), None, form, 1)
                    src = rng.choice([
                        {'re': 'g{0}_(.)'.format(i)}, {'re': 'g([0-9])_(?P<n>[xy.])'}, {'re': '.*x'}, 'g{0}_x'.format(i),
                        'g0_x()', {'re': 'g{0}_(z)?'.format(i)}, 'g0_z.q'])
                    style = [s for s, p in (('bare', 0.3 * isinstance(src, str)), ('list', 0.2)) if rng.random() < p]
                    f['group'].append([src, item, style])
        if kind == 'type':
            if nested:
                kind = f['k'] = 'str'
            else:
                f['tk'] = rng.choice(['abstract', 'instance', 'instance'])
                f['idents'] = [] if f['tk'] == 'abstract' else ['k{0}'.format(i) for i in range(rng.randint(1, 2))]
        if cfg['ctx_fields'] and not nested and kind in ('str', 'int', 'any') and rng.random() < 0.05:
            f['from_ctx'], f['src'] = True, rng.choice(VARS)
        if not nested and kind in ('str', 'int', 'any', 'bool') and rng.random() < cfg['call_p']:
            f['src'] = name + '()'
        if kind != 'group':
            self.opts(f, nested)
        return f

    def opts(self, f, nested):
        rng, cfg, o, k = self.rng, self.cfg, f['o'], f['k']

        def p(x=1.0):
            return rng.random() < cfg['opt_p'] * x

        if k in ('date', 'datetime'):
            if k == 'date':
                o['format'] = rng.choice(['%Y-%m-%d', 'iso8601', ['%Y-%m-%d', '%d/%m/%Y'], ['%d/%m/%Y', 'iso8601'],
                                          ['%d/%m/%Y', '%m/%d/%Y', '%Y-%m-%d']])
            else:
                o['format'] = rng.choice(['%Y-%m-%d %H:%M', 'iso8601'])
            if p(0.1):
                del o['format']
            if k == 'date' and p(0.5):
                o['after'] = {'$date': [2001, 1, 2]}
            if k == 'date' and p(0.5):
                o['before'] = {'$date': [2010, 5, 6]}
            if k == 'datetime' and p(0.3):
                o['after'] = rng.choice([{'$dt': [2001, 1, 2, 3, 4]}, {'$dtz': [2005, 3, 4, 5, 6, 7]}])
            if k == 'datetime' and p(0.3):
                o['before'] = rng.choice([{'$dt': [2005, 3, 4, 5, 6]}, {'$dtz': [2010, 3, 4]}])
        if k == 'time':
            o['format'] = '%H:%M'
            if p(0.1):
                del o['format']
            if p(0.5):
                o['after'] = {'$time': '08:30'}
            if p(0.5):
                o['before'] = {'$time': '20:15'}
        if k == 'str':
            if p(0.3):
                o['minlen'] = rng.randint(1, 3)
            if p(0.3):
                o['maxlen'] = rng.choice([0, 1, 2, 3, 4, 5, 5])
            if p(0.15):
                # a pattern without a group, with one of the given or the field's own name, ...
                o['cap'] = rng.choice([['(a)', None], ['a(?P<g>.)', 'g'], ['(?P<g>z)?(.)', 'g'], ['[a-c]', None],
                                       ['(.)(.)', 'none'], ['a(z)?', None]])
            if p(0.2):
                o['pattern'] = rng.choice(['[a-c]', 'a.*', '[a-z]+$'])
            if p(0.2):
                o['alphabet'] = 'abcdef012'
            if p(0.2):
                o['choices'] = rng.sample(['a', 'abc', 'b', 'cab', 'zz'], 3)
        if k == 'int':
            if p(0.4):
                o['min'] = rng.randint(-2, 4)
            if p(0.4):
                o['max'] = rng.choice([0, 3, 4, 5, 6, 7, 8, 9])
        if k in ('int', 'float') and p(0.1):
            o['pat'] = rng.choice(['[0-9]+', '[0-9.]+', 'x?([0-9]*)'])
        if k == 'float':
            if p(0.4):
                o['min'] = {'$float': repr(rng.choice([-1.5, 0.0, 1.0]))}
            if p(0.4):
                o['max'] = {'$float': repr(rng.choice([0.0, 2.0, 4.5]))}
        if k == 'dec':
            if p(0.4):
                o['min'] = {'$dec': rng.choice(['-1', '0', '1.5'])}
            if p(0.4):
                o['max'] = {'$dec': rng.choice(['0', '2', '4.5'])}
        if k == 'list':
            if p(0.3):
                o['minlen'] = rng.randint(1, 2)
            if p(0.3):
                o['maxlen'] = rng.choice([0, 2, 3, 3])
        if k == 'dict':
            if p(0.2):
                o['required_keys'] = rng.sample(['x', 'y', 'z', 'x', 'y', 'z', 7], rng.randint(1, 2))
            if p(0.2):
                o['max_keys'] = rng.randint(1, 2)
        if k in ('str', 'int'):
            if p(0.15):
                o['ignore'] = [self.pool(k) for _ in range(rng.choice([1, 2]))]
            if p(0.15):
                o['translate'] = [[self.pool(k), self.pool(k)] for _ in range(2)]
        if k in ('str', 'int', 'float', 'dec', 'date', 'datetime', 'time', 'list', 'dict') and p(0.4):
            # the same options in another way
            o['style'] = True
        if k != 'type':
            if p(0.4):
                r = rng.random()
                if r < cfg['factory_p'] * 2 and not nested and not o.get('attach_parent'):
                    self.nfac += 1
                    o['default'] = {'$fac': rng.choice(['none', 'empty', 'empty'] + ['fac'] * 7) + str(self.nfac)}
                elif r < 0.6 and not o.get('attach_parent'):
                    o['default'] = self.default_value(k)
                elif r < 0.8:
                    o['default'] = None
                else:
                    o['optional'] = True
            if p(0.3):
                o['nullable'] = rng.random() < 0.6

    def default_value(self, k):
        rng = self.rng
        if k == 'int':
            return rng.randint(50, 60)
        if k == 'float':
            return {'$float': '77.5'}
        if k == 'dec':
            return {'$dec': '88'}
        return 'def{0}'.format(rng.randint(0, 9))

    def pool(self, k):
        rng = self.rng
        if k == 'int':
            return rng.choice([0, 1, 2, 3, 5, 8, 13, -1])
        return rng.choice(['a', 'abc', 'b', 'cab', 'zz', 'a0', 'hello', '', 'fed'])

    # hooks

    def hooks(self, form, top, f):
        rng, cfg = self.rng, self.cfg
        if f['k'] == 'type' or f.get('no_hooks') or f.get('from_ctx'):
            return
        if f['k'] == 'dict' and rng.random() < cfg['hook_p'] / 2:
            f['h']['key_filter'] = {
                'id': '{0}.{1}:key_filter'.format(form, self.label(top, f)),
                'acts': self.acts(form, top, f, rng.randint(*cfg['acts_n'])),
                'ret': weighted(rng, {
                    ('true',): 3, ('false',): 1, ('ne', rng.choice(['x', 'y', 'z', 'a', 7])): 6, ('invalid',): 1,
                    ('raise', 'ValueError'): 0.3, ('raise', 'SourceError'): 0.3}),
            }
        if rng.random() >= cfg['hook_p']:
            if f is top and f['k'] == 'str' and rng.random() < cfg['format_p'] and not f['h']:
                low = self.lower(form, top, form)
                if low:
                    f['fmt'] = ['{x}-', [['x', rng.choice(low)]]]
            return
        for _ in range(1 if rng.random() < 0.7 else 2):
            kind = weighted(rng, cfg['hook_kinds'])
            if kind in f['h']:
                continue
            if kind == 'resolve' and (f is not top or f.get('flat') or f['k'] == 'group'):
                continue
            if kind == 'default' and ('default' in f['o'] or f['o'].get('optional') or f['k'] == 'group'):
                continue
            if kind == 'munge' and 'cap' in f['o'] or kind == 'parse' and 'pat' in f['o']:
                continue
            if kind in ('compute', 'parse') and f['k'] in ('sub', 'poly', 'list', 'tuple', 'dict', 'group'):
                continue
            if kind == 'default' and f['o'].get('attach_parent'):
                continue
            if kind == 'munge' and f['k'] in ('sub', 'poly', 'group') and rng.random() < 0.5:
                continue
            f['h'][kind] = {
                'id': '{0}.{1}:{2}'.format(form, self.label(top, f), kind),
                'acts': self.acts(form, top, f, rng.randint(*cfg['acts_n'])),
                'ret': self.ret(form, top, f, kind),
            }

    def constants(self):
        for name in self.order:
            spec = self.forms[name]
            for i, f in reversed(list(enumerate(spec['fields']))):
                if 'of' not in f:
                    if self.fixable(f) and 'compute' not in f['h'] and self.rng.random() < self.cfg['const_p']:
                        self.fix(name, f)
                    continue
                old = [g for g in self.fields(f['of']) if g['n'] == f['n']][0]
                if not self.fixable(old):
                    del spec['fields'][i]
                    continue
                f = spec['fields'][i] = dict(copy.deepcopy(old), of=f['of'])
                self.fix(name, f)
                if self.rng.random() < 0.5:
                    self.adjust(name, f)

    def adjust(self, form, f):
        """Settings and hooks that only the derived field has."""
        rng, more = self.rng, {}
        kinds = set(f['h'])
        self.hooks(form, f, f)
        more['h'] = sorted(set(f['h']) - kinds)
        if self.cfg['tags'] and rng.random() < 0.5:
            more['tags'] = [t for t in ('t0', 't1', 't2') if t not in f['o'].get('tags', ())][:1]
            f['o']['tags'] = f['o'].get('tags', []) + more['tags']
        if rng.random() < 0.3:
            more['ignore'] = [self.good(f)]
            f['o']['ignore'] = f['o'].get('ignore', []) + more['ignore']
        f['more'] = more

    def fixable(self, f):
        return f['k'] in SCALARS and 'fmt' not in f and not f.get('from_ctx')

    def fix(self, form, f):
        f['h']['compute'] = {
            'id': '{0}.{1}:const'.format(form, f['n']), 'acts': [], 'ret': ['const', self.good(f)]}

    def label(self, top, f):
        if f is top:
            return top['n']
        return '{0}~{1}'.format(top['n'], [id(g) for g in build.walk(top)].index(id(f)))

    def lower(self, form, top, target):
        """Fields of `target` that a hook of `top` may read without a cycle."""
        rank = self.ranks[(form, top['n'])]
        # a hook may run for any class that inherits the field
        return [g['n'] for g in self.fields(target) if self.ranks[(target, g['n'])] < rank]

    def place(self, form, top):
        """(levels up, field name) of some readable field, or None"""
        rng = self.rng
        up, target = 0, form
        while rng.random() < 0.5:
            outer = sorted(self.contained_in.get(target, ()))
            if not outer:
                break
            target = rng.choice(outer)
            up += 1
        names = self.lower(form, top, target)
        if not names:
            return None
        return up, rng.choice(names)

    def acts(self, form, top, f, n, depth=0):
        rng = self.rng
        out = []
        if depth > 2:
            return out
        for _ in range(n):
            kind = weighted(rng, self.cfg['acts']) if any(self.cfg['acts'].values()) else 'loc'
            if kind == 'read':
                at = self.place(form, top)
                if at:
                    out.append(['read', at[0], at[1]])
            elif kind == 'has':
                at = self.place(form, top)
                if at and rng.random() < 0.85:
                    out.append(['has', at[0], at[1], rng.choice(['name', 'name', 'field'])])
                else:
                    out.append(['has', rng.choice([0, 0, 1]), rng.choice(NOT_FIELDS), 'name'])
            elif kind == 'getvar':
                out.append(['getvar', rng.choice(VARS)])
            elif kind == 'push':
                out.append(['push', rng.choice(VARS), rng.randint(0, 99), self.acts(form, top, f, rng.randint(0, 2), depth + 1)])
            elif kind == 'reset':
                out.append(['reset', self.acts(form, top, f, rng.randint(0, 2), depth + 1)])
            elif kind in ('map', 'other', 'ohas'):
                rank = self.ranks[(form, top['n'])]
                names = [
                    x for x in self.order
                    if all(self.ranks[(x, g['n'])] < rank for g in self.fields(x)) and self.fields(x)
                ]
                if not names:
                    continue
                name = rng.choice(names)
                if kind == 'map':
                    src = {'kind': 'plain', 'sid': 'n{0}'.format(rng.randint(0, 999)), 'data': self.data(name)}
                    how = rng.choice(['map', 'map', 'ctor', 'raise'])
                    # without a source: at the location being mapped
                    out.append(['map', name, None if how != 'ctor' and rng.random() < 0.25 else src, how])
                else:
                    out.append([kind, name, rng.choice(self.fields(name))['n']])
            elif kind == 'try':
                out.append(['try', self.acts(form, top, f, rng.randint(1, 2), depth + 1)])
            else:
                out.append(['loc'])
        return out

    def ret(self, form, top, f, kind):
        rng, k = self.rng, f['k']
        reads = rng.random() < self.cfg['read_p']
        at = self.place(form, top) if reads else None
        const = self.good(f)
        scalar = k in ('str', 'int')
        if kind == 'compute':
            r = rng.random()
            if at and scalar:
                return ['readval', at[0], at[1], const]
            if r < 0.1:
                return ['none']
            if r < 0.2:
                return ['invalid']
            if k == 'str' and r < 0.4:
                return ['clock']
            if scalar and r < 0.5:
                return ['var', rng.choice(VARS), const]
            return ['const', const]
        if kind == 'resolve':
            if rng.random() < 0.8:
                return ['src', f['src'] if f['src'] else f['n']]
            return ['src', 'r' + f['n']]
        if kind == 'parse':
            r = rng.random()
            if r < 0.2:
                return ['raise', rng.choice(['ValueError', 'SourceError', 'SimValueError'])]
            if r < 0.3:
                return ['none']
            if r < 0.4:
                return ['invalid']
            if k == 'str':
                return rng.choice([['prim', 'str'], ['wrapprim']])
            if k in ('int', 'float', 'bool'):
                return ['prim', k]
            return ['const', const]
        if kind == 'default':
            r = rng.random()
            if at and scalar:
                return ['readval', at[0], at[1], const]
            if k in ('str', 'any') and r < 0.4:
                return ['clock']
            if r < 0.5:
                return ['none']
            return ['const', const]
        if kind == 'munge':
            r = rng.random()
            if at and scalar:
                return ['addread', at[0], at[1]]
            if r < 0.1:
                return ['none']
            if r < 0.2:
                return ['invalid']
            if scalar and r < 0.6:
                return ['add', 1 if k == 'int' else 'a']
            if scalar and r < 0.7:
                return ['const', const]
            return ['same']
        if kind == 'filter':
            r = rng.random()
            if r < 0.2:
                return ['false']
            if scalar and r < 0.6:
                return ['ne', self.pool(k)]
            return ['true']
        if kind == 'validate':
            if scalar and rng.random() < 0.6:
                return ['bad', self.pool(k)]
            return ['invalid'] if rng.random() < 0.1 else ['true']
        raise ValueError(kind)

    # data

    def good(self, f):
        """A value of the field's kind (its constraints may still reject it)."""
        rng, k = self.rng, f['k']
        if k == 'str':
            return self.pool('str')
        if k == 'type':
            return rng.choice(f['idents'] or ['k0'])
        if k == 'code':
            return rng.choice(['a = 1\nb = a + 1\n', 'os:getcwd', 'os.path:join', 'os:nothing', 'a = (\n', '1/0\n\n', '!'])
        if k == 'int':
            return self.pool('int')
        if k == 'float':
            return {'$float': repr(rng.choice([0.0, 1.5, 2.5, 4.5, -3.0]))}
        if k == 'dec':
            return {'$dec': rng.choice(['0', '1.5', '3', '4.50', 'NaN'])}
        if k == 'bool':
            return rng.random() < 0.5
        if k == 'date':
            if rng.random() < 0.15:
                return {'$dt': rng.choice([[2001, 1, 1, 23, 59], [2005, 3, 4, 5, 6]])}
            return {'$date': rng.choice([[2001, 1, 1], [2001, 1, 2], [2005, 3, 4], [2010, 5, 6], [2011, 1, 1]])}
        if k == 'datetime':
            r = rng.random()
            if r < 0.1:
                return {'$date': [2005, 3, 4]}
            if r < 0.3:
                return {'$dtz': rng.choice([[2001, 1, 2, 3, 4], [2005, 3, 4, 5, 6, 7], [2011, 1, 1]])}
            return {'$dt': rng.choice([[2005, 3, 4, 5, 6], [2001, 1, 1], [2011, 1, 1]])}
        if k == 'time':
            if rng.random() < 0.15:
                return {'$clock': [12, 30]}
            return {'$time': rng.choice(['08:29', '08:30', '12:00', '20:15', '23:00'])}
        if k == 'uuid':
            return {'$uuid': '{0:032x}'.format(rng.getrandbits(128))}
        return self.pool('str')

    def text(self, f):
        """As `good`, in JSON types only."""
        rng, k = self.rng, f['k']
        if k == 'dec':
            return rng.choice(['0', '1.5', '3', '4.50', 'NaN'])
        if k == 'float':
            return rng.choice([0.0, 1.5, 2.5, -3.0])
        if k == 'date':
            return rng.choice(['2001-01-01', '2001-01-02', '04/03/2005', '2010-05-06', '2011-13-01', '2005-03-04',
                               '03/04/2005', '03/14/2005'])
        if k == 'datetime':
            return rng.choice(['2005-03-04 05:06', '2005-03-04T05:06:07Z', 'soon'])
        if k == 'time':
            return rng.choice(['08:29', '08:30', '12:00', '20:15', '23:00', '25:00'])
        if k == 'uuid':
            return '{0:032x}'.format(rng.getrandbits(128))
        if k in ('int', 'bool') and rng.random() < 0.15:
            return rng.choice(['1', '0', '7', 'true', 'F', 2.0])
        return self.good(f)

    def bad(self, f):
        rng, k = self.rng, f['k']
        if k in ('list', 'tuple', 'dict', 'sub', 'poly'):
            return rng.choice([5, 'text', [], {}, [1], {'q': 1}, True])
        return rng.choice([[], {}, 'nope', 2.5, True, [1, 2], 999, {'q': 1}, '', 10 ** 400])

    def value(self, f, native=True, nulls=True):
        rng, k, cfg = self.rng, f['k'], self.cfg
        if nulls and rng.random() < cfg['null_p']:
            return None
        if rng.random() < cfg['bad_p']:
            return self.bad(f)
        if k == 'list':
            if f['o'].get('allow_field') and rng.random() < 0.4:
                return self.value(f['item'], native, nulls)
            return [self.value(f['item'], native, nulls) for _ in range(rng.choice([0, 1, 2, 2, 3, 4]))]
        if k == 'tuple':
            n = len(f['items'])
            items = [self.value(i, native, nulls) for i in f['items']]
            if rng.random() < 0.1:
                items.append(1)
            return {'$tuple': items} if native and n % 2 else items
        if k == 'dict':
            keys = rng.sample(['x', 'y', 'z', 'w', 'longer'], rng.choice([0, 1, 2, 2, 3]))
            if native and rng.random() < 0.15:
                keys += rng.sample(ODD_KEYS, rng.choice([1, 2]))
                rng.shuffle(keys)
                return {'$pairs': [[key, self.value(f['val'], native, nulls)] for key in keys]}
            return {key: self.value(f['val'], native, nulls) for key in keys}
        if k == 'sub':
            return self.data(f['form'], native, nulls)
        if k == 'poly':
            names = [names for b, _, names in self.hierarchies if b == f['base']][0]
            name = rng.choice(names)
            out = self.data(name, native, nulls)
            idents = [g for g in self.fields(name) if g['n'] == f['ident']][0]['idents']
            out[f['ident']] = rng.choice(idents or ['unknown'])
            if rng.random() < 0.05:
                out.pop(f['ident'])
            return out
        if not native or rng.random() < 0.5:
            return self.text(f)
        return self.good(f)

    def data(self, name, native=True, nulls=True):
        """Input for a form."""
        rng, cfg = self.rng, self.cfg
        out = {}
        for f in self.fields(name):
            self.put(out, f, native, nulls)
        if rng.random() < 0.3:
            out['extra{0}'.format(rng.randint(0, 2))] = rng.choice([1, 'two', None, [3]] if nulls else [1, 'two'])
        if native and rng.random() < cfg['obj_p'] and out:
            key = rng.choice(sorted(out))
            if isinstance(out[key], (int, str)):
                pass
        return out

    def put(self, out, f, native=True, nulls=True):
        rng, cfg = self.rng, self.cfg
        if f['k'] == 'group':
            for i in range(rng.randint(0, 3)):
                item = rng.choice(f['group'])[1]
                key = rng.choice(['x', 'y', 'z', 'x', 'y', 'z', 'x()', 'z.q'])
                out['g{0}_{1}'.format(rng.randint(0, 1), key)] = self.value(item, native, nulls)
            return
        if f.get('flat'):
            if f['k'] == 'sub':
                for k, v in self.data(f['form'], native, nulls).items():
                    out.setdefault(k, v)
            return
        if f.get('from_ctx') or f.get('src') is None or rng.random() < cfg['absent_p']:
            return
        src = f['src']
        value = self.value(f, native, nulls)
        if src.endswith('()'):
            if native:
                out[src[:-2]] = {'$call': value}
            else:
                out[src] = value
        elif '.' in src:
            a, b = src.split('.')
            if rng.random() < 0.3:
                out[src] = value
            elif native and rng.random() < 0.3:
                out[a] = {'$obj': {b: value}}
            else:
                out[a] = {b: value}
        else:
            out[src] = value

    def source(self, form, sid, kinds=None):
        rng = self.rng
        kind = weighted(rng, kinds or self.cfg['sources'])
        if kind == 'seq':
            fields = self.fields(form)
            data = []
            for f in fields[:rng.randint(0, len(fields) + 1)]:
                data.append(self.value(f) if f['k'] != 'group' else None)
            return {'kind': 'seq', 'sid': sid, 'data': data}
        if kind == 'plain':
            return {'kind': 'plain', 'sid': sid, 'data': self.odd_keys(self.data(form))}
        if kind == 'default':
            spec = {'kind': 'default', 'sid': sid, 'data': self.data(form)}
            if rng.random() < 0.2:
                spec['location'] = 'L'
            if rng.random() < 0.15 and spec['data']:
                spec['ignores'] = [rng.choice(sorted(spec['data']))]
            if rng.random() < self.cfg['alias_p']:
                self.alias(spec)
            spec['data'] = self.odd_keys(spec['data'])
            return spec
        if kind == 'json':
            spec = {'kind': 'json', 'sid': sid, 'data': self.data(form, native=False)}
            if rng.random() < 0.15:
                spec['enc'] = rng.choice(ENCODINGS)
            if rng.random() < 0.3:
                spec['strict'] = True
            if rng.random() < 0.2:
                spec['location'] = 'J'
            return spec
        if kind == 'mount':
            srcs = {}
            for f in self.fields(form):
                if f.get('src') is None or '.' in f['src'] or '(' in f['src'] or f.get('from_ctx'):
                    continue
                if rng.random() < 0.85:
                    if f['k'] == 'sub':
                        srcs[f['src']] = self.source(
                            f['form'], '{0}.{1}'.format(sid, f['n']), {'default': 3, 'json': 2, 'union': 0})
                    else:
                        v = self.value(f, native=False)
                        if not isinstance(v, dict):
                            v = {'x': v}
                        srcs[f['src']] = bare(
                            rng, {'kind': 'default', 'sid': '{0}.{1}'.format(sid, f['n']), 'data': v})
            return {'kind': 'mount', 'srcs': srcs}
        if kind == 'config':
            return self.config(form)
        if kind == 'union':
            merges = ['first', 'last', 'combine']
            spec = {'kind': 'union', 'merge': rng.choice(merges), 'srcs': []}
            for name in ('mapping', 'sequence'):
                if rng.random() < 0.4:
                    spec[name] = rng.choice(merges)
            if rng.random() < 0.2:
                spec['depth'] = rng.randint(0, 4)
            for i in range(rng.choice([1, 2, 2, 3, 4])):
                spec['srcs'].append(bare(rng, self.member(form, '{0}.{1}'.format(sid, i))))
            return spec
        raise ValueError(kind)

    def alias(self, spec):
        """Some of the keys are found under others."""
        rng, data = self.rng, spec['data']
        names = [k for k in data if '.' not in k and '(' not in k]
        spec['aliases'] = {}
        for k in rng.sample(names, min(len(names), rng.choice([1, 1, 2]))):
            spec['aliases'][k] = 'al_' + k
            r = rng.random()
            if r < 0.8:
                data['al_' + k] = data.pop(k)
            elif r < 0.9:
                # under both: its own goes first
                data['al_' + k] = None

    def odd_keys(self, data):
        """Keys which no field has."""
        rng = self.rng
        if rng.random() > self.cfg['odd_p']:
            return data
        pairs = [[k, v] for k, v in data.items()]
        for key in rng.sample(ODD_KEYS, rng.choice([1, 2])):
            pairs.insert(rng.randint(0, len(pairs)), [key, rng.choice([1, 'two', None, [3], {'x': 1}])])
        return {'$pairs': pairs}

    def unmapped(self, form=None):
        """What to do with the rest of the input."""
        rng = self.rng
        if rng.random() < 0.5:
            return 'capture'
        spec = {'val': self.field_of(rng.choice(['int', 'str', 'any', 'list', 'dict']), None, None, 2)}
        if rng.random() < 0.6:
            spec['key'] = self.field_of('str', None, None, 2)
            spec['key']['o'] = {k: v for k, v in spec['key']['o'].items() if k in ('minlen', 'maxlen', 'ignore')}
            if rng.random() < 0.4:
                # to names that may be those of fields
                names = sorted(set(f['n'] for x in self.order for f in self.fields(x)))
                spec['key']['o']['translate'] = [
                    [key, rng.choice(names)] for key in rng.sample(['extra0', 'extra1', 'extra2', 'e.f', 7], 2)]
        for name in sorted(spec):
            if rng.random() < 0.3 and spec[name]['k'] in ('str', 'int', 'any') and 'cap' not in spec[name]['o']:
                self.nunmapped += 1
                kind = rng.choice(['munge', 'filter', 'validate'])
                acts = []
                if form and rng.random() < 0.7:
                    acts.append(['read', 0, rng.choice([f['n'] for f in self.fields(form)] or ['none'])])
                spec[name]['h'][kind] = {
                    'id': 'U{0}.{1}:{2}'.format(self.nunmapped, name, kind), 'acts': acts,
                    'ret': ['ne', 'two'] if kind != 'munge' else rng.choice(
                        [['same'], ['none'], ['const', 'munged'], ['clock']])}
        return spec

    def member(self, form, sid, depth=0):
        rng = self.rng
        kind = weighted(rng, self.cfg['members'])
        if kind == 'config':
            return dict(self.config(form), sid=sid)
        if kind == 'union' and depth < 2:
            merges = ['first', 'last', 'combine']
            return {
                'kind': 'union', 'sid': sid, 'merge': rng.choice(merges), 'sequence': rng.choice(merges),
                'srcs': [self.member(form, '{0}.{1}'.format(sid, i), depth + 1) for i in range(rng.randint(1, 3))],
            }
        data = self.data(form, native=False, nulls=False)
        for key in list(data):
            if rng.random() < 0.2:
                del data[key]
            elif isinstance(data[key], (dict, list)) and rng.random() < self.cfg['null_members']:
                data[key] = None
        if kind == 'mount':
            return {'kind': 'mount', 'sid': sid, 'srcs': {
                k: {'kind': rng.choice(['default', 'json']), 'sid': '{0}.{1}'.format(sid, k), 'data': v}
                for k, v in data.items() if isinstance(v, dict) and '.' not in k and '(' not in k
            }}
        member = {'kind': 'json' if kind == 'json' else 'default', 'sid': sid, 'data': data}
        if kind == 'json' and rng.random() < 0.3:
            member['strict'] = True
        return member

    def config(self, form):
        rng = self.rng
        options = []
        for f in self.fields(form):
            src = f.get('src')
            if src is None or '.' in src or '(' in src or f.get('from_ctx'):
                continue
            if rng.random() < self.cfg['absent_p']:
                continue
            if f['k'] in ('list', 'tuple'):
                items = f['items'] if f['k'] == 'tuple' else [f['item']] * rng.randint(0, 3)
                texts = [self.config_text(i) for i in items]
                if any(' ' in t or not t for t in texts) or rng.random() < 0.4:
                    options.append([src, '\n'.join(t for t in texts if t)])
                else:
                    options.append([src, ' '.join(texts)])
            elif f['k'] == 'dict':
                for key in rng.sample(['x', 'y', 'z', 'w'], rng.randint(0, 3)):
                    options.append(['{0}[{1}]'.format(src, key), self.config_text(f['val'])])
                if rng.random() < 0.1:
                    options.insert(rng.randint(0, len(options)), [src, 'plain'])
            elif f['k'] not in ('sub', 'poly', 'group'):
                options.append([src, self.config_text(f)])
        if rng.random() < 0.3:
            options.append(['extra0', 'two'])
            if rng.random() < 0.3:
                options.append(['extra0[k0]', 'three'])
        spec = {'kind': 'config', 'sections': {'s': options, 'other': [['x', '1']]}, 'section': 's'}
        if rng.random() < 0.3:
            spec['location'] = 'C'
        if rng.random() < 0.4:
            spec['defaults'] = {
                f['src']: self.config_text(f) for f in self.fields(form)
                if f['k'] in ('str', 'int') and f.get('src') and rng.random() < 0.4
            }
        return spec

    def config_text(self, f):
        v = self.bad({'k': 'str'}) if self.rng.random() < self.cfg['bad_p'] else self.text(f)
        if isinstance(v, (dict, list)) or v is None:
            v = 'nope'
        return str(v)


def sites(plan, run_model):
    """Fault sites passed by the model in a fault free run of one operation."""
    e = envs.Env(model=True)
    e.sites = []
    run_model(e)
    return list(dict.fromkeys(e.sites))
