"""C13: configuration files are read whole or fail visibly, and are always closed."""
import gc
import io
import random

from .common import *
from .. import env as envs, fs as fsys
from .c09 import Fake, load

WORDS = ['alpha', 'beta', 'x', 'y-1', 'a.b', 'q=1', 'k: v', 'é', 'long' * 30, 'a\x00b', 'ff\x0cff', 'e\x1bsc', 'n\x85l', 'u\u2028l']
LINES = ['one', 'two words', 'k = v', 'a # b', 'see ; there', 'if x: [y]', '{"a": 1}', '- item', '[a]', '[b]', 'name = z', 'x' * 70, 'nul\x00l', 'tab\tt']
FAULTS = ['EIO', 'EIO', 'ENOENT', 'EACCES', 'EMFILE', 'ESTALE', 'MemoryError', 'KeyboardInterrupt', 'SystemExit',
          'SimBaseError']
PATHS = ['/sim/a.ini', '/sim/b.ini']
SECTIONS = ['a', 'b', 'Sec 3']
#: name of the field, what it holds
FIELDS = [['name', 'str'], ['note', 'str'], ['Text', 'str'], ['num', 'int'], ['words', 'list'], ['opts', 'dict']]
KEYS = ['k1', 'k-2', 'k.3']


class C13(runner.Check):

    id = 'C13'
    rule = ('a run counts when a file changed after it was loaded, a fault fired at an open or a read, or operations '
            'of several threads overlapped; runs are told apart by plan, schedule and outcomes')
    runs = {'quick': 3500, 'thorough': 200000}
    keep = runner.Check.keep | frozenset((
        'versions', 'v', 'o', 'd', 'f', 'c', 'pad', 'entries', 'name', 'path', 'slot', 'opts', 'pre', 'version', 'via',
        'default', 'bad', 'nl', 'fs_seed', 'files', 'hows'))
    stub = ['the file system under /sim/ (open, io.open, os.stat); file objects are real io objects over it']

    # plans

    def plan(self, rng, tier):
        self.preserve_case = rng.random() < 0.3
        versions = [self.version(rng, i) for i in range(rng.randint(2, 5))]
        plan = {
            'versions': versions, 'fs_seed': rng.getrandbits(32),
            'files': [[PATHS[0], 0]] + ([[PATHS[1], rng.randrange(len(versions))]] if rng.random() < 0.5 else []),
            'sched': draw_sched(rng, rng.choice([200, 1000, 4000])), 'sched_seed': rng.getrandbits(32),
        }
        plan['pre'] = [self.load(rng, 'shared')]
        threads = []
        for tid in range(rng.choice([1, 1, 2, 2, 3])):
            ops = []
            mine = ['shared']
            for i in range(rng.randint(2, 6)):
                r = rng.random()
                path = rng.choice(PATHS) if rng.random() < 0.2 else PATHS[0]
                if r < 0.3:
                    slot = 't{0}.{1}'.format(tid, rng.randint(0, 1))
                    op = self.load(rng, slot, path)
                    if rng.random() < 0.35:
                        op['faults'] = self.faults(rng, path)
                    elif slot not in mine:
                        mine.append(slot)
                elif r < 0.65:
                    op = {'op': 'map', 'slot': rng.choice(mine)}
                    if rng.random() < 0.2:
                        op['faults'] = self.faults(rng, path)
                elif r < 0.85:
                    op = {'op': 'write', 'path': path, 'version': rng.randrange(len(versions))}
                elif r < 0.93:
                    op = {'op': 'truncate', 'path': path}
                else:
                    op = {'op': 'remove', 'path': path}
                ops.append(op)
            ops.append({'op': 'map', 'slot': rng.choice(mine)})
            threads.append(ops)
        plan['threads'] = threads
        return json_copy(plan)

    def faults(self, rng, path):
        if rng.random() < 0.35:
            return [['f|{0}:open'.format(path), rng.choice(FAULTS)]]
        return [['f|{0}:read'.format(path), rng.choice(FAULTS), rng.choice([1, 1, 1, 2, 2, 3, 5])]]

    def load(self, rng, slot, path=PATHS[0]):
        opts = {'case': self.preserve_case, 'ws': rng.random() < 0.6}
        if rng.random() < 0.7:
            opts['section'] = rng.choice(SECTIONS[:2] + SECTIONS[:1])
        if rng.random() < 0.3:
            values = {n: 'dflt ' + n for n in ('name', 'note') if rng.random() < 0.6}
            opts['defaults'] = values if opts.get('section') else {rng.choice(SECTIONS): values}
        op = {'op': 'load', 'slot': slot, 'path': path, 'opts': opts, 'via': 'file'}
        r = rng.random()
        if r < 0.1:
            op['via'] = 'text'
            op['version'] = 0
        elif r < 0.2:
            op['via'] = 'parser'
            opts['case'] = False
        return op

    def version(self, rng, v):
        tag = 'v{0}'.format(v)
        out = {'v': v, 'nl': rng.random() < 0.8, 'default': [], 'sections': []}
        r = rng.random()
        if v and r < 0.06:
            out['bad'] = 'utf8'
        elif v and r < 0.12:
            out['bad'] = 'parse'
        if rng.random() < 0.2:
            out['default'].append(['note', 'default ' + tag])
        for name in SECTIONS:
            if rng.random() < (0.1 if v else 0):
                continue
            entries = []
            for field, kind in FIELDS:
                if rng.random() < 0.2:
                    continue
                spelled = field
                if not self.preserve_case and rng.random() < 0.2:
                    spelled = field.upper()
                if kind == 'dict':
                    for key in KEYS:
                        if rng.random() < 0.6:
                            entries.append(self.entry(rng, '{0}[{1}]'.format(spelled, key), tag, 0.3))
                elif kind == 'int':
                    entries.append(dict(self.entry(rng, spelled, tag, 0), f=str(v * 100 + rng.randint(0, 99))))
                elif kind == 'list':
                    if rng.random() < 0.5:
                        words = [rng.choice(['alpha', 'beta', 'x', tag, '"a b"']) for _ in range(rng.randint(1, 4))]
                        entries.append(dict(self.entry(rng, spelled, tag, 0), f=' '.join(words + [tag])))
                    else:
                        entries.append(self.entry(rng, spelled, tag, 1))
                else:
                    entries.append(self.entry(rng, spelled, tag, 0.65))
            rng.shuffle(entries)
            out['sections'].append({'name': name, 'entries': entries})
        if rng.random() < 0.5:
            rng.shuffle(out['sections'])
        return out

    def entry(self, rng, name, tag, multi):
        e = {'o': name, 'd': rng.choice([' = ', '=', ': ', ':', ' : ']), 'f': '', 'c': []}
        if rng.random() < multi:
            if rng.random() < 0.5:
                e['f'] = rng.choice(['first', 'first ' + tag])
            e['pad'] = rng.choice([1, 2, 4])
            n = rng.randint(1, 4)
            for i in range(n):
                text = rng.choice(LINES) + rng.choice([' ', '=']) + tag if rng.random() < 0.6 else rng.choice(LINES)
                e['c'].append([rng.choice([0, 0, 2, 4]), text])
                if i < n - 1 and rng.random() < 0.15:
                    e['c'].append([0, ''])
            e['c'][0][0] = 0
        else:
            e['f'] = rng.choice(WORDS) + ' ' + tag
        if rng.random() < 0.15:
            e['note'] = True
        return e

    # text of a version, and what it says

    def text(self, plan, v):
        version = plan['versions'][v]
        out = []
        if version['default']:
            out.append('[DEFAULT]')
            out += ['{0} = {1}'.format(k, x) for k, x in version['default']]
        for s in version['sections']:
            out.append('[{0}]'.format(s['name']))
            for e in s['entries']:
                out.append(e['o'] + e['d'] + e['f'])
                for indent, text in e['c']:
                    out.append(' ' * (e['pad'] + indent) + text if text else '')
                if e.get('note'):
                    out.append('# a note = about it')
        if version.get('bad') == 'parse':
            out.append('[a')
        text = '\n'.join(out)
        return text + '\n' if version['nl'] else text

    def data(self, plan, v):
        data = self.text(plan, v).encode('utf-8')
        if plan['versions'][v].get('bad') == 'utf8':
            data += b'\n# \xff\xfe broken'
        return data

    def expected(self, plan, v, opts):
        """Values of a form, or None when there is no such section."""
        sections = {}
        if v is not None and v != EMPTY:
            version = plan['versions'][v]
            for i, s in enumerate(version['sections']):
                last = i == len(version['sections']) - 1
                sections[s['name']] = self.section(version, s, last, opts)
        if opts.get('section'):
            found = sections.get(opts['section'])
            if found is None:
                return None
            return self.filled(found, opts.get('defaults') or {})
        out = {}
        for name in SECTIONS:
            if name in sections:
                out[name] = self.filled(sections[name], (opts.get('defaults') or {}).get(name) or {})
            else:
                out[name] = None
        return out

    def filled(self, found, defaults):
        return {name: found.get(name, defaults.get(name)) for name, _ in FIELDS}

    def section(self, version, s, last, opts):
        fold = (lambda x: x) if opts['case'] else (lambda x: x.lower())
        found, raws = {}, {}
        for k, x in version['default']:
            found[fold(k)], raws[fold(k)] = x, x
        for i, e in enumerate(s['entries']):
            at_end = last and i == len(s['entries']) - 1 and not version['nl'] and not e.get('note')
            plain = '\n'.join([e['f']] + [text for _, text in e['c']]).rstrip()
            raw = plain
            if '\n' in plain and opts['ws']:
                lines = [e['f']] if e['f'] else []
                lines += [' ' * indent + text if text else '' for indent, text in e['c']]
                raw = '\n'.join(lines) + ('' if at_end else '\n')
            found[fold(e['o'])], raws[fold(e['o'])] = plain, raw
        out = {}
        for name, kind in FIELDS:
            key = fold(name)
            if kind == 'dict':
                keys = {k: raws['{0}[{1}]'.format(key, k)] for k in KEYS if '{0}[{1}]'.format(key, k) in raws}
                if keys:
                    out[name] = keys
            elif key not in found:
                continue
            elif kind == 'str':
                out[name] = raws[key]
            elif kind == 'int':
                out[name] = int(found[key])
            elif '\n' in found[key]:
                out[name] = [x.strip() for x in found[key].split('\n') if x.strip()]
            else:
                out[name] = split(found[key])
        return out

    # runs

    def run(self, plan):
        out = runner.Outcome()
        for op in all_ops([plan['pre']] + plan['threads']):
            if op.get('version') is not None and op['version'] >= len(plan['versions']):
                raise sched.PlanError('no version')
        fs = fsys.FS(random.Random(plan['fs_seed']))
        for path, v in plan['files']:
            if v >= len(plan['versions']):
                raise sched.PlanError('no version')
            fs.write(path, self.data(plan, v), v)
        pilo = load()
        self.forms(pilo)
        slots = {}       # slot -> [load record, source]
        history = []
        overlap = [0, 0]

        def body(world, env, tid, ops):
            for i, op in enumerate(ops):
                sched.yield_now()
                overlap[1] += overlap[0] > 0
                overlap[0] += 1
                env.set_faults(op.get('faults'))
                fired = sum(env.fired.values())
                env.opened = []
                rec = {'tid': tid, 'i': i, 'op': op, 'start': fs.tick(), 'load': None}
                try:
                    got = engine.guarded(env, lambda: self.operate(plan, fs, pilo, slots, rec, op))
                finally:
                    overlap[0] -= 1
                rec.update(out=got, end=fs.tick(), fired=sum(env.fired.values()) - fired)
                rec['open'] = [h.path for h in env.opened if not h.shut]
                rec['opened'] = len(env.opened)
                env.set_faults(None)
                history.append(rec)
            return []

        class World(Fake):
            def env(self):
                return fsys.FsEnv(pilo=self.pilo)

        gc_was = gc.isenabled()
        gc.disable()
        try:
            with fsys.mounted(fs):
                world = World(pilo)
                env = world.env()

                def pre():
                    with envs.installed(env):
                        body(world, env, -1, plan['pre'])

                engine.bounded(pre)
                run = engine.run_threads(plan, plan['threads'], world=world, make_body=body)
        finally:
            for h in fs.handles:
                h.shut = True
            if gc_was:
                gc.enable()
        out.trace = run.trace
        out.fire(run.fired)
        out.add('steps', run.steps)
        out.add('thread_switches', run.switches)
        out.add('operations', len(history))
        out.add('files_opened', fs.stats['opened'])
        out.sig = repr((plan, run.trace, [h['out'] for h in history]))
        if run.stuck:
            out.violate('stuck', run.stuck)
            return out
        self.judge(out, plan, fs, history)
        out.nontrivial = bool(out.nontrivial or run.fired or overlap[1])
        return out

    def operate(self, plan, fs, pilo, slots, rec, op):
        kind = op['op']
        if kind == 'write':
            fs.write(op['path'], self.data(plan, op['version']), op['version'])
            return ('ok',)
        if kind == 'truncate':
            fs.truncate(op['path'], EMPTY)
            return ('ok',)
        if kind == 'remove':
            fs.remove(op['path'])
            return ('ok',)
        if kind == 'load':
            slots.pop(op['slot'], None)
            rec['at'] = None
            source = self.source(plan, fs, pilo, op, rec)
            if source is None and op['via'] == 'parser':
                # nothing to parse
                return ('nofile',)
            if not isinstance(source, pilo.source.ConfigSource):
                return ('exc', 'not a source', None)
            slots[op['slot']] = (rec, source)
            return ('ok',)
        if kind == 'map':
            if op['slot'] not in slots:
                return ('ok',)
            rec['load'], source = slots[op['slot']]
            opts = rec['load']['op']['opts']
            section, whole = self.made[opts['case']]
            form = section() if opts.get('section') else whole()
            errors = form.map(source)
            values = plain(form)
            if not opts.get('section'):
                values = {name: values.get('f{0}'.format(i)) for i, name in enumerate(SECTIONS)}
            if errors:
                return ('errors', sorted(str(type(e).__name__) for e in errors), values)
            return ('values', values)
        raise sched.PlanError(kind)

    def source(self, plan, fs, pilo, op, rec):
        opts = op['opts']
        cls = pilo.source.ConfigSource
        kwargs = {'preserve_whitespace': opts['ws'], 'preserve_case': opts['case']}
        if opts.get('section'):
            kwargs['section'] = opts['section']
        if opts.get('defaults'):
            kwargs['defaults'] = opts['defaults']
        if op['via'] == 'file':
            return cls.from_file(op['path'], **kwargs)
        if op['via'] == 'text':
            return cls(self.text(plan, op['version']), location='/sim/no such file', **kwargs)
        inode = fs.files.get(op['path'])
        rec['at'] = inode.version if inode else None
        if rec['at'] is None:
            return None
        text = '' if rec['at'] == EMPTY else self.data(plan, rec['at']).decode('utf-8')
        import configparser
        parser = configparser.ConfigParser()
        parser.read_file(io.StringIO(text))
        kwargs['preserve_case'] = False
        return cls(parser, location=op['path'], **kwargs)

    # what is allowed

    def judge(self, out, plan, fs, history):
        candidates = {}
        for rec in sorted(history, key=lambda r: (r['start'], r['end'])):
            op, got = rec['op'], rec['out']
            if rec['open']:
                return self.bad(out, 'a file is left open', rec, 'closed', rec['open'])
            if op['op'] == 'load':
                out.add('load_{0}_{1}'.format(op['via'], got[0]))
                if not self.judge_load(out, plan, fs, rec, candidates):
                    return
            elif op['op'] == 'map' and rec['load'] is not None:
                out.add('map_{0}'.format(got[0]))
                if not self.judge_map(out, plan, fs, rec, candidates):
                    return

    def judge_load(self, out, plan, fs, rec, candidates):
        op, got = rec['op'], rec['out']
        if rec['fired']:
            if got[0] != 'exc' or got[2] is None:
                self.bad(out, 'a failing open or read is hidden', rec, 'the I/O error', got)
                return False
            return True
        if op['via'] == 'text':
            seen = [op['version']]
        elif op['via'] == 'parser':
            seen = [rec['at']]
        else:
            seen = fs.during(op['path'], rec['start'], rec['end'])
        if got[0] == 'nofile':
            return True
        whole = [v for v in seen if v is not None and (v == EMPTY or not plan['versions'][v].get('bad'))]
        if got[0] == 'exc':
            if len(whole) == len(seen):
                self.bad(out, 'loading fails for no reason', rec, 'ok', got)
                return False
            return True
        if not whole:
            self.bad(out, 'a file that cannot be read is loaded', rec, 'an error', got)
            return False
        candidates[id(rec)] = whole
        return True

    def judge_map(self, out, plan, fs, rec, candidates):
        got, first = rec['out'], rec['load']
        opts, via = first['op']['opts'], first['op']['via']
        path = first['op']['path']
        if id(first) not in candidates:
            return True
        changed = set(fs.during(path, first['start'], rec['end'])) != set(candidates[id(first)])
        if changed:
            out.nontrivial = True
            out.add('mapped_after_change')
        if via == 'parser':
            if rec['fired']:
                if got[0] == 'values':
                    self.bad(out, 'a failing open or read is hidden', rec, 'the I/O error', got)
                    return False
                return True
            if changed:
                return True
        elif rec['opened']:
            # the file was read when it was loaded; only its then version counts
            out.add('opened_when_mapped')
        if rec['fired']:
            self.bad(out, 'mapping depends on the file', rec, 'no access', got)
            return False
        left, allowed = [], []
        for v in candidates[id(first)]:
            want = self.expected(plan, v, opts)
            if want is None:
                # no such section
                if got[0] != 'values' or not any(x is not None and x not in defaults(opts) for x in got[1].values()):
                    left.append(v)
                allowed.append('no section')
                continue
            allowed.append(want)
            if got == ('values', want):
                left.append(v)
        if not left:
            self.bad(out, 'values are not those of the version that was loaded', rec, allowed, got)
            return False
        candidates[id(first)] = left
        return True

    def bad(self, out, rule, rec, expected, actual):
        out.violate(rule, {
            'thread': rec['tid'], 'operation': rec['i'], 'op': rec['op'],
            'load': rec['load']['op'] if rec.get('load') else None,
            'expected': jsonable(expected), 'actual': jsonable(actual)})

    # the library

    def forms(self, pilo):
        f = pilo.fields

        def members():
            made = {
                'str': lambda n: f.String(n, default=None), 'int': lambda n: f.Integer(n, default=None),
                'list': lambda n: f.List(f.String(), src=n, default=None),
                'dict': lambda n: f.Dict(f.String(), f.String(), src=n, default=None),
            }
            return {
                name: made[kind](name if self.case_of else name.lower())
                for name, kind in FIELDS
            }

        self.made = {}
        for case in (False, True):
            self.case_of = case
            section = type(pilo.Form)('Section', (pilo.Form,), members())
            whole = type(pilo.Form)('Whole', (pilo.Form,), {
                'f{0}'.format(i): f.SubForm(section, name, default=None) for i, name in enumerate(SECTIONS)})
            self.made[case] = section, whole


def plain(form):
    if form is None or isinstance(form, (str, int)):
        return form
    if isinstance(form, list):
        return [plain(x) for x in form]
    return {k: plain(v) for k, v in form.items()}


def defaults(opts):
    return list((opts.get('defaults') or {}).values())


def split(text):
    out, quoted, word = [], False, None
    for c in text:
        if c == '"':
            quoted, word = not quoted, word or ''
        elif c == ' ' and not quoted:
            if word is not None:
                out.append(word)
            word = None
        else:
            word = (word or '') + c
    return out + ([word] if word is not None else [])


EMPTY = 'empty'
CHECK = C13()
