"""Runs rule.bzl: Starlark is close enough to Python for that.

analyze(kind, config) gives the actions that the rule declares for a target,
each as dict(exe, argv, inputs, outputs).
"""
import os

REPO = os.environ.get('VERIF_REPO', '/repo')


class Struct:
    def __init__(self, **kw):
        self.__dict__.update(kw)


class File:
    def __init__(self, root, short, source):
        self.root = Struct(path=root)
        self.short_path = short
        self.path = root + '/' + short if root else short
        self.basename = short.rsplit('/', 1)[-1]
        self.dirname = self.path.rsplit('/', 1)[0] if '/' in self.path else ''
        self.extension = self.basename.rsplit('.', 1)[-1] if '.' in self.basename else ''
        self.is_source = source
        self.is_directory = False
        self.owner = None

    def __repr__(self):
        return self.path

    def __eq__(self, o):
        return isinstance(o, File) and o.path == self.path

    def __hash__(self):
        return hash(self.path)


class Depset:
    def __init__(self, direct=None, order='default', transitive=None, items=None):
        self.d, self.t = list(direct or items or []), list(transitive or [])

    def to_list(self):
        out = []
        for x in self.d + [y for t in self.t for y in t.to_list()]:
            if x not in out:
                out.append(x)
        return out


def _list(x):
    return x.to_list() if isinstance(x, Depset) else list(x)


def _str(x):
    return x.path if isinstance(x, File) else str(x)


class Args:
    def __init__(self):
        self.argv = []

    def add(self, a, b=None, format=None):
        if b is not None:
            self.argv.append(_str(a))
            a = b
        self.argv.append(format.replace('%s', _str(a)) if format else _str(a))
        return self

    def _values(self, a, b, map_each, uniquify, omit_if_empty):
        name = None
        if b is not None:
            name, a = a, b
        out = []
        for x in _list(a):
            y = map_each(x) if map_each else _str(x)
            out += [] if y is None else y if isinstance(y, (list, tuple)) else [y]
        if uniquify:
            out = list(dict.fromkeys(out))
        return name, out

    def add_all(self, a, b=None, map_each=None, format_each=None, before_each=None, omit_if_empty=True, uniquify=False,
                expand_directories=True, terminate_with=None, allow_closure=False):
        name, out = self._values(a, b, map_each, uniquify, omit_if_empty)
        if not out and omit_if_empty:
            return self
        if name is not None:
            self.argv.append(name)
        for x in out:
            if before_each is not None:
                self.argv.append(before_each)
            self.argv.append(format_each.replace('%s', x) if format_each else x)
        if terminate_with is not None:
            self.argv.append(terminate_with)
        return self

    def add_joined(self, a, b=None, join_with='', map_each=None, format_each=None, format_joined=None, omit_if_empty=True,
                   uniquify=False, expand_directories=True, allow_closure=False):
        name, out = self._values(a, b, map_each, uniquify, omit_if_empty)
        if not out and omit_if_empty:
            return self
        s = join_with.join(format_each.replace('%s', x) if format_each else x for x in out)
        if name is not None:
            self.argv.append(name)
        self.argv.append(format_joined.replace('%s', s) if format_joined else s)
        return self

    def use_param_file(self, *a, **k):
        return self

    def set_param_file_format(self, *a, **k):
        return self


class Actions:
    def __init__(self, where, package):
        self.where, self.package, self.list = where, package, []

    def declare_file(self, name, sibling=None):
        d = sibling.short_path.rsplit('/', 1)[0] if sibling and '/' in sibling.short_path else self.package
        return File(self.where, (d + '/' if d else '') + name, False)

    def args(self):
        return Args()

    def run(self, outputs, inputs=(), executable=None, arguments=(), tools=(), **kw):
        argv = []
        for a in arguments:
            argv += a.argv if isinstance(a, Args) else [_str(a)]
        self.list.append(dict(exe=_str(executable), argv=argv, outputs=[f.path for f in outputs],
                              inputs=[f.path for f in _list(inputs)] + [f.path for f in _list(tools or ())]))

    def run_shell(self, outputs, inputs=(), command='', arguments=(), tools=(), **kw):
        self.run(outputs, inputs, 'sh -c ' + str(command), arguments, tools)

    def write(self, output, content='', is_executable=False):
        self.list.append(dict(exe='(write)', argv=[], outputs=[output.path], inputs=[]))


class Attr:
    def __getattr__(self, name):
        return lambda *a, **k: Struct(kind=name, **k)


def _module(path):
    rules = {}

    def rule(implementation=None, attrs=None, **kw):
        return Struct(implementation=implementation, attrs=attrs or {})

    g = dict(rule=rule, attr=Attr(), struct=Struct, depset=Depset, DefaultInfo=lambda **k: Struct(**k),
             OutputGroupInfo=lambda **k: Struct(**k), provider=lambda *a, **k: (lambda **f: Struct(**f)),
             fail=_fail, select=lambda d, **k: d, Label=lambda s: s, native=Struct(), print=lambda *a, **k: None,
             type=lambda x: {str: 'string', list: 'list', dict: 'dict', File: 'File'}.get(type(x), type(x).__name__),
             __name__='bzl')

    def load(label, *names, **renamed):
        at = label.split('//')[-1].replace(':', '/').lstrip('/')
        p = os.path.join(REPO, at) if '//' in label else os.path.join(os.path.dirname(path), at)
        m = _module(p)
        for n in names:
            g[n] = m[n]
        for k, n in renamed.items():
            g[k] = m[n]

    g['load'] = load
    with open(path, encoding='utf-8') as f:
        exec(compile(f.read(), path, 'exec'), g)
    return g


def _fail(*a, **k):
    raise RuntimeError('fail: %s %s' % (a, k))


def files(config):
    """The files of a target by role."""
    f = lambda x: File(x['root'], x['short'], x['root'] == '')
    return dict(main=f(config['main']), deps=[f(x) for x in config['deps']], out=f(config['out']))


def analyze(config):
    m = _module(os.path.join(REPO, 'stl-to-ps', 'rule.bzl'))
    r = m[config['kind']]
    fs = files(config)
    tool = File('bazel-out/host/bin', 'external/stl_to_ps/stl-to-ps/stl-to-ps', False)
    acts = Actions(config['out']['root'], config['package'])
    kind = config['kind']
    main = 'script' if kind == 'stl2pdf' else 'src'
    target = lambda l: Struct(files=Depset(l), label=None)
    ctx = Struct(label=Struct(name=config['label'], package=config['package'], workspace_name='', workspace_root=''),
                 actions=acts, workspace_name='ws',
                 file=Struct(**{main: fs['main'], '_stl_to_ps': tool}),
                 files=Struct(**{main: [fs['main']], 'deps': list(fs['deps']), '_stl_to_ps': [tool]}),
                 executable=Struct(_stl_to_ps=tool),
                 outputs=Struct(out=fs['out']),
                 attr=Struct(**{main: target([fs['main']]), 'deps': [target([d]) for d in fs['deps']], 'out': config['label'],
                                '_stl_to_ps': target([tool]), 'name': config['label']}),
                 bin_dir=Struct(path=config['out']['root']), genfiles_dir=Struct(path=config['out']['root']),
                 runfiles=lambda files=None, **k: Struct(files=files, merge=lambda o: o, merge_all=lambda o: o))
    r.implementation(ctx)
    declared = {k: dict(v.__dict__) for k, v in r.attrs.items()}
    return dict(config, tool=tool.path, actions=acts.list,
                main=dict(config['main'], path=fs['main'].path), deps=[dict(x, path=f.path) for x, f in zip(config['deps'], fs['deps'])],
                out=dict(config['out'], path=fs['out'].path)), declared
