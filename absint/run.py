"""Loading a tree and analysing the entry points of a specification."""
import ast
import os
import sys
import threading
import time

from .values import Obj, Ref, State
from .engine import Machine, PyExc, Unsup, Inf
from .interp import Interp

HERE = os.path.dirname(os.path.abspath(__file__))
STUBS = os.path.join(HERE, 'stubs')

PRELOAD = ['collections', 'six', 'six.moves', 'functools', 'copy', 'contextlib', 'threading', 'inspect', 're', 'datetime',
           'time', 'decimal', 'uuid', 'json', 'iso8601', 'warnings', 'weakref', 'imp', 'types', 'textwrap', 'shlex',
           'numbers', 'importlib', 'sys', 'io', 'configparser', 'itertools', 'operator', 'abc']


class LoadError(Exception):
    pass


class SpecError(Exception):
    """declaring the forms of a specification raises"""


def imported_in(repo):
    out = set()
    for base, _, names in os.walk(os.path.join(repo, 'pilo')):
        for n in names:
            if n.endswith('.py'):
                try:
                    with open(os.path.join(base, n)) as fo:
                        tree = ast.parse(fo.read())
                except (SyntaxError, ValueError):
                    continue
                for x in ast.walk(tree):
                    if isinstance(x, ast.Import):
                        out.update(a.name for a in x.names)
                    elif isinstance(x, ast.ImportFrom) and not x.level and x.module != '__future__':
                        out.add(x.module)
    return out


def big_stack(fn):
    """runs fn in a thread with a large stack"""
    box = {}

    def go():
        try:
            box['r'] = fn()
        except BaseException as ex:
            box['e'] = ex
    sys.setrecursionlimit(1000000)
    threading.stack_size(1 << 29)
    t = threading.Thread(target=go)
    t.start()
    t.join()
    if 'e' in box:
        raise box['e']
    return box['r']


class Analysis(object):

    def __init__(self, repo, spec_dir, K=3):
        self.ip = Interp(os.path.abspath(repo), [spec_dir, STUBS], K=K)
        self.spec_dir = spec_dir

    def load(self, modules):
        ip = self.ip
        st = State({})
        m = Machine(ip, st, (), {})
        name = None
        try:
            for name in PRELOAD + ['pilo']:
                ip.import_module(m, name)
        except PyExc as ex:
            raise LoadError('the tree does not load: %s at %s' % (ip.describe_exc(ex.val, m.st), m.st.loc))
        for name in sorted(imported_in(self.ip.repo)):
            try:                      # imports inside functions are resolved ahead of the analysis
                ip.import_module(m, name)
            except (PyExc, Unsup):
                pass
        try:
            for name in modules:
                ip.import_module(m, name)
        except PyExc as ex:           # the declarations the specification makes are themselves turned down
            raise SpecError(name, ip.describe_exc(ex.val, m.st), m.st.loc)
        st = m.st
        base = State(dict(st.heap))
        base.nxt = st.nxt
        base.fresh = st.fresh
        base.facts = dict(st.facts)
        ip.loading = False
        ip.reached.clear()
        ip.branches.clear()
        ip.stats = dict((k, 0) for k in ip.stats)
        self.base = base

    def entry_points(self, module):
        ref = self.ip.modules[module]
        o = self.base.get(ref.a) if False else self.base.base[ref.a]
        out = []
        for k, v in o.attrs.items():
            if k.startswith('spec_') and isinstance(v, Ref):
                out.append((k, v))
        out.sort(key=lambda kv: self.base.base[kv[1].a].data.node.lineno)
        return out

    def run(self, module, name, deadline=None):
        """analyses one entry point; returns the number of final abstract states"""
        ip = self.ip
        f = dict(self.entry_points(module))[name]
        st = self.base.fork()
        t0 = time.time()
        if deadline:
            def tick():
                if time.time() - t0 > deadline:
                    raise Unsup('time budget of %s s exceeded' % deadline)
            ip.deadline = tick
        outs = ip.run_function(st, f, [], {})
        for kind, v, s in outs:
            if kind != 'val':
                m = Machine(ip, s.fork(), (), {})
                what = ip.describe_exc(v, s) if kind == 'exc' else 'unwind'
                loc = s.loc
                ip.record(m, '%s: uncaught %s' % (name, what), (v,) if kind == 'exc' else (), loc=loc)
        return len(outs)


#: position of the label in the calls that decide an obligation
LABEL_ARG = {'check': 1, 'reach': 0, 'freeze': 0}


def labels_of(path, tier='quick'):
    """constant labels of the obligations written in a specification file"""
    with open(path) as fo:
        tree = ast.parse(fo.read(), path)
    out = set()
    for top in tree.body:
        if tier == 'quick' and isinstance(top, ast.FunctionDef) and top.name.startswith('spec_deep_'):
            continue
        for n in ast.walk(top):
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Name):
                i = LABEL_ARG.get(n.func.id)
                if i is not None and len(n.args) > i and isinstance(n.args[i], ast.Constant):
                    out.add(n.args[i].value)
    return out
