"""Structural rule of C38: every name, attribute, module and construct of the package exists, with one meaning, on each
supported interpreter line.

For each supported version the syntax tree of every file is walked with that version assumed: branches of tests on
sys.version_info / six.PY2 / six.PY3 that the version rules out are skipped, bodies of try statements that handle the
absence (ImportError, NameError, AttributeError) and of hasattr() tests are guarded.  What remains is looked up in tables
of what exists since or until which version.
"""
import ast
import os

VERSIONS = [(2, 7), (3, 5), (3, 6), (3, 7), (3, 8), (3, 9)]

OLD = ((0, 0), (2, 7))          # Python 2 only
NEW = ((3, 0), (9, 9))          # Python 3 only


def since(*v):
    return (v, (9, 9))


def until(*v):
    """last version that has it"""
    return ((0, 0), v)


BUILTINS = {}
for _n in ('unicode basestring long xrange raw_input unichr reduce file execfile cmp apply buffer intern reload coerce '
           'StandardError').split():
    BUILTINS[_n] = OLD
for _n in ('ascii FileNotFoundError FileExistsError PermissionError NotADirectoryError IsADirectoryError TimeoutError '
           'ConnectionError ConnectionRefusedError ConnectionResetError BrokenPipeError InterruptedError '
           'ProcessLookupError ChildProcessError BlockingIOError ResourceWarning nonlocal __build_class__').split():
    BUILTINS[_n] = NEW
BUILTINS.update(RecursionError=since(3, 5), ModuleNotFoundError=since(3, 6), StopAsyncIteration=since(3, 5),
                breakpoint=since(3, 7), aiter=since(3, 10), anext=since(3, 10), EncodingWarning=since(3, 10),
                ExceptionGroup=since(3, 11), BaseExceptionGroup=since(3, 11))

MODULES = {}
for _n in ('ConfigParser StringIO cStringIO cPickle urllib2 urlparse Queue thread dummy_thread exceptions __builtin__ '
           'htmlentitydefs HTMLParser httplib cookielib Cookie BaseHTTPServer SimpleHTTPServer CGIHTTPServer xmlrpclib '
           'SimpleXMLRPCServer Tkinter SocketServer commands UserDict UserList UserString copy_reg anydbm dbhash md5 '
           'sha sets mimetools rfc822 new user compiler string.letters future_builtins robotparser _winreg '
           'repr').split():
    MODULES[_n] = OLD
for _n in ('configparser builtins queue reprlib copyreg pathlib enum statistics asyncio html html.parser html.entities '
           'http http.client http.server http.cookies http.cookiejar urllib.parse urllib.request urllib.error '
           'urllib.response urllib.robotparser socketserver xmlrpc xmlrpc.client tkinter winreg concurrent '
           'concurrent.futures collections.abc selectors ipaddress faulthandler tracemalloc ensurepip venv lzma '
           'importlib.util importlib.machinery importlib.abc importlib._bootstrap unittest.mock dbm.gnu _thread '
           '_dummy_thread email.policy types.coroutines').split():
    MODULES[_n] = NEW
MODULES.update({'typing': since(3, 5), 'zipapp': since(3, 5), 'secrets': since(3, 6), 'dataclasses': since(3, 7),
                'contextvars': since(3, 7), 'importlib.resources': since(3, 7), 'importlib.metadata': since(3, 8),
                'zoneinfo': since(3, 9), 'graphlib': since(3, 9), 'tomllib': since(3, 11),
                'dummy_threading': until(3, 8), '_dummy_threading': until(3, 8)})

ATTRS = {}


def _attrs(module, names, span):
    for n in names.split():
        ATTRS[module, n] = span


_attrs('itertools', 'izip imap ifilter izip_longest ifilterfalse', OLD)
_attrs('itertools', 'zip_longest filterfalse accumulate', NEW)
_attrs('itertools', 'pairwise', since(3, 10))
_attrs('string', 'letters lowercase uppercase maketrans join joinfields split splitfields replace atoi atof atol lower '
                 'upper strip lstrip rstrip find rfind index count zfill ljust rjust center', OLD)
_attrs('contextlib', 'nested', OLD)
_attrs('contextlib', 'ExitStack ContextDecorator suppress redirect_stdout redirect_stderr', NEW)
_attrs('contextlib', 'nullcontext asynccontextmanager AsyncExitStack AbstractAsyncContextManager', since(3, 7))
_attrs('contextlib', 'AbstractContextManager', since(3, 6))
_attrs('contextlib', 'chdir aclosing', since(3, 10))
_attrs('sys', 'maxint exc_clear exc_type exc_value exc_traceback setdefaultencoding getcheckinterval_ py3kwarning '
              'subversion', OLD)
_attrs('sys', 'intern int_info hash_info implementation thread_info base_prefix abiflags _enablelegacywindowsfsencoding '
              'get_coroutine_wrapper', NEW)
_attrs('sys', 'unraisablehook audit addaudithook', since(3, 8))
_attrs('os', 'getcwdu popen2 popen3 popen4 tmpnam tempnam tmpfile', OLD)
_attrs('os', 'fspath PathLike', since(3, 6))
_attrs('os', 'scandir', since(3, 5))
_attrs('os', 'replace cpu_count fsencode fsdecode getcwdb get_terminal_size DirEntry environb', NEW)
_attrs('types', 'StringType StringTypes UnicodeType ListType DictType DictionaryType TupleType IntType LongType FloatType '
                'BooleanType ClassType InstanceType FileType ObjectType TypeType UnboundMethodType SliceType XRangeType '
                'BufferType ComplexType DictProxyType', OLD)
_attrs('types', 'SimpleNamespace MappingProxyType new_class prepare_class DynamicClassAttribute', NEW)
_attrs('operator', 'isCallable sequenceIncludes div idiv isSequenceType isMappingType isNumberType repeat delslice getslice '
                   'setslice', OLD)
_attrs('operator', 'length_hint', NEW)
_attrs('operator', 'matmul imatmul', since(3, 5))
_attrs('inspect', 'signature Signature Parameter getfullargspec unwrap getattr_static getclosurevars getgeneratorstate '
                  'BoundArguments getcoroutinestate', NEW)
_attrs('inspect', 'iscoroutine iscoroutinefunction isawaitable', since(3, 5))
_attrs('inspect', 'isasyncgen isasyncgenfunction', since(3, 6))
_attrs('inspect', 'get_annotations', since(3, 10))
_attrs('inspect', 'getmoduleinfo', OLD)
_attrs('re', 'fullmatch ASCII A', NEW)
_attrs('re', 'RegexFlag', since(3, 6))
_attrs('re', 'Match Pattern', since(3, 7))
_attrs('re', 'NOFLAG', since(3, 11))
_attrs('time', 'monotonic perf_counter process_time get_clock_info', NEW)
_attrs('time', 'time_ns monotonic_ns perf_counter_ns', since(3, 7))
_attrs('time', 'clock', until(3, 7))
_attrs('threading', 'get_ident main_thread Barrier BrokenBarrierError TIMEOUT_MAX', NEW)
_attrs('threading', 'get_native_id excepthook', since(3, 8))
_attrs('threading', '_sleep _time', OLD)
_attrs('functools', 'lru_cache partialmethod singledispatch', NEW)
_attrs('functools', 'cached_property singledispatchmethod', since(3, 8))
_attrs('functools', 'cache', since(3, 9))
_attrs('json', 'JSONDecodeError', since(3, 5))
_attrs('shlex', 'quote', NEW)
_attrs('shlex', 'join', since(3, 8))
_attrs('textwrap', 'indent shorten', NEW)
_attrs('weakref', 'finalize WeakMethod', NEW)
_attrs('uuid', 'SafeUUID', since(3, 7))
_attrs('collections', 'ChainMap abc', NEW)
_attrs('datetime', 'timezone', NEW)
_attrs('datetime', 'UTC', since(3, 11))
_attrs('decimal', 'FloatOperation', NEW)
_attrs('importlib', 'util machinery abc reload invalidate_caches find_loader import_', NEW)
_attrs('importlib', 'resources', since(3, 7))
_attrs('importlib', 'metadata', since(3, 8))
_attrs('abc', 'ABC get_cache_token', NEW)
_attrs('math', 'isclose inf nan gcd', since(3, 5))
_attrs('math', 'log2', NEW)
_attrs('math', 'tau', since(3, 6))
_attrs('math', 'prod comb perm dist isqrt', since(3, 8))
_attrs('urllib', 'urlencode quote unquote quote_plus unquote_plus urlopen urlretrieve pathname2url url2pathname splitquery',
       OLD)
_attrs('urllib', 'parse request error', NEW)
_attrs('base64', 'encodestring decodestring', until(3, 8))
_attrs('fractions', 'gcd', until(3, 8))
_attrs('cgi', 'escape parse_qs parse_qsl', until(3, 7))
_attrs('platform', 'linux_distribution dist', until(3, 7))
_attrs('copy', 'replace', since(3, 13))
_attrs('numbers', 'Inexact', ((9, 9), (9, 9)))
_attrs('string', 'ascii', ((9, 9), (9, 9)))

# methods and attributes with names nothing else has
METHODS = {}
for _n in ('iteritems iterkeys itervalues has_key viewkeys viewvalues viewitems im_func im_self im_class func_name func_code '
           'func_globals func_defaults func_closure func_doc func_dict').split():
    METHODS[_n] = OLD
for _n in ('casefold isidentifier isprintable format_map to_bytes from_bytes __kwdefaults__ __traceback__ __cause__ '
           'with_traceback __suppress_context__ fullmatch __qualname__ read_file read_string read_dict move_to_end '
           'maketrans').split():
    METHODS[_n] = NEW
METHODS.update(fromisoformat=since(3, 7), isascii=since(3, 7), removeprefix=since(3, 9), removesuffix=since(3, 9),
               isAlive=until(3, 8), is_integer_=NEW)

# keyword arguments of library calls
KEYWORDS = {('json', 'loads', 'encoding'): until(3, 8), ('json', 'load', 'encoding'): until(3, 8),
            ('json', 'dumps', 'encoding'): OLD, ('json', 'dump', 'encoding'): OLD, ('', 'open', 'encoding'): NEW,
            ('', 'open', 'newline'): NEW, ('', 'open', 'errors'): NEW, ('', 'sorted', 'cmp'): OLD, ('', 'max', 'default'): NEW,
            ('', 'min', 'default'): NEW, ('', 'str', 'encoding'): NEW, ('', 'str', 'errors'): NEW,
            ('', 'bytes', 'encoding'): NEW, ('', 'bytes', 'errors'): NEW, ('', 'sum', 'start'): since(3, 8),
            ('', 'compile', 'optimize'): NEW, ('os', 'makedirs', 'exist_ok'): NEW, ('io', 'open', 'opener'): NEW,
            ('', 'open', 'opener'): NEW, ('', 'open', 'closefd'): NEW, ('logging', 'basicConfig', 'handlers'): NEW, ('', 'print', 'flush'): NEW, ('', 'zip', 'strict'): since(3, 10),
            ('importlib', 'import_module', 'level'): ((9, 9), (9, 9)), ('re', 'sub', 'strict'): ((9, 9), (9, 9)),
            ('inspect', 'getsource', 'x'): ((9, 9), (9, 9)), ('textwrap', 'fill', 'tabsize'): NEW,
            ('textwrap', 'wrap', 'tabsize'): NEW, ('copy', 'copy', 'x'): ((9, 9), (9, 9)),
            ('warnings', 'warn', 'source'): since(3, 6), ('datetime', 'now', 'fold'): since(3, 6),
            ('threading', 'Thread', 'daemon'): NEW, ('time', 'sleep', 'x'): ((9, 9), (9, 9))}
METHOD_KEYWORDS = {('sort', 'cmp'): OLD, ('rsplit', 'maxsplit'): NEW, ('splitlines', 'keepends'): NEW,
                   ('get', 'fallback'): NEW, ('getint', 'fallback'): NEW, ('getfloat', 'fallback'): NEW,
                   ('getboolean', 'fallback'): NEW, ('expandtabs', 'tabsize'): NEW,
                   ('ConfigParser', 'strict'): NEW, ('ConfigParser', 'interpolation'): NEW,
                   ('ConfigParser', 'delimiters'): NEW, ('ConfigParser', 'comment_prefixes'): NEW,
                   ('ConfigParser', 'inline_comment_prefixes'): NEW, ('ConfigParser', 'empty_lines_in_values'): NEW,
                   ('ConfigParser', 'default_section'): NEW, ('ConfigParser', 'converters'): since(3, 5), ('readline', 'x'): ((9, 9), (9, 9)), ('encode', 'x'): ((9, 9), (9, 9)),
                   ('isoformat', 'timespec'): since(3, 6), ('hexdigest', 'x'): ((9, 9), (9, 9))}

# special methods that only work in pairs
PAIRS = [('__bool__', '__nonzero__'), ('__next__', 'next'), ('__truediv__', '__div__')]

# calls whose result is a list on Python 2 and an iterator or view on Python 3
LAZY_FUNCS = ('map', 'filter', 'zip')
LAZY_METHODS = ('keys', 'values', 'items')
LIST_ONLY = ('sort', 'append', 'extend', 'insert', 'reverse', 'pop', 'index', 'count', 'remove')


def exists(span, v):
    return span[0][:2] <= v <= span[1][:2]


ABSENCE = ('ImportError', 'ModuleNotFoundError', 'AttributeError', 'NameError', 'Exception', 'BaseException', 'TypeError')


class Walker(ast.NodeVisitor):

    def __init__(self, path, tree, version, own):
        self.path, self.version, self.own = path, version, own
        self.sites, self.found = 0, []
        self.aliases = {}           # local name -> module
        self.imported = {}          # local name -> (module, attr)
        self.bound = set()
        self.guarded = 0
        self.has = []               # names a hasattr test vouches for
        self.lazy = [{}]
        self.futures = set()
        self.tree, self.list_attrs = tree, None
        for n in ast.walk(tree):
            if isinstance(n, ast.Import):
                for a in n.names:
                    self.aliases[a.asname or a.name.split('.')[0]] = a.name if a.asname else a.name.split('.')[0]
            elif isinstance(n, ast.ImportFrom):
                for a in n.names:
                    self.bound.add(a.asname or a.name)
                    if not n.level:
                        self.imported[a.asname or a.name] = (n.module, a.name)
                    if n.module == '__future__':
                        self.futures.add(a.name)
            elif isinstance(n, (ast.FunctionDef, ast.ClassDef)):
                self.bound.add(n.name)
                if isinstance(n, ast.FunctionDef):
                    for a in n.args.args + n.args.kwonlyargs:
                        self.bound.add(a.arg)
                    for a in (n.args.vararg, n.args.kwarg):
                        if a:
                            self.bound.add(a.arg)
            elif isinstance(n, ast.Lambda):
                for a in n.args.args:
                    self.bound.add(a.arg)
            elif isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                self.bound.add(n.id)
            elif isinstance(n, ast.ExceptHandler) and n.name:
                self.bound.add(n.name)

    # -- reporting

    def no(self, node, what, span=None):
        if self.guarded:
            return
        self.found.append((node.lineno, what, span))

    def span(self, node, what, span):
        self.sites += 1
        if span is not None and not exists(span, self.version):
            self.no(node, what, span)

    # -- guards

    def test(self, node):
        """the value of a version test: True, False or None"""
        if isinstance(node, ast.UnaryOp) and isinstance(node.op, ast.Not):
            v = self.test(node.operand)
            return None if v is None else not v
        if isinstance(node, ast.BoolOp):
            vs = [self.test(x) for x in node.values]
            if isinstance(node.op, ast.And):
                return False if False in vs else (True if all(v is True for v in vs) else None)
            return True if True in vs else (False if all(v is False for v in vs) else None)
        name = dotted(node)
        if name in ('six.PY2', 'PY2'):
            return self.version < (3,)
        if name in ('six.PY3', 'PY3'):
            return self.version >= (3,)
        if name in ('six.PY34', 'PY34'):
            return self.version >= (3, 4)
        if isinstance(node, ast.Compare) and len(node.ops) == 1:
            a, b = self.value(node.left), self.value(node.comparators[0])
            if a is None or b is None:
                return None
            op = type(node.ops[0]).__name__
            try:
                return {'Lt': lambda: a < b, 'LtE': lambda: a <= b, 'Gt': lambda: a > b, 'GtE': lambda: a >= b,
                        'Eq': lambda: a == b, 'NotEq': lambda: a != b}[op]()
            except (KeyError, TypeError):
                return None
        return None

    def value(self, node):
        if isinstance(node, ast.Constant) and isinstance(node.value, int):
            return node.value
        if isinstance(node, ast.Tuple) and all(isinstance(e, ast.Constant) for e in node.elts):
            return tuple(e.value for e in node.elts)
        name = dotted(node)
        if name == 'sys.version_info':
            return self.version + (99,)
        if name == 'sys.version_info.major':
            return self.version[0]
        if name == 'sys.version_info.minor':
            return self.version[1]
        if name == 'sys.hexversion':
            return self.version[0] << 24 | self.version[1] << 16 | 0xf0
        if isinstance(node, ast.Subscript) and dotted(node.value) == 'sys.version_info':
            whole = self.version + (99,)
            s = node.slice
            if isinstance(s, ast.Constant) and isinstance(s.value, int):
                return whole[s.value]
            if isinstance(s, ast.Slice) and s.step is None:
                lo = s.lower.value if isinstance(s.lower, ast.Constant) else None
                hi = s.upper.value if isinstance(s.upper, ast.Constant) else None
                return whole[lo:hi]
        return None

    def vouched(self, test):
        out = []
        for n in ast.walk(test):
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id == 'hasattr' and len(n.args) == 2 \
                    and isinstance(n.args[1], ast.Constant):
                out.append(n.args[1].value)
        return out

    def branch(self, test, body, orelse):
        self.visit(test)
        t = self.test(test)
        names = self.vouched(test)
        negated = isinstance(test, ast.UnaryOp) and isinstance(test.op, ast.Not)
        if t is not False:
            self.has.append([] if negated else names)
            for n in body:
                self.visit(n)
            self.has.pop()
        if t is not True:
            # what exists where the name tested for does not is up to the test
            self.has.append(names if negated else ['*'] if names else [])
            for n in orelse:
                self.visit(n)
            self.has.pop()

    def visit_If(self, node):
        self.branch(node.test, node.body, node.orelse)

    def visit_IfExp(self, node):
        self.branch(node.test, [node.body], [node.orelse])

    def visit_BoolOp(self, node):
        if isinstance(node.op, ast.And):
            names = []
            for v in node.values:
                self.has.append(list(names))
                self.visit(v)
                self.has.pop()
                names += self.vouched(v)
                if self.test(v) is False:
                    break
        else:
            for v in node.values:
                self.visit(v)
                if self.test(v) is True:
                    break

    def visit_Try(self, node):
        caught = set()
        for h in node.handlers:
            if h.type is None:
                caught.add('Exception')
            else:
                for n in ast.walk(h.type):
                    if isinstance(n, ast.Name):
                        caught.add(n.id)
        guard = False
        for n in node.body:
            # a guard is a try around an import or a plain reference, not around a whole operation
            if isinstance(n, (ast.Import, ast.ImportFrom)) and caught & set(ABSENCE):
                guard = True
            if isinstance(n, (ast.Assign, ast.Expr, ast.Return)) and caught & {'AttributeError', 'NameError'}:
                guard = True
        self.guarded += guard
        for n in node.body:
            self.visit(n)
        self.guarded -= guard
        for n in node.handlers + node.orelse + node.finalbody:
            if guard and isinstance(n, ast.ExceptHandler):
                # the alternative
                self.guarded += 1
                self.visit(n)
                self.guarded -= 1
            else:
                self.visit(n)

    # -- constructs

    def visit_JoinedStr(self, node):
        self.span(node, 'f-string', since(3, 6))
        self.generic_visit(node)

    def visit_NamedExpr(self, node):
        self.span(node, 'assignment expression', since(3, 8))
        self.generic_visit(node)

    def visit_Nonlocal(self, node):
        self.span(node, 'nonlocal', NEW)

    def visit_YieldFrom(self, node):
        self.span(node, 'yield from', NEW)
        self.generic_visit(node)

    def visit_AsyncFunctionDef(self, node):
        self.span(node, 'async def', since(3, 5))
        self.generic_visit(node)

    def visit_Starred(self, node):
        if isinstance(node.ctx, ast.Store):
            self.span(node, 'starred assignment', NEW)
        self.generic_visit(node)

    def visit_List(self, node):
        for e in node.elts:
            if isinstance(e, ast.Starred) and isinstance(node.ctx, ast.Load):
                self.span(e, 'unpacking in a display', since(3, 5))
        self.generic_visit(node)

    visit_Tuple = visit_Set = None

    def _display(self, node):
        for e in node.elts:
            if isinstance(e, ast.Starred) and isinstance(getattr(node, 'ctx', ast.Load()), ast.Load):
                self.span(e, 'unpacking in a display', since(3, 5))
        self.generic_visit(node)

    visit_Tuple = visit_Set = _display

    def visit_Dict(self, node):
        for k in node.keys:
            if k is None:
                self.span(node, 'unpacking in a display', since(3, 5))
        self.generic_visit(node)

    def visit_AnnAssign(self, node):
        self.span(node, 'annotated assignment', since(3, 6))
        self.generic_visit(node)

    def visit_MatMult(self, node):
        self.span(node, 'matrix multiplication', since(3, 5))

    def visit_Match(self, node):
        self.span(node, 'match statement', since(3, 10))
        self.generic_visit(node)

    def visit_Raise(self, node):
        if node.cause is not None:
            self.span(node, 'raise ... from', NEW)
        self.generic_visit(node)

    def visit_BinOp(self, node):
        if isinstance(node.op, ast.Div) and 'division' not in self.futures and self.version == (2, 7):
            # with an explicit float it means the same
            if not any(isinstance(x, ast.Constant) and isinstance(x.value, float) or
                       isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id == 'float'
                       for x in (node.left, node.right)):
                self.sites += 1
                self.no(node, 'division that truncates on Python 2')
        self.generic_visit(node)

    def function(self, node):
        if node.args.kwonlyargs:
            self.span(node, 'keyword-only argument', NEW)
        if getattr(node.args, 'posonlyargs', None):
            self.span(node, 'positional-only argument', since(3, 8))
        if isinstance(node, ast.FunctionDef):
            if node.returns is not None or any(a.annotation for a in node.args.args):
                self.span(node, 'annotation', NEW)
        self.lazy.append({})
        self.generic_visit(node)
        self.lazy.pop()

    visit_FunctionDef = function
    visit_Lambda = function

    def visit_ClassDef(self, node):
        for k in node.keywords:
            self.span(node, 'class keyword %s' % k.arg, NEW)
        names = set()
        for n in node.body:
            if isinstance(n, ast.FunctionDef):
                names.add(n.name)
            elif isinstance(n, ast.Assign):
                names.update(t.id for t in n.targets if isinstance(t, ast.Name))
        if '__metaclass__' in names:
            self.span(node, '__metaclass__', OLD)
        for new, old in PAIRS:
            if new in names and old not in names:
                self.span(node, 'class %s defines %s without %s' % (node.name, new, old), NEW)
            elif new == '__next__' and old in names and new not in names and '__iter__' in names:
                self.span(node, 'class %s defines next without __next__' % node.name, OLD)
            elif old in names and new not in names and new != '__next__':
                self.span(node, 'class %s defines %s without %s' % (node.name, old, new), OLD)
        if '__cmp__' in names and '__lt__' not in names:
            self.span(node, 'class %s orders by __cmp__' % node.name, OLD)
        for n in ('__getslice__', '__setslice__', '__delslice__', '__coerce__'):
            if n in names and '__getitem__' not in names:
                self.span(node, 'class %s relies on %s' % (node.name, n), OLD)
        self.generic_visit(node)

    # -- names

    def visit_Import(self, node):
        for a in node.names:
            self.span(node, 'module %s' % a.name, MODULES.get(a.name))

    def visit_ImportFrom(self, node):
        if node.level:
            return
        self.span(node, 'module %s' % node.module, MODULES.get(node.module))
        for a in node.names:
            self.span(node, '%s.%s' % (node.module, a.name),
                      ATTRS.get((node.module, a.name)) or MODULES.get('%s.%s' % (node.module, a.name)))

    def visit_Name(self, node):
        if isinstance(node.ctx, ast.Load) and node.id not in self.bound and node.id not in self.aliases:
            self.span(node, 'builtin %s' % node.id, BUILTINS.get(node.id))

    def vouches(self, name):
        return any(name in h or '*' in h for h in self.has)

    def visit_Attribute(self, node):
        base = dotted(node.value)
        mod = self.aliases.get(base) if base else None
        if mod is None and base and base.split('.')[0] in self.aliases:
            mod = self.aliases[base.split('.')[0]] + base[len(base.split('.')[0]):]
        if mod is not None and not mod.startswith('six'):
            span = ATTRS.get((mod, node.attr)) or MODULES.get('%s.%s' % (mod, node.attr))
            if not self.vouches(node.attr):
                self.span(node, '%s.%s' % (mod, node.attr), span)
        elif node.attr in METHODS and node.attr not in self.own and not (base or '').startswith('six') \
                and isinstance(node.ctx, ast.Load):
            if not self.vouches(node.attr):
                self.span(node, 'attribute %s' % node.attr, METHODS[node.attr])
        else:
            self.sites += 1
        self.generic_visit(node)

    def lists(self, node):
        """whether the attribute is only ever assigned lists"""
        if isinstance(node, (ast.List, ast.ListComp)):
            return True
        if not isinstance(node, ast.Attribute):
            return False
        if self.list_attrs is None:
            yes, no = set(), set()
            for n in ast.walk(self.tree):
                if not isinstance(n, (ast.Assign, ast.AnnAssign, ast.AugAssign)):
                    continue
                for x in n.targets if isinstance(n, ast.Assign) else [n.target]:
                    for y in ast.walk(x):
                        if isinstance(y, ast.Attribute) and isinstance(y.ctx, ast.Store):
                            v = n.value
                            is_list = y is x and not isinstance(n, ast.AugAssign) and (
                                isinstance(v, (ast.List, ast.ListComp)) or isinstance(v, ast.Call) and
                                isinstance(v.func, ast.Name) and v.func.id in ('list', 'sorted') and v.func.id not in self.bound)
                            (yes if is_list else no).add(y.attr)
            self.list_attrs = yes - no
        return node.attr in self.list_attrs

    def lazy_call(self, node):
        if not isinstance(node, ast.Call):
            if isinstance(node, ast.Name):
                return self.lazy[-1].get(node.id)
            return None
        f = node.func
        if isinstance(f, ast.Name) and f.id in LAZY_FUNCS and f.id not in self.bound:
            return f.id
        if isinstance(f, ast.Attribute) and f.attr in LAZY_METHODS and not node.args and f.attr not in self.own:
            return f.attr
        return None

    def visit_Assign(self, node):
        what = self.lazy_call(node.value) if isinstance(node.value, ast.Call) else None
        for t in node.targets:
            if isinstance(t, ast.Name):
                if what:
                    self.lazy[-1][t.id] = what
                else:
                    self.lazy[-1].pop(t.id, None)
        self.generic_visit(node)

    def visit_Subscript(self, node):
        what = self.lazy_call(node.value)
        if what and isinstance(node.ctx, ast.Load):
            self.sites += 1
            self.span(node, 'indexing the result of %s()' % what, OLD)
        self.generic_visit(node)

    def visit_Call(self, node):
        f = node.func
        if isinstance(f, ast.Name):
            if f.id == 'super' and not node.args:
                self.span(node, 'super() without arguments', NEW)
            if f.id == 'len' and len(node.args) == 1 and self.lazy_call(node.args[0]) in LAZY_FUNCS:
                self.span(node, 'len() of an iterator', OLD)
            if f.id == 'next' and len(node.args) == 1 and self.lazy_call(node.args[0]) in LAZY_FUNCS:
                self.span(node, 'next() of a list', NEW)
            if f.id == 'round' and len(node.args) == 1:
                self.span(node, 'type of round()', NEW)
            for k in node.keywords:
                if f.id not in self.bound:
                    self.span(node, '%s(%s=)' % (f.id, k.arg), KEYWORDS.get(('', f.id, k.arg)))
        elif isinstance(f, ast.Attribute):
            base = dotted(f.value)
            mod = self.aliases.get(base) if base else None
            for k in node.keywords:
                if mod:
                    self.span(node, '%s.%s(%s=)' % (mod, f.attr, k.arg), KEYWORDS.get((mod, f.attr, k.arg)))
                elif k.arg and f.attr not in self.own:
                    self.span(node, '.%s(%s=)' % (f.attr, k.arg), METHOD_KEYWORDS.get((f.attr, k.arg)))
            if f.attr == 'split' and not mod and any(k.arg == 'maxsplit' for k in node.keywords) and \
                    (not node.args or isinstance(node.args[0], ast.Constant)):
                self.span(node, 'str.split(maxsplit=)', NEW)
            if f.attr in ('copy', 'clear') and not node.args and self.lists(f.value):
                self.span(node, '.%s() of a list' % f.attr, NEW)
            if f.attr == 'next' and not node.args and not node.keywords and 'next' not in self.own:
                self.span(node, '.next()', OLD)
            if f.attr == '__next__' and not node.args and '__next__' not in self.own:
                self.span(node, '.__next__()', NEW)
            if f.attr in LIST_ONLY and self.lazy_call(f.value):
                self.span(node, '.%s() of the result of %s()' % (f.attr, self.lazy_call(f.value)), OLD)
        self.generic_visit(node)

    def generic_visit(self, node):
        if isinstance(node, ast.BinOp) and isinstance(node.op, (ast.BitAnd, ast.BitOr, ast.BitXor, ast.Sub)):
            for a in (node.left, node.right):
                if self.lazy_call(a) in ('keys', 'items'):
                    self.span(node, 'set operation on the result of %s()' % self.lazy_call(a), NEW)
        if isinstance(node, ast.BinOp) and isinstance(node.op, ast.Add):
            for a in (node.left, node.right):
                if self.lazy_call(a):
                    self.span(node, 'adding the result of %s()' % self.lazy_call(a), OLD)
        ast.NodeVisitor.generic_visit(self, node)


def dotted(node):
    parts = []
    while isinstance(node, ast.Attribute):
        parts.append(node.attr)
        node = node.value
    if isinstance(node, ast.Name):
        parts.append(node.id)
        return '.'.join(reversed(parts))
    return None


def sources(repo):
    out = []
    for base, dirs, files in os.walk(os.path.join(repo, 'pilo')):
        dirs[:] = sorted(d for d in dirs if d != '__pycache__')
        for f in sorted(files):
            if f.endswith('.py'):
                out.append(os.path.join(base, f))
    return out


def analyse(path, rel, own, source=None):
    if source is None:
        with open(path) as fo:
            source = fo.read()
    tree = ast.parse(source, path)
    sites, found = 0, {}
    for v in VERSIONS:
        w = Walker(path, tree, v, own)
        w.visit(tree)
        sites += w.sites
        for line, what, span in w.found:
            found.setdefault((what, line), []).append('%d.%d' % v)
    out = []
    for (what, line), versions in sorted(found.items(), key=lambda x: x[0][1]):
        out.append({'label': '%s is not the same on Python %s' % (what, ', '.join(versions)),
                    'where': '%s:%s' % (rel, line), 'values': []})
    return sites, out


def own_names(trees):
    """methods the package defines itself under names the tables know"""
    own = set()
    for tree in trees:
        for n in ast.walk(tree):
            if isinstance(n, ast.ClassDef):
                own.update(f.name for f in n.body if isinstance(f, ast.FunctionDef))
    return own - {'next', '__next__', 'keys', 'values', 'items'}


# one construct per kind that the rule must report on every run, and its portable or guarded twin it must not
EXAMPLES = [
    ('def f(d):\n    return d.iteritems()\n', 'import six\ndef f(d):\n    return six.iteritems(d)\n'),
    ('import contextlib\nwith contextlib.nested():\n    pass\n', 'import contextlib\nclose = contextlib.closing\n'),
    ('x = unicode("")\n', 'import six\nx = six.text_type("")\n'),
    ('x = f"{1}"\n', 'x = "{0}".format(1)\n'),
    ('import configparser\n', 'from six.moves import configparser\n'),
    ('try:\n    import configparser2\nexcept ImportError:\n    pass\nimport StringIO\n',
     'try:\n    import StringIO\nexcept ImportError:\n    import io as StringIO\n'),
    ('import inspect, sys\nif sys.version_info > (3, 3):\n    a = inspect.getargspec\nelse:\n    a = inspect.getfullargspec\n',
     'import inspect, sys\nif sys.version_info <= (3, 3):\n    a = inspect.getargspec\nelse:\n    a = inspect.getfullargspec\n'),
    ('class A(object):\n    def __nonzero__(self):\n        return False\n',
     'class A(object):\n    def __bool__(self):\n        return False\n    __nonzero__ = __bool__\n'),
    ('import json\njson.loads("", encoding="x")\n', 'import json\njson.loads("")\n'),
    ('def f(d):\n    return d.keys()[0]\n', 'def f(d):\n    return list(d.keys())[0]\n'),
    ('def f(a, b):\n    return a.keys() & b\n', 'def f(a, b):\n    return set(a.keys()) & b\n'),
    ('def f(p):\n    p.read_file(1)\n', 'def f(p):\n    if hasattr(p, "read_file"):\n        p.read_file(1)\n'),
    ('class A(object):\n    def f(self):\n        self.x = []\n        return self.x.copy()\n',
     'class A(object):\n    def f(self):\n        self.x = {}\n        return self.x.copy()\n'),
    ('def f(a):\n    return a.split("x", maxsplit=1)\n', 'def f(a, p):\n    return a.split("x", 1), p.split(a, maxsplit=1)\n'),
    ('def f(a, b):\n    return a / b\n', 'def f(a, b):\n    return a // b\n'),
]


def rule(repo):
    errors, violations, sites, files = [], [], 0, []
    paths = sources(repo)
    trees = []
    for p in paths:
        with open(p) as fo:
            trees.append(ast.parse(fo.read(), p))
    own = own_names(trees)
    for p in paths:
        rel = os.path.relpath(p, repo)
        n, found = analyse(p, rel, own)
        sites += n
        files.append('%s: %d' % (rel, n))
        violations.extend(found)
    for i, (bad, good) in enumerate(EXAMPLES):
        if not analyse('<example>', '<example>', set(), bad)[1]:
            errors.append('portability: example %d is no longer reported' % i)
        if analyse('<example>', '<example>', set(), good)[1]:
            errors.append('portability: the twin of example %d is reported' % i)
    if len(paths) < 3 or sites < 1000:
        errors.append('portability: only %d files, %d references found' % (len(paths), sites))
    return {'rule': 'portability', 'sites': sites, 'samples': files, 'violations': violations, 'errors': errors,
            'versions': ['%d.%d' % v for v in VERSIONS]}
