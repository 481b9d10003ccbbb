"""C38: the features whose library calls differ between the Python lines, analysed on the Python 3 line; the rule
rules/portability.py covers every name, attribute and construct of the package on each supported version."""
from base import *
from pilo.source import ConfigSource, JsonSource, MountSource, UnionSource


def spec_config_text():
    """config sources from text and files of text"""
    text = '[s]\na = 1\nb = x y\nm[k] = v\n'
    src = ConfigSource(text)
    path = src.path()
    check(sorted(path.mapping()) == ['s'], 'config text is read')
    path.append('s')
    check('a' in path.mapping() and 'b' in path.mapping(), 'options of config text are listed')
    path.append('b')
    check(path.sequence() == 2, 'words of config text are counted')


def spec_json_text():
    src = JsonSource('{"a": [1, "x"]}')
    path = src.path()
    path.append('a')
    check(path.exists and path.sequence() == 2, 'JSON text is read')


def spec_mounts():
    src = MountSource(m=DefaultSource({'a': any_value('a', 'int')}))
    path = src.path()
    check(list(path.mapping()) == ['m'], 'mounts are listed')
    path.append('m')
    path.append('a')
    check(path.exists, 'mounted data is found')


def spec_code():
    class F(pilo.Form):
        a = fields.Code()

    f = F()
    errs = f.map({'a': choose('X = 1\nY = 2\n', 'os.path:join')})
    check(errs or got(f) is not NONE, 'in-line code and names of modules are loaded')


def spec_from_context():
    v = any_value('v', 'str', 'int')

    class F(pilo.Form):
        a = pilo.Field('who').from_context()

    f = F()
    with pilo.ctx(who=v):
        errs = f.map({})
    check(not errs and same(got(f), v), 'a field is read from the context')


def spec_hooks():
    """the signature of hooks is read with inspect"""
    class F(pilo.Form):
        a = pilo.Field()

        @a.munge
        def a(self, value):
            return value

    v = any_value('v', 'str', 'int')
    f = F()
    errs = f.map({'a': v})
    check(not errs and same(got(f), v), 'hooks are accepted by signature')


def run_everything():
    """operations of every part, analysed for version-limited operations on the way"""
    class In(pilo.Form):
        p = fields.Integer().min(1).tag('t')
        q = fields.String(default='q', length=(0, 3), choices=['q', 'r']).translate({'r': 'q'})

    class F(pilo.Form):
        i = fields.SubForm(In, reset=True, unmapped='capture').tag('t')
        l = fields.List(fields.SubForm(In), min_length=0, max_length=2)
        d = fields.Dict(fields.String(), fields.Integer(), required_keys=['k'], max_keys=2)
        t = fields.Tuple(fields.Float(), fields.Boolean(), default=None).tag('t')
        g = fields.Group((pilo.Field('x')), default=list)
        c = fields.Type.constant('c')
    return F, In


def spec_run_forms():
    F, In = run_everything()
    f = F()
    v = any_value('v', 'int', 'str', 'list')
    data = {'i': {'p': v, 'extra': 1}, 'l': [{'p': 1}, {'p': v}], 'd': {'k': 1, 'o': v}, 't': [1.5, True], 'x': 1}
    errs = f.map(data, tags=choose(None, ['t']), reset=True, unmapped='capture')
    list(f.flatten())
    f.filter('t')
    f.filter('t', inv=True)
    f.copy()
    f.munge(lambda form, field, value: value)
    f.has('l') if 'l' in f else f.has('c')
    [str(e) for e in errs]
    f.map([1, 2])
    try:
        F(data)
    except fields.FormError as ex:
        repr(ex)
        str(ex)
    reach('forms are mapped and viewed')


def spec_run_declarations():
    F, In = run_everything()
    k = F.t.clone()
    k.tag('u', v=1).ignore('x').translate({'a': 'b'}).options(nullable=False, tags='w')
    F.d.constant({})

    class G(F):
        t = k
        i = fields.Integer()
    check(len(G.fields) == len(F.fields), 'declarations are copied and overridden')
    a = form_with(fields.PolymorphicSubForm(Animal.kind))()
    a.map({'a': {'kind': choose('cat', 'bird')}})
    Animal.kind.cast({'kind': 'cat'})


def spec_run_context():
    with pilo.ctx(src=DefaultSource({'a': [1]}), v=1):
        with pilo.ctx(src='a'):
            with pilo.ctx(src=0):
                with pilo.ctx.rewind(lambda frame: frame.get('v') == 1):
                    check(len(pilo.ctx.src_path) == 0, 'frames are rewound')
            with pilo.ctx.reset():
                pilo.ctx.values_for('v')


def spec_run_union():
    merge = choose('first', 'last', 'combine')
    src = UnionSource([{'m': {'a': 1}, 's': [1]}, {'m': {'b': None}, 's': [2]}], merge=merge)
    p = src.path()
    p.append('m')
    check(len(list(p.mapping())) > 0, 'a union is read')
    p[0] = 's'
    p.sequence()
    p.append(0)
    p.primitive(int)
    str(p)
    del p[1]
    p.is_null
    src = MountSource(m=src)
    p = src.path()
    p.extend(['m', 's'])
    p.sequence()
    p.append(0)
    p.primitive(int)
    str(p)
