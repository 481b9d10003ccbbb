"""Abstract interpreter for the Python subset pilo is written in.

Statements are interpreted over sets of abstract states (trace partitioning): every branch on a fact the state
does not decide splits the state and refines it, equal states are joined again after every compound statement and
at every function exit.  Nothing of the analysed program is ever executed by the host interpreter.
"""
import decimal
import math
import ast
import builtins as _py
import os
import re
import string
import sys

from .values import (
    Opq, Ref, Tup, BT, NF, BM, NM, UM, SuperV, Obj, State, is_const, valkey, term_str,
)

sys.setrecursionlimit(100000)


class Inf(Exception):
    """infeasible branch"""


class Unsup(Exception):
    """construct outside the analysed subset"""


class PyExc(Exception):
    """an exception of the analysed program"""

    def __init__(self, val):
        Exception.__init__(self)
        self.val = val


class Unwind(Exception):
    """leaves a generator body from a yield (break/return/raise in the consumer)"""

    def __init__(self, payload):
        Exception.__init__(self)
        self.payload = payload


class Frame(object):
    __slots__ = ('env', 'mod', 'cls', 'handler', 'fn', 'file', 'mark', 'globals_', 'nonlocals', 'locals')

    def __init__(self, env, mod, cls, fn, file, handler=None, globals_=(), nonlocals=(), locals=None):
        self.env, self.mod, self.cls, self.fn, self.file = env, mod, cls, fn, file
        self.handler = handler
        self.globals_ = globals_
        self.nonlocals = nonlocals
        self.locals = locals

    def sub(self, **kw):
        f = Frame(self.env, self.mod, self.cls, self.fn, self.file, self.handler, self.globals_, self.nonlocals,
                  self.locals)
        for k, v in kw.items():
            setattr(f, k, v)
        return f


ALL_TAGS = frozenset([
    'None', 'bool', 'int', 'float', 'str', 'bytes', 'list', 'tuple', 'dict', 'date', 'datetime', 'time',
    'struct_time', 'Decimal', 'UUID', 'object',
])

#: built-in (and standard) classes each tag is an instance of
TAG_CLASSES = {
    'None': ['NoneType'],
    'bool': ['bool', 'int', 'Number', 'Integral', 'Real'],
    'int': ['int', 'Number', 'Integral', 'Real'],
    'float': ['float', 'Number', 'Real'],
    'complex': ['complex', 'Number'],
    'str': ['str', 'Sequence', 'Iterable', 'Sized', 'Container', 'Collection'],
    'bytes': ['bytes', 'Sequence', 'Iterable', 'Sized', 'Container', 'Collection'],
    'list': ['list', 'Sequence', 'MutableSequence', 'Iterable', 'Sized', 'Container', 'Collection'],
    'tuple': ['tuple', 'Sequence', 'Iterable', 'Sized', 'Container', 'Collection'],
    'dict': ['dict', 'Mapping', 'MutableMapping', 'Iterable', 'Sized', 'Container', 'Collection'],
    'date': ['date'],
    'datetime': ['datetime', 'date'],
    'time': ['time'],
    'struct_time': ['struct_time', 'tuple', 'Sequence', 'Iterable', 'Sized', 'Container', 'Collection'],
    'Decimal': ['Decimal', 'Number'],
    'UUID': ['UUID'],
    'callable': ['function', 'Callable'],
    'object': [],
}
#: tags whose values are always true
TRUTHY = frozenset(['date', 'datetime', 'time', 'struct_time', 'UUID', 'object', 'callable'])
NUMERIC = frozenset(['bool', 'int', 'float', 'Decimal', 'complex'])
JSON_TAGS = frozenset(['None', 'bool', 'int', 'float', 'str', 'list', 'dict'])
STR_ONLY = frozenset(['str'])
SIZED = frozenset(['list', 'tuple', 'dict', 'bytes', 'str'])
TAG_PYTYPE = {
    'None': type(None), 'bool': bool, 'int': int, 'float': float, 'str': str, 'bytes': bytes, 'list': list,
    'tuple': tuple, 'dict': dict, 'complex': complex,
}
BT_BASES = {
    'object': [], 'bool': ['int'], 'datetime': ['date'], 'defaultdict': ['dict'], 'OrderedDict': ['dict'],
    'struct_time': ['tuple'],
}
EXTRA_EXC = {
    'InvalidOperation': ['ArithmeticError'],
    'error': ['Exception'],
    'JSONDecodeError': ['ValueError'],
    'ParseError': ['ValueError'],
    'NoSectionError': ['Exception'],
    'NoOptionError': ['Exception'],
}


def bt_mro(n):
    if n in EXTRA_EXC:
        out = [n]
        for b in EXTRA_EXC[n]:
            out += bt_mro(b)
        return out
    if n in BT_BASES:
        out = [n]
        for b in BT_BASES[n]:
            out += bt_mro(b)
        if n == 'object':
            return ['object']
        return out if out[-1] == 'object' else out + ['object']
    t = getattr(_py, n, None)
    if isinstance(t, type) and issubclass(t, BaseException):
        return [c.__name__ for c in t.__mro__]
    return [n, 'object']


def is_exc_bt(n):
    return 'BaseException' in bt_mro(n)


def is_atom(t):
    return isinstance(t, tuple)


OPS = {
    ast.Lt: '<', ast.LtE: '<=', ast.Gt: '>', ast.GtE: '>=', ast.Eq: '==', ast.NotEq: '!=', ast.Is: 'is',
    ast.IsNot: 'is not', ast.In: 'in', ast.NotIn: 'not in',
}
REL = {'<': frozenset('<'), '<=': frozenset('<='), '>': frozenset('>'), '>=': frozenset('>='), '==': frozenset('=')}
FLIP = {'<': '>', '>': '<', '=': '='}
ANYREL = frozenset('<=>')
BINOPS = {
    ast.Add: ('+', lambda a, b: a + b, '__add__', '__radd__'),
    ast.Sub: ('-', lambda a, b: a - b, '__sub__', '__rsub__'),
    ast.Mult: ('*', lambda a, b: a * b, '__mul__', '__rmul__'),
    ast.Div: ('/', lambda a, b: a / b, '__truediv__', '__rtruediv__'),
    ast.FloorDiv: ('//', lambda a, b: a // b, '__floordiv__', '__rfloordiv__'),
    ast.Mod: ('%', lambda a, b: a % b, '__mod__', '__rmod__'),
    ast.Pow: ('**', lambda a, b: a ** b, '__pow__', '__rpow__'),
    ast.BitOr: ('|', lambda a, b: a | b, '__or__', '__ror__'),
    ast.BitAnd: ('&', lambda a, b: a & b, '__and__', '__rand__'),
    ast.BitXor: ('^', lambda a, b: a ^ b, '__xor__', '__rxor__'),
    ast.LShift: ('<<', lambda a, b: a << b, '__lshift__', '__rlshift__'),
    ast.RShift: ('>>', lambda a, b: a >> b, '__rshift__', '__rrshift__'),
}


def rope_in(xs, cs):
    """do the parts of one text occur, in a row, among those of another?"""
    flat = lambda ps: [t for p in ps for t in (p if isinstance(p, str) else [p])]
    xs, cs = flat(xs), flat(cs)
    return any(cs[i:i + len(xs)] == xs for i in range(len(cs) - len(xs) + 1))


class Machine(object):
    """Evaluates expressions of one statement over one state; a branch the state does not decide is resolved by
    `choose`, and `Interp.explore` covers every alternative."""

    def __init__(self, ip, st, prefix, memo):
        self.ip = ip
        self.st = st
        self.prefix = prefix
        self.made = []          # (choice, n)
        self.memo = memo
        self.calls = 0

    # -- branching -----------------------------------------------------------------------------------------

    def choose(self, n, note=None):
        if n <= 0:
            raise Inf()
        if n == 1:
            return 0
        i = len(self.made)
        k = self.prefix[i] if i < len(self.prefix) else 0
        self.made.append((k, n))
        if note is not None:
            txt = note(k) if callable(note) else note
            self.st.trail = ((self.st.loc, txt), self.st.trail)
        return k

    def pick(self, options, note=None):
        return options[self.choose(len(options), note)]

    # -- opaque facts --------------------------------------------------------------------------------------

    def fresh(self, kind, tags=None):
        self.st.fresh += 1
        v = Opq(('fr', kind, self.st.fresh))
        if tags is not None:
            self.st.facts[('tags', v.t)] = frozenset(tags)
        return v

    def tags(self, v):
        t = v.t
        f = self.st.facts.get(('tags', t))
        if f is not None:
            return f
        k = t[0]
        d = TERM_TAGS.get(k)
        if d is not None:
            return d
        if k == 'item':
            r = t[1]
            while r[0] == 'item':
                r = r[1]
            if r[0] == 'json':
                return JSON_TAGS
            if r[0] == 'sopl':
                return STR_ONLY
        return ALL_TAGS

    def set_tags(self, v, tags):
        tags = frozenset(tags)
        if not tags:
            raise Inf()
        self.st.facts[('tags', v.t)] = tags

    def narrow(self, v, groups, what='type'):
        """fork on which of the disjoint tag groups `v` belongs to; returns the index"""
        tags = self.tags(v)
        live = [(i, tags & g) for i, g in enumerate(groups) if tags & g]
        if not live:
            raise Inf()
        if len(live) == 1:
            return live[0][0]
        k = self.choose(len(live), lambda j: '%r is %s' % (v, '|'.join(sorted(live[j][1]))
                                                            if len(live[j][1]) < 6 else 'other'))
        self.set_tags(v, live[k][1])
        return live[k][0]

    def has_tag(self, v, want):
        """fork: is the tag of v in `want`?"""
        want = frozenset(want)
        return self.narrow(v, [want, ALL_AND_MORE - want]) == 0

    def one_tag(self, v):
        tags = sorted(self.tags(v))
        i = self.narrow(v, [frozenset([t]) for t in tags])
        return tags[i]

    def eqc(self, v):
        return self.st.facts.get(('eq', v.t))

    def pred(self, key, note=None):
        f = self.st.facts.get(('p', key))
        if f is not None:
            return f
        n = note or (lambda: term_str(key))
        b = self.choose(2, lambda k: '%s is %s' % (n(), 'true' if k == 0 else 'false')) == 0
        self.st.facts[('p', key)] = b
        return b

    # numeric bounds of a term from its relations to constants
    def const_rel(self, t, c, pairs=True):
        """possible relations of term t to numeric/str constant c"""
        eq = self.st.facts.get(('eq', t))
        if eq is not None:
            e = eq[0]
            try:
                return frozenset('<' if e < c else '=' if e == c else '>')
            except TypeError:
                return ANYREL
        if t[0] == 'dec' and t[1][0] == 'c' and isinstance(c, (int, float)):
            d = decimal.Decimal(t[1][2])
            if d.is_finite():
                return frozenset('<' if d < c else '=' if d == c else '>')
        rels = dict(self.st.facts.get(('crel', t), ()))
        poss = set(rels.get(c, ANYREL))
        if t[0] in ('len', 'count'):
            if isinstance(c, (int, float)):
                if c < 0:
                    return frozenset('>')
                if c == 0:
                    poss.discard('<')
        tags = self.st.facts.get(('tags', t)) or TERM_TAGS.get(t[0])
        integral = tags is not None and tags <= frozenset(['int', 'bool'])
        if pairs and t[0] == 'lin' and len(t[1]) == 2 and sorted(x for _, x in t[1]) == [-1, 1]:
            p, q = [x for x, c in t[1] if c == 1][0], [x for x, c in t[1] if c == -1][0]
            r = self.pair_rel(p, q, False)
            if t[2] in rels:
                r &= rels[t[2]]
            if t[2] == c:
                poss &= r
            else:
                rels[t[2]] = r
        if pairs and self.ip.sums and t[0] != 'lin':
            for key in list(self.st.facts):
                if key[0] == 'crel' and key[1][0] == 'lin':
                    ts = dict(key[1][1])
                    if ts.pop(t, 0) in (1, -1) and ts and all(('eq', x) in self.st.facts for x in ts):
                        k = sum(n * int(self.st.facts[('eq', x)][0]) for x, n in ts.items())
                        for c2, r in self.st.facts[key]:
                            # sign * t + k r c2
                            if dict(key[1][1])[t] == 1:
                                c3 = c2 - k
                            else:
                                c3, r = k - c2, frozenset(FLIP[x] for x in r)
                            if c3 == c:
                                poss &= r
                            elif c3 in rels:
                                rels[c3] = frozenset(rels[c3]) & r
                            else:
                                rels[c3] = r
        for c2, r in rels.items():
            try:
                if c2 == c:
                    continue
                less = c2 < c
            except TypeError:
                continue
            # what `t r c2` implies on t vs c
            imp = set()
            if less:                          # c2 < c
                if '<' in r or '=' in r:
                    imp.add('<')
                if '>' in r:
                    imp |= set('<=>')
                    if integral and isinstance(c, int) and isinstance(c2, int) and c == c2 + 1:
                        imp.discard('<')
                        if '<' in r or '=' in r:
                            imp.add('<')
            else:                             # c2 > c
                if '>' in r or '=' in r:
                    imp.add('>')
                if '<' in r:
                    imp |= set('<=>')
                    if integral and isinstance(c, int) and isinstance(c2, int) and c == c2 - 1:
                        imp.discard('>')
                        if '>' in r or '=' in r:
                            imp.add('>')
            poss &= imp
        return frozenset(poss)

    def set_const_rel(self, t, c, poss):
        if not poss:
            raise Inf()
        rels = dict(self.st.facts.get(('crel', t), ()))
        rels[c] = frozenset(poss)
        self.st.facts[('crel', t)] = tuple(sorted(rels.items(), key=lambda kv: repr(kv[0])))
        if poss == frozenset('=') and ('eq', t) not in self.st.facts:
            self.st.facts[('eq', t)] = (c,)
            if isinstance(c, str):
                self.consistent(t, c)
            # what is known of t relative to other terms becomes known of these relative to c
            for key, r in list(self.st.facts.items()):
                if key[0] == 'rel' and t in key:
                    other = key[2] if key[1] == t else key[1]
                    if ('eq', other) in self.st.facts:
                        continue
                    if key[1] == t:
                        r = frozenset(FLIP[x] for x in r)
                    self.set_const_rel(other, c, self.const_rel(other, c) & r)

    def consistent(self, t, c):
        """the facts about text t must agree with its being c"""

        def const(k):
            if k == t:
                return c
            if isinstance(k, tuple) and len(k) == 3 and k[0] == 'c':
                return k[2]
            raise KeyError(k)
        for key, val in self.st.facts.items():
            if key[0] != 'p' or t not in key[1]:
                continue
            k = key[1]
            try:
                if k[0] == 're':
                    r = getattr(re.compile(const(k[2]), k[3]), k[1])(const(k[4])) is not None
                elif k[0] == 'in':
                    r = const(k[1]) in const(k[2])
                elif k[0] == 'sop':
                    r = getattr(const(k[2]), k[1])(*[const(x) for x in k[3:]])
                elif k[0] in ('isint', 'isfloat'):
                    try:
                        (int if k[0] == 'isint' else float)(c)
                        r = True
                    except ValueError:
                        r = False
                else:
                    continue
            except (KeyError, TypeError, AttributeError, re.error):
                continue
            if bool(r) != val:
                raise Inf()

    def pair_rel(self, a, b, sums=True):
        """possible relations between two terms"""
        if a == b:
            return frozenset('=')
        ea, eb = self.st.facts.get(('eq', a)), self.st.facts.get(('eq', b))
        if eb is not None:
            return self.const_rel(a, eb[0])
        if ea is not None:
            return frozenset(FLIP[r] for r in self.const_rel(b, ea[0]))
        if repr(a) > repr(b):
            return frozenset(FLIP[r] for r in self.pair_rel(b, a, sums))
        r = self.st.facts.get(('rel', a, b), ANYREL)
        if sums and self.ip.sums and len(r) > 1:
            d = ('lin', ((a, 1), (b, -1)), 0)
            if repr((a, 1)) > repr((b, -1)):
                d = ('lin', ((b, 1), (a, -1)), 0)
                return r & frozenset(FLIP[x] for x in self.const_rel(d, 0, False))
            return r & self.const_rel(d, 0, False)
        return r

    def set_pair_rel(self, a, b, poss):
        if not poss:
            raise Inf()
        ea, eb = self.st.facts.get(('eq', a)), self.st.facts.get(('eq', b))
        if eb is not None:
            return self.set_const_rel(a, eb[0], poss)
        if ea is not None:
            return self.set_const_rel(b, ea[0], frozenset(FLIP[r] for r in poss))
        if repr(a) > repr(b):
            a, b, poss = b, a, frozenset(FLIP[r] for r in poss)
        self.st.facts[('rel', a, b)] = frozenset(poss)

    # sums and differences: ('lin', ((term, coefficient), ...), constant) over whole numbers

    def int_term(self, v):
        if isinstance(v, Opq):
            return (self.st.facts.get(('tags', v.t)) or TERM_TAGS.get(v.t[0]) or ALL_AND_MORE) <= frozenset(['int'])
        return isinstance(v, int) and not isinstance(v, bool)

    def linear(self, v):
        if isinstance(v, int):
            return {}, int(v)
        e = self.eqc(v)
        if e is not None:
            return ({}, int(e[0])) if isinstance(e[0], int) else None
        if v.t[0] != 'lin':
            return {v.t: 1}, 0
        out, k = {}, v.t[2]
        for t, c in v.t[1]:
            sub = self.linear(Opq(t))
            if sub is None:
                return None
            for t2, c2 in sub[0].items():
                out[t2] = out.get(t2, 0) + c * c2
            k += c * sub[1]
        return dict((t, c) for t, c in out.items() if c), k

    def lin_combine(self, a, ca, b, cb):
        la, lb = self.linear(a), self.linear(b)
        if la is None or lb is None:
            return None
        out = dict((t, c * ca) for t, c in la[0].items())
        for t, c in lb[0].items():
            out[t] = out.get(t, 0) + c * cb
        return dict((t, c) for t, c in out.items() if c), la[1] * ca + lb[1] * cb

    def lin_value(self, terms, k):
        if not terms:
            return k
        if k == 0 and list(terms.values()) == [1]:
            return Opq(list(terms)[0])
        v = Opq(('lin', tuple(sorted(terms.items(), key=repr)), k))
        self.st.facts.setdefault(('tags', v.t), frozenset(['int']))
        return v

    def reduce(self, a, op, b):
        """an equivalent comparison of simpler terms, None if there is none"""
        for x, y, flip in ((a, b, False), (b, a, True)):
            if isinstance(x, Opq) and x.t[0] == '-' and is_const(y) and y == 0 and len(x.t) == 3:
                l, r = self.unkey(x.t[1]), self.unkey(x.t[2])
                if l is not None and r is not None:
                    return (r, op, l) if flip else (l, op, r)
        if not any(isinstance(x, Opq) and x.t[0] == 'lin' for x in (a, b)):
            return None
        if not (self.int_term(a) and self.int_term(b)):
            return None
        d = self.lin_combine(a, 1, b, -1)
        if d is None:
            return None
        terms, k = d
        if not terms:
            return None, {'<': k < 0, '<=': k <= 0, '>': k > 0, '>=': k >= 0, '==': k == 0}[op] and 'true' or 'false', None
        items = sorted(terms.items(), key=repr)
        if items[0][1] < 0:
            items = [(t, -c) for t, c in items]
            k = -k
            op = {'<': '>', '<=': '>=', '>': '<', '>=': '<=', '==': '=='}[op]
        g = math.gcd(*[c for _, c in items])
        if k % g:
            if op == '==':
                return None, 'false', None
            # sum*g + k op 0  <=>  sum op -k/g, not a whole number
            n = math.floor(-k / g)
            op, c = ('<=', n) if op in ('<', '<=') else ('>=', n + 1)
        else:
            c = -(k // g)
        items = [(t, x // g) for t, x in items]
        if len(items) == 1 and items[0][1] == 1:
            return Opq(items[0][0]), op, c
        if len(items) == 2 and sorted(x for _, x in items) == [-1, 1]:
            p, q = Opq(items[0][0]), Opq(items[1][0])
            if c == 0:
                return p, op, q
            if op == '>=' and c == 1:
                return p, '>', q
            if op == '<=' and c == -1:
                return p, '<', q
            if op == '<' and c == 1:
                return p, '<=', q
            if op == '>' and c == -1:
                return p, '>=', q
        self.ip.sums = True
        v = Opq(('lin', tuple(items), 0))
        if v == a and b == c:
            return None
        self.st.facts.setdefault(('tags', v.t), frozenset(['int']))
        return v, op, c

    def unkey(self, k):
        if k[0] == 'c':
            return k[2]
        if k[0] in ('ref', 'tup', 'bt', 'nf', 'bm', 'nm', 'um', 'super'):
            return None
        return Opq(k)

    def order(self, a, op, b):
        """a op b for op in < <= > >= on values that are mutually comparable"""
        for x in (a, b):
            if isinstance(x, Opq) and 'Decimal' in self.tags(x) and self.has_tag(x, ['Decimal']) and self.dec_nan(x):
                raise self.exc('InvalidOperation', 'comparison involving NaN')
        red = self.reduce(a, op, b)
        if red is not None:
            a, op, b = red
            if op in ('true', 'false'):
                return op == 'true'
        want = REL[op]
        if isinstance(a, Opq) and isinstance(b, Opq):
            poss = self.pair_rel(a.t, b.t)
            upd = lambda p: self.set_pair_rel(a.t, b.t, p)
        elif isinstance(a, Opq):
            poss = self.const_rel(a.t, b)
            upd = lambda p: self.set_const_rel(a.t, b, p)
        elif isinstance(b, Opq):
            poss = frozenset(FLIP[r] for r in self.const_rel(b.t, a))
            upd = lambda p: self.set_const_rel(b.t, a, frozenset(FLIP[r] for r in p))
        else:
            if op == '<':
                return a < b
            if op == '<=':
                return a <= b
            if op == '>':
                return a > b
            return a >= b
        yes, no = poss & want, poss - want
        if not no:
            return True
        if not yes:
            return False
        k = self.choose(2, lambda k: '%r %s %r is %s' % (a, op, b, k == 0))
        self.st.orders += 1
        upd(yes if k == 0 else no)
        return k == 0

    def dec_nan(self, v):
        """whether a decimal is no number: known for literals and whole numbers, otherwise either"""
        t = v.t
        if self.eqc(v) is not None or self.st.facts.get(('crel', t)):
            return False
        if t[0] == 'dec':
            if t[1][0] == 'c':
                return decimal.Decimal(t[1][2]).is_nan()
            src = self.unkey(t[1])
            if isinstance(src, Opq):
                if self.tags(src) <= frozenset(['int', 'bool']):
                    return False
        return self.pred(('isnan', t), lambda: '%r is nan' % v)

    # -- exceptions ----------------------------------------------------------------------------------------

    def exc(self, name, msg=None):
        args = () if msg is None else (msg,)
        o = Obj('inst', BT(name), {'args': Tup(args)}, site=self.st.loc)
        return PyExc(self.st.alloc(o))

    # -- truth ---------------------------------------------------------------------------------------------

    def truth(self, v):
        if is_const(v):
            return bool(v)
        if isinstance(v, Tup):
            return bool(v.items)
        if isinstance(v, Opq):
            return self.opq_truth(v)
        if isinstance(v, Ref):
            o = self.st.get(v.a)
            if o.kind == 'inst':
                b = self.lookup_type(o.cls, '__bool__')
                if b is not None and not isinstance(b, UM):
                    return self.truth(self.call(self.bind(b, v, o.cls), []))
                ln = self.lookup_type(o.cls, '__len__')
                if ln is not None and not isinstance(ln, UM):
                    return self.truth(self.call(self.bind(ln, v, o.cls), []))
                if isinstance(o.data, tuple):
                    return len(o.data) > 0
            return True
        return True

    def opq_truth(self, v):
        t = v.t
        if t[0] == 'rope':
            if any(isinstance(p, str) and p for p in t[1]):
                return True
            return self.pred(('nonempty', t))
        eq = self.eqc(v)
        if eq is not None:
            return bool(eq[0])
        if t[0] == 'not':
            return not self.opq_truth(Opq(t[1]))
        g = self.narrow(v, [frozenset(['None']), TRUTHY, NUMERIC, frozenset(['str']),
                            frozenset(['list', 'tuple', 'dict', 'bytes', 'set'])])
        if g == 0:
            return False
        if g == 1:
            return True
        if g == 2:
            if self.tags(v) == frozenset(['bool']):
                return self.eq_const(v, True)
            return not self.eq_const(v, 0)
        if g == 3:
            return not self.eq_const(v, '')
        return self.order(Opq(('len', t)), '>', 0)

    def not_(self, v):
        return not self.truth(v)

    # -- equality / identity -------------------------------------------------------------------------------

    def const_tags(self, c):
        if c is None:
            return frozenset(['None'])
        if isinstance(c, (bool, int, float)):
            return NUMERIC
        if isinstance(c, complex):
            return frozenset(['complex'])
        if isinstance(c, str):
            return frozenset(['str'])
        if isinstance(c, bytes):
            return frozenset(['bytes'])
        return frozenset()

    def eq_const(self, v, c):
        """opaque v == constant c"""
        t = v.t
        if t[0] in ('lin', '-') and isinstance(c, (int, float)):
            red = self.reduce(v, '==', int(c) if isinstance(c, bool) else c)
            if red is not None:
                if red[1] in ('true', 'false'):
                    return red[1] == 'true'
                if not (red[0] == v and is_const(red[2])):
                    return self.eq(red[0], red[2])
        eq = self.eqc(v)
        if eq is not None:
            return eq[0] == c and type(eq[0]) == type(c) or (
                isinstance(eq[0], (int, float)) and isinstance(c, (int, float)) and eq[0] == c)
        ct = self.const_tags(c)
        if not (self.tags(v) & ct):
            return False
        if t[0] == 'rope':
            return self.rope_eq(t, c)
        if t[0] == 'sop' and isinstance(c, str):
            r = self.ip.part_eq(self, t, c)
            if r is not None:
                return r
        if c is None:
            return self.has_tag(v, ct)
        tags = self.tags(v)
        if not tags <= ct:
            if not self.has_tag(v, ct):
                return False
            tags = self.tags(v)
        if tags == frozenset(['bool']):
            if c not in (0, 1):
                return False
            c = bool(c)
            neq = self.st.facts.get(('neq', t), frozenset())
            if ('c', c) in neq:
                return False
            other = ('c', not c) in neq
            if other:
                self.st.facts[('eq', t)] = (c,)
                return True
            k = self.choose(2, lambda k: '%r is %s' % (v, c if k == 0 else not c))
            self.st.facts[('eq', t)] = (c if k == 0 else not c,)
            return k == 0
        if isinstance(c, (int, float)) or isinstance(c, str):
            c = int(c) if isinstance(c, bool) else c
            poss = self.const_rel(t, c)
            if isinstance(c, str):
                neq = self.st.facts.get(('neq', t), frozenset())
                if c in neq:
                    return False
                r = self.const_rel(('len', t), len(c))
                if '=' not in r:
                    return False
                if not c and r == frozenset('='):
                    self.st.facts[('eq', t)] = (c,)
                    return True
            if '=' not in poss:
                return False
            if poss == frozenset('='):
                return True
            k = self.choose(2, lambda k: '%r %s %r' % (v, '==' if k == 0 else '!=', c))
            if k == 0:
                self.set_const_rel(t, c, frozenset('='))
                if isinstance(c, str):
                    self.set_const_rel(('len', t), len(c), frozenset('='))
                    self.st.facts[('eq', t)] = (c,)
            else:
                if isinstance(c, str):
                    neq = self.st.facts.get(('neq', t), frozenset())
                    self.st.facts[('neq', t)] = neq | frozenset([c])
                    if c == '':
                        self.set_const_rel(('len', t), 0, frozenset('>'))
                else:
                    self.set_const_rel(t, c, poss - frozenset('='))
            return k == 0
        return self.pred(('eq', t, valkey(c)))

    def rope_eq(self, t, c):
        parts = t[1]
        # definite mismatch on constant prefix/suffix
        if isinstance(c, str):
            if isinstance(parts[0], str) and not c.startswith(parts[0]):
                return False
            if isinstance(parts[-1], str) and not c.endswith(parts[-1]):
                return False
            if sum(len(p) for p in parts if isinstance(p, str)) > len(c):
                return False
            for p in parts:
                if isinstance(p, str) and p not in c:
                    return False
            unknown = [i for i, p in enumerate(parts) if not isinstance(p, str)]
            if len(unknown) == 1 and self.term_is_str(parts[unknown[0]]):
                i = unknown[0]
                pre, suf = ''.join(parts[:i]), ''.join(parts[i + 1:])
                if len(pre) + len(suf) <= len(c):
                    return self.eq_const(Opq(parts[i]), c[len(pre):len(c) - len(suf)])
        return self.pred(('eq', t, valkey(c)))

    def eq(self, a, b):
        if isinstance(a, SuperV) or isinstance(b, SuperV):
            return False
        if is_const(a) and is_const(b):
            return a == b
        if isinstance(a, Ref) and isinstance(b, Ref) and a == b:
            o = self.st.get(a.a)
            if not (o.kind == 'inst' and self.user_eq(o)):
                return True
        for x, y in ((a, b), (b, a)):
            if isinstance(x, Ref):
                o = self.st.get(x.a)
                if o.kind == 'inst':
                    m = self.user_eq(o)
                    if m is not None:
                        r = self.call(self.bind(m, x, o.cls), [y])
                        if r == self.ip.NotImpl:
                            continue
                        return self.truth(r)
        if isinstance(a, Opq) and isinstance(b, Opq):
            if a.t == b.t:
                return True
            if 'lin' in (a.t[0], b.t[0]):
                red = self.reduce(a, '==', b)
                if red is not None:
                    if red[1] in ('true', 'false'):
                        return red[1] == 'true'
                    return self.eq(red[0], red[2])
            if a.t[0] == 'id' and b.t[0] == 'id' and 'ref' in (a.t[1][0], b.t[1][0]):
                return False
            if a.t[0] == 'rope' or b.t[0] == 'rope':
                return self.pred(('eq',) + tuple(sorted([a.t, b.t], key=repr)))
            ta, tb = self.tags(a), self.tags(b)
            cmpg = [frozenset(['None']), NUMERIC, frozenset(['str'])] + [frozenset([x]) for x in sorted(
                ALL_AND_MORE - NUMERIC - frozenset(['None', 'str']))]
            if not any((ta & g) and (tb & g) for g in cmpg):
                return False
            poss = self.pair_rel(a.t, b.t)
            if poss == frozenset('='):
                return True
            if '=' not in poss:
                return False
            for x, y in ((a, b), (b, a)):
                e = self.eqc(x)
                if e is not None:
                    return self.eq_const(y, e[0])
            k = self.choose(2, lambda k: '%r %s %r' % (a, '==' if k == 0 else '!=', b))
            if k == 0:
                self.set_pair_rel(a.t, b.t, frozenset('='))
                both = ta & tb
                if both and not (ta & NUMERIC and tb & NUMERIC):
                    self.set_tags(a, both)
                    self.set_tags(b, both)
            else:
                self.set_pair_rel(a.t, b.t, poss - frozenset('='))
            return k == 0
        if isinstance(a, Opq) or isinstance(b, Opq):
            o, c = (a, b) if isinstance(a, Opq) else (b, a)
            if is_const(c):
                return self.eq_const(o, c)
            tagset = self.container_tags(c)
            if tagset is None or not (self.tags(o) & tagset):
                return False
            return self.pred(('eq', o.t, valkey(c)))
        if isinstance(a, Tup) and isinstance(b, Tup):
            return len(a.items) == len(b.items) and all(self.same_or_eq(x, y) for x, y in zip(a.items, b.items))
        for x, y in ((a, b), (b, a)):
            if isinstance(x, Ref) and isinstance(y, Tup) and self.payload_is(x, 'tuple'):
                return self.eq(Tup(self.st.get(x.a).data), y)
        if isinstance(a, Ref) and isinstance(b, Ref):
            oa, ob = self.st.get(a.a), self.st.get(b.a)
            if oa.kind == 'inst' and ob.kind == 'inst' and isinstance(oa.data, tuple) and isinstance(ob.data, tuple):
                ka, kb = self.payload_kind(oa.cls), self.payload_kind(ob.cls)
                if ka != kb:
                    return False
                if ka in ('list', 'tuple'):
                    return len(oa.data) == len(ob.data) and all(
                        self.same_or_eq(x, y) for x, y in zip(oa.data, ob.data))
                if ka == 'dict':
                    if len(oa.data) != len(ob.data):
                        return False
                    for k, v in oa.data:
                        r = self.dict_find(ob, k)
                        if r is None or not self.same_or_eq(v, ob.data[r][1]):
                            return False
                    return True
                if ka == 'set':
                    return len(oa.data) == len(ob.data) and all(
                        any(self.same_or_eq(x, y) for y in ob.data) for x in oa.data)
            return False
        return valkey(a) == valkey(b)

    def container_tags(self, c):
        if isinstance(c, Tup):
            return frozenset(['tuple'])
        if isinstance(c, Ref):
            o = self.st.get(c.a)
            if o.kind == 'inst' and isinstance(o.data, tuple):
                k = self.payload_kind(o.cls)
                return {'list': frozenset(['list']), 'dict': frozenset(['dict'])}.get(k)
        return None

    def user_eq(self, o):
        m = self.lookup_type(o.cls, '__eq__')
        if m is None or isinstance(m, (UM, NF)):
            return None
        return m

    def same_or_eq(self, a, b):
        if valkey(a) == valkey(b):
            return True
        return self.eq(a, b)

    def is_(self, a, b):
        if isinstance(a, Opq) or isinstance(b, Opq):
            if valkey(a) == valkey(b):
                return True
            if isinstance(a, Opq) and isinstance(b, Opq):
                ta, tb = self.tags(a), self.tags(b)
                if not ta & tb:
                    return False
                key = ('is',) + tuple(sorted([a.t, b.t], key=repr))
                if not self.pred(key):
                    return False
                if not self.eq(a, b):
                    raise Inf()
                return True
            o, c = (a, b) if isinstance(a, Opq) else (b, a)
            if c is None:
                if o.t[0] == 'rope':
                    return False
                return self.has_tag(o, frozenset(['None'])) if self.tags(o) & frozenset(['None']) else False
            if isinstance(c, bool):
                if not self.tags(o) & frozenset(['bool']):
                    return False
                if not self.has_tag(o, frozenset(['bool'])):
                    return False
                return self.eq_const(o, c)
            if isinstance(c, (int, float, str, bytes)):
                if not (self.eq_const(o, c) and self.tags(o) <= frozenset([type(c).__name__])):
                    return False
                # equal, but the same object only where the interpreter shares it
                if isinstance(c, int) and -5 <= c <= 256 or isinstance(c, (str, bytes)) and len(c) < 2:
                    return True
                return self.pred(('is', o.t, valkey(c)))
            return False
        if is_const(a) and is_const(b):
            return type(a) is type(b) and a == b
        return valkey(a) == valkey(b)

    def compare(self, op, a, b):
        if op == 'is':
            return self.is_(a, b)
        if op == 'is not':
            return not self.is_(a, b)
        if op == '==':
            return self.eq(a, b)
        if op == '!=':
            if isinstance(a, Ref):
                o = self.st.get(a.a)
                if o.kind == 'inst':
                    m = self.lookup_type(o.cls, '__ne__')
                    if m is not None and not isinstance(m, (UM, NF)):
                        return self.truth(self.call(self.bind(m, a, o.cls), [b]))
            return not self.eq(a, b)
        if op == 'in':
            return self.contains(b, a)
        if op == 'not in':
            return not self.contains(b, a)
        return self.less(op, a, b)

    DUNDER = {'<': ('__lt__', '__gt__'), '<=': ('__le__', '__ge__'), '>': ('__gt__', '__lt__'),
              '>=': ('__ge__', '__le__')}

    def order_group(self, v):
        """forks on and returns the comparison family of a value"""
        if is_const(v):
            if v is None:
                return 'none'
            if isinstance(v, (bool, int, float)):
                return 'num'
            if isinstance(v, str):
                return 'str'
            return type(v).__name__
        if isinstance(v, Opq):
            groups = [('none', frozenset(['None'])), ('num', NUMERIC), ('str', frozenset(['str']))]
            for t in sorted(ALL_AND_MORE - NUMERIC - frozenset(['None', 'str'])):
                groups.append((t, frozenset([t])))
            i = self.narrow(v, [g for _, g in groups])
            return groups[i][0]
        if isinstance(v, Tup):
            return 'tuple'
        return 'ref'

    def less(self, op, a, b):
        for x, y, k in ((a, b, 0), (b, a, 1)):
            if isinstance(x, Ref):
                o = self.st.get(x.a)
                if o.kind == 'inst':
                    m = self.lookup_type(o.cls, self.DUNDER[op][k])
                    if m is not None and not isinstance(m, (UM, NF)):
                        return self.truth(self.call(self.bind(m, x, o.cls), [y]))
                    if isinstance(o.data, tuple) and self.payload_kind(o.cls) == 'set' and isinstance(y, Ref):
                        xs, ys = self.st.get(a.a).data, self.st.get(b.a).data
                        sub = lambda p, q: all(any(self.same_or_eq(i, j) for j in q) for i in p)
                        if op == '<=':
                            return sub(xs, ys)
                        if op == '>=':
                            return sub(ys, xs)
                        if op == '<':
                            return len(xs) < len(ys) and sub(xs, ys)
                        return len(ys) < len(xs) and sub(ys, xs)
        ga, gb = self.order_group(a), self.order_group(b)
        if ga in ('none', 'dict', 'object', 'ref', 'callable') or ga != gb:
            if ga == gb == 'object':
                return self.pred(('cmp', op, valkey(a), valkey(b)))
            if {ga, gb} == {'ref', 'ref'} or 'object' in (ga, gb):
                raise self.exc('TypeError', 'unorderable')
            raise self.exc('TypeError', 'unorderable types')
        if isinstance(a, Tup) and isinstance(b, Tup):
            for x, y in zip(a.items, b.items):
                if not self.same_or_eq(x, y):
                    return self.less(op, x, y)
            la, lb = len(a.items), len(b.items)
            return {'<': la < lb, '<=': la <= lb, '>': la > lb, '>=': la >= lb}[op]
        if isinstance(a, Tup) or isinstance(b, Tup):
            return self.pred(('cmp', op, valkey(a), valkey(b)))
        if ga in ('time', 'datetime') and isinstance(a, Opq) and isinstance(b, Opq) and a.t != b.t:
            za, zb = [self.pred(('aware', x.t), lambda: '%r has a time zone' % x) for x in (a, b)]
            if za != zb:
                raise self.exc('TypeError', "can't compare offset-naive and offset-aware times")
        return self.order(a, op, b)

    def contains(self, c, x):
        if isinstance(c, Tup):
            return any(self.same_or_eq(x, y) for y in c.items)
        if isinstance(c, str):
            if isinstance(x, str):
                return x in c
            if isinstance(x, Opq):
                if x.t[0] != 'rope' and not self.has_tag(x, ['str']):
                    raise self.exc('TypeError', "'in <string>' requires string as left operand")
                eq = self.eqc(x)
                if eq is not None:
                    return eq[0] in c
                if x.t[0] in ('item', 'sop') and self.one_char(x):
                    return any(self.eq_const(x, ch) for ch in sorted(set(c)))
                return self.pred(('in', x.t, valkey(c)))
            raise self.exc('TypeError', "'in <string>' requires string as left operand")
        if isinstance(c, Opq):
            if c.t[0] == 'rope':
                if isinstance(x, Opq) and x.t[0] == 'rope' and rope_in(x.t[1], c.t[1]):
                    return True
                if isinstance(x, str) and any(isinstance(p, str) and x in p for p in c.t[1]):
                    return True
                return self.pred(('in', valkey(x), c.t))
            g = self.narrow(c, [SIZED, ALL_AND_MORE - SIZED])
            if g == 1:
                raise self.exc('TypeError', 'argument is not iterable')
            eqc, eqx = self.eqc(c), (self.eqc(x) if isinstance(x, Opq) else ((x,) if is_const(x) else None))
            if eqc is not None and isinstance(eqc[0], str) and eqx is not None and isinstance(eqx[0], str):
                return eqx[0] in eqc[0]
            if self.tags(c) & frozenset(['str']) and not self.is_strish(x):
                if self.has_tag(c, ['str']):
                    raise self.exc('TypeError', 'in <string> requires string')
            if self.tags(c) & frozenset(['dict']) and self.tags(c) != frozenset(['dict']):
                if self.has_tag(c, ['dict']):
                    return self.opq_has(c, x)
            elif self.tags(c) == frozenset(['dict']):
                return self.opq_has(c, x)
            if isinstance(x, str) and len(x) > 0 and self.tags(c) == frozenset(['str']):
                if '<' in self.const_rel(('len', c.t), len(x)) and self.const_rel(('len', c.t), len(x)) == frozenset('<'):
                    return False
            return self.pred(('in', valkey(x), c.t))
        if isinstance(c, Ref):
            o = self.st.get(c.a)
            if o.kind == 'inst':
                m = self.lookup_type(o.cls, '__contains__')
                if m is not None and not isinstance(m, UM):
                    return self.truth(self.call(self.bind(m, c, o.cls), [x]))
                if isinstance(o.data, tuple):
                    k = self.payload_kind(o.cls)
                    if k == 'dict':
                        self.check_hashable(x)
                        return self.dict_find(o, x) is not None
                    return any(self.same_or_eq(x, y) for y in o.data)
            for y in self.iterate(c):
                if self.same_or_eq(x, y):
                    return True
            return False
        raise self.exc('TypeError', 'argument is not iterable')

    def one_char(self, x):
        t = x.t
        if t[0] == 'item':
            return self.tags(Opq(t[1])) == frozenset(['str'])
        return t[:2] == ('sop', 'at') or self.const_rel(('len', t), 1) == frozenset('=')

    def is_strish(self, x):
        if isinstance(x, str):
            return True
        if isinstance(x, Opq):
            return bool(self.tags(x) & frozenset(['str']))
        return False

    # -- dict payloads -------------------------------------------------------------------------------------

    def check_hashable(self, k):
        if isinstance(k, Ref):
            o = self.st.get(k.a)
            if o.kind == 'inst' and isinstance(o.data, tuple) and self.payload_kind(o.cls) in (
                    'list', 'dict', 'set') and self.lookup_user(o.cls, '__hash__') is None:
                raise self.exc('TypeError', 'unhashable type')
        elif isinstance(k, Opq) and k.t[0] != 'rope':
            bad = frozenset(['list', 'dict', 'set'])
            if self.tags(k) & bad and self.has_tag(k, bad):
                raise self.exc('TypeError', 'unhashable type')
        elif isinstance(k, Tup):
            for i in k.items:
                self.check_hashable(i)

    def key_eq(self, a, b):
        if valkey(a) == valkey(b):
            return True
        if isinstance(a, Ref) and isinstance(b, Ref):
            # identity hash, unless it defines equality
            for x, y in ((a, b), (b, a)):
                o = self.st.get(x.a)
                if o.kind == 'inst' and self.user_eq(o) is not None:
                    return self.eq(a, b)
            return False
        if isinstance(a, (Ref, BT, NF, UM, BM, NM)) or isinstance(b, (Ref, BT, NF, UM, BM, NM)):
            return False
        return self.eq(a, b)

    def dict_find(self, o, k):
        kk = valkey(k)
        for i, (x, _) in enumerate(o.data):
            if valkey(x) == kk:
                return i
        if is_const(k) and all(is_const(x) for x, _ in o.data):
            for i, (x, _) in enumerate(o.data):
                if x == k:
                    return i
            return None
        for i, (x, _) in enumerate(o.data):
            if self.key_eq(x, k):
                return i
        return None

    def dict_in(self, ref):
        """obj.__dict__ is a live view of the attributes of obj: read them anew"""
        o = self.st.get(ref.a)
        if '$dictof' in o.attrs:
            t = self.st.get(o.attrs['$dictof'].a)
            data = tuple((k, x) for k, x in t.attrs.items() if not k.startswith('$'))
            if data != o.data:
                self.st.w(ref.a).data = data

    def dict_out(self, ref):
        """... and write changes through"""
        o = self.st.get(ref.a)
        if '$dictof' not in o.attrs:
            return
        of = o.attrs['$dictof']
        old = dict((k, x) for k, x in self.st.get(of.a).attrs.items() if not k.startswith('$'))
        for k, x in o.data:
            if not isinstance(k, str):
                raise Unsup('attribute of unknown name in __dict__')
            if k not in old or old.pop(k) is not x:
                self.wr(of.a, 'attribute assignment', k, (k, x)).attrs[k] = x
        for k in old:
            del self.wr(of.a, 'attribute deletion', k).attrs[k]

    def dict_get(self, ref, k, default=None):
        self.dict_in(ref)
        o = self.st.get(ref.a)
        i = self.dict_find(o, k)
        return default if i is None else o.data[i][1]

    def dict_set(self, ref, k, v):
        self.check_hashable(k)
        self.dict_in(ref)
        i = self.dict_find(self.st.get(ref.a), k)
        o = self.wr(ref.a, 'item assignment', None, (k, v))
        if i is None:
            o.data = o.data + ((k, v),)
        else:
            o.data = o.data[:i] + ((o.data[i][0], v),) + o.data[i + 1:]
        if o.attrs:
            self.dict_out(ref)

    def dict_del(self, ref, k):
        self.dict_in(ref)
        i = self.dict_find(self.st.get(ref.a), k)
        if i is None:
            raise self.exc('KeyError', k)
        o = self.wr(ref.a, 'item deletion')
        o.data = o.data[:i] + o.data[i + 1:]
        if o.attrs:
            self.dict_out(ref)

    # -- heap helpers --------------------------------------------------------------------------------------

    def wr(self, a, what='write', name=None, new=None):
        """writable object behind address, honouring the write barrier; new: (key or name, value) being stored"""
        st = self.st
        if st.frozen and a < st.frozen and a not in st.exempt:
            self.ip.barrier_hit(self, a, what, name, new)
        return st.w(a)

    def new_list(self, items):
        return self.st.alloc(Obj('inst', BT('list'), None, tuple(items), site=self.st.loc))

    def new_dict(self, pairs):
        return self.st.alloc(Obj('inst', BT('dict'), None, tuple(pairs), site=self.st.loc))

    def new_set(self, items):
        out = []
        for i in items:
            self.check_hashable(i)
            if not any(self.same_or_eq(i, j) for j in out):
                out.append(i)
        return self.st.alloc(Obj('inst', BT('set'), None, tuple(out), site=self.st.loc))

    def payload_kind(self, cls):
        for c in self.mro(cls):
            if isinstance(c, BT):
                if c.n in ('list', 'dict', 'set', 'tuple', 'str', 'int', 'float', 'frozenset'):
                    return 'set' if c.n == 'frozenset' else c.n
                if c.n in ('defaultdict', 'OrderedDict'):
                    return 'dict'
                if c.n in ('dict_keys', 'dict_values', 'dict_items', 'range', 'iterator'):
                    return 'list'
        return None

    def mro(self, cls):
        if isinstance(cls, BT):
            return [BT(n) for n in bt_mro(cls.n)]
        o = self.st.get(cls.a)
        return list(o.data['mro'])

    def class_of(self, v):
        if is_const(v):
            return BT({'NoneType': 'NoneType'}.get(type(v).__name__, type(v).__name__))
        if isinstance(v, Tup):
            return BT('tuple')
        if isinstance(v, Opq):
            if v.t[0] == 'rope':
                return BT('str')
            t = self.one_tag(v)
            return BT({'None': 'NoneType', 'callable': 'function'}.get(t, t))
        if isinstance(v, Ref):
            o = self.st.get(v.a)
            if o.kind == 'inst':
                return o.cls
            if o.kind == 'class':
                return o.data.get('meta') or BT('type')
            return BT({'func': 'function', 'module': 'module', 'prop': 'property', 'cm': 'classmethod',
                       'sm': 'staticmethod', 'gen': 'generator', 'slice': 'slice'}[o.kind])
        if isinstance(v, BT):
            return BT('type')
        if isinstance(v, (BM, NM)):
            return BT('method')
        return BT('builtin_function_or_method')

    def lookup_type(self, cls, name):
        """attribute of a class through its MRO, unbound; None if absent"""
        for c in self.mro(cls):
            if isinstance(c, BT):
                if self.ip.bt_has(c.n, name):
                    return UM(c.n, name)
            else:
                o = self.st.get(c.a)
                if name in o.attrs:
                    return o.attrs[name]
        return None

    def lookup_user(self, cls, name):
        for c in self.mro(cls):
            if not isinstance(c, BT):
                o = self.st.get(c.a)
                if name in o.attrs:
                    return o.attrs[name]
        return None

    def bind(self, f, v, cls):
        """descriptor protocol for methods and properties"""
        if isinstance(f, UM):
            if f.n == '__new__':
                return f
            return NM(v, f.tn, f.n)
        if isinstance(f, NF):
            return f
        if isinstance(f, Ref):
            o = self.st.get(f.a)
            if o.kind == 'func':
                return BM(f, v)
            if o.kind == 'cm':
                return BM(o.attrs['f'], cls)
            if o.kind == 'sm':
                return o.attrs['f']
            if o.kind == 'prop':
                return self.call(o.attrs['fget'], [v])
            if o.kind == 'inst':
                g = self.lookup_type(o.cls, '__get__')
                if g is not None:
                    return self.call(self.bind(g, f, o.cls), [v, cls])
        if isinstance(f, BM) or isinstance(f, NM):
            return f
        return f

    def is_data_descr(self, f):
        if isinstance(f, Ref):
            o = self.st.get(f.a)
            if o.kind == 'prop':
                return True
            if o.kind == 'inst':
                return self.lookup_type(o.cls, '__set__') is not None
        return False

    def has_get(self, f):
        if isinstance(f, Ref):
            o = self.st.get(f.a)
            if o.kind in ('func', 'cm', 'sm', 'prop'):
                return True
            if o.kind == 'inst':
                return self.lookup_type(o.cls, '__get__') is not None
            return False
        return isinstance(f, UM)

    # -- attributes ----------------------------------------------------------------------------------------

    def attr_error(self, v, name):
        return self.exc('AttributeError', '%s has no attribute %r' % (self.describe(v), name))

    def describe(self, v):
        if isinstance(v, Ref):
            o = self.st.get(v.a)
            if o.kind == 'inst':
                return '%s object' % self.cls_name(o.cls)
            return '%s %s' % (o.kind, o.name)
        return repr(v)

    def cls_name(self, cls):
        if isinstance(cls, BT):
            return cls.n
        return self.st.get(cls.a).name

    def getattr(self, v, name):
        if isinstance(v, Ref):
            o = self.st.get(v.a)
            k = o.kind
            if k == 'inst':
                return self.inst_getattr(v, o, name)
            if k == 'module':
                return self.module_getattr(v, o, name)
            if k == 'class':
                return self.class_getattr(v, o, name)
            if k == 'func':
                if name in o.attrs:
                    return o.attrs[name]
                if name in ('__name__', '__qualname__'):
                    return o.name
                if name == '__doc__':
                    return None
                if name == '__module__':
                    return 'mod'
                if name == '__get__':
                    return NF('func.__get__', lambda m, a, kw: v if a[0] is None else BM(v, a[0]))
                if name == '__dict__':
                    return self.new_dict([(kk, x) for kk, x in o.attrs.items()])
                if name == '__call__':
                    return v
                raise self.attr_error(v, name)
            if k == 'prop':
                if name in ('setter', 'getter', 'deleter'):
                    return NM(v, 'property', name)
                if name in ('fget', 'fset', 'fdel'):
                    return o.attrs.get(name)
                raise self.attr_error(v, name)
            if k in ('cm', 'sm'):
                if name == '__func__':
                    return o.attrs['f']
                raise self.attr_error(v, name)
            if k == 'gen':
                return NM(v, 'generator', name)
            if k == 'slice':
                return o.attrs[name]
            raise Unsup('getattr on %s' % k)
        if isinstance(v, Opq):
            return self.opq_getattr(v, name)
        if is_const(v):
            if name == '__class__':
                return self.class_of(v)
            if hasattr(v, name):
                if isinstance(v, (int, float)) and name in ('real', 'imag', 'numerator', 'denominator'):
                    return getattr(v, name)
                return NM(v, type(v).__name__, name)
            raise self.attr_error(v, name)
        if isinstance(v, Tup):
            if name == '__class__':
                return BT('tuple')
            if hasattr(tuple, name):
                return NM(v, 'tuple', name)
            raise self.attr_error(v, name)
        if isinstance(v, BT):
            return self.ip.bt_getattr(self, v, name)
        if isinstance(v, SuperV):
            return self.super_getattr(v, name)
        if isinstance(v, BM):
            if name == '__func__':
                return v.f
            if name == '__self__':
                return v.s
            return self.getattr(v.f, name)
        if isinstance(v, (NF, NM, UM)):
            if name in ('__name__', '__qualname__'):
                return v.n
            if name == '__doc__':
                return None
            if isinstance(v, NM) and name == '__self__':
                return v.s
            raise self.attr_error(v, name)
        raise Unsup('getattr on %r' % (v,))

    def inst_getattr(self, v, o, name, skip_getattribute=False):
        cls = o.cls
        f = self.lookup_type(cls, name)
        if f is not None and self.is_data_descr(f):
            return self.getattr_fallback(v, o, name, lambda: self.bind(f, v, cls))
        if name in o.attrs:
            return o.attrs[name]
        if f is not None:
            return self.bind(f, v, cls)
        if name == '__class__':
            return cls
        if name == '__dict__':
            return self.ip.inst_dict(self, v)
        if name == '__doc__':
            return None
        if name == '__module__':
            return self.getattr(cls, '__module__')
        if name == '__hash__':
            return NM(v, 'object', name)
        g = self.lookup_type(cls, '__getattr__')
        if g is not None and not isinstance(g, UM):
            return self.call(self.bind(g, v, cls), [name])
        raise self.attr_error(v, name)

    def getattr_fallback(self, v, o, name, fn):
        g = self.lookup_type(o.cls, '__getattr__')
        if g is None or isinstance(g, UM):
            return fn()
        try:
            return fn()
        except PyExc as ex:
            if self.exc_matches(ex.val, BT('AttributeError')):
                return self.call(self.bind(g, v, o.cls), [name])
            raise

    def module_getattr(self, v, o, name):
        if name in o.attrs:
            return o.attrs[name]
        if name == '__name__':
            return o.name
        if name == '__dict__':
            return self.ip.inst_dict(self, v)
        if name == '__file__':
            return o.data.get('file') if o.data else None
        x = self.ip.module_attr(self, v, o, name)
        if x is not None:
            return x[0]
        raise self.exc('AttributeError', 'module %s has no attribute %s' % (o.name, name))

    def class_getattr(self, v, o, name):
        meta = o.data.get('meta') or BT('type')
        mf = self.lookup_type(meta, name) if not isinstance(meta, BT) else None
        if mf is not None and self.is_data_descr(mf):
            return self.bind(mf, v, meta)
        for c in o.data['mro']:
            if isinstance(c, BT):
                if self.ip.bt_has(c.n, name) and not (c.n == 'object' and name in CLASS_SPECIAL):
                    return UM(c.n, name)
                continue
            co = self.st.get(c.a)
            if name in co.attrs:
                f = co.attrs[name]
                if isinstance(f, Ref):
                    fo = self.st.get(f.a)
                    if fo.kind == 'cm':
                        return BM(fo.attrs['f'], v)
                    if fo.kind == 'sm':
                        return fo.attrs['f']
                    if fo.kind in ('func', 'prop'):
                        return f
                    if fo.kind == 'inst':
                        g = self.lookup_type(fo.cls, '__get__')
                        if g is not None:
                            return self.call(self.bind(g, f, fo.cls), [None, v])
                return f
        if mf is not None and not isinstance(mf, UM):
            return self.bind(mf, v, meta)
        if name in ('__name__', '__qualname__'):
            return o.name
        if name == '__mro__':
            return Tup(o.data['mro'])
        if name == '__bases__':
            return Tup(o.data['bases'])
        if name == '__class__':
            return meta
        if name == '__module__':
            return 'mod'
        if name == '__doc__':
            return None
        if name == '__dict__':
            return self.new_dict([(k, x) for k, x in o.attrs.items()])
        if name == '__subclasses__':
            return NF('__subclasses__', lambda m, a, kw: m.new_list(m.st.get(v.a).data['subs']))
        if name == 'mro':
            return NF('mro', lambda m, a, kw: m.new_list(m.st.get(v.a).data['mro']))
        if mf is not None:
            return self.bind(mf, v, meta)
        raise self.exc('AttributeError', 'type object %r has no attribute %r' % (o.name, name))

    def super_getattr(self, v, name):
        obj = v.obj
        if isinstance(obj, Ref) and self.st.get(obj.a).kind == 'class' and not self._is_inst_of_cls(obj, v.cls):
            start = obj
            bind_cls = True
        else:
            start = self.class_of(obj)
            bind_cls = False
        mro = self.mro(start)
        i = mro.index(v.cls) + 1 if v.cls in mro else 0
        for c in mro[i:]:
            if isinstance(c, BT):
                if self.ip.bt_has(c.n, name):
                    if bind_cls or name == '__new__':
                        return UM(c.n, name)
                    return NM(obj, c.n, name)
                continue
            co = self.st.get(c.a)
            if name in co.attrs:
                f = co.attrs[name]
                if bind_cls:
                    if isinstance(f, Ref):
                        fo = self.st.get(f.a)
                        if fo.kind == 'cm':
                            return BM(fo.attrs['f'], obj)
                        if fo.kind == 'sm':
                            return fo.attrs['f']
                    return f
                return self.bind(f, obj, start)
        raise self.exc('AttributeError', 'super object has no attribute %r' % name)

    def _is_inst_of_cls(self, clsref, cls):
        """is the class object an instance of (meta)class cls?"""
        meta = self.class_of(clsref)
        return cls in self.mro(meta) and cls not in self.mro(clsref)

    def setattr(self, v, name, val):
        if isinstance(v, Ref):
            o = self.st.get(v.a)
            if o.kind == 'inst':
                f = self.lookup_type(o.cls, name)
                if f is not None and isinstance(f, Ref):
                    fo = self.st.get(f.a)
                    if fo.kind == 'prop':
                        if fo.attrs.get('fset') is None:
                            raise self.exc('AttributeError', "can't set attribute")
                        self.call(fo.attrs['fset'], [v, val])
                        return
                    if fo.kind == 'inst':
                        s = self.lookup_type(fo.cls, '__set__')
                        if s is not None:
                            self.call(self.bind(s, f, fo.cls), [v, val])
                            return
                s = self.lookup_user(o.cls, '__setattr__')
                if s is not None:
                    self.call(self.bind(s, v, o.cls), [name, val])
                    return
                if name == '__dict__' and isinstance(val, Ref) and self.payload_is(val, 'dict'):
                    d = self.new_dict([])
                    self.st.w(d.a).attrs['$dictof'] = v
                    self.st.w(d.a).data = tuple(self.st.get(val.a).data)
                    self.dict_out(d)
                    return
                self.wr(v.a, 'attribute assignment', name, (name, val)).attrs[name] = val
                return
            if o.kind in ('class', 'func', 'module'):
                self.wr(v.a, 'attribute assignment', name, (name, val)).attrs[name] = val
                return
        if isinstance(v, Opq):
            if self.tags(v) & frozenset(['object', 'callable']):
                if self.has_tag(v, ['object', 'callable']):
                    self.ip.opq_written(self, v, 'attribute assignment', name)
                    self.st.facts[('attrval', v.t, name)] = val
                    return
            raise self.attr_error(v, name)
        raise self.attr_error(v, name)

    def delattr(self, v, name):
        if isinstance(v, Ref):
            o = self.st.get(v.a)
            if o.kind == 'inst':
                f = self.lookup_type(o.cls, name)
                if isinstance(f, Ref):
                    fo = self.st.get(f.a)
                    if fo.kind == 'prop' and fo.attrs.get('fdel') is not None:
                        self.call(fo.attrs['fdel'], [v])
                        return
                    if fo.kind == 'inst':
                        s = self.lookup_type(fo.cls, '__delete__')
                        if s is not None:
                            self.call(self.bind(s, f, fo.cls), [v])
                            return
            if name in o.attrs:
                del self.wr(v.a, 'attribute deletion', name).attrs[name]
                return
        raise self.attr_error(v, name)

    def hasattr(self, v, name):
        try:
            self.getattr(v, name)
            return True
        except PyExc as ex:
            if self.exc_matches(ex.val, BT('AttributeError')):
                return False
            raise

    def opq_getattr(self, v, name):
        if v.t[0] == 'rope':
            if hasattr(str, name):
                return NM(v, 'str', name)
            raise self.attr_error(v, name)
        wr = self.st.facts.get(('attrval', v.t, name))
        if wr is not None:
            return wr
        tags = self.tags(v)
        yes, no, maybe = set(), set(), set()
        for t in tags:
            h = self.ip.tag_has(t, name)
            (yes if h is True else no if h is False else maybe).add(t)
        g = self.narrow(v, [frozenset(yes), frozenset(no), frozenset(maybe)])
        if g == 1:
            raise self.attr_error(v, name)
        if g == 2:
            if not self.pred(('hasattr', v.t, name)):
                raise self.attr_error(v, name)
            return Opq(('attr', v.t, name))
        if name == '__class__':
            return self.class_of(v)
        return NM(v, 'opq', name)

    # -- iteration -----------------------------------------------------------------------------------------

    def opq_len_const(self, v):
        """forces the length of an opaque container to a constant 0..K"""
        lt = ('len', v.t)
        eq = self.st.facts.get(('eq', lt))
        if eq is not None:
            return eq[0]
        for n in range(self.ip.K + 1):
            if self.eq_const(Opq(lt), n):
                return n
        self.ip.truncated.add('collection of more than %d items' % self.ip.K)
        raise Inf()

    def opq_item(self, v, i):
        return Opq(('item', v.t, ('c', 'int', i)))

    def opq_keys(self, v):
        n = self.opq_len_const(v)
        out = []
        for i in range(n):
            k = Opq(('key', v.t, i))
            if ('tags', k.t) not in self.st.facts:
                kt = self.st.facts.get(('keytags', v.t), frozenset(['str']))
                self.st.facts[('tags', k.t)] = kt
            for j in range(i):
                kj = ('key', v.t, j)
                r = self.pair_rel(kj, k.t)
                if '=' in r:
                    self.set_pair_rel(kj, k.t, r - frozenset('='))
            self.st.facts[('p', ('has', v.t, k.t))] = True
            out.append(k)
        return out

    def item_of(self, v, k):
        """the item of an opaque mapping under a key it has"""
        t = ('item', v.t, valkey(k))
        return Opq(self.st.facts.get(('alias', t), t))

    def opq_has(self, v, k):
        """does opaque dict v have key k?"""
        self.check_hashable(k)
        kk = valkey(k)
        f = self.st.facts.get(('p', ('has', v.t, kk)))
        if f is False or f and (kk[:2] == ('key', v.t) or ('alias', ('item', v.t, kk)) in self.st.facts):
            return f
        lt = self.st.facts.get(('eq', ('len', v.t)))
        if lt is not None and ('tags', ('key', v.t, 0)) in self.st.facts or (lt is not None and lt[0] == 0):
            for i in range(lt[0]):
                if self.key_eq(Opq(('key', v.t, i)), k):
                    self.st.facts[('p', ('has', v.t, kk))] = True
                    self.st.facts[('alias', ('item', v.t, kk))] = ('item', v.t, ('key', v.t, i))
                    return True
            if f:
                raise Inf()
            return False
        if f is not None:
            return f
        b = self.pred(('has', v.t, kk), lambda: '%r has key %s' % (v, k if is_const(k) else repr(k)))
        if b and lt is None and self.const_rel(('len', v.t), 0) != frozenset('>'):
            self.set_const_rel(('len', v.t), 0, frozenset('>'))
        return b

    def iterate(self, v):
        """python iterator over the elements of an abstract iterable (may fork)"""
        if isinstance(v, Tup):
            return iter(v.items)
        if isinstance(v, str):
            return iter(v)
        if isinstance(v, bytes):
            return iter(v)
        if isinstance(v, Ref):
            o = self.st.get(v.a)
            if o.kind == 'gen':
                return iter(self.run_gen_list(v))
            if o.kind == 'inst':
                m = self.lookup_type(o.cls, '__iter__')
                if m is not None and not isinstance(m, UM):
                    r = self.call(self.bind(m, v, o.cls), [])
                    if r == v:
                        return self.iter_next(v)
                    return self.iterate(r)
                if isinstance(o.data, tuple):
                    k = self.payload_kind(o.cls)
                    if k == 'dict':
                        return iter([kk for kk, _ in o.data])
                    if isinstance(o.cls, BT) and o.cls.n == 'iterator':
                        items = o.data[o.attrs.get('pos', 0):]
                        self.st.w(v.a).attrs['pos'] = len(o.data)
                        return iter(items)
                    return iter(o.data)
                m = self.lookup_type(o.cls, '__getitem__')
                if m is not None and not isinstance(m, UM):
                    return self.iter_getitem(v, o.cls, m)
            if o.kind == 'class':
                m = self.lookup_type(self.class_of(v), '__iter__')
                if m is not None and not isinstance(m, UM):
                    return self.iterate(self.call(self.bind(m, v, self.class_of(v)), []))
            raise self.exc('TypeError', 'object is not iterable')
        if isinstance(v, Opq):
            if v.t[0] == 'rope':
                return iter(self.opq_iter(v))
            g = self.narrow(v, [frozenset(['dict']), frozenset(['list', 'tuple', 'str', 'bytes', 'struct_time']),
                                ALL_AND_MORE - SIZED - frozenset(['struct_time'])])
            if g == 2:
                raise self.exc('TypeError', 'object is not iterable')
            if g == 0:
                return iter(self.opq_keys(v))
            return iter(self.opq_iter(v))
        raise self.exc('TypeError', 'object is not iterable')

    def opq_iter(self, v):
        n = self.opq_len_const(v)
        out = []
        for i in range(n):
            x = self.opq_item(v, i)
            if v.t[0] != 'rope' and self.tags(v) == frozenset(['str']) or v.t[0] == 'rope':
                self.st.facts.setdefault(('tags', x.t), frozenset(['str']))
            out.append(x)
        return out

    def iter_next(self, v):
        for _ in range(64):
            try:
                x = self.call(self.getattr(v, '__next__'), [])
            except PyExc as ex:
                if self.exc_matches(ex.val, BT('StopIteration')):
                    return
                raise
            yield x
        raise Unsup('unbounded iterator')

    def iter_getitem(self, v, cls, m):
        for i in range(64):
            try:
                x = self.call(self.bind(m, v, cls), [i])
            except PyExc as ex:
                if self.exc_matches(ex.val, BT('IndexError')):
                    return
                raise
            yield x
        raise Unsup('unbounded iteration')

    def run_gen_list(self, g):
        """all values of a generator"""
        acc = self.new_list([])

        def handler(ip, st, val, fr):
            st = st.fork()
            o = st.w(acc.a)
            o.data = o.data + (val,)
            return [('N', None, st)]

        outs = self.memo_call(lambda: self.ip.run_gen(self.st.fork(), g, handler))
        self.take(outs)
        return list(self.st.get(acc.a).data)

    def memo_call(self, fn):
        self.calls += 1
        key = (tuple(c for c, _ in self.made), self.calls)
        outs = self.memo.get(key)
        if outs is None:
            outs = fn()
            self.memo[key] = outs
        return outs

    def take(self, outs):
        """choose one outcome of a nested exploration"""
        if not outs:
            raise Inf()
        k = self.choose(len(outs))
        kind, val, st = outs[k]
        loc = self.st.loc
        self.st = st.fork()
        self.st.loc = loc
        if kind == 'exc':
            raise PyExc(val)
        if kind == 'unw':
            raise Unwind(val)
        return val

    # -- calls ---------------------------------------------------------------------------------------------

    def call(self, f, args, kwargs=None):
        kwargs = kwargs or {}
        if isinstance(f, BM):
            return self.call(f.f, [f.s] + list(args), kwargs)
        if isinstance(f, NF):
            return f.fn(self, list(args), kwargs)
        if isinstance(f, Ref):
            o = self.st.get(f.a)
            if o.kind == 'func':
                outs = self.memo_call(lambda: self.ip.run_function(self.st, f, list(args), kwargs))
                return self.take(outs)
            if o.kind == 'class':
                return self.instantiate(f, o, args, kwargs)
            if o.kind == 'inst':
                c = self.lookup_type(o.cls, '__call__')
                if c is not None:
                    return self.call(self.bind(c, f, o.cls), args, kwargs)
                raise self.exc('TypeError', 'object is not callable')
            raise self.exc('TypeError', 'object is not callable')
        if isinstance(f, NM):
            return self.ip.native_method(self, f.s, f.tn, f.n, list(args), kwargs)
        if isinstance(f, UM):
            return self.ip.unbound_native(self, f.tn, f.n, list(args), kwargs)
        if isinstance(f, BT):
            return self.ip.construct(self, f.n, list(args), kwargs)
        if isinstance(f, Opq):
            tags = self.tags(f)
            if tags & frozenset(['callable', 'object']):
                if self.has_tag(f, ['callable', 'object']):
                    if tags == frozenset(['callable']) or self.pred(('callable', f.t)):
                        return self.ip.call_opaque(self, f, list(args), kwargs)
            raise self.exc('TypeError', 'object is not callable')
        raise self.exc('TypeError', 'object is not callable')

    def instantiate(self, cls, o, args, kwargs):
        meta = o.data.get('meta')
        if meta is not None and not isinstance(meta, BT):
            c = self.lookup_user(meta, '__call__')
            if c is not None:
                return self.call(self.bind(c, cls, meta), args, kwargs)
        # type subclass (metaclass called as a class)
        if BT('type') in o.data['mro']:
            new = self.lookup_user(cls, '__new__')
            if new is not None:
                fo = self.st.get(new.a)
                fn = fo.attrs['f'] if fo.kind == 'sm' else new
                obj = self.call(fn, [cls] + list(args), kwargs)
            else:
                obj = self.ip.type_new(self, cls, list(args), kwargs)
            init = self.lookup_user(cls, '__init__')
            if init is not None:
                self.call(self.bind(init, obj, cls), args, kwargs)
            return obj
        new = self.lookup_user(cls, '__new__')
        if new is not None:
            fo = self.st.get(new.a)
            fn = fo.attrs['f'] if fo.kind == 'sm' else new
            obj = self.call(fn, [cls] + list(args), kwargs)
        else:
            obj = self.ip.object_new(self, cls, list(args), kwargs)
        ocls = self.class_of(obj)
        if cls not in self.mro(ocls):
            return obj
        init = self.lookup_type(ocls, '__init__')
        if init is not None:
            self.call(self.bind(init, obj, ocls), args, kwargs)
        return obj

    def call_method(self, v, name, args=(), kwargs=None):
        return self.call(self.getattr(v, name), list(args), kwargs)

    # -- isinstance ----------------------------------------------------------------------------------------

    def issub(self, cls, base):
        if isinstance(base, Tup):
            return any(self.issub(cls, b) for b in base.items)
        if isinstance(cls, (BT, Ref)) and self.is_class(cls):
            if base in self.mro(cls):
                return True
            if base == BT('object'):
                return True
            bn = self.abc_name(base)
            if bn:
                for c in self.mro(cls):
                    if isinstance(c, BT) and bn in TAG_CLASSES.get({'NoneType': 'None'}.get(c.n, c.n), ()):
                        return True
                    if isinstance(c, BT) and c.n in ABC_EXTRA.get(bn, ()):
                        return True
            return False
        raise self.exc('TypeError', 'issubclass() arg 1 must be a class')

    def abc_name(self, c):
        if isinstance(c, BT):
            return c.n
        if isinstance(c, Ref):
            o = self.st.get(c.a)
            return o.attrs.get('__abc_name__')
        return None

    def is_class(self, v):
        if isinstance(v, BT):
            return True
        if isinstance(v, Ref):
            return self.st.get(v.a).kind == 'class'
        return False

    def isinstance_(self, v, cls):
        if isinstance(cls, Tup):
            return any(self.isinstance_(v, c) for c in cls.items)
        if isinstance(cls, Opq):
            return self.pred(('isinstance', valkey(v), cls.t))
        if not self.is_class(cls):
            raise self.exc('TypeError', 'isinstance() arg 2 must be a type or tuple of types')
        if isinstance(v, Opq) and v.t[0] != 'rope':
            bn = self.abc_name(cls)
            if cls == BT('object'):
                return True
            if isinstance(cls, Ref) and bn is None:
                return False
            if bn in ('Callable', 'Hashable'):
                return self.pred(('callable', v.t)) if bn == 'Callable' else True
            want = frozenset(t for t, cs in TAG_CLASSES.items() if bn in cs)
            tags = self.tags(v)
            if not tags & want:
                return False
            return self.has_tag(v, want)
        return self.issub(self.class_of(v), cls)

    def exc_matches(self, val, cls):
        if isinstance(cls, Tup):
            return any(self.exc_matches(val, c) for c in cls.items)
        if isinstance(cls, Opq):
            return False
        if not self.is_class(cls):
            raise self.exc('TypeError', 'catching classes that do not inherit from BaseException is not allowed')
        return self.issub(self.class_of(val), cls)

    # -- subscripts ----------------------------------------------------------------------------------------

    def seq_index(self, i, n):
        """constant index into a sequence of known length; forks on an opaque index"""
        if isinstance(i, Opq):
            if not self.has_tag(i, ['int', 'bool']):
                raise self.exc('TypeError', 'indices must be integers')
            for k in range(n):
                if self.eq_const(i, k):
                    return k
            for k in range(1, n + 1):
                if self.eq_const(i, -k):
                    return n - k
            raise self.exc('IndexError', 'index out of range')
        if isinstance(i, bool):
            i = int(i)
        if not isinstance(i, int):
            raise self.exc('TypeError', 'indices must be integers')
        j = i + n if i < 0 else i
        if j < 0 or j >= n:
            raise self.exc('IndexError', 'index out of range')
        return j

    def py_slice(self, i):
        o = self.st.get(i.a)
        parts = [o.attrs['start'], o.attrs['stop'], o.attrs['step']]
        for j, p in enumerate(parts):
            if p is not None and not isinstance(p, (int, Opq)):
                raise self.exc('TypeError', 'slice indices must be integers or None')
            if isinstance(p, Opq):
                e = self.eqc(p)
                if e is None:
                    if p.t[0] == 'len' or self.tags(p) <= frozenset(['int', 'bool']):
                        for n in range(-self.ip.K, self.ip.K + 1):
                            if self.eq_const(p, n):
                                e = (n,)
                                break
                    if e is None:
                        self.ip.truncated.add('slice bound')
                        raise Inf()
                parts[j] = e[0]
        return slice(*parts)

    def is_slice(self, i):
        return isinstance(i, Ref) and self.st.get(i.a).kind == 'slice'

    def getitem(self, c, i):
        if isinstance(c, Tup):
            if self.is_slice(i):
                return Tup(c.items[self.py_slice(i)])
            return c.items[self.seq_index(i, len(c.items))]
        if isinstance(c, (str, bytes)):
            if self.is_slice(i):
                return c[self.py_slice(i)]
            return c[self.seq_index(i, len(c))]
        if isinstance(c, Ref):
            o = self.st.get(c.a)
            if o.kind == 'inst':
                m = self.lookup_type(o.cls, '__getitem__')
                if m is not None and not isinstance(m, UM):
                    return self.call(self.bind(m, c, o.cls), [i])
                if isinstance(o.data, tuple):
                    k = self.payload_kind(o.cls)
                    if k == 'dict':
                        return self.dict_getitem(c, i)
                    if k == 'tuple':
                        return self.getitem(Tup(o.data), i)
                    if k == 'list':
                        if isinstance(o.cls, BT) and o.cls.n in ('dict_keys', 'dict_values', 'dict_items', 'iterator'):
                            raise self.exc('TypeError', 'object is not subscriptable')
                        if self.is_slice(i):
                            return self.new_list(o.data[self.py_slice(i)])
                        return o.data[self.seq_index(i, len(o.data))]
            raise self.exc('TypeError', 'object is not subscriptable')
        if isinstance(c, Opq):
            return self.opq_getitem(c, i)
        raise self.exc('TypeError', 'object is not subscriptable')

    def dict_getitem(self, c, i):
        self.dict_in(c)
        o = self.st.get(c.a)
        self.check_hashable(i)
        j = self.dict_find(o, i)
        if j is not None:
            return o.data[j][1]
        m = self.lookup_user(o.cls, '__missing__')
        if m is not None:
            return self.call(self.bind(m, c, o.cls), [i])
        if '$factory' in o.attrs and o.attrs['$factory'] is not None:
            v = self.call(o.attrs['$factory'], [])
            self.dict_set(c, i, v)
            return v
        raise self.exc('KeyError', i)

    def opq_getitem(self, c, i):
        if c.t[0] == 'rope':
            return self.ip.str_op(self, c, 'getitem', [i])
        g = self.narrow(c, [frozenset(['dict']), frozenset(['list', 'tuple', 'str', 'bytes', 'struct_time']),
                            ALL_AND_MORE - SIZED - frozenset(['struct_time'])])
        if g == 2:
            raise self.exc('TypeError', 'object is not subscriptable')
        if g == 0:
            if self.opq_has(c, i):
                return self.item_of(c, i)
            raise self.exc('KeyError', i)
        if self.is_slice(i):
            if self.tags(c) <= frozenset(['str', 'bytes']) and len(self.tags(c)) == 1:
                return self.ip.str_op(self, c, 'getitem', [i])
            n = self.opq_len_const(c)
            items = [self.opq_item(c, k) for k in range(n)][self.py_slice(i)]
            if self.has_tag(c, ['tuple']):
                return Tup(items)
            return self.new_list(items)
        if isinstance(i, Opq):
            if not self.has_tag(i, ['int', 'bool']):
                raise self.exc('TypeError', 'indices must be integers')
            e = self.eqc(i)
            if e is None:
                if self.pred(('has', c.t, i.t)):
                    return Opq(('item', c.t, i.t))
                raise self.exc('IndexError', 'index out of range')
            i = e[0]
        if isinstance(i, bool) or isinstance(i, int):
            i = int(i)
            lt = Opq(('len', c.t))
            ok = self.order(lt, '>', i) if i >= 0 else self.order(lt, '>=', -i)
            if not ok:
                raise self.exc('IndexError', 'index out of range')
            if i < 0:
                e = self.st.facts.get(('eq', lt.t))
                if e is not None:
                    i = e[0] + i
            v = Opq(('item', c.t, ('c', 'int', i)))
            if self.tags(c) == frozenset(['str']):
                self.st.facts.setdefault(('tags', v.t), frozenset(['str']))
            return v
        raise self.exc('TypeError', 'indices must be integers')

    def setitem(self, c, i, v):
        if isinstance(c, Ref):
            o = self.st.get(c.a)
            if o.kind == 'inst':
                m = self.lookup_type(o.cls, '__setitem__')
                if m is not None and not isinstance(m, UM):
                    self.call(self.bind(m, c, o.cls), [i, v])
                    return
                if isinstance(o.data, tuple):
                    k = self.payload_kind(o.cls)
                    if k == 'dict':
                        self.dict_set(c, i, v)
                        return
                    if k == 'list':
                        self.list_setitem(c, i, v)
                        return
        if isinstance(c, Opq):
            g = self.narrow(c, [frozenset(['dict', 'list']), ALL_AND_MORE - frozenset(['dict', 'list'])])
            if g == 0:
                self.ip.opq_written(self, c, 'item assignment', None)
                return
        raise self.exc('TypeError', 'object does not support item assignment')

    def list_setitem(self, c, i, v):
        o = self.st.get(c.a)
        if self.is_slice(i):
            items = list(o.data)
            items[self.py_slice(i)] = list(self.iterate(v))
            self.wr(c.a, 'slice assignment').data = tuple(items)
        else:
            j = self.seq_index(i, len(o.data))
            o = self.wr(c.a, 'item assignment')
            o.data = o.data[:j] + (v,) + o.data[j + 1:]

    def delitem(self, c, i):
        if isinstance(c, Ref):
            o = self.st.get(c.a)
            if o.kind == 'inst':
                m = self.lookup_type(o.cls, '__delitem__')
                if m is not None and not isinstance(m, UM):
                    self.call(self.bind(m, c, o.cls), [i])
                    return
                if isinstance(o.data, tuple):
                    k = self.payload_kind(o.cls)
                    if k == 'dict':
                        self.dict_del(c, i)
                        return
                    if k == 'list':
                        items = list(o.data)
                        if self.is_slice(i):
                            del items[self.py_slice(i)]
                        else:
                            del items[self.seq_index(i, len(items))]
                        self.wr(c.a, 'item deletion').data = tuple(items)
                        return
        if isinstance(c, Opq):
            g = self.narrow(c, [frozenset(['dict', 'list']), ALL_AND_MORE - frozenset(['dict', 'list'])])
            if g == 0:
                self.ip.opq_written(self, c, 'item deletion', None)
                return
        raise self.exc('TypeError', 'object does not support item deletion')

    def len_(self, v):
        if isinstance(v, (str, bytes)):
            return len(v)
        if isinstance(v, Tup):
            return len(v.items)
        if isinstance(v, Ref):
            o = self.st.get(v.a)
            if o.kind == 'inst':
                m = self.lookup_type(o.cls, '__len__')
                if m is not None and not isinstance(m, UM):
                    return self.call(self.bind(m, v, o.cls), [])
                if isinstance(o.data, tuple):
                    return len(o.data)
        if isinstance(v, Opq):
            if v.t[0] == 'rope':
                return Opq(('len', v.t))
            if self.has_tag(v, SIZED | frozenset(['struct_time'])):
                lt = ('len', v.t)
                e = self.st.facts.get(('eq', lt))
                return e[0] if e is not None else Opq(lt)
        raise self.exc('TypeError', 'object has no len()')

    # -- strings -------------------------------------------------------------------------------------------

    def rope(self, parts):
        out = []
        for p in parts:
            if isinstance(p, Opq):
                if p.t[0] == 'rope':
                    sub = list(p.t[1])
                else:
                    e = self.eqc(p)
                    sub = [e[0]] if e is not None and isinstance(e[0], str) else [p.t]
            elif isinstance(p, str):
                sub = [p]
            else:
                sub = [p]
            for s in sub:
                if isinstance(s, str) and out and isinstance(out[-1], str):
                    out[-1] += s
                elif isinstance(s, str) and not s:
                    continue
                else:
                    out.append(s)
        if not out:
            return ''
        if len(out) == 1:
            if isinstance(out[0], str):
                return out[0]
            t = out[0]
            if self.term_is_str(t):
                return Opq(t)
        return Opq(('rope', tuple(out)))

    def term_is_str(self, t):
        tg = self.st.facts.get(('tags', t)) or TERM_TAGS.get(t[0])
        return tg == frozenset(['str'])

    def to_str(self, v, conv=None):
        """str(v) as a value"""
        if conv == 'r':
            return self.to_repr(v)
        if isinstance(v, str):
            return v
        if is_const(v):
            return str(v)
        if isinstance(v, Opq):
            if v.t[0] == 'rope':
                return v
            e = self.eqc(v)
            if e is not None:
                return str(e[0])
            if self.tags(v) == frozenset(['str']):
                return v
            if self.tags(v) == frozenset(['None']):
                return 'None'
            if 'str' in self.tags(v):
                # str() is the identity on text: keep one term for either case
                return Opq(('str', v.t))
            return Opq(('str', v.t))
        if isinstance(v, Ref):
            o = self.st.get(v.a)
            if o.kind == 'inst':
                m = self.lookup_user(o.cls, '__str__')
                if m is not None:
                    return self.call(self.bind(m, v, o.cls), [])
                m = self.lookup_user(o.cls, '__repr__')
                if m is not None and not self.is_exception(v):
                    return self.call(self.bind(m, v, o.cls), [])
                if self.is_exception(v):
                    args = o.attrs.get('args')
                    if isinstance(args, Tup):
                        if len(args.items) == 1:
                            return self.to_str(args.items[0])
                        if not args.items:
                            return ''
                    return Opq(('str', ('ref', v.a)))
            if o.kind == 'class':
                return "<class '%s'>" % o.name
            return Opq(('str', ('ref', v.a)))
        if isinstance(v, BT):
            return "<class '%s'>" % v.n
        return Opq(('str', valkey(v)))

    def to_repr(self, v):
        if is_const(v):
            return repr(v)
        if isinstance(v, Ref):
            o = self.st.get(v.a)
            if o.kind == 'inst':
                m = self.lookup_user(o.cls, '__repr__')
                if m is not None:
                    return self.call(self.bind(m, v, o.cls), [])
        return Opq(('repr', valkey(v)))

    def is_exception(self, v):
        return isinstance(v, Ref) and self.st.get(v.a).kind == 'inst' and BT('BaseException') in self.mro(
            self.st.get(v.a).cls)

    def str_format(self, fmt, args, kwargs):
        parts = []
        auto = 0
        try:
            parsed = list(string.Formatter().parse(fmt))
        except ValueError as ex:
            raise self.exc('ValueError', str(ex))
        for lit, field, spec, conv in parsed:
            if lit:
                parts.append(lit)
            if field is None:
                continue
            head = field
            tail = ''
            for j, ch in enumerate(field):
                if ch in '.[':
                    head, tail = field[:j], field[j:]
                    break
            if head == '':
                idx = auto
                auto += 1
                if idx >= len(args):
                    raise self.exc('IndexError', 'Replacement index %d out of range' % idx)
                v = args[idx]
            elif head.isdigit():
                if int(head) >= len(args):
                    raise self.exc('IndexError', 'Replacement index %s out of range for positional args tuple' % head)
                v = args[int(head)]
            else:
                if head not in kwargs:
                    raise self.exc('KeyError', head)
                v = kwargs[head]
            if tail:
                for _, part in enumerate(string.Formatter().parse('')):
                    pass
                import _string
                _, rest = _string.formatter_field_name_split(head + tail)
                for isattr, nm in rest:
                    v = self.getattr(v, nm) if isattr else self.getitem(v, nm)
            if spec:
                if is_const(v) and not conv:
                    try:
                        parts.append(format(v, spec))
                    except ValueError as ex:
                        raise self.exc('ValueError', str(ex))
                    continue
                if isinstance(v, Ref) and not conv:
                    raise self.exc('TypeError', 'unsupported format string passed to __format__')
                parts.append(('fmt', spec, valkey(v)))
                continue
            parts.append(self.to_str(v, conv))
        return self.rope(parts)

    # -- expressions ---------------------------------------------------------------------------------------

    def ev(self, n, fr):
        return getattr(self, 'ev_' + type(n).__name__, self.ev_unsupported)(n, fr)

    def ev_unsupported(self, n, fr):
        raise Unsup('%s at %s:%s' % (type(n).__name__, fr.file, getattr(n, 'lineno', '?')))

    def ev_Constant(self, n, fr):
        return n.value

    def ev_Name(self, n, fr):
        return self.load(n.id, fr)

    def load(self, name, fr):
        if fr.globals_ and name in fr.globals_:
            pass
        else:
            env = fr.env
            while env is not None:
                o = self.st.get(env)
                if name in o.attrs:
                    return o.attrs[name]
                if env == fr.env and fr.locals and name in fr.locals and o.name != 'class':
                    raise self.exc('UnboundLocalError', "local variable '%s' referenced before assignment" % name)
                env = o.data
        mo = self.st.get(fr.mod)
        if name in mo.attrs:
            return mo.attrs[name]
        b = self.ip.builtins.get(name)
        if b is not None:
            return b
        if name == '__name__':
            return mo.name
        if name == '__file__':
            return 'file'
        raise self.exc('NameError', "name '%s' is not defined" % name)

    def ev_Tuple(self, n, fr):
        return Tup(self.ev_list(n.elts, fr))

    def ev_List(self, n, fr):
        return self.new_list(self.ev_list(n.elts, fr))

    def ev_Set(self, n, fr):
        return self.new_set(self.ev_list(n.elts, fr))

    def ev_list(self, elts, fr):
        out = []
        for e in elts:
            if isinstance(e, ast.Starred):
                out.extend(self.iterate(self.ev(e.value, fr)))
            else:
                out.append(self.ev(e, fr))
        return out

    def ev_Dict(self, n, fr):
        d = self.new_dict([])
        for k, v in zip(n.keys, n.values):
            if k is None:
                for kk, vv in self.items_of(self.ev(v, fr)):
                    self.dict_set(d, kk, vv)
            else:
                kv = self.ev(k, fr)
                self.dict_set(d, kv, self.ev(v, fr))
        return d

    def items_of(self, v):
        """(key, value) pairs of a mapping value"""
        if isinstance(v, Ref):
            o = self.st.get(v.a)
            if o.kind == 'inst' and isinstance(o.data, tuple) and self.payload_kind(o.cls) == 'dict':
                return list(o.data)
            if o.kind == 'inst':
                return [(k, self.getitem(v, k)) for k in list(self.iterate(self.call_method(v, 'keys')))]
        if isinstance(v, Opq):
            return [(k, self.item_of(v, k)) for k in self.opq_keys(v)]
        raise self.exc('TypeError', 'argument must be a mapping')

    def ev_JoinedStr(self, n, fr):
        parts = []
        for v in n.values:
            if isinstance(v, ast.Constant):
                parts.append(v.value)
            else:
                x = self.ev(v.value, fr)
                if v.format_spec is not None:
                    spec = self.ev(v.format_spec, fr)
                    if is_const(x) and isinstance(spec, str):
                        parts.append(format(x, spec))
                    else:
                        parts.append(('fmt', valkey(spec), valkey(x)))
                else:
                    parts.append(self.to_str(x, {114: 'r'}.get(v.conversion)))
        return self.rope(parts)

    def ev_BoolOp(self, n, fr):
        v = None
        for i, e in enumerate(n.values):
            v = self.ev(e, fr)
            if i == len(n.values) - 1:
                return v
            t = self.truth(v)
            if isinstance(n.op, ast.And) and not t:
                return v
            if isinstance(n.op, ast.Or) and t:
                return v
        return v

    def ev_UnaryOp(self, n, fr):
        v = self.ev(n.operand, fr)
        if isinstance(n.op, ast.Not):
            return not self.truth(v)
        if is_const(v):
            if isinstance(n.op, ast.USub):
                return -v
            if isinstance(n.op, ast.UAdd):
                return +v
            return ~v
        if isinstance(v, Opq):
            if isinstance(n.op, ast.USub):
                if self.int_term(v):
                    return self.binop(ast.Sub, 0, v)
                x = Opq(('neg', v.t))
                self.st.facts.setdefault(('tags', x.t), self.tags(v) & NUMERIC or NUMERIC)
                return x
        raise Unsup('unary op')

    def ev_BinOp(self, n, fr):
        a = self.ev(n.left, fr)
        b = self.ev(n.right, fr)
        return self.binop(type(n.op), a, b)

    def binop(self, op, a, b):
        sym, fn, dun, rdun = BINOPS[op]
        if is_const(a) and is_const(b) and not (sym == '%' and isinstance(a, str)):
            try:
                return fn(a, b)
            except ZeroDivisionError as ex:
                raise self.exc('ZeroDivisionError', str(ex))
            except TypeError as ex:
                raise self.exc('TypeError', str(ex))
        for x, y, d in ((a, b, dun), (b, a, rdun)):
            if isinstance(x, Ref):
                o = self.st.get(x.a)
                if o.kind == 'inst':
                    m = self.lookup_type(o.cls, d)
                    if m is not None and not isinstance(m, (UM, NF)):
                        return self.call(self.bind(m, x, o.cls), [y])
        if sym == '%' and (isinstance(a, str) or self.opq_is(a, 'str')):
            args = list(b.items) if isinstance(b, Tup) else [b]
            return self.percent(a, args)
        if sym == '+':
            if isinstance(a, Tup) and isinstance(b, Tup):
                return Tup(a.items + b.items)
            if isinstance(a, Ref) and isinstance(b, Ref):
                oa, ob = self.st.get(a.a), self.st.get(b.a)
                if oa.kind == ob.kind == 'inst' and isinstance(oa.data, tuple) and isinstance(ob.data, tuple):
                    ka, kb = self.payload_kind(oa.cls), self.payload_kind(ob.cls)
                    if ka == kb == 'list' and self.real_list(oa) and self.real_list(ob):
                        return self.new_list(oa.data + ob.data)
                raise self.exc('TypeError', 'unsupported operand type(s) for +')
            if self.strish(a) and self.strish(b):
                return self.rope([a, b])
            if (isinstance(a, Ref) and isinstance(b, Opq)) or (isinstance(a, Opq) and isinstance(b, Ref)):
                o, r = (b, a) if isinstance(b, Opq) else (a, b)
                if self.payload_is(r, 'list') and 'list' in self.tags(o):
                    if self.has_tag(o, ['list']):
                        return self.new_list(list(self.iterate(a)) + list(self.iterate(b)))
                raise self.exc('TypeError', 'unsupported operand type(s) for +')
        if sym == '*':
            for s, n in ((a, b), (b, a)):
                seq = isinstance(s, (Tup, str)) or (isinstance(s, Ref) and self.payload_is(s, 'list')) or (
                    isinstance(s, Opq) and (s.t[0] == 'rope' or self.tags(s) <= frozenset(['str'])))
                if not seq:
                    continue
                if isinstance(n, bool) or not isinstance(n, (int, Opq)) or isinstance(n, Opq) and (
                        n.t[0] == 'rope' or not self.has_tag(n, ['int', 'bool'])):
                    raise self.exc('TypeError', "can't multiply sequence by non-int")
                if isinstance(n, Opq):
                    n = len(list(self.iterate(self.call(BT('range'), [n]))))
                if isinstance(s, Tup):
                    return Tup(s.items * n)
                if isinstance(s, Ref):
                    return self.new_list(list(self.iterate(s)) * n)
                return self.rope([s] * n) if n > 0 else ''
        if sym == '*' and isinstance(b, int) and not isinstance(a, Opq):
            if isinstance(a, Tup):
                return Tup(a.items * b)
            if self.payload_is(a, 'list'):
                return self.new_list(self.st.get(a.a).data * b)
        if sym in ('|', '&', '-', '^') and isinstance(a, Ref) and isinstance(b, Ref):
            oa, ob = self.st.get(a.a), self.st.get(b.a)
            if oa.kind == ob.kind == 'inst' and isinstance(oa.data, tuple) and isinstance(ob.data, tuple):
                setty = lambda o: self.payload_kind(o.cls) == 'set' or (
                    isinstance(o.cls, BT) and o.cls.n in ('dict_keys', 'dict_items'))
                if isinstance(oa.cls, BT) and oa.cls.n in ('dict_keys', 'dict_items'):
                    self.portable('%s of keys()' % sym, '2.7')
                if sym == '|' and self.payload_kind(oa.cls) == self.payload_kind(ob.cls) == 'dict':
                    self.portable('| of mappings', '2.7 to 3.8')
                    r = self.call_method(a, 'copy')
                    self.call_method(r, 'update', [b])
                    return r
                if setty(oa) and setty(ob):
                    return self.set_op(sym, oa.data, ob.data)
            raise self.exc('TypeError', 'unsupported operand type(s) for ' + sym)
        for x in (a, b):
            if isinstance(x, Opq):
                if x.t[0] == 'rope':
                    raise self.exc('TypeError', 'unsupported operand')
                if self.tags(x) & NUMERIC and not self.tags(x) <= NUMERIC:
                    if not self.has_tag(x, NUMERIC):
                        if sym == '+' and self.tags(x) & frozenset(['str', 'list', 'tuple']):
                            y = b if x is a else a
                            if self.strish(y) and self.has_tag(x, ['str']):
                                return self.rope([a, b])
                        if sym == '-' and self.tags(x) & frozenset(['date', 'datetime', 'object']):
                            return self.fresh('arith', ['object'])
                        raise self.exc('TypeError', 'unsupported operand type(s) for ' + sym)
                elif not self.tags(x) & NUMERIC:
                    raise self.exc('TypeError', 'unsupported operand type(s) for ' + sym)
            elif not isinstance(x, (int, float, complex)):
                raise self.exc('TypeError', 'unsupported operand type(s) for ' + sym)
        ea = self.eqc(a) if isinstance(a, Opq) else (a,)
        eb = self.eqc(b) if isinstance(b, Opq) else (b,)
        if ea is not None and eb is not None:
            try:
                return fn(ea[0], eb[0])
            except ZeroDivisionError as ex:
                raise self.exc('ZeroDivisionError', str(ex))
        if sym in ('+', '-', '*') and self.int_term(a) and self.int_term(b):
            if sym == '*':
                ka, kb = self.linear(a), self.linear(b)
                r = None
                if ka is not None and kb is not None and not (ka[0] and kb[0]):
                    k, v = (ka[1], b) if not ka[0] else (kb[1], a)
                    r = self.lin_combine(v, k, 0, 0)
            else:
                r = self.lin_combine(a, 1, b, 1 if sym == '+' else -1)
            if r is not None:
                return self.lin_value(*r)
        if sym == '%' and is_const(b) and b == 1 and isinstance(a, Opq):
            if self.int_term(a):
                return 0
            if self.tags(a) == frozenset(['float']) and not self.pred(('isnan', a.t), lambda: '%r is nan' % a) and (
                    not self.pred(('isinf', a.t), lambda: '%r is infinite' % a)):
                if self.pred(('integral', a.t), lambda: '%r is integral' % a):
                    return 0.0
                r = Opq(('%', a.t, valkey(b)))
                self.st.facts.setdefault(('tags', r.t), frozenset(['float']))
                self.set_const_rel(r.t, 0, frozenset('>'))
                return r
        ints = frozenset(['int', 'bool'])
        t = Opq((sym, valkey(a), valkey(b)))
        isint = all((isinstance(x, int) or (isinstance(x, Opq) and self.tags(x) <= ints)) for x in (a, b))
        kinds = set()
        for x in (a, b):
            kinds |= self.tags(x) if isinstance(x, Opq) else {type(x).__name__}
        tags = frozenset(['int']) if isint and sym != '/' else frozenset(
            ['int', 'float'] + (['Decimal'] if 'Decimal' in kinds or not kinds <= NUMERIC else []))
        if kinds <= ints | frozenset(['float']) and (sym == '/' or any(
                self.tags(x) == frozenset(['float']) if isinstance(x, Opq) else isinstance(x, float) for x in (a, b))):
            tags = frozenset(['float'])
        self.st.facts.setdefault(('tags', t.t), tags)
        return t

    def portable(self, what, versions):
        """the code being analysed uses something that only some of the supported versions have"""
        if self.ip.portable and self.st.loc and self.st.loc[0].startswith(self.ip.repo + '/'):
            self.ip.record(self, '%s is not available on Python %s' % (what, versions), (), loc=self.st.loc)

    def set_op(self, sym, xs, ys):
        inn = lambda x, s: any(self.same_or_eq(x, y) for y in s)
        if sym == '&':
            return self.new_set([x for x in xs if inn(x, ys)])
        if sym == '-':
            return self.new_set([x for x in xs if not inn(x, ys)])
        if sym == '|':
            return self.new_set(list(xs) + list(ys))
        return self.new_set([x for x in xs if not inn(x, ys)] + [y for y in ys if not inn(y, xs)])

    def real_list(self, o):
        return BT('list') in self.mro(o.cls)

    def payload_is(self, v, kind):
        if isinstance(v, Ref):
            o = self.st.get(v.a)
            return o.kind == 'inst' and isinstance(o.data, tuple) and self.payload_kind(o.cls) == kind
        return False

    def strish(self, v):
        return isinstance(v, str) or self.opq_is(v, 'str')

    def opq_is(self, v, tag):
        return isinstance(v, Opq) and (v.t[0] == 'rope' and tag == 'str' or self.tags(v) == frozenset([tag]))

    def percent(self, fmt, args):
        if isinstance(fmt, str) and all(is_const(a) for a in args):
            try:
                return fmt % tuple(args)
            except (TypeError, ValueError) as ex:
                raise self.exc(type(ex).__name__, str(ex))
        if isinstance(fmt, str):
            parts = []
            i = 0
            rest = fmt
            while rest:
                j = rest.find('%')
                if j < 0:
                    parts.append(rest)
                    break
                parts.append(rest[:j])
                c = rest[j + 1:j + 2]
                if c == '%':
                    parts.append('%')
                elif c in 'sdr' and c:
                    if i >= len(args):
                        raise self.exc('TypeError', 'not enough arguments for format string')
                    parts.append(self.to_str(args[i], 'r' if c == 'r' else None))
                    i += 1
                else:
                    return Opq(('rope', (('fmtx', fmt) + tuple(valkey(a) for a in args),)))
                rest = rest[j + 2:]
            return self.rope(parts)
        return Opq(('rope', (('fmtx', valkey(fmt)) + tuple(valkey(a) for a in args),)))

    def ev_Compare(self, n, fr):
        left = self.ev(n.left, fr)
        r = True
        for op, c in zip(n.ops, n.comparators):
            right = self.ev(c, fr)
            r = self.compare(OPS[type(op)], left, right)
            if not r:
                return r
            left = right
        return r

    def ev_IfExp(self, n, fr):
        self.st.loc = (fr.file, n.lineno, fr.fn)
        return self.ev(n.body if self.truth(self.ev(n.test, fr)) else n.orelse, fr)

    def ev_NamedExpr(self, n, fr):
        v = self.ev(n.value, fr)
        self.ip.assign(self, n.target, v, fr)
        return v

    def ev_Attribute(self, n, fr):
        v = self.ev(n.value, fr)
        return self.getattr(v, mangle(n.attr, fr, self))

    def ev_Subscript(self, n, fr):
        c = self.ev(n.value, fr)
        return self.getitem(c, self.ev_index(n.slice, fr))

    def ev_index(self, s, fr):
        return self.ev(s, fr)

    def ev_Slice(self, n, fr):
        g = lambda e: None if e is None else self.ev(e, fr)
        return self.st.alloc(Obj('slice', None, {'start': g(n.lower), 'stop': g(n.upper), 'step': g(n.step)}))

    def ev_Lambda(self, n, fr):
        return self.ip.make_function(self, n, fr, '<lambda>')

    def ev_Call(self, n, fr):
        f = self.ev(n.func, fr)
        args = self.ev_list(n.args, fr)
        kwargs = {}
        for k in n.keywords:
            if k.arg is None:
                for kk, vv in self.items_of(self.ev(k.value, fr)):
                    kk = self.key_const(kk)
                    if kk in kwargs:
                        raise self.exc('TypeError', 'multiple values for keyword argument')
                    kwargs[kk] = vv
            else:
                kwargs[k.arg] = self.ev(k.value, fr)
        self.st.loc = (fr.file, n.lineno, fr.fn)
        if isinstance(f, BT) and f.n == 'super' and not args:
            return self.zero_super(fr)
        if isinstance(f, NF) and f.n in FRAME_NF:
            return FRAME_NF[f.n](self, args, kwargs, fr)
        return self.call(f, args, kwargs)

    def key_const(self, k):
        if isinstance(k, str):
            return k
        if isinstance(k, Opq):
            e = self.eqc(k)
            if e is not None and isinstance(e[0], str):
                return e[0]
            raise Unsup('opaque keyword')
        raise self.exc('TypeError', 'keywords must be strings')

    def zero_super(self, fr):
        env = self.st.get(fr.env)
        while env.name == 'comp' or '$first' not in env.attrs:
            if env.data is None:
                raise self.exc('RuntimeError', 'super(): no arguments')
            env = self.st.get(env.data)
        cls = None if fr.cls is None else self.st.get(fr.cls).attrs.get('cls')
        if cls is None:
            raise self.exc('RuntimeError', 'super(): no arguments')
        return SuperV(cls, env.attrs['$first'])

    def ev_Yield(self, n, fr):
        v = None if n.value is None else self.ev(n.value, fr)
        return self.do_yield(v, fr)

    def do_yield(self, v, fr):
        if fr.handler is None:
            raise Unsup('yield without consumer')
        h = fr.handler
        outs = self.memo_call(lambda: h(self.ip, self.st.fork(), v, fr))
        if not outs:
            raise Inf()
        k = self.choose(len(outs))
        sig, val, st = outs[k]
        loc = self.st.loc
        self.st = st.fork()
        self.st.loc = loc
        if sig == 'N':
            return val
        if sig == 'X':
            raise PyExc(val)
        raise Unwind((sig, val))

    def ev_YieldFrom(self, n, fr):
        it = self.ev(n.value, fr)
        if isinstance(it, Ref) and self.st.get(it.a).kind == 'gen' and fr.handler is not None:
            h = fr.handler
            outs = self.memo_call(lambda: self.ip.run_gen(self.st.fork(), it, h))
            return self.take(outs)
        for v in self.iterate(it):
            self.do_yield(v, fr)
        return None

    # comprehensions are evaluated in a child environment

    def comp_env(self, fr):
        env = self.st.alloc(Obj('env', None, {}, fr.env, name='comp'))
        return fr.sub(env=env.a, locals=None)

    def comp_loop(self, gens, i, fr, emit):
        if i == len(gens):
            emit()
            return
        g = gens[i]
        for v in self.iterate(self.ev(g.iter, fr)):
            self.ip.assign(self, g.target, v, fr)
            if all(self.truth(self.ev(c, fr)) for c in g.ifs):
                self.comp_loop(gens, i + 1, fr, emit)

    def ev_ListComp(self, n, fr):
        f = self.comp_env(fr)
        out = []
        self.comp_loop(n.generators, 0, f, lambda: out.append(self.ev(n.elt, f)))
        return self.new_list(out)

    def ev_SetComp(self, n, fr):
        f = self.comp_env(fr)
        out = []
        self.comp_loop(n.generators, 0, f, lambda: out.append(self.ev(n.elt, f)))
        return self.new_set(out)

    def ev_DictComp(self, n, fr):
        f = self.comp_env(fr)
        d = self.new_dict([])
        self.comp_loop(n.generators, 0, f,
                       lambda: self.dict_set(d, self.ev(n.key, f), self.ev(n.value, f)))
        return d

    def ev_GeneratorExp(self, n, fr):
        # the first iterable is evaluated at once, the rest on consumption
        f = self.comp_env(fr)
        first = self.ev(n.generators[0].iter, fr)
        self.st.w(f.env).attrs['$iter'] = first
        return self.st.alloc(Obj('gen', None, {
            '$env': Ref(f.env), '$cell': None if fr.cls is None else Ref(fr.cls), 'used': False},
            self.ip.genexp_data(n, fr), name='genexpr', site=self.st.loc))

    def ev_Starred(self, n, fr):
        raise Unsup('starred')

    def ev_Await(self, n, fr):
        raise Unsup('await')


def mangle(name, fr, m):
    if name.startswith('__') and not name.endswith('__') and fr.cls is not None:
        return '_%s%s' % (m.st.get(fr.cls).name.lstrip('_'), name)
    return name


ALL_AND_MORE = ALL_TAGS | frozenset(['complex', 'callable', 'set'])
CLASS_SPECIAL = frozenset(['__doc__', '__class__', '__module__', '__dict__', '__subclasshook__'])
ABC_EXTRA = {
    'Sized': ['set', 'frozenset', 'dict_keys', 'range'], 'Iterable': ['set', 'frozenset', 'dict_keys', 'generator',
                                                                     'range', 'iterator', 'dict_values', 'dict_items'],
    'Container': ['set', 'frozenset'], 'Set': ['set', 'frozenset', 'dict_keys'], 'MutableSet': ['set'],
    'Mapping': ['defaultdict', 'OrderedDict'], 'MutableMapping': ['defaultdict', 'OrderedDict'],
    'Callable': ['function', 'method', 'builtin_function_or_method', 'type'],
    'Sequence': ['range'],
    'Iterator': ['generator', 'iterator'],
}
#: tags implied by the shape of a term
TERM_TAGS = {
    'id': frozenset(['int']), 'rope': frozenset(['str']), 'str': frozenset(['str']), 'repr': frozenset(['str']), 'len': frozenset(['int']),
    'count': frozenset(['int']), 'sop': frozenset(['str']), 'boolp': frozenset(['bool']), 'toint': frozenset(['int']),
    'tofloat': frozenset(['float']), 'dec': frozenset(['Decimal']), 'uuid': frozenset(['UUID']),
    'strptime': frozenset(['datetime']), 'isoparse': frozenset(['datetime']), 'stime': frozenset(['struct_time']),
    'todate': frozenset(['date']), 'fmt': frozenset(['str']), 'fmtx': frozenset(['str']),
    'match': frozenset(['object']), 'pattern': frozenset(['object']),
}
FRAME_NF = {}
