"""Statements, functions, classes, modules and state joins of the abstract interpreter."""
import ast
import os

from .values import (
    Opq, Ref, Tup, BT, NF, BM, NM, UM, SuperV, Obj, State, is_const, valkey, term_str,
)
from .engine import (
    Machine, Frame, Inf, Unsup, PyExc, Unwind, ANYREL, bt_mro, FRAME_NF, ALL_TAGS,
)

MAXDEPTH = 90


def _refs_in(t, out):
    """addresses and fresh numbers mentioned by a term / fact key"""
    if isinstance(t, tuple):
        n = len(t)
        if n == 2 and t[0] == 'ref' and isinstance(t[1], int):
            out.append(t)
            return
        if n == 3 and t[0] == 'fr':
            out.append(t)
            return
        for x in t:
            if isinstance(x, (tuple, frozenset)):
                _refs_in(x, out)
            elif isinstance(x, (Ref, Tup, Opq)):
                _refs_in(valkey(x), out)
    elif isinstance(t, frozenset):
        for x in t:
            _refs_in(x, out)


def _subst(t, amap, fmap):
    if isinstance(t, tuple):
        n = len(t)
        if n == 2 and t[0] == 'ref' and isinstance(t[1], int):
            return ('ref', amap.get(t[1], t[1]))
        if n == 3 and t[0] == 'fr':
            return ('fr', t[1], fmap.get(t[2], t[2]))
        return tuple(_subst(x, amap, fmap) for x in t)
    if isinstance(t, frozenset):
        return frozenset(_subst(x, amap, fmap) for x in t)
    if isinstance(t, (Ref, Tup, Opq, BM, NM)):
        return _subst_val(t, amap, fmap)
    return t


def _subst_val(v, amap, fmap):
    if isinstance(v, Ref):
        a = amap.get(v.a)
        return v if a is None or a == v.a else Ref(a)
    if isinstance(v, Opq):
        if not term_refs(v):
            return v
        return Opq(_subst(v.t, amap, fmap))
    if isinstance(v, Tup):
        return Tup(_subst_val(i, amap, fmap) for i in v.items)
    if isinstance(v, BM):
        return BM(_subst_val(v.f, amap, fmap), _subst_val(v.s, amap, fmap))
    if isinstance(v, NM):
        return NM(_subst_val(v.s, amap, fmap), v.tn, v.n)
    if isinstance(v, SuperV):
        return SuperV(_subst_val(v.cls, amap, fmap), _subst_val(v.obj, amap, fmap))
    return v


_TERM_CACHE = {}


def term_refs(v):
    r = _TERM_CACHE.get(v)
    if r is None:
        out = []
        _refs_in(v.t, out)
        r = tuple(out)
        if len(_TERM_CACHE) > 200000:
            _TERM_CACHE.clear()
        _TERM_CACHE[v] = r
    return r


class Walker(object):
    """canonical renumbering of what a state allocated since `pre`"""

    def __init__(self, pre, st):
        self.w0 = pre.nxt
        self.f0 = pre.fresh
        self.st = st
        self.amap = {}
        self.fmap = {}
        self.todo = []

    def addr(self, a):
        if a >= self.w0 and a not in self.amap:
            self.amap[a] = self.w0 + len(self.amap)
            self.todo.append(a)

    def term(self, refs):
        for r in refs:
            if r[0] == 'ref':
                self.addr(r[1])
            elif r[2] > self.f0 and r[2] not in self.fmap:
                self.fmap[r[2]] = self.f0 + 1 + len(self.fmap)

    def val(self, v):
        if isinstance(v, Ref):
            self.addr(v.a)
        elif isinstance(v, Opq):
            self.term(term_refs(v))
        elif isinstance(v, Tup):
            for i in v.items:
                self.val(i)
        elif isinstance(v, BM):
            self.val(v.f)
            self.val(v.s)
        elif isinstance(v, NM):
            self.val(v.s)
        elif isinstance(v, SuperV):
            self.val(v.cls)
            self.val(v.obj)
        elif isinstance(v, tuple):
            for i in v:
                self.val(i)

    def obj(self, o):
        if isinstance(o.cls, Ref):
            self.addr(o.cls.a)
        for k in sorted(o.attrs):
            self.val(o.attrs[k])
        d = o.data
        if isinstance(d, tuple):
            for i in d:
                self.val(i)
        elif o.kind == 'env':
            if d is not None:
                self.addr(d)
        elif o.kind == 'class':
            for k in ('mro', 'bases', 'subs'):
                for i in d[k]:
                    self.val(i)
            self.val(d['meta'])

    def drain(self):
        while self.todo:
            self.obj(self.st.get(self.todo.pop(0)))


def _map_obj(o, amap, fmap):
    n = Obj(o.kind, None if o.cls is None else _subst_val(o.cls, amap, fmap),
            dict((k, _subst_val(v, amap, fmap)) for k, v in o.attrs.items()), None, o.name, o.site)
    d = o.data
    if isinstance(d, tuple):
        if d and isinstance(d[0], tuple):
            n.data = tuple((_subst_val(k, amap, fmap), _subst_val(v, amap, fmap)) for k, v in d)
        else:
            n.data = tuple(_subst_val(i, amap, fmap) for i in d)
    elif o.kind == 'env':
        n.data = None if d is None else amap.get(d, d)
    elif o.kind == 'class':
        n.data = dict((k, ([_subst_val(i, amap, fmap) for i in d[k]])) for k in ('mro', 'bases', 'subs'))
        n.data['meta'] = None if d['meta'] is None else _subst_val(d['meta'], amap, fmap)
    else:
        n.data = d
    return n


def _obj_key(o):
    d = o.data
    if isinstance(d, tuple):
        if d and isinstance(d[0], tuple):
            dk = tuple((valkey(k), valkey(v)) for k, v in d)
        else:
            dk = tuple(valkey(i) for i in d)
    elif o.kind == 'class':
        dk = tuple(tuple(valkey(i) for i in d[k]) for k in ('mro', 'bases', 'subs'))
    elif o.kind == 'env':
        dk = d
    else:
        dk = id(d)
    return (o.kind, None if o.cls is None else valkey(o.cls),
            tuple(sorted((k, valkey(v)) for k, v in o.attrs.items() if not (k == '$loc'))), dk, o.name)


class Interp(object):

    def __init__(self, repo, stubs, K=3):
        self.repo = repo
        self.stubs = stubs
        self.K = K
        self.portable = False
        self.truncated = set()
        self.sums = False
        self.modules = {}
        self.builtins = {}
        self.NotImpl = None
        self.base_state = None
        self.loading = True
        self.reached = set()          # functions of the analysed repository that were entered
        self.stats = {'stmts': 0, 'calls': 0, 'states': 0, 'joins': 0}
        self.sources = {}
        self.violations = {}
        self.barrier = {}
        self.checked = {}
        self.deadline = None
        self.branches = set()
        self.tree_paths = {}
        from . import natives, lib
        natives.install(self)
        lib.install(self)

    # ---------------------------------------------------------------------------------------------------------
    # exploration of one expression / statement

    def explore(self, st, fn):
        outs = []
        memo = {}
        stack = [()]
        while stack:
            prefix = stack.pop()
            m = Machine(self, st.fork(), prefix, memo)
            kind = None
            try:
                v = fn(m)
                kind = 'val'
            except PyExc as ex:
                kind, v = 'exc', ex.val
            except Unwind as ex:
                kind, v = 'unw', ex.payload
            except Inf:
                pass
            if kind is not None:
                outs.append((kind, v, m.st))
            made = m.made
            for i in range(len(prefix), len(made)):
                n = made[i][1]
                head = tuple(c for c, _ in made[:i])
                for k in range(n - 1, 0, -1):
                    stack.append(head + (k,))
        return outs

    def ex(self, st, fn):
        """explore, with statement signals"""
        out = []
        for kind, v, s in self.explore(st, fn):
            out.append(('N' if kind == 'val' else 'X' if kind == 'exc' else 'G', v, s))
        return out

    # ---------------------------------------------------------------------------------------------------------
    # joins

    def compact(self, outs, pre):
        """canonicalises the outcomes relative to their common ancestor and joins the ones that are equal or whose
        facts differ only in one complementary fact (an exact join: no concrete state is added)"""
        if len(outs) < 2:
            return outs
        groups = {}
        order = []
        pre_heap = pre.heap
        for sig, val, st in outs:
            w = Walker(pre, st)
            if val is not None:
                w.val(val)
            if st.exc is not None:
                w.val(st.exc)
            changed = []
            w0 = pre.nxt
            for a, o in st.heap.items():
                if a < w0 and pre_heap.get(a) is not o:
                    changed.append(a)
            changed.sort()
            for a in changed:
                w.obj(st.heap[a])
            w.drain()
            # facts added since pre
            pf = pre.facts
            fdiff = []
            for k, v in st.facts.items():
                if k in pf and (pf[k] is v or pf[k] == v):
                    continue
                fdiff.append((k, v))
            amap, fmap = w.amap, w.fmap
            # keep facts whose terms are still expressible
            kept = {}
            for k, v in fdiff:
                refs = []
                _refs_in(k, refs)
                _refs_in(v if isinstance(v, (tuple, frozenset)) else (v,), refs)
                ok = True
                need = False
                for r in refs:
                    if r[0] == 'ref':
                        if r[1] >= w0:
                            need = True
                            if r[1] not in amap:
                                ok = False
                    elif r[2] > pre.fresh:
                        need = True
                        if r[2] not in fmap:
                            ok = False
                if not ok:
                    continue
                if need:
                    k, v = _subst(k, amap, fmap), _subst(v, amap, fmap)
                kept[k] = v
            heap = {}
            ident = all(a == b for a, b in amap.items()) and all(a == b for a, b in fmap.items())
            keyp = []
            for a in changed:
                o = st.heap[a]
                if not ident:
                    o = _map_obj(o, amap, fmap)
                heap[a] = o
                keyp.append((a, _obj_key(o)))
            new = {}
            for a, b in amap.items():
                o = st.get(a)
                if not ident:
                    o = _map_obj(o, amap, fmap)
                new[b] = o
                keyp.append((b, _obj_key(o)))
            if not ident:
                val = self._subst_payload(val, amap, fmap)
            key = (sig, self._payload_key(val), None if st.exc is None else valkey(_subst_val(st.exc, amap, fmap)),
                   st.frozen, st.frozen_label, tuple(keyp))
            rec = (sig, val, st, heap, new, kept, len(amap), len(fmap), amap, fmap)
            if key not in groups:
                groups[key] = []
                order.append(key)
            groups[key].append(rec)
        res = []
        for key in order:
            recs = groups[key]
            facts = [r[5] for r in recs]
            keep = self.join_facts(facts, pre)
            self.stats['joins'] += len(recs) - len(keep)
            for i, f in keep:
                sig, val, st, heap, new, _, na, nf, amap, fmap = recs[i]
                s = State.__new__(State)
                s.base = st.base
                h = dict(pre_heap)
                h.update(heap)
                h.update(new)
                s.heap = h
                s.own = set()
                ff = dict(pre.facts)
                ff.update(f)
                s.facts = ff
                s.nxt = pre.nxt + na
                s.fresh = pre.fresh + nf
                s.trail = st.trail
                s.loc = st.loc
                s.depth = st.depth
                s.frozen = st.frozen
                s.exempt = st.exempt
                s.frozen_label = st.frozen_label
                s.gens = st.gens
                s.orders = st.orders
                s.exc = None if st.exc is None else _subst_val(st.exc, amap, fmap)
                res.append((sig, val, s))
        return res

    def _subst_payload(self, val, amap, fmap):
        if isinstance(val, tuple):
            return tuple(self._subst_payload(x, amap, fmap) for x in val)
        return _subst_val(val, amap, fmap)

    def _payload_key(self, val):
        if isinstance(val, tuple):
            return ('$', tuple(self._payload_key(x) for x in val))
        return valkey(val)

    def join_facts(self, facts, pre):
        """[(index of representative, facts)] after exact joins"""
        items = [(i, f) for i, f in enumerate(facts)]
        uniq = {}
        out = []
        for i, f in items:
            k = frozenset((a, repr(b)) for a, b in f.items())
            if k in uniq:
                continue
            uniq[k] = True
            out.append((i, f))
        changed = True
        while changed and len(out) > 1:
            changed = False
            n = len(out)
            for x in range(n):
                for y in range(x + 1, n):
                    j = self.join2(out[x][1], out[y][1], pre)
                    if j is not None:
                        out[x] = (out[x][0], j)
                        del out[y]
                        changed = True
                        break
                if changed:
                    break
        return out

    def join2(self, a, b, pre):
        diff = [k for k in a if k not in b or a[k] != b[k]]
        diff += [k for k in b if k not in a]
        if not diff:
            return a
        if len(diff) > 4:
            return None
        if len(diff) == 1:
            k = diff[0]
            if k[0] == 'p':
                if k in a and k in b:
                    c = dict(a)
                    del c[k]
                    return c
                return dict(x for x in (a if k not in a else b).items())  # weaker one subsumes
            if k[0] == 'tags':
                if k in a and k in b:
                    c = dict(a)
                    u = a[k] | b[k]
                    base = pre.facts.get(k, ALL_TAGS)
                    c[k] = u
                    if k not in pre.facts and u == ALL_TAGS:
                        del c[k]
                    elif u == base and k in pre.facts:
                        del c[k]
                    return c
                return dict((a if k not in a else b))
            if k[0] == 'rel':
                ra, rb = a.get(k, ANYREL), b.get(k, ANYREL)
                c = dict(a)
                u = ra | rb
                if u == pre.facts.get(k, ANYREL):
                    c.pop(k, None)
                else:
                    c[k] = u
                return c
            if k[0] == 'eq' and k in a and k in b and set([a[k], b[k]]) == set([(True,), (False,)]):
                if type(a[k][0]) is bool and type(b[k][0]) is bool:
                    c = dict(a)
                    del c[k]
                    return c
        # numeric relation of one term to constants
        terms = set(k[1] for k in diff)
        if len(terms) == 1 and all(k[0] in ('eq', 'crel') for k in diff):
            t = diff[0][1]
            ka = ('crel', t)
            if ka in a and ka in b:
                da, db = dict(a[ka]), dict(b[ka])
                dc = [c for c in set(da) | set(db) if da.get(c, ANYREL) != db.get(c, ANYREL)]
                if len(dc) == 1:
                    c0 = dc[0]
                    u = da.get(c0, ANYREL) | db.get(c0, ANYREL)
                    m = dict(da)
                    if u == ANYREL:
                        m.pop(c0, None)
                    else:
                        m[c0] = u
                    c = dict(a)
                    c.pop(('eq', t), None)
                    c.pop(ka, None)
                    mt = tuple(sorted(m.items(), key=lambda kv: repr(kv[0])))
                    if m and pre.facts.get(ka) != mt:
                        c[ka] = mt
                    if ('eq', t) in pre.facts:
                        return None
                    return c
        return None

    # ---------------------------------------------------------------------------------------------------------
    # statements

    def exec_block(self, stmts, fr, st):
        cur = [st]
        done = []
        for s in stmts:
            if not cur:
                break
            nxt = []
            for c in cur:
                for o in self.exec_stmt(s, fr, c):
                    if o[0] == 'N':
                        nxt.append(o[2])
                    else:
                        done.append(o)
            cur = nxt
        return done + [('N', None, s) for s in cur]

    def exec_stmt(self, s, fr, st):
        self.stats['stmts'] += 1
        if self.deadline is not None and self.stats['stmts'] % 256 == 0:
            self.deadline()
        st.loc = (fr.file, s.lineno, fr.fn)
        fn = getattr(self, 'st_' + type(s).__name__, None)
        if fn is None:
            raise Unsup('statement %s at %s:%s' % (type(s).__name__, fr.file, s.lineno))
        return fn(s, fr, st)

    def st_Pass(self, s, fr, st):
        return [('N', None, st)]

    def st_Expr(self, s, fr, st):
        if isinstance(s.value, ast.Constant):
            return [('N', None, st)]
        return [(sig, None if sig == 'N' else v, x) for sig, v, x in self.ex(st, lambda m: m.ev(s.value, fr))]

    def st_Return(self, s, fr, st):
        if s.value is None:
            return [('R', None, st)]
        out = self.ex(st, lambda m: m.ev(s.value, fr))
        return [('R' if sig == 'N' else sig, v, x) for sig, v, x in out]

    def st_Break(self, s, fr, st):
        return [('B', None, st)]

    def st_Continue(self, s, fr, st):
        return [('C', None, st)]

    def st_Assign(self, s, fr, st):
        def fn(m):
            v = m.ev(s.value, fr)
            for t in s.targets:
                self.assign(m, t, v, fr)
        return self.ex(st, fn)

    def st_AnnAssign(self, s, fr, st):
        if s.value is None:
            return [('N', None, st)]
        return self.ex(st, lambda m: self.assign(m, s.target, m.ev(s.value, fr), fr))

    def st_AugAssign(self, s, fr, st):
        def fn(m):
            t = s.target
            if isinstance(t, ast.Name):
                cur = m.load(t.id, fr)
                store = lambda v: self.assign(m, t, v, fr)
            elif isinstance(t, ast.Attribute):
                obj = m.ev(t.value, fr)
                from .engine import mangle
                nm = mangle(t.attr, fr, m)
                cur = m.getattr(obj, nm)
                store = lambda v: m.setattr(obj, nm, v)
            else:
                obj = m.ev(t.value, fr)
                idx = m.ev_index(t.slice, fr)
                cur = m.getitem(obj, idx)
                store = lambda v: m.setitem(obj, idx, v)
            store(self.inplace(m, type(s.op), cur, m.ev(s.value, fr)))
        return self.ex(st, fn)

    INPLACE = {ast.Add: '__iadd__', ast.Sub: '__isub__', ast.BitOr: '__ior__', ast.BitAnd: '__iand__',
               ast.Mult: '__imul__', ast.BitXor: '__ixor__'}

    def inplace(self, m, op, a, b):
        if isinstance(a, Ref):
            o = m.st.get(a.a)
            if o.kind == 'inst':
                nm = self.INPLACE.get(op)
                f = m.lookup_user(o.cls, nm) if nm else None
                if f is not None:
                    return m.call(m.bind(f, a, o.cls), [b])
                if isinstance(o.data, tuple):
                    k = m.payload_kind(o.cls)
                    if k == 'list' and op is ast.Add:
                        m.call_method(a, 'extend', [b])
                        return a
                    if k == 'dict' and op is ast.BitOr:
                        m.portable('|= of mappings', '2.7 to 3.8')
                    if k in ('set', 'dict') and op is ast.BitOr:
                        m.call_method(a, 'update', [b])
                        return a
                    if k == 'set' and op is ast.Sub:
                        m.call_method(a, 'difference_update', [b])
                        return a
                    if k == 'set' and op is ast.BitAnd:
                        m.call_method(a, 'intersection_update', [b])
                        return a
        if isinstance(a, Opq) and m.tags(a) & frozenset(['list', 'dict']) and op is ast.Add:
            if m.has_tag(a, ['list']):
                self.opq_written(m, a, 'in-place addition', None)
        return m.binop(op, a, b)

    def st_Delete(self, s, fr, st):
        def fn(m):
            for t in s.targets:
                self.delete(m, t, fr)
        return self.ex(st, fn)

    def delete(self, m, t, fr):
        if isinstance(t, ast.Name):
            a = self.name_home(m, t.id, fr)
            o = m.st.get(a)
            if t.id not in o.attrs:
                raise m.exc('NameError', t.id)
            del m.st.w(a).attrs[t.id]
        elif isinstance(t, ast.Attribute):
            from .engine import mangle
            obj = m.ev(t.value, fr)
            m.delattr(obj, mangle(t.attr, fr, m))
        elif isinstance(t, ast.Subscript):
            c = m.ev(t.value, fr)
            m.delitem(c, m.ev_index(t.slice, fr))
        else:
            for e in t.elts:
                self.delete(m, e, fr)

    def st_Global(self, s, fr, st):
        return [('N', None, st)]

    st_Nonlocal = st_Global

    def st_If(self, s, fr, st):
        pre = st.fork()
        outs = []
        for sig, v, x in self.ex(st, lambda m: m.truth(m.ev(s.test, fr))):
            if sig != 'N':
                outs.append((sig, v, x))
                continue
            self.branches.add((fr.file, s.lineno, bool(v)))
            outs.extend(self.exec_block(s.body if v else s.orelse, fr, x))
        return self.compact(outs, pre)

    def st_While(self, s, fr, st):
        pre = st.fork()
        outs = []
        cur = [st]
        n = 0
        while cur:
            n += 1
            if n > 64:
                raise Unsup('while loop does not end within 64 iterations (%s:%s)' % (fr.file, s.lineno))
            nxt = []
            for c in cur:
                c.loc = (fr.file, s.lineno, fr.fn)
                orders = c.orders
                on, left = [], False
                for sig, v, x in self.ex(c, lambda m: m.truth(m.ev(s.test, fr))):
                    if sig != 'N':
                        outs.append((sig, v, x))
                    elif not v:
                        left = True
                        outs.extend(self.exec_block(s.orelse, fr, x))
                    elif n > self.K and x.orders > orders:
                        # the length the loop runs to is open: like a collection of more than K items
                        self.truncated.add('while loop of more than %d turns' % self.K)
                    else:
                        for o in self.exec_block(s.body, fr, x):
                            if o[0] in ('N', 'C'):
                                on.append(o[2])
                            elif o[0] == 'B':
                                left = True
                                outs.append(('N', None, o[2]))
                            else:
                                left = True
                                outs.append(o)
                if n > self.K and left:
                    for x in on:
                        if x.orders > orders and n > self.K + 1:
                            self.truncated.add('while loop of more than %d turns' % self.K)
                        else:
                            nxt.append(x)
                else:
                    nxt.extend(on)
            cur = [o[2] for o in self.compact([('N', None, x) for x in nxt], pre)]
        return self.compact(outs, pre)

    def resolve_iter(self, m, v):
        """value of a `for` iterable: a generator, a live container or a materialised list"""
        for _ in range(4):
            if isinstance(v, Ref):
                o = m.st.get(v.a)
                if o.kind == 'gen':
                    return ('gen', v)
                if o.kind == 'inst':
                    f = m.lookup_type(o.cls, '__iter__')
                    if f is not None and not isinstance(f, UM):
                        r = m.call(m.bind(f, v, o.cls), [])
                        if r == v:
                            return ('next', v)
                        v = r
                        continue
                    if isinstance(o.data, tuple):
                        k = m.payload_kind(o.cls)
                        if isinstance(o.cls, BT) and o.cls.n == 'iterator':
                            return ('next', v)
                        if k == 'list':
                            return ('list', v)
                        if k in ('dict', 'set'):
                            return ('sized', v, len(o.data))
                    break
            break
        return ('items', Tup(m.iterate(v)))

    def st_For(self, s, fr, st):
        pre = st.fork()
        outs = []
        for sig, it, x in self.ex(st, lambda m: Tup(_w(p) for p in self.resolve_iter(m, m.ev(s.iter, fr)))):
            if sig != 'N':
                outs.append((sig, it, x))
                continue
            kind = it.items[0]
            if kind == 'gen':
                outs.extend(self.for_gen(s, fr, x, it.items[1]))
            elif kind == 'next':
                outs.extend(self.for_next(s, fr, x, it.items[1]))
            else:
                outs.extend(self.for_items(s, fr, x, kind, it.items[1], it.items[2] if len(it.items) > 2 else None))
        return self.compact(outs, pre)

    def for_items(self, s, fr, st, kind, v, n0):
        outs = []
        cur = [st]
        i = 0
        pre = st.fork()
        while cur:
            nxt = []
            for c in cur:
                c.loc = (fr.file, s.lineno, fr.fn)
                end = False
                if kind == 'items':
                    if i >= len(v.items):
                        end = True
                    else:
                        item = v.items[i]
                else:
                    o = c.get(v.a)
                    if kind == 'sized':
                        if len(o.data) != n0:
                            outs.extend(self.ex(c, lambda m: self.raise_(m, 'RuntimeError',
                                                                        'changed size during iteration')))
                            continue
                    elif '$of' in o.attrs and len(c.get(o.attrs['$of'].a).data) != o.attrs['$n']:
                        if i < len(o.data):
                            outs.extend(self.ex(c, lambda m: self.raise_(m, 'RuntimeError',
                                                                        'changed size during iteration')))
                            continue
                    if i >= len(o.data):
                        end = True
                    else:
                        item = o.data[i]
                        if isinstance(item, tuple):
                            item = item[0]
                if end:
                    outs.extend(self.exec_block(s.orelse, fr, c))
                    continue
                for sig, _, x in self.ex(c, lambda m: self.assign(m, s.target, item, fr)):
                    if sig != 'N':
                        outs.append((sig, _, x))
                        continue
                    for o in self.exec_block(s.body, fr, x):
                        if o[0] in ('N', 'C'):
                            nxt.append(o[2])
                        elif o[0] == 'B':
                            outs.append(('N', None, o[2]))
                        else:
                            outs.append(o)
            cur = [o[2] for o in self.compact([('N', None, x) for x in nxt], pre)]
            i += 1
            if i > 400:
                raise Unsup('for loop too long')
        return outs

    def for_next(self, s, fr, st, v):
        """an iterator is asked for one item after the other, and keeps the rest when the loop is left"""
        def step(m):
            o = m.st.get(v.a)
            if isinstance(o.cls, BT) and o.cls.n == 'iterator':
                p = o.attrs.get('pos', 0)
                if p >= len(o.data):
                    return Tup([])
                m.st.w(v.a).attrs['pos'] = p + 1
                return Tup([o.data[p]])
            try:
                return Tup([m.call(m.getattr(v, '__next__'), [])])
            except PyExc as ex:
                if m.exc_matches(ex.val, BT('StopIteration')):
                    return Tup([])
                raise

        outs = []
        cur = [st]
        pre = st.fork()
        n = 0
        while cur:
            n += 1
            if n > 400:
                raise Unsup('for loop too long')
            nxt = []
            for c in cur:
                c.loc = (fr.file, s.lineno, fr.fn)
                for sig, got, x in self.ex(c, step):
                    if sig != 'N':
                        outs.append((sig, got, x))
                        continue
                    if not got.items:
                        outs.extend(self.exec_block(s.orelse, fr, x))
                        continue
                    for sig2, w, y in self.ex(x, lambda m: self.assign(m, s.target, got.items[0], fr)):
                        if sig2 != 'N':
                            outs.append((sig2, w, y))
                            continue
                        for o in self.exec_block(s.body, fr, y):
                            if o[0] in ('N', 'C'):
                                nxt.append(o[2])
                            elif o[0] == 'B':
                                outs.append(('N', None, o[2]))
                            else:
                                outs.append(o)
            cur = [o[2] for o in self.compact([('N', None, x) for x in nxt], pre)]
        return outs

    def raise_(self, m, name, msg=None):
        raise m.exc(name, msg)

    def for_gen(self, s, fr, st, g):
        def handler(ip, x, val, gfr):
            loc, exc = x.loc, x.exc
            x = x.fork()
            pre = x.fork()
            res = []
            for sig, v, y in self.ex(x, lambda m: self.assign(m, s.target, val, fr)):
                if sig != 'N':
                    res.append(('XU' if sig == 'X' else sig, v, y))
                    continue
                for o in self.exec_block(s.body, fr, y):
                    o[2].loc = loc
                    if o[0] in ('N', 'C'):
                        res.append(('N', None, o[2]))
                    elif o[0] == 'X':
                        res.append(('XU', o[1], o[2]))
                    else:
                        res.append(o)
            return self.compact(res, pre)

        outs = []
        for kind, v, x in self.run_gen(st, g, handler):
            if kind == 'val':
                outs.extend(self.exec_block(s.orelse, fr, x))
            elif kind == 'exc':
                outs.append(('X', v, x))
            else:
                sig, pv = v
                if sig == 'B':
                    outs.append(('N', None, x))
                elif sig == 'XU':
                    outs.append(('X', pv, x))
                else:
                    outs.append((sig, pv, x))
        return outs

    def st_Raise(self, s, fr, st):
        def fn(m):
            if s.exc is None:
                if m.st.exc is None:
                    raise m.exc('RuntimeError', 'No active exception to reraise')
                raise PyExc(m.st.exc)
            v = m.ev(s.exc, fr)
            if s.cause is not None:
                m.ev(s.cause, fr)
            if m.is_class(v):
                v = m.call(v, [])
            if not m.is_exception(v):
                if isinstance(v, Opq):
                    raise m.exc('TypeError', 'exceptions must derive from BaseException')
                raise m.exc('TypeError', 'exceptions must derive from BaseException')
            raise PyExc(v)
        return self.ex(st, fn)

    def st_Assert(self, s, fr, st):
        def fn(m):
            if not m.truth(m.ev(s.test, fr)):
                raise m.exc('AssertionError', None if s.msg is None else m.ev(s.msg, fr))
        return self.ex(st, fn)

    def st_Try(self, s, fr, st):
        pre = st.fork()
        outs = self.exec_block(s.body, fr, st)
        res = []
        for sig, v, x in outs:
            if sig == 'X' and s.handlers:
                res.extend(self.handle(s, fr, x, v))
            elif sig == 'N' and s.orelse:
                res.extend(self.exec_block(s.orelse, fr, x))
            else:
                res.append((sig, v, x))
        if s.finalbody:
            out2 = []
            for sig, v, x in res:
                # keep the pending value alive across the block
                hold = x.alloc(Obj('env', None, {'v': v if not isinstance(v, tuple) else None}, None, name='hold'))
                for o in self.exec_block(s.finalbody, fr, x):
                    if o[0] == 'N':
                        hv = v if isinstance(v, tuple) else o[2].get(hold.a).attrs['v']
                        out2.append((sig, hv, o[2]))
                    else:
                        out2.append(o)
            res = out2
        return self.compact(res, pre)

    def handle(self, s, fr, st, exc):
        cur = [st]
        res = []
        for h in s.handlers:
            nxt = []
            for c in cur:
                def fn(m):
                    if h.type is None:
                        return True
                    return m.exc_matches(exc, m.ev(h.type, fr))
                for sig, v, x in self.ex(c, fn):
                    if sig != 'N':
                        res.append((sig, v, x))
                    elif v:
                        old = x.exc
                        x.exc = exc
                        if h.name:
                            m = Machine(self, x, (), {})
                            self.store_name(m, h.name, exc, fr)
                        for sg, vv, y in self.exec_block(h.body, fr, x):
                            y = y.fork()
                            y.exc = old
                            if h.name:
                                m = Machine(self, y, (), {})
                                a = self.name_home(m, h.name, fr)
                                y.w(a).attrs.pop(h.name, None)
                            res.append((sg, vv, y))
                    else:
                        nxt.append(x)
            cur = nxt
        res.extend(('X', exc, c) for c in cur)
        return res

    def st_With(self, s, fr, st):
        pre = st.fork()
        return self.compact(self.with_items(s, 0, fr, st), pre)

    def with_items(self, s, i, fr, st):
        if i == len(s.items):
            return self.exec_block(s.body, fr, st)
        item = s.items[i]
        outs = []
        for sig, cm, x in self.ex(st, lambda m: m.ev(item.context_expr, fr)):
            if sig != 'N':
                outs.append((sig, cm, x))
                continue
            if isinstance(cm, Ref):
                o = x.get(cm.a)
                if o.kind == 'inst' and o.cls == BT('_GCM'):
                    outs.extend(self.with_gcm(s, i, fr, x, o.attrs['gen']))
                    continue
            outs.extend(self.with_plain(s, i, fr, x, cm))
        return outs

    def with_plain(self, s, i, fr, st, cm):
        item = s.items[i]
        outs = []
        hold = st.alloc(Obj('env', None, {'cm': cm}, None, name='hold'))

        def enter(m):
            cls = m.class_of(cm)
            ex = m.lookup_type(cls, '__exit__')
            en = m.lookup_type(cls, '__enter__')
            if en is None or ex is None:
                raise m.exc('AttributeError', '__enter__' if en is None else '__exit__')
            v = m.call(m.bind(en, cm, cls), [])
            if item.optional_vars is not None:
                # assignment happens inside the protected region; exceptions of it are passed to __exit__
                self.assign(m, item.optional_vars, v, fr)

        for sig, v, x in self.ex(st, enter):
            if sig != 'N':
                outs.append((sig, v, x))
                continue
            for sg, vv, y in self.with_items(s, i + 1, fr, x):
                keep = None
                if not isinstance(vv, tuple):
                    keep = y.alloc(Obj('env', None, {'v': vv}, None, name='hold'))

                def leave(m):
                    c = m.st.get(hold.a).attrs['cm']
                    cls = m.class_of(c)
                    f = m.bind(m.lookup_type(cls, '__exit__'), c, cls)
                    m.st.loc = (fr.file, s.lineno, fr.fn)
                    if sg == 'X':
                        old = m.st.exc
                        m.st.exc = vv
                        r = m.truth(m.call(f, [m.class_of(vv), vv, None]))
                        m.st.exc = old
                        return r
                    m.call(f, [None, None, None])
                    return False
                for s3, r, z in self.ex(y, leave):
                    if s3 != 'N':
                        outs.append((s3, r, z))
                    elif r:
                        outs.append(('N', None, z))
                    else:
                        outs.append((sg, vv if keep is None else z.get(keep.a).attrs['v'], z))
        return outs

    def with_gcm(self, s, i, fr, st, gen):
        item = s.items[i]
        cell = st.alloc(Obj('env', None, {'sig': None, 'val': None}, None, name='hold'))

        def handler(ip, x, val, gfr):
            loc = x.loc
            x = x.fork()
            pre = x.fork()
            if x.get(cell.a).attrs['sig'] is not None:
                return [('X', x.alloc(Obj('inst', BT('RuntimeError'), {'args': Tup(["generator didn't stop"])})), x)]
            res = []

            def bind(m):
                if item.optional_vars is not None:
                    self.assign(m, item.optional_vars, val, fr)
            for sig, v, y in self.ex(x, bind):
                if sig != 'N':
                    res.append((sig, v, y))
                    continue
                for sg, vv, z in self.with_items(s, i + 1, fr, y):
                    z.loc = loc
                    if isinstance(vv, tuple):
                        res.append((sg, vv, z))
                        continue
                    c = z.w(cell.a)
                    c.attrs['sig'], c.attrs['val'] = sg, vv
                    res.append(('X' if sg == 'X' else 'N', vv if sg == 'X' else None, z))
            return self.compact(res, pre)

        outs = []
        for kind, v, x in self.run_gen(st, gen, handler):
            c = x.get(cell.a).attrs
            if kind == 'val':
                if c['sig'] is None:
                    outs.extend(self.ex(x, lambda m: self.raise_(m, 'RuntimeError', "generator didn't yield")))
                elif c['sig'] == 'X':
                    outs.append(('N', None, x))
                else:
                    outs.append((c['sig'], c['val'], x))
            elif kind == 'exc':
                outs.append(('X', v, x))
            else:
                outs.append(('G', v, x))
        return outs

    # -- definitions -------------------------------------------------------------------------------------------

    def st_FunctionDef(self, s, fr, st):
        def fn(m):
            decs = [m.ev(d, fr) for d in s.decorator_list]
            f = self.make_function(m, s, fr, s.name)
            for d in reversed(decs):
                m.st.loc = (fr.file, s.lineno, fr.fn)
                f = self.call_decorator(m, d, f, fr)
            self.store_name(m, self.mangled(s.name, fr, m), f, fr)
        return self.ex(st, fn)

    def call_decorator(self, m, d, f, fr):
        if isinstance(d, NF) and d.n in FRAME_NF:
            return FRAME_NF[d.n](m, [f], {}, fr)
        return m.call(d, [f])

    def mangled(self, name, fr, m):
        from .engine import mangle
        return mangle(name, fr, m)

    def make_function(self, m, node, fr, name):
        info = func_info(node)
        a = node.args
        attrs = {
            '$defaults': Tup([m.ev(d, fr) for d in a.defaults]),
            '$kwdefaults': Tup([Tup([p.arg, m.ev(d, fr)]) for p, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None]),
        }
        env = fr.env
        while env is not None:
            eo = m.st.get(env)
            if eo.name == 'class':
                env = eo.data
                continue
            break
        attrs['$env'] = None if env is None else Ref(env)
        attrs['$cell'] = None if fr.cls is None else Ref(fr.cls)
        doc = ast.get_docstring(node) if isinstance(node, ast.FunctionDef) else None
        attrs['__doc__'] = doc
        attrs['__module__'] = m.st.get(fr.mod).name
        qual = name if not fr.fn or fr.fn == '<module>' else '%s.%s' % (fr.fn, name)
        fd = _FDATA.get((node, fr.mod))
        if fd is None:
            fd = _FDATA[(node, fr.mod)] = FuncData(node, fr.mod, fr.file, info, qual)
        return m.st.alloc(Obj('func', None, attrs, fd, name, site=m.st.loc))

    def st_ClassDef(self, s, fr, st):
        outs = []

        def head(m):
            decs = m.new_list([m.ev(d, fr) for d in s.decorator_list])
            bases = m.ev_list(s.bases, fr)
            meta = None
            extra = []
            for k in s.keywords:
                if k.arg == 'metaclass':
                    meta = m.ev(k.value, fr)
                else:
                    extra.append(Tup([k.arg, m.ev(k.value, fr)]))
            real = []
            for b in bases:
                if isinstance(b, Ref):
                    o = m.st.get(b.a)
                    if o.kind == 'class' and '$with_metaclass' in o.attrs:
                        meta = o.attrs['$with_metaclass']
                        real.extend(o.attrs['$with_bases'].items)
                        continue
                real.append(b)
            cell = m.st.alloc(Obj('env', None, {}, None, name=s.name))
            qual = s.name if not fr.fn or fr.fn == '<module>' else '%s.%s' % (fr.fn, s.name)
            env = m.st.alloc(Obj('env', None, {
                '__module__': m.st.get(fr.mod).name, '__qualname__': qual,
                '__doc__': ast.get_docstring(s)}, fr.env, name='class'))
            return Tup([decs, Tup(real), meta, cell, env, qual, Tup(extra)])

        for sig, v, x in self.ex(st, head):
            if sig != 'N':
                outs.append((sig, v, x))
                continue
            decs, bases, meta, cell, env, qual, extra = v.items
            f2 = Frame(env.a, fr.mod, cell.a, qual, fr.file)
            for o in self.exec_block(s.body, f2, x):
                if o[0] != 'N':
                    outs.append(o)
                    continue

                def finish(m):
                    ns = m.new_dict([(k, val) for k, val in m.st.get(env.a).attrs.items() if not k.startswith('$')])
                    mt = meta
                    if mt is None:
                        mt = self.find_meta(m, bases)
                    m.st.loc = (fr.file, s.lineno, fr.fn)
                    kw = dict((p.items[0], p.items[1]) for p in extra.items)
                    if mt is None or isinstance(mt, BT):
                        c = self.type_new(m, BT('type'), [s.name, bases, ns], kw)
                    else:
                        c = m.call(mt, [s.name, bases, ns], kw)
                    m.st.w(cell.a).attrs['cls'] = c
                    for d in reversed(m.st.get(decs.a).data):
                        c = m.call(d, [c])
                    self.store_name(m, s.name, c, fr)
                outs.extend(self.ex(o[2], finish))
        return outs

    def find_meta(self, m, bases):
        best = None
        for b in bases.items:
            if isinstance(b, Ref):
                o = m.st.get(b.a)
                if o.kind == 'class':
                    mt = o.data.get('meta')
                    if mt is not None and not isinstance(mt, BT):
                        if best is None or best in m.mro(mt):
                            best = mt
        return best

    def type_new(self, m, mcls, args, kw):
        if len(args) == 1:
            return m.class_of(args[0])
        if len(args) != 3:
            raise m.exc('TypeError', 'type() takes 1 or 3 arguments')
        name, bases, ns = args
        if isinstance(name, Opq):
            raise Unsup('class with unknown name')
        if not isinstance(bases, Tup) or not m.payload_is(ns, 'dict'):
            raise m.exc('TypeError', 'type.__new__() arguments')
        bl = list(bases.items) or [BT('object')]
        for b in bl:
            if not m.is_class(b):
                raise m.exc('TypeError', 'bases must be types')
        if mcls == BT('type'):
            mt = self.find_meta(m, bases)
            if mt is not None:
                mcls = mt
        mro = c3([m.mro(b) for b in bl] + [bl])
        if mro is None:
            raise m.exc('TypeError', 'Cannot create a consistent method resolution order (MRO)')
        attrs = {}
        for k, v in m.st.get(ns.a).data:
            attrs[m.key_const(k)] = v
        for k in ('__new__', '__init_subclass__', '__class_getitem__'):
            v = attrs.get(k)
            if isinstance(v, Ref) and m.st.get(v.a).kind == 'func':
                kind = 'sm' if k == '__new__' else 'cm'
                attrs[k] = m.st.alloc(Obj(kind, None, {'f': v}))
        if '__eq__' in attrs and '__hash__' not in attrs:
            attrs['__hash__'] = None
        o = Obj('class', None, attrs, {'mro': [], 'bases': bl, 'meta': mcls, 'subs': []}, name, site=m.st.loc)
        c = m.st.alloc(o)
        o.data['mro'] = [c] + mro
        for b in bl:
            if isinstance(b, Ref):
                bo = m.st.w(b.a)
                d = dict(bo.data)
                d['subs'] = d['subs'] + [c]
                bo.data = d
        for k, v in list(attrs.items()):
            if isinstance(v, Ref):
                vo = m.st.get(v.a)
                if vo.kind == 'inst':
                    f = m.lookup_user(vo.cls, '__set_name__')
                    if f is not None:
                        m.call(m.bind(f, v, vo.cls), [c, k])
        for b in mro:
            if isinstance(b, Ref) and '__init_subclass__' in m.st.get(b.a).attrs:
                f = m.st.get(b.a).attrs['__init_subclass__']
                fo = m.st.get(f.a)
                m.call(fo.attrs['f'], [c], kw)
                break
        return c

    # -- names -------------------------------------------------------------------------------------------------

    def name_home(self, m, name, fr):
        if fr.env is None or (fr.globals_ and name in fr.globals_):
            return fr.mod
        if fr.nonlocals and name in fr.nonlocals:
            env = m.st.get(fr.env).data
            while env is not None:
                o = m.st.get(env)
                if name in o.attrs and o.name != 'class':
                    return env
                env = o.data
            raise Unsup('nonlocal %s' % name)
        return fr.env

    def store_name(self, m, name, v, fr):
        a = self.name_home(m, name, fr)
        if a == fr.mod:
            m.wr(a, 'module attribute assignment', name, (name, v)).attrs[name] = v
        else:
            m.st.w(a).attrs[name] = v

    def assign(self, m, t, v, fr):
        if isinstance(t, ast.Name):
            nm = t.id
            if fr.cls is not None and nm.startswith('__'):
                nm = self.mangled(nm, fr, m)
            self.store_name(m, nm, v, fr)
        elif isinstance(t, ast.Attribute):
            obj = m.ev(t.value, fr)
            m.setattr(obj, self.mangled(t.attr, fr, m), v)
        elif isinstance(t, ast.Subscript):
            c = m.ev(t.value, fr)
            m.setitem(c, m.ev_index(t.slice, fr), v)
        elif isinstance(t, (ast.Tuple, ast.List)):
            star = [i for i, e in enumerate(t.elts) if isinstance(e, ast.Starred)]
            items = list(m.iterate(v))
            n = len(t.elts)
            if star:
                k = star[0]
                if len(items) < n - 1:
                    raise m.exc('ValueError', 'not enough values to unpack')
                tail = n - 1 - k
                mid = items[k:len(items) - tail]
                vals = items[:k] + [m.new_list(mid)] + (items[len(items) - tail:] if tail else [])
                for e, x in zip(t.elts, vals):
                    self.assign(m, e.value if isinstance(e, ast.Starred) else e, x, fr)
                return
            if len(items) != n:
                raise m.exc('ValueError', 'too many values to unpack' if len(items) > n
                            else 'not enough values to unpack')
            for e, x in zip(t.elts, items):
                self.assign(m, e, x, fr)
        elif isinstance(t, ast.Starred):
            self.assign(m, t.value, v, fr)
        else:
            raise Unsup('assignment target %s' % type(t).__name__)

    # -- calls -------------------------------------------------------------------------------------------------

    def run_function(self, st, f, args, kwargs):
        o = st.get(f.a)
        d = o.data
        self.stats['calls'] += 1
        s = st.fork()
        if s.depth > MAXDEPTH:
            self.truncated.add('call depth %d at %s' % (MAXDEPTH, d.qual))
            return []
        s.depth += 1
        loc = s.loc
        m = Machine(self, s, (), {})
        try:
            env = self.bind_args(m, o, d, args, kwargs)
        except PyExc as ex:
            m.st.depth -= 1
            return [('exc', ex.val, m.st)]
        s = m.st
        if d.file.startswith(self.repo):
            self.reached.add((d.file, d.qual))
        fr = Frame(env.a, d.mod, None if o.attrs['$cell'] is None else o.attrs['$cell'].a, d.qual, d.file, None,
                   d.info.globals, d.info.nonlocals, d.info.locals)
        if d.info.is_gen:
            g = s.alloc(Obj('gen', None, {'$env': env, '$cell': o.attrs['$cell'], 'used': False}, GenData(
                d.info.body, d.mod, d.qual, d.file, d.info), name=o.name, site=loc))
            s.depth -= 1
            return [('val', g, s)]
        old_exc = s.exc
        outs = []
        for sig, v, x in self.exec_block(d.info.body, fr, s):
            if sig == 'N':
                outs.append(('val', None, x))
            elif sig == 'R':
                outs.append(('val', v, x))
            elif sig == 'X':
                outs.append(('exc', v, x))
            else:
                outs.append(('unw', v, x))
            x.depth = st.depth
            if sig != 'X':
                x.loc = loc
            x.exc = old_exc
        return self.compact(outs, st)

    def bind_args(self, m, o, d, args, kwargs):
        a = d.node.args
        names = d.info.argnames
        kwargs = dict(kwargs)
        attrs = {}
        n = len(names)
        fname = o.name
        if len(args) > n and a.vararg is None:
            raise m.exc('TypeError', '%s() takes %d positional arguments but %d were given' % (fname, n, len(args)))
        for nm, v in zip(names, args):
            attrs[nm] = v
        npos = len(getattr(a, 'posonlyargs', ()))
        for k in list(kwargs):
            if k in names and names.index(k) >= npos:
                if k in attrs:
                    raise m.exc('TypeError', '%s() got multiple values for argument %r' % (fname, k))
                attrs[k] = kwargs.pop(k)
        defaults = o.attrs['$defaults'].items
        for i, dv in enumerate(defaults):
            nm = names[n - len(defaults) + i]
            attrs.setdefault(nm, dv)
        for nm in names:
            if nm not in attrs:
                raise m.exc('TypeError', '%s() missing required argument %r' % (fname, nm))
        kwd = dict((p.items[0], p.items[1]) for p in o.attrs['$kwdefaults'].items)
        for p in a.kwonlyargs:
            if p.arg in kwargs:
                attrs[p.arg] = kwargs.pop(p.arg)
            elif p.arg in kwd:
                attrs[p.arg] = kwd[p.arg]
            else:
                raise m.exc('TypeError', '%s() missing keyword-only argument %r' % (fname, p.arg))
        if a.vararg is not None:
            attrs[a.vararg.arg] = Tup(args[n:])
        if a.kwarg is not None:
            attrs[a.kwarg.arg] = m.new_dict(list(kwargs.items()))
        elif kwargs:
            raise m.exc('TypeError', '%s() got an unexpected keyword argument %r' % (fname, sorted(kwargs)[0]))
        if names:
            attrs['$first'] = attrs[names[0]]
        elif args:
            attrs['$first'] = args[0]
        return m.st.alloc(Obj('env', None, attrs, None if o.attrs['$env'] is None else o.attrs['$env'].a, name=o.name))

    def run_gen(self, st, g, handler):
        o = st.get(g.a)
        if o.attrs['used']:
            return [('val', None, st)]
        s = st.fork()
        s.w(g.a).attrs['used'] = True
        d = o.data
        if s.depth > MAXDEPTH:
            self.truncated.add('call depth')
            return []
        s.depth += 1
        if d.file.startswith(self.repo):
            self.reached.add((d.file, d.qual))
        fr = Frame(o.attrs['$env'].a, d.mod, None if o.attrs.get('$cell') is None else o.attrs['$cell'].a, d.qual,
                   d.file, handler, d.info.globals if d.info else (), d.info.nonlocals if d.info else (),
                   d.info.locals if d.info else None)
        outs = []
        loc = s.loc
        for sig, v, x in self.exec_block(d.body, fr, s):
            x.depth = st.depth
            if sig == 'N':
                outs.append(('val', None, x))
            elif sig == 'R':
                outs.append(('val', v, x))
            elif sig == 'X':
                outs.append(('exc', v, x))
            else:
                outs.append(('unw', v, x))
        return self.compact(outs, st)

    def genexp_data(self, n, fr):
        d = _GENEXP.get(n)
        if d is None:
            body = [ast.Expr(value=ast.Yield(value=n.elt))]
            for i in range(len(n.generators) - 1, -1, -1):
                g = n.generators[i]
                for c in reversed(g.ifs):
                    body = [ast.If(test=c, body=body, orelse=[])]
                it = ast.Name(id='$iter', ctx=ast.Load()) if i == 0 else g.iter
                body = [ast.For(target=g.target, iter=it, body=body, orelse=[])]
            for x in ast.walk(body[0]):
                if not hasattr(x, 'lineno') and isinstance(x, (ast.stmt, ast.expr)):
                    x.lineno, x.col_offset = n.lineno, n.col_offset
            d = GenData(body, fr.mod, fr.fn, fr.file, None)
            _GENEXP[n] = d
        return d

    # -- modules -----------------------------------------------------------------------------------------------

    def st_Import(self, s, fr, st):
        def fn(m):
            for a in s.names:
                top = self.import_module(m, a.name)
                if a.asname:
                    v = self.modules[a.name]
                    self.store_name(m, a.asname, v, fr)
                else:
                    self.store_name(m, a.name.split('.')[0], top, fr)
        return self.ex(st, fn)

    def st_ImportFrom(self, s, fr, st):
        if s.module == '__future__':
            return [('N', None, st)]

        def fn(m):
            name = s.module or ''
            if s.level:
                mo = m.st.get(fr.mod)
                pkg = mo.data['package']
                parts = pkg.split('.')
                if s.level > 1:
                    parts = parts[:len(parts) - (s.level - 1)]
                name = '.'.join(parts + ([name] if name else []))
            self.import_module(m, name)
            mod = self.modules[name]
            for a in s.names:
                if a.name == '*':
                    for k, v in list(m.st.get(mod.a).attrs.items()):
                        if not k.startswith('_'):
                            self.store_name(m, k, v, fr)
                    continue
                try:
                    v = m.getattr(mod, a.name)
                except PyExc:
                    sub = name + '.' + a.name
                    try:
                        self.import_module(m, sub)
                    except PyExc:
                        raise m.exc('ImportError', 'cannot import name %r from %r' % (a.name, name))
                    v = self.modules[sub]
                self.store_name(m, a.asname or a.name, v, fr)
        return self.ex(st, fn)

    def find_source(self, name):
        """(path, is_package, is_repo) of a module we interpret"""
        parts = name.split('.')
        for root, isrepo in [(self.repo, True)] + [(x, False) for x in self.stubs]:
            p = os.path.join(root, *parts)
            if os.path.isfile(os.path.join(p, '__init__.py')):
                return os.path.join(p, '__init__.py'), True, isrepo
            if os.path.isfile(p + '.py'):
                if isrepo and len(parts) == 1 and name != 'pilo':
                    continue
                return p + '.py', False, isrepo
        return None

    def import_module(self, m, name):
        """imports a dotted name, returns the top-level module"""
        parts = name.split('.')
        top = None
        for i in range(len(parts)):
            full = '.'.join(parts[:i + 1])
            mod = self.modules.get(full)
            if mod is None:
                mod = self.load_module(m, full)
            if i == 0:
                top = mod
            else:
                pa = self.modules['.'.join(parts[:i])]
                po = m.st.get(pa.a)
                if parts[i] not in po.attrs:
                    m.st.w(pa.a).attrs[parts[i]] = mod
        return top

    def load_module(self, m, full):
        from . import natives
        from . import lib
        if full in ('__native__', 'vf'):
            ref = m.st.alloc(Obj('module', None, dict(lib.N if full == '__native__' else lib.V), {
                'file': None, 'package': full}, full))
            self.modules[full] = ref
            return ref
        src = self.find_source(full)
        if src is None:
            known = natives.stdlib_module(full)
            if not known:
                raise m.exc('ImportError', 'No module named %s' % full)
            ref = m.st.alloc(Obj('module', None, {}, {'file': None, 'package': full, 'native': True}, full))
            if not self.loading:
                raise Unsup('late import of %s' % full)
            self.modules[full] = ref
            return ref
        if not self.loading:
            raise Unsup('late import of %s' % full)
        path, ispkg, isrepo = src
        with open(path) as fo:
            text = fo.read()
        self.sources[path] = text
        try:
            tree = ast.parse(text, path)
        except SyntaxError as ex:
            raise Unsup('syntax error in %s: %s' % (path, ex))
        pkg = full if ispkg else full.rpartition('.')[0]
        ref = m.st.alloc(Obj('module', None, {'__name__': full, '__doc__': None}, {'file': path, 'package': pkg,
                                                                                'repo': isrepo}, full))
        self.modules[full] = ref
        fr = Frame(None, ref.a, None, '<module>', path)
        outs = self.exec_block(tree.body, fr, m.st)
        ok = [o for o in outs if o[0] == 'N']
        if len(outs) != 1 or not ok:
            msg = ['%s %s at %s' % (o[0], self.describe_exc(o[1], o[2]), o[2].loc) for o in outs]
            if len(outs) == 1 and outs[0][0] == 'X':
                m.st = outs[0][2]
                raise PyExc(outs[0][1])
            raise Unsup('loading %s: %s' % (full, msg))
        m.st = ok[0][2].fork()
        return ref

    def describe_exc(self, v, st):
        if not isinstance(v, Ref):
            return repr(v)
        o = st.get(v.a)
        m = Machine(self, st.fork(), (), {})
        name = m.cls_name(o.cls) if o.kind == 'inst' else o.kind
        args = o.attrs.get('args')
        txt = ''
        if isinstance(args, Tup):
            txt = ', '.join(repr(i) for i in args.items)
        return '%s(%s)' % (name, txt)

    # -- findings ----------------------------------------------------------------------------------------------

    def show(self, m, v, depth=0):
        if is_const(v):
            return repr(v)
        if isinstance(v, Opq):
            tags = m.st.facts.get(('tags', v.t))
            eq = m.eqc(v)
            if eq is not None:
                return repr(eq[0])
            if v.t[0] == 'rope' or tags is None or len(tags) > 3:
                return repr(v)
            return '%r:%s' % (v, '|'.join(sorted(tags)))
        if isinstance(v, Tup):
            return '(%s)' % ', '.join(self.show(m, i, depth + 1) for i in v.items)
        if isinstance(v, Ref):
            o = m.st.get(v.a)
            if o.kind == 'inst':
                n = m.cls_name(o.cls)
                if isinstance(o.data, tuple) and depth < 3:
                    k = m.payload_kind(o.cls)
                    if k == 'dict':
                        body = '{%s}' % ', '.join('%s: %s' % (self.show(m, a, depth + 1), self.show(m, b, depth + 1))
                                                  for a, b in o.data)
                    else:
                        body = '[%s]' % ', '.join(self.show(m, a, depth + 1) for a in o.data)
                    return body if isinstance(o.cls, BT) else '%s%s' % (n, body)
                if 'args' in o.attrs and isinstance(o.attrs['args'], Tup):
                    return '%s%s' % (n, self.show(m, o.attrs['args'], depth + 1))
                if 'name' in o.attrs and is_const(o.attrs['name']):
                    return '<%s %s>' % (n, o.attrs['name'])
                return '<%s>' % n
            return '<%s %s>' % (o.kind, o.name)
        return repr(v)

    def record(self, m, label, extra=(), loc=None):
        """a violation: the label, where it happened, the decisions that lead there"""
        st = m.st
        trail = []
        for at, txt in st.trail_list():
            trail.append((at, txt))
        repo_at = [at for at, _ in trail if at and at[0].startswith(self.repo)]
        if loc is None:
            loc = repo_at[-1] if repo_at else st.loc
        key = (label, loc)
        n = len(trail)
        old = self.violations.get(key)
        if old is None or n < len(old['trail']):
            self.violations[key] = {
                'label': label, 'loc': loc, 'at': st.loc, 'trail': trail,
                'values': [self.show(m, x) for x in extra],
                'count': 1 if old is None else old['count'] + 1,
            }
        else:
            old['count'] += 1

    def report_write(self, m, target, what, name):
        label = m.st.frozen_label
        self.checked[label] = self.checked.get(label, 0) + 1
        self.record(m, label, (), loc=m.st.loc)
        v = self.violations[(label, m.st.loc)]
        v['values'] = ['%s%s on %s' % (what, '' if name is None else ' %s' % name, target)]
        raise Inf()

    def module_addr(self, name):
        return self.modules.get(name)


def _w(p):
    return p


class FuncData(object):
    __slots__ = ('node', 'mod', 'file', 'info', 'qual')

    def __init__(self, node, mod, file, info, qual):
        self.node, self.mod, self.file, self.info, self.qual = node, mod, file, info, qual


class GenData(object):
    __slots__ = ('body', 'mod', 'qual', 'file', 'info')

    def __init__(self, body, mod, qual, file, info):
        self.body, self.mod, self.qual, self.file, self.info = body, mod, qual, file, info


class Info(object):
    pass


_INFO = {}
_GENEXP = {}
_FDATA = {}


def func_info(node):
    i = _INFO.get(node)
    if i is not None:
        return i
    i = Info()
    a = node.args
    i.argnames = [x.arg for x in list(getattr(a, 'posonlyargs', ())) + a.args]
    i.globals = set()
    i.nonlocals = set()
    i.locals = set(i.argnames) | set(x.arg for x in a.kwonlyargs)
    if a.vararg:
        i.locals.add(a.vararg.arg)
    if a.kwarg:
        i.locals.add(a.kwarg.arg)
    i.is_gen = False
    if isinstance(node, ast.Lambda):
        i.body = [ast.copy_location(ast.Return(value=node.body), node.body)]
        scan(node.body, i)
    else:
        i.body = node.body
        for s in node.body:
            scan(s, i)
    i.locals -= i.globals
    i.locals -= i.nonlocals
    _INFO[node] = i
    return i


def scan(n, i):
    if isinstance(n, (ast.FunctionDef, ast.ClassDef, ast.AsyncFunctionDef)):
        i.locals.add(n.name)
        for d in n.decorator_list:
            scan(d, i)
        return
    if isinstance(n, (ast.Lambda,)):
        return
    if isinstance(n, (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
        return
    if isinstance(n, (ast.Yield, ast.YieldFrom)):
        i.is_gen = True
    if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
        i.locals.add(n.id)
    if isinstance(n, ast.Global):
        i.globals |= set(n.names)
    if isinstance(n, ast.Nonlocal):
        i.nonlocals |= set(n.names)
    if isinstance(n, ast.ExceptHandler) and n.name:
        i.locals.add(n.name)
    if isinstance(n, (ast.Import, ast.ImportFrom)):
        for a in n.names:
            i.locals.add((a.asname or a.name).split('.')[0])
    for c in ast.iter_child_nodes(n):
        scan(c, i)


def c3(seqs):
    seqs = [list(s) for s in seqs if s]
    out = []
    while True:
        seqs = [s for s in seqs if s]
        if not seqs:
            return out
        for s in seqs:
            c = s[0]
            if not any(c in t[1:] for t in seqs):
                break
        else:
            return None
        out.append(c)
        for s in seqs:
            if s[0] == c:
                del s[0]
