"""Ownership / effect / provenance analysis on the syntax tree (interprocedural, flow-sensitive for local names,
monotone abstract objects).

Every value is a set of abstract objects plus a provenance set.  Objects reachable from something the caller owns
(a constructor argument, a module-level table, a mutable default argument, the hydraulic model a quality model is
attached to) carry an `origin`; a write to the contents of an object with an origin is an effect on the caller's data.
Provenance records which input table columns a value was computed from."""
import ast

VIEW_ATTR = {'values', 'T', 'flat', 'loc', 'iloc', 'at', 'iat', 'str', 'real', 'dt', 'base', 'data'}
META_ATTR = {'size', 'shape', 'ndim', 'dtype', 'empty', 'nbytes', '__name__', '__class__'}
VIEW_METH = {'view', 'reshape', 'ravel', 'squeeze', 'transpose', 'swapaxes', 'to_numpy', 'get', 'pop', 'setdefault', '__getitem__', 'get_group', 'setfield'}
ELEM_METH = {'items', 'values', 'iteritems', 'iterrows', 'itertuples'}
KEEP_METH = {'copy', 'sort_index', 'sort_values', 'reset_index', 'set_index', 'rename', 'reindex', 'fillna', 'drop', 'dropna', 'groupby', 'astype', 'assign', 'infer_objects', 'convert_dtypes', 'deepcopy'}
MUT_METH = {'setdefault', 'update', 'pop', 'popitem', 'append', 'extend', 'insert', 'remove', 'clear', 'sort', 'fill', 'put', 'resize', 'itemset', 'setflags', 'partition', 'byteswap_',
            '__setitem__', '__delitem__', 'add', 'discard', 'difference_update', 'intersection_update', 'symmetric_difference_update', 'appendleft', 'popleft', 'extendleft', 'rotate', 'reverse', 'set_axis_', 'isetitem', 'setattr', '__setattr__'}
INPLACE_KW = {'drop', 'rename', 'reset_index', 'set_index', 'sort_values', 'sort_index', 'fillna', 'dropna', 'replace', 'clip', 'interpolate', 'drop_duplicates', 'where', 'mask', 'ffill', 'bfill', 'set_axis', 'query', 'eval', 'rename_axis'}
ALIAS_FN = {'asarray', 'ascontiguousarray', 'asfortranarray', 'asanyarray', 'atleast_1d', 'atleast_2d', 'atleast_3d', 'reshape', 'ravel', 'squeeze', 'broadcast_to', 'swapaxes', 'transpose', 'moveaxis', 'expand_dims', 'diagonal', 'flip', 'rollaxis', 'require', 'iter', 'next', 'nan_to_num_', 'asfarray'}
NP_MUT = {'fill_diagonal', 'put', 'copyto', 'place', 'putmask', 'shuffle', 'put_along_axis', 'heapify', 'heappush', 'heappop'}
DEEP = {'deepcopy', 'array', 'copy'}


class Obj:
    __slots__ = ('origin', 'table', 'elems', 'rest', 'kind', 'cls', 'child', 'name', 'copied', 'depth')

    def __init__(self, origin=None, table=None, kind=None, cls=None, name=''):
        self.origin, self.table, self.kind, self.cls, self.name = origin, table, kind, cls, name
        self.elems, self.rest, self.child = {}, None, {}
        self.copied = None
        self.depth = 0


class V:
    # num: certainly a number (augmented assignment to a name that holds one changes no array)
    __slots__ = ('objs', 'prov', 'const', 'fn', 'index', 'num')

    def __init__(self, objs=(), prov=(), const=None, fn=None, index=False, num=False):
        self.objs, self.prov, self.const, self.fn, self.index = frozenset(objs), frozenset(prov), const, fn, index
        self.num = num or (isinstance(const, (int, float)) and not self.objs)

    def __or__(self, o):
        if o is None or o is self:
            return self
        return V(self.objs | o.objs, self.prov | o.prov, self.const if self.const == o.const else None, self.fn if self.fn == o.fn else None, self.index and o.index, self.num and o.num)

    def key(self):
        return (self.objs, self.prov, repr(self.const), id(self.fn) if self.fn is not None else 0, self.num)


NONE = V()


class Fn:
    def __init__(self, node, mod, owner=None, bound=None):
        self.node, self.mod, self.owner, self.bound = node, mod, owner, bound
        self.defaults = {}


class Cls:
    def __init__(self, name):
        self.name = name


class Mod:
    def __init__(self, path):
        self.path = path


class Effect:
    def __init__(self, origin, file, line, func, what, path):
        self.origin, self.file, self.line, self.func, self.what, self.path = origin, file, line, func, what, path

    def where(self):
        return '%s:%d' % (self.file, self.line)


class Analysis:
    MAXD = 14

    def __init__(self, repo, cls=None, skip=(), objcls=None):
        self.repo, self.cls = repo, cls
        self.skip = set(skip)
        self.objcls = objcls or {}
        self.fields = {}           # attr -> V (joined over the whole class)
        self.effects = {}
        self.globals = {}
        self.defaults = {}
        self.stack = []
        self.memo = {}
        self.funcs = set()
        self.sites = 0
        self.changed = False
        self.me = Obj(None, None, 'self', cls, 'self')
        self.alloc = {}
        self.steps = 0
        self.track = None          # provenance tracking of fields: attr -> V, flow-sensitive
        self.setfields = {}

    # -------------------------------------------------------------- objects
    def fresh(self, node, tag='', table=None, kind=None, cls=None):
        k = (id(node), tag, tuple(id(f[0]) for f in self.stack[-2:]))
        o = self.alloc.get(k)
        if o is None:
            o = self.alloc[k] = Obj(None, table, kind, cls, tag)
            o.child['#node'] = node
        return o

    def root(self, origin, table=None, kind=None, cls=None):
        return Obj(origin, table, kind, cls, origin)

    def member(self, o, key):
        """what loading `key` (constant or None for an unknown one) from object o gives"""
        objs, prov = self.direct(o, key)
        if o.copied:
            seen = {o}
            todo = list(o.copied)
            while todo:
                x = todo.pop()
                if x in seen:
                    continue
                seen.add(x)
                todo += list(x.copied or ())
                os, pv = self.direct(x, key)
                # a deep copy: same contents, nobody else's objects
                objs |= {self.unown(y) for y in os}
                prov |= pv
        return V(objs, prov)

    def direct(self, o, key):
        objs, prov = set(), set()
        if o.origin is not None or o.table:
            c = o.child.get(key)
            if c is None and o.depth >= 3:
                c = o.child[key] = o
            if c is None:
                c = o.child[key] = Obj(o.origin, None, None, self.objcls.get(key) if isinstance(key, str) else None, '%s[%s]' % (o.name, key))
                c.depth = o.depth + 1
            objs.add(c)
            if o.table and isinstance(key, str):
                prov.add('%s.%s' % (o.table, key))
            elif o.table and key is None:
                prov.add('%s.*' % o.table)
        if key in o.elems:
            objs |= o.elems[key].objs
            prov |= o.elems[key].prov
        elif key is None:
            for v in o.elems.values():
                objs |= v.objs
                prov |= v.prov
        if o.rest is not None:
            objs |= o.rest.objs
            prov |= o.rest.prov
        return objs, prov

    def unown(self, o):
        if o.copied is not None:
            return o
        k = ('unown', id(o))
        c = self.alloc.get(k)
        if c is None:
            c = self.alloc[k] = Obj(None, None, o.kind, None, 'copy')
            c.copied = {o}
        return c

    def load(self, v, key):
        out = V((), v.prov if not any(o.table or o.elems for o in v.objs) else ())
        for o in v.objs:
            out = out | self.member(o, key)
        return V(out.objs, out.prov | v.prov)

    def put(self, v, key, val, site):
        for o in v.objs:
            if o is self.me:
                self.set_attr(V((o,)), key if isinstance(key, str) else None, val, site, {})
                continue
            if o.origin is not None:
                self.effect(o, site, key)
            if isinstance(key, str):
                a = o.elems.get(key, NONE)
                b = a | val
                if b.objs != a.objs or b.prov != a.prov or key not in o.elems:
                    o.elems[key] = V(b.objs, b.prov)
                    self.changed = True
            else:
                a = o.rest or V()
                b = a | val
                if b.objs != a.objs or b.prov != a.prov:
                    o.rest = V(b.objs, b.prov)
                    self.changed = True

    def mutate(self, v, site, what=''):
        for o in v.objs:
            if o.origin is not None:
                self.effect(o, site, what)

    def effect(self, o, site, what):
        node, (f, mod, _) = site, self.stack[-1]
        k = (o.origin, self.repo.file_of(mod), node.lineno, getattr(f, 'name', '<lambda>'))
        if k not in self.effects:
            path = [getattr(x[0], 'name', '<lambda>') for x in self.stack]
            self.effects[k] = Effect(o.origin, self.repo.file_of(mod), node.lineno, getattr(f, 'name', '<lambda>'), o.name, path)

    # -------------------------------------------------------------- names
    def name(self, n, env, mod):
        if n in env:
            return env[n]
        e = self.repo.names.get(mod, {}).get(n)
        if e is None:
            return V((), (), fn=('builtin', n))
        k = e[0]
        if k == 'func':
            return V(fn=Fn(e[1], mod))
        if k == 'class':
            return V(fn=Cls(n))
        if k == 'mod':
            return V(fn=Mod(e[1]))
        if k == 'from':
            if e[1] in self.repo.mods:
                return self.name(e[2], {}, e[1])
            if e[1] + '.' + e[2] in self.repo.mods:
                return V(fn=Mod(e[1] + '.' + e[2]))
            return V(fn=Mod(e[1] + '.' + e[2]))
        if k == 'expr':
            if isinstance(e[1], ast.Constant):
                return V(const=e[1].value)
            if isinstance(e[1], (ast.Lambda,)):
                return V(fn=Fn(e[1], mod))
            if isinstance(e[1], ast.Name):
                return self.name(e[1].id, {}, mod)
            if isinstance(e[1], (ast.BinOp, ast.UnaryOp)):
                return NONE
            o = self.globals.get((mod, n))
            if o is None:
                o = self.globals[(mod, n)] = self.root('module-level %s.%s' % (mod.split('.')[-1], n))
            return V((o,))
        return NONE

    # -------------------------------------------------------------- expressions
    def ev(self, x, env, mod):
        self.steps += 1
        m = getattr(self, 'e_' + type(x).__name__, None)
        if m is not None:
            return m(x, env, mod)
        out = V()
        for c in ast.iter_child_nodes(x):
            if isinstance(c, ast.expr):
                out = out | V((), self.ev(c, env, mod).prov)
        return V((), out.prov)

    def e_Constant(self, x, env, mod):
        return V(const=x.value)

    def e_Name(self, x, env, mod):
        return self.name(x.id, env, mod)

    def e_JoinedStr(self, x, env, mod):
        s = ''
        pv = frozenset()
        for p in x.values:
            if isinstance(p, ast.Constant):
                s = None if s is None else s + str(p.value)
            else:
                v = self.ev(p.value, env, mod)
                pv |= v.prov
                s = None if s is None or v.const is None else s + str(v.const)
        return V((), pv, const=s)

    def e_BinOp(self, x, env, mod):
        a, b = self.ev(x.left, env, mod), self.ev(x.right, env, mod)
        c = None
        if isinstance(a.const, str) and isinstance(b.const, str) and isinstance(x.op, ast.Add):
            c = a.const + b.const
        return V((), a.prov | b.prov, const=c, index=a.index or b.index, num=a.num and b.num)

    def e_UnaryOp(self, x, env, mod):
        a = self.ev(x.operand, env, mod)
        c = -a.const if isinstance(x.op, ast.USub) and isinstance(a.const, (int, float)) else None
        return V((), a.prov, const=c, index=isinstance(x.op, ast.Invert), num=a.num)

    def e_BoolOp(self, x, env, mod):
        out = None
        for v in x.values:
            w = self.ev(v, env, mod)
            out = w if out is None else out | w
        return out

    def e_Compare(self, x, env, mod):
        p = self.ev(x.left, env, mod).prov
        for c in x.comparators:
            p |= self.ev(c, env, mod).prov
        return V((), p, index=True)

    def e_IfExp(self, x, env, mod):
        self.ev(x.test, env, mod)
        t = self.truth(x.test, env, mod)
        if t is True:
            return self.ev(x.body, env, mod)
        if t is False:
            return self.ev(x.orelse, env, mod)
        return self.ev(x.body, env, mod) | self.ev(x.orelse, env, mod)

    def e_Tuple(self, x, env, mod):
        return self.seq(x, env, mod)

    e_List = e_Tuple
    e_Set = e_Tuple

    def seq(self, x, env, mod):
        vs = [self.ev(e, env, mod) for e in x.elts]
        o = self.fresh(x, 'seq', kind='list')
        r = V()
        for i, v in enumerate(vs):
            r = r | V(v.objs, v.prov)
            o.elems[i] = (o.elems.get(i) or V()) | v
        if r.objs or r.prov:
            o.rest = (o.rest or V()) | r
        cs = [v.const for v in vs]
        const = tuple(cs) if vs and len(vs) <= 40 and all(c is not None for c in cs) else None
        return V((o,), r.prov, const)

    def e_Dict(self, x, env, mod):
        o = self.fresh(x, 'dict', kind='dict')
        pv = frozenset()
        for k, w in zip(x.keys, x.values):
            v = self.ev(w, env, mod)
            pv |= v.prov
            if k is None:
                for s in v.objs:
                    m = self.member(s, None)
                    o.rest = (o.rest or V()) | m
                continue
            kv = self.ev(k, env, mod)
            if isinstance(kv.const, str):
                o.elems[kv.const] = (o.elems.get(kv.const) or V()) | V(v.objs, v.prov)
            else:
                o.rest = (o.rest or V()) | V(v.objs, v.prov)
        try:
            const = ast.literal_eval(x)
        except (ValueError, TypeError, SyntaxError):
            const = None
        return V((o,), pv, const if const else None)

    def comp(self, x, elts, env, mod, key=None):
        o = self.fresh(x, 'comp', kind='dict' if key is not None else 'list')
        acc = [V()]

        def leaf(env):
            r = V()
            for e in elts:
                r = r | self.ev(e, env, mod)
            r = V(r.objs, r.prov)
            acc[0] = acc[0] | r
            k = self.ev(key, env, mod).const if key is not None else None
            if isinstance(k, str):
                o.elems[k] = (o.elems.get(k) or V()) | r
            else:
                o.rest = (o.rest or V()) | r

        def go(gs, env):
            if not gs:
                return leaf(env)
            g = gs[0]
            it = self.ev(g.iter, env, mod)
            cs = self.concrete(g.iter, env, mod)
            for el in ([V(const=c) for c in cs] if cs is not None else [self.items(it)]):
                e = dict(env)
                self.bind(g.target, el, e, mod)
                for c in g.ifs:
                    self.ev(c, e, mod)
                go(gs[1:], e)
        go(x.generators, dict(env))
        return V((o,), acc[0].prov)

    def e_ListComp(self, x, env, mod):
        return self.comp(x, [x.elt], env, mod)

    e_SetComp = e_ListComp
    e_GeneratorExp = e_ListComp

    def e_DictComp(self, x, env, mod):
        return self.comp(x, [x.value], env, mod, x.key)

    def e_Lambda(self, x, env, mod):
        return V(fn=self.closure(x, env, mod))

    def closure(self, x, env, mod):
        fn = Fn(x, mod, bound=('env', env))
        a = x.args
        ps = [p.arg for p in a.args]
        fn.defaults = {p: self.ev(d, env, mod) for p, d in zip(ps[len(ps) - len(a.defaults):], a.defaults)}
        fn.defaults.update({p.arg: self.ev(d, env, mod) for p, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None})
        return fn

    def e_Starred(self, x, env, mod):
        return self.items(self.ev(x.value, env, mod))

    def e_NamedExpr(self, x, env, mod):
        v = self.ev(x.value, env, mod)
        env[x.target.id] = v
        return v

    def items(self, v):
        out = V((), v.prov)
        for o in v.objs:
            out = out | self.member(o, None)
        return V(out.objs, out.prov | v.prov)

    def isself(self, v):
        return self.me in v.objs

    def e_Attribute(self, x, env, mod):
        b = self.ev(x.value, env, mod)
        return self.attr(b, x.attr, x, env, mod)

    def attr(self, b, a, x, env, mod):
        if isinstance(b.fn, Mod):
            path = b.fn.path
            if path in self.repo.mods:
                if a in self.repo.names[path]:
                    return self.name(a, {}, path)
            if path + '.' + a in self.repo.mods or not path.startswith(self.repo.pkg):
                return V(fn=Mod(path + '.' + a))
            return V(fn=Mod(path + '.' + a))
        if isinstance(b.fn, tuple) and b.fn[0] == 'super':
            f = self.repo.find_method(self.cls, a, after=b.fn[1])
            if f is not None:
                return V(fn=Fn(f[0], f[1], bound=b.fn[2]))
            return V(fn=('ext', a))
        if isinstance(b.fn, Cls):
            f = self.repo.find_method(b.fn.name, a)
            if f is not None:
                return V(fn=Fn(f[0], f[1], bound=NONE if self.repo.is_classm(f[0]) else None))
            return NONE
        if self.isself(b):
            if a == '__dict__':
                return b
            out = V()
            if ('self', a) in env:
                out = env[('self', a)]
            elif a in self.fields:
                out = self.fields[a]
            elif '*' in self.fields:
                out = self.fields['*']
            f = self.repo.find_method(self.cls, a)
            if f is not None and ('self', a) not in env:
                if self.repo.is_property(f[0]):
                    return self.call_fn(Fn(f[0], f[1], bound=b), [], {}, x, env)
                return V(out.objs, out.prov, fn=Fn(f[0], f[1], bound=b))
            rest = [o for o in b.objs if o is not self.me]
            if rest:
                out = out | self.load(V(rest, ()), a)
            return out
        if a in META_ATTR:
            return V()
        if a == '__dict__':
            return b
        if a in VIEW_ATTR:
            if a in ('loc', 'iloc', 'at', 'iat'):
                return V(b.objs, b.prov, fn=('loc', a))
            return V(b.objs, b.prov)
        cs = {o.cls for o in b.objs if o.cls}
        for c in cs:
            f = self.repo.find_method(c, a)
            if f is not None:
                if self.repo.is_property(f[0]):
                    return self.load(b, a)
                return V((), b.prov, fn=Fn(f[0], f[1], bound=b))
        if a in ('index', 'columns'):
            pv = frozenset('%s.%s' % (t, a) for t in tables(b)) if a == 'index' else frozenset()
            o = [self.member(o, '#' + a) for o in b.objs if o.origin is not None]
            out = V((), pv)
            for m in o:
                out = out | V(m.objs)
            return V(out.objs, pv)
        r = self.load(b, a)
        return V(r.objs, r.prov, fn=('meth', b, a))

    def e_Subscript(self, x, env, mod):
        b = self.ev(x.value, env, mod)
        return self.subs(b, x.slice, x, env, mod)

    def idx(self, s, env, mod):
        """(kind, key, prov): 'key' constant, 'view' basic index, 'adv' array index, 'name' unknown"""
        if isinstance(s, ast.Constant):
            return ('key', s.value, frozenset())
        if isinstance(s, ast.Slice):
            for c in (s.lower, s.upper, s.step):
                if c is not None:
                    self.ev(c, env, mod)
            return ('view', None, frozenset())
        if isinstance(s, ast.Tuple):
            ks = [self.idx(e, env, mod) for e in s.elts]
            pv = frozenset().union(*[k[2] for k in ks]) if ks else frozenset()
            keys = [k[1] for k in ks if k[0] == 'key' and isinstance(k[1], str)]
            if any(k[0] == 'adv' for k in ks):
                return ('advkey', keys[0], pv) if keys else ('adv', None, pv)
            if keys:
                return ('key', keys[0], pv)
            return ('view', None, pv)
        if isinstance(s, ast.List):
            ks = [e.value for e in s.elts if isinstance(e, ast.Constant)]
            for e in s.elts:
                self.ev(e, env, mod)
            return ('cols', ks, frozenset())
        v = self.ev(s, env, mod)
        if isinstance(v.const, (str, int)) and not isinstance(v.const, bool):
            return ('key', v.const, v.prov)
        if v.num:
            return ('num', None, v.prov)
        if isinstance(s, ast.Name):
            if v.index or v.objs:
                return ('adv', None, v.prov)
            return ('name', None, v.prov)
        if isinstance(s, (ast.Compare, ast.UnaryOp, ast.Call)):
            return ('adv', None, v.prov) if not (isinstance(s, ast.UnaryOp) and isinstance(s.op, ast.USub)) else ('view', None, v.prov)
        if isinstance(s, ast.BinOp):
            return ('adv' if v.index or v.objs else 'name', None, v.prov)
        if isinstance(s, (ast.Attribute, ast.Subscript)):
            return ('adv', None, v.prov)
        return ('name', None, v.prov)

    def subs(self, b, s, x, env, mod):
        k, key, pv = self.idx(s, env, mod)
        if k == 'key':
            if isinstance(key, str):
                r = self.load(b, key)
                return V(r.objs, r.prov | pv)
            r = V((), b.prov)
            for o in b.objs:
                if isinstance(key, int) and key in o.elems:
                    r = r | o.elems[key]
                else:
                    r = r | self.member(o, None)
                    r = r | V((o,)) if o.origin is not None else r
            return V(r.objs, r.prov | b.prov)
        if k in ('adv', 'advkey', 'cols'):
            pr = b.prov | pv
            if k == 'advkey':
                m = self.load(b, key)
                return V((), m.prov | pv)
            # selecting rows / elements copies; a table stays a table
            os = [self.copyobj(o, x) for o in b.objs if o.table or o.elems or o.copied is not None]
            return V(os, pr)
        # basic index: a view of an array, an element of a container
        r = V(b.objs, b.prov | pv)
        for o in b.objs:
            m = self.member(o, None)
            r = r | m
        return V(r.objs, r.prov | pv, num=k == 'num' and self.vector(x, b))

    def vector(self, x, b):
        """the subscripted value is a one-dimensional array (no name it goes by is ever indexed with two subscripts,
        and it is not a container of other things)"""
        n = x.value if isinstance(x, ast.Subscript) else None
        n = n.id if isinstance(n, ast.Name) else n.attr if isinstance(n, ast.Attribute) else None
        if n is None or n in self.matrices() or n.lstrip('_') in self.matrices():
            return False
        for o in b.objs:
            if o.kind is not None or o.table or o.elems or any(k is not None for k in o.child) or str(o.name) in self.matrices():
                return False
        return True

    def matrices(self):
        m = getattr(self, '_matrices', None)
        if m is None:
            m = set()
            for t in self.repo.mods.values():
                for y in ast.walk(getattr(t, 'tree', t)):
                    if isinstance(y, ast.Subscript) and isinstance(y.slice, ast.Tuple):
                        v = y.value
                        m.add(v.id if isinstance(v, ast.Name) else v.attr if isinstance(v, ast.Attribute) else '')
            self._matrices = m
        return m

    def copyobj(self, o, node):
        base = o
        while base.copied and len(base.copied) == 1:
            base = next(iter(base.copied))
        k = ('copyobj', id(base), id(node))
        c = self.alloc.get(k)
        if c is None:
            c = self.alloc[k] = Obj(None, None, o.kind, None, 'copy')
            c.copied = set()
        if o is not c:
            c.copied.add(o)
        return c

    # -------------------------------------------------------------- calls
    def e_Call(self, x, env, mod):
        f = x.func
        args = []
        star = False
        for a in x.args:
            if isinstance(a, ast.Starred):
                star = True
                v = self.ev(a.value, env, mod)
                tup = [o for o in v.objs if o.kind == 'list' and o.elems]
                if tup and len(v.objs) == 1:
                    o = tup[0]
                    args += [o.elems[i] for i in sorted(k for k in o.elems if isinstance(k, int))]
                else:
                    args.append(self.items(v))
            else:
                args.append(self.ev(a, env, mod))
        kw = {}
        kwrest = None
        for k in x.keywords:
            v = self.ev(k.value, env, mod)
            if k.arg is None:
                kwrest = (kwrest or V()) | self.items(v)
                for o in v.objs:
                    for kk, vv in o.elems.items():
                        if isinstance(kk, str):
                            kw.setdefault(kk, vv)
                    if o.origin is not None or o.table:
                        kwrest = kwrest | self.member(o, None)
            else:
                kw[k.arg] = v
        if isinstance(f, ast.Attribute):
            recv = self.ev(f.value, env, mod)
            fv = self.attr(recv, f.attr, f, env, mod)
            return self.apply(fv, args, kw, kwrest, x, env, mod, recv, f.attr)
        if isinstance(f, ast.Name) and f.id == 'super':
            owner = self.repo.cls_of(self.stack[-1][0]) or self.cls
            return V(fn=('super', owner, env.get('self', NONE)))
        fv = self.ev(f, env, mod)
        return self.apply(fv, args, kw, kwrest, x, env, mod, None, f.id if isinstance(f, ast.Name) else None)

    def apply(self, fv, args, kw, kwrest, x, env, mod, recv, nm):
        pv = frozenset()
        for a in list(args) + list(kw.values()) + ([kwrest] if kwrest else []):
            pv |= a.prov
        fn = fv.fn
        if isinstance(fn, Fn):
            if recv is not None and getattr(fn.node, 'name', None) in self.skip and recv is not None and self.isself(recv):
                return V()
            return self.call_fn(fn, args, kw, x, env, kwrest)
        if isinstance(fn, Cls):
            o = self.fresh(x, 'new ' + fn.name, kind='obj', cls=fn.name)
            f = self.repo.find_method(fn.name, '__init__')
            if f is not None:
                self.call_fn(Fn(f[0], f[1], bound=V((o,))), args, kw, x, env, kwrest)
            return V((o,), pv)
        if isinstance(fn, Mod):
            return self.ext_call(fn.path, args, kw, kwrest, x, pv)
        if isinstance(fn, tuple) and fn[0] == 'builtin':
            return self.builtin(fn[1], args, kw, kwrest, x, pv, env, mod)
        if recv is not None and isinstance(fv.fn, tuple) and fv.fn[0] == 'meth':
            return self.meth(recv, nm, args, kw, x, pv)
        if recv is not None:
            if nm in VIEW_ATTR and not args:      # dict.values()
                return self.listof(self.items(recv), x)
            return self.meth(recv, nm, args, kw, x, pv)
        # unknown callable (a value): may hand its arguments back
        return V((), pv | fv.prov)

    def listof(self, v, x):
        o = self.fresh(x, 'iter', kind='list')
        o.rest = (o.rest or V()) | V(v.objs, v.prov)
        return V((o,), v.prov)

    def meth(self, b, nm, args, kw, x, pv):
        pr = b.prov | pv
        if nm in MUT_METH and self.isself(b):
            if nm in ('update', 'setdefault', '__setitem__', '__setattr__'):
                key = args[0].const if args and isinstance(args[0].const, str) else None
                for a in args[1 if nm != 'update' else 0:]:
                    if nm == 'update':
                        for o in a.objs:
                            for kk, vv in o.elems.items():
                                self.set_attr(V((self.me,)), kk if isinstance(kk, str) else None, vv, x, {})
                            if o.rest is not None:
                                self.set_attr(V((self.me,)), None, o.rest, x, {})
                    else:
                        self.set_attr(V((self.me,)), key, a, x, {})
                for kk, vv in kw.items():
                    self.set_attr(V((self.me,)), kk, vv, x, {})
            return V()
        if nm in MUT_METH:
            self.mutate(b, x, nm)
            vals = V()
            for a in list(args) + list(kw.values()):
                vals = vals | V(a.objs, a.prov)
            if nm in ('update', 'extend'):
                vals = self.items(vals) | V((), vals.prov)
            key = args[0].const if args and isinstance(args[0].const, str) and nm in ('setdefault', '__setitem__') else None
            if vals.objs or vals.prov:
                for o in b.objs:
                    if key is not None:
                        o.elems[key] = (o.elems.get(key) or V()) | V(vals.objs, vals.prov)
                    else:
                        o.rest = (o.rest or V()) | V(vals.objs, vals.prov)
        if nm in INPLACE_KW and kw.get('inplace') is not None and kw['inplace'].const is not False:
            self.mutate(b, x, nm)
        if 'out' in kw:
            self.mutate(kw['out'], x, 'out=')
        if nm in ELEM_METH:
            return self.listof(self.items(b), x)
        if nm in VIEW_METH:
            key = args[0].const if args and isinstance(args[0].const, str) else None
            if nm in ('get', 'pop', 'setdefault', '__getitem__', 'get_group'):
                r = self.load(b, key)
                for a in args[1:]:
                    r = r | a
                return V(r.objs, r.prov | pv)
            return V(b.objs, pr)
        if nm == 'astype':
            c = kw.get('copy')
            if c is not None and c.const is not True:
                return V(b.objs, pr)
            return V([self.copyobj(o, x) for o in b.objs if o.table or o.copied is not None or o.elems], pr)
        if nm in KEEP_METH:
            out = []
            deep = kw.get('deep')
            shallow = nm == 'copy' and deep is not None and deep.const is not True
            if shallow:
                return V(b.objs, pr)
            if nm not in ('copy', 'deepcopy') and kw.get('copy') is not None and kw['copy'].const is False:
                return V(b.objs, pr)
            for o in b.objs:
                if nm == 'copy' and o.kind == 'dict':
                    c = self.fresh(x, 'dictcopy', kind='dict')
                    m = self.member(o, None)
                    c.rest = (c.rest or V()) | m
                    out.append(c)
                elif o.table or o.copied is not None or o.elems:
                    c = self.copyobj(o, x)
                    if nm == 'rename' and kw.get('columns') is not None:
                        for m in kw['columns'].objs:
                            for old, new in m.elems.items():
                                if isinstance(old, str) and isinstance(new.const, str):
                                    c.elems[new.const] = (c.elems.get(new.const) or V()) | V((), self.load(b, old).prov)
                    out.append(c)
            # rows put in an order given by the index / a column: that order is part of where every value comes from
            if nm == 'sort_index':
                pr = pr | self.load(b, 'index').prov
            if nm == 'sort_values':
                for a in list(args[:1]) + [kw['by']] * ('by' in kw):
                    if isinstance(a.const, str):
                        pr = pr | self.load(b, a.const).prov
            return V(out, pr)
        return V((), pr | frozenset('%s.*' % t for t in tables(b)))

    def ext_call(self, path, args, kw, kwrest, x, pv):
        nm = path.split('.')[-1]
        if self.track is not None and nm not in ('deepcopy', 'copy'):
            for a in list(args) + list(kw.values()):
                pv = pv | frozenset('%s.*' % t for t in tables(a))
        root = path.split('.')[0]
        if 'out' in kw:
            self.mutate(kw['out'], x, 'out=')
        for k, v in kw.items():
            if k.startswith('overwrite') and v.const is not False:
                pos = {'overwrite_ab': 1, 'overwrite_b': 2} if nm == 'solve_banded' else {'overwrite_a': 0, 'overwrite_ab': 0, 'overwrite_x': 0, 'overwrite_b': 1}
                i = pos.get(k)
                if i is not None and i < len(args):
                    self.mutate(args[i], x, k)
        if nm == 'at' and root == 'numpy' and args:
            self.mutate(args[0], x, path)
            for o in args[0].objs:
                if len(args) > 2 and args[2].prov:
                    o.rest = (o.rest or V()) | V((), args[2].prov)
            return V()
        if nm in NP_MUT and args:
            self.mutate(args[0], x, path)
            return V()
        if root == 'copy':
            if nm == 'deepcopy':
                return V([self.copyobj(o, x) for o in args[0].objs], args[0].prov)
            out = []
            for o in args[0].objs:
                if o.kind == 'dict' or (o.kind is None and o.origin is not None and o.table is None):
                    c = self.fresh(x, 'copy', kind=o.kind)
                    m = self.member(o, None)
                    c.rest = (c.rest or V()) | m
                    out.append(c)
                else:
                    out.append(self.copyobj(o, x))
            return V(out, args[0].prov)
        if nm in ALIAS_FN and args and root in ('numpy', 'scipy'):
            return V(args[0].objs, pv)
        if nm == 'array' and args and kw.get('copy') is not None and kw['copy'].const is not True:
            return V(args[0].objs, pv)
        if root == 'pandas' and nm in ('DataFrame', 'Series'):
            o = self.fresh(x, nm, kind='df')
            if args and root == 'pandas':
                for s in args[0].objs:
                    for k2, v2 in s.elems.items():
                        if isinstance(k2, str):
                            o.elems[k2] = (o.elems.get(k2) or V()) | V(v2.objs if s.kind != 'dict' else (), v2.prov)
                c = kw.get('copy')
                if c is None or c.const is not True:
                    # may share memory with the array / frame it is built from
                    al = [s for s in args[0].objs if s.origin is not None and s.kind != 'dict']
                    return V([o] + al, pv)
            return V((o,), pv)
        if nm in ('filterwarnings',):
            return V()
        o = self.fresh(x, 'ext')
        o2 = [o]
        if kwrest is not None:
            pv = pv | kwrest.prov
        return V(o2, pv, index=True)

    def builtin(self, n, args, kw, kwrest, x, pv, env, mod):
        if n == 'setattr' and len(args) == 3:
            self.set_attr(args[0], args[1].const, args[2], x, env)
            return V()
        if n == 'getattr' and len(args) >= 2:
            if isinstance(args[1].const, str):
                r = self.attr(args[0], args[1].const, x, env, mod)
            elif self.isself(args[0]):
                r = V()
                for v in self.fields.values():
                    r = r | V(v.objs, ())
            else:
                r = self.load(args[0], None)
            for a in args[2:]:
                r = r | a
            return V(r.objs, r.prov)
        if n == 'vars' and args:
            return args[0]
        if n in ('list', 'tuple', 'set', 'sorted', 'reversed', 'iter', 'frozenset', 'deque'):
            if not args:
                return V((self.fresh(x, n, kind='list'),))
            return self.listof(self.items(args[0]), x)
        if n == 'next':
            return self.items(args[0]) if args else NONE
        if n == 'dict':
            o = self.fresh(x, 'dict', kind='dict')
            for a in args:
                o.rest = (o.rest or V()) | self.items(a)
            for k, v in kw.items():
                o.elems[k] = (o.elems.get(k) or V()) | v
            if kwrest is not None:
                o.rest = (o.rest or V()) | kwrest
            return V((o,), pv)
        if n in ('zip', 'enumerate', 'map', 'filter'):
            r = V((), pv)
            if n == 'zip':
                o = self.fresh(x, 'ziprow', kind='list')
                for i, a in enumerate(args):
                    o.elems[i] = (o.elems.get(i) or V()) | self.items(a)
                return self.listof(V((o,), pv), x)
            if n == 'enumerate':
                o = self.fresh(x, 'enumrow', kind='list')
                o.elems[0] = V()
                o.elems[1] = (o.elems.get(1) or V()) | self.items(args[0])
                return self.listof(V((o,), pv), x)
            for a in args[1:]:
                r = r | self.items(a)
            if isinstance(args[0].fn, Fn):
                r = r | self.call_fn(args[0].fn, [self.items(a) for a in args[1:]], {}, x, env)
            return self.listof(r, x)
        if n in ('min', 'max', 'sum', 'abs', 'float', 'int', 'bool', 'str', 'round', 'len', 'isinstance', 'hasattr', 'print', 'range', 'any', 'all', 'callable', 'type', 'repr', 'id'):
            if n == 'len' or n == 'range':
                return V(index=False)
            return V((), pv)
        return V((), pv)

    # -------------------------------------------------------------- user functions
    def call_fn(self, fn, args, kw, site, env, kwrest=None):
        node = fn.node
        if len(self.stack) > self.MAXD or any(s[0] is node for s in self.stack):
            return V()
        a = node.args
        params = [p.arg for p in a.args]
        loc = {}
        closure = None
        if isinstance(fn.bound, tuple) and fn.bound[0] == 'env':
            closure = fn.bound[1]
            args = list(args)
        elif fn.bound is not None and not (isinstance(node, ast.FunctionDef) and self.repo.is_static(node)):
            args = [fn.bound] + list(args)
        for p, v in zip(params, args):
            loc[p] = v
        if len(args) > len(params) and a.vararg:
            o = self.fresh(node, 'varargs', kind='list')
            for v in args[len(params):]:
                o.rest = (o.rest or V()) | v
            loc[a.vararg.arg] = V((o,))
        allp = params + [p.arg for p in a.kwonlyargs]
        extra = None
        for k, v in kw.items():
            if k in allp:
                loc[k] = v
            else:
                extra = (extra or {})
                extra[k] = v
        if kwrest is not None:
            for p in allp:
                if p not in loc:
                    loc[p] = kwrest
        if a.kwarg:
            o = self.fresh(node, 'kwargs', kind='dict')
            for k, v in (extra or {}).items():
                o.elems[k] = (o.elems.get(k) or V()) | v
            if kwrest is not None:
                o.rest = (o.rest or V()) | kwrest
            loc[a.kwarg.arg] = V((o,))
        ds = dict(zip(params[len(params) - len(a.defaults):], a.defaults))
        for p, d in zip(a.kwonlyargs, a.kw_defaults):
            if d is not None:
                ds[p.arg] = d
        for p in allp:
            if p not in loc:
                loc[p] = fn.defaults[p] if p in fn.defaults else self.default(node, p, ds.get(p), fn.mod)
        if self.track is None:
            k = (id(node), tuple((p, v.key()) for p, v in sorted(loc.items())), self.fver())
            if k in self.memo:
                r, eff = self.memo[k]
                return r
        self.stack.append((node, fn.mod, site))
        self.funcs.add((self.repo.file_of(fn.mod), getattr(node, 'name', '<lambda>')))
        if closure is not None:
            e = dict(closure)
            e.update(loc)
        else:
            e = loc
        if self.track is not None and env is not None:
            for kk, vv in env.items():
                if isinstance(kk, tuple):
                    e[kk] = vv
        if isinstance(node, ast.Lambda):
            r = self.ev(node.body, e, fn.mod)
        else:
            rets = []
            self.block(node.body, e, fn.mod, rets)
            r = V()
            for v in rets:
                r = r | v
            if len(rets) == 1:
                r = rets[0]
        self.stack.pop()
        if self.track is not None and env is not None:
            for kk, vv in e.items():
                if isinstance(kk, tuple):
                    env[kk] = vv
        if self.track is None:
            self.memo[k] = (r, None)
        return r

    def fver(self):
        return 0

    def default(self, node, p, d, mod):
        if d is None:
            return V()
        if isinstance(d, (ast.Dict, ast.List, ast.Set)) or (isinstance(d, ast.Call)):
            k = (id(node), p)
            o = self.defaults.get(k)
            if o is None:
                o = self.defaults[k] = self.root('the default value of parameter %s of %s' % (p, getattr(node, 'name', 'lambda')), kind='dict' if isinstance(d, ast.Dict) else 'list')
            return V((o,))
        return self.ev(d, {}, mod)

    # -------------------------------------------------------------- statements
    def block(self, body, env, mod, rets):
        for s in body:
            if self.stmt(s, env, mod, rets):
                return True
        return False

    def join(self, env, envs):
        keys = set()
        for e in envs:
            keys |= set(e)
        for k in keys:
            v = None
            for e in envs:
                if k in e:
                    v = e[k] if v is None else v | e[k]
                elif isinstance(k, tuple) and k[1] in self.fields and self.track is None:
                    v = self.fields[k[1]] if v is None else v | self.fields[k[1]]
            env[k] = v

    def truth(self, t, env, mod):
        """tests decided by what is known: `x is None` for values known to be given"""
        return None

    def stmt(self, s, env, mod, rets):
        self.sites += 1
        if isinstance(s, ast.Expr):
            self.ev(s.value, env, mod)
        elif isinstance(s, ast.Assign):
            v = self.ev(s.value, env, mod)
            for t in s.targets:
                self.bind(t, v, env, mod)
        elif isinstance(s, ast.AnnAssign):
            if s.value is not None:
                self.bind(s.target, self.ev(s.value, env, mod), env, mod)
        elif isinstance(s, ast.AugAssign):
            v = self.ev(s.value, env, mod)
            t = s.target
            cur = self.ev(ast.copy_location(self.asload(t), t), env, mod)
            if isinstance(t, ast.Subscript):
                self.bind(t, V((), v.prov | cur.prov), env, mod)
            else:
                # x += y on an array changes the array x refers to
                if not cur.num:
                    self.mutate(V([o for o in cur.objs if o is not self.me]), s, 'augmented assignment')
                self.bind(t, V(() if cur.num else cur.objs, cur.prov | v.prov, num=cur.num and v.num), env, mod)
        elif isinstance(s, ast.Return):
            rets.append(self.ev(s.value, env, mod) if s.value is not None else V())
            return True
        elif isinstance(s, ast.If):
            self.ev(s.test, env, mod)
            t = self.truth(s.test, env, mod)
            if t is True:
                return self.block(s.body, env, mod, rets)
            if t is False:
                return self.block(s.orelse, env, mod, rets)
            e1, e2 = dict(env), dict(env)
            r1 = self.block(s.body, e1, mod, rets)
            r2 = self.block(s.orelse, e2, mod, rets)
            if r1 and r2:
                return True
            live = [e for e, r in ((e1, r1), (e2, r2)) if not r]
            env.clear()
            self.join(env, live)
        elif isinstance(s, (ast.For, ast.AsyncFor)):
            it = self.ev(s.iter, env, mod)
            cs = self.concrete(s.iter, env, mod)
            if cs is not None:
                for c in cs:
                    self.bind(s.target, V(const=c), env, mod)
                    self.block(s.body, env, mod, rets)
            else:
                el = self.items(it)
                if isinstance(s.iter, ast.Call) and isinstance(s.iter.func, ast.Name) and s.iter.func.id in ('range', 'prange') and s.iter.func.id not in env:
                    el = V((), el.prov, num=True)
                for _ in range(2):
                    e = dict(env)
                    self.bind(s.target, el, e, mod)
                    self.block(s.body, e, mod, rets)
                    e0 = dict(env)
                    env.clear()
                    self.join(env, [e0, e])
            self.block(s.orelse, env, mod, rets)
        elif isinstance(s, ast.While):
            self.ev(s.test, env, mod)
            for _ in range(2):
                e = dict(env)
                self.block(s.body, e, mod, rets)
                e0 = dict(env)
                env.clear()
                self.join(env, [e0, e])
        elif isinstance(s, ast.Try):
            e = dict(env)
            r = self.block(s.body, e, mod, rets)
            outs = [] if r else [e]
            for h in s.handlers:
                eh = dict(env)
                if h.name:
                    eh[h.name] = V()
                if not self.block(h.body, eh, mod, rets):
                    outs.append(eh)
            if outs:
                env.clear()
                self.join(env, outs)
            self.block(s.orelse, env, mod, rets)
            self.block(s.finalbody, env, mod, rets)
        elif isinstance(s, (ast.With, ast.AsyncWith)):
            for i in s.items:
                v = self.ev(i.context_expr, env, mod)
                if i.optional_vars is not None:
                    self.bind(i.optional_vars, v, env, mod)
            return self.block(s.body, env, mod, rets)
        elif isinstance(s, ast.Delete):
            for t in s.targets:
                if isinstance(t, ast.Subscript):
                    self.mutate(self.ev(t.value, env, mod), s, 'del')
                elif isinstance(t, ast.Attribute):
                    b = self.ev(t.value, env, mod)
                    if not self.isself(b):
                        self.mutate(b, s, 'del')
        elif isinstance(s, ast.FunctionDef):
            env[s.name] = V(fn=self.closure(s, env, mod))
        elif isinstance(s, ast.Assert):
            self.ev(s.test, env, mod)
        elif isinstance(s, (ast.Raise, ast.Continue, ast.Break)):
            return isinstance(s, ast.Raise)
        elif isinstance(s, (ast.Import, ast.ImportFrom)):
            for a in s.names:
                nm = a.asname or a.name.split('.')[0]
                if isinstance(s, ast.Import):
                    env[nm] = V(fn=Mod(a.name if a.asname else a.name.split('.')[0]))
                else:
                    env[nm] = V(fn=Mod((s.module or '') + '.' + a.name))
        return False

    def asload(self, t):
        t = ast.parse(ast.unparse(t), mode='eval').body
        for n in ast.walk(t):
            n.lineno = n.end_lineno = 0
            n.col_offset = n.end_col_offset = 0
        return t

    def concrete(self, it, env, mod, lim=40):
        """the elements a loop runs over when they are constants known from the source"""
        r = self.constseq(it, env, mod)
        return r if r is not None and len(r) <= lim else None

    def constseq(self, it, env, mod):
        if isinstance(it, ast.Call) and not it.keywords:
            f = it.func
            if isinstance(f, ast.Name) and f.id not in env:
                if f.id == 'range' and it.args:
                    a = [self.ev(y, env, mod).const for y in it.args]
                    if all(isinstance(c, int) for c in a):
                        r = range(*a)
                        return list(r) if len(r) <= 40 else None
                    return None
                if f.id in ('list', 'tuple', 'sorted', 'reversed') and len(it.args) == 1:
                    return self.constseq(it.args[0], env, mod)
                if f.id == 'enumerate' and len(it.args) == 1:
                    r = self.constseq(it.args[0], env, mod)
                    return list(enumerate(r)) if r is not None else None
                if f.id == 'zip':
                    rs = [self.constseq(y, env, mod) for y in it.args]
                    return list(zip(*rs)) if rs and all(r is not None for r in rs) else None
            if isinstance(f, ast.Attribute) and f.attr in ('items', 'keys', 'values') and not it.args and isinstance(f.value, (ast.Name, ast.Dict)):
                c = self.ev(f.value, env, mod).const
                if isinstance(c, dict):
                    return list(getattr(c, f.attr)())
            if isinstance(f, ast.Attribute) and f.attr == 'split' and isinstance(f.value, ast.Constant) and not it.args:
                return f.value.value.split()
            return None
        if not isinstance(it, (ast.Name, ast.Tuple, ast.List, ast.Set, ast.Dict)):
            return None
        c = self.ev(it, env, mod).const
        if isinstance(c, (tuple, list, dict)):
            return list(c)
        return None

    def bind(self, t, v, env, mod):
        if isinstance(t, ast.Name):
            env[t.id] = v
        elif isinstance(t, (ast.Tuple, ast.List)):
            for i, e in enumerate(t.elts):
                if isinstance(v.const, tuple) and not v.objs and len(v.const) == len(t.elts) and not any(isinstance(y, ast.Starred) for y in t.elts):
                    self.bind(e, V((), v.prov, v.const[i]), env, mod)
                    continue
                w = V((), v.prov)
                hit = False
                for o in v.objs:
                    if o.kind == 'list' and i in o.elems:
                        w = (w | o.elems[i]) if hit else o.elems[i]
                        hit = True
                    else:
                        w = w | self.member(o, None)
                        if o.origin is not None:
                            w = w | V((o,))
                if isinstance(e, ast.Starred):
                    e = e.value
                self.bind(e, w, env, mod)
        elif isinstance(t, ast.Attribute):
            b = self.ev(t.value, env, mod)
            self.set_attr(b, t.attr, v, t, env)
        elif isinstance(t, ast.Subscript):
            b = self.ev(t.value, env, mod)
            k, key, pv = self.idx(t.slice, env, mod)
            self.put(b, key if k in ('key', 'advkey') and isinstance(key, str) else None, V(v.objs, v.prov), t)
            # an array now also holds what was written into it
            if isinstance(t.value, ast.Name) and not isinstance(key, str):
                # (an array marked at some places holds which places those are)
                env[t.value.id] = V(b.objs, b.prov | (v.prov or pv), None, b.fn)
            elif isinstance(t.value, ast.Attribute) and self.isself(self.ev(t.value.value, env, mod)) and not isinstance(key, str):
                a = t.value.attr
                self.set_field(a, V(b.objs, b.prov | v.prov), env)
        elif isinstance(t, ast.Starred):
            self.bind(t.value, v, env, mod)

    def set_field(self, a, v, env):
        v = V(v.objs, v.prov, v.const, v.fn)
        env[('self', a)] = v
        if a in self.setfields:
            self.setfields[a] = self.setfields[a] | v
        else:
            self.setfields[a] = v
        old = self.fields.get(a)
        new = v if old is None else old | v
        if old is None or new.objs != old.objs or new.prov != old.prov:
            self.fields[a] = new
            self.changed = True

    def set_attr(self, b, a, v, site, env):
        rest = [o for o in b.objs if o is not self.me]
        if self.isself(b):
            if a is None:
                ks = self.statekeys()
                own = V([o for o in v.objs if o.origin is not None])
                for k in (ks if own.objs else ()):
                    self.set_attr(V((self.me,)), k, own, site, env)
                if not ks:
                    self.set_field('*', v, env)
            else:
                f = self.repo.find_method(self.cls, a + '.setter')
                if f is not None:
                    self.call_fn(Fn(f[0], f[1], bound=b), [v], {}, site, env)
                else:
                    self.set_field(a, v, env)
        for o in rest:
            self.put(V((o,)), a, v, site)

    def statekeys(self):
        """names stored in self.states: what a setattr of an unknown name in this class can restore"""
        out = set()
        for o in (self.fields.get('states') or V()).objs:
            out |= {k for k in o.elems if isinstance(k, str)}
        return sorted(out)

    # -------------------------------------------------------------- driving
    def entry(self, name, roots, cls_extra=()):
        """analyse method `name` with the given argument values (missing ones: their defaults)"""
        f, mod = self.repo.method(self.cls, name)
        self.memo = {}
        return self.call_fn(Fn(f, mod, bound=V((self.me,))), [], {k: v for k, v in roots.items() if k in [a.arg for a in f.args.args + f.args.kwonlyargs]}, f, {})

    def entry_func(self, mod, name, roots):
        e = self.repo.names[mod][name]
        self.memo = {}
        return self.call_fn(Fn(e[1], mod), [], roots, e[1], {})


def fullprov(v):
    """provenance of a value including what was later written into its objects"""
    out, seen = set(v.prov), set()

    def go(o, d):
        if o in seen or d > 3:
            return
        seen.add(o)
        for x in list(o.elems.values()) + [o.rest]:
            if x is not None:
                out.update(x.prov)
                for y in x.objs:
                    go(y, d + 1)
    for o in v.objs:
        go(o, 0)
    return out


def tables(v):
    out = set()

    seen = set()

    def go(o, d):
        if o in seen:
            return
        seen.add(o)
        if o.table:
            out.add(o.table)
        for s in o.copied or ():
            go(s, d + 1)
    for o in v.objs:
        go(o, 0)
    return out
