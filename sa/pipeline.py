"""Def-use abstraction of a step: every stage method becomes an opaque function of exactly the values the stage
reads (computed from its own source), so that two step routines agree iff every stage sees the same versions."""
import ast
from .oblig import *
from . import decide as D


def names_in(n):
    out = set()
    for a in all_atoms(n):
        if a.kind == 'sel' and isinstance(a.args[0], str):
            out.add(a.args[0])
        elif a.kind == 'ba' and a.args[0] in ('b', 'opt') and isinstance(a.args[1], str):
            out.add(a.args[1])
        elif a.kind == 'sym' and a.args[0] not in ('N', 'pos', 'int'):
            out.add('.'.join(str(x) for x in a.args))
    return out


def closure_loads(repo, cls, m, seen=None):
    """attributes of self loaded in a method and the methods it calls (syntactic)"""
    seen = set() if seen is None else seen
    f, _ = repo.method(cls, m)
    out, sto = set(), set()
    for x in ast.walk(f):
        if isinstance(x, ast.Attribute) and isinstance(x.value, ast.Name) and x.value.id == 'self':
            (out if isinstance(x.ctx, ast.Load) else sto).add(x.attr)
            if x.attr not in seen and repo.find_method(cls, x.attr) is not None:
                seen.add(x.attr)
                a, b = closure_loads(repo, cls, x.attr, seen)
                out |= a
                sto |= b
    return out, sto


class Stage:
    def __init__(self, repo, cls, m, args, onto=None, objs=None):
        self.name = m
        f, mod = repo.method(cls, m)
        self.params = [a.arg for a in f.args.args][1:]
        self.defaults = dict(zip(self.params[len(self.params) - len(f.args.defaults):], f.args.defaults))
        self.mod = mod
        self.node = f
        loads = {x.id for x in ast.walk(f) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Load)}
        e = run_method(repo, cls, m, args, onto=onto, objs=objs)
        self.out = {}        # attr -> (dims, dep names, in place)
        self.exact = not e.eng.unmodelled
        self.effect = e
        argn = {}
        for p in self.params:
            v = args.get(p)
            if isinstance(v, ArrV):
                argn[p] = {x for x in names_in(v.content)}
            elif isinstance(v, N):
                argn[p] = names_in(v)
        self.used = set()
        ch = e.changed()
        if '*' in e.attrs():
            self.exact = False
        if not self.exact:
            ld, sto = closure_loads(repo, cls, m)
            ch = sorted(set(x for x in ch if x != '*') | sto)
            self.loads = ld
        for a in ch:
            if a == 'states':
                continue
            v = e.get(a)
            deps = set()
            dims = None
            if not (isinstance(v, tuple) and len(v) == 2 and isinstance(v[0], tuple) and isinstance(v[1], N) and all(isinstance(d, N) for d in v[0])):
                v = None
            if isinstance(v, tuple) and len(v) == 2 and self.exact:
                dims = v[0]
                deps = names_in(v[1])
                for d in v[0]:
                    deps |= names_in(d)
            elif isinstance(v, tuple) and len(v) == 2 and not any(x.kind == 'poison' for x in all_atoms(v[1])):
                dims = v[0]
            self.out[a] = [dims, deps]
        for p in self.params:
            if p in loads and (p not in argn or not self.exact or any(argn[p] & d for _, d in self.out.values())):
                self.used.add(p)
        e2 = run_method(repo, cls, m, args, onto=onto, objs=objs, touch=list(self.out))
        i0 = e2.init.heap[e2.self.loc].attrs
        self.inplace = {a for a in self.out if isinstance(i0.get(a), Ref) and e2.attrs().get(a) == i0[a]} if self.exact else set()
        self.argnames = {p: argn.get(p, set()) for p in self.params}

    def uses(self, a, p):
        """does output a depend on argument p"""
        if p not in self.used:
            return False
        if p not in self.argnames or not self.argnames[p] or not self.exact:
            return True
        return bool(self.argnames[p] & self.out[a][1])


class Pipeline:
    def __init__(self, repo, cls, stages, args, onto=None, objs=None, extra=()):
        self.repo, self.cls = repo, cls
        self.stages = {}
        for m in stages:
            if repo.find_method(cls, m) is None:
                raise Vanished('%s.%s' % (cls, m))
            self.stages[m] = Stage(repo, cls, m, args, onto, objs)
        self.written = set(extra)
        for s in self.stages.values():
            self.written |= set(s.out)
        self.called = []

    def overrides(self):
        return {m: self._mk(s) for m, s in self.stages.items()}

    def _mk(self, s):
        pl = self

        def call(eng, st, args, kw, node):
            me = args[0]
            if not (isinstance(me, Ref) and isinstance(st.heap[me.loc], ObjV) and st.heap[me.loc].name == 'self'):
                return NotImplemented
            given = {}
            if len(args) - 1 > len(s.params):
                raise Unsupported('too many arguments for ' + s.name)
            for p, v in zip(s.params, args[1:]):
                given[p] = v
            for k, v in kw.items():
                if k not in s.params:
                    raise Unsupported('unexpected keyword %s for %s' % (k, s.name))
                given[k] = v
            saved = eng.curmod
            eng.curmod = s.mod
            for p in s.params:
                if p not in given:
                    if p not in s.defaults:
                        raise Unsupported('missing argument %s of %s' % (p, s.name))
                    given[p] = eng.ev(s.defaults[p], State({}, st.heap, st.facts))
            eng.curmod = saved
            pl.called.append(s.name)
            names = set()
            for a, (dims, deps) in s.out.items():
                names |= deps
            if not s.exact:
                names |= s.loads
            val = {}
            for n in sorted(names):
                v = pl.current(eng, st, me, n)
                if v is not None:
                    val[n] = v
            anode = {p: eng.node_of(given[p], st) if given[p] is not None else mk('ext', 'none') for p in s.used}
            new = {}
            for a, (dims, deps) in s.out.items():
                if dims is None:
                    cur = eng.getattr(me, a, st, node) if pl.known(eng, st, me, a) else None
                    ar = eng.arr(cur, st) if isinstance(cur, (Ref, ArrV)) else None
                    dims = tuple(ar.dims) if ar is not None and ar.mask is None else ()
                ds = tuple((n, val[n]) for n in sorted(deps if s.exact else names) if n in val)
                es = tuple(elt(i) for i in range(len(dims)))
                an = tuple((p, anode[p]) for p in s.params if p in s.used and s.uses(a, p))
                new[a] = (dims, A(mk('opq', 'stage:' + s.name, a, an, ds) if not es else mk('opq', 'stage:' + s.name, a, an, ds, *es)))
            for a, (dims, c) in new.items():
                if a == 'iter_count' or not dims:
                    eng.setattr(me, a, c, st)
                    continue
                if a in s.inplace and pl.known(eng, st, me, a):
                    cur = eng.getattr(me, a, st, node)
                    if isinstance(cur, Ref) and cur.view is None and isinstance(st.heap[cur.loc], ArrV):
                        st.heap[cur.loc] = ArrV(dims, c, None, a)
                        continue
                eng.setattr(me, a, ArrV(dims, c, None, a), st)
            return None
        return call

    def known(self, eng, st, me, n):
        h = st.heap[me.loc]
        return n in h.attrs or eng.onto.attr(h.name, n) is not None

    def current(self, eng, st, me, n):
        """node of the current value of a dependency, None for a fixed quantity"""
        pre = ''
        obj = me
        if n.startswith('H.'):
            obj = st.heap[me.loc].attrs.get('hydraulics')
            if obj is None:
                return None
            n = n[2:]
        if n.startswith('S.'):
            d = eng.getattr(obj, 'states', st, None)
            h = st.heap[d.loc]
            k = n[2:]
            if k in h.d:
                return eng.node_of(h.d[k], st)
            v = eng.onto.dict_item(h.base, k) if h.base is not None else None
            return eng.node_of(v, st) if v is not None else mk('ext', 'missing', k)
        if n not in self.written:
            return None
        if not self.known(eng, st, obj, n):
            return mk('ext', 'unset', n)
        v = eng.getattr(obj, n, st, None)
        if isinstance(v, (Func,)):
            return None
        return eng.node_of(v, st)


def impure(n, seen=None):
    """arithmetic outside the stages (a stage's work done elsewhere): not comparable stage by stage"""
    seen = set() if seen is None else seen
    if isinstance(n, tuple):
        return any(impure(x, seen) for x in n)
    if not isinstance(n, N) or n in seen:
        return False
    seen.add(n)
    if n.kind == 'poly':
        ms = n.args[0]
        if not ms:
            return False
        ok = len(ms) == 1 and (ms[0][0] == () or (len(ms[0][0]) == 1 and ms[0][0][0][1] == 1 and ms[0][1] == 1))
        if not ok:
            nm = names_in(n)
            if not nm <= {'t', 'dt', '_dt', 'iter_count', 'dt_in'} and not all(a.kind in ('elt', 'bv', 'loop', 'sym') or (a.kind == 'sel' and a.args[0] == '_Ik') for a in all_atoms(n)):
                return True
    if n.kind in ('rec', 'upd', 'sum', 'poison', 'app', 'fn'):
        return True
    return any(impure(x, seen) for x in n.args)
