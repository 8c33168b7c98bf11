"""Run the value-numbering analysis on a method / function and collect its effect."""
from . import terms as T, decide as D
from .terms import *
from .interp import *
from .interp import TB
from .repo import Repo, Vanished
from .ontology import Onto, Ns, space_of
from . import ontology as O


def garr(name, *spaces, kind='num'):
    es = [elt(i) for i in range(len(spaces))]
    dims = tuple(Ns(s) if isinstance(s, str) else s for s in spaces)
    c = batom('b', name, *es) if kind == 'bool' else A(mk('sel', name, *es))
    return ArrV(dims, c, None, name)


class Effect:
    """final abstract state of one analysed routine"""

    def __init__(self, eng, st, selfref, init):
        self.eng, self.st, self.self, self.init = eng, st, selfref, init
        self.ret = st.ret

    def attrs(self):
        return self.st.heap[self.self.loc].attrs

    def get(self, name):
        """(dims, content) of attribute after the routine (initial value if untouched)"""
        at = self.attrs()
        if name in at:
            v = at[name]
        else:
            v = self.eng.onto.attr(self.st.heap[self.self.loc].name, name)
            if v is None:
                return None
            if isinstance(v, (DictV, ObjV)):
                return v
            if not isinstance(v, ArrV):
                t = self.eng._sc(v)
                return ((), t) if t is not None else v
            return v.dims, v.content
        return self.value(v)

    def value(self, v):
        a = self.eng.arr(v, self.st) if isinstance(v, (Ref, ArrV)) else None
        if a is not None:
            if a.mask is not None:
                if len(a.dims) == 1 and a.content.kind == 'poly':
                    # a compressed array: which entries of the full one are kept, and their values
                    return a.dims, ite(a.mask, a.content, A(mk('sym', 'pos', 'left out')))
                return a.dims, A(mk('poison', 'compressed result'))
            return a.dims, a.content
        t = self.eng._sc(v)
        if t is not None:
            return (), t
        return v

    def changed(self):
        out = []
        for k, v in sorted(self.attrs().items()):
            iv = self.eng.onto.attr(self.st.heap[self.self.loc].name, k)
            val = self.value(v)
            if isinstance(v, Ref) and isinstance(self.st.heap[v.loc], ObjV) and self.init.heap[self.self.loc].attrs.get(k) == v:
                continue
            if isinstance(iv, ArrV):
                if not (isinstance(val, tuple) and val[1] is iv.content):
                    out.append(k)
            elif iv is None:
                out.append(k)
            else:
                t = self.eng._sc(iv)
                if t is not None:
                    if not (isinstance(val, tuple) and val[1] is t):
                        out.append(k)
                elif isinstance(v, Ref) and isinstance(self.st.heap[v.loc], DictV):
                    if self.st.heap[v.loc].d:
                        out.append(k)
                elif not (val == iv):
                    out.append(k)
        return out


def new_engine(repo, onto=None):
    return Engine(repo, onto or Onto())


def place(eng, v, st):
    if isinstance(v, DictV):
        v = DictV({k: place(eng, x, st) for k, x in v.d.items()}, v.base)
    elif isinstance(v, ListV):
        v = ListV([place(eng, x, st) for x in v.xs])
    if isinstance(v, (ArrV, ListV, DictV)):
        return eng.new_loc(v, st)
    if isinstance(v, TB().Table):
        return v.build(eng, st)
    return v


def run_method(repo, cls, name, args=None, pre=None, onto=None, eng=None, overrides=None, objs=None, facts=None, touch=()):
    eng = eng or new_engine(repo, onto)
    f, mod = repo.method(cls, name)
    if overrides:
        eng.overrides.update(overrides)
    st = State({}, {})
    eng.curmod = mod
    eng.curcls = repo.cls_of(f)
    eng.curfile.append(repo.file_of(mod))
    me = eng.new_loc(ObjV(cls, {}, 'self'), st)
    if objs:
        for k, (c, nm) in objs.items():
            r = eng.new_loc(ObjV(c, {}, nm), st)
            eng.setattr(me, k, r, st)
    if pre:
        for k, v in pre.items():
            v = place(eng, v, st)
            at = dict(st.heap[me.loc].attrs)
            at[k] = v
            st.heap[me.loc] = ObjV(cls, at, 'self')
    kw = {}
    for k, v in (args or {}).items():
        if isinstance(v, ArrV):
            v = eng.new_loc(v, st)
        elif isinstance(v, TB().Table):
            v = v.build(eng, st)
        elif callable(v) and not isinstance(v, N):
            v = v(eng, st)
        elif isinstance(v, (DictV, ListV)):
            v = eng.new_loc(v, st)
        kw[k] = v
    names = [a.arg for a in f.args.args + f.args.kwonlyargs]
    if not f.args.kwarg:
        kw = {k: v for k, v in kw.items() if k in names}
    if facts:
        for c, v in facts:
            eng.learn(st, c, v)
    for a in touch:
        if eng.onto.attr('self', a) is not None and not (pre and a in pre):
            eng.getattr(me, a, st, None)
    fv = Func(f, mod, bound=me)
    init = st.copy()
    try:
        st.ret = eng.call_func(fv, [me], kw, st, f)
    except (Unsupported, TooBig) as e:
        eng.unmodelled.append('%s %s' % (repo.file_of(mod), e))
        st.ret = Poison(str(e))
        st.heap[me.loc] = ObjV(cls, {'*': Poison(str(e))}, 'self')
    return Effect(eng, st, me, init)


def run_func(repo, mod, name, args, eng=None, onto=None, facts=None, st=None):
    """args: list of values"""
    eng = eng or new_engine(repo, onto)
    fv = repo.lookup(mod, name)
    if fv is None:
        raise Vanished('%s.%s' % (mod, name))
    st = st or State({}, {})
    eng.curmod = mod
    eng.curcls = None
    eng.curfile.append(repo.file_of(mod))
    vs = []
    for v in args:
        if isinstance(v, (ArrV, DictV, ListV)):
            v = eng.new_loc(v, st)
        vs.append(v)
    if facts:
        for c, v in facts:
            eng.learn(st, c, v)
    r = eng.call_func(fv, vs, {}, st, fv.node)
    st.ret = r
    return eng, st, r, vs
