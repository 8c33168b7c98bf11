"""Gated value-numbering dataflow over the Python syntax tree (no execution).

Every expression is given a value number (terms.py).  Control-flow joins become gated
values (ite), loops become maps / sums / scatters / recurrences over a bound index, calls
to functions whose source is in the package are inlined, anything else is a *poison* value
that makes every result depending on it undecided (never a violation)."""
import ast
from fractions import Fraction as Fr
from . import terms as T
from . import decide as D
from .terms import *

COND = ('sg', 'ba', 'and', 'or', 'not', 'T', 'F')


class Unsupported(Exception):
    pass


class Ref:
    __slots__ = ('loc', 'view')

    def __init__(self, loc, view=None):
        self.loc = loc
        self.view = view      # None or tuple per base-dim: ('i', term) | ('s', start, len)

    def __repr__(self):
        return 'Ref(%s%s)' % (self.loc, ',' + str(self.view) if self.view else '')

    def __eq__(self, o):
        return isinstance(o, Ref) and o.loc == self.loc and o.view == self.view

    def __hash__(self):
        return hash((self.loc, self.view))


class ArrV:
    __slots__ = ('dims', 'content', 'mask', 'label')

    def __init__(self, dims, content, mask=None, label='tmp'):
        self.dims = tuple(dims)
        self.content = content
        self.mask = mask
        self.label = label

    def __eq__(self, o):
        return isinstance(o, ArrV) and self.dims == o.dims and self.content is o.content and self.mask is o.mask

    def __hash__(self):
        return hash((self.dims, self.content, self.mask))

    def __repr__(self):
        return 'Arr%s{%s}%s' % (self.dims, self.content, ' mask ' + str(self.mask) if self.mask else '')


class ObjV:
    __slots__ = ('cls', 'attrs', 'name')

    def __init__(self, cls, attrs, name):
        self.cls = cls
        self.attrs = attrs
        self.name = name


MUTATORS = {'append', 'appendleft', 'pop', 'popleft', 'insert', 'extend', 'update', 'setdefault', 'clear', 'remove', 'sort', 'reverse', 'fill', 'add', 'discard', 'resize', 'put'}


class DictV:
    __slots__ = ('d', 'base')

    def __init__(self, d, base=None):
        self.d = d
        self.base = base


class ListV:
    __slots__ = ('xs',)

    def __init__(self, xs):
        self.xs = list(xs)


class Ext:
    """opaque external value, structurally named"""
    __slots__ = ('node',)

    def __init__(self, node):
        self.node = node

    def __repr__(self):
        return 'Ext(%s)' % (self.node,)

    def __eq__(self, o):
        return isinstance(o, Ext) and o.node is self.node

    def __hash__(self):
        return hash(self.node)


class StrSym:
    __slots__ = ('name',)

    def __init__(self, name):
        self.name = name

    def __eq__(self, o):
        return isinstance(o, StrSym) and o.name == self.name

    def __hash__(self):
        return hash(self.name)


class Func:
    __slots__ = ('node', 'mod', 'bound', 'vec', 'name')

    def __init__(self, node, mod, bound=None, vec=False, name=None):
        self.node = node
        self.mod = mod
        self.bound = bound
        self.vec = vec
        self.name = name or node.name

    def __eq__(self, o):
        return isinstance(o, Func) and o.node is self.node and o.bound == self.bound

    def __hash__(self):
        return hash(id(self.node))


class ModV:
    __slots__ = ('path',)

    def __init__(self, path):
        self.path = path

    def __eq__(self, o):
        return isinstance(o, ModV) and o.path == self.path

    def __hash__(self):
        return hash(self.path)


class ClsV:
    __slots__ = ('name', 'mod')

    def __init__(self, name, mod):
        self.name, self.mod = name, mod


class SuperV:
    __slots__ = ('loc', 'after')

    def __init__(self, loc, after):
        self.loc, self.after = loc, after


class Choice:
    """one of two functions, by a condition"""
    __slots__ = ('c', 'a', 'b')

    def __init__(self, c, a, b):
        self.c, self.a, self.b = c, a, b


class Poison:
    __slots__ = ('why',)

    def __init__(self, why):
        self.why = why
        D.POISONSEEN.add('poison')

    def __eq__(self, o):
        return isinstance(o, Poison)

    def __hash__(self):
        return 7


def restrict(t, m):
    """t where the condition m holds"""
    q = {}
    todo = [(m, True)]
    while todo:
        c, v = todo.pop()
        if c.kind == 'not':
            todo.append((c.args[0], not v))
        elif c.kind == 'sg':
            s = set(c.args[1])
            a = s if v else {-1, 0, 1} - s
            q[c.args[0]] = a & q[c.args[0]] if c.args[0] in q else a
        elif c.kind == 'ba':
            q[c] = v
        elif (c.kind == 'or' and not v) or (c.kind == 'and' and v):
            todo += [(x, v) for x in c.args[0]]
    return rewrite(t, {}, q) if q else t


def pterm(why):
    D.POISONSEEN.add('poison')
    return A(mk('poison', why))


class State:
    __slots__ = ('env', 'heap', 'facts', 'status', 'ret')

    def __init__(self, env, heap, facts=None):
        self.env = env
        self.heap = heap
        self.facts = facts or {}
        self.status = 'ok'
        self.ret = None

    def copy(self):
        s = State(dict(self.env), dict(self.heap), dict(self.facts))
        s.status = self.status
        s.ret = self.ret
        return s


MISSING = object()


def TB():
    from . import tables
    return tables


TPARTS = ('series', 'tindex', 'tcols', 'tloc', 'tgroup', 'tgroupcol', 'str')


def small(t, lim):
    seen, todo = set(), [t]
    while todo:
        x = todo.pop()
        if isinstance(x, N):
            if id(x) not in seen:
                seen.add(id(x))
                if len(seen) > lim:
                    return False
                todo.extend(x.args)
        elif isinstance(x, tuple):
            todo.extend(x)
    return True


class Engine:
    def __init__(self, repo, onto, specmod=None):
        self.repo = repo
        self.onto = onto
        self.nloc = 0
        self.nloop = 0
        self.depth = 0
        self.findings = []      # index-space findings
        self.space_checks = 0
        self.called = set()
        self.unmodelled = []
        self.loopspace = {}
        self.curfile = []
        self.inlined = 0
        self.branches = 0
        self.stores = 0
        self.dead = []
        self.counts = {}        # number of selected elements -> (dense dims, mask)
        self.compvar = {}       # loop variable over selected elements -> mask
        self.overrides = {}     # function name -> python callable(engine, st, args, kw, node)
        self.writes_log = None

    # ------------------------------------------------------------------ helpers
    def new_loc(self, v, st):
        self.nloc += 1
        st.heap[self.nloc] = v
        return Ref(self.nloc)

    def where(self, node):
        return '%s:%s' % (self.curfile[-1] if self.curfile else '?', getattr(node, 'lineno', '?'))

    def unsup(self, node, why):
        self.unmodelled.append('%s %s' % (self.where(node), why))
        return Poison('%s %s' % (self.where(node), why))

    def space(self, n):
        a = as_atom(n)
        if a is not None and a.kind == 'sym' and a.args[0] == 'N':
            return a.args[1]
        return None

    def idx_space(self, t):
        """index space of an index term or None"""
        if t.kind != 'poly':
            return None
        sp = None
        for m, c in t.args[0]:
            if m == ():
                continue
            if len(m) != 1 or m[0][1] != 1 or c != 1:
                return None
            a = m[0][0]
            if a.kind in ('loop',):
                s = self.loopspace.get(a)
            elif a.kind == 'sel':
                s = self.onto.codomain(a.args[0])
            else:
                s = None
            if s is None or sp is not None:
                return None
            sp = s
        return sp

    def check_space(self, arr, d, idx, node, idxsp=None):
        want = self.space(arr.dims[d])
        got = idxsp or self.idx_space(idx)
        if want and got:
            self.space_checks += 1
            if want != got and not self.onto.space_compat(want, got):
                self.findings.append((self.where(node), 'array %s over [%s] is indexed with an index of kind [%s]' % (arr.label, want, got)))

    # ------------------------------------------------------------------ array access
    def arr(self, v, st):
        """ArrV for a value (Ref/ArrV/Ext) or None"""
        if isinstance(v, ArrV):
            return v
        if isinstance(v, Ref):
            h = st.heap[v.loc]
            if isinstance(h, ArrV):
                if v.view is None:
                    return h
                return self._view(h, v.view)
        if isinstance(v, Ext):
            return ArrV((A(mk('fn', 'len', v.node)),), A(mk('sel', v.node, elt(0))), None, 'ext')
        if isinstance(v, Ref) and isinstance(st.heap[v.loc], ListV):
            xs = st.heap[v.loc].xs
            xs = [self.scalar(x, st) for x in xs]
            if all(isinstance(x, N) and x.kind == 'poly' for x in xs):
                c = ZERO
                for i, x in enumerate(xs):
                    c = ite(sg(sub(elt(0), const(i)), {0}), x, c)
                return ArrV((const(len(xs)),), c)
        return None

    def _view(self, h, view):
        m = {}
        dims = []
        e = 0
        for i, w in enumerate(view):
            if w[0] == 'i':
                m[ELT[i]] = w[1]
            else:
                m[ELT[i]] = add(elt(e), w[1])
                dims.append(w[2])
                e += 1
        m = {k: v for k, v in m.items() if as_atom(v) is not k}
        return ArrV(dims, rewrite(h.content, m) if m else h.content, None, h.label)

    def scalar(self, v, st):
        """term for value; bools stay Cond"""
        if isinstance(v, N):
            return v
        if isinstance(v, bool):
            return TRUE if v else FALSE
        if isinstance(v, (int, Fr)):
            return const(v)
        if isinstance(v, float):
            return const(Fr(repr(v)))
        if isinstance(v, Poison):
            return pterm(v.why)
        if isinstance(v, Ext):
            return A(v.node) if v.node.kind != 'poly' else v.node
        a = self.arr(v, st)
        if a is not None and a.dims == ():
            return a.content
        return None

    def num(self, t):
        if t.kind in COND:
            return ite(t, ONE, ZERO)
        return t

    def cond(self, v, st):
        """truth value of v as Cond"""
        if isinstance(v, bool):
            return TRUE if v else FALSE
        if v is None:
            return FALSE
        if isinstance(v, N):
            if v.kind in COND:
                return v
            if is_const(v):
                return TRUE if cval(v) != 0 else FALSE
            a = as_atom(v)
            if a is not None and a.kind in ('sym', 'ext', 'poison'):
                if a.kind == 'poison':
                    return mk('ba', 'truthy', v)
            return sg(v, {-1, 1})
        if isinstance(v, str):
            return TRUE if v else FALSE
        if isinstance(v, (StrSym,)):
            return notc(batom('streq', v.name, ''))
        if isinstance(v, tuple):
            return TRUE if v else FALSE
        if isinstance(v, Ref):
            h = st.heap[v.loc]
            if isinstance(h, ListV):
                return TRUE if h.xs else FALSE
            if isinstance(h, DictV):
                if h.base is not None:
                    return batom('truthy', h.base)
                return TRUE if h.d else FALSE
            if isinstance(h, ObjV):
                return TRUE
        if isinstance(v, Ext):
            return batom('truthy', v.node)
        if isinstance(v, Poison):
            return batom('truthy', pterm(v.why))
        if isinstance(v, (Func, ModV, ClsV)):
            return TRUE
        return batom('truthy', pterm('truth of ' + type(v).__name__))

    # ------------------------------------------------------------------ merging
    @staticmethod
    def is_callable(v):
        return isinstance(v, (Func, Choice)) or (isinstance(v, tuple) and bool(v) and v[0] in ('method', 'builtin'))

    def mite(self, c, a, b, dims, mask=None):
        """if any(m): x[m] = ...   is x[m] = ...: without a selected element both branches agree"""
        k, x, y = c, a, b
        if k.kind == 'not':
            k, x, y = k.args[0], b, a
        if k.kind == 'ba' and k.args[0] == 'any' and len(k.args) == 2:
            n = k.args[1]
            if n.kind == 'ext' and n.args[0] in ('arr', 'marr') and n.args[1] == tuple(dims) and len(dims) == 1:
                m = lam_apply(n.args[2], elt(0))
                if n.args[0] == 'marr':
                    m = andc(m, lam_apply(n.args[3], elt(0)))
                E = ite(m, ZERO, sub(self.num(x), self.num(y)))
                if mask is not None:
                    E = ite(mask, E, ZERO)
                if E is ZERO:
                    return x
                try:
                    if small(E, 400) and D.Decider(800).zero(E).kind == 'zero':
                        return x
                except TooBig:
                    pass
        return ite(c, a, b)

    def merge_val(self, c, a, b, sa, sb, st):
        if a is b:
            return a
        try:
            if a == b:
                return a
        except Exception:
            pass
        if a is MISSING:
            return b if not isinstance(b, Ref) else b
        if b is MISSING:
            return a
        ta = self._sc(a)
        tb = self._sc(b)
        if ta is not None and tb is not None:
            if (ta.kind in COND) != (tb.kind in COND):
                ta, tb = self.num(ta), self.num(tb)
            return ite(c, ta, tb)
        if isinstance(a, (Ref, ArrV)) or isinstance(b, (Ref, ArrV)):
            xa = self.arr(a, sa) if isinstance(a, (Ref, ArrV)) else None
            xb = self.arr(b, sb) if isinstance(b, (Ref, ArrV)) else None
            if xa is not None and xb is not None and xa.dims == xb.dims and xa.mask is xb.mask:
                ca, cb = xa.content, xb.content
                if (ca.kind in COND) != (cb.kind in COND):
                    ca, cb = self.num(ca), self.num(cb)
                return self.new_loc(ArrV(xa.dims, self.mite(c, ca, cb, xa.dims, xa.mask), xa.mask, xa.label), st)
            if xa is not None and xb is not None and len(xa.dims) == len(xb.dims):
                # e.g. merging with an empty default
                return self.new_loc(ArrV(xa.dims, ite(c, self.num(xa.content), self.num(xb.content)), None, xa.label), st)
            if xa is not None and tb is not None and len(xa.dims):
                return self.new_loc(ArrV(xa.dims, ite(c, self.num(xa.content), self.num(tb)), xa.mask, xa.label), st)
            if xb is not None and ta is not None and len(xb.dims):
                return self.new_loc(ArrV(xb.dims, ite(c, self.num(ta), self.num(xb.content)), xb.mask, xb.label), st)
        if isinstance(a, Ext) or isinstance(b, Ext):
            na = self._node(a)
            nb = self._node(b)
            if na is not None and nb is not None:
                return Ext(mk('ext', 'phi', c, na, nb))
        if self.is_callable(a) and self.is_callable(b):
            return Choice(c, a, b)
        if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b):
            return tuple(self.merge_val(c, x, y, sa, sb, st) for x, y in zip(a, b))
        return Poison('join of %s and %s' % (type(a).__name__, type(b).__name__))

    def _sc(self, v):
        if isinstance(v, N):
            return v
        if isinstance(v, bool):
            return TRUE if v else FALSE
        if isinstance(v, (int, float, Fr)):
            return const(Fr(repr(v)) if isinstance(v, float) else v)
        if isinstance(v, Poison):
            return pterm(v.why)
        return None

    def _node(self, v):
        if isinstance(v, Ext):
            return v.node
        if isinstance(v, N):
            return v
        if v is None:
            return mk('ext', 'None')
        if isinstance(v, str):
            return mk('ext', 'str', v)
        if isinstance(v, StrSym):
            return mk('ext', 'strsym', v.name)
        s = self._sc(v)
        if s is not None:
            return s
        if isinstance(v, tuple):
            xs = [self._node(x) for x in v]
            if all(x is not None for x in xs):
                return mk('ext', 'tuple', tuple(xs))
        return None

    def node_of(self, v, st):
        n = self._node(v)
        if n is not None:
            return n
        a = self.arr(v, st) if isinstance(v, (Ref, ArrV)) else None
        if a is not None:
            l = lam(len(a.dims), a.content)
            return mk('ext', 'arr', tuple(a.dims), l) if a.mask is None else mk('ext', 'marr', tuple(a.dims), l, lam(len(a.dims), a.mask))
        if isinstance(v, Ref):
            h = st.heap[v.loc]
            if isinstance(h, ListV):
                return mk('ext', 'list', tuple(self.node_of(x, st) for x in h.xs))
            if isinstance(h, DictV):
                return mk('ext', 'dict', tuple((str(k), self.node_of(x, st)) for k, x in sorted(h.d.items(), key=lambda kv: str(kv[0]))), h.base if h.base is not None else '')
            if isinstance(h, ObjV):
                return mk('ext', 'obj', h.name)
        if isinstance(v, ModV):
            return mk('ext', 'mod', v.path)
        if isinstance(v, Func):
            return mk('ext', 'func', v.name)
        if isinstance(v, slice):
            return mk('ext', 'slice', *[self.node_of(x, st) if x is not None else '' for x in (v.start, v.stop, v.step)])
        if isinstance(v, ClsV):
            return mk('ext', 'cls', v.name)
        return pterm('opaque ' + type(v).__name__)

    def merge(self, c, sa, sb):
        """state where c -> sa else sb"""
        if c is TRUE:
            return sa
        if c is FALSE:
            return sb
        st = State({}, {}, {k: v for k, v in sa.facts.items() if sb.facts.get(k) == v})
        st.status = sa.status
        for loc in set(sa.heap) | set(sb.heap):
            ha = sa.heap.get(loc)
            hb = sb.heap.get(loc)
            if ha is None or hb is None or ha is hb:
                st.heap[loc] = ha if ha is not None else hb
                continue
            if isinstance(ha, ArrV) and isinstance(hb, ArrV):
                if ha == hb:
                    st.heap[loc] = ha
                elif len(ha.dims) == len(hb.dims) and ha.mask is hb.mask:
                    ca, cb = ha.content, hb.content
                    if (ca.kind in COND) != (cb.kind in COND):
                        ca, cb = self.num(ca), self.num(cb)
                    st.heap[loc] = ArrV(ha.dims, self.mite(c, ca, cb, ha.dims, ha.mask), ha.mask, ha.label)
                else:
                    st.heap[loc] = ArrV(ha.dims, pterm('join of arrays'), None, ha.label)
            else:
                st.heap[loc] = (ha, hb)   # fix below (needs other locs)
        for loc, h in list(st.heap.items()):
            if isinstance(h, tuple):
                ha, hb = h
                if isinstance(ha, ObjV) and isinstance(hb, ObjV):
                    at = {}
                    for k in set(ha.attrs) | set(hb.attrs):
                        if k in ha.attrs and k in hb.attrs:
                            at[k] = self.merge_val(c, ha.attrs[k], hb.attrs[k], sa, sb, st)
                        else:
                            # attribute materialised lazily or written in only one branch
                            x, y = ha.attrs.get(k, MISSING), hb.attrs.get(k, MISSING)
                            present, ps = (x, sa) if x is not MISSING else (y, sb)
                            init = self.onto_value(ha.name, k, st)
                            if init is MISSING:
                                at[k] = present
                            else:
                                st2 = st
                                if x is MISSING:
                                    at[k] = self.merge_val(c, init, y, st2, sb, st)
                                else:
                                    at[k] = self.merge_val(c, x, init, sa, st2, st)
                                # lazily read only: keep alias
                                if isinstance(present, Ref) and isinstance(init, Ref):
                                    pa = ps.heap.get(present.loc)
                                    ia = st.heap.get(init.loc)
                                    if isinstance(pa, ArrV) and isinstance(ia, ArrV) and pa == ia:
                                        at[k] = present
                    st.heap[loc] = ObjV(ha.cls, at, ha.name)
                elif isinstance(ha, DictV) and isinstance(hb, DictV):
                    d = {}
                    for k in list(ha.d) + [k for k in hb.d if k not in ha.d]:
                        if k in ha.d and k in hb.d:
                            d[k] = self.merge_val(c, ha.d[k], hb.d[k], sa, sb, st)
                        elif ha.base is not None:
                            x = ha.d.get(k, self.dict_base_get(ha.base, k))
                            y = hb.d.get(k, self.dict_base_get(ha.base, k))
                            d[k] = self.merge_val(c, x, y, sa, sb, st)
                        else:
                            d[k] = Poison('dict key on one branch')
                    st.heap[loc] = DictV(d, ha.base)
                elif isinstance(ha, ListV) and isinstance(hb, ListV) and len(ha.xs) == len(hb.xs):
                    st.heap[loc] = ListV([self.merge_val(c, x, y, sa, sb, st) for x, y in zip(ha.xs, hb.xs)])
                else:
                    st.heap[loc] = ListV([Poison('join')])
        for k in set(sa.env) | set(sb.env):
            a, b = sa.env.get(k, MISSING), sb.env.get(k, MISSING)
            st.env[k] = self.merge_val(c, a, b, sa, sb, st)
        if sa.status == 'ret':
            st.ret = self.merge_val(c, sa.ret, sb.ret, sa, sb, st)
        return st

    def merge_alts(self, alts):
        """alts: [(pc, st)] same status, exclusive pcs"""
        pc, s = alts[0]
        for p2, s2 in alts[1:]:
            s = self.merge(pc, s, s2)
            pc = orc(pc, p2)
        return pc, s

    def dict_full(self, ref, st):
        """the dictionary with every entry explicit (None when its keys are not known)"""
        h = st.heap[ref.loc]
        if h.base is None:
            return h
        ks = self.onto.dict_keys(h.base)
        if ks is None:
            return None
        d = {}
        for k in list(ks) + [k for k in h.d if k not in ks]:
            if k in h.d:
                d[k] = h.d[k]
            else:
                v = self.dict_base_get(h.base, k)
                if v is None:
                    return None
                d[k] = self.new_loc(v, st) if isinstance(v, ArrV) else v
        nd = DictV(d, h.base)
        st.heap[ref.loc] = nd
        return nd

    def dict_base_get(self, base, k):
        v = self.onto.dict_item(base, k)
        if v is None:
            return Ext(mk('ext', 'item', base, mk('ext', 'str', k) if isinstance(k, str) else k))
        return v

    # ------------------------------------------------------------------ statements
    def run(self, stmts, st):
        done = []
        pc = TRUE
        for s in stmts:
            outs = self.stmt(s, st)
            oks = [(p, x) for p, x in outs if x.status == 'ok']
            for p, x in outs:
                if x.status not in ('ok', 'dead'):
                    done.append((andc(pc, p), x))
            if not oks:
                break
            if len(oks) == 1 and oks[0][0] is TRUE:
                st = oks[0][1]
            else:
                p, st = self.merge_alts(oks)
                alive = [p for p, x in outs if x.status != 'dead']
                if len(alive) == len(oks):
                    p = TRUE
                pc = andc(pc, p)
        else:
            done.append((pc, st))
        # group by status
        by = {}
        for p, x in done:
            by.setdefault(x.status, []).append((p, x))
        return [self.merge_alts(v) for v in by.values()]

    def stmt(self, s, st):
        k = type(s).__name__
        m = getattr(self, 's_' + k, None)
        if m is None:
            self.havoc(s, st, 'statement ' + k)
            return [(TRUE, st)]
        try:
            r = m(s, st)
            return r if r is not None else [(TRUE, st)]
        except Unsupported as e:
            self.havoc(s, st, str(e))
            return [(TRUE, st)]
        except TooBig:
            self.havoc(s, st, 'expression too large')
            return [(TRUE, st)]

    def havoc(self, s, st, why):
        p = self.unsup(s, why)
        for n in ast.walk(s):
            if isinstance(n, ast.Name):
                if isinstance(n.ctx, (ast.Store, ast.Del)):
                    st.env[n.id] = p
                else:
                    v = st.env.get(n.id)
                    if isinstance(v, Ref) and isinstance(st.heap[v.loc], ArrV):
                        # may have been mutated if it is the target of a store / argument of a call
                        pass
            if isinstance(n, (ast.Subscript, ast.Attribute)) and isinstance(n.ctx, ast.Store):
                try:
                    self.poison_target(n, st, p)
                except Exception:
                    pass
            if isinstance(n, ast.Call):
                for a in n.args:
                    try:
                        v = self.ev(a, st) if isinstance(a, (ast.Name, ast.Attribute)) else None
                    except Exception:
                        v = None
                    self.poison_val(v, st, p)
                f = n.func
                nm = f.id if isinstance(f, ast.Name) else f.attr if isinstance(f, ast.Attribute) else None
                ment = self.repo.mentioned(nm) if nm else ()
                if ment:
                    self.poison_attrs(ment, st, p)
                if isinstance(f, ast.Attribute) and isinstance(f.value, (ast.Name, ast.Attribute)):
                    # a container the statement may have changed
                    try:
                        v = self.ev(f.value, st)
                    except Exception:
                        v = None
                    if isinstance(v, Ref) and isinstance(st.heap[v.loc], (ListV, DictV)) and nm in MUTATORS:
                        if isinstance(f.value, ast.Name):
                            st.env[f.value.id] = p
                        else:
                            self.poison_target(f.value, st, p)
                    elif nm in MUTATORS:
                        self.poison_val(v, st, p)

    def poison_attrs(self, names, st, p):
        for loc, h in list(st.heap.items()):
            if isinstance(h, ObjV):
                at = dict(h.attrs)
                for k in names:
                    if k not in at:
                        try:
                            iv = None if h.cls and self.repo.find_method(h.cls, k) else self.onto_value(h.name, k, st)
                        except Exception:
                            iv = None
                        if iv is None or iv is MISSING:
                            continue
                        at[k] = p
                        continue
                    v = at[k]
                    if isinstance(v, Ref) and isinstance(st.heap[v.loc], ObjV):
                        continue
                    self.poison_val(v, st, p)
                    at[k] = p
                st.heap[loc] = ObjV(h.cls, at, h.name)

    def poison_val(self, v, st, p):
        if isinstance(v, Ref):
            h = st.heap[v.loc]
            if isinstance(h, ArrV):
                st.heap[v.loc] = ArrV(h.dims, pterm(p.why), None, h.label)

    def poison_target(self, n, st, p):
        if isinstance(n, ast.Subscript):
            v = self.ev(n.value, st)
            self.poison_val(v, st, p)
        else:
            o = self.ev(n.value, st)
            if isinstance(o, Ref) and isinstance(st.heap[o.loc], ObjV):
                self.setattr(o, n.attr, p, st)

    def s_Pass(self, s, st):
        return None

    s_Import = s_ImportFrom = s_Global = s_Nonlocal = s_Pass

    def s_Expr(self, s, st):
        if isinstance(s.value, ast.Constant):
            return None
        self.ev(s.value, st)

    def s_Assert(self, s, st):
        return None

    def s_Delete(self, s, st):
        for t in s.targets:
            if isinstance(t, ast.Name):
                st.env.pop(t.id, None)
            else:
                raise Unsupported('delete')

    def s_Return(self, s, st):
        st.ret = self.ev(s.value, st) if s.value is not None else None
        st.status = 'ret'

    def s_Raise(self, s, st):
        st.status = 'dead'

    def s_Continue(self, s, st):
        st.status = 'cont'

    def s_Break(self, s, st):
        st.status = 'break'

    def s_FunctionDef(self, s, st):
        st.env[s.name] = Func(s, self.curmod)

    def s_Try(self, s, st):
        outs = self.run(s.body, st)
        res = []
        for p, x in outs:
            if x.status == 'ok' and s.finalbody:
                for p2, y in self.run(s.finalbody, x):
                    res.append((andc(p, p2), y))
            else:
                res.append((p, x))
        return res

    def s_With(self, s, st):
        for it in s.items:
            v = self.ev(it.context_expr, st)
            if it.optional_vars is not None:
                self.assign(it.optional_vars, v, st)
        return self.run(s.body, st)

    def s_Assign(self, s, st):
        v = self.ev(s.value, st)
        for t in s.targets:
            self.assign(t, v, st)

    def s_AnnAssign(self, s, st):
        if s.value is not None:
            self.assign(s.target, self.ev(s.value, st), st)

    def s_AugAssign(self, s, st):
        t = s.target
        if isinstance(t, ast.Name):
            cur = self.ev(ast.Name(t.id, ast.Load()), st)
            v = self.ev(s.value, st)
            if isinstance(cur, Ref) and isinstance(st.heap[cur.loc], ArrV):
                r = self.binop(s.op, cur, v, st, s)
                self.store_whole(cur, r, st, s)
            elif isinstance(cur, Ref) and isinstance(st.heap[cur.loc], ListV):
                r = self.arr(v, st)
                raise Unsupported('list +=')
            else:
                st.env[t.id] = self.binop(s.op, cur, v, st, s)
        elif isinstance(t, ast.Attribute):
            o = self.ev(t.value, st)
            cur = self.getattr(o, t.attr, st, t)
            v = self.ev(s.value, st)
            r = self.binop(s.op, cur, v, st, s)
            if isinstance(cur, Ref) and isinstance(st.heap[cur.loc], ArrV):
                self.store_whole(cur, r, st, s)
            else:
                self.setattr(o, t.attr, r, st)
        elif isinstance(t, ast.Subscript):
            base = self.ev(t.value, st)
            idx = self.ev_index(t.slice, st)
            cur = self.getitem(base, idx, st, t)
            v = self.ev(s.value, st)
            if isinstance(s.op, (ast.Add, ast.Sub)) and isinstance(base, Ref) and isinstance(st.heap[base.loc], ArrV) and self._point(idx, st, base):
                tv = self.scalar(v, st)
                if tv is not None:
                    tv = self.num(tv)
                    self.store_add(base, idx, tv if isinstance(s.op, ast.Add) else neg(tv), st, t)
                    return
            r = self.binop(s.op, cur, v, st, s)
            self.setitem(base, idx, r, st, t)
        else:
            raise Unsupported('augmented target')

    def s_If(self, s, st):
        c = self.cond(self.ev(s.test, st), st)
        if st.facts:
            c = rewrite(c, {}, st.facts)
        if c is TRUE:
            return self.run(s.body, st)
        if c is FALSE:
            return self.run(s.orelse, st)
        self.branches += 1
        a = st.copy()
        b = st.copy()
        self.learn(a, c, True)
        self.learn(b, c, False)
        outs = []
        for p, x in self.run(s.body, a):
            x.facts = dict(st.facts) if x.status == 'ok' else x.facts
            outs.append((andc(c, p), x))
        nc = notc(c)
        for p, x in self.run(s.orelse, b):
            x.facts = dict(st.facts) if x.status == 'ok' else x.facts
            outs.append((andc(nc, p), x))
        alive = [o for o in outs if o[1].status != 'dead']
        if not alive:
            st.status = 'dead'
            return [(TRUE, st)]
        # order so that merge uses the plain condition
        return alive

    def learn(self, st, c, val):
        if c.kind == 'sg':
            s = set(c.args[1])
            st.facts[c.args[0]] = (st.facts.get(c.args[0], {-1, 0, 1})) & (s if val else {-1, 0, 1} - s)
        elif c.kind == 'ba':
            st.facts[c] = val
        elif c.kind == 'not':
            self.learn(st, c.args[0], not val)
        elif c.kind == 'and' and val:
            for x in c.args[0]:
                self.learn(st, x, True)
        elif c.kind == 'or' and not val:
            for x in c.args[0]:
                self.learn(st, x, False)

    # ------------------------------------------------------------------ assignment
    def assign(self, t, v, st):
        if isinstance(t, ast.Name):
            st.env[t.id] = v
        elif isinstance(t, (ast.Tuple, ast.List)):
            xs = self.unpack(v, len(t.elts), st, t)
            for a, b in zip(t.elts, xs):
                self.assign(a, b, st)
        elif isinstance(t, ast.Attribute):
            o = self.ev(t.value, st)
            self.setattr(o, t.attr, v, st)
        elif isinstance(t, ast.Subscript):
            base = self.ev(t.value, st)
            idx = self.ev_index(t.slice, st)
            self.setitem(base, idx, v, st, t)
        elif isinstance(t, ast.Starred):
            raise Unsupported('starred target')

    def unpack(self, v, n, st, node):
        if isinstance(v, tuple) and len(v) == n:
            return list(v)
        if isinstance(v, Ref) and isinstance(st.heap[v.loc], ListV) and len(st.heap[v.loc].xs) == n:
            return list(st.heap[v.loc].xs)
        a = self.arr(v, st) if isinstance(v, (Ref, ArrV)) else None
        if a is not None and a.mask is None and a.dims and is_const(a.dims[0]) and cval(a.dims[0]) == n:
            return [self.getitem(v, const(i), st, node) for i in range(n)]
        if isinstance(v, Ext):
            return [Ext(mk('ext', 'item', v.node, const(i))) for i in range(n)]
        p = v if isinstance(v, Poison) else self.unsup(node, 'unpack')
        return [p] * n

    def setattr(self, o, name, v, st):
        if isinstance(o, Ref) and isinstance(st.heap[o.loc], ObjV):
            h = st.heap[o.loc]
            prop = self.repo.find_method(h.cls, name + '.setter') if h.cls else None
            if prop is not None:
                self.call_func(Func(prop[0], prop[1]), [o, v], {}, st, None)
                return
            if isinstance(v, Ref) and isinstance(st.heap[v.loc], ArrV) and st.heap[v.loc].label == 'tmp':
                x = st.heap[v.loc]
                st.heap[v.loc] = ArrV(x.dims, x.content, x.mask, name)
            if isinstance(v, ArrV):
                v = self.new_loc(ArrV(v.dims, v.content, v.mask, name), st)
            at = dict(h.attrs)
            at[name] = v
            st.heap[o.loc] = ObjV(h.cls, at, h.name)
            if self.writes_log is not None:
                self.writes_log.append((h.name, name))
            return
        if isinstance(o, Ext):
            self.ext_event(('setattr', o.node, name), st)
            return
        if isinstance(o, Ref) and isinstance(st.heap[o.loc], TB().TableV) and name == 'index':
            return TB().setcol(self, o, st.heap[o.loc], TB().INDEX, v, st, None)
        raise Unsupported('attribute store on ' + type(o).__name__)

    def ext_event(self, ev, st):
        pass

    def onto_value(self, objname, attr, st):
        v = self.onto.attr(objname, attr)
        if v is None:
            return MISSING
        if isinstance(v, ArrV):
            return self.new_loc(v, st)
        if isinstance(v, DictV):
            return self.new_loc(v, st)
        if isinstance(v, ObjV):
            return self.new_loc(v, st)
        return v

    def getattr(self, o, name, st, node):
        if isinstance(o, Ref):
            h = st.heap[o.loc]
            if isinstance(h, ObjV):
                if name in h.attrs:
                    return h.attrs[name]
                if h.cls:
                    f = self.repo.find_method(h.cls, name)
                    if f is not None:
                        fn_, mod = f
                        if self.repo.is_property(fn_):
                            return self.call_func(Func(fn_, mod), [o], {}, st, node)
                        return Func(fn_, mod, bound=None if self.repo.is_static(fn_) else o)
                v = self.onto_value(h.name, name, st)
                if v is not MISSING:
                    at = dict(st.heap[o.loc].attrs)
                    at[name] = v
                    st.heap[o.loc] = ObjV(h.cls, at, h.name)
                    return v
                return self.unsup(node, 'unknown attribute %s.%s' % (h.name, name))
            return self.heap_attr(o, h, name, st, node)
        if isinstance(o, ArrV):
            return self.heap_attr(o, o, name, st, node)
        if isinstance(o, Ext):
            if name == 'eps' and o.node.args[:2] == ('lib', 'numpy.finfo'):
                return sym('eps')
            if name in ('values',):
                return Ext(mk('ext', 'attr', o.node, name)) if not self.onto.strip_values else o
            return Ext(mk('ext', 'attr', o.node, name))
        if isinstance(o, ModV):
            return self.mod_attr(o, name, node)
        if isinstance(o, SuperV):
            h = st.heap[o.loc.loc]
            f = self.repo.find_method(h.cls, name, after=o.after)
            if f is not None:
                return Func(f[0], f[1], bound=None if self.repo.is_static(f[0]) else o.loc)
            return self.unsup(node, 'super attribute ' + name)
        if isinstance(o, N):
            if name == 'size':
                return ONE
            if name == 'ndim':
                return ZERO
            return ('method', o, name)
        if isinstance(o, Poison):
            return o
        if isinstance(o, str) or isinstance(o, StrSym):
            return ('method', o, name)
        if isinstance(o, tuple) and o and o[0] == 'constdict':
            return ('method', self.new_loc(DictV(self.repo.const_dict(o[1], o[2])), st), name)
        if isinstance(o, tuple) and o and o[0] in TPARTS:
            return TB().tuple_attr(self, o, name, st, node)
        if isinstance(o, Func):
            return o
        if isinstance(o, ClsV):
            f = self.repo.find_method(o.name, name)
            if f is not None:
                return Func(f[0], f[1], bound=o if self.repo.is_classm(f[0]) else None)
        return self.unsup(node, 'attribute %s of %s' % (name, type(o).__name__))

    def count_of(self, a):
        """number of elements a mask selects; an array of that length is again a compressed array"""
        t = A(mk('fn', 'count', lam(len(a.dims), a.mask)))
        self.counts[t] = (a.dims, a.mask)
        return t

    def same_mask(self, m1, m2):
        if m1 is m2:
            return True
        if m1 is None or m2 is None:
            return False
        return D.Decider().equal(ite(m1, ONE, ZERO), ite(m2, ONE, ZERO)).kind == 'zero'

    def comp_index(self, a, idx, st):
        """reading / storing one element of a compressed array inside a loop over the selected elements"""
        t = self._sc(idx) if not isinstance(idx, slice) else None
        v = as_atom(t) if t is not None and t.kind == 'poly' else None
        return len(a.dims) == 1 and v is not None and v in self.compvar and self.same_mask(rewrite(a.mask, {ELT[0]: t}), self.compvar[v])

    def heap_attr(self, o, h, name, st, node):
        if isinstance(h, TB().TableV):
            return TB().getattr_(self, o, h, name, st, node)
        if isinstance(h, ArrV):
            a = self.arr(o, st)
            if name == 'size':
                if a.mask is not None:
                    return self.count_of(a)
                r = ONE
                for d in a.dims:
                    r = mul(r, d)
                return r
            if name == 'shape':
                if a.mask is not None:
                    return (self.count_of(a),)
                return tuple(a.dims)
            if name == 'T':
                if len(a.dims) == 2:
                    c = rewrite(a.content, {ELT[0]: elt(1), ELT[1]: elt(0)})
                    return self.new_loc(ArrV((a.dims[1], a.dims[0]), c, None, a.label), st)
                return o
            if name == 'ndim':
                return const(len(a.dims))
            if name == 'values':
                return o
            if name == 'dtype':
                return Ext(mk('ext', 'dtype'))
            if name == 'str':
                return ('str', o)
            if name == 'index' and len(a.dims) == 1:
                return self.new_loc(ArrV(a.dims, elt(0), a.mask, 'index'), st)
        if isinstance(h, ListV) and name == 'size':
            return const(len(h.xs))
        return ('method', o, name)

    # ------------------------------------------------------------------ subscripts
    def ev_index(self, sl, st):
        if isinstance(sl, ast.Tuple):
            return tuple(self.ev_index(x, st) for x in sl.elts)
        if isinstance(sl, ast.Slice):
            return slice(*(None if x is None else self.ev(x, st) for x in (sl.lower, sl.upper, sl.step)))
        return self.ev(sl, st)

    def _point(self, idx, st, base):
        b = self.arr(base, st)
        if b is None:
            return False
        xs = idx if isinstance(idx, tuple) else (idx,)
        if len(xs) != len(b.dims):
            return False
        for x in xs:
            t = self._sc(x)
            if t is None or t.kind in COND:
                return False
        return True

    def bound_idx(self, t, dim):
        """index that is negative whatever the counters are -> from the end"""
        if is_const(t):
            return add(dim, t) if cval(t) < 0 else t
        c = dict(t.args[0]).get((), 0)
        if c < 0 and all(k < 0 and all(e > 0 and a.kind in ('loop', 'bv') for a, e in m) for m, k in t.args[0]):
            return add(dim, t)
        return t

    def slice_of(self, sl, dim, st):
        """-> (start, len, ok)"""
        if sl.step is not None:
            stp = self._sc(sl.step)
            if stp is None or not is_const(stp) or cval(stp) != 1:
                raise Unsupported('strided slice')
        lo = self._sc(sl.start) if sl.start is not None else ZERO
        hi = self._sc(sl.stop) if sl.stop is not None else dim
        if lo is None or hi is None:
            raise Unsupported('slice bounds')
        lo = self.bound_idx(lo, dim)
        hi = self.bound_idx(hi, dim)
        return lo, sub(hi, lo)

    def maskidx(self, idx, st):
        """a structural mask (`_is_start` ...) selects the same entries as its index array"""
        if isinstance(idx, (Ref, ArrV)):
            a = self.arr(idx, st)
            if a is not None and a.mask is None and len(a.dims) == 1 and a.content.kind in COND:
                v = self.onto.mask_index(a.content)
                if v is not None:
                    return self.new_loc(v, st)
        return idx

    def getitem(self, base, idx, st, node):
        if isinstance(base, Poison):
            return base
        if isinstance(base, tuple) and base and base[0] == 'constdict':
            if isinstance(idx, str):
                d = self.repo.const_dict(base[1], base[2])
                if idx in d:
                    return d[idx]
                return Poison('missing key %r of %s' % (idx, base[2]))
            return Ext(mk('ext', 'item', mk('ext', 'global', base[2]), self.node_of(idx, st)))
        idx = self.maskidx(idx, st)
        if TB().is_table(base, st):
            return TB().getitem(self, base, st.heap[base.loc], idx, st, node)
        if isinstance(base, tuple) and base and base[0] == 'tloc':
            return TB().tloc_get(self, base, idx, st, node)
        if isinstance(base, tuple) and base and base[0] == 'tgroup' and isinstance(idx, str):
            return ('tgroupcol', base[1], base[2], idx)
        if isinstance(base, tuple):
            t = self._sc(idx)
            if t is not None and t.kind in COND and len(base) == 2:
                return base[1] if t is TRUE else base[0] if t is FALSE else self.merge_val(t, base[1], base[0], st, st, st)
            if t is not None and is_const(t):
                i = int(cval(t))
                if -len(base) <= i < len(base):
                    return base[i]
            if isinstance(idx, slice):
                f = lambda x: None if x is None else int(cval(self._sc(x)))
                return base[slice(f(idx.start), f(idx.stop), f(idx.step))]
            return self.unsup(node, 'tuple index')
        if isinstance(base, Ref):
            h = st.heap[base.loc]
            if isinstance(h, ListV):
                t = self._sc(idx)
                if t is not None and t.kind in COND and len(h.xs) == 2:
                    return h.xs[1] if t is TRUE else h.xs[0] if t is FALSE else self.merge_val(t, h.xs[1], h.xs[0], st, st, st)
                if t is not None and is_const(t):
                    i = int(cval(t))
                    if -len(h.xs) <= i < len(h.xs):
                        return h.xs[i]
                return self.unsup(node, 'list index')
            if isinstance(h, DictV):
                if h.base is None and not isinstance(idx, (str, StrSym)):
                    t = self._sc(idx)
                    if t is not None and t.kind in COND and '1' in h.d and '0' in h.d:
                        return h.d['1'] if t is TRUE else h.d['0'] if t is FALSE else self.merge_val(t, h.d['1'], h.d['0'], st, st, st)
                    if t is not None and is_const(t) and str(cval(t)) in h.d:
                        return h.d[str(cval(t))]
                k = idx if isinstance(idx, str) else idx.name if isinstance(idx, StrSym) else None
                if isinstance(idx, str) and idx in h.d:
                    return h.d[idx]
                if h.base is not None and isinstance(idx, str):
                    v = self.dict_base_get(h.base, idx)
                    if isinstance(v, ArrV):
                        v = self.new_loc(v, st)
                        h2 = DictV(dict(h.d), h.base)
                        h2.d[idx] = v
                        st.heap[base.loc] = h2
                    return v
                if h.base is not None:
                    n = self.node_of(idx, st)
                    return Ext(mk('ext', 'item', h.base, n))
                return self.unsup(node, 'dict key')
        if isinstance(base, Ext):
            return Ext(mk('ext', 'item', base.node, self.node_of(idx, st) if not isinstance(idx, tuple) else mk('ext', 'tuple', tuple(self.node_of(x, st) for x in idx))))
        a = self.arr(base, st)
        if a is None:
            t = self._sc(base)
            if t is not None:
                # 0-d / scalar used as array
                return self.unsup(node, 'index of scalar')
            return self.unsup(node, 'index of %s' % type(base).__name__)
        xs = list(idx) if isinstance(idx, tuple) else [idx]
        # mask indexing
        if len(xs) == 1 and not isinstance(xs[0], slice):
            x = xs[0]
            xa = self.arr(x, st) if not isinstance(x, N) else None
            if xa is None and isinstance(x, Poison):
                return x
            if xa is not None and xa.content.kind in COND and xa.content.kind not in ('T', 'F') or (xa is not None and xa.content.kind in ('T', 'F')):
                if len(xa.dims) != len(a.dims):
                    return self.unsup(node, 'mask rank')
                m = xa.content
                if not self.same_mask(a.mask, xa.mask):
                    return self.unsup(node, 'mask of another length')
                self.same_space(a, xa, node)
                if a.mask is not None:
                    m = andc(a.mask, m)
                return self.new_loc(ArrV(a.dims, restrict(a.content, m), m, a.label), st)
        if len(xs) == 1 and len(a.dims) == 1 and a.mask is None and isinstance(xs[0], Ref) and isinstance(st.heap[xs[0].loc], ListV):
            ts = [self._sc(t) for t in st.heap[xs[0].loc].xs]
            if all(t is not None and is_const(t) for t in ts):
                c = ZERO
                for i, t in enumerate(ts):
                    x = rewrite(a.content, {ELT[0]: self.bound_idx(t, a.dims[0])})
                    c = ite(sg(sub(elt(0), const(i)), {0}), x, c)
                return self.new_loc(ArrV((const(len(ts)),), c, None, a.label), st)
        # general
        view = []
        m = {}
        dims = []
        content_mask = None
        adv = None
        allsimple = True
        if a.mask is not None:
            t = xs[0] if len(xs) == 1 else None
            if isinstance(t, slice) and t.start is None and t.stop is None and t.step is None:
                return base
            if t is not None and self.comp_index(a, t, st):
                return rewrite(a.content, {ELT[0]: self._sc(t)})
            xa = self.arr(t, st) if isinstance(t, (Ref, ArrV)) else None
            if xa is not None and xa.mask is not None and len(xa.dims) == 1:
                p = as_atom(xa.content)
                if p is not None and p.kind == 'pos' and self.same_mask(rewrite(p.args[0].args[1], {p.args[0].args[0][0]: elt(0)}), a.mask) and p.args[1] is elt(0):
                    return self.new_loc(ArrV(a.dims, a.content, xa.mask, a.label), st)
            return self.unsup(node, 'index of compressed array')
        pos = 0
        plan = []
        if any(x is Ellipsis for x in xs):
            return self.unsup(node, 'ellipsis')
        newax = [i for i, x in enumerate(xs) if x is None]
        if newax:
            return self.newaxis(a, xs, st, node)
        if len(xs) > len(a.dims):
            return self.unsup(node, 'too many indices')
        while len(xs) < len(a.dims):
            xs.append(slice(None, None, None))
        advs = []
        for d, x in enumerate(xs):
            if isinstance(x, slice):
                lo, ln = self.slice_of(x, a.dims[d], st)
                plan.append(('s', lo, ln))
            else:
                xa = None
                t = None
                if isinstance(x, (Ref, ArrV, Ext)) and not isinstance(x, N):
                    if isinstance(x, Ext):
                        t = A(x.node)
                    else:
                        xa = self.arr(x, st)
                else:
                    t = self._sc(x)
                if xa is not None and xa.dims == ():
                    t = xa.content
                    xa = None
                if xa is not None:
                    if len(xa.dims) != 1:
                        return self.unsup(node, 'index array rank')
                    if xa.content.kind in COND:
                        return self.unsup(node, 'mixed mask index')
                    advs.append((d, xa))
                    plan.append(('a', xa))
                elif t is not None:
                    t = self.num(t)
                    t = self.bound_idx(t, a.dims[d])
                    self.check_space(a, d, t, node)
                    plan.append(('i', t))
                else:
                    return self.unsup(node, 'index of kind %s' % type(x).__name__)
        if not advs:
            if all(p[0] == 'i' for p in plan):
                return self.read(a, [p[1] for p in plan])
            if isinstance(base, Ref) and base.view is None and isinstance(st.heap[base.loc], ArrV):
                return Ref(base.loc, tuple(plan))
            v = self._view(a, plan)
            return self.new_loc(v, st)
        # advanced: all index arrays share one output dim (first position)
        n = advs[0][1].dims[0]
        mask = None
        m = {}
        outdims = []
        e = 0
        placed = False
        for d, p in enumerate(plan):
            if p[0] == 'i':
                m[ELT[d]] = p[1]
            elif p[0] == 's':
                m[ELT[d]] = ('s', p[1], p[2])
            else:
                xa = p[1]
                cs = self.onto_codomain_content(xa.content, xa)
                self.check_space(a, d, ZERO, node, cs)
                if xa.mask is not None:
                    mask = xa.mask
                m[ELT[d]] = ('a', xa)
        rm = {}
        for d, p in enumerate(plan):
            v = m[ELT[d]]
            if p[0] == 'i':
                rm[ELT[d]] = v
            elif p[0] == 'a':
                if not placed:
                    placed = True
                    apos = e
                    outdims.append(n)
                    e += 1
                c = v[1].content
                if apos:
                    c = rewrite(c, {ELT[0]: elt(apos)})
                rm[ELT[d]] = c
            else:
                rm[ELT[d]] = add(elt(e), v[1])
                outdims.append(v[2])
                e += 1
        rm = {k: v for k, v in rm.items() if as_atom(v) is not k}
        c = rewrite(a.content, rm) if rm else a.content
        if mask is not None and apos:
            return self.unsup(node, 'masked advanced index position')
        return self.new_loc(ArrV(outdims, c, mask, a.label), st)

    def newaxis(self, a, xs, st, node):
        rm = {}
        dims = []
        d = 0
        for x in xs:
            if x is None:
                dims.append(ONE)
            elif isinstance(x, slice) and x.start is None and x.stop is None and x.step is None:
                rm[ELT[d]] = elt(len(dims))
                dims.append(a.dims[d])
                d += 1
            else:
                return self.unsup(node, 'newaxis mix')
        while d < len(a.dims):
            rm[ELT[d]] = elt(len(dims))
            dims.append(a.dims[d])
            d += 1
        return self.new_loc(ArrV(dims, rewrite(a.content, {k: v for k, v in rm.items() if as_atom(v) is not k}), None, a.label), st)

    def onto_codomain_content(self, c, xa):
        if c.kind != 'poly':
            return None
        a = as_atom(c)
        if a is not None and a.kind == 'elt':
            return self.space(xa.dims[0])
        sp = None
        for m, k in c.args[0]:
            if m == ():
                continue
            if len(m) != 1 or m[0][1] != 1:
                return None
            b = m[0][0]
            s = self.onto.codomain(b.args[0]) if b.kind == 'sel' else (self.space(xa.dims[0]) if b.kind == 'elt' else None)
            if s is None or sp is not None:
                return None
            sp = s
        return sp

    def same_space(self, a, b, node):
        for x, y in zip(a.dims, b.dims):
            s, t = self.space(x), self.space(y)
            if s and t:
                self.space_checks += 1
                if s != t and not self.onto.space_compat(s, t):
                    self.findings.append((self.where(node), 'elementwise combination of an array over [%s] (%s) with one over [%s] (%s)' % (s, a.label, t, b.label)))

    def read(self, a, idx):
        m = {ELT[d]: t for d, t in enumerate(idx) if as_atom(t) is not ELT[d]}
        return rewrite(a.content, m) if m else a.content

    def store_whole(self, ref, val, st, node):
        """ref[...] = val in place"""
        if ref.view is not None:
            h = st.heap[ref.loc]
            idx = []
            for w in ref.view:
                idx.append(w[1] if w[0] == 'i' else slice(w[1], add(w[1], w[2]), None))
            self.setitem(Ref(ref.loc), tuple(idx), val, st, node)
            return
        h = st.heap[ref.loc]
        va = self.arr(val, st) if not isinstance(val, N) else None
        if va is not None and len(va.dims) == len(h.dims):
            self.same_space(h, va, node)
            st.heap[ref.loc] = ArrV(h.dims, va.content, h.mask, h.label)
            return
        t = self._sc(val)
        if t is None and va is not None and va.dims == ():
            t = va.content
        if t is None:
            st.heap[ref.loc] = ArrV(h.dims, pterm('store'), h.mask, h.label)
            return
        st.heap[ref.loc] = ArrV(h.dims, t, h.mask, h.label)

    def store_add(self, base, idx, delta, st, node):
        idx = self.maskidx(idx, st)
        h, xs = self._resolve_store(base, idx, st, node)
        eqs = []
        for d, x in enumerate(xs):
            t = self.bound_idx(self._sc(x), h.dims[d])
            self.check_space(h, d, t, node)
            eqs.append(sg(sub(elt(d), t), {0}))
        self.stores += 1
        c = add(self.num(h.content), ite(andc(*eqs), delta, ZERO))
        st.heap[base.loc] = ArrV(h.dims, c, h.mask, h.label)

    def _resolve_store(self, base, idx, st, node):
        h = st.heap[base.loc]
        xs = list(idx) if isinstance(idx, tuple) else [idx]
        if base.view is not None:
            ys = []
            it = iter(xs)
            for w in base.view:
                if w[0] == 'i':
                    ys.append(w[1])
                else:
                    x = next(it, slice(None, None, None))
                    if isinstance(x, slice):
                        lo, ln = self.slice_of(x, w[2], st)
                        ys.append(slice(add(w[1], lo), add(w[1], lo, ln), None))
                    else:
                        t = self._sc(x)
                        if t is None:
                            raise Unsupported('store through view')
                        ys.append(add(w[1], t))
            xs = ys
        return h, xs

    def setitem(self, base, idx, v, st, node):
        idx = self.maskidx(idx, st)
        if isinstance(base, Poison):
            return
        if isinstance(base, Ext):
            self.ext_event(('setitem', base.node), st)
            # rebind structurally if the target is a simple name/attribute
            n = mk('ext', 'setitem', base.node, self.node_of(idx, st) if not isinstance(idx, tuple) else mk('ext', 'tuple', tuple(self.node_of(x, st) for x in idx)), self.node_of(v, st))
            self.rebind(node.value if isinstance(node, ast.Subscript) else None, Ext(n), st)
            return
        if isinstance(base, tuple) and base and base[0] == 'tloc':
            return TB().tloc_set(self, base, idx, v, st, node)
        if not isinstance(base, Ref):
            raise Unsupported('store into %s' % type(base).__name__)
        h = st.heap[base.loc]
        if isinstance(h, TB().TableV):
            if isinstance(idx, str):
                return TB().setcol(self, base, h, idx, v, st, node)
            raise Unsupported('table store')
        if isinstance(h, DictV):
            if not isinstance(idx, str) and h.base is None:
                t = self._sc(idx)
                idx = idx if t is None else str(cval(t)) if is_const(t) else t
            if isinstance(idx, (str, N)):
                d = dict(h.d)
                d[idx] = v
                st.heap[base.loc] = DictV(d, h.base)
                return
            raise Unsupported('dict store with symbolic key')
        if isinstance(h, ListV):
            t = self._sc(idx)
            if t is not None and is_const(t):
                xs = list(h.xs)
                xs[int(cval(t))] = v
                st.heap[base.loc] = ListV(xs)
                return
            raise Unsupported('list store')
        self.stores += 1
        h, xs = self._resolve_store(base, idx, st, node)
        if isinstance(v, Poison):
            st.heap[base.loc] = ArrV(h.dims, pterm(v.why), h.mask, h.label)
            return
        # whole
        if len(xs) == 1 and isinstance(xs[0], slice) and xs[0].start is None and xs[0].stop is None and xs[0].step is None or (len(xs) == 1 and xs[0] is Ellipsis):
            self.store_whole(Ref(base.loc), v, st, node)
            return
        # mask
        if len(xs) == 1 and not isinstance(xs[0], slice):
            xa = self.arr(xs[0], st) if isinstance(xs[0], (Ref, ArrV)) else None
            if xa is not None and (xa.content.kind in COND):
                self.same_space(h, xa, node)
                m = xa.content
                if not self.same_mask(xa.mask, h.mask):
                    raise Unsupported('mask of another length')
                vt = self._val_for_mask(v, m if h.mask is None else andc(h.mask, m), h, st, node)
                c = h.content
                if (vt.kind in COND) != (c.kind in COND):
                    vt, c = self.num(vt), self.num(c)
                st.heap[base.loc] = ArrV(h.dims, ite(m, vt, c), h.mask, h.label)
                return
        if h.mask is not None and not (len(xs) == 1 and self.comp_index(h, xs[0], st)):
            raise Unsupported('store into a compressed array')
        if len(xs) == 1 and h.mask is None and isinstance(xs[0], (Ref, ArrV)):
            xa = self.arr(xs[0], st)
            if xa is not None and xa.mask is not None and xa.content is elt(0) and xa.dims == h.dims:
                # positions of the selected elements: the same as storing through the mask
                vt = self._val_for_mask(v, xa.mask, h, st, node)
                c = h.content
                if (vt.kind in COND) != (c.kind in COND):
                    vt, c = self.num(vt), self.num(c)
                st.heap[base.loc] = ArrV(h.dims, ite(xa.mask, vt, c), h.mask, h.label)
                return
        if len(xs) > len(h.dims):
            raise Unsupported('store rank')
        while len(xs) < len(h.dims):
            xs.append(slice(None, None, None))
        conds = []
        back = {}     # elt of value -> expression in elt of target
        e = 0
        adv = []
        for d, x in enumerate(xs):
            if isinstance(x, slice):
                lo, ln = self.slice_of(x, h.dims[d], st)
                if lo is not ZERO:
                    conds.append(sg(sub(elt(d), lo), {0, 1}))
                if add(lo, ln) is not h.dims[d]:
                    conds.append(sg(sub(elt(d), add(lo, ln)), {-1}))
                back[e] = sub(elt(d), lo)
                e += 1
                continue
            xa = self.arr(x, st) if isinstance(x, (Ref, ArrV)) else None
            if xa is not None and xa.dims == ():
                x = xa.content
                xa = None
            if xa is not None:
                adv.append((d, xa))
                continue
            t = A(x.node) if isinstance(x, Ext) else self._sc(x)
            if t is None:
                raise Unsupported('store index %s' % type(x).__name__)
            t = self.bound_idx(self.num(t), h.dims[d])
            self.check_space(h, d, t, node)
            conds.append(sg(sub(elt(d), t), {0}))
        if adv:
            self.store_scatter(base, h, xs, adv, v, st, node)
            return
        va = self.arr(v, st) if not isinstance(v, N) else None
        if va is not None and va.dims:
            if va.mask is not None:
                raise Unsupported('store of compressed array')
            if len(va.dims) != e:
                raise Unsupported('store shape')
            vt = rewrite(va.content, {ELT[i]: back[i] for i in range(e) if as_atom(back[i]) is not ELT[i]})
        else:
            vt = self._sc(v) if va is None else va.content
            if vt is None and isinstance(v, Ext):
                vt = A(v.node)
            if vt is None:
                raise Unsupported('stored value %s' % type(v).__name__)
        c = h.content
        if (vt.kind in COND) != (c.kind in COND):
            if c.kind in ('T', 'F') or not self._isundef(c):
                vt, c = self.num(vt), self.num(c)
            else:
                c = FALSE
        # x[i] = x[i] + delta  ->  additive
        if vt.kind == 'poly' and c.kind == 'poly' and e == 0:
            pts = {}
            for d, x in enumerate(xs):
                t = A(x.node) if isinstance(x, Ext) else self._sc(x) if not isinstance(x, (Ref, ArrV)) else self.arr(x, st).content
                pts[ELT[d]] = self.bound_idx(self.num(t), h.dims[d])
            here = rewrite(c, {k: w for k, w in pts.items() if as_atom(w) is not k})
            dl = sub(vt, here)
            if self._curs(here) and not (self._curs(dl) & self._curs(here)):
                st.heap[base.loc] = ArrV(h.dims, add(c, ite(andc(*conds), dl, ZERO)), h.mask, h.label)
                return
        st.heap[base.loc] = ArrV(h.dims, ite(andc(*conds), vt, c), h.mask, h.label)

    def _isundef(self, c):
        a = as_atom(c) if c.kind == 'poly' else None
        return a is not None and a.kind == 'undef'

    def _curs(self, t):
        return {a for a in t.leaves if a.kind == 'cur'}

    def _val_for_mask(self, v, m, h, st, node):
        va = self.arr(v, st) if isinstance(v, (Ref, ArrV)) else None
        if va is not None and va.dims:
            if va.mask is None:
                # full-length value stored through a mask: only valid when mask is all true; flag
                if va.dims == h.dims:
                    raise Unsupported('unmasked value stored through a mask')
                raise Unsupported('mask store shape')
            if va.mask is not m:
                d = D.Decider().equal(ite(va.mask, ONE, ZERO), ite(m, ONE, ZERO))
                if d.kind != 'zero':
                    raise Unsupported('store between different masks')
            self.same_space(h, va, node)
            return va.content
        if va is not None:
            return va.content
        t = self._sc(v)
        if t is None and isinstance(v, Ext):
            t = A(v.node)
        if t is None:
            raise Unsupported('masked store of %s' % type(v).__name__)
        return t

    def store_scatter(self, base, h, xs, adv, v, st, node, additive=False):
        n = adv[0][1].dims[0]
        if len(h.dims) != len(xs):
            raise Unsupported('scatter rank')
        self.nloop += 1
        lv = mk('loop', self.nloop)
        self.loopspace[lv] = self.space(n)
        guard = TRUE
        idx = []
        for d, x in enumerate(xs):
            a = dict(adv).get(d)
            if a is not None:
                self.check_space(h, d, ZERO, node, self.onto_codomain_content(a.content, a))
                idx.append(rewrite(a.content, {ELT[0]: A(lv)}))
                if a.mask is not None:
                    guard = andc(guard, rewrite(a.mask, {ELT[0]: A(lv)}))
            elif isinstance(x, slice):
                raise Unsupported('scatter with slice')
            else:
                idx.append(self._sc(x))
        va = self.arr(v, st) if isinstance(v, (Ref, ArrV)) else None
        if va is not None and va.dims:
            if len(va.dims) != 1:
                raise Unsupported('scatter value rank')
            val = rewrite(va.content, {ELT[0]: A(lv)})
        else:
            val = self._sc(v) if va is None else va.content
            if val is None:
                raise Unsupported('scatter value')
        eq = andc(*[sg(sub(elt(d), t), {0}) for d, t in enumerate(idx)])
        if additive:
            c = add(self.num(h.content), bigsum(n, lv, ite(andc(eq, guard), self.num(val), ZERO)))
            st.heap[base.loc] = ArrV(h.dims, c, h.mask, h.label)
            return
        if len(idx) == 1 and guard is TRUE and not additive and PERM and idx[0].kind == 'poly':
            a = as_atom(idx[0])
            if a is not None and a.kind == 'sel' and a.args[0] in PERM and a.args[1] is A(lv) and n is h.dims[0]:
                st.heap[base.loc] = ArrV(h.dims, rewrite(val, {lv: A(mk('sel', PERM[a.args[0]], elt(0)))}), h.mask, h.label)
                return
        # identity index
        if len(idx) == 1 and idx[0] is A(lv):
            m = {lv: elt(0)}
            val2 = rewrite(val, m)
            g2 = rewrite(guard, m)
            c = h.content
            if (val2.kind in COND) != (c.kind in COND):
                val2, c = self.num(val2), self.num(c)
            if n is not h.dims[0]:
                g2 = andc(g2, sg(sub(elt(0), n), {-1}))
            st.heap[base.loc] = ArrV(h.dims, ite(g2, val2, c), h.mask, h.label)
            return
        st.heap[base.loc] = ArrV(h.dims, self.mk_upd(n, lv, idx, guard, val, h), h.mask, h.label)

    def mk_upd(self, n, lv, idx, guard, val, h):
        im = self.onto.index_of_mask(idx[0], lv) if len(idx) == 1 else None
        if im is not None:
            # the index array lists exactly the elements satisfying a mask: a masked store
            node, cond = im
            m = {node: elt(0)}
            v2, g2 = rewrite(val, m), rewrite(guard, m)
            if not any(x is lv for x in all_atoms(v2)) and not any(x is lv for x in all_atoms(g2)):
                c = h.content
                if (v2.kind in COND) != (c.kind in COND):
                    v2, c = self.num(v2), self.num(c)
                return ite(andc(cond, g2), v2, c)
        isb = val.kind in COND or h.content.kind in COND and h.content.kind not in ('poly',)
        old = lam(len(h.dims), h.content)
        (bv,), bodies = close([lv], *(list(idx) + [guard, val]))
        node = mk('updspec', n, bv, tuple(bodies[:-2]), bodies[-2], bodies[-1], old)
        args = [elt(d) for d in range(len(h.dims))]
        if val.kind in COND:
            return upd_b(node, *args)
        return upd_n(node, *args)

    def rebind(self, target, v, st):
        if isinstance(target, ast.Name):
            st.env[target.id] = v
        elif isinstance(target, ast.Attribute):
            o = self.ev(target.value, st)
            if isinstance(o, Ref) and isinstance(st.heap[o.loc], ObjV):
                self.setattr(o, target.attr, v, st)
            elif isinstance(o, Ext):
                self.rebind(target.value, Ext(mk('ext', 'setattr', o.node, target.attr, self.node_of(v, st))), st)

    # ------------------------------------------------------------------ loops
    def s_For(self, s, st):
        it = s.iter
        if s.orelse:
            raise Unsupported('for-else')
        # normalise the iterable
        seq = self.ev_iter(it, st)
        if seq[0] == 'concrete':
            p, cur = TRUE, st
            done, exits = [], []
            for x in seq[1]:
                self.assign(s.target, x, cur)
                nxt = []
                for p2, y in self.run(s.body, cur):
                    a = andc(p, p2)
                    if y.status == 'break':
                        y.status = 'ok'
                        exits.append((a, y))
                    elif y.status == 'ret':
                        done.append((a, y))
                    elif y.status in ('ok', 'cont'):
                        y.status = 'ok'
                        nxt.append((a if done or exits else p2, y))
                if not nxt:
                    cur = None
                    break
                p, cur = self.merge_alts(nxt)
                if not done and not exits:
                    p = TRUE
            oks = exits + ([(p, cur)] if cur is not None else [])
            if not oks:
                if not done:
                    st.status = 'dead'
                    return [(TRUE, st)]
                return done
            pm, sm = self.merge_alts(oks)
            return done + [(pm if done else TRUE, sm)]
        n, binder = seq[1], seq[2]
        if n in self.counts and len(self.counts[n][0]) == 1:
            # a loop over the selected elements: all elements, guarded by the mask
            dims, mask = self.counts[n]

            def bind(vt, stx):
                m = rewrite(mask, {ELT[0]: vt})
                self.compvar[as_atom(vt)] = m
                stx.env['*sel'] = m
                self.assign(s.target, binder(vt, stx), stx)
            body = [ast.copy_location(ast.If(test=ast.copy_location(ast.Name('*sel', ast.Load()), s), body=s.body, orelse=[]), s)]
            return self.sym_loop(s, dims[0], bind, body, st)
        return self.sym_loop(s, n, lambda vt, stx: self.assign(s.target, binder(vt, stx), stx), s.body, st)

    def ev_iter(self, it, st):
        """('concrete', [values]) or ('sym', n, binder(vterm, st)->value)"""
        if isinstance(it, ast.Call):
            f = it.func
            nm = f.id if isinstance(f, ast.Name) else (f.attr if isinstance(f, ast.Attribute) else None)
            if nm in ('range', 'prange', 'arange') :
                a = [self.ev(x, st) for x in it.args]
                a = [self._sc(x) for x in a]
                if any(x is None for x in a):
                    raise Unsupported('range bounds')
                lo, hi, step = ZERO, None, ONE
                if len(a) == 1:
                    hi = a[0]
                elif len(a) == 2:
                    lo, hi = a
                else:
                    lo, hi, step = a
                if not is_const(step):
                    raise Unsupported('range step')
                if is_const(lo) and is_const(hi):
                    r = list(range(int(cval(lo)), int(cval(hi)), int(cval(step))))
                    if len(r) <= 24:
                        return ('concrete', [const(i) for i in r])
                if cval(step) == 1:
                    return ('sym', sub(hi, lo), lambda v, s2: add(lo, v))
                if cval(step) == -1:
                    return ('sym', sub(lo, hi), lambda v, s2: sub(lo, v))
                raise Unsupported('range step')
            if nm == 'enumerate' and len(it.args) == 1:
                r = self.ev_iter(it.args[0], st)
                if r[0] == 'concrete':
                    return ('concrete', [(const(i), x) for i, x in enumerate(r[1])])
                return ('sym', r[1], lambda v, s2, r=r: (v, r[2](v, s2)))
            if nm == 'zip':
                rs = [self.ev_iter(x, st) for x in it.args]
                if all(r[0] == 'concrete' for r in rs):
                    return ('concrete', [tuple(x) for x in zip(*[r[1] for r in rs])])
                if all(r[0] == 'sym' for r in rs):
                    return ('sym', rs[0][1], lambda v, s2: tuple(r[2](v, s2) for r in rs))
                raise Unsupported('zip')
        v = self.ev(it, st)
        if isinstance(v, tuple) and not (v and v[0] == 'method'):
            return ('concrete', list(v))
        if isinstance(v, Ref):
            h = st.heap[v.loc]
            if isinstance(h, ListV):
                return ('concrete', list(h.xs))
            if isinstance(h, DictV) and self.dict_full(v, st) is not None:
                return ('concrete', list(self.dict_full(v, st).d))
        if isinstance(v, Poison):
            raise Unsupported('iteration over unmodelled value')
        if isinstance(v, Ext):
            n = A(mk('fn', 'len', v.node))
            return ('sym', n, lambda vt, s2: Ext(mk('ext', 'iter', v.node, vt)))
        a = self.arr(v, st)
        if a is not None and a.dims:
            if a.mask is not None:
                return ('sym', self.count_of(a), lambda vt, s2: rewrite(self.arr(v, s2).content, {ELT[0]: vt}))
            if is_const(a.dims[0]) and cval(a.dims[0]) <= 24:
                return ('concrete', [self.getitem(v, const(i), st, it) for i in range(int(cval(a.dims[0])))])

            def bind(vt, s2):
                x = self.arr(v, s2)
                if len(x.dims) == 1:
                    return self.read(x, [vt])
                return self.getitem(v, vt, s2, it)
            return ('sym', a.dims[0], bind)
        raise Unsupported('iterable')

    def s_While(self, s, st):
        t = s.test
        if not s.orelse:
            r = self.known_while(s, st)
            if r is not None:
                return r
        if not (isinstance(t, ast.Compare) and len(t.ops) == 1 and isinstance(t.ops[0], (ast.Lt, ast.LtE)) and isinstance(t.left, ast.Name)):
            raise Unsupported('while loop')
        var = t.left.id
        init = self._sc(st.env.get(var))
        hi = self._sc(self.ev(t.comparators[0], st))
        if init is None or hi is None:
            raise Unsupported('while bounds')
        n = sub(hi, init)
        if isinstance(t.ops[0], ast.LtE):
            n = add(n, ONE)
        # the counter must be advanced by one at the end of each iteration: checked through its summary
        return self.sym_loop(s, n, None, s.body, st, counter=var)

    def known_while(self, s, st):
        """a loop whose condition is decided in every round"""
        un, fl = list(self.unmodelled), list(self.findings)
        r = self.known_rounds(s, st)
        if r is None:
            self.unmodelled[:], self.findings[:] = un, fl
        return r

    def known_rounds(self, s, st):
        cur = st.copy()
        for round in range(40):
            c = self.ev(s.test, cur)
            if isinstance(c, Poison):
                return None
            c = self.cond(c, cur)
            if cur.facts:
                c = rewrite(c, {}, cur.facts)
            if c is FALSE:
                return [(TRUE, cur)]
            if c is not TRUE or isinstance(s.test, ast.Constant):
                return None
            outs = self.run(s.body, cur)
            if len(outs) != 1 or outs[0][0] is not TRUE or outs[0][1].status not in ('ok', 'cont'):
                return None
            cur = outs[0][1]
            cur.status = 'ok'
        return None

    def sym_loop(self, s, n, bind, body, st, counter=None):
        self.nloop += 1
        lid = self.nloop
        v = mk('loop', lid)
        self.loopspace[v] = self.space(n)
        carried_locs = []
        carried_vars = [counter] if counter else []
        pre_env = dict(st.env)
        pre_heap = dict(st.heap)
        fl, sp, un, ev = list(self.findings), self.space_checks, list(self.unmodelled), None
        for attempt in range(8):
            self.findings = list(fl)
            self.space_checks = sp
            self.unmodelled = list(un)
            s2 = st.copy()
            curs = {}
            nd = {}
            for i, loc in enumerate(carried_locs):
                h = pre_heap[loc]
                ca = mk('cur', lid, i)
                curs[('h', loc)] = ca
                es = [elt(d) for d in range(len(h.dims))]
                c = A(mk('csel', ca, *es)) if self._isnum(loc, h, nd_bool) else batom('csel', ca, *es)
                s2.heap[loc] = ArrV(h.dims, c, h.mask, h.label)
            for i, var in enumerate(carried_vars):
                ca = mk('cur', lid, 1000 + i)
                curs[('v', var)] = ca
                x = self._sc(pre_env[var])
                s2.env[var] = A(mk('csel', ca)) if (x.kind == 'poly' or var in nd_boolvars) else batom('csel', ca)
            if bind:
                bind(A(v), s2)
            tgt_names = set(s2.env) if bind else set()
            outs = self.run(body, s2)
            for p, x in outs:
                if x.status == 'cont':
                    x.status = 'ok'
            if any(x.status in ('break', 'ret') for p, x in outs):
                raise Unsupported('break/return inside loop')
            if not outs:
                raise Unsupported('loop body never completes')
            pc, s3 = self.merge_alts(outs)
            new = False
            for loc, h in s3.heap.items():
                if loc in pre_heap and ('h', loc) not in curs:
                    o = pre_heap[loc]
                    if isinstance(o, ArrV):
                        if h != o:
                            carried_locs.append(loc)
                            new = True
                    elif isinstance(o, ObjV):
                        # attributes rebound inside a loop
                        for k, val in h.attrs.items():
                            if k in o.attrs and not self._same(o.attrs[k], val):
                                raise Unsupported('attribute rebound in loop: ' + k)
                            if k not in o.attrs:
                                iv = self.onto.attr(o.name, k)
                                if iv is None:
                                    raise Unsupported('attribute created in loop: ' + k)
                                # materialise before the loop and retry
                                self.getattr(Ref(loc), k, st, s)
                                pre_heap = dict(st.heap)
                                new = True
                    elif h is not o:
                        if isinstance(o, DictV) and o.base is not None and all(isinstance(x, Ref) or k in o.d for k, x in h.d.items()):
                            st.heap[loc] = h
                            for k, x in h.d.items():
                                if k not in o.d and isinstance(x, Ref):
                                    st.heap[x.loc] = s3.heap[x.loc]
                            pre_heap = dict(st.heap)
                            new = True
                        else:
                            raise Unsupported('container mutated in loop')
            for k, val in s3.env.items():
                if k in pre_env and ('v', k) not in curs:
                    if not self._same(pre_env[k], val):
                        t = self._sc(pre_env[k])
                        if t is None:
                            if isinstance(pre_env[k], Poison) or not self._sc(val) is None or True:
                                # a rebound non-scalar: treat as loop local
                                st.env.pop(k, None)
                                pre_env.pop(k)
                                new = True
                                continue
                        carried_vars.append(k)
                        new = True
            if not new:
                break
        else:
            raise Unsupported('loop summary did not stabilise')
        # results
        F = {}
        for loc in carried_locs:
            F[('h', loc)] = s3.heap[loc].content
        for var in carried_vars:
            F[('v', var)] = self._sc(s3.env[var])
            if F[('v', var)] is None:
                raise Unsupported('loop-carried value of unknown kind')
        # counters / scalar accumulators
        sub_map = {}
        changed = True
        init = {}
        for key in F:
            init[key] = pre_heap[key[1]].content if key[0] == 'h' else self._sc(pre_env[key[1]])
        for key, f in list(F.items()):
            if key[0] == 'v' and f.kind == 'poly':
                g = sub(f, A(mk('csel', curs[key])))
                if is_const(g):
                    sub_map[mk('csel', curs[key])] = add(init[key], mul(g, A(v)))
        if counter:
            cs = mk('csel', curs[('v', counter)])
            if cs not in sub_map or sub_map[cs] is not add(init[('v', counter)], A(v)):
                raise Unsupported('while counter')
        if sub_map:
            for key in F:
                f = F[key]
                F[key] = rewrite(f, sub_map)
        final = {}
        remaining = dict(F)
        curset = set(curs.values())
        # pass A: accumulations
        for key, f in F.items():
            ca = curs[key]
            if f.kind == 'poly':
                es = [elt(d) for d in range(len(pre_heap[key[1]].dims))] if key[0] == 'h' else []
                cs = mk('csel', ca, *es)
                if cs in sub_map:
                    final[key] = rewrite(sub_map[cs], {v: n})
                    remaining.pop(key)
                    continue
                g = sub(f, A(cs))
                if not (g.leaves & curset):
                    i0 = init[key]
                    if i0.kind != 'poly':
                        i0 = self.num(i0)
                    final[key] = add(i0, bigsum(n, v, g))
                    remaining.pop(key)
        # pass B: maps (each cell written by exactly one iteration, v == elt0 - c)
        for _ in range(3):
            prog = False
            for key, f in list(remaining.items()):
                if key[0] != 'h':
                    continue
                r = self._map_form(key, f, curs, curset, v, n, init, pre_heap, F)
                if r is None:
                    r = self._multi_map_form(key, f, curs, curset, v, n, init, pre_heap)
                if r is not None:
                    final[key] = r
                    remaining.pop(key)
                    prog = True
            if not prog:
                break
        # pass C: plain scatter
        for key, f in list(remaining.items()):
            if key[0] != 'h':
                continue
            r = self._scatter_form(key, f, curs, curset, v, n, init, pre_heap)
            if r is not None and not any(curs[key] in g.leaves for k2, g in remaining.items() if k2 != key):
                final[key] = r
                remaining.pop(key)
        # loop-local scalars (assigned before use in each iteration)
        for key, f in list(remaining.items()):
            if key[0] == 'v' and not any(curs[key] in g.leaves for g in remaining.values()):
                final[key] = pterm('value of %s after loop' % key[1])
                remaining.pop(key)
        # pass D: recurrences
        if remaining:
            self._recs(remaining, F, curs, curset, v, n, init, pre_heap, final)
        for key, c in final.items():
            if key[0] == 'h':
                h = pre_heap[key[1]]
                st.heap[key[1]] = ArrV(h.dims, c, h.mask, h.label)
            else:
                st.env[key[1]] = c
        # names bound only inside the loop
        for k, val in s3.env.items():
            if k not in st.env:
                if isinstance(val, Ref) and val.loc in st.heap:
                    st.env[k] = val
                elif isinstance(val, (Func, ModV, ClsV, str)) or val is None:
                    st.env[k] = val
                else:
                    st.env[k] = Poison('loop-local %s used after the loop' % k)
        return [(TRUE, st)]

    def _same(self, a, b):
        if a is b:
            return True
        try:
            return bool(a == b)
        except Exception:
            return False

    def _isnum(self, loc, h, flags):
        if h.content.kind in COND:
            return False
        return True

    def _bool_same(self, a, b):
        try:
            return a.kind not in ('T', 'F') and D.Decider(400).equal(ite(a, ONE, ZERO), ite(b, ONE, ZERO)).kind == 'zero'
        except TooBig:
            return False

    def _map_form(self, key, f, curs, curset, v, n, init, pre_heap, remaining):
        dims = pre_heap[key[1]].dims
        es = [elt(d) for d in range(len(dims))]
        ident = A(mk('csel', curs[key], *es)) if init[key].kind == 'poly' else batom('csel', curs[key], *es)
        for d in range(len(dims)):
            for q in sorted(tests(f), key=lambda q: q.uid):
                if q.kind != 'poly' or v not in q.leaves or ELT[d] not in q.leaves:
                    continue
                sv = solve_for(q, v)
                if sv is None:
                    continue
                off = sub(elt(d), sv)
                if not is_const(off) and (off.leaves & (curset | {v} | set(ELT))):
                    continue
                F1 = rewrite(f, {}, {q: {0}})
                F0 = rewrite(f, {}, {q: {-1, 1}})
                if F0 is not ident:
                    if f.kind not in COND or not self._bool_same(F0, ident):
                        continue
                F1 = rewrite(F1, {v: sv})
                # allowed curs: any cell at an index whose d'th (or sole) position is visited only now
                m = {}
                ok = True
                for a in all_atoms(F1):
                    if a.kind == 'csel' or (a.kind == 'ba' and a.args[0] == 'csel'):
                        cc = a.args[0] if a.kind == 'csel' else a.args[1]
                        idx = a.args[1:] if a.kind == 'csel' else a.args[2:]
                        kk = [k for k in curs if curs[k] is cc]
                        if not kk or kk[0][0] != 'h':
                            if cc in curset:
                                ok = False
                            continue
                        k2 = kk[0]
                        if k2 == key:
                            if all(x is y for x, y in zip(idx, es)):
                                m[a] = init[key]
                            else:
                                ok = False
                        else:
                            # other array: must be written (if at all) only at the same position
                            if self._single_cell(k2, remaining.get(k2), curs, v, sv, idx):
                                m[a] = rewrite(init[k2], {ELT[i]: t for i, t in enumerate(idx) if as_atom(t) is not ELT[i]})
                            else:
                                ok = False
                if not ok:
                    continue
                if m:
                    am = {a: t for a, t in m.items() if a.kind == 'csel'}
                    F1 = rewrite(F1, am)
                    bm = {a: t for a, t in m.items() if a.kind == 'ba'}
                    if bm:
                        F1 = self._subst_ba(F1, bm)
                if F1.leaves & curset:
                    continue
                lo = sg(sv, {0, 1})
                hi = sg(sub(sv, n), {-1})
                if sv is elt(d):
                    lo = TRUE
                    if n is dims[d]:
                        hi = TRUE
                elif is_const(off) and add(n, off) is dims[d]:
                    hi = TRUE
                i0 = init[key]
                if (F1.kind in COND) != (i0.kind in COND):
                    if self._isundef(i0):
                        i0 = FALSE
                    else:
                        F1, i0 = self.num(F1), self.num(i0)
                return ite(andc(lo, hi), F1, i0)
        return None

    def _multi_map_form(self, key, f, curs, curset, v, n, init, pre_heap):
        """every write of the body pins the iteration it happens in: the last iteration that hits a cell wins"""
        dims = pre_heap[key[1]].dims
        if not dims or f.kind != 'poly' or init[key].kind != 'poly':
            return None
        es = [elt(d) for d in range(len(dims))]
        ident = A(mk('csel', curs[key], *es))
        cases = []

        def walk(t, conds):
            if t is ident:
                return True
            a = as_atom(t)
            if a is not None and a.kind == 'ite':
                c = a.args[0]
                parts = c.args[0] if c.kind == 'or' else (c,)
                neg_ = []
                for x in parts:
                    if not walk(a.args[1], conds + neg_ + [x]):
                        return False
                    neg_.append(notc(x))
                return walk(a.args[2], conds + neg_)
            g = andc(*conds)
            if g is FALSE:
                return True
            if (g.leaves | t.leaves) & curset:
                return False
            for x in (g.args[0] if g.kind == 'and' else (g,)):
                if x.kind == 'sg' and x.args[1] == (0,) and v in x.args[0].leaves and (x.args[0].leaves & set(ELT)):
                    sv = solve_for(x.args[0], v)
                    if sv is not None:
                        cases.append((sv, rewrite(g, {v: sv}), rewrite(t, {v: sv})))
                        return len(cases) <= 6
            return False
        if not walk(f, []) or not cases:
            return None
        out = init[key]
        hits = [andc(sg(sv, {0, 1}), sg(sub(sv, n), {-1}), g) for sv, g, t in cases]
        for i, (sv, g, t) in reversed(list(enumerate(cases))):
            last = [orc(notc(hits[j]), sg(sub(cases[j][0], sv), {-1, 0})) for j in range(len(cases)) if j != i and cases[j][0] is not sv]
            out = ite(andc(hits[i], *last), t, out)
        return out

    def _subst_ba(self, t, bm):
        """replace opaque boolean atoms by conditions"""
        out = t
        for a, c in bm.items():
            out1 = rewrite(out, {}, {a: True})
            out0 = rewrite(out, {}, {a: False})
            out = ite(c, out1, out0)
        return out

    def _single_cell(self, k2, f2, curs, v, sv, idx):
        """array k2's cell `idx` (after v := sv) is written only in the iteration v == sv"""
        if f2 is None:
            return False
        dims = len(idx)
        for q in tests(f2):
            if q.kind != 'poly' or v not in q.leaves:
                continue
            for d in range(dims):
                if ELT[d] in q.leaves:
                    s2 = solve_for(q, v)
                    if s2 is None:
                        continue
                    es = [elt(i) for i in range(dims)]
                    ident = mk('csel', curs[k2], *es)
                    F0 = rewrite(f2, {}, {q: {-1, 1}})
                    if F0 is A(ident) or F0 is batom('csel', curs[k2], *es):
                        t = rewrite(s2, {ELT[i]: x for i, x in enumerate(idx)})
                        if t is sv:
                            return True
        return False

    def _scatter_form(self, key, f, curs, curset, v, n, init, pre_heap):
        h = pre_heap[key[1]]
        dims = h.dims
        es = [elt(d) for d in range(len(dims))]
        if len(dims) != 1 or f.kind != 'poly':
            return None
        ident = A(mk('csel', curs[key], *es))
        a = as_atom(f)
        if a is None or a.kind != 'ite' or a.args[2] is not ident:
            return None
        c = a.args[0]
        cs = c.args[0] if c.kind == 'and' else (c,)
        idx = None
        guard = []
        for x in cs:
            if x.kind == 'sg' and x.args[1] == (0,) and ELT[0] in x.args[0].leaves and idx is None:
                t = solve_for(x.args[0], ELT[0])
                if t is not None and not (t.leaves & curset):
                    idx = t
                    continue
            guard.append(x)
        if idx is None:
            return None
        g = andc(*guard)
        val = rewrite(a.args[1], {ELT[0]: idx})
        if (g.leaves | val.leaves) & (curset | {ELT[0]}):
            return None
        return self.mk_upd(n, v, [idx], g, val, h)

    def _recs(self, remaining, F, curs, curset, v, n, init, pre_heap, final):
        keys = list(remaining)
        dep = {k: {j for j in keys if curs[j] in remaining[k].leaves} for k in keys}
        # transitive closure
        reach = {}
        for k in keys:
            seen = set()
            st_ = [k]
            while st_:
                x = st_.pop()
                for y in dep[x]:
                    if y not in seen:
                        seen.add(y)
                        st_.append(y)
            reach[k] = seen | {k}

        def label(k):
            return pre_heap[k[1]].label if k[0] == 'h' else 'var:' + str(k[1])
        for k in keys:
            grp = sorted(reach[k], key=label)
            # non-remaining curs in the bodies (already summarised arrays read elsewhere): cannot express
            allc = set()
            for g in grp:
                allc |= {a for a in remaining[g].leaves if a in curset}
            bad = allc - {curs[g] for g in grp}
            if bad:
                # include summarised ones as extra components
                extra = [kk for kk in curs if curs[kk] in bad]
                grp = sorted(set(grp) | set(extra), key=label)
            fs, inits = [], []
            for g in grp:
                f = remaining.get(g, F[g])
                nd = len(pre_heap[g[1]].dims) if g[0] == 'h' else 0
                fs.append(lam(nd, f))
                inits.append(lam(nd, init[g]))
            bvs, closed = close([v] + [curs[g] for g in grp], *fs)
            comps = []
            for g, cf, ini in zip(grp, closed, inits):
                nd = len(pre_heap[g[1]].dims) if g[0] == 'h' else 0
                comps.append((label(g), nd, ini, cf))
            spec = mk('recspec', n, bvs, tuple(comps))
            nd = len(pre_heap[k[1]].dims) if k[0] == 'h' else 0
            es = [elt(d) for d in range(nd)]
            if init[k].kind == 'poly' and remaining[k].kind == 'poly':
                final[k] = A(mk('rec', grp.index(k), spec, *es))
            else:
                final[k] = batom('rec', grp.index(k), spec, *es)

    # ------------------------------------------------------------------ expressions
    def ev(self, e, st):
        m = getattr(self, 'e_' + type(e).__name__, None)
        if m is None:
            return self.unsup(e, 'expression ' + type(e).__name__)
        return m(e, st)

    def e_Constant(self, e, st):
        v = e.value
        if isinstance(v, bool) or v is None or isinstance(v, str):
            return v
        if v is Ellipsis:
            return Ellipsis
        if isinstance(v, int):
            return const(v)
        if isinstance(v, float):
            return const(Fr(repr(v)))
        return self.unsup(e, 'constant')

    def e_JoinedStr(self, e, st):
        out = ''
        for p in e.values:
            if isinstance(p, ast.Constant):
                out += str(p.value)
            elif isinstance(p, ast.FormattedValue):
                x = self.ev(p.value, st)
                t = self._sc(x)
                if isinstance(x, str):
                    out += x
                elif t is not None and t.kind == 'poly' and is_const(t):
                    c = cval(t)
                    out += str(int(c)) if c.denominator == 1 else str(float(c))
                else:
                    return self.unsup(e, 'f-string')
        return out

    def e_Name(self, e, st):
        if e.id in st.env:
            v = st.env[e.id]
            if v is MISSING:
                return self.unsup(e, 'possibly unbound ' + e.id)
            return v
        return self.global_name(e.id, e)

    def global_name(self, name, node):
        v = self.repo.lookup(self.curmod, name)
        if v is not None:
            return v
        if name in BUILTINS:
            return ('builtin', name)
        return self.unsup(node, 'unknown name ' + name)

    def e_Attribute(self, e, st):
        o = self.ev(e.value, st)
        return self.getattr(o, e.attr, st, e)

    def mod_attr(self, o, name, node):
        v = self.repo.mod_attr(o.path, name)
        if v is not None:
            return v
        full = o.path + '.' + name
        if full in ('numpy.pi', 'math.pi'):
            return A(mk('fn', 'pi'))
        if full in ('numpy.inf', 'math.inf'):
            return A(mk('sym', 'inf'))
        if full in ('numpy.nan', 'math.nan'):
            return A(mk('sym', 'nan'))
        if full in ('numpy.newaxis',):
            return None
        return ModV(full)

    def e_Tuple(self, e, st):
        out = []
        for x in e.elts:
            if isinstance(x, ast.Starred):
                v = self.ev(x.value, st)
                if isinstance(v, tuple):
                    out += list(v)
                else:
                    return self.unsup(e, 'starred')
            else:
                out.append(self.ev(x, st))
        return tuple(out)

    def e_List(self, e, st):
        return self.new_loc(ListV([self.ev(x, st) for x in e.elts]), st)

    def e_Set(self, e, st):
        return self.new_loc(ListV([self.ev(x, st) for x in e.elts]), st)

    def e_Dict(self, e, st):
        d = {}
        for k, v in zip(e.keys, e.values):
            if k is None:
                return self.unsup(e, 'dict spread')
            kk = self.ev(k, st)
            if not isinstance(kk, str):
                t = self._sc(kk)
                if t is TRUE or t is FALSE:
                    kk = '1' if t is TRUE else '0'
                elif t is None:
                    return self.unsup(e, 'dict key')
                elif not is_const(t):
                    kk = t
                else:
                    kk = str(cval(t))
            d[kk] = self.ev(v, st)
        return self.new_loc(DictV(d), st)

    def e_Lambda(self, e, st):
        f = ast.FunctionDef(name='<lambda>', args=e.args, body=[ast.Return(e.body, lineno=e.lineno)], decorator_list=[], lineno=e.lineno)
        fu = Func(f, self.curmod)
        fu.bound = ('closure', dict(st.env))
        return fu

    def e_IfExp(self, e, st):
        c = self.cond(self.ev(e.test, st), st)
        if st.facts:
            c = rewrite(c, {}, st.facts)
        if c is TRUE:
            return self.ev(e.body, st)
        if c is FALSE:
            return self.ev(e.orelse, st)
        a = self.ev(e.body, st)
        b = self.ev(e.orelse, st)
        return self.merge_val(c, a, b, st, st, st)

    def concrete_comp(self, gens, st, emit):
        """runs a comprehension over known elements; False when it is not of that form"""
        if not gens:
            emit()
            return True
        try:
            r = self.ev_iter(gens[0].iter, st)
        except Unsupported:
            return False
        if r[0] != 'concrete':
            return False
        for x in r[1]:
            self.assign(gens[0].target, x, st)
            keep = True
            for c in gens[0].ifs:
                c = self.cond(self.ev(c, st), st)
                if st.facts:
                    c = rewrite(c, {}, st.facts)
                if c is FALSE:
                    keep = False
                    break
                if c is not TRUE:
                    return False
            if keep and not self.concrete_comp(gens[1:], st, emit):
                return False
        return True

    def e_DictComp(self, e, st):
        saved, d = dict(st.env), {}

        def emit():
            k = self.ev(e.key, st)
            if not isinstance(k, (str, int)):
                raise Unsupported('key of a dict comprehension')
            d[k] = self.ev(e.value, st)
        try:
            ok = self.concrete_comp(e.generators, st, emit)
        except Unsupported:
            ok = False
        st.env = saved
        return self.new_loc(DictV(d), st) if ok else self.unsup(e, 'comprehension')

    def e_ListComp(self, e, st):
        if len(e.generators) > 1 or e.generators[0].ifs:
            saved, xs = dict(st.env), []
            ok = self.concrete_comp(e.generators, st, lambda: xs.append(self.ev(e.elt, st)))
            st.env = saved
            return self.new_loc(ListV(xs), st) if ok else self.unsup(e, 'comprehension')
        if len(e.generators) == 1 and not e.generators[0].ifs:
            try:
                r = self.ev_iter(e.generators[0].iter, st)
            except Unsupported:
                return self.unsup(e, 'comprehension')
            saved = dict(st.env)
            if r[0] == 'concrete':
                out = []
                for x in r[1]:
                    self.assign(e.generators[0].target, x, st)
                    out.append(self.ev(e.elt, st))
                st.env = saved
                return self.new_loc(ListV(out), st)
            try:
                self.assign(e.generators[0].target, r[2](elt(0), st), st)
            except Unsupported:
                return self.unsup(e, 'comprehension target')
            x = self.ev(e.elt, st)
            st.env = saved
            t = self.scalar(x, st)
            if t is not None:
                return self.new_loc(ArrV((r[1],), t), st)
        return self.unsup(e, 'comprehension')

    e_GeneratorExp = e_ListComp

    def e_Starred(self, e, st):
        return self.unsup(e, 'starred')

    def e_NamedExpr(self, e, st):
        v = self.ev(e.value, st)
        self.assign(e.target, v, st)
        return v

    def e_UnaryOp(self, e, st):
        v = self.ev(e.operand, st)
        if isinstance(v, Poison):
            return v
        if isinstance(e.op, ast.Not):
            return notc(self.cond(v, st))
        return self.unop(e.op, v, st, e)

    def unop(self, op, v, st, node):
        def f(t):
            if isinstance(op, ast.USub):
                return neg(self.num(t))
            if isinstance(op, ast.UAdd):
                return t
            if isinstance(op, ast.Invert):
                if t.kind in COND:
                    return notc(t)
                a = as_atom(t)
                if a is not None and a.kind == 'sel' and isinstance(a.args[0], N) and a.args[0].kind == 'ext':
                    return notc(batom('truthy', t))
                return fn('invert', t)
            if isinstance(op, ast.Not):
                return notc(self.cond(t, st))
        return self.map1(f, v, st, node)

    def map1(self, f, v, st, node):
        t = self._sc(v)
        if t is not None:
            return f(t)
        a = self.arr(v, st)
        if a is None:
            return self.unsup(node, 'operand %s' % type(v).__name__)
        if a.dims == ():
            return f(a.content)
        return self.new_loc(ArrV(a.dims, f(a.content), a.mask), st)

    def mapn(self, f, vs, st, node):
        """broadcasted elementwise application"""
        ts = []
        arrs = []
        for v in vs:
            if isinstance(v, Poison):
                return v
            t = self._sc(v)
            if t is not None:
                ts.append(('t', t))
                continue
            if isinstance(v, Ext) :
                ts.append(('x', v))
                continue
            a = self.arr(v, st)
            if a is None:
                return self.unsup(node, 'operand %s' % type(v).__name__)
            if a.dims == ():
                ts.append(('t', a.content))
            else:
                ts.append(('a', a))
                arrs.append(a)
        if not arrs:
            # Ext treated as scalar-like opaque (works for both)
            xs = [t[1] if t[0] == 't' else A(t[1].node) for t in ts]
            r = f(*xs)
            if any(t[0] == 'x' for t in ts) and r.kind == 'poly':
                return Ext(as_atom(r)) if as_atom(r) is not None else r
            return r
        rank = max(len(a.dims) for a in arrs)
        big = [a for a in arrs if len(a.dims) == rank]
        dims = list(big[0].dims)
        mask = None
        for a in arrs:
            if a.mask is not None:
                if mask is not None and a.mask is not mask:
                    d = D.Decider().equal(ite(a.mask, ONE, ZERO), ite(mask, ONE, ZERO))
                    if d.kind != 'zero':
                        return self.unsup(node, 'operands with different masks')
                mask = a.mask
        for a in big[1:]:
            for i, d in enumerate(a.dims):
                if dims[i] is ONE:
                    dims[i] = d
        contents = []
        for k, t in ts:
            if k == 't':
                contents.append(t)
            elif k == 'x':
                contents.append(A(mk('sel', t.node, elt(0))))
            else:
                a = t
                if mask is not None and a.mask is None and not (a.dims and all(is_const(d) and cval(d) == 1 for d in a.dims)):
                    return self.unsup(node, 'compressed with full array')
                sh = rank - len(a.dims)
                rm = {}
                for i, d in enumerate(a.dims):
                    if d is ONE and dims[i + sh] is not ONE:
                        rm[ELT[i]] = ZERO
                    elif sh:
                        rm[ELT[i]] = elt(i + sh)
                    D1, D2 = self.space(d), self.space(dims[i + sh])
                    if D1 and D2:
                        self.space_checks += 1
                        if D1 != D2 and not self.onto.space_compat(D1, D2):
                            self.findings.append((self.where(node), 'elementwise combination of arrays over [%s] and [%s]' % (D2, D1)))
                contents.append(rewrite(a.content, rm) if rm else a.content)
        return self.new_loc(ArrV(dims, f(*contents), mask), st)

    def e_BinOp(self, e, st):
        a = self.ev(e.left, st)
        b = self.ev(e.right, st)
        return self.binop(e.op, a, b, st, e)

    def binop(self, op, a, b, st, node):
        if isinstance(a, Poison):
            return a
        if isinstance(b, Poison):
            return b
        if isinstance(op, ast.MatMult):
            return self.matmul(a, b, st, node)
        if isinstance(a, str) and isinstance(b, str) and isinstance(op, ast.Add):
            return a + b
        if isinstance(a, str) or isinstance(b, str) or isinstance(a, StrSym) or isinstance(b, StrSym):
            return self.unsup(node, 'string operator')
        if isinstance(a, tuple) and isinstance(b, tuple) and isinstance(op, ast.Add):
            return a + b
        if isinstance(a, Ref) and isinstance(st.heap[a.loc], ListV):
            h = st.heap[a.loc]
            if isinstance(op, ast.Mult):
                t = self._sc(b)
                if t is not None and is_const(t):
                    return self.new_loc(ListV(h.xs * int(cval(t))), st)
                if len(h.xs) == 1:
                    x = A(mk('ext', 'str', h.xs[0])) if isinstance(h.xs[0], str) else self.scalar(h.xs[0], st)
                    if x is not None and t is not None:
                        return self.new_loc(ArrV((t,), x), st)
                return self.unsup(node, 'list repeat')
            if isinstance(b, Ref) and isinstance(st.heap[b.loc], ListV) and isinstance(op, ast.Add):
                return self.new_loc(ListV(h.xs + st.heap[b.loc].xs), st)

        def f(x, y):
            if x.kind in COND and y.kind in COND and isinstance(op, (ast.BitAnd, ast.BitOr, ast.BitXor)):
                if isinstance(op, ast.BitAnd):
                    return andc(x, y)
                if isinstance(op, ast.BitOr):
                    return orc(x, y)
                return orc(andc(x, notc(y)), andc(notc(x), y))
            if x.kind in COND and y.kind in COND and isinstance(op, ast.Mult):
                return andc(x, y)
            if isinstance(op, (ast.BitAnd, ast.BitOr)) and (x.kind in COND or y.kind in COND):
                cx, cy = (self.cond(t, st) if t.kind not in COND else t for t in (x, y))
                return andc(cx, cy) if isinstance(op, ast.BitAnd) else orc(cx, cy)
            x, y = self.num(x), self.num(y)
            if isinstance(op, ast.Add):
                return add(x, y)
            if isinstance(op, ast.Sub):
                return sub(x, y)
            if isinstance(op, ast.Mult):
                return mul(x, y)
            if isinstance(op, ast.Div):
                return div(x, y)
            if isinstance(op, ast.Pow):
                if is_const(y):
                    return powr(x, cval(y))
                return fn_('powv', x, y)
            if isinstance(op, ast.FloorDiv):
                if is_const(x) and is_const(y) and cval(y):
                    return const(cval(x) // cval(y))
                return fn_('floor', div(x, y))
            if isinstance(op, ast.Mod):
                if is_const(x) and is_const(y) and cval(y):
                    return const(cval(x) % cval(y))
                return fn('mod', x, y)
            return A(mk('poison', 'operator'))
        return self.mapn(f, [a, b], st, node)

    def matmul(self, a, b, st, node):
        x, y = self.arr(a, st), self.arr(b, st)
        if x is None or y is None:
            return self.unsup(node, 'matmul operand')
        return self.mat_product(x, y, st, node)

    def mat_product(self, x, y, st, node):
        if not (x.dims and y.dims):
            return self.unsup(node, 'matmul of scalar')
        self.nloop += 1
        v = mk('loop', self.nloop)
        n = x.dims[-1]
        self.loopspace[v] = self.space(n)
        lx = rewrite(x.content, {ELT[len(x.dims) - 1]: A(v)})
        if len(y.dims) == 2:
            ly = rewrite(y.content, {ELT[0]: A(v)})
            if len(x.dims) == 1:
                ly = rewrite(ly, {ELT[1]: elt(0)})
            dims = x.dims[:-1] + (y.dims[1],)
        else:
            ly = rewrite(y.content, {ELT[0]: A(v)})
            dims = x.dims[:-1]
        c = bigsum(n, v, mul(self.num(lx), self.num(ly)))
        if not dims:
            return c
        return self.new_loc(ArrV(dims, c), st)

    def e_BoolOp(self, e, st):
        vals = []
        res = None
        isand = isinstance(e.op, ast.And)
        cs = []
        last = None
        for x in e.values:
            v = self.ev(x, st)
            last = v
            c = self.cond(v, st)
            if st.facts:
                c = rewrite(c, {}, st.facts)
            cs.append(c)
            if isand and c is FALSE:
                return False if len(cs) == 1 or True else v
            if not isand and c is TRUE:
                if all(y is FALSE for y in cs[:-1]):
                    return v
                return TRUE
        r = andc(*cs) if isand else orc(*cs)
        if not isand and all(c is FALSE for c in cs[:-1]):
            return last
        return r

    def e_Compare(self, e, st):
        left = self.ev(e.left, st)
        out = None
        for op, r in zip(e.ops, e.comparators):
            right = self.ev(r, st)
            c = self.compare(op, left, right, st, e)
            if out is None:
                out = c
            else:
                t1, t2 = self._sc(out), self._sc(c)
                if t1 is None or t2 is None:
                    return self.unsup(e, 'chained comparison')
                out = andc(self.cond(t1, st), self.cond(t2, st))
            left = right
        return out

    def compare(self, op, a, b, st, node):
        if isinstance(op, (ast.Is, ast.IsNot)):
            neg_ = isinstance(op, ast.IsNot)
            r = None
            if a is None or b is None:
                o = b if a is None else a
                if o is None:
                    r = TRUE
                elif isinstance(o, Ext):
                    # part of a table selected by position or label
                    part = o.node.args[0] == 'item' and isinstance(o.node.args[1], N) and o.node.args[1].args[:1] == ('attr',) and o.node.args[1].args[2] in ('iloc', 'loc')
                    r = FALSE if part else batom('isnone', o.node)
                elif isinstance(o, Poison):
                    r = batom('isnone', pterm(o.why))
                elif isinstance(o, StrSym):
                    r = batom('isnone', mk('ext', 'strsym', o.name))
                elif isinstance(o, N) and as_atom(o) is not None and as_atom(o).kind == 'sym' and as_atom(o).args[0] == 'opt':
                    r = batom('isnone', o)
                else:
                    r = FALSE
            elif isinstance(a, bool) or isinstance(b, bool):
                o, k = (b, a) if isinstance(a, bool) else (a, b)
                if isinstance(o, bool):
                    r = TRUE if o == k else FALSE
                else:
                    c = self.cond(o, st)
                    r = c if k else notc(c)
            else:
                return self.unsup(node, 'is')
            return notc(r) if neg_ else r
        if isinstance(op, (ast.In, ast.NotIn)):
            r = None
            if isinstance(b, Ref) and isinstance(st.heap[b.loc], (ListV, DictV)):
                h = st.heap[b.loc]
                xs = h.xs if isinstance(h, ListV) else list(h.d)
                base = None if isinstance(h, ListV) else h.base
                if base is None:
                    cs = []
                    for x in xs:
                        c = self.compare(ast.Eq(), a, x, st, node)
                        c = c if isinstance(c, N) else (TRUE if c is True else FALSE if c is False else None)
                        if c is None or not isinstance(c, N):
                            return self.unsup(node, 'membership')
                        cs.append(c)
                    r = orc(*cs)
                else:
                    if isinstance(a, str) and a in h.d:
                        r = TRUE
                    else:
                        r = batom('in', self.node_of(a, st), base)
            elif isinstance(a, str) and (TB().is_table(b, st) or isinstance(b, tuple) and b and b[0] == 'tcols'):
                r = TB().contains(st.heap[b.loc if isinstance(b, Ref) else b[1].loc], a)
            elif isinstance(b, tuple):
                cs = [self.compare(ast.Eq(), a, x, st, node) for x in b]
                cs = [c if isinstance(c, N) else (TRUE if c else FALSE) for c in cs]
                r = orc(*cs)
            elif isinstance(b, (Ext,)):
                r = batom('in', self.node_of(a, st), b.node)
            elif isinstance(b, str) and isinstance(a, str):
                r = TRUE if a in b else FALSE
            else:
                return self.unsup(node, 'membership in %s' % type(b).__name__)
            return notc(r) if isinstance(op, ast.NotIn) else r
        if isinstance(a, (str, StrSym)) or isinstance(b, (str, StrSym)):
            if isinstance(a, str) and isinstance(b, str):
                r = TRUE if a == b else FALSE
            elif isinstance(a, StrSym) and isinstance(b, str):
                r = batom('streq', a.name, b)
            elif isinstance(b, StrSym) and isinstance(a, str):
                r = batom('streq', b.name, a)
            elif isinstance(a, Ext) or isinstance(b, Ext):
                x, s = (a, b) if isinstance(a, Ext) else (b, a)
                # elementwise over an opaque column, or scalar
                return Ext(mk('ext', 'eq', x.node, mk('ext', 'str', s))) if isinstance(op, ast.Eq) else self.unsup(node, 'string compare')
            elif isinstance(a, Poison) or isinstance(b, Poison):
                return a if isinstance(a, Poison) else b
            else:
                aa = self.arr(a, st) if isinstance(a, (Ref, ArrV)) else self.arr(b, st) if isinstance(b, (Ref, ArrV)) else None
                s = b if isinstance(b, str) else a
                if aa is not None and isinstance(s, str):
                    c = batom('streq', aa.content, s)
                    if isinstance(op, ast.NotEq):
                        c = notc(c)
                    return self.new_loc(ArrV(aa.dims, c, aa.mask), st)
                return FALSE if isinstance(op, ast.Eq) else self.unsup(node, 'string compare')
            return notc(r) if isinstance(op, ast.NotEq) else r
        if a is None or b is None:
            return self.unsup(node, 'comparison with None')
        S = {ast.Lt: {-1}, ast.LtE: {-1, 0}, ast.Gt: {1}, ast.GtE: {0, 1}, ast.Eq: {0}, ast.NotEq: {-1, 1}}[type(op)]

        def f(x, y):
            if x.kind in COND or y.kind in COND:
                if x.kind in COND and y.kind in COND and type(op) in (ast.Eq, ast.NotEq):
                    r = orc(andc(x, y), andc(notc(x), notc(y)))
                    return r if isinstance(op, ast.Eq) else notc(r)
                x, y = self.num(x), self.num(y)
            return self.sgn(sub(x, y), S)
        return self.mapn(f, [a, b], st, node)

    def sgn(self, q, S):
        return sg(q, S)

    def e_Subscript(self, e, st):
        base = self.ev(e.value, st)
        idx = self.ev_index(e.slice, st)
        return self.getitem(base, idx, st, e)

    # ------------------------------------------------------------------ calls
    def e_Call(self, e, st):
        f = e.func
        if isinstance(f, ast.Name) and f.id == 'super':
            o = st.env.get('self')
            return SuperV(o, self.curcls)
        args = []
        for a in e.args:
            if isinstance(a, ast.Starred):
                v = self.ev(a.value, st)
                if isinstance(v, tuple):
                    args += list(v)
                elif isinstance(v, Ref) and isinstance(st.heap[v.loc], ListV):
                    args += st.heap[v.loc].xs
                else:
                    return self.unsup(e, 'star argument')
            else:
                args.append(self.ev(a, st))
        kw = {}
        for k in e.keywords:
            v = self.ev(k.value, st)
            if k.arg is None:
                if isinstance(v, Ref) and isinstance(st.heap[v.loc], DictV):
                    h = st.heap[v.loc]
                    kw.update(h.d)
                    if h.base is not None:
                        kw['**'] = Ext(h.base)
                else:
                    kw['**'] = v
            else:
                kw[k.arg] = v
        fv = self.ev(f, st)
        return self.call(fv, args, kw, st, e)

    def call(self, fv, args, kw, st, node):
        if isinstance(fv, Func):
            if fv.name in self.overrides:
                r = self.overrides[fv.name](self, st, ([fv.bound] if isinstance(fv.bound, Ref) else []) + args, kw, node)
                if r is not NotImplemented:
                    return r
            if isinstance(fv.bound, (Ref, ClsV)):
                args = [fv.bound] + args
            return self.call_func(fv, args, kw, st, node)
        if isinstance(fv, Choice):
            return self.call_choice(fv, args, kw, st, node)
        if isinstance(fv, Poison):
            for a in list(args) + list(kw.values()):
                self.poison_val(a, st, fv)
            # an unknown function may be a method: nothing is known about the objects any more
            self.poison_objects(st, fv)
            return fv
        if isinstance(fv, tuple) and fv and fv[0] in ('strm', 'tindexm', 'tgroupm'):
            return TB().part_call(self, fv, args, kw, st, node)
        if isinstance(fv, tuple) and fv and fv[0] == 'method':
            from . import npmodel
            return npmodel.method(self, fv[1], fv[2], args, kw, st, node)
        if isinstance(fv, tuple) and fv and fv[0] == 'builtin':
            from . import npmodel
            return npmodel.builtin(self, fv[1], args, kw, st, node)
        if isinstance(fv, ModV):
            from . import npmodel
            return npmodel.npcall(self, fv.path, args, kw, st, node)
        if isinstance(fv, Ext):
            return self.ext_call(fv, args, kw, st, node)
        if isinstance(fv, ClsV):
            f = self.repo.find_method(fv.name, '__init__')
            if fv.name in self.repo.cls and not self.repo.cls_bases_unknown(fv.name):
                self.nnew = getattr(self, 'nnew', 0) + 1
                o = self.new_loc(ObjV(fv.name, {}, 'new:%s%d' % (fv.name, self.nnew)), st)
                if f is not None:
                    self.call_func(Func(f[0], f[1], bound=o), [o] + list(args), kw, st, node)
                return o
            return self.unsup(node, 'constructor ' + fv.name)
        return self.unsup(node, 'call of %s' % type(fv).__name__)

    def call_choice(self, fv, args, kw, st, node):
        c = fv.c
        if st.facts:
            c = rewrite(c, {}, st.facts)
        if c is TRUE:
            return self.call(fv.a, args, kw, st, node)
        if c is FALSE:
            return self.call(fv.b, args, kw, st, node)
        self.branches += 1
        sa, sb = st.copy(), st.copy()
        self.learn(sa, c, True)
        self.learn(sb, c, False)
        va = self.call(fv.a, args, kw, sa, node)
        vb = self.call(fv.b, args, kw, sb, node)
        if sa.status != 'ok' or sb.status != 'ok':
            p = self.unsup(node, 'a chosen function does not return')
            self.poison_objects(st, p)
            return p
        sa.facts = dict(st.facts)
        sb.facts = dict(st.facts)
        sa.env['<value>'], sb.env['<value>'] = va, vb
        m = self.merge(c, sa, sb)
        v = m.env.pop('<value>')
        st.env.clear()
        st.env.update(m.env)
        st.heap.clear()
        st.heap.update(m.heap)
        return v

    def poison_objects(self, st, p):
        for loc, h in list(st.heap.items()):
            if isinstance(h, ArrV):
                st.heap[loc] = ArrV(h.dims, pterm(p.why), None, h.label)
            elif isinstance(h, ObjV):
                st.heap[loc] = ObjV(h.cls, {k: (v if isinstance(v, Ref) else p) for k, v in h.attrs.items()}, h.name)

    def ext_call(self, fv, args, kw, st, node):
        n = fv.node
        # obj.method(args)
        xs = tuple(self.node_of(a, st) for a in args)
        ks = tuple((k, self.node_of(v, st)) for k, v in sorted(kw.items()))
        if n.kind == 'ext' and n.args[0] == 'attr':
            if n.args[2] in ('astype', 'copy', 'to_numpy'):
                return Ext(n.args[1])
            self.ext_event(('call', n.args[1], n.args[2]), st)
        return Ext(mk('ext', 'call', n, xs, ks))

    def call_func(self, fv, args, kw, st, node):
        fn_ = fv.node
        if self.depth > 24:
            return self.unsup(node or fn_, 'call depth')
        if fv.vec and any(not (self._sc(a) is not None) for a in args):
            # elementwise kernel: run on contents
            return self.call_vec(fv, args, kw, st, node)
        env = {}
        if isinstance(fv.bound, tuple) and fv.bound and fv.bound[0] == 'closure':
            env.update(fv.bound[1])
        a = fn_.args
        names = [x.arg for x in a.posonlyargs + a.args]
        if len(args) > len(names) and not a.vararg:
            return self.unsup(node or fn_, 'too many arguments for ' + fn_.name)
        kwonly = [x.arg for x in a.kwonlyargs]
        given = {}
        for n_, v in zip(names, args):
            given[n_] = v
        extra = {}
        for k, v in kw.items():
            if k in names or k in kwonly:
                given[k] = v
            elif k == '**':
                extra['**'] = v
            else:
                extra[k] = v
        if a.vararg:
            given[a.vararg.arg] = tuple(args[len(names):])
        saved_mod, saved_cls = self.curmod, getattr(self, 'curcls', None)
        self.curmod = fv.mod
        self.curcls = self.repo.cls_of(fn_)
        self.curfile.append(self.repo.file_of(fv.mod))
        self.depth += 1
        self.inlined += 1
        self.called.add((fv.mod, fv.name))
        try:
            defaults = dict(zip(names[len(names) - len(a.defaults):], a.defaults))
            for x, d in zip(kwonly, a.kw_defaults):
                if d is not None:
                    defaults[x] = d
            dst = State({}, st.heap, st.facts)
            for n_ in names + kwonly:
                if n_ in given:
                    env[n_] = given[n_]
                elif n_ in defaults:
                    env[n_] = self.ev(defaults[n_], dst)
                else:
                    env[n_] = Poison('missing argument %s of %s' % (n_, fn_.name))
            if a.vararg:
                env[a.vararg.arg] = given[a.vararg.arg]
            if a.kwarg:
                base = None
                if '**' in extra:
                    b = extra.pop('**')
                    base = b.node if isinstance(b, Ext) else None
                self.nloc += 1
                st.heap[self.nloc] = DictV(extra, base)
                env[a.kwarg.arg] = Ref(self.nloc)
            elif [k for k in extra if k != '**']:
                return self.unsup(node or fn_, 'unexpected keyword for ' + fn_.name)
            inner = State(env, st.heap, dict(st.facts))
            outs = self.run(fn_.body, inner)
            alts = []
            for p, x in outs:
                if x.status == 'dead':
                    continue
                if x.status == 'ok':
                    x.status = 'ret'
                    x.ret = None
                if x.status != 'ret':
                    raise Unsupported('stray control flow in ' + fn_.name)
                alts.append((p, x))
            if not alts:
                return self.unsup(node or fn_, fn_.name + ' never returns')
            p, x = self.merge_alts(alts)
            st.heap = x.heap
            return x.ret
        finally:
            self.curmod = saved_mod
            self.curcls = saved_cls
            self.curfile.pop()
            self.depth -= 1

    def call_vec(self, fv, args, kw, st, node):
        f2 = Func(fv.node, fv.mod, None, False, fv.name)
        outs = []

        def f(*xs):
            r = self.call_func(f2, list(xs), {}, st, node)
            t = self.scalar(r, st)
            return t if t is not None else pterm('vectorised result')
        return self.mapn(f, args, st, node)


nd_bool = {}
nd_boolvars = set()
BUILTINS = {'len', 'range', 'abs', 'min', 'max', 'float', 'int', 'bool', 'sum', 'isinstance', 'print', 'list', 'tuple', 'dict', 'set', 'zip', 'enumerate', 'setattr', 'getattr', 'hasattr', 'str', 'sorted', 'any', 'all', 'round', 'pow', 'map', 'reversed', 'type', 'callable', 'frozenset', 'slice', 'super', 'ValueError', 'TypeError', 'KeyError', 'Exception', 'NotImplementedError', 'ImportError', 'RuntimeError', 'id', 'vars', 'iter', 'next', 'filter', 'property', 'classmethod'}

# ------------------------------------------------------------------ scatter-update atoms
INJECTIVE = [lambda base: False]
DISJOINT = [lambda b1, b2: False]


def _upd_read(spec, e):
    """try to resolve reading cell e of an updated array; returns term or None"""
    n, bv, idx, guard, val, old = spec.args
    if len(idx) != 1 or len(e) != 1 or guard is not TRUE:
        return None
    i = idx[0]
    a = as_atom(i)
    b = as_atom(e[0])
    off = ZERO
    if a is None:
        # sel(map, v) + const
        pass
    if a is not None and a.kind == 'sel' and len(a.args) == 2 and a.args[1] is A(bv) and b is not None and b.kind == 'sel' and len(b.args) == 2:
        if a.args[0] == b.args[0] and INJECTIVE[0](a.args[0]):
            return rewrite(val, {bv: b.args[1]})
        if DISJOINT[0](a.args[0], b.args[0]):
            return lam_apply(old, e[0])
    return None


def upd_n(spec, *e):
    r = _upd_read(spec, e)
    if r is not None:
        return r
    return A(mk('upd', spec, *e))


def upd_b(spec, *e):
    r = _upd_read(spec, e)
    if r is not None:
        return r
    return batom('upd', spec, *e)


T.REBUILD['upd'] = upd_n


def _rebuild_ba(n):
    if n.args[0] == 'upd':
        return upd_b(*n.args[1:])
    if n.args[0] == 'streq':
        return batom(*n.args)
    return n


T.REBUILD['ba'] = _rebuild_ba
