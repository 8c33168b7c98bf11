"""Models of the numpy / builtin operations the package uses."""
from fractions import Fraction as Fr
from . import terms as T
from .terms import *
from .interp import *
from .interp import COND, TB
from .ontology import Ns, ELT


def _mk(eng, st, dims, content, mask=None, label='tmp'):
    return eng.new_loc(ArrV(dims, content, mask, label), st)


UN = {'sin': 'sin', 'cos': 'cos', 'tan': 'tan', 'arccos': 'acos', 'acos': 'acos', 'arcsin': 'asin', 'asin': 'asin', 'arctan': 'atan', 'atan': 'atan',
      'log': 'log', 'log10': 'log10', 'exp': 'exp', 'floor': 'floor', 'ceil': 'ceil', 'ellipe': 'ellipe'}


def _len_of(eng, v, st):
    if isinstance(v, str):
        return const(len(v))
    if isinstance(v, tuple):
        return const(len(v))
    if isinstance(v, Ref):
        h = st.heap[v.loc]
        if isinstance(h, ListV):
            return const(len(h.xs))
        if isinstance(h, DictV) and h.base is None:
            return const(len(h.d))
        if isinstance(h, TB().TableV):
            return h.n
    if isinstance(v, Ext):
        return A(mk('fn', 'len', v.node))
    a = eng.arr(v, st) if isinstance(v, (Ref, ArrV)) else None
    if a is not None and a.dims:
        if a.mask is not None:
            return eng.count_of(a)
        return a.dims[0]
    return None


def _shape(eng, v, st):
    """shape argument -> list of dims"""
    t = eng._sc(v)
    if t is not None:
        return [t]
    if isinstance(v, Ext):
        return [A(v.node)]
    if isinstance(v, tuple):
        out = []
        for x in v:
            t = eng._sc(x)
            if t is None:
                t = A(x.node) if isinstance(x, Ext) else None
            if t is None:
                return None
            out.append(t)
        return out
    if isinstance(v, Ref) and isinstance(st.heap[v.loc], ListV):
        return _shape(eng, tuple(st.heap[v.loc].xs), st)
    return None


def _isbool(kw, args, i):
    d = kw.get('dtype', args[i] if len(args) > i else None)
    if isinstance(d, ModV) and 'bool' in d.path:
        return True
    if isinstance(d, tuple) and d and d[0] == 'builtin' and d[1] == 'bool':
        return True
    if isinstance(d, str) and 'bool' in d:
        return True
    return False


def _isintdt(d):
    if isinstance(d, ModV) and 'int' in d.path.split('.')[-1]:
        return True
    if isinstance(d, tuple) and d and d[0] == 'builtin' and d[1] == 'int':
        return True
    return False


def npcall(eng, path, args, kw, st, node):
    parts = path.split('.')
    name = parts[-1]
    root = parts[0]
    if path in eng.overrides:
        return eng.overrides[path](eng, st, args, kw, node)
    if root in ('numpy', 'math', 'scipy', 'numba', 'pandas', 'copy', 'collections', 'functools', 'matplotlib', 'warnings', 'itertools', 'operator', 'logging', 'time', 'datetime'):
        if path.startswith('numpy.') or root == 'math':
            f = NP.get('.'.join(parts[1:]), NP.get(name) if len(parts) == 2 else None)
            if f is not None:
                r = f(eng, args, kw, st, node, name)
                return r
            if len(parts) == 2 and name in UN:
                return eng.map1(lambda t: fn_(UN[name], eng.num(t)), args[0], st, node) if not isinstance(args[0], Ext) else eng.mapn(lambda t: fn_(UN[name], eng.num(t)), [args[0]], st, node)
        if path in ('scipy.special.ellipe', 'scipy.special.ellipeinc'):
            return eng.mapn(lambda *t: fn_(name, *[eng.num(x) for x in t]), list(args), st, node)
        if path in ('copy.copy', 'copy.deepcopy'):
            return _copy(eng, args, kw, st, node, name)
        if root == 'warnings':
            return None
        if path == 'pandas.Series' and args and not set(kw) - {'dtype', 'index'} and eng.arr(args[0], st) is not None:
            ix = kw['index'] if 'index' in kw else args[1] if len(args) == 2 else None
            if ix is None and len(args) == 1:
                return args[0]
            a = eng.arr(args[0], st)
            if isinstance(ix, Ref) and isinstance(st.heap[ix.loc], ListV) and all(isinstance(x, str) for x in st.heap[ix.loc].xs) and len(a.dims) == 1:
                return eng.new_loc(DictV({x: eng.getitem(args[0], const(i), st, node) for i, x in enumerate(st.heap[ix.loc].xs)}), st)
            if isinstance(ix, Ref) and isinstance(args[0], Ref) and isinstance(st.heap[ix.loc], ArrV):
                return ('series', ix, args[0])
        if path == 'numpy.argsort' and len(args) == 1 and isinstance(args[0], Ref) and isinstance(st.heap[args[0].loc], ListV):
            xs = [eng._sc(x) for x in st.heap[args[0].loc].xs]
            if all(x is not None and is_const(x) for x in xs):
                xs = [cval(x) for x in xs]
                return eng.new_loc(ListV([const(i) for i in sorted(range(len(xs)), key=lambda i: xs[i])]), st)
        if path == 'numpy.argsort' and len(args) == 1 and not kw and PERM:
            a = eng.arr(args[0], st)
            x = as_atom(a.content) if a is not None and a.mask is None and a.content.kind == 'poly' else None
            if x is not None and x.kind == 'sel' and x.args[0] in PERM and x.args[1:] == (elt(0),):
                return _mk(eng, st, a.dims, A(mk('sel', PERM[x.args[0]], elt(0))))
        if path == 'numpy.cumsum' and len(args) == 1 and not kw:
            a = eng.arr(args[0], st) if not isinstance(args[0], Ref) or not isinstance(st.heap[args[0].loc], ListV) else eng.arr(_array(eng, args, kw, st, node, 'array'), st)
            if a is not None and len(a.dims) == 1 and a.mask is None and is_const(a.dims[0]) and cval(a.dims[0]) <= 12 and a.content.kind == 'poly':
                c, tot = ZERO, ZERO
                for i in range(int(cval(a.dims[0]))):
                    tot = add(tot, rewrite(a.content, {ELT[0]: const(i)}))
                    c = ite(sg(sub(elt(0), const(i)), {0}), tot, c)
                return _mk(eng, st, a.dims, c)
            if a is not None and len(a.dims) == 1 and a.mask is None and a.content.kind == 'poly':
                eng.nloop += 1
                bv = mk('loop', eng.nloop)
                return _mk(eng, st, a.dims, bigsum(add(elt(0), ONE), bv, rewrite(a.content, {ELT[0]: A(bv)})))
        if path == 'numpy.linspace' and len(args) == 3 and not kw and eng._sc(args[2]) is not None and all(eng._sc(x) is not None for x in args[:2]):
            r = opaque(eng, path, args, kw, st, node)
            return _mk(eng, st, (eng._sc(args[2]),), A(mk('app', r.node, elt(0)))) if isinstance(r, Ext) else r
        if path == 'scipy.integrate.cumulative_trapezoid' and set(kw) == {'initial'} and len(args) == 2:
            r, a = opaque(eng, path, args, kw, st, node), eng.arr(args[0], st)
            if isinstance(r, Ext) and a is not None and len(a.dims) == 1 and a.mask is None:
                return _mk(eng, st, a.dims, A(mk('app', r.node, elt(0))))
            return r
        if path == 'numpy.unique' and len(args) == 1 and not kw and isinstance(args[0], Ref):
            a = eng.arr(args[0], st)
            x = as_atom(a.content) if a is not None and a.content.kind == 'poly' else None
            d = getattr(eng.onto, 'domain', {}).get(x.args[0]) if x is not None and x.kind == 'sel' else None
            if d:
                return eng.new_loc(ListV(sorted(d)), st)
        if path == 'numpy.repeat' and len(args) == 2 and not kw and all(isinstance(x, Ref) for x in args):
            v, n = eng.arr(args[0], st), eng.arr(args[1], st)
            # as many copies of each superlink's value as it has links, or junctions
            if v is not None and n is not None and v.dims == n.dims == (Ns('k'),) and v.mask is None and n.mask is None:
                for c, to, of in ((ZERO, 'ik', '_ki'), (ONE, 'Ik', '_kI')):
                    x = as_atom(sub(n.content, c))
                    if x is not None and x.kind == 'sel' and x.args[0].split('.')[-1] == 'nk' and x.args[1:] == (elt(0),):
                        return _mk(eng, st, (Ns(to),), rewrite(v.content, {ELT[0]: A(mk('sel', x.args[0][:-2] + of, elt(0)))}))
        if path == 'collections.deque' and args:
            return builtin(eng, 'list', args[:1], {}, st, node)
        if path == 'numpy.isscalar':
            return isinstance(args[0], (int, float)) or eng._sc(args[0]) is not None
        if path == 'itertools.count':
            return Ext(mk('ext', 'lib', path, (), ()))
        if path.startswith('time.') or path.startswith('datetime.'):
            return Ext(mk('ext', 'clock'))
        return opaque(eng, path, args, kw, st, node)
    return eng.unsup(node, 'call of ' + path)


KNOWN_OPAQUE = {'numpy.linalg.solve', 'scipy.linalg.solve', 'numpy.linalg.lstsq', 'scipy.linalg.solve_banded', 'scipy.sparse.linalg.spsolve', 'scipy.optimize.nnls', 'scipy.linalg.cholesky',
                'numpy.linalg.inv', 'numpy.linalg.pinv', 'scipy.linalg.lstsq', 'numpy.linalg.norm', 'numpy.interp', 'numpy.searchsorted', 'numpy.bincount', 'numpy.roll', 'numpy.cumsum', 'numpy.linalg.cholesky',
                'scipy.linalg.cho_solve', 'scipy.linalg.qr', 'numpy.linalg.qr', 'scipy.integrate.cumulative_trapezoid', 'numpy.linspace', 'scipy.interpolate.interp1d', 'numpy.unique', 'numpy.argsort', 'numpy.sort', 'numpy.mean', 'numpy.nanmax', 'numpy.finfo', 'numpy.trapz', 'numpy.random.randn', 'numpy.asarray', 'numpy.argmax', 'numpy.argmin'}


def opaque(eng, path, args, kw, st, node):
    """a pure library call, named structurally"""
    ns = tuple(eng.node_of(a, st) for a in args)
    ks = tuple((k, eng.node_of(v, st)) for k, v in sorted(kw.items()) if k not in ('dtype', 'rcond', 'check_finite', 'overwrite_a', 'overwrite_b', 'overwrite_ab'))
    if path not in KNOWN_OPAQUE and not path.startswith('pandas.'):
        return eng.unsup(node, 'call of ' + path)
    n = mk('ext', 'lib', path, ns, ks)
    if path in ('numpy.linalg.solve', 'scipy.linalg.solve', 'scipy.linalg.solve_banded', 'scipy.sparse.linalg.spsolve'):
        b = eng.arr(args[-1], st)
        if b is not None:
            return _mk(eng, st, b.dims, A(mk('app', n, *[elt(d) for d in range(len(b.dims))])))
    if path in ('numpy.linalg.inv', 'numpy.linalg.pinv', 'scipy.linalg.cholesky', 'numpy.linalg.cholesky'):
        b = eng.arr(args[0], st)
        if b is not None and len(b.dims) == 2:
            return _mk(eng, st, (b.dims[1], b.dims[0]), A(mk('app', n, elt(0), elt(1))))
    if path in ('numpy.argmax', 'numpy.argmin') and len(args) == 1 and not kw:
        return A(mk('app', n))
    if path in ('numpy.roll', 'numpy.cumsum'):
        b = eng.arr(args[0], st)
        if b is not None and b.mask is None:
            return _mk(eng, st, b.dims, A(mk('app', n, *[elt(d) for d in range(len(b.dims))])))
    if path == 'scipy.optimize.nnls' or path == 'numpy.linalg.lstsq' or path == 'scipy.linalg.lstsq':
        a = eng.arr(args[0], st)
        if a is not None and len(a.dims) == 2:
            return (_mk(eng, st, (a.dims[1],), A(mk('app', n, elt(0)))), Ext(mk('ext', 'item', n, ONE)), Ext(mk('ext', 'item', n, const(2))), Ext(mk('ext', 'item', n, const(3))))[:2 if 'nnls' in path else 4]
    return Ext(n)


def _sel(eng, dims):
    """an array as long as a selection is a compressed array over the selected elements"""
    if len(dims) == 1 and dims[0] in eng.counts:
        return eng.counts[dims[0]]
    return dims, None


def _zeros(val):
    def f(eng, args, kw, st, node, name):
        dims = _shape(eng, args[0] if args else kw.get('shape'), st)
        if dims is None:
            return eng.unsup(node, 'shape')
        dims, mask = _sel(eng, dims)
        b = _isbool(kw, args, 1)
        if val is None:
            c = A(mk('undef'))
        elif b:
            c = TRUE if val else FALSE
        else:
            c = const(val)
        return _mk(eng, st, dims, c, mask)
    return f


def _like(val):
    def f(eng, args, kw, st, node, name):
        a = eng.arr(args[0], st)
        if a is None:
            if isinstance(args[0], N):
                return const(val or 0)
            return eng.unsup(node, name)
        b = _isbool(kw, args, 1) or (a.content.kind in COND and 'dtype' not in kw)
        c = A(mk('undef')) if val is None else ((TRUE if val else FALSE) if b else const(val))
        return _mk(eng, st, a.dims, c, a.mask)
    return f


def _full(eng, args, kw, st, node, name):
    dims = _shape(eng, args[0], st)
    v = args[1] if len(args) > 1 else kw.get('fill_value')
    t = eng._sc(v)
    if t is None and isinstance(v, StrSym):
        return eng.unsup(node, 'full of string')
    if t is None or dims is None:
        return eng.unsup(node, 'full')
    dims, mask = _sel(eng, dims)
    return _mk(eng, st, dims, t, mask)


def _copy(eng, args, kw, st, node, name):
    v = args[0] if args else kw.get('a')
    if TB().is_table(v, st):
        return TB().copy_table(eng, v, st)
    if isinstance(v, Ref) and isinstance(st.heap[v.loc], DictV):
        h = st.heap[v.loc]
        d = {}
        for k, x in h.d.items():
            d[k] = _copy(eng, [x], {}, st, node, name) if name == 'deepcopy' and isinstance(x, Ref) else x
        return eng.new_loc(DictV(d, h.base), st)
    if isinstance(v, Ref) and isinstance(st.heap[v.loc], ListV):
        h = st.heap[v.loc]
        if name in ('copy', 'deepcopy') and node is not None and getattr(getattr(node, 'func', None), 'attr', '') in ('deepcopy',):
            return eng.new_loc(ListV(list(h.xs)), st)
    a = eng.arr(v, st) if isinstance(v, (Ref, ArrV)) else None
    if a is not None:
        return _mk(eng, st, a.dims, a.content, a.mask)
    return v


def _arange(eng, args, kw, st, node, name):
    a = [eng._sc(x) for x in args]
    if any(x is None for x in a):
        return eng.unsup(node, 'arange')
    if len(a) == 1:
        return _mk(eng, st, (a[0],), elt(0))
    if len(a) == 2 or (is_const(a[2]) and cval(a[2]) == 1):
        return _mk(eng, st, (sub(a[1], a[0]),), add(elt(0), a[0]))
    return eng.unsup(node, 'arange step')


def _array(eng, args, kw, st, node, name):
    v = args[0]
    if isinstance(v, Ref) and isinstance(st.heap[v.loc], ListV):
        xs = st.heap[v.loc].xs
        ts = [eng.scalar(x, st) for x in xs]
        if all(t is not None for t in ts):
            if not ts:
                return _mk(eng, st, (ZERO,), ZERO)
            if all(t.kind in COND for t in ts):
                c = FALSE
            else:
                ts = [eng.num(t) for t in ts]
                c = ZERO
            for i, t in enumerate(ts):
                c = ite(sg(sub(elt(0), const(i)), {0}), t, c)
            return _mk(eng, st, (const(len(ts)),), c)
        arrs = [eng.arr(x, st) for x in xs]
        if all(a is not None and len(a.dims) == 1 and a.mask is None for a in arrs) and arrs:
            c = ZERO
            for i, a in enumerate(arrs):
                c = ite(sg(sub(elt(0), const(i)), {0}), rewrite(eng.num(a.content), {ELT[0]: elt(1)}), c)
            return _mk(eng, st, (const(len(arrs)), arrs[0].dims[0]), c)
        return eng.unsup(node, 'array of values')
    t = eng._sc(v)
    if t is not None:
        return t
    if isinstance(v, Ext):
        return v
    a = eng.arr(v, st)
    if a is not None:
        if name == 'array':
            return _mk(eng, st, a.dims, a.content, a.mask)
        return v
    return eng.unsup(node, name)


def _minmax(which):
    def f(eng, args, kw, st, node, name):
        g = T.maxv if which == 'max' else T.minv
        return eng.mapn(lambda x, y: g(eng.num(x), eng.num(y)), args[:2], st, node)
    return f


def _where(eng, args, kw, st, node, name):
    if len(args) == 1:
        a = eng.arr(args[0], st)
        if a is not None and len(a.dims) == 1:
            return (_flatnonzero(eng, args, kw, st, node, name),)
        return eng.unsup(node, 'where')

    def g(c, x, y):
        if c.kind not in COND:
            c = sg(c, {-1, 1})
        if (x.kind in COND) != (y.kind in COND):
            x, y = eng.num(x), eng.num(y)
        return ite(c, x, y)
    return eng.mapn(g, args[:3], st, node)


def _asc(c):
    return c if c.kind in COND else sg(c, {-1, 1})


def _clip(eng, args, kw, st, node, name):
    x = args[0]
    lo = args[1] if len(args) > 1 else kw.get('a_min', kw.get('min'))
    hi = args[2] if len(args) > 2 else kw.get('a_max', kw.get('max'))
    if lo is not None:
        x = eng.mapn(lambda a, b: T.maxv(eng.num(a), eng.num(b)), [x, lo], st, node)
    if hi is not None:
        x = eng.mapn(lambda a, b: T.minv(eng.num(a), eng.num(b)), [x, hi], st, node)
    out = kw.get('out')
    if isinstance(out, Ref):
        eng.store_whole(out, x, st, node)
        return out
    return x


def _abs(eng, args, kw, st, node, name):
    return eng.mapn(lambda t: T.absv(eng.num(t)), args[:1], st, node)


def _sqrt(eng, args, kw, st, node, name):
    return eng.mapn(lambda t: powr(eng.num(t), Fr(1, 2)), args[:1], st, node)


def _power(eng, args, kw, st, node, name):
    def g(x, y):
        x, y = eng.num(x), eng.num(y)
        return powr(x, cval(y)) if is_const(y) else fn_('powv', x, y)
    return eng.mapn(g, args[:2], st, node)


def _bin(op):
    def f(eng, args, kw, st, node, name):
        r = eng.binop(op, args[0], args[1], st, node)
        out = kw.get('out')
        if isinstance(out, Ref):
            eng.store_whole(out, r, st, node)
            return out
        return r
    return f


def _addat(eng, args, kw, st, node, name):
    base, idx, v = args
    if not isinstance(base, Ref) or not isinstance(st.heap[base.loc], ArrV):
        eng.poison_val(base, st, Poison('add.at'))
        return None
    h, xs = eng._resolve_store(base, idx, st, node)
    adv = []
    for d, x in enumerate(xs):
        a = eng.arr(x, st) if isinstance(x, (Ref, ArrV)) else None
        if a is not None and a.dims:
            adv.append((d, a))
    if not adv:
        t = eng._sc(v)
        eng.store_add(base, idx, eng.num(t), st, node)
        return None
    eng.stores += 1
    try:
        eng.store_scatter(base, h, xs, adv, v, st, node, additive=True)
    except Unsupported as e:
        eng.poison_val(base, st, eng.unsup(node, str(e)))
    return None


def _flatnonzero(eng, args, kw, st, node, name):
    a = eng.arr(args[0], st)
    if a is None or len(a.dims) != 1:
        return eng.unsup(node, name)
    if a.mask is not None:
        # positions within the compressed array
        return _mk(eng, st, a.dims, A(mk('pos', lam(1, a.mask), elt(0))), andc(a.mask, _asc(a.content)))
    return _mk(eng, st, a.dims, elt(0), _asc(a.content))


def _logical(op):
    def f(eng, args, kw, st, node, name):
        def g(*xs):
            xs = [_asc(x) for x in xs]
            return andc(*xs) if op == 'and' else orc(*xs) if op == 'or' else notc(xs[0])
        return eng.mapn(g, args, st, node)
    return f


def _isnan(eng, args, kw, st, node, name):
    return eng.mapn(lambda t: batom(name, eng.num(t)), args[:1], st, node)


def _filldiag(eng, args, kw, st, node, name):
    base, v = args[0], args[1]
    if not isinstance(base, Ref):
        return eng.unsup(node, name)
    h = st.heap[base.loc]
    va = eng.arr(v, st) if not isinstance(v, N) else None
    if va is not None and va.dims:
        t = va.content
    else:
        t = eng._sc(v)
    st.heap[base.loc] = ArrV(h.dims, ite(sg(sub(elt(0), elt(1)), {0}), eng.num(t), eng.num(h.content)), None, h.label)
    return None


def _eye(eng, args, kw, st, node, name):
    d = _shape(eng, args[0], st)
    if d is None:
        return eng.unsup(node, name)
    return _mk(eng, st, (d[0], d[0]), ite(sg(sub(elt(0), elt(1)), {0}), ONE, ZERO))


def _diag(eng, args, kw, st, node, name):
    a = eng.arr(args[0], st)
    if a is None:
        return eng.unsup(node, name)
    if len(a.dims) == 1:
        return _mk(eng, st, (a.dims[0], a.dims[0]), ite(sg(sub(elt(0), elt(1)), {0}), eng.num(a.content), ZERO))
    k = args[1] if len(args) > 1 else kw.get('k')
    k = ZERO if k is None else eng._sc(k)
    if k is None or k.kind != 'poly':
        return eng.unsup(node, name)
    if k is ZERO:
        return _mk(eng, st, (a.dims[0],), rewrite(a.content, {ELT[1]: elt(0)}))
    lo = is_const(k) and cval(k) < 0
    off = neg(k) if lo else k
    # (a symbolic offset is taken above the diagonal, where this library counts it; below, it must be a literal)
    cells = {ELT[0]: add(elt(0), off), ELT[1]: elt(0)} if lo else {ELT[1]: add(elt(0), off)}
    return _mk(eng, st, (sub(a.dims[0], off),), rewrite(a.content, cells))


def _sum(eng, args, kw, st, node, name):
    v = args[0]
    if isinstance(v, Ref) and isinstance(st.heap[v.loc], ListV):
        xs = [eng._sc(x) for x in st.heap[v.loc].xs]
        if all(x is not None for x in xs):
            return add(*[eng.num(x) for x in xs]) if xs else ZERO
    a = eng.arr(v, st) if isinstance(v, (Ref, ArrV)) else None
    if a is not None and len(a.dims) == 1 and 'axis' not in kw:
        eng.nloop += 1
        lv = mk('loop', eng.nloop)
        c = eng.num(a.content)
        if a.mask is not None:
            c = ite(a.mask, c, ZERO)
        return bigsum(a.dims[0], lv, rewrite(c, {ELT[0]: A(lv)}))
    if isinstance(v, Ext):
        return Ext(mk('ext', 'sum', v.node))
    if a is not None:
        return Ext(mk('ext', 'lib', 'sum', (eng.node_of(v, st),), tuple((k, eng.node_of(x, st)) for k, x in sorted(kw.items()))))
    return eng.unsup(node, name)


def _red(which):
    def f(eng, args, kw, st, node, name):
        v = args[0]
        if isinstance(v, Ref) and isinstance(st.heap[v.loc], ListV) or isinstance(v, tuple):
            xs = list(v) if isinstance(v, tuple) else st.heap[v.loc].xs
            ts = [eng._sc(x) for x in xs]
            if ts and all(t is not None for t in ts) and which in ('max', 'min'):
                r = ts[0]
                for t in ts[1:]:
                    r = (T.maxv if which == 'max' else T.minv)(eng.num(r), eng.num(t))
                return r
        n = eng.node_of(v, st)
        if which in ('any', 'all'):
            a = eng.arr(v, st) if isinstance(v, (Ref, ArrV)) else None
            if a is not None and a.content.kind in ('T', 'F') and a.mask is None:
                return a.content
            if a is not None and a.content.kind in COND and a.dims:
                b = a if which == 'any' else ArrV(a.dims, notc(a.content), a.mask, a.label)
                t = batom('any', eng.node_of(b, st))
                return t if which == 'any' else notc(t)
            return batom(which, n)
        return A(mk('fn', which, n))
    return f


def _dot(eng, args, kw, st, node, name):
    return eng.matmul(args[0], args[1], st, node)


def _transpose(eng, args, kw, st, node, name):
    return eng.getattr(args[0], 'T', st, node)


def _ones_id(eng, args, kw, st, node, name):
    return args[0]


def _tofloat(eng, args, kw, st, node, name):
    return args[0] if args else ZERO


def _sign(eng, args, kw, st, node, name):
    return eng.mapn(lambda t: ite(sg(eng.num(t), {1}), ONE, ite(sg(eng.num(t), {-1}), const(-1), ZERO)), args[:1], st, node)


def _squeeze(eng, args, kw, st, node, name):
    return args[0]


def _concat(eng, args, kw, st, node, name):
    v = args[0]
    xs = list(v) if isinstance(v, tuple) else st.heap[v.loc].xs if isinstance(v, Ref) and isinstance(st.heap[v.loc], ListV) else None
    if xs is None:
        return eng.unsup(node, name)
    arrs = [eng.arr(x, st) for x in xs]
    if any(a is None or len(a.dims) != 1 or a.mask is not None for a in arrs):
        return eng.unsup(node, name)
    off = ZERO
    c = None
    pieces = []
    for a in arrs:
        pieces.append((off, eng.num(rewrite(a.content, {ELT[0]: sub(elt(0), off)}) if off is not ZERO else a.content)))
        off = add(off, a.dims[0])
    c = pieces[-1][1]
    for i in range(len(pieces) - 2, -1, -1):
        c = ite(sg(sub(elt(0), pieces[i + 1][0]), {-1}), pieces[i][1], c)
    return _mk(eng, st, (off,), c)


def _equalop(S):
    def f(eng, args, kw, st, node, name):
        return eng.mapn(lambda x, y: sg(sub(eng.num(x), eng.num(y)), S), args[:2], st, node)
    return f


import ast as _ast
NP = {
    'zeros': _zeros(0), 'ones': _zeros(1), 'empty': _zeros(None), 'zeros_like': _like(0), 'ones_like': _like(1), 'empty_like': _like(None),
    'full': _full, 'copy': _copy, 'arange': _arange, 'array': _array, 'asarray': _array, 'atleast_1d': _array, 'ascontiguousarray': _array,
    'maximum': _minmax('max'), 'minimum': _minmax('min'), 'fmax': _minmax('max'), 'fmin': _minmax('min'), 'where': _where, 'clip': _clip, 'abs': _abs, 'absolute': _abs, 'fabs': _abs,
    'sqrt': _sqrt, 'power': _power, 'pow': _power, 'float_power': _power, 'add.at': _addat, 'flatnonzero': _flatnonzero, 'logical_and': _logical('and'), 'logical_or': _logical('or'),
    'logical_not': _logical('not'), 'isnan': _isnan, 'isfinite': _isnan, 'isinf': _isnan, 'fill_diagonal': _filldiag, 'eye': _eye, 'identity': _eye, 'diag': _diag, 'sum': _sum,
    'max': _red('max'), 'min': _red('min'), 'any': _red('any'), 'all': _red('all'), 'amax': _red('max'), 'amin': _red('min'), 'dot': _dot, 'matmul': _dot, 'transpose': _transpose,
    'add': _bin(_ast.Add()), 'subtract': _bin(_ast.Sub()), 'multiply': _bin(_ast.Mult()), 'divide': _bin(_ast.Div()), 'true_divide': _bin(_ast.Div()),
    'float64': _tofloat, 'int64': _tofloat, 'int32': _tofloat, 'bool_': _tofloat, 'asscalar': _tofloat, 'sign': _sign, 'squeeze': _squeeze, 'concatenate': _concat,
    'greater': _equalop({1}), 'less': _equalop({-1}), 'greater_equal': _equalop({0, 1}), 'less_equal': _equalop({-1, 0}), 'equal': _equalop({0}), 'not_equal': _equalop({-1, 1}),
    'square': lambda eng, args, kw, st, node, name: eng.mapn(lambda t: mul(eng.num(t), eng.num(t)), args[:1], st, node),
    'negative': lambda eng, args, kw, st, node, name: eng.mapn(lambda t: neg(eng.num(t)), args[:1], st, node),
    'reciprocal': lambda eng, args, kw, st, node, name: eng.mapn(lambda t: powr(eng.num(t), -1), args[:1], st, node),
}


def builtin(eng, name, args, kw, st, node):
    if name == 'len':
        r = _len_of(eng, args[0], st)
        return r if r is not None else eng.unsup(node, 'len')
    if name == 'abs':
        return _abs(eng, args, kw, st, node, name)
    if name in ('max', 'min'):
        if len(args) == 1:
            return _red(name)(eng, args, kw, st, node, name)
        r = args[0]
        for x in args[1:]:
            r = eng.mapn(lambda a, b: (T.maxv if name == 'max' else T.minv)(eng.num(a), eng.num(b)), [r, x], st, node)
        return r
    if name in ('float', 'int', 'bool'):
        if not args:
            return ZERO
        if name == 'bool':
            return eng.cond(args[0], st)
        v = args[0]
        t = eng._sc(v)
        if name == 'int' and t is not None:
            t = eng.num(t)
            if is_int(t) or not t.leaves:
                return t
            if is_const(t):
                return const(int(cval(t)))
            return fn_('int', t)
        if t is not None:
            return eng.num(t)
        return v
    if name == 'sum':
        return _sum(eng, args, kw, st, node, name)
    if name in ('any', 'all'):
        xs = st.heap[args[0].loc].xs if args and isinstance(args[0], Ref) and isinstance(st.heap[args[0].loc], ListV) else args[0] if args and isinstance(args[0], tuple) else None
        if xs is not None and not any(isinstance(x, (Ref, Poison)) for x in xs):
            cs = [eng.cond(x, st) for x in xs]
            if st.facts:
                cs = [rewrite(c, {}, st.facts) for c in cs]
            return (orc if name == 'any' else andc)(*cs)
        return _red(name)(eng, args, kw, st, node, name)
    if name == 'pow':
        return _power(eng, args, kw, st, node, name)
    if name == 'print':
        return None
    if name == 'setattr':
        if isinstance(args[1], str):
            eng.setattr(args[0], args[1], args[2], st)
            return None
        raise Unsupported('setattr with computed name')
    if name == 'getattr':
        if isinstance(args[1], str):
            return eng.getattr(args[0], args[1], st, node)
        return eng.unsup(node, 'getattr')
    if name == 'hasattr':
        if isinstance(args[0], Ref) and isinstance(st.heap[args[0].loc], ObjV) and isinstance(args[1], str):
            h = st.heap[args[0].loc]
            if args[1] in h.attrs or eng.onto.attr(h.name, args[1]) is not None:
                return True
            if h.name.startswith('new:') and eng.repo.find_method(h.cls, args[1]) is None:
                return False
        n = eng.node_of(args[0], st)
        return batom('hasattr', n, str(args[1]))
    if name == 'isinstance':
        v = args[0]
        cl = args[1]
        nm = []
        for c in (cl if isinstance(cl, tuple) and not (cl and cl[0] == 'builtin') else (cl,)):
            nm.append(c[1] if isinstance(c, tuple) else getattr(c, 'path', getattr(c, 'name', '?')))
        if isinstance(v, (str, StrSym)):
            return any('str' in x for x in nm)
        if isinstance(v, N) and v.kind == 'poly' and any(x in ('int', 'float') or 'numbers' in x or 'Number' in x for x in nm):
            return True
        return batom('isinstance', eng.node_of(v, st), ','.join(nm))
    if name in ('list', 'tuple', 'set', 'frozenset'):
        if not args:
            return eng.new_loc(ListV([]), st) if name != 'tuple' else ()
        v = args[0]
        if isinstance(v, tuple):
            return v if name == 'tuple' else eng.new_loc(ListV(list(v)), st)
        if isinstance(v, Ref) and isinstance(st.heap[v.loc], ListV):
            return tuple(st.heap[v.loc].xs) if name == 'tuple' else eng.new_loc(ListV(st.heap[v.loc].xs), st)
        return v
    if name == 'dict':
        if not args:
            return eng.new_loc(DictV(dict(kw)), st)
        return _copy(eng, args, {}, st, node, 'copy')
    if name == 'str':
        return args[0] if isinstance(args[0], (str, StrSym)) else eng.unsup(node, 'str')
    if name == 'sorted' and len(args) == 1 and not kw and isinstance(args[0], Ref):
        h = st.heap[args[0].loc]
        xs = h.xs if isinstance(h, ListV) else list(h.d) if isinstance(h, DictV) and h.base is None else None
        if xs is not None and all(isinstance(x, str) for x in xs):
            return eng.new_loc(ListV(sorted(xs)), st)
    if name in ('enumerate', 'zip', 'range', 'map', 'reversed', 'sorted'):
        return eng.unsup(node, name)
    if name == 'callable':
        return True if isinstance(args[0], Func) else batom('callable', eng.node_of(args[0], st))
    if name == 'type':
        return Ext(mk('ext', 'type', eng.node_of(args[0], st)))
    if name == 'round':
        return fn('round', *[eng.num(eng._sc(a)) for a in args if eng._sc(a) is not None])
    return eng.unsup(node, 'builtin ' + name)


def method(eng, o, name, args, kw, st, node):
    if isinstance(o, str):
        if name == 'lower':
            return o.lower()
        if name == 'format':
            return eng.unsup(node, 'format')
        return eng.unsup(node, 'str method')
    if isinstance(o, StrSym):
        if name in ('lower', 'strip'):
            return o
        return eng.unsup(node, 'str method')
    if isinstance(o, N):
        if name in ('item', 'copy', 'astype', 'squeeze', 'flatten', 'ravel'):
            return o
        if name in ('sum', 'max', 'min'):
            return o
        return eng.unsup(node, 'scalar method ' + name)
    h = st.heap[o.loc] if isinstance(o, Ref) else o
    if isinstance(h, TB().TableV):
        return TB().method(eng, o, h, name, args, kw, st, node)
    if isinstance(h, ArrV):
        a = eng.arr(o, st)
        if name == 'fillna' and len(args) == 1 and len(a.dims) == 1 and eng._sc(args[0]) is not None and a.content.kind == 'poly':
            # a missing entry of a mapped series
            z = eng._sc(args[0])
            m = {x: z for x in all_atoms(a.content) if x.kind == 'ext' and x.args[0] == 'nokey'}
            return _mk(eng, st, a.dims, rewrite(a.content, m) if m else a.content, a.mask)
        if name == 'dropna' and not args and len(a.dims) == 1:
            nn = batom('notnull', a.content)
            return _mk(eng, st, a.dims, a.content, nn if a.mask is None else andc(a.mask, nn))
        if name in ('isin', 'map') and len(a.dims) == 1:
            return TB().mapped(eng, a, name, args, st, node)
        if name == 'fill':
            eng.store_whole(o, args[0], st, node)
            return None
        if name in ('copy', 'astype'):
            if name == 'astype' and args:
                d = args[0]
                if _isbool({}, args, 0) and a.content.kind not in COND:
                    return _mk(eng, st, a.dims, sg(a.content, {-1, 1}), a.mask)
                if a.content.kind in COND and not _isbool({}, args, 0):
                    return _mk(eng, st, a.dims, eng.num(a.content), a.mask)
            return _mk(eng, st, a.dims, a.content, a.mask)
        if name in ('ravel', 'flatten', 'squeeze'):
            if len(a.dims) == 1:
                return o if name == 'ravel' else _mk(eng, st, a.dims, a.content, a.mask)
            return eng.unsup(node, name)
        if name in ('max', 'min', 'any', 'all', 'sum', 'mean', 'cumsum', 'argmax', 'argmin', 'std'):
            f = NP.get(name)
            if f:
                return f(eng, [o] + list(args), kw, st, node, name)
            return opaque(eng, 'numpy.' + name, [o] + list(args), kw, st, node)
        if name == 'dot':
            return eng.matmul(o, args[0], st, node)
        if name == 'item':
            return eng.getitem(o, args[0] if args else ZERO, st, node)
        if name == 'transpose':
            return eng.getattr(o, 'T', st, node)
        if name == 'nonzero':
            return _where(eng, [o], {}, st, node, 'where')
        if name == 'tolist':
            return o
        return eng.unsup(node, 'array method ' + name)
    if isinstance(h, ListV):
        if name == 'append':
            st.heap[o.loc] = ListV(h.xs + [args[0]])
            return None
        if name == 'add':
            st.heap[o.loc] = ListV(h.xs + [args[0]])
            return None
        if name == 'extend':
            if isinstance(args[0], Ref) and isinstance(st.heap[args[0].loc], ListV):
                st.heap[o.loc] = ListV(h.xs + st.heap[args[0].loc].xs)
                return None
        if name == 'copy':
            return eng.new_loc(ListV(h.xs), st)
        if name == 'appendleft' or name == 'insert' and len(args) == 2 and args[0] is ZERO:
            st.heap[o.loc] = ListV([args[-1]] + h.xs)
            return None
        if name in ('popleft', 'pop') and h.xs and (name == 'popleft' and not args or args and args[0] is ZERO or name == 'pop' and not args):
            i = len(h.xs) - 1 if name == 'pop' and not args else 0
            st.heap[o.loc] = ListV(h.xs[:i] + h.xs[i + 1:])
            return h.xs[i]
        st.heap[o.loc] = ListV([Poison('list.' + name)])
        return eng.unsup(node, 'list method ' + name)
    if isinstance(h, DictV):
        if name in ('get', 'setdefault') and len(args) == 2 and h.base is None and h.d and isinstance(args[0], N) and args[0].kind == 'poly' and not is_const(args[0]) and all(isinstance(k, str) for k in h.d):
            # a symbolic key: one case per key (setdefault adds only the key it was asked for, which the other entries do not see)
            c = eng._sc(args[1])
            for k, v in reversed(list(h.d.items())):
                t = eng._sc(v)
                if t is None or c is None:
                    return eng.unsup(node, 'lookup')
                c = ite(batom('streq', args[0], k), t, c)
            if c is not None:
                return c
        if name in ('pop', 'get', 'setdefault'):
            k = args[0]
            d = args[1] if len(args) > 1 else kw.get('default')
            if isinstance(k, str):
                if k in h.d:
                    v = h.d[k]
                    if name == 'pop':
                        dd = dict(h.d)
                        dd.pop(k)
                        st.heap[o.loc] = DictV(dd, h.base)
                    return v
                if h.base is None:
                    if name == 'setdefault':
                        dd = dict(h.d)
                        dd[k] = d
                        st.heap[o.loc] = DictV(dd, h.base)
                    return d
                c = batom('in', mk('ext', 'str', k), h.base)
                v = eng.dict_base_get(h.base, k)
                if isinstance(v, ArrV):
                    v = eng.new_loc(v, st)
                return eng.merge_val(c, v, d, st, st, st)
            return eng.unsup(node, 'dict.%s of computed key' % name)
        if name == 'update':
            dd = dict(h.d)
            if args and isinstance(args[0], Ref) and isinstance(st.heap[args[0].loc], DictV) and eng.dict_full(args[0], st) is not None:
                dd.update(eng.dict_full(args[0], st).d)
            elif args:
                return eng.unsup(node, 'dict.update')
            dd.update(kw)
            st.heap[o.loc] = DictV(dd, h.base)
            return None
        if name == 'copy':
            return eng.new_loc(DictV(dict(h.d), h.base), st)
        if name in ('keys', 'values', 'items'):
            full = eng.dict_full(o, st)
            if full is not None:
                h = full
                if name == 'keys':
                    return tuple(h.d)
                if name == 'values':
                    return tuple(h.d.values())
                return tuple((k, v) for k, v in h.d.items())
            return Ext(mk('ext', 'call', mk('ext', 'attr', h.base, name), (), ()))
        return eng.unsup(node, 'dict method ' + name)
    return eng.unsup(node, 'method ' + name)
