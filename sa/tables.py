"""Abstract data frames: one symbolic row per element, one array per column.

A table has a known set of columns (the scenario) and an unknown number of rows; its row labels are taken to be
0..n-1.  A column read gives the column's array; storing a column or a cell stores into that array."""
from .terms import *
from .interp import *
from .interp import COND


INDEX = '\0index'     # the column holding the row labels, where they are not 0..n-1 in order


class TableV:
    __slots__ = ('name', 'n', 'cols')

    def __init__(self, name, n, cols):
        self.name, self.n, self.cols = name, n, dict(cols)

    def __eq__(self, o):
        return isinstance(o, TableV) and self.name == o.name and self.n is o.n and self.cols == o.cols

    def __hash__(self):
        return hash(self.name)


class Table:
    """description of a table argument: columns of numbers 'f', integers 'i', truth values 'b', strings 's', the row number 'row'"""

    def __init__(self, name, space, schema):
        self.name, self.space, self.schema = name, space, schema

    def build(self, eng, st):
        n = self.space if isinstance(self.space, N) else eng.onto.size(self.space) if hasattr(eng.onto, 'size') else A(mk('sym', 'N', self.space))
        cols = {}
        for c, k in self.schema.items():
            nm = '%s.%s' % (self.name, c)
            content = batom('b', nm, elt(0)) if k == 'b' else elt(0) if k == 'row' else A(mk('sel', nm, elt(0)))
            cols[c] = eng.new_loc(ArrV((n,), content, None, nm), st)
        return eng.new_loc(TableV(self.name, n, cols), st)


def is_table(v, st):
    return isinstance(v, Ref) and isinstance(st.heap.get(v.loc), TableV)


def copy_table(eng, v, st, deep=True):
    h = st.heap[v.loc]
    cols = {}
    for c, x in h.cols.items():
        if isinstance(x, Ref) and isinstance(st.heap[x.loc], ArrV) and deep:
            a = eng.arr(x, st)
            x = eng.new_loc(ArrV(a.dims, a.content, a.mask, a.label), st)
        cols[c] = x
    return eng.new_loc(TableV(h.name, h.n, cols), st)


def arange(eng, n, st):
    return eng.new_loc(ArrV((n,), A(elt(0)) if elt(0).kind != 'poly' else elt(0)), st)


def getattr_(eng, o, h, name, st, node):
    if name in ('loc', 'iloc', 'at', 'iat'):
        return ('tloc', o, name)
    if name == 'columns':
        return ('tcols', o)
    if name == 'index':
        return ('tindex', o)
    if name == 'shape':
        return (h.n, const(len(h.cols)))
    if name == 'values':
        return eng.unsup(node, 'values of a table')
    if name in h.cols:
        return h.cols[name]
    return ('method', o, name)


def tuple_attr(eng, o, name, st, node):
    """attributes of the pseudo values"""
    h = st.heap[o[1].loc]
    if o[0] == 'series' and name in ('index', 'values'):
        return o[1] if name == 'index' else o[2]
    if o[0] == 'tindex':
        if name in ('values', 'array'):
            return h.cols.get(INDEX) or arange(eng, h.n, st)
        if name == 'size':
            return h.n
        if name == 'shape':
            return (h.n,)
        return ('tindexm', o[1], name)
    if o[0] == 'tgroupcol':
        return ('tgroupm', o, name)
    if o[0] == 'tcols' and name in ('values', 'tolist'):
        return o
    if o[0] == 'str' and name in ('lower', 'upper', 'strip'):
        return ('strm', o[1], name)
    return eng.unsup(node, 'attribute %s of a table part' % name)


def column(eng, o, h, c, node):
    if c in h.cols:
        return h.cols[c]
    return eng.unsup(node, 'table %s has no column %s' % (h.name, c))


def getitem(eng, o, h, idx, st, node):
    if isinstance(idx, str):
        return column(eng, o, h, idx, node)
    if isinstance(idx, (Ref, ArrV)):
        # selection of rows
        if isinstance(idx, Ref) and isinstance(st.heap[idx.loc], ListV):
            xs = st.heap[idx.loc].xs
            if all(isinstance(x, str) for x in xs):
                return eng.new_loc(TableV(h.name, h.n, {x: h.cols[x] for x in xs if x in h.cols}), st)
    return eng.unsup(node, 'table selection')


def tloc_get(eng, o, idx, st, node):
    ref = o[1]
    h = st.heap[ref.loc]
    if isinstance(idx, tuple) and len(idx) == 2 and isinstance(idx[1], str):
        col = column(eng, ref, h, idx[1], node)
        if isinstance(idx[0], slice) and idx[0].start is None and idx[0].stop is None and idx[0].step is None:
            return col
        if not isinstance(col, Ref):
            return col
        return eng.getitem(col, idx[0], st, node)
    if o[2] in ('iloc', 'loc') and isinstance(idx, (Ref, ArrV)) and (o[2] == 'iloc' or INDEX not in h.cols):
        ia = eng.arr(idx, st)
        if ia is not None and ia.mask is None and len(ia.dims) == 1 and ia.content.kind == 'poly':
            cols = {c: eng.getitem(v, idx, st, node) for c, v in h.cols.items()}
            if all(isinstance(v, Ref) for v in cols.values()):
                cols[INDEX] = eng.new_loc(ArrV(ia.dims, ia.content, None, INDEX), st)
                return eng.new_loc(TableV(h.name, ia.dims[0], cols), st)
    return eng.unsup(node, 'table location')


def tloc_set(eng, o, idx, v, st, node):
    ref = o[1]
    h = st.heap[ref.loc]
    if isinstance(idx, tuple) and len(idx) == 2 and isinstance(idx[1], str):
        if isinstance(idx[0], slice) and idx[0].start is None and idx[0].stop is None and idx[0].step is None:
            return setcol(eng, ref, h, idx[1], v, st, node)
        if idx[1] in h.cols:
            eng.setitem(h.cols[idx[1]], idx[0], v, st, node)
            return
    raise Unsupported('table store')


def setcol(eng, ref, h, c, v, st, node):
    cols = dict(h.cols)
    if isinstance(v, (Ref, ArrV)):
        a = eng.arr(v, st)
        if a is None:
            raise Unsupported('column store')
        cols[c] = eng.new_loc(ArrV(a.dims, a.content, a.mask, '%s.%s' % (h.name, c)), st)
    elif isinstance(v, str):
        cols[c] = eng.new_loc(ArrV((h.n,), A(mk('ext', 'str', v)), None, c), st)
    else:
        t = eng._sc(v)
        if t is None:
            raise Unsupported('column store')
        cols[c] = eng.new_loc(ArrV((h.n,), t, None, c), st)
    st.heap[ref.loc] = TableV(h.name, h.n, cols)


def contains(h, a):
    return TRUE if a in h.cols else FALSE


def method(eng, o, h, name, args, kw, st, node):
    if name in ('sort_index', 'sort_values') and not kw and (INDEX in h.cols if name == 'sort_index' else args and args[0] in h.cols):
        return sort_rows(eng, o, h, INDEX if name == 'sort_index' else args[0], st, node)
    if name == 'reset_index' and INDEX in h.cols and (set(kw) != {'drop'} or kw['drop'] is not True):
        return eng.unsup(node, 'reset_index keeping the labels')
    if name == 'reset_index':
        r = copy_table(eng, o, st)
        st.heap[r.loc].cols.pop(INDEX, None)
        return r
    if name == 'set_index' and args and isinstance(args[0], (str, Ref)):
        r = copy_table(eng, o, st)
        hh = st.heap[r.loc]
        if isinstance(args[0], str) and args[0] in hh.cols and kw.get('drop') is False and set(kw) == {'drop'}:
            setcol(eng, r, hh, INDEX, hh.cols[args[0]], st, node)
            return r
        if isinstance(args[0], Ref) and isinstance(st.heap[args[0].loc], ArrV) and not kw:
            setcol(eng, r, hh, INDEX, args[0], st, node)
            return r
        return eng.unsup(node, 'set_index')
    if name in ('copy', 'sort_index', 'infer_objects', '__deepcopy__') and (name != 'sort_index' or not (args or kw)):
        return copy_table(eng, o, st)
    if name == 'rename':
        c = kw.get('columns')
        if isinstance(c, Ref) and isinstance(st.heap[c.loc], DictV) and not args and set(kw) <= {'columns'}:
            m = st.heap[c.loc].d
            r = copy_table(eng, o, st)
            hh = st.heap[r.loc]
            st.heap[r.loc] = TableV(hh.name, hh.n, {(m.get(k, k)): v for k, v in hh.cols.items()})
            return r
    if name == 'groupby' and args and isinstance(args[0], str):
        return ('tgroup', o, args[0])
    if name == 'get' and args and isinstance(args[0], str):
        return h.cols.get(args[0], args[1] if len(args) > 1 else None)
    return eng.unsup(node, 'table method ' + name)


def sort_rows(eng, o, h, key, st, node):
    """rows in the order of a column that is a permutation of the row numbers"""
    k = eng.arr(h.cols[key], st)
    x = as_atom(k.content) if k is not None and k.mask is None and k.content.kind == 'poly' else None
    if k is not None and k.content is elt(0):
        place = elt(0)
    elif x is not None and x.kind == 'sel' and x.args[0] in PERM and x.args[1:] == (elt(0),):
        place = A(mk('sel', PERM[x.args[0]], elt(0)))
    else:
        return eng.unsup(node, 'sorting rows')
    cols = {}
    for c, v in h.cols.items():
        a = eng.arr(v, st)
        if a is None or a.mask is not None:
            return eng.unsup(node, 'sorting rows')
        cols[c] = eng.new_loc(ArrV(a.dims, a.content if place is elt(0) else rewrite(a.content, {ELT[0]: place}), None, a.label), st)
    if key == INDEX:
        del cols[INDEX]
    return eng.new_loc(TableV(h.name, h.n, cols), st)


def part_call(eng, fv, args, kw, st, node):
    if fv[0] == 'strm':
        a = eng.arr(fv[1], st)
        if fv[2] == 'lower' and a is not None:
            return eng.new_loc(ArrV(a.dims, A(mk('ext', 'strf', 'lower', a.content)), a.mask, a.label), st)
        return eng.unsup(node, 'string method ' + fv[2])
    if fv[0] == 'tgroupm' and fv[2] in ('cumsum', 'min', 'max', 'sum', 'first', 'last', 'count') and not args:
        _, ref, key, col = fv[1]
        h = st.heap[ref.loc]
        k, c = eng.arr(h.cols.get(key), st), eng.arr(h.cols.get(col), st)
        if k is None or c is None or k.mask is not None or c.mask is not None:
            return eng.unsup(node, 'grouped table')
        g = mk('ext', 'lib', 'groupby.' + fv[2], (eng.node_of(h.cols[key], st), eng.node_of(h.cols[col], st)), ())
        n = h.n if fv[2] == 'cumsum' else A(mk('sym', 'N', 'groups'))
        return eng.new_loc(ArrV((n,), A(mk('app', g, elt(0)))), st)
    if fv[0] == 'tindexm':
        r = arange(eng, st.heap[fv[1].loc].n, st)
        if fv[2] in ('astype', 'to_numpy', 'copy'):
            return r
        return eng.unsup(node, 'index method ' + fv[2])
    return eng.unsup(node, 'table operation')


def mapped(eng, a, name, args, st, node):
    """series.map(dictionary) / series.isin(collection of strings)"""
    d = args[0]
    if isinstance(d, tuple) and d and d[0] == 'constdict':
        d = DictV(eng.repo.const_dict(d[1], d[2]))
    if isinstance(d, DictV) and d.base is None:
        items = d.d
    elif isinstance(d, Ref) and isinstance(st.heap[d.loc], DictV) and st.heap[d.loc].base is None:
        items = st.heap[d.loc].d
    elif isinstance(d, Ref) and isinstance(st.heap[d.loc], ListV):
        items = {x: None for x in st.heap[d.loc].xs}
    else:
        return eng.unsup(node, name)
    if not all(isinstance(k, str) for k in items):
        return eng.unsup(node, name)
    c = None
    if name == 'isin':
        c = orc(*[batom('streq', a.content, k) for k in items])
    else:
        c = A(mk('ext', 'nokey', a.content))
        for k, v in reversed(list(items.items())):
            t = eng._sc(v)
            if t is None:
                return eng.unsup(node, name)
            c = ite(batom('streq', a.content, k), t, c)
    return eng.new_loc(ArrV(a.dims, c, a.mask, a.label), st)
