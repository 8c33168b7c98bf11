"""The simulation driver: what reaches the model in each step, recorded snapshots, step size control, assimilation."""
from .groups import *
from .groups import group
from .ontology import Onto
from .obl_geometry import cmp_vals, val, wf
from .run import run_func
from . import terms as T
import ast

SIM = 'Simulation'
CLS = 'nSuperLink'


def sonto():
    o = Onto()
    o.prefix['model'] = 'H.'
    return o


OBJ = {'model': (CLS, 'model')}


def formals(repo, cls, name):
    f = repo.method(cls, name)[0]
    return [a.arg for a in f.args.args if a.arg != 'self'], {a.arg: d for a, d in zip(f.args.args[len(f.args.args) - len(f.args.defaults):], f.args.defaults)}


def logger(repo, cls, name, log):
    """records how a method of the model is called: {formal: value}"""
    names, defaults = formals(repo, cls, name)

    def f(eng, st, args, kw, node):
        if not (args and isinstance(args[0], Ref) and isinstance(st.heap[args[0].loc], ObjV) and st.heap[args[0].loc].name == 'model'):
            return NotImplemented
        d = dict(zip(names, args[1:]))
        d.update(kw)
        d = {k: snap(eng, st, v) for k, v in d.items()}
        for k, v in defaults.items():
            if k not in d:
                d[k] = snap(eng, st, eng.ev(v, st))
        me = st.heap[args[0].loc]
        log.append((name, d, {k: snap(eng, st, v) for k, v in me.attrs.items()}, '%s:%d' % (eng.curfile[-1], getattr(node, 'lineno', 0))))
        return None
    return f


def snap(eng, st, v):
    if isinstance(v, (Ref, ArrV)):
        a = eng.arr(v, st)
        if a is not None:
            return (a.dims, a.content if a.mask is None else A(mk('poison', 'compressed')))
        return v
    t = eng._sc(v)
    return ((), t) if t is not None else v


def sample(eng, st, args, kw, node):
    """the value of a time series at a time"""
    names = ('x', 'xp', 'fp', 'method')
    d = dict(zip(names, args))
    d.update(kw)
    d.setdefault('method', ONE)
    n = mk('ext', 'lib', 'the sampled series', tuple(eng.node_of(d[k], st) for k in names), ())
    return eng.new_loc(ArrV((Ns('col'),), A(mk('app', n, elt(0)))), st)


def cmp_any(name, wh, a, b):
    if isinstance(a, tuple) and len(a) == 2 and isinstance(b, tuple) and len(b) == 2:
        return cmp_vals(name, wh, a, b)
    if type(a) is type(b) and a == b:
        return Result(name, 'ok', wh)
    simple = (type(None), bool, str)
    if isinstance(a, Poison) or isinstance(b, Poison):
        return Result(name, 'undecided', wh, 'not modelled: %r' % (a,))
    if (a is None) != (b is None):
        return Result(name, 'violation', wh, 'the value is %s, expected %s' % (show(a), show(b)))
    if isinstance(a, simple) and isinstance(b, simple):
        return Result(name, 'violation', wh, 'the value is %s, expected %s' % (show(a), show(b)))
    return Result(name, 'undecided', wh, 'the value is %s, expected %s' % (show(a), show(b)))


def show(v):
    return repr(v[1] if isinstance(v, tuple) and len(v) == 2 else v)[:200]


SERIES = {'Q_in': 'Q_in', 'H_bc': 'H_bc', 'Q_Ik': 'Q_0Ik'}
CTRL = {'u_o': 'o', 'u_w': 'w', 'u_p': 'p'}


@group('simulation.inputs', 'C17')
def _inputs(repo, out):
    wh = where_method(repo, SIM, '_step')
    for tag, have, given in (('series only', SERIES, ()), ('no series', (), ()), ('flow series only', ('Q_in',), ()), ('stage series only', ('H_bc',), ()), ('lateral series only', ('Q_Ik',), ()),
                             ('everything passed', SERIES, tuple(SERIES)), ('flow passed', SERIES, ('Q_in',)), ('stage passed', SERIES, ('H_bc',)), ('lateral passed', SERIES, ('Q_Ik',)),
                             ('flow passed, no series', (), ('Q_in',)), ('banded passed', SERIES, ('banded',))):
        pre = {s: (Ext(mk('ext', 'obj', 'series ' + s)) if s in have else None) for s in SERIES}
        pre['interpolation'] = A(mk('sym', 'int', 'interpolation'))
        args = {'dt': sym('dt_in')}
        for u, sp in CTRL.items():
            args[u] = garr(u + '_in', sp)
        for s in given:
            args[s] = batom('opt', 'banded_in') if s == 'banded' else garr(s + '_in', 'j' if s != 'Q_Ik' else 'Ik')
        log = []
        ov = {'interpolate_sample': sample, 'step': logger(repo, CLS, 'step', log)}
        e = run_method(repo, SIM, '_step', args, pre=pre, onto=sonto(), objs=OBJ, overrides=ov, facts=[(batom('isnone', pre[s].node), False) for s in have])
        nm = '%s._step[%s]' % (SIM, tag)
        if len(log) != 1:
            out.add([Result(nm + ' steps the model once', 'violation' if not e.eng.unmodelled and not log else 'undecided', wh, '%d calls of the model step seen' % len(log))], e.eng.unmodelled)
            continue
        _, d, _, w = log[0]
        # expected: every series sampled at the end of the step
        eng, st = e.eng, State({}, {})
        exp = {'dt': ((), sym('dt_in'))}
        for s, formal in SERIES.items():
            if s in given:
                exp[formal] = (args[s].dims, args[s].content)
            elif s in have:
                x = pre[s].node
                v = sample(eng, st, [add(sym('H.t'), sym('dt_in')), Ext(mk('ext', 'attr', x, 'index')), Ext(x), pre['interpolation']], {}, None)
                exp[formal] = snap(eng, st, v)
            else:
                exp[formal] = None
        exp['banded'] = ((), args['banded']) if 'banded' in given else ((), batom('opt', 'H.banded'))
        for u in CTRL:
            exp[u] = (args[u].dims, args[u].content)
        for k, v in exp.items():
            out.add([cmp_any('%s passes %s to the model' % (nm, k), w, d.get(k), v)])
        out.add([], e.eng.unmodelled, [SIM + '._step'])


def nodes(t):
    seen, todo = set(), [t]
    while todo:
        x = todo.pop()
        if isinstance(x, N):
            if id(x) not in seen:
                seen.add(id(x))
                yield x
                todo.extend(x.args)
        elif isinstance(x, tuple):
            todo.extend(x)


def ends(t):
    for c in nodes(t):
        if c.kind == 'sg':
            for a in nodes(c):
                if a.kind == 'sel' and a.args[0] == 'xp' and not any(b.kind == 'ext' for b in nodes(a.args[1])):
                    if a.args[1] is ZERO or any(b.kind == 'sym' for b in nodes(a.args[1])):
                        return True
    return False


@group('simulation.interpolation', 'C17 C29')
def _interp(repo, out):
    from .oblig import compare_terms
    for mod in ('pipedream_solver.utils', 'pipedream_solver.nutils'):
        for method, what in ((1, 'linear'), (0, 'nearest')):
            args = [sym('x'), garr('xp', 'rec'), garr('fp', 'rec', 'col'), const(method)]
            nm = '%s.interpolate_sample[%s]' % (mod.split('.')[-1], what)
            e, st, r, _ = run_func(repo, mod, 'interpolate_sample', args)
            wh = wf(repo, mod, 'interpolate_sample')
            got = val(e, st, r)
            refs = []
            for s in ('sample_left', 'sample_right', 'sample_ends'):
                es, ss, rr, _ = run_func(repo, 'spec.simulation', s, args)
                if es.unmodelled:
                    raise RuntimeError('reference unmodelled: %s' % es.unmodelled[:3])
                refs.append(cmp_vals(nm, wh, got, val(es, ss, rr)))
            best = next((x for x in refs if x.status == 'ok'), None) or next((x for x in refs if x.status == 'undecided'), None) or refs[0]
            if best.status == 'violation' and isinstance(got, tuple) and ends(got[1]):
                # comparisons with the first or last record decide the same thing as the position found
                best = Result(nm, 'undecided', wh, 'compares with the end records in a way the analysis does not relate to the search')
            out.add([best], e.unmodelled, ['%s.interpolate_sample' % mod.split('.')[-1]])


@group('simulation.controllers', 'C19')
def _controllers(repo, out):
    names = ('min_dt', 'max_dt', 'min_rel_change', 'max_rel_change')
    pos = lambda n: A(mk('sym', 'pos', n))
    # the limits are positive and in order
    bounds = lambda t: {'min_dt': pos('min_dt' + t), 'max_dt': add(pos('min_dt' + t), pos('range of dt' + t)),
                        'min_rel_change': pos('min_rel' + t), 'max_rel_change': add(pos('min_rel' + t), pos('range of rel' + t))}
    lims, given = bounds(''), bounds('_in')
    pre = dict(lims, dt=pos('S.dt'), tol=pos('S.tol'), safety_factor=pos('S.sf'))
    e3 = [pos('err%d' % i) for i in range(3)]
    d3 = [pos('dt%d' % i) for i in range(3)]
    co = [sym('c%d' % i) for i in range(5)]
    for meth, tag, args, p, facts in (
            ('compute_step_size', 'own settings', {'err': sym('err_in')}, pre, ()),
            ('compute_step_size', 'explicit settings', dict(given, dt=pos('dt_in'), err=sym('err_in'), tol=pos('tol_in'), safety_factor=pos('sf_in')), pre, ()),
            ('compute_step_size', 'recorded error', {}, dict(pre, err=sym('S.err')), ()),
            ('compute_step_size', 'no error known', {}, dict(pre, err=None), ()),
            ('filter_step_size', 'own settings', {'coeffs': co}, dict(pre, errs=e3, dts=d3), ()),
            ('filter_step_size', 'explicit settings', dict(given, coeffs=co, errs=e3, dts=d3, tol=pos('tol_in'), safety_factor=pos('sf_in'), k=pos('k_in')), dict(pre, errs=[sym('q')], dts=[sym('q')]), ()),
            ('filter_step_size', 'too few steps', {'coeffs': co}, dict(pre, errs=e3[:2], dts=d3[:2]), ())):
        nm = '%s.%s[%s]' % (SIM, meth, tag)
        wh = where_method(repo, SIM, meth)
        g = runm(repo, SIM, meth, args, p)
        r = runm(repo, 'SpecSim', meth, args, p)
        if r.eng.unmodelled:
            raise RuntimeError('reference unmodelled: %s' % r.eng.unmodelled[:3])
        res = cmp_any(nm + ' gives the documented step size within the limits', wh, snap(g.eng, g.st, g.ret), snap(r.eng, r.st, r.ret))
        out.add([res], g.eng.unmodelled, [SIM + '.' + meth])

    for norm in (0, 1, 2, -1):
        nm, wh = '%s._normed_error[norm %d]' % (SIM, norm), where_method(repo, SIM, '_normed_error')
        g = runm(repo, SIM, '_normed_error', {'scaled_err': garr('pos.scaled', 'j'), 'norm': const(norm)}, pre)
        r = runm(repo, 'SpecSim', '_normed_error', {'scaled_err': garr('pos.scaled', 'j'), 'norm': const(norm)}, pre)
        if r.eng.unmodelled:
            raise RuntimeError('reference unmodelled: %s' % r.eng.unmodelled[:3])
        out.add([cmp_any(nm, wh, snap(g.eng, g.st, g.ret), snap(r.eng, r.st, r.ret))], g.eng.unmodelled, [SIM + '._normed_error'])
    facts = [(batom('in', mk('ext', 'str', 'H_j'), mk('ext', 'states', 'H.')), True)]
    g = runm(repo, SIM, '_scaled_error', {'err': garr('raw', 'j')}, pre, facts=facts)
    r = runm(repo, 'SpecSim', '_scaled_error', {'err': garr('raw', 'j')}, pre, facts=facts)
    if r.eng.unmodelled:
        raise RuntimeError('reference unmodelled: %s' % r.eng.unmodelled[:3])
    out.add([cmp_any(SIM + '._scaled_error', where_method(repo, SIM, '_scaled_error'), snap(g.eng, g.st, g.ret), snap(r.eng, r.st, r.ret))], g.eng.unmodelled, [SIM + '._scaled_error'])


def runm(repo, cls, meth, args, pre, **kw):
    """lists among arguments and attributes become objects of the analysed program"""
    wrap = lambda v: ListV(tuple(v)) if isinstance(v, list) else v
    return run_method(repo, cls, meth, {k: wrap(v) for k, v in args.items()}, pre={k: wrap(v) for k, v in pre.items()}, onto=kw.pop('onto', None) or sonto(), objs=OBJ, **kw)


TOKENS = {}


def token(*key):
    """a name for a value that depends on exactly these values"""
    return 'token%d' % TOKENS.setdefault(key, len(TOKENS))


def model_step(repo):
    names, defaults = formals(repo, CLS, 'step')

    def f(eng, st, args, kw, node):
        """one step of the model: the new heads are a function of the old ones and of everything passed"""
        if not (args and isinstance(args[0], Ref) and isinstance(st.heap[args[0].loc], ObjV) and st.heap[args[0].loc].name == 'model'):
            return NotImplemented
        me = st.heap[args[0].loc]
        d = dict(zip(names, args[1:]))
        d.update(kw)
        H, t = me.attrs['H_j'], me.attrs['t']
        passed = tuple(mk('ext', 'arg', k, eng.node_of(d[k], st)) for k in sorted(d) if d[k] is not None)
        dt = eng.scalar(d['dt'], st)
        at = dict(me.attrs)
        at['H_j'] = eng.new_loc(garr(token('H', eng.node_of(H, st), passed), 'j'), st)
        at['t'] = add(eng.scalar(t, st), dt)
        h = st.heap[H.loc]
        old = eng.new_loc(ArrV(h.dims, h.content), st)
        st.heap[me.attrs['states'].loc] = DictV({'t': t, 'H_j': old})
        st.heap[args[0].loc] = ObjV(me.cls, at, me.name)
        return None
    return f


def model_load(eng, st, args, kw, node):
    if not (args and isinstance(args[0], Ref) and isinstance(st.heap[args[0].loc], ObjV) and st.heap[args[0].loc].name == 'model'):
        return NotImplemented
    me = st.heap[args[0].loc]
    s = args[1] if len(args) > 1 else kw.get('states', me.attrs['states'])
    if not isinstance(s, Ref) or not isinstance(st.heap[s.loc], DictV):
        st.heap[args[0].loc] = ObjV(me.cls, dict(me.attrs, H_j=Poison('states loaded'), t=Poison('states loaded')), me.name)
        return None
    d = st.heap[s.loc].d
    if not d:
        d = st.heap[me.attrs['states'].loc].d
    at = dict(me.attrs)
    for k, v in d.items():
        if isinstance(v, Ref):
            h = st.heap[v.loc]
            v = eng.new_loc(ArrV(h.dims, h.content), st)
        at[k] = v
    st.heap[args[0].loc] = ObjV(me.cls, at, me.name)
    return None


def error_norm(eng, st, args, kw, node):
    return sym(token('norm', tuple(eng.node_of(v, st) for v in args[1:]), tuple(eng.node_of(kw[k], st) for k in sorted(kw))))


def error_scale(eng, st, args, kw, node):
    """depends on the magnitude of the error and on the model's heads"""
    a = eng.arr(args[1], st)
    me = st.heap[st.heap[args[0].loc].attrs['model'].loc]
    return eng.new_loc(garr(token('scaled', mul(a.content, a.content), eng.node_of(me.attrs['H_j'], st)), 'j'), st)


@group('simulation.substeps', 'C19')
def _substeps(repo, out):
    wh = where_method(repo, SIM, 'step')
    ov = {'step': model_step(repo), 'load_state': model_load}
    for subs in (1, 2, 3):
        for retries in (0, 1, 2):
            if subs == 1 and retries or subs == 3 and retries == 2:
                continue
            for given in (True, False):
                if not given and subs * retries != 0:
                    continue
                tag = '%d substeps, %d retries%s' % (subs, retries, '' if given else ', own dt')
                args = {'subdivisions': const(subs), 'retries': const(retries), 'tol': sym('tol_in'), 'norm': const(1),
                        'kwargs': {'u_o': garr('u_o_in', 'o'), 'Q_in': garr('Q_in_in', 'j')}}
                if given:
                    args['dt'] = sym('dt_in')
                for abstract in (True, False):
                    o = dict(ov, _normed_error=error_norm, _scaled_error=error_scale) if abstract else ov
                    g, r = step_run(repo, SIM, args, o), step_run(repo, 'SpecSim', args, o)
                    if r[0].unmodelled:
                        raise RuntimeError('reference unmodelled: %s' % r[0].unmodelled[:3])
                    res = [cmp_any('%s.step[%s]: %s after the step' % (SIM, tag, k), wh, g[1].get(k), r[1][k]) for k in r[1]]
                    if all(x.status == 'ok' for x in res):
                        break
                out.add(res)
                out.add([], g[0].unmodelled, [SIM + '.step', SIM + '._step', SIM + '.load_state'])


def step_run(repo, cls, args, ov):
    eng = new_engine(repo, sonto())
    eng.overrides.update(ov)
    f, mod = repo.method(cls, 'step')
    st = State({}, {})
    eng.curmod, eng.curcls = mod, repo.cls_of(f)
    eng.curfile.append(repo.file_of(mod))
    H = eng.new_loc(garr('H0', 'j'), st)
    states = eng.new_loc(DictV({'t': sym('t_prev'), 'H_j': eng.new_loc(garr('H_prev', 'j'), st)}), st)
    model = eng.new_loc(ObjV(CLS, {'H_j': H, 't': sym('t0'), 'states': states, 'banded': True}, 'model'), st)
    dts, errs = eng.new_loc(ListV((sym('dt_a'),)), st), eng.new_loc(ListV((sym('err_a'),)), st)
    me = eng.new_loc(ObjV(cls, {'model': model, 'dts': dts, 'errs': errs, 'dt': sym('S.dt'), 'min_dt': sym('S.min_dt'), '_iter_count': A(mk('sym', 'int', 'n')),
                                'Q_in': None, 'H_bc': None, 'Q_Ik': None, 'interpolation': ONE, 'err': None}, 'self'), st)
    kw = {k: v for k, v in args.items() if k != 'kwargs'}
    for k, v in args['kwargs'].items():
        kw[k] = eng.new_loc(v, st)
    try:
        eng.call_func(Func(f, mod, bound=me), [me], kw, st, f)
    except (Unsupported, TooBig) as e:
        eng.unmodelled.append(str(e))
        return eng, {}
    m, s = st.heap[model.loc], st.heap[me.loc]
    o = {'heads': snap(eng, st, m.attrs['H_j']), 'time': snap(eng, st, m.attrs['t']), 'dt': snap(eng, st, s.attrs['dt']), 'err': snap(eng, st, s.attrs['err'])}
    for k in ('dts', 'errs'):
        v = st.heap[s.attrs[k].loc] if isinstance(s.attrs[k], Ref) else s.attrs[k]
        xs = list(v.xs) if isinstance(v, ListV) else None
        o['number of recorded ' + k] = ((), const(len(xs))) if xs is not None else Poison('list')
        for i, x in enumerate(xs or ()):
            o['%s[%d]' % (k, i)] = snap(eng, st, x)
    return eng, o


RECORDED = {'H_j': 'j', 'h_Ik': 'Ik', 'Q_ik': 'ik', 'Q_uk': 'k', 'Q_dk': 'k', 'Q_o': 'o', 'Q_w': 'w', 'Q_p': 'p', 'x_Ik': 'Ik'}


def frame(orient):
    def f(eng, st, args, kw, node):
        d = args[0] if args else kw.get('data')
        o = kw.get('orient', args[1] if orient == 'columns' and len(args) > 1 and isinstance(args[1], str) else orient)
        data = d
        if isinstance(d, Ref) and isinstance(st.heap[d.loc], DictV):
            data = eng.new_loc(DictV(dict(st.heap[d.loc].d), st.heap[d.loc].base), st)
        cols = kw.get('columns')
        at = {'data': data, 'rows': o == 'index', 'columns': cols if o == 'index' else None, 'index': cols if o != 'index' else None}
        other = dict(at, rows=o != 'index', columns=at['index'], index=at['columns'])
        t = eng.new_loc(ObjV(None, other, 'table'), st)
        return eng.new_loc(ObjV(None, dict(at, T=t), 'table'), st)
    return f


def recording_state(repo, method, present, recorded):
    """a simulation whose model holds the given variables and whose results hold an earlier snapshot of some"""
    eng = new_engine(repo, sonto())
    f, mod = repo.method(SIM, method)
    st = State({}, {})
    eng.curmod, eng.curcls = mod, repo.cls_of(f)
    eng.curfile.append(repo.file_of(mod))
    live = {k: eng.new_loc(garr('live.' + k, RECORDED[k]), st) for k in RECORDED}
    before = {k: eng.new_loc(garr('before.' + k, RECORDED[k]), st) for k in present}
    names = {k: Ext(mk('ext', 'obj', k)) for k in ('superjunction_names', 'superlink_names')}
    at = dict(live, t=sym('t_now'), states=eng.new_loc(DictV(before), st), **names)
    model = eng.new_loc(ObjV(CLS, at, 'model'), st)
    old = {k: eng.new_loc(garr('old.' + k, RECORDED[k]), st) for k in recorded}
    rec = eng.new_loc(ObjV('States', {k: eng.new_loc(DictV({sym('t_old'): old[k]}), st) for k in recorded}, 'new:States#rec'), st)
    sv = eng.new_loc(DictV(dict(RECORDED)), st)
    me = eng.new_loc(ObjV(SIM, {'model': model, 'states': rec, 'state_variables': sv}, 'self'), st)
    return eng, st, f, mod, me, rec, live, old, names


@group('simulation.recording', 'C18')
def _recording(repo, out):
    wh = where_method(repo, SIM, 'record_state')
    every = list(RECORDED)
    few = [k for k in every if k not in ('Q_o', 'Q_w', 'Q_p')]
    for tag, present, recorded in (('first snapshot', every, ()), ('later snapshot', every, every), ('no orifices, weirs or pumps', few, few)):
        eng, st, f, mod, me, rec, live, old, _ = recording_state(repo, 'record_state', present, recorded)
        try:
            eng.call_func(Func(f, mod, bound=me), [me], {}, st, f)
        except (Unsupported, TooBig) as e:
            eng.unmodelled.append(str(e))
        at = st.heap[rec.loc].attrs
        for k in present:
            nm = '%s.record_state[%s] %s' % (SIM, tag, k)
            v = at.get(k)
            d = st.heap[v.loc].d if isinstance(v, Ref) and isinstance(st.heap[v.loc], DictV) else None
            if d is None:
                out.add([Result(nm, 'violation' if v is None and not eng.unmodelled else 'undecided', wh, 'nothing is recorded' if v is None else 'recorded as %s' % show(v))])
                continue
            if k in recorded:
                o = d.get(sym('t_old'))
                out.add([Result(nm + ': earlier snapshot kept', 'ok', wh) if isinstance(o, Ref) and o.loc == old[k].loc and st.heap[o.loc].content is garr('old.' + k, RECORDED[k]).content
                         else Result(nm + ': earlier snapshot kept', 'undecided' if eng.unmodelled else 'violation', wh, 'the snapshot taken before is %s' % show(o))])
            new = [x for x in d if x is not sym('t_old')]
            if new != [sym('t_now')]:
                out.add([Result(nm + ' under the time of recording', 'undecided' if eng.unmodelled or not all(isinstance(x, N) for x in new) else 'violation', wh, 'recorded under %s' % [repr(x) for x in new])])
                continue
            r = d[new[0]]
            out.add([cmp_any(nm + ' is the current value', wh, snap(eng, st, r), snap(eng, st, live[k]))])
            shared = isinstance(r, Ref) and root_loc(st, r) == root_loc(st, live[k])
            out.add([Result(nm + ' is a copy', 'violation' if shared else 'ok', wh, 'the recorded array is the live array of the model' if shared else '')])
        out.add([], eng.unmodelled, [SIM + '.record_state'])
    wh = where_method(repo, SIM, '__exit__')
    for tag, recorded in (('all variables', every), ('some variables', few)):
        eng, st, f, mod, me, rec, live, old, names = recording_state(repo, '__exit__', every, recorded)
        eng.overrides.update({'pandas.DataFrame.from_dict': frame('columns'), 'pandas.DataFrame': frame('columns')})
        try:
            eng.call_func(Func(f, mod, bound=me), [me, None, None, None], {}, st, f)
        except (Unsupported, TooBig) as e:
            eng.unmodelled.append(str(e))
        at = st.heap[rec.loc].attrs
        for k in recorded:
            nm = '%s.__exit__[%s] %s' % (SIM, tag, k)
            v = at.get(k)
            t = st.heap[v.loc] if isinstance(v, Ref) and isinstance(st.heap[v.loc], ObjV) and st.heap[v.loc].name == 'table' else None
            if t is None:
                out.add([Result(nm + ' becomes a table', 'violation' if isinstance(v, Ref) and isinstance(st.heap[v.loc], DictV) and not eng.unmodelled else 'undecided', wh, 'it is %s' % show(v))])
                continue
            d = t.attrs['data']
            dd = st.heap[d.loc].d if isinstance(d, Ref) and isinstance(st.heap[d.loc], DictV) else None
            same = dd is not None and list(dd) == [sym('t_old')] and isinstance(dd[sym('t_old')], Ref) and dd[sym('t_old')].loc == old[k].loc
            out.add([Result(nm + ' holds what was recorded, one row per time', 'ok' if same and t.attrs['rows'] else 'undecided' if not same or eng.unmodelled else 'violation', wh, '' if same else show(d))])
            want = {'j': names['superjunction_names'], 'k': names['superlink_names']}.get(RECORDED[k])
            c = t.attrs['columns']
            if want is not None:
                ok = isinstance(c, Ext) and c.node is want.node
                other = c is None or isinstance(c, Ext) and any(c.node is x.node for x in names.values())
                out.add([Result(nm + ' columns carry the element names', 'ok' if ok else 'violation' if other and not eng.unmodelled else 'undecided', wh, 'the columns are %s' % show(c))])
            else:
                bad = isinstance(c, Ext) and any(c.node is x.node for x in names.values())
                out.add([Result(nm + ' columns do not carry names of another kind of element', 'violation' if bad else 'ok', wh, 'the columns are %s' % show(c) if bad else '')])
        out.add([], eng.unmodelled, [SIM + '.__exit__'])


def root_loc(st, r):
    h = st.heap[r.loc]
    b = getattr(h, 'base', None)
    return root_loc(st, b) if isinstance(b, Ref) else r.loc


def construct(repo, args, series=(), live=None, facts=()):
    eng = new_engine(repo, sonto())
    f, mod = repo.method(SIM, '__init__')
    st = State({}, {})
    eng.curmod, eng.curcls = mod, SIM
    eng.curfile.append(repo.file_of(mod))
    me = eng.new_loc(ObjV(SIM, {}, 'new:%s#' % SIM), st)
    at = {}
    if live:
        at = {k: eng.new_loc(garr('live.' + k, RECORDED[k]), st) for k in RECORDED}
        at['states'] = eng.new_loc(DictV({k: eng.new_loc(garr('before.' + k, RECORDED[k]), st) for k in live}), st)
    else:
        at['states'] = eng.new_loc(DictV({}), st)
    at['t'] = sym('t_model')
    model = eng.new_loc(ObjV(CLS, at, 'model'), st)
    kw = {'model': model}
    for s in series:
        kw[s] = Ext(mk('ext', 'obj', 'series ' + s))
        eng.learn(st, batom('isnone', kw[s].node), False)
    for c, v in facts:
        eng.learn(st, c, v)
    for k, v in args.items():
        kw[k] = eng.new_loc(v, st) if isinstance(v, (ArrV, ListV, DictV)) else v
    try:
        eng.call_func(Func(f, mod, bound=me), [me], kw, st, f)
    except (Unsupported, TooBig) as e:
        eng.unmodelled.append(str(e))
    return eng, st, me, model


def mentions(n, k):
    return k in repr(n) if isinstance(k, str) else any(x is k for x in nodes(n))


@group('simulation.series', 'C17')
def _series(repo, out):
    wh = where_method(repo, SIM, '__init__')
    for tag, have in (('all series', ('Q_in', 'H_bc', 'Q_Ik')), ('flow only', ('Q_in',)), ('stage only', ('H_bc',)), ('lateral only', ('Q_Ik',)), ('none', ())):
        eng, st, me, model = construct(repo, {'interpolation_method': 'linear'}, have)
        at, mt = st.heap[me.loc].attrs, st.heap[model.loc].attrs
        perm = eng.node_of(eng.getattr(model, 'permutations', st, None), st)
        psym = 'H.permutations'
        for s in ('Q_in', 'H_bc', 'Q_Ik'):
            nm = '%s.__init__[%s] columns of %s' % (SIM, tag, s)
            v = at.get(s)
            x = mk('ext', 'obj', 'series ' + s)
            if s not in have:
                out.add([cmp_any(nm, wh, v, None)])
                continue
            if not isinstance(v, Ext):
                out.add([Result(nm, 'violation' if v is None and not eng.unmodelled else 'undecided', wh, 'the series is %s' % show(v))])
                continue
            n = v.node
            if not mentions(n, x):
                other = any(mentions(n, mk('ext', 'obj', 'series ' + o)) for o in have if o != s)
                out.add([Result(nm, 'violation' if other and not eng.unmodelled else 'undecided', wh, 'the stored series is %r' % (n,))])
            elif s == 'Q_Ik':
                # lateral inflow is given per junction, which reordering superjunctions does not reorder
                out.add([Result(nm, 'ok' if n is x else 'violation' if n.args[0] == 'item' and mentions(n, psym) else 'undecided', wh, 'the stored series is %r' % (n,))])
            else:
                want = mk('ext', 'item', mk('ext', 'attr', x, 'iloc'), mk('ext', 'tuple', (mk('ext', 'slice', '', '', ''), perm)))
                ok = n is want or n.args[0] == 'item' and n.args[1] is want.args[1] and repr(n) == repr(want)
                out.add([Result(nm, 'ok' if ok else 'violation' if not mentions(n, psym) and n is x else 'undecided', wh, 'the stored series is %r, the superjunctions are reordered by the model' % (n,))])
        idx = [at[s].node for s in ('Q_in', 'H_bc', 'Q_Ik') if s in have and isinstance(at.get(s), Ext)]
        for what, fn in (('t_start', 'min'), ('t_end', 'max')):
            g = at.get(what)
            nm = '%s.__init__[%s] %s' % (SIM, tag, what)
            if not have:
                if what == 't_start':
                    out.add([cmp_any(nm, wh, snap(eng, st, g), ((), sym('t_model'))), cmp_any(nm + ' leaves the time of the model', wh, snap(eng, st, mt['t']), ((), sym('t_model')))])
                continue
            t = eng.node_of(g, st) if not isinstance(g, Poison) else None
            used = [n for n in idx if t is not None and mentions(t, mk('ext', 'attr', n, 'index'))]
            anti = {'min': 'max', 'max': 'min'}[fn]
            wrong = t is not None and any(x.kind == 'ext' and x.args[0] == 'attr' and x.args[2] == anti or x.kind == 'fn' and x.args[0] == anti for x in nodes(t))
            right = t is not None and any(x.kind == 'ext' and x.args[0] == 'attr' and x.args[2] == fn for x in nodes(t))
            ok = len(used) == len(have) == len(idx) and right and not wrong
            out.add([Result(nm, 'ok' if ok else 'violation' if not eng.unmodelled and (wrong or len(used) < len(have) and right) else 'undecided', wh, '' if ok else '%s is %s' % (what, show(g)))])
            if what == 't_start':
                same = nm + ' is where the model starts'
                out.add([Result(same, 'violation', wh, 'the model stays at the time it had') if snap(eng, st, mt['t']) == ((), sym('t_model')) else
                         cmp_any(same, wh, snap(eng, st, mt['t']), snap(eng, st, g)) if not isinstance(g, Ext) else
                         Result(nm + ' is where the model starts', 'ok' if isinstance(mt['t'], Ext) and mt['t'].node is g.node else 'undecided' if isinstance(mt['t'], (Ext, Poison)) else 'violation', wh, 'the model starts at %s, the simulation at %s' % (show(mt['t']), show(g)))])
        out.add([], eng.unmodelled, [SIM + '.__init__'])
    for have in ((), ('Q_in', 'H_bc')):
        eng, st, me, model = construct(repo, {'t_start': sym('t_start_in'), 't_end': sym('t_end_in'), 'dt': sym('dt_in'), 'interpolation_method': 'nearest'}, have)
        at, mt = st.heap[me.loc].attrs, st.heap[model.loc].attrs
        nm = '%s.__init__[explicit times, %d series] ' % (SIM, len(have))
        for k, v, w in (('t_start', at.get('t_start'), sym('t_start_in')), ('t_end', at.get('t_end'), sym('t_end_in')), ('dt', at.get('dt'), sym('dt_in')), ('time of the model', mt['t'], sym('t_start_in'))):
            out.add([cmp_any(nm + k, wh, snap(eng, st, v), ((), w))])
        out.add([], eng.unmodelled, [SIM + '.__init__'])
    for m, c in (('linear', 1), ('nearest', 0), ('LINEAR', 1)):
        eng, st, me, model = construct(repo, {'interpolation_method': m})
        out.add([cmp_any('%s.__init__ interpolation method %s' % (SIM, m), wh, snap(eng, st, st.heap[me.loc].attrs.get('interpolation')), ((), const(c)))])


@group('simulation.first_snapshot', 'C18')
def _first(repo, out):
    wh = where_method(repo, SIM, '__init__')
    every = list(RECORDED)
    for tag, live in (('every variable', every), ('no orifices, weirs or pumps', [k for k in every if k not in ('Q_o', 'Q_w', 'Q_p')])):
        eng, st, me, model = construct(repo, {}, (), live)
        at = st.heap[me.loc].attrs
        mt = st.heap[model.loc].attrs
        rec = at.get('states')
        if not isinstance(rec, Ref) or not isinstance(st.heap[rec.loc], ObjV):
            out.add([Result('%s.__init__[%s] first snapshot' % (SIM, tag), 'undecided', wh, 'results are %s' % show(rec))], eng.unmodelled)
            continue
        for k in live:
            nm = '%s.__init__[%s] %s' % (SIM, tag, k)
            v = st.heap[rec.loc].attrs.get(k)
            d = st.heap[v.loc].d if isinstance(v, Ref) and isinstance(st.heap[v.loc], DictV) else None
            if d is None:
                # recording may also begin with the first call of record_state
                out.add([Result(nm + ' first snapshot', 'ok' if v is None else 'undecided', wh, '' if v is None else show(v))])
                continue
            for t, r in d.items():
                out.add([Result(nm + ' first snapshot under the current time', 'ok' if t is sym('t_model') else 'violation' if isinstance(t, N) and not eng.unmodelled else 'undecided', wh, '' if t is sym('t_model') else 'recorded under %r' % (t,))])
                out.add([cmp_any(nm + ' first snapshot is the current value', wh, snap(eng, st, r), (garr('live.' + k, RECORDED[k]).dims, garr('live.' + k, RECORDED[k]).content))])
                shared = isinstance(r, Ref) and r.loc == mt[k].loc
                out.add([Result(nm + ' first snapshot is a copy', 'violation' if shared else 'ok', wh, 'the recorded array is the live array of the model' if shared else '')])
        sv = at.get('state_variables')
        h = st.heap[sv.loc] if isinstance(sv, Ref) else None
        if isinstance(h, DictV):
            for k, v in h.d.items():
                named = RECORDED.get(k) in ('j', 'k') or v in ('j', 'k')
                ok = RECORDED.get(k) == v or not named
                out.add([Result('%s.__init__ kind of element of %s' % (SIM, k), 'ok' if ok else 'violation' if k in RECORDED else 'undecided', wh, '' if ok else 'labelled as %r' % (v,))])
        out.add([], eng.unmodelled, [SIM + '.__init__'])


@group('assimilation.update', 'C20 C29')
def _kalman(repo, out):
    from . import matrix as M
    outs = ('right-hand side of the re-solve', 'posterior covariance', 'covariance of the innovation')
    for mod in ('pipedream_solver.utils', 'pipedream_solver.nutils'):
        for fn in ('_kalman_semi_implicit', '_square_root_kalman_semi_implicit'):
            short = '%s.%s' % (mod.split('.')[-1], fn)
            d = repo.lookup(mod, fn)
            if d is None:
                raise Vanished(short)
            wh = '%s:%d %s' % (repo.file_of(d.mod), d.node.lineno, fn)
            alg = M.Algebra(symmetric=('P', 'Q', 'R'), vectors=('Z', 'b'))
            names = ('Z', 'P', 'A1', 'A2', 'b', 'H', 'C', 'Q', 'R')
            args = [alg.atom(n) for n in names]
            ref = M.Reader(repo, 'spec.simulation', alg).call(repo.lookup('spec.simulation', 'kalman_update').node, args)
            try:
                got = M.Reader(repo, d.mod, alg).call(d.node, args)
            except M.Unknown as e:
                out.add([Result(short, 'undecided', wh, 'not read as matrix algebra: %s' % e)], [], [short])
                continue
            if not isinstance(got, tuple) or len(got) != 3:
                out.add([Result(short, 'violation', wh, 'returns %s values, the update has three' % (len(got) if isinstance(got, tuple) else 'one'))], [], [short])
                continue
            for o, g, r in zip(outs, got, ref):
                v = M.equal(alg, g, r)
                st = {'same': 'ok', 'different': 'violation'}.get(v, 'undecided')
                out.add([Result('%s: %s' % (short, o), st, wh, '' if st == 'ok' else ('%s; the code computes %s, the standard update %s' % (v, M.show(g), M.show(r)))[:600])], [], [short])


@group('assimilation.system', 'C20')
def _system(repo, out):
    wh = where_method(repo, CLS, '_semi_implicit_system')
    for tag, args in (('own step', {}), ('given step', {'_dt': sym('dt_in')})):
        g, r = (run_method(repo, c, '_semi_implicit_system', args, onto=Onto()) for c in (CLS, 'SpecSystem'))
        if r.eng.unmodelled:
            raise RuntimeError('reference unmodelled: %s' % r.eng.unmodelled[:3])
        nm = '%s._semi_implicit_system[%s] ' % (CLS, tag)
        if not isinstance(g.ret, tuple) or len(g.ret) != 3:
            out.add([Result(nm + 'result', 'undecided', wh, 'the result is %s' % show(g.ret))], g.eng.unmodelled)
            continue
        for what, a, b in zip(('matrix of the new heads', 'matrix of the old heads', 'right-hand side'), g.ret, r.ret):
            out.add([cmp_any(nm + what, wh, snap(g.eng, g.st, a), snap(r.eng, r.st, b))])
        ch = [a for a in g.changed()]
        out.add([Result(nm + 'changes nothing', 'violation' if ch else 'ok', wh, 'changes %s' % ch)], g.eng.unmodelled, [CLS + '._semi_implicit_system'])


@group('assimilation.protocol', 'C20')
def _protocol(repo, out):
    wh = where_method(repo, SIM, 'kalman_filter')
    named = {'H': ('b', 'j'), 'C': ('j', 'a'), 'Qcov': ('a', 'a'), 'Rcov': ('b', 'b'), 'P_x_k_k': ('j', 'j')}
    fields = ('P_x_k_k', 'H', 'C', 'Qcov', 'Rcov')
    for fn in ('_kalman_semi_implicit', '_square_root_kalman_semi_implicit'):
        for given in ((), fields, ('H',), ('Rcov', 'dt')):
            tag = '%s, %s given' % ('square root' if 'square' in fn else 'ordinary', ' '.join(given) or 'nothing')
            nm = '%s.kalman_filter[%s] ' % (SIM, tag)
            eng = new_engine(repo, sonto())
            f, mod = repo.method(SIM, 'kalman_filter')
            st = State({}, {})
            eng.curmod, eng.curcls = mod, SIM
            eng.curfile.append(repo.file_of(mod))
            model = eng.new_loc(ObjV(CLS, {'t': sym('t0'), 'iter_count': sym('n0'), 'b': eng.new_loc(garr('b_live', 'j'), st), 'H_j': eng.new_loc(garr('H_predicted', 'j'), st)}, 'model'), st)
            own = {k: eng.new_loc(garr('own.' + k, *d), st) for k, d in named.items()}
            me = eng.new_loc(ObjV(SIM, dict(own, model=model, dt=sym('own.dt'), A_1=None, P_zz=None), 'self'), st)
            kw = {'Z': eng.new_loc(garr('Z', 'b'), st), 'SR': 'square' in fn, 'u_o': eng.new_loc(garr('u_o_in', 'o'), st), 'banded': batom('opt', 'banded_in')}
            for k in given:
                kw[k] = sym('given.dt') if k == 'dt' else eng.new_loc(garr('given.' + k, *named[k]), st)
            calls, solves, systems = [], [], []

            def system(eng, st, args, kw, node):
                d = kw.get('_dt', args[1] if len(args) > 1 else None)
                systems.append(snap(eng, st, d))
                return (eng.new_loc(garr('A_1', 'j', 'j'), st), eng.new_loc(garr('A_2', 'j', 'j'), st), st.heap[args[0].loc].attrs['b'])

            def update(which):
                d = repo.lookup('pipedream_solver.utils', which).node
                names = [a.arg for a in d.args.args]

                def g(eng, st, args, kw, node):
                    b = dict(zip(names, args))
                    b.update(kw)
                    calls.append((which, {k: snap(eng, st, v) for k, v in b.items()}))
                    return (eng.new_loc(garr('b_hat', 'j'), st), eng.new_loc(garr('P_new', 'j', 'j'), st), eng.new_loc(garr('P_zz', 'b', 'b'), st))
                return g

            def solve(eng, st, args, kw, node):
                if not (isinstance(args[0], Ref) and st.heap[args[0].loc].name == 'model'):
                    return NotImplemented
                names, defaults = formals(repo, CLS, '_solve_step')
                d = dict(zip(names, args[1:]))
                d.update(kw)
                m = st.heap[args[0].loc]
                solves.append(({k: snap(eng, st, v) for k, v in d.items()}, snap(eng, st, m.attrs['b'])))
                dt = eng.scalar(d['dt'], st) if d.get('dt') is not None else sym('H._dt')
                st.heap[args[0].loc] = ObjV(m.cls, dict(m.attrs, t=add(eng.scalar(m.attrs['t'], st), dt), iter_count=add(eng.scalar(m.attrs['iter_count'], st), ONE),
                                                        H_j=eng.new_loc(garr('H_assimilated', 'j'), st)), m.name)
                return None
            eng.overrides.update({'_semi_implicit_system': system, '_solve_step': solve, '_kalman_semi_implicit': update('_kalman_semi_implicit'),
                                  '_square_root_kalman_semi_implicit': update('_square_root_kalman_semi_implicit')})
            try:
                eng.call_func(Func(f, mod, bound=me), [me], kw, st, f)
            except (Unsupported, TooBig) as e:
                eng.unmodelled.append(str(e))
            bad = 'undecided' if eng.unmodelled else 'violation'
            if len(calls) != 1 or len(solves) != 1 or len(systems) != 1:
                out.add([Result(nm + 'updates once and solves once', 'undecided' if eng.unmodelled or calls == [] else 'violation', wh, '%d updates, %d solves, %d systems' % (len(calls), len(solves), len(systems)))], eng.unmodelled)
                continue
            which, d = calls[0]
            out.add([Result(nm + 'uses the form asked for', 'ok' if which == fn else bad, wh, 'calls ' + which)])
            val_ = lambda k: (garr('given.' + k, *named[k]) if k in given else garr('own.' + k, *named[k]))
            both = lambda a: (a.dims, a.content)
            exp = {'Z_next': garr('Z', 'b'), 'P_x_k_k': val_('P_x_k_k'), 'A_1': garr('A_1', 'j', 'j'), 'A_2': garr('A_2', 'j', 'j'), 'b': garr('b_live', 'j'), 'H': val_('H'), 'C': val_('C'), 'Qcov': val_('Qcov'), 'Rcov': val_('Rcov')}
            names = [a.arg for a in repo.lookup('pipedream_solver.utils', fn).node.args.args]
            for k, w in zip(names, exp.values()):
                out.add([cmp_any(nm + 'passes %s to the update' % k, wh, d.get(k), both(w))])
            dt = sym('given.dt') if 'dt' in given else sym('own.dt')
            out.add([cmp_any(nm + 'system of the step taken', wh, systems[0], ((), dt))])
            sd, b = solves[0]
            out.add([cmp_any(nm + 're-solves with the assimilated right-hand side', wh, b, both(garr('b_hat', 'j'))), cmp_any(nm + 're-solves with the same step', wh, sd.get('dt'), ((), dt)),
                     cmp_any(nm + 're-solves with the same controls', wh, sd.get('u_o'), both(garr('u_o_in', 'o')))])
            m, s = st.heap[model.loc].attrs, st.heap[me.loc].attrs
            out.add([cmp_any(nm + 'time advances once in total', wh, snap(eng, st, m['t']), ((), sym('t0'))), cmp_any(nm + 'the counter advances once in total', wh, snap(eng, st, m['iter_count']), ((), sym('n0'))),
                     cmp_any(nm + 'heads are those of the re-solve', wh, snap(eng, st, m['H_j']), both(garr('H_assimilated', 'j'))),
                     cmp_any(nm + 'keeps the posterior covariance', wh, snap(eng, st, s.get('P_x_k_k')), both(garr('P_new', 'j', 'j')))])
            out.add([], eng.unmodelled, [SIM + '.kalman_filter'])


@group('assimilation.settings', 'C20')
def _settings(repo, out):
    wh = where_method(repo, SIM, '__init__')
    eye = ite(sg(sub(elt(0), elt(1)), {0}), ONE, ZERO)
    J = (Ns('j'), Ns('j'))
    # more than one element: a 1 x 1 matrix is its own diagonal
    several = [(sg(sub(mul(Ns('j'), Ns('j')), Ns('j')), {0}), False)]
    for k in ('Rcov', 'Qcov', 'C', 'H'):
        for tag, a, want in (('not given', None, (J, ZERO if 'cov' in k else eye)), ('a number', sym('x_in'), (J, mul(sym('x_in'), eye))),
                             ('a vector', garr('v', 'j'), (J, mul(eye, garr('v', 'j').content))), ('a matrix', garr('m', 'j', 'j'), (J, garr('m', 'j', 'j').content))):
            eng, st, me, model = construct(repo, {} if a is None else {k: a}, facts=several)
            got = snap(eng, st, st.heap[me.loc].attrs.get(k))
            nm = '%s.__init__ %s %s' % (SIM, k, tag)
            out.add([cmp_any(nm, wh, got, want)], eng.unmodelled, [SIM + '.__init__'])
    for tag, a in (('not given', None), ('given', garr('m', 'j', 'j'))):
        Q, C = garr('q', 'j', 'j'), garr('c', 'j', 'j')
        eng, st, me, model = construct(repo, dict({'Qcov': Q, 'C': C}, **({'Pxx': a} if a is not None else {})), facts=several)
        got = snap(eng, st, st.heap[me.loc].attrs.get('P_x_k_k'))
        if a is None:
            e2, s2, r2, _ = run_func(repo, 'spec.simulation', 'prior_covariance', [C, Q])
            want = snap(e2, s2, r2)
        else:
            want = (J, a.content)
        out.add([cmp_any('%s.__init__ prior covariance %s' % (SIM, tag), wh, got, want)], eng.unmodelled, [SIM + '.__init__'])


FILTERS = {'h0100': (1, 0, 0, 0, 0), 'h0211': ('1/2', '1/2', 0, '1/2', 0), 'h211': ('1/6', '1/6', 0, 0, 0), 'h0312': ('1/4', '1/2', '1/4', '3/4', '1/4'), 'h312': ('1/18', '1/9', '1/18', 0, 0),
           'h0321': ('5/4', '1/2', '-3/4', '-1/4', '-3/4'), 'h321': ('1/3', '1/18', '-5/18', '-5/6', '-1/6')}
LIMITS = ('min_dt', 'max_dt', 'tol', 'min_rel_change', 'max_rel_change', 'safety_factor')


@group('simulation.settings', 'C19')
def _step_settings(repo, out):
    """what the controllers start from: the limits as given, one step and one error on record, the published filter coefficients"""
    from fractions import Fraction
    wh = where_method(repo, SIM, '__init__')
    given = {k: sym('%s_in' % k) for k in LIMITS}
    for tag, args in (('all given', dict(given, dt=sym('dt_in'))), ('step of the model', dict(given))):
        eng, st, me, model = construct(repo, args)
        at = st.heap[me.loc].attrs
        nm = '%s.__init__[%s] ' % (SIM, tag)
        dt = args.get('dt') or eng.scalar(eng.getattr(model, '_dt', st, None), st)
        exp = dict(given, dt=dt)
        for k, w in exp.items():
            out.add([missing(eng, nm + k, wh, at, k) or cmp_any(nm + k, wh, snap(eng, st, at[k]), ((), w))])
        for k, what in (('dts', 'step sizes'), ('errs', 'errors')):
            name = nm + '%s on record' % what
            r = missing(eng, name, wh, at, k)
            if r is None:
                v = st.heap[at[k].loc] if isinstance(at[k], Ref) else at[k]
                if not isinstance(v, ListV):
                    r = Result(name, 'undecided', wh, show(v))
                elif len(v.xs) != 1:
                    # the filter needs three of each and waits until it has them
                    r = Result(name, 'violation', wh, '%d %s on record before the first step' % (len(v.xs), what))
                elif k == 'dts':
                    r = cmp_any(name, wh, snap(eng, st, v.xs[0]), ((), dt))
                else:
                    r = Result(name, 'ok', wh)
            out.add([r])
        out.add([], eng.unmodelled, [SIM + '.__init__'])
    for k, w in FILTERS.items():
        nm = '%s.__init__ filter %s' % (SIM, k)
        r = missing(eng, nm, wh, at, k)
        if r is not None:
            out.add([r])
            continue
        v = st.heap[at[k].loc] if isinstance(at[k], Ref) else at[k]
        if isinstance(v, ListV) or isinstance(v, tuple):
            xs = list(v.xs if isinstance(v, ListV) else v)
            out.add([Result(nm, 'violation', wh, '%d coefficients' % len(xs))] if len(xs) != 5 else
                    [cmp_any('%s [%d]' % (nm, i), wh, snap(eng, st, x), ((), const(Fraction(y)))) for i, (x, y) in enumerate(zip(xs, w))])
        else:
            out.add([Result(nm, 'undecided', wh, show(v))])


def missing(eng, nm, wh, at, k):
    if k not in at:
        return Result(nm, 'undecided' if eng.unmodelled else 'violation', wh, '%s is not set' % k)


@group('simulation.spinup', 'C10')
def _spinup(repo, out):
    wh = where_method(repo, CLS, 'spinup')
    for tag, args in (('inputs given', {'Q_in': garr('Q_in_in', 'j'), 'Q_0Ik': garr('Q_0Ik_in', 'Ik')}), ('no inputs', {}),
                      ('controls', {'u_o': garr('u_o_in', 'o'), 'banded': batom('opt', 'banded_in')}), ('counters kept', {'reset_counters': False})):
        for n in (0, 2, 3):
            seen = []
            log = []
            lg = logger(repo, CLS, 'step', log)
            o = Onto()

            def step(eng, st, a, kw, node):
                if not (a and isinstance(a[0], Ref) and isinstance(st.heap[a[0].loc], ObjV)):
                    return NotImplemented
                me = st.heap[a[0].loc]
                d = dict(zip(formals(repo, CLS, 'step')[0], a[1:]))
                d.update(kw)
                seen.append({k: snap(eng, st, v) for k, v in d.items()})
                t, c = me.attrs.get('t', sym('t')), me.attrs.get('iter_count', sym('iter_count'))
                st.heap[a[0].loc] = ObjV(me.cls, dict(me.attrs, t=add(eng.scalar(t, st), eng.scalar(d['dt'], st)), iter_count=add(eng.scalar(c, st), ONE)), me.name)
                return None
            g = run_method(repo, CLS, 'spinup', dict(args, n_steps=const(n), dt=sym('dt_in')), overrides={'step': step}, onto=o)
            nm = '%s.spinup[%s, %d steps] ' % (CLS, tag, n)
            bad = g.eng.unmodelled
            out.add([Result(nm + 'takes that many steps', 'ok' if len(seen) == n else 'undecided' if bad else 'violation', wh, '%d steps taken' % len(seen))])
            for i, d in enumerate(seen):
                out.add([cmp_any('%sstep %d uses the given time step' % (nm, i), wh, d.get('dt'), ((), sym('dt_in')))])
                for k, v in args.items():
                    if k != 'reset_counters':
                        out.add([Result('%sstep %d gets %s' % (nm, i, k), 'undecided' if bad else 'violation', wh, '%s is not passed on' % k) if k not in d else
                                 cmp_any('%sstep %d gets %s' % (nm, i, k), wh, d[k], (v.dims, v.content) if isinstance(v, ArrV) else ((), v))])
            keep = args.get('reset_counters') is False
            for k in ('t', 'iter_count'):
                w = add(sym(k), mul(const(n), sym('dt_in') if k == 't' else ONE)) if keep else ZERO
                v = g.get(k)
                if n == 0 and keep and v is None:
                    continue
                out.add([cmp_any(nm + '%s afterwards' % k, wh, v if isinstance(v, tuple) else ((), v) if isinstance(v, N) else v, ((), w))])
            out.add([], bad, [CLS + '.spinup'])
