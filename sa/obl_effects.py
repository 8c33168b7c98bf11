"""Ownership and effects: what the caller passed in, module-level tables and default arguments are never written."""
from .groups import *
from .groups import group
from . import effects as E

TABLES = 'superlinks superjunctions links junctions transects storages orifices weirs pumps'.split()
STEPIN = 'H_bc Q_in Q_0Ik u_o u_w u_p'.split()
PLOTKW = ('superlink_kwargs superjunction_kwargs junction_kwargs link_kwargs orifice_kwargs weir_kwargs pump_kwargs base_line_kwargs superjunction_stem_kwargs '
          'junction_stem_kwargs border_kwargs fill_kwargs superjunction_signal junction_signal js').split()
# documented entry points and the inputs that belong to the caller
API = {
    'nSuperLink': {'__init__': TABLES, 'step': STEPIN, 'save_state': [], 'load_state': ['states', 'exclude_states'], 'spinup': ['Q_in', 'Q_0Ik'], 'reposition_junctions': ['reposition'],
                   'state_space_system': [], 'plot_profile': PLOTKW, 'plot_network_2d': PLOTKW, 'plot_network_3d': PLOTKW},
    'SuperLink': {'__init__': TABLES, 'save_state': [], 'load_state': ['states', 'exclude_states'], 'spinup': ['Q_in', 'Q_0Ik'], 'step': STEPIN,
                  'plot_profile': PLOTKW, 'plot_network_2d': PLOTKW, 'plot_network_3d': PLOTKW},
    'QualityBuilder': {'__init__': ['superjunction_params', 'superlink_params', 'junction_params', 'link_params'], 'step': ['c_bc', 'c_0j', 'Q_0j', 'c_0Ik', 'Q_0Ik'],
                       'Kalman_Filter_WQ1': [], 'Kalman_Filter_WQ2': ['measure'], 'KF_Multi_WQ': []},
    'GreenAmpt': {'__init__': ['soil_params'], 'step': ['i']},
    'nGreenAmpt': {'__init__': ['soil_params'], 'step': ['i']},
    'Simulation': {'__init__': ['Q_in', 'H_bc', 'Q_Ik', 'Pxx', 'Qcov', 'Rcov', 'C', 'H'], '__enter__': [], '__exit__': [], 'step': STEPIN + ['coeffs'], 'record_state': ['state_variables'],
                   'load_state': ['state'], 'kalman_filter': ['Z', 'H', 'C', 'Qcov', 'Rcov', 'P_x_k_k'] + STEPIN, 'compute_step_size': [], 'filter_step_size': ['dts', 'errs', 'coeffs'], 'print_progress': []},
}
DICTS = {'transects', 'storages', 'states', 'state', 'state_variables', 'soil_params'}


def is_dict(p):
    return p in DICTS or p.endswith('kwargs')


def analyse(repo, cls, api, extra=None, skip=(), hyd=False):
    an = E.Analysis(repo, cls, skip=skip)
    plan = []
    lost = []
    for m, ps in api.items():
        f = repo.find_method(cls, m)
        if f is None:
            lost.append(m)
            continue
        names = [a.arg for a in f[0].args.args + f[0].args.kwonlyargs][1:]
        roots = {}
        for p in names:
            if p in ps:
                roots[p] = E.V((an.root('%s given to %s.%s' % (p, cls, m), table=p, kind='dict' if is_dict(p) else None),))
        if f[0].args.kwarg and any(p in STEPIN for p in ps):
            pass
        plan.append((m, roots))
    for a, b in (extra or {}).items():
        an.fields[a] = b(an)
    for i in range(6):
        n0 = sum(len(v.objs) + len(v.prov) for v in an.fields.values()), len(an.effects)
        for m, roots in plan:
            r = dict(roots)
            if m == '__init__' and extra:
                f = repo.find_method(cls, m)[0]
                for a in extra:
                    if a in [x.arg for x in f.args.args]:
                        r[a] = an.fields[a]
            an.entry(m, r)
        if (sum(len(v.objs) + len(v.prov) for v in an.fields.values()), len(an.effects)) == n0:
            break
    return an, lost


def report(repo, out, an, cls, api, lost, allow=(), what=None):
    bad = {}
    for e in an.effects.values():
        if e.origin in allow:
            continue
        bad.setdefault(e.origin, e)
    rs = []
    for m, ps in api.items():
        f = repo.find_method(cls, m)
        if f is None:
            rs.append(Result('%s.%s leaves its inputs unchanged' % (cls, m), 'undecided', cls, 'entry point not found'))
            continue
        names = [a.arg for a in f[0].args.args + f[0].args.kwonlyargs]
        for p in ps:
            if p not in names:
                continue
            o = '%s given to %s.%s' % (p, cls, m)
            nm = '%s.%s leaves %s unchanged' % (cls, m, p)
            e = bad.pop(o, None)
            if e is None:
                rs.append(Result(nm, 'ok', where_method(repo, cls, m)))
            else:
                rs.append(Result(nm, 'violation', '%s %s' % (e.where(), e.func), 'writes to %s (object %s) via %s' % (o, e.what, ' -> '.join(e.path))))
    nm = '%s writes no module-level table and no default argument' % cls
    rest = list(bad.values())
    if not rest:
        rs.append(Result(nm, 'ok', cls))
    for e in rest:
        rs.append(Result(nm + ' (%s)' % e.origin, 'violation', '%s %s' % (e.where(), e.func), 'writes to %s via %s' % (e.origin, ' -> '.join(e.path))))
    out.add(rs, [], sorted('%s:%s' % x for x in an.funcs))


def mk_c12(cls):
    @group('effects.%s' % cls, 'C12')
    def g(repo, out):
        extra = None
        if cls == 'QualityBuilder':
            extra = {'hydraulics': lambda an: E.V((an.root('the hydraulic model', None, None, 'nSuperLink'),))}
        if cls == 'Simulation':
            # the simulation drives the model: what a model step does is judged by the model's own obligations
            extra = {'model': lambda an: E.V((an.root('the hydraulic model'),))}
        an, lost = analyse(repo, cls, API[cls], extra)
        report(repo, out, an, cls, API[cls], lost, allow={'the hydraulic model'})


for _c in API:
    mk_c12(_c)


@group('effects.quality on hydraulics', 'C25')
def _q(repo, out):
    cls = 'QualityBuilder'
    an, lost = analyse(repo, cls, API[cls], {'hydraulics': lambda an: E.V((an.root('the hydraulic model', None, None, 'nSuperLink'),))})
    es = [e for e in an.effects.values() if e.origin == 'the hydraulic model']
    rs = []
    for m in API[cls]:
        if m in lost:
            rs.append(Result('%s.%s leaves the hydraulic model unchanged' % (cls, m), 'undecided', cls, 'entry point not found'))
            continue
        mine = [e for e in es if e.path[0] == m]
        if not mine:
            rs.append(Result('%s.%s leaves the hydraulic model unchanged' % (cls, m), 'ok', where_method(repo, cls, m)))
        for e in mine:
            rs.append(Result('%s.%s leaves the hydraulic model unchanged (%s)' % (cls, m, e.where()), 'violation', '%s %s' % (e.where(), e.func), 'writes to %s of the hydraulic model via %s' % (e.what, ' -> '.join(e.path))))
    out.add(rs, [], sorted('%s:%s' % x for x in an.funcs))


@group('effects.plots', 'C25')
def _plots(repo, out):
    cls = 'nSuperLink'
    rs = []
    for m in ('plot_profile', 'plot_network_2d', 'plot_network_3d'):
        f = repo.find_method(cls, m)
        if f is None:
            rs.append(Result('%s.%s leaves the model unchanged' % (cls, m), 'undecided', cls, 'entry point not found'))
            continue
        an = E.Analysis(repo, None)
        me = an.root('the model', None, None, cls)
        an.cls = cls
        an.stack = []
        an.call_fn(E.Fn(f[0], f[1], bound=E.V((me,))), [], {}, f[0], {})
        es = [e for e in an.effects.values()]
        if not es:
            rs.append(Result('%s.%s leaves the model unchanged' % (cls, m), 'ok', where_method(repo, cls, m)))
        for e in es:
            rs.append(Result('%s.%s leaves the model and shared defaults unchanged (%s)' % (cls, m, e.where()), 'violation', '%s %s' % (e.where(), e.func), 'writes to %s (%s) via %s' % (e.origin, e.what, ' -> '.join(e.path))))
        out.add([], [], sorted('%s:%s' % x for x in an.funcs))
    out.add(rs)
