"""Saving and loading states: call sequences, and sharing between the saved and the live arrays."""
from .groups import *
from .groups import group
from .obl_step import *
from . import effects as E
from .obl_geometry import cmp_vals
from .ontology import Onto
from .run import *
import ast

SEQ = {
    'step, load the saved state': ('reload', True),
    'step, load all but the excluded variables': ('reload_excluding', True),
    'step, load and recompute the geometry': ('reload_geometry', True),
    'load a given state': ('load_given', False),
    'step, save': ('save_twice', True),
}
LIVE = {'t': 't', 'H_j': 'H_j', 'h_Ik': '_h_Ik', 'Q_ik': '_Q_ik', 'Q_uk': '_Q_uk', 'Q_dk': '_Q_dk', 'x_Ik': '_x_Ik', 'Q_o': '_Qo', 'Q_w': '_Qw', 'Q_p': '_Qp',
        'A_ik': '_A_ik', 'A_uk': '_A_uk', 'A_dk': '_A_dk', 'A_sj': '_A_sj', 'V_j': '_V_sj'}


def mk(tag, m, inputs):
    @group('state.%s' % tag, 'C11')
    def g(repo, out):
        pre, facts = scenario()
        args = step_args() if inputs else {'X': garr('X', 'j'), 'Y': garr('Y', 'ik'), 'Z': garr('Z', 'Ik')}
        args = {k: v for k, v in args.items() if k not in ('banded', 'first_time', 'implicit', 'num_iter', 'first_iter')}
        pl = pipeline(repo)
        ov = pl.overrides()
        ea = run_method(repo, 'ScenRepo', m, args, pre=pre, facts=facts, overrides=ov)
        es = run_method(repo, 'ScenSpec', m, args, pre=pre, facts=facts, overrides=ov)
        if es.eng.unmodelled:
            raise RuntimeError('reference sequence unmodelled: %s' % es.eng.unmodelled[:3])
        wh = where_method(repo, CLS, 'save_state' if 'save' in tag else 'load_state')
        rs = []
        for a in FINAL if inputs else LIVE.values():
            rs.append(cmp_vals('%s[%s] -> %s' % (CLS, tag, a), wh, ea.get(a), es.get(a)))
        for k in STATES:
            rs.append(cmp_vals('%s[%s] -> states[%s]' % (CLS, tag, k), wh, state_val(ea, k), state_val(es, k)))
        out.add(rs, ea.eng.unmodelled, [CLS + '.save_state', CLS + '.load_state', CLS + '.step'])


for _t, (_m, _i) in SEQ.items():
    mk(_t, _m, _i)


def live_fields(repo, cls):
    """attributes of the class assigned anywhere in it"""
    out = set()
    for c in repo.mro(cls):
        for f in repo.cls[c][3].values():
            for x in ast.walk(f):
                if isinstance(x, ast.Attribute) and isinstance(x.value, ast.Name) and x.value.id == 'self' and isinstance(x.ctx, ast.Store):
                    out.add(x.attr)
    return out


def inplace(repo, cls, methods, fields, tag):
    """live arrays written in place by the given methods (before being replaced): attr -> Effect"""
    out = {}
    for m in methods:
        if repo.find_method(cls, m) is None:
            continue
        an = E.Analysis(repo, cls)
        env0 = {}
        for a in fields:
            if a not in ('states', 'A', 'b', 'D'):
                an.fields[a] = E.V((an.root('%s:%s' % (tag, a)),))
        an.entry(m, {})
        for e in an.effects.values():
            if e.origin.startswith(tag + ':'):
                out.setdefault(e.origin.split(':', 1)[1], e)
    return out


@group('state.sharing', 'C11')
def _sharing(repo, out):
    rs = []
    cls = CLS
    fields = live_fields(repo, cls)
    hit = inplace(repo, cls, ['step', 'load_state', 'reposition_junctions'], fields, 'live')
    for a in ('t', 'iter_count'):
        hit.pop(a, None)      # plain numbers: an augmented assignment rebinds, it does not write in place
    # what save_state leaves in the saved states
    an = E.Analysis(repo, cls)
    st = E.Obj(None, None, 'dict', None, 'states')
    an.fields['states'] = E.V((st,))
    for a in fields - {'states'}:
        an.fields[a] = E.V((an.root('live:' + a),))
    an.entry('save_state', {})
    wh = where_method(repo, cls, 'save_state')
    for k in sorted(k for k in st.elems if isinstance(k, str)) or ['H_j']:
        nm = '%s: the saved copy of %s is not changed by running the model' % (cls, k)
        shared = sorted({o.origin.split(':', 1)[1] for o in (st.elems.get(k) or E.V()).objs if o.origin})
        bad = [(a, hit[a]) for a in shared if a in hit]
        if bad:
            a, e = bad[0]
            rs.append(Result(nm, 'violation', wh, 'states[%s] is the live array %s itself, which %s (%s) writes in place' % (k, a, e.func, e.where())))
        else:
            rs.append(Result(nm, 'ok', wh))
    # what load_state leaves in the live variables
    an = E.Analysis(repo, cls)
    st = E.Obj(None, None, 'dict', None, 'states')
    for k in LIVE:
        st.elems[k] = E.V((an.root('saved:' + k),))
    an.fields['states'] = E.V((st,))
    for a in fields - {'states'}:
        an.fields[a] = E.V()
    an.entry('load_state', {})
    wh = where_method(repo, cls, 'load_state')
    for k, a in LIVE.items():
        nm = '%s: running the model after loading leaves the saved %s unchanged' % (cls, k)
        shared = sorted({o.origin for v in (an.setfields.get(a),) if v is not None for o in v.objs if o.origin and o.origin.startswith('saved:')})
        if shared and a in hit:
            rs.append(Result(nm, 'violation', wh, '%s is the saved array itself, which %s (%s) writes in place' % (a, hit[a].func, hit[a].where())))
        else:
            rs.append(Result(nm, 'ok', wh))
    for e in an.effects.values():
        rs.append(Result('%s.load_state leaves the saved states unchanged' % cls, 'violation', '%s %s' % (e.where(), e.func), 'writes to %s' % e.origin))
    out.add(rs, [], sorted('%s:%s' % x for x in an.funcs))
    return hit


PUBLIC = {'nSuperLink': dict({k: v for k, v in LIVE.items() if k != v}, Pe_ik='_Pe_ik', R_ik='_R_ik', B_ik='_B_ik', z_inv_j='_z_inv_j', z_inv_uk='_z_inv_uk', z_inv_dk='_z_inv_dk'),
          'QualityBuilder': {k: '_' + k for k in 'c_j c_Ik c_ik c_uk c_dk'.split()}}


def public(cls, props):
    @group('state.public_names[%s]' % cls, props)
    def g(repo, out):
        """a public name reads the variable the step works with, and setting it sets that variable"""
        for name, attr in PUBLIC[cls].items():
            if repo.find_method(cls, name) is None:
                out.add([Result('%s.%s' % (cls, name), 'undecided', '', 'no such property')])
                continue
            f, mod = repo.method(cls, name)
            wh = '%s:%d %s.%s' % (repo.file_of(mod), f.lineno, cls, name)
            eng = new_engine(repo, Onto())
            st = State({}, {})
            eng.curmod, eng.curcls = mod, cls
            eng.curfile.append(repo.file_of(mod))
            new = garr('new', 'z')
            me = eng.new_loc(ObjV(cls, {a: eng.new_loc(garr('own.' + a, 'z'), st) for a in PUBLIC[cls].values()}, 'self'), st)
            try:
                got = snapv(eng, st, eng.getattr(me, name, st, f))
                e2 = st
                eng.setattr(me, name, eng.new_loc(new, st), st)
                at = e2.heap[me.loc].attrs
                other = [a for a in PUBLIC[cls].values() if a != attr and snapv(eng, e2, at.get(a)) != snapv(eng, e2, eng.new_loc(garr('own.' + a, 'z'), e2))]
                rs = [cmp_vals('%s.%s reads %s' % (cls, name, attr), wh, got, (garr('own.' + attr, 'z').dims, garr('own.' + attr, 'z').content)),
                      cmp_vals('setting %s.%s sets %s' % (cls, name, attr), wh, snapv(eng, e2, at.get(attr)), (new.dims, new.content))]
                if other and not eng.unmodelled:
                    rs.append(Result('setting %s.%s sets nothing else' % (cls, name), 'violation', wh, 'also changes %s' % ', '.join(other)))
            except (Unsupported, TooBig) as e:
                rs = [Result('%s.%s' % (cls, name), 'undecided', wh, str(e))]
            out.add(rs, eng.unmodelled, ['%s.%s' % (cls, name)])


def snapv(eng, st, v):
    a = eng.arr(v, st) if isinstance(v, (Ref, ArrV)) else None
    return (a.dims, a.content if a.mask is None else None) if a is not None else v


public('nSuperLink', 'C11 C18')
public('QualityBuilder', 'C23')
