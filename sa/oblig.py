"""Proof obligations: effect of a routine of the repository == effect of its reference routine."""
import os, time, traceback
from . import decide as D
from .run import *
from .terms import *
from .ontology import Onto, CODO, BOOL, INTS, base_attr

SPECDIR = os.path.join(os.path.dirname(os.path.abspath(__file__)), 'specs')


def load(root):
    repo = Repo(root)
    for f in sorted(os.listdir(SPECDIR)):
        if f.endswith('.py'):
            p = os.path.join(SPECDIR, f)
            repo.add('spec.' + f[:-3], open(p).read(), 'spec:' + f)
    return repo


class Result:
    def __init__(self, name, status, where, detail=''):
        self.name, self.status, self.where, self.detail = name, status, where, detail

    def __repr__(self):
        return '%-9s %s [%s] %s' % (self.status, self.name, self.where, self.detail[:300])


def libs(n):
    """names of opaque library functions a term depends on"""
    out = set()
    for a in all_atoms(n):
        if a.kind == 'ext' and a.args and a.args[0] in ('lib', 'call'):
            out.add(str(a.args[1]) if a.args[0] == 'lib' else 'call')
        if a.kind == 'fn' and a.args[0] in ('inf', 'nan'):
            out.add('naninf')
    return out


def has_kind(n, k):
    return any(a.kind == k for a in all_atoms(n))


def compare_terms(a, b, maxcells=6000, ctx=()):
    """Res for a == b"""
    if not isinstance(a, N) or not isinstance(b, N):
        return D.Res('unknown', note='not a term')
    if a is b:
        return D.ZERO_RES
    d = D.Decider(maxcells)
    r = d.equal(a, b)
    if r.kind == 'diff' and libs(a) != libs(b):
        return D.Res('unknown', r.ctx, r.E, 'library calls differ')
    return r


def fmt(r, lim=700):
    c = ', '.join(('%s is %s' % (q, v)) if q.kind == 'ba' else '%s in %s' % (q, v) for q, v in r.ctx)
    return ('when [%s]: residual %r' % (c[:lim // 2], r.E))[:lim] + ('' if not r.note else ' (%s)' % r.note)


def where_method(repo, cls, m):
    f, mod = repo.method(cls, m)
    return '%s:%d %s.%s' % (repo.file_of(mod), f.lineno, repo.cls_of(f) or cls, m)


def compare_attr(name, where, ea, es, attr):
    va, vs = ea.get(attr), es.get(attr)
    if va is None or vs is None:
        return Result(name, 'undecided', where, 'attribute not modelled')
    if not (isinstance(va, tuple) and len(va) == 2) or not (isinstance(vs, tuple) and len(vs) == 2):
        return Result(name, 'undecided', where, 'value of a kind the analysis does not model')
    if len(va[0]) != len(vs[0]):
        if va[0] == () and has_kind(va[1], 'poison'):
            return Result(name, 'undecided', where, 'unmodelled: %r' % (va[1],))
        return Result(name, 'undecided', where, 'rank differs')
    r = compare_terms(va[1], vs[1])
    return Result(name, {'zero': 'ok', 'diff': 'violation', 'unknown': 'undecided'}[r.kind], where, '' if r.kind == 'zero' else fmt(r))


SMALL = ({'k': 1, 'o': 1, 'w': 1, 'p': 1}, {'k': 2, 'o': 1, 'w': 1, 'p': 1}, {'j': 3, 'k': 2, 'o': 1, 'w': 1, 'p': 1})


def small_onto(onto, sizes):
    """the same model with these numbers of elements, so that loops over them are written out"""
    base = type(onto)
    m = {as_atom(Ns(s)): const(n) for s, n in sizes.items()}

    def small(v):
        if isinstance(v, ArrV):
            return ArrV(tuple(rewrite(d, m) for d in v.dims), v.content, v.mask, v.label)
        return rewrite(v, m) if isinstance(v, N) and v.kind == 'poly' else v
    cls = type('Small', (base,), {'arr': lambda self, *a, **k: small(base.arr(self, *a, **k)), 'attr': lambda self, *a: small(base.attr(self, *a))})
    o = cls.__new__(cls)
    o.__dict__.update(onto.__dict__)
    return o, small


def plain(n):
    """elements are told apart by the superjunctions they join only (no relation between junctions, links and superlinks is needed)"""
    for a in all_atoms(n):
        if a.kind == 'poison':
            return False
        nm = a.args[0] if a.kind == 'sel' else a.args[1] if a.kind == 'ba' and a.args and a.args[0] == 'b' else None
        b = base_attr(nm) if isinstance(nm, str) else None
        if b in CODO and not b.startswith('_J_') or b in BOOL and b not in ('bc', '_ctrl', '_unidir_o', '_functional', '_tabular', '_fixed') or b in INTS:
            return False
    return True


def small_instances(repo, cls, spec, method, attrs, args, kw):
    """attributes that differ from the reference on a network with few elements: {attr: Res, sizes}"""
    out = {}
    for sizes in SMALL:
        left = [a for a in attrs if a not in out]
        if not left:
            break
        onto, small = small_onto(kw.get('onto') or Onto(), sizes)
        kw2 = dict(kw, onto=onto)
        if kw.get('pre'):
            kw2['pre'] = {k: small(v) for k, v in kw['pre'].items()}
        try:
            ea, es = (run_method(repo, c, method, {k: small(v) for k, v in (args or {}).items()}, **kw2) for c in (cls, spec))
            for at in left:
                va, vs = ea.get(at), es.get(at)
                if not all(isinstance(v, tuple) and len(v) == 2 and isinstance(v[1], N) for v in (va, vs)) or len(va[0]) != len(vs[0]) or not (plain(va[1]) and plain(vs[1])):
                    continue
                cells = [{}]
                for d, n in enumerate(vs[0]):
                    if is_const(n):
                        cells = [{**c, d: const(i)} for c in cells for i in range(int(cval(n)))]
                for c in cells[:16]:
                    m = {ELT[d]: i for d, i in c.items()}
                    r = compare_terms(rewrite(va[1], m), rewrite(vs[1], m))
                    if r.kind == 'diff':
                        out[at] = (r, sizes)
                        break
        except Exception:      # no answer from this instance: the symbolic verdict stands
            continue
    return out


def method_obligations(repo, cls, spec, method, attrs, args, tag='', protected=(), mk=None, **kw):
    """mk: dict of extra run_method keywords.  Returns list of Result."""
    out = []
    wh = where_method(repo, cls, method)
    base = '%s.%s%s' % (cls, method, tag)
    ea = run_method(repo, cls, method, args, **kw)
    es = run_method(repo, spec, method, args, **kw)
    if es.eng.unmodelled:
        raise RuntimeError('reference %s uses constructs the analysis does not model: %s' % (base, es.eng.unmodelled[:3]))
    for a in attrs:
        out.append(compare_attr('%s -> %s' % (base, a), wh, ea, es, a))
    if not ea.eng.unmodelled:
        ca, cs = set(ea.changed()), set(es.changed())
        for i, a in enumerate(attrs):
            if out[i].status == 'undecided' and a in cs and a not in ca:
                out[i] = Result(out[i].name, 'violation', wh, '%s is never assigned; the reference computes it here' % a)
    unsure = [a for a, r in zip(attrs, out) if r.status == 'undecided']
    if unsure:
        worse = small_instances(repo, cls, spec, method, unsure, args, kw)
        for i, a in enumerate(attrs):
            if a in worse:
                r, sizes = worse[a]
                what = ', '.join('%d %s' % (n, {'k': 'superlinks', 'j': 'superjunctions', 'o': 'orifices', 'w': 'weirs', 'p': 'pumps'}[s]) for s, n in sorted(sizes.items()))
                out[i] = Result(out[i].name, 'violation', wh, 'on a network with %s: %s' % (what, fmt(r)))
    # frame: protected attributes the reference leaves alone stay unchanged
    changed = [a for a in ea.changed() if a in protected and a not in attrs]
    sch = set(es.changed())
    for a in changed:
        if a in sch:
            continue
        r = compare_attr('%s leaves %s unchanged' % (base, a), wh, ea, es, a)
        out.append(r)
    if not changed:
        out.append(Result('%s changes no other protected variable' % base, 'ok', wh))
    for f in ea.eng.findings:
        out.append(Result('%s index spaces' % base, 'violation', f[0], f[1]))
    un = ea.eng.unmodelled
    return out, un
