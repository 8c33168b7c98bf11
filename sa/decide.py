"""Equality of value numbers: normal-form difference, case split on tests, binder-wise
comparison, denominator clearing.  A residual difference counts as a mismatch only when a
sample assignment of the *terms* realises it (guards against incomplete normalisation)."""
from fractions import Fraction as Fr
import itertools, math, random
from . import terms as T
import re
from .terms import *


ENDS = {'_i_1k', '_i_nk', '_I_1k', '_I_Np1k', '_I_Nk', '_I_2k'}   # one element of each superlink; never the whole array


class Res:
    def __init__(self, kind, ctx=None, E=None, note=''):
        self.kind = kind      # 'zero' | 'diff' | 'unknown'
        self.ctx = ctx or []
        self.E = E
        self.note = note

    def __repr__(self):
        return 'Res(%s,%s,%s,%s)' % (self.kind, self.ctx, self.E, self.note)


STATS = {'splits': 0, 'cells': 0, 'vacuous': 0, 'sampled_equal': 0}
ZERO_RES = Res('zero')
_fresh = [0]


def poisoned(n):
    return any(a.kind == 'poison' for a in all_atoms(n)) if 'poison' in POISONSEEN else False


POISONSEEN = set()


def scan_tests(E):
    """tests outside binders usable for a split: dict test -> list of sign-sets (None for ba)"""
    out = {}
    seen = set()
    order = []

    def bound(n):
        return any(a.kind == 'bv' for a in n.leaves) and bool(free_bv(n))

    def walk(x, d):
        if isinstance(x, tuple):
            for y in x:
                walk(y, d)
            return
        if not isinstance(x, N) or x in seen:
            return
        seen.add(x)
        if x.kind == 'sg':
            if not bound(x.args[0]):
                out.setdefault(x.args[0], [d, set()])[1].add(x.args[1])
        elif x.kind == 'ba':
            if not bound(x):
                out.setdefault(x, [d, set()])
        for y in x.args:
            walk(y, d + 1)
    walk(E, 0)
    return out


def blocks(sets):
    sig = {}
    for s in (-1, 0, 1):
        key = tuple(s in st for st in sorted(sets))
        sig.setdefault(key, []).append(s)
    return [tuple(v) for v in sig.values()]


NONNEG = [lambda a: False]
UPPER = [lambda a: None]


def facts(q):
    """known upper bounds on the atoms of q: polynomials that are >= 0"""
    out = []
    for a in sorted(atoms_of(q), key=lambda a: a.uid):
        for u in UPPER[0](a) or ():
            out.append(sub(u, A(a)))
    return out[:4]


_ENDJ = re.compile(r'^((?:[A-Za-z]+\.)*_J_)([ud])([kowp])$')


def _end_atom(m):
    if len(m) == 1 and m[0][1] == 1 and m[0][0].kind == 'sel' and isinstance(m[0][0].args[0], str):
        r = _ENDJ.match(m[0][0].args[0])
        if r:
            return r.group(1), r.group(2), r.group(3), m[0][0].args[1:]
    return None


def own_ends(q):
    """q = c*(J_u(e) - J_d(e)) for one element e: the two ends of an element are different superjunctions
    (an element whose ends coincide is not a link of the network; recorded assumption)"""
    it = q.args[0]
    if len(it) != 2 or it[0][1] != -it[1][1]:
        return False
    a, b = _end_atom(it[0][0]), _end_atom(it[1][0])
    return bool(a and b and a[0] == b[0] and a[2] == b[2] and a[3] == b[3] and {a[1], b[1]} == {'u', 'd'})


def implied(ctx, q):
    """possible signs of q given ctx by simple linear combination"""
    poss = {-1, 1} if own_ends(q) else {-1, 0, 1}
    cand = []
    for q0, s in ctx:
        if q0.kind == 'ba':
            continue
        if q0 is q:
            poss &= set(s)
        s = set(s)
        if s == {1} or s == {-1}:
            p = q0 if s == {1} else neg(q0)
            cand.append((sub(p, ONE), False) if T.is_int(p) else (p, True))
        elif s == {0, 1}:
            cand.append((q0, False))
        elif s == {-1, 0}:
            cand.append((neg(q0), False))
        elif s == {0}:
            cand.append((q0, False))
            cand.append((neg(q0), False))

    def lower(r):
        """r == something known >=0 / >0 by constant"""
        if is_const(r):
            v = cval(r)
            return 2 if v > 0 else (1 if v == 0 else 0)
        # sum of positive monomials
        if all(k > 0 and all(T.POS[0](a) for a, e in m) for m, k in r.args[0]):
            return 2
        if all(k > 0 and all(T.POS[0](a) or (e > 0 and NONNEG[0](a)) for a, e in m) for m, k in r.args[0]):
            return 2 if any(all(T.POS[0](a) for a, e in m) for m, k in r.args[0]) else 1
        return 0
    cand += [(f, False) for f in facts(q)]
    for sgn_ in (1, -1):
        qq = q if sgn_ == 1 else neg(q)
        got = None
        combos = [[]] + [[c] for c in cand]
        if len(cand) <= 8:
            combos += [[cand[i], cand[j]] for i in range(len(cand)) for j in range(i + 1, len(cand))]
        for cs in combos:
            r = qq
            strict = False
            for c, st in cs:
                r = sub(r, c)
                strict = strict or st
            l = lower(r)
            if l:
                if l == 2 or strict:
                    got = 2
                    break
                got = 1
        if got == 2:
            poss &= {sgn_}
        elif got == 1:
            poss &= {0, sgn_}
    return poss


def solve_any(q):
    """q==0 -> (atom, poly) preferring elt/loop, then sel/sym"""
    best = None
    for m, c in q.args[0]:
        if len(m) == 1 and m[0][1] == 1 and m[0][0].kind in ('elt', 'loop', 'sym', 'sel', 'csel', 'fn', 'opq', 'rec', 'app'):
            a = m[0][0]
            pr = {'elt': 0, 'loop': 1, 'sel': 3, 'csel': 3, 'sym': 2}.get(a.kind, 5)
            s = solve_for(q, a)
            if s is not None:
                key = (pr, -a.uid)
                if best is None or key < best[0]:
                    best = (key, a, s)
    return (best[1], best[2]) if best else None


def none_of(E, node, more):
    """no element of the boolean array `node` is true: use it for the element under comparison"""
    if node.kind != 'ext' or node.args[0] != 'arr' or len(node.args) != 3 or not isinstance(node.args[2], N) or node.args[2].kind != 'lam':
        return E
    body = node.args[2]
    c = lam_apply(body, *[elt(i) for i in range(len(body.args[0]))])
    todo = [(c, False)]
    while todo:
        c, v = todo.pop()
        if c.kind == 'not':
            todo.append((c.args[0], not v))
        elif c.kind == 'sg':
            s = set(c.args[1])
            a = s if v else {-1, 0, 1} - s
            more.append((c.args[0], tuple(sorted(a))))
            E = rewrite(E, {}, {c.args[0]: a})
        elif c.kind == 'ba':
            more.append((c, v))
            E = rewrite(E, {}, {c: v})
        elif (c.kind == 'or' and not v) or (c.kind == 'and' and v):
            todo += [(x, v) for x in c.args[0]]
    return E


EXCL = {'_is_start': '_is_end', '_is_end': '_is_start', '_functional': '_tabular', '_tabular': '_functional'}


def has_rec(n, opaque, seen=None):
    seen = set() if seen is None else seen
    if isinstance(n, tuple):
        return any(has_rec(x, opaque, seen) for x in n)
    if not isinstance(n, N) or n in seen or n in opaque:
        return False
    seen.add(n)
    return n.kind in ('rec', 'upd') or any(has_rec(x, opaque, seen) for x in n.args)


def _callkey(a):
    """what must coincide syntactically for two structured values to be compared argument by argument"""
    k = (a.kind,) + tuple(x for x in a.args if isinstance(x, (str, int)))
    if a.kind == 'app' and isinstance(a.args[0], N):
        k += (a.args[0].kind,) + tuple(x for x in a.args[0].args if isinstance(x, (str, int)))
    return k


def _comp(k):
    return 'var' if isinstance(k, str) and k.startswith('var:') else k


def _comps(spec):
    return tuple(_comp(c[0]) for c in spec.args[2])


class Budget(Exception):
    pass


class Decider:
    def __init__(self, maxcells=6000, sample=True):
        self.cells = 0
        self.maxcells = maxcells
        self.sample = sample

    def equal(self, a, b):
        if a is b:
            return ZERO_RES
        if a.kind != 'poly' or b.kind != 'poly':
            if a.kind == 'poly' or b.kind == 'poly':
                return Res('unknown', note='kind mismatch')
            a, b = ite(a, ONE, ZERO), ite(b, ONE, ZERO)
        return self.zero(sub(a, b))

    def zero(self, E, ctx=()):
        try:
            return self._zero(self._same_recs(self._same_calls(E, list(ctx)), list(ctx)), list(ctx))
        except (TooBig, Budget) as e:
            return Res('unknown', note='size budget exceeded')

    def _same_calls(self, E, ctx):
        """calls of one library function whose arguments are equal are one value (before any case split, so
        that a split never separates a call from itself)"""
        byk = {}
        for a in sorted(all_atoms(E), key=lambda a: a.uid):
            if a.kind == 'app' and a.args and not free_bv(a):
                byk.setdefault(_callkey(a), []).append(a)
        for k, lst in byk.items():
            if not 2 <= len(lst) <= 4:
                continue
            for i in range(len(lst)):
                for j in range(i):
                    try:
                        r = self._cong(lst[j], lst[i], ctx)
                    except Budget:
                        r = None
                    if r is not None and r.kind == 'zero':
                        E = rewrite(E, {lst[i]: A(lst[j])})
                        break
        return E

    def _same_recs(self, E, ctx):
        """two loops that compute the same values are one loop (again before any case split)"""
        if not has_rec(E, set()):
            return E
        byk = {}
        for a in sorted(all_atoms(E), key=lambda a: a.uid):
            if a.kind == 'rec' and not free_bv(a):
                k = (len(a.args),) + _comps(a.args[1])
                l = byk.setdefault(k, [])
                if a.args[1] not in [x.args[1] for x in l]:
                    l.append(a)
        for lst in byk.values():
            if not 2 <= len(lst) <= 4:
                continue
            for i in range(len(lst)):
                for j in range(i):
                    x, y = lst[j], lst[i]
                    x = mk('rec', y.args[0], x.args[1], *y.args[2:])
                    try:
                        r = self._rec_eq(x, y, ctx)
                    except Budget:
                        r = None
                    if r is not None and r.kind == 'zero':
                        E = rewrite(E, {z: A(mk('rec', z.args[0], x.args[1], *z.args[2:])) for z in all_atoms(E)
                                        if z.kind == 'rec' and z.args[1] is y.args[1] and not free_bv(z)})
                        break
        return E

    def _zero(self, E, ctx):
        if E is ZERO:
            return ZERO_RES
        if 'poison' in POISONSEEN and poisoned(E):
            return Res('unknown', ctx, E, 'depends on a construct the analysis does not model')
        ts = scan_tests(E)
        if ts:
            # split on shallowest
            def key(kv):
                return (-1 if kv[0].kind == 'ba' and kv[0].args[0] == 'any' else len(tests(kv[0])) if kv[0].kind == 'poly' else 0, kv[1][0], kv[0].uid)
            q, (d, sets) = min(ts.items(), key=key)
            # prefer index equalities first? keep shallow first
            self.cells += 1
            STATS['splits'] += 1
            if self.cells > self.maxcells:
                raise Budget()
            if q.kind == 'ba':
                unk = None
                for v in (True, False):
                    E2 = rewrite(E, {}, {q: v})
                    if v is True and q.args[0] == 'b' and q.args[1] in EXCL:
                        # an element cannot have both roles
                        E2 = rewrite(E2, {}, {mk('ba', 'b', EXCL[q.args[1]], *q.args[2:]): False})
                    if v is True and q.args[0] == 'streq':
                        # a name equals one string only
                        others = {t: False for t in ts if t.kind == 'ba' and t.args[0] == 'streq' and t.args[1] is q.args[1] and t is not q}
                        if others:
                            E2 = rewrite(E2, {}, others)
                    if v is False and q.args[0] == 'any':
                        more = []
                        E2 = none_of(E2, q.args[1], more)
                        r = self._zero(E2, ctx + [(q, v)] + more)
                    else:
                        r = self._zero(E2, ctx + [(q, v)])
                    if r.kind == 'diff':
                        return r
                    if r.kind == 'unknown':
                        unk = r
                return unk or ZERO_RES
            poss = implied(ctx, q)
            unk = None
            for blk in blocks(sets):
                b = tuple(x for x in blk if x in poss)
                if not b:
                    continue
                E2 = rewrite(E, {}, {q: set(b)})
                nctx = ctx + [(q, b)]
                if b == (0,):
                    s = solve_any(q)
                    if s is not None:
                        E2 = rewrite(E2, {s[0]: s[1]})
                        nctx2 = []
                        bad = False
                        for q0, s0 in nctx[:-1]:
                            if q0.kind == 'ba':
                                nctx2.append((q0, s0))
                                continue
                            q1 = rewrite(q0, {s[0]: s[1]})
                            if is_const(q1):
                                v = cval(q1)
                                if (v > 0) - (v < 0) not in s0:
                                    bad = True
                                continue
                            nctx2.append((q1, s0))
                        if bad:
                            continue
                        nctx = nctx2 + [(q, b)]
                r = self._zero(E2, nctx)
                if r.kind == 'diff':
                    return r
                if r.kind == 'unknown':
                    unk = r
            return unk or ZERO_RES
        STATS['cells'] += 1
        # no tests outside binders
        E = self._sums(E, ctx)
        if isinstance(E, Res):
            return E
        if E is ZERO:
            return ZERO_RES
        r = self._unify(E, ctx)
        if isinstance(r, Res):
            return r
        if r is not E:
            return self._zero(r, ctx)
        E = self._clear(E)
        if E is ZERO:
            return ZERO_RES
        return self._sample(E, ctx)

    # -------------------------------------------------------------- sums
    def _sums(self, E, ctx):
        groups = {}
        rest = {}
        for m, c in E.args[0]:
            ss = [(a, e) for a, e in m if a.kind == 'sum']
            if len(ss) == 1 and ss[0][1] == 1:
                a = ss[0][0]
                o = mk('poly', ((tuple(x for x in m if x[0] is not a), c),))
                groups.setdefault(a.args[0], []).append((o, a))
            else:
                rest[m] = c
        if not groups:
            return E
        ns = list(groups)
        # identify equal ranges
        for i in range(len(ns)):
            for j in range(i):
                if ns[j] in groups and ns[i] in groups and ns[i] is not ns[j]:
                    if self.equal(ns[i], ns[j]).kind == 'zero':
                        groups[ns[j]] += groups.pop(ns[i])
        out = poly(rest)
        pend = None
        nz = 0
        for n, lst in groups.items():
            _fresh[0] += 1
            v = mk('loop', 'z%d' % _fresh[0])
            B = ZERO
            for o, a in lst:
                B = add(B, mul(o, rewrite(a.args[2], {a.args[1]: A(v)})))
            rng = [(A(v), (0, 1)), (sub(A(v), n), (-1,))]
            r = self._zero(B, ctx + rng)
            if r.kind == 'zero':
                continue
            nz += 1
            pend = r
        if nz == 0:
            return out
        # a nonzero summand
        if pend.kind == 'unknown':
            return pend
        if nz > 1:
            return Res('unknown', ctx, E, 'sums over different ranges')
        if out is not ZERO:
            # a leftover non-sum part: cannot cancel an arbitrary nonzero sum unless n==1
            return Res('diff', pend.ctx, add(pend.E, out), pend.note)
        return pend

    # -------------------------------------------------------------- congruence
    def _unify(self, E, ctx):
        ats = [a for a in atoms_of(E)]
        deep = sorted(all_atoms(E), key=lambda a: a.uid)
        # structured atoms that may be equal modulo their arguments
        byk = {}
        for a in deep:
            if a.kind in ('rec', 'upd', 'app', 'opq', 'fn', 'sel', 'csel', 'ext') and a.args and not free_bv(a):
                k = _callkey(a)
                if a.kind == 'rec':
                    k = ('rec', _comp(a.args[1].args[2][a.args[0]][0]))
                byk.setdefault(k, []).append(a)
        definite = None
        for k, lst in byk.items():
            if len(lst) < 2 or len(lst) > 14:
                continue
            for i in range(len(lst)):
                for j in range(i):
                    r = self._cong(lst[j], lst[i], ctx)
                    if r is None:
                        continue
                    if r.kind == 'zero':
                        return rewrite(E, {lst[i]: A(lst[j])})
                    if k[0] in ('rec', 'upd') and definite is None:
                        definite = r
        # recurrences that could not be identified
        # (one hidden in the arguments of the only use of an opaque function cannot cancel against anything)
        inctx = {}
        for q, _s in ctx:
            for a in all_atoms(q):
                if a.kind in ('app', 'opq', 'fn', 'ext'):
                    inctx.setdefault(_callkey(a), set()).add(a)
        single = set(l[0] for k, l in byk.items() if len(l) == 1 and inctx.get(k, set()) <= {l[0]} and l[0].kind in ('app', 'opq', 'fn', 'ext'))
        if has_rec(E, single):
            if definite is not None:
                return definite
            return Res('unknown', ctx, E, 'loop structure not matched')
        return E

    def _cong(self, a, b, ctx):
        if len(a.args) != len(b.args):
            return None
        if a.kind == 'rec':
            return self._rec_eq(a, b, ctx)
        worst = ZERO_RES
        for x, y in zip(a.args, b.args):
            r = self._arg_eq(x, y, ctx)
            if r.kind != 'zero':
                if a.kind == 'upd':
                    if r.kind == 'diff':
                        return r
                    worst = r
                else:
                    return None
        return worst

    def _arg_eq(self, x, y, ctx):
        if x is y or (not isinstance(x, N) and x == y):
            return ZERO_RES
        if isinstance(x, tuple) and isinstance(y, tuple) and len(x) == len(y):
            worst = ZERO_RES
            for p, q in zip(x, y):
                r = self._arg_eq(p, q, ctx)
                if r.kind == 'diff':
                    return r
                if r.kind != 'zero':
                    worst = r
            return worst
        if not isinstance(x, N) or not isinstance(y, N):
            return Res('unknown', note='argument mismatch')
        if x.kind == 'lam' and y.kind == 'lam':
            if len(x.args[0]) != len(y.args[0]):
                return Res('unknown', note='arity mismatch')
            _fresh[0] += 1
            vs = [A(mk('loop', 'l%d_%d' % (_fresh[0], i))) for i in range(len(x.args[0]))]
            return self._arg_eq(lam_apply(x, *vs), lam_apply(y, *vs), ctx)
        if x.kind == 'poly' and y.kind == 'poly':
            return self._zero(sub(x, y), list(ctx))
        cond = ('sg', 'ba', 'and', 'or', 'not', 'T', 'F')
        if x.kind in cond and y.kind in cond:
            return self._zero(sub(ite(x, ONE, ZERO), ite(y, ONE, ZERO)), list(ctx))
        if x.kind == y.kind == 'ext' and len(x.args) == len(y.args):
            if x.args[0] in ('arr', 'marr') and x.args[0] == y.args[0]:
                r = self._arg_eq(x.args[1], y.args[1], ctx)
                if r.kind != 'zero':
                    return r
                la, lb = x.args[2], y.args[2]
                if isinstance(la, N) and isinstance(lb, N) and la.kind == lb.kind == 'lam' and len(la.args[0]) == len(lb.args[0]) == len(x.args[1]):
                    _fresh[0] += 1
                    vs = [mk('loop', 'a%d_%d' % (_fresh[0], i)) for i in range(len(la.args[0]))]
                    rng = []
                    for v, d in zip(vs, x.args[1]):
                        rng += [(A(v), (0, 1)), (sub(A(v), d), (-1,))]
                    vs = [A(v) for v in vs]
                    r = self._arg_eq(lam_apply(la, *vs), lam_apply(lb, *vs), list(ctx) + rng)
                    if r.kind != 'zero' or len(x.args) == 3:
                        return r
                    return self._arg_eq(x.args[3:], y.args[3:], ctx)
            return self._arg_eq(x.args, y.args, ctx)
        if x.kind == y.kind == 'updspec':
            return self._updspec_eq(x, y, ctx)
        return Res('unknown', note='argument kinds differ')

    def _updspec_eq(self, x, y, ctx):
        """two batches of assignments: to the same places, of the same values, over the same array"""
        (n1, b1, t1, c1, v1, o1), (n2, b2, t2, c2, v2, o2) = x.args, y.args
        if self._arg_eq(n1, n2, ctx).kind != 'zero':
            return Res('unknown', note='different numbers of assignments')
        _fresh[0] += 1
        v = mk('loop', 'w%d' % _fresh[0])
        rng = list(ctx) + [(A(v), (0, 1)), (sub(A(v), n1), (-1,))]
        at = lambda e, b: tuple(at(q, b) for q in e) if isinstance(e, tuple) else rewrite(e, {b: A(v)})
        for p, q in ((t1, t2), (c1, c2)):
            if self._arg_eq(at(p, b1), at(q, b2), rng).kind != 'zero':
                return Res('unknown', note='different places assigned')
        r = self._arg_eq(at(v1, b1), at(v2, b2), rng)
        if r.kind != 'zero':
            return r
        r = self._arg_eq(o1, o2, ctx)
        if r.kind == 'diff' and not (len(t1) == 1 and c1.kind == 'T' and as_atom(t1[0]) is not None and as_atom(t1[0]).kind == 'sel' and as_atom(t1[0]).args[0] in ENDS):
            return Res('unknown', note='values before the assignments differ')
        return r


    def _rec_eq(self, a, b, ctx):
        ca, sa = a.args[0], a.args[1]
        cb, sb = b.args[0], b.args[1]
        for x, y in zip(a.args[2:], b.args[2:]):
            r = self._arg_eq(x, y, ctx)
            if r.kind != 'zero':
                return None
        if sa is sb:
            return ZERO_RES if ca == cb else None
        na, bva, compa = sa.args
        nb, bvb, compb = sb.args
        if len(compa) != len(compb) or _comps(sa) != _comps(sb):
            return None
        if [c[0] for c in compa] != [c[0] for c in compb]:
            # local variables may have any names: match them in every way that keeps the arrays in place
            pos = [i for i, c in enumerate(compb) if _comp(c[0]) == 'var']
            if len(pos) > 3:
                return None
            for perm in itertools.permutations(pos):
                order = list(range(len(compb)))
                for i, j in zip(pos, perm):
                    order[i] = j
                if order[ca] != cb:
                    continue
                r = self._spec_eq(na, nb, bva, [bvb[0]] + [bvb[1 + j] for j in order] if len(bvb) == 1 + len(compb) else bvb, compa, [compb[j] for j in order], ctx)
                if r is not None and r.kind == 'zero':
                    return r
            return None
        if ca != cb:
            return None
        return self._spec_eq(na, nb, bva, bvb, compa, compb, ctx)

    def _spec_eq(self, na, nb, bva, bvb, compa, compb, ctx):
        if self._arg_eq(na, nb, ctx).kind != 'zero':
            return None
        _fresh[0] += 1
        f = _fresh[0]
        nbv = len(bva)
        new = [mk('loop', 'r%d' % f)] + [mk('cur', 'r%d' % f, i) for i in range(1, nbv)]
        ma = {x: A(y) for x, y in zip(bva, new)}
        mb = {x: A(y) for x, y in zip(bvb, new)}
        worst = ZERO_RES
        ctx = list(ctx) + [(A(new[0]), (0, 1)), (sub(A(new[0]), na), (-1,))]
        for (la, nda, ia, fa), (lb, ndb, ib, fb) in zip(compa, compb):
            r = self._arg_eq(ia, ib, ctx)
            if r.kind == 'diff':
                return r
            if r.kind != 'zero':
                worst = r
            vs = [A(mk('loop', 'e%d_%d' % (f, i))) for i in range(nda)]
            xa = rewrite(lam_apply(fa, *vs), ma)
            xb = rewrite(lam_apply(fb, *vs), mb)
            r = self._arg_eq(xa, xb, ctx)
            if r.kind == 'diff':
                return r
            if r.kind != 'zero':
                worst = r
        return worst

    # -------------------------------------------------------------- denominators
    def _clear(self, E):
        for _ in range(40):
            # group atoms with negative exponents
            worst = None
            for m, c in E.args[0]:
                for a, e in m:
                    if e < 0 and a.kind == 'grp':
                        k = math.ceil(-e) if (-e).denominator != 1 else int(-e)
                        if worst is None or (a.uid, k) > (worst[0].uid, worst[1]) or (a is worst[0] and k > worst[1]):
                            if worst is None or a.uid >= worst[0].uid:
                                worst = (a, max(k, worst[1] if worst and worst[0] is a else 0))
            if worst is None:
                return E
            g, k = worst
            out = ZERO
            for m, c in E.args[0]:
                e = dict(m).get(g, Fr(0))
                rest = mk('poly', ((tuple(x for x in m if x[0] is not g), c),))
                ne = e + k
                f = math.floor(ne)
                p = rest
                if ne - f:
                    p = mul(p, mk('poly', ((((g, ne - f),), Fr(1)),)))
                for _i in range(int(f)):
                    p = mul(p, g.args[0])
                out = add(out, p)
            E = out
            if E is ZERO:
                return E
        return E

    # -------------------------------------------------------------- sampling filter
    def _sample(self, E, ctx):
        if not self.sample:
            return Res('diff', ctx, E)
        rnd = random.Random(12345)
        valid = 0
        equalc = 0
        # equations of the region: their atom takes the value that satisfies them
        solved = [x for x in (solve_any(q) for q, s in ctx if q.kind == 'poly' and tuple(s) == (0,)) if x is not None]
        for it in range(4000):
            env = Env(rnd, it, ctx)
            try:
                ok = True
                for q, s in ctx:
                    if q.kind == 'ba':
                        env.v[q] = bool(s)
                for a, t in solved:
                    if a in env.v:
                        continue
                    x = env.ev(t)
                    if isinstance(x, complex) or (T.INTATOM[0](a) and abs(x - round(x)) > 1e-9) or (T.POS[0](a) and x <= 0) or (NONNEG[0](a) and x < 0):
                        ok = False
                        break
                    env.v[a] = x
                if not ok:
                    continue
                for q, s in ctx:
                    if q.kind == 'ba':
                        continue
                    v = env.ev(q)
                    if isinstance(v, complex) or v != v:
                        ok = False
                        break
                    sv = 0 if abs(v) < 1e-12 else (1 if v > 0 else -1)
                    if sv not in s:
                        ok = False
                        break
                if not ok:
                    continue
                v, mag = env.ev_mag(E)
                if v != v or isinstance(v, complex):
                    continue
                valid += 1
                if abs(v) > 1e-7 * max(mag, 1e-9):
                    return Res('diff', ctx, E)
                equalc += 1
                if equalc > 25:
                    STATS['sampled_equal'] += 1
                    return Res('zero', ctx, E, 'equal modulo an identity outside the normal form')
            except (ArithmeticError, ValueError, OverflowError):
                continue
            except (TypeError, AttributeError, KeyError) as e:
                return Res('unknown', ctx, E, 'terms could not be evaluated: %r' % e)
        if valid == 0:
            STATS['vacuous'] += 1
            return Res('zero', ctx, E, 'cell has no realisable assignment')
        return Res('zero', ctx, E, 'equal on all realisable samples')


class Env:
    def __init__(self, rnd, it, ctx=()):
        self.r = rnd
        self.it = it
        self.v = {}
        self.ctx = ctx

    def leaf(self, a):
        v = self.v.get(a)
        if v is None:
            ub = UPPER[0](a)
            if ub and not T.INTATOM[0](a) and not all(is_const(u) for u in ub):
                ub = [self.ev(u) for u in ub]
                v = self.r.randint(0, max(0, int(min(ub))))
            elif ub and all(is_const(u) for u in ub):
                v = self.r.choice([0.0, float(min(cval(u) for u in ub)), self.r.uniform(0, float(min(cval(u) for u in ub)))])
            elif T.INTATOM[0](a):
                v = self.r.randint(0, 6) if self.it % 2 else self.r.randint(0, 40)
            elif T.POS[0](a):
                v = self.r.uniform(0.1, 3.0)
                if self.it % 5 == 0:
                    v = self.r.uniform(0.01, 1.0)
            else:
                m = self.it % 4
                v = self.r.uniform(-3, 3) if m == 0 else self.r.uniform(0.05, 2.5) if m == 1 else self.r.uniform(-1, 1) if m == 2 else self.r.choice([-2.0, -1.0, 1.0, 2.0, 0.5, 3.0, 0.25])
            self.v[a] = v
        return v

    def atom(self, a):
        v = self.v.get(a)
        if v is not None:
            return v
        k = a.kind
        if k == 'num':
            v = float(a.args[0])
        elif k == 'grp':
            v = self.ev(a.args[0])
        elif k == 'ite':
            v = self.ev(a.args[1]) if self.cond(a.args[0]) else self.ev(a.args[2])
        elif k == 'fn':
            v = self.fn(a)
        else:
            return self.leaf(a)
        self.v[a] = v
        return v

    def fn(self, a):
        f = a.args[0]
        if not all(isinstance(x, N) and x.kind == 'poly' for x in a.args[1:]):
            return self.leaf(a)
        xs = [self.ev(x) for x in a.args[1:]]
        F = {'sin': math.sin, 'cos': math.cos, 'tan': math.tan, 'acos': math.acos, 'asin': math.asin, 'atan': math.atan,
             'log': math.log, 'log10': math.log10, 'exp': math.exp, 'floor': math.floor, 'sqrt': math.sqrt}
        if f in F:
            return F[f](*xs)
        if f == 'powv':
            if xs[0] < 0:
                if not any(q is a.args[1] and tuple(v) == (-1,) for q, v in self.ctx):
                    raise ValueError
                # the program told negative bases apart and still takes the power: a value of its own
                return abs(xs[0]) ** xs[1] * (2.7 + math.sin(78.233 * xs[1]))
            return xs[0] ** xs[1]
        if f == 'pi':
            return math.pi
        return self.leaf(a)

    def cond(self, c):
        if c.kind == 'T':
            return True
        if c.kind == 'F':
            return False
        if c.kind == 'sg':
            v = self.ev(c.args[0])
            return (0 if abs(v) < 1e-12 else (1 if v > 0 else -1)) in c.args[1]
        if c.kind == 'and':
            return all(self.cond(x) for x in c.args[0])
        if c.kind == 'or':
            return any(self.cond(x) for x in c.args[0])
        if c.kind == 'not':
            return not self.cond(c.args[0])
        v = self.v.get(c)
        if v is None:
            v = self.r.random() < 0.5
            if c.kind == 'ba' and c.args[0] == 'streq' and v:
                v = not any(y and x.kind == 'ba' and x.args[0] == 'streq' and x.args[1] is c.args[1] for x, y in self.v.items())
            self.v[c] = v
        return v

    def ev(self, t):
        return self.ev_mag(t)[0]

    def ev_mag(self, t):
        s = 0.0
        mag = 0.0
        for m, c in t.args[0]:
            p = float(c)
            for a, e in m:
                x = self.atom(a)
                if x == 0 and e < 0:
                    raise ZeroDivisionError
                if e.denominator != 1:
                    if x < 0:
                        raise ValueError
                    p *= x ** float(e)
                else:
                    p *= x ** int(e)
            s += p
            mag += abs(p)
        return s, mag
