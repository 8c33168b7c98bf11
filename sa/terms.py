"""Algebraic value numbers: hash-consed polynomials over atoms, conditions, binders.

A value number is a Laurent polynomial with rational exponents over interned atoms.
Conditionals are atoms (`ite`), resolved lazily by case split on *tests* (sign of a
normalised polynomial, or an opaque boolean).  Binders (sums, recurrences, whole-array
arguments) are alpha-canonical: a closed variable is named by the height of its binder.
"""
from fractions import Fraction as Fr
import math, random, sys
sys.setrecursionlimit(100000)

_tab = {}
_cnt = [0]


class N:
    __slots__ = ('kind', 'args', 'uid', 'h', 'leaves', '_hash', 'tests_')

    def __repr__(self):
        return show(self)


_EMPTY = frozenset()


def mk(kind, *args):
    key = (kind,) + args
    n = _tab.get(key)
    if n is not None:
        return n
    n = N()
    n.kind = kind
    n.args = args
    _cnt[0] += 1
    n.uid = _cnt[0]
    h = 0
    lv = set()

    def walk(a):
        nonlocal h
        if isinstance(a, N):
            if a.h > h:
                h = a.h
            if a.leaves:
                lv.update(a.leaves)
        elif isinstance(a, tuple):
            for b in a:
                walk(b)
    for a in args:
        walk(a)
    if kind == 'bv':
        h = max(h, args[0])
    n.h = h
    if kind in ('elt', 'loop', 'cur', 'sym', 'bv'):
        lv.add(n)
    n.leaves = frozenset(lv) if lv else _EMPTY
    n.tests_ = None
    _tab[key] = n
    return n


# ------------------------------------------------------------------ polynomials
def poly(d):
    """d: dict mono -> Fraction"""
    items = [(m, c) for m, c in d.items() if c != 0]
    items.sort(key=lambda mc: tuple((a.uid, e) for a, e in mc[0]))
    return mk('poly', tuple(items))


ZERO = None


def const(c):
    c = Fr(c)
    return mk('poly', (((), c),)) if c != 0 else ZERO


ZERO = mk('poly', ())
ONE = const(1)


PERM = {'perm.to': 'perm.from', 'perm.from': 'perm.to'}      # names of permutations of 0..n-1 -> names of their inverses


def A(atom):
    if PERM and atom.kind == 'sel' and len(atom.args) == 2 and atom.args[0] in PERM:
        x = as_atom(atom.args[1]) if isinstance(atom.args[1], N) and atom.args[1].kind == 'poly' else atom.args[1]
        if isinstance(x, N) and x.kind == 'sel' and len(x.args) == 2 and x.args[0] == PERM[atom.args[0]]:
            return x.args[1] if x.args[1].kind == 'poly' else A(x.args[1])
    return mk('poly', ((((atom, Fr(1)),), Fr(1)),))


def sym(name, *extra):
    return A(mk('sym', name, *extra))


def is_const(t):
    return t.kind == 'poly' and (not t.args[0] or (len(t.args[0]) == 1 and t.args[0][0][0] == ()))


def cval(t):
    return t.args[0][0][1] if t.args[0] else Fr(0)


def items(t):
    return t.args[0]


def add(*ts):
    d = {}
    for t in ts:
        for m, c in t.args[0]:
            d[m] = d.get(m, 0) + c
    return poly(d)


def scale(t, c):
    if c == 0:
        return ZERO
    if c == 1:
        return t
    return mk('poly', tuple((m, k * c) for m, k in t.args[0]))


def neg(t):
    return scale(t, Fr(-1))


def sub(a, b):
    if a is b:
        return ZERO
    return add(a, neg(b))


def _mono_mul(m1, m2):
    d = dict(m1)
    for a, e in m2:
        d[a] = d.get(a, 0) + e
    return d


def _finish_mono(d, c):
    """d: dict atom->exp; returns poly (expands grp atoms with exponent >=1, num atoms)."""
    pend = None
    out = {}
    for a, e in d.items():
        if e == 0:
            continue
        if a.kind == 'num' and (e >= 1 or e < 0):
            f = math.floor(e)
            c = c * Fr(a.args[0]) ** f
            e = e - f
            if e == 0:
                continue
        elif a.kind == 'grp' and e >= 1:
            f = math.floor(e)
            if pend is None:
                pend = []
            pend.append((a.args[0], f))
            e = e - f
            if e == 0:
                continue
        elif a.kind == 'ite' and e >= 1 and e.denominator == 1 and a.args[1] in (ZERO, ONE) and a.args[2] in (ZERO, ONE):
            e = Fr(1)
        out[a] = e
    m = tuple(sorted(out.items(), key=lambda ae: ae[0].uid))
    r = mk('poly', ((m, c),)) if c else ZERO
    if pend:
        for P, f in pend:
            for _ in range(int(f)):
                r = mul(r, P)
    return r


class TooBig(Exception):
    pass


def mul(a, b):
    if a is ZERO or b is ZERO:
        return ZERO
    if a is ONE:
        return b
    if b is ONE:
        return a
    if is_const(a):
        return scale(b, cval(a))
    if is_const(b):
        return scale(a, cval(b))
    if len(a.args[0]) * len(b.args[0]) > 60000:
        raise TooBig()
    acc = {}
    extra = []
    for m1, c1 in a.args[0]:
        for m2, c2 in b.args[0]:
            p = _finish_mono(_mono_mul(m1, m2), c1 * c2)
            if len(p.args[0]) == 1:
                m, c = p.args[0][0]
                acc[m] = acc.get(m, 0) + c
            elif p is not ZERO:
                extra.append(p)
    for p in extra:
        for m, c in p.args[0]:
            acc[m] = acc.get(m, 0) + c
    return poly(acc)


def _primes(n):
    out = {}
    p = 2
    while p * p <= n and p < 20000:
        while n % p == 0:
            out[p] = out.get(p, 0) + 1
            n //= p
        p += 1
    if n > 1:
        out[n] = out.get(n, 0) + 1
    return out


# atoms known to be strictly positive / nonnegative: predicate installed by ontology
POS = [lambda a: False]


def is_pos_mono(m):
    return all(POS[0](a) or (e.denominator == 1 and e.numerator % 2 == 0) for a, e in m)


def content(t):
    """t nonzero sum -> (|c| Fraction>0, mono dict, primitive poly)  t = c*m*P"""
    its = t.args[0]
    md = None
    for m, c in its:
        d = dict(m)
        if md is None:
            md = d
        else:
            nd = {}
            for a in set(md) | set(d):
                e = min(md.get(a, Fr(0)), d.get(a, Fr(0)))
                if e != 0:
                    nd[a] = e
            md = nd
    lead = abs(its[0][1])
    inv = {a: -e for a, e in md.items()}
    d = {}
    for m, c in its:
        mm = _mono_mul(m, tuple(inv.items()))
        mm = tuple(sorted(((a, e) for a, e in mm.items() if e != 0), key=lambda ae: ae[0].uid))
        d[mm] = d.get(mm, 0) + c
    P = poly(d)
    if not P.args[0]:
        return Fr(1), {}, P
    lead = abs(P.args[0][0][1])
    return lead, md, scale(P, 1 / lead)


def powr(t, e):
    e = Fr(e)
    if e == 0:
        return ONE
    if e == 1:
        return t
    if t is ZERO:
        if e > 0:
            return ZERO
        return A(mk('fn', 'inf'))
    if is_const(t):
        c = cval(t)
        if e.denominator == 1:
            return const(c ** int(e))
        if c < 0:
            return A(mk('fn', 'nan'))
        d = {}
        for p, k in _primes(c.numerator).items():
            if p > 1:
                d[mk('num', p)] = d.get(mk('num', p), Fr(0)) + k * e
        for p, k in _primes(c.denominator).items():
            if p > 1:
                d[mk('num', p)] = d.get(mk('num', p), Fr(0)) - k * e
        return _finish_mono(d, Fr(1))
    if len(t.args[0]) == 1:
        m, c = t.args[0][0]
        if e.denominator != 1 and c < 0:
            # (-x)^(1/2): keep as group
            g = mk('grp', mk('poly', ((m, Fr(-1)),)))
            return mul(powr(const(-c), e), _finish_mono({g: e}, Fr(1)))
        r = powr(const(c), e)
        d = {}
        if e.denominator != 1:
            for a, k in m:
                ne = k * e
                if k.denominator == 1 and k.numerator % 2 == 0 and not POS[0](a) and not (ne.denominator == 1 and ne.numerator % 2 == 0):
                    ab = absv(A(a))
                    r = mul(r, powr(ab, ne)) if not (len(ab.args[0]) == 1 and ab is A(a)) else mul(r, _finish_mono({a: ne}, Fr(1)))
                else:
                    d[a] = d.get(a, Fr(0)) + ne
        else:
            for a, k in m:
                d[a] = k * e
        return mul(r, _finish_mono(d, Fr(1)))
    # sum
    if e.denominator == 1 and e > 0:
        r = ONE
        for _ in range(int(e)):
            r = mul(r, t)
        return r
    c, md, P = content(t)
    if e.denominator == 1:
        s = 1
        if P.args[0][0][1] < 0:
            P = neg(P)
            s = -1
        d = {a: k * e for a, k in md.items()}
        g = mk('grp', P)
        d[g] = d.get(g, Fr(0)) + e
        return _finish_mono(d, (c ** int(e)) * (Fr(s) ** int(e)))
    # fractional: only pull out positive things
    pm = {a: k for a, k in md.items() if POS[0](a)}
    rest = {a: k for a, k in md.items() if not POS[0](a)}
    Q = mul(P, _finish_mono(rest, Fr(1))) if rest else P
    r = powr(const(c), e)
    d = {a: k * e for a, k in pm.items()}
    g = mk('grp', Q)
    d[g] = d.get(g, Fr(0)) + e
    return mul(r, _finish_mono(d, Fr(1)))


def div(a, b):
    return mul(a, powr(b, -1))


def as_atom(t):
    """poly that is exactly one atom -> atom else None"""
    if t.kind == 'poly' and len(t.args[0]) == 1:
        m, c = t.args[0][0]
        if c == 1 and len(m) == 1 and m[0][1] == 1:
            return m[0][0]
    return None


# ------------------------------------------------------------------ integers
INTATOM = [lambda a: False]


def is_int(t):
    for m, c in t.args[0]:
        if c.denominator != 1:
            return False
        for a, e in m:
            if e.denominator != 1 or e < 0 or not INTATOM[0](a):
                return False
    return True


# ------------------------------------------------------------------ conditions
TRUE = mk('T')
FALSE = mk('F')


def sg(q, s):
    """sign(q) in s, s subset of {-1,0,1}"""
    s = frozenset(s)
    if not s:
        return FALSE
    if len(s) == 3:
        return TRUE
    if q is ZERO:
        return TRUE if 0 in s else FALSE
    if is_const(q):
        v = cval(q)
        return TRUE if (1 if v > 0 else -1) in s else FALSE
    # strip positive content
    c, md, P = content(q)
    keep = {}
    flip = 1
    for a, e in md.items():
        if POS[0](a):
            continue
        if e.denominator == 1 and e < 0:
            e = Fr(1) if e.numerator % 2 else Fr(2)
        keep[a] = e
    P2 = P
    if keep:
        P2 = mul(P, _finish_mono(keep, Fr(1)))
    if not P2.args[0]:
        return TRUE if 0 in s else FALSE
    if P2.args[0][0][1] < 0:
        P2 = neg(P2)
        flip = -1
    if flip == -1:
        s = frozenset(-x for x in s)
    if is_const(P2):
        return TRUE if 1 in s else FALSE
    # sum of positive things with positive coefficients
    if all(k > 0 and is_pos_mono(m) and all(POS[0](a) for a, e in m) for m, k in P2.args[0]):
        return TRUE if 1 in s else FALSE
    if is_int(P2):
        for m, k in P2.args[0]:
            if m != ():
                if k < 0:
                    P2 = neg(P2)
                    s = frozenset(-x for x in s)
                break
        if s == frozenset((-1, 0)):
            P2, s = sub(P2, ONE), (-1,)
        elif s == frozenset((1,)):
            P2, s = sub(P2, ONE), (0, 1)
        lo = 0
        for m, k in P2.args[0]:
            if m == ():
                lo += k
            elif k > 0 and all(POS[0](a) for a, e in m):
                lo += k
            else:
                lo = None
                break
        if lo is not None and lo >= 0:
            s = frozenset(s)
            if lo > 0:
                return TRUE if 1 in s else FALSE
            if {0, 1} <= s:
                return TRUE
            if not s & {0, 1}:
                return FALSE
    return mk('sg', P2, tuple(sorted(s)))


def batom(*a):
    if a[0] == 'streq' and isinstance(a[1], N):
        x = as_atom(a[1])
        if x is not None and x.kind == 'ext' and x.args[0] == 'str' and isinstance(x.args[1], str) and isinstance(a[2], str):
            return TRUE if x.args[1] == a[2] else FALSE
    return mk('ba', *a)


def notc(c):
    if c is TRUE:
        return FALSE
    if c is FALSE:
        return TRUE
    if c.kind == 'sg':
        ns = tuple(sorted({-1, 0, 1} - set(c.args[1])))
        return mk('sg', c.args[0], ns)
    if c.kind == 'not':
        return c.args[0]
    if c.kind == 'and':
        return orc(*[notc(x) for x in c.args[0]])
    if c.kind == 'or':
        return andc(*[notc(x) for x in c.args[0]])
    return mk('not', c)


def andc(*cs):
    out = []
    for c in cs:
        if c is FALSE:
            return FALSE
        if c is TRUE:
            continue
        if c.kind == 'and':
            out.extend(c.args[0])
        else:
            out.append(c)
    sgs = {}
    res = []
    for c in out:
        if c.kind == 'sg':
            q = c.args[0]
            sgs[q] = sgs.get(q, {-1, 0, 1}) & set(c.args[1])
        elif c not in res:
            res.append(c)
    for q, s in sgs.items():
        c = sg(q, s)
        if c is FALSE:
            return FALSE
        if c is not TRUE and c not in res:
            res.append(c)
    for c in res:
        if notc(c) in res:
            return FALSE
    if not res:
        return TRUE
    if len(res) == 1:
        return res[0]
    return mk('and', tuple(sorted(res, key=lambda n: n.uid)))


def orc(*cs):
    out = []
    for c in cs:
        if c is TRUE:
            return TRUE
        if c is FALSE:
            continue
        if c.kind == 'or':
            out.extend(c.args[0])
        else:
            out.append(c)
    sgs = {}
    res = []
    for c in out:
        if c.kind == 'sg':
            q = c.args[0]
            sgs[q] = sgs.get(q, set()) | set(c.args[1])
        elif c not in res:
            res.append(c)
    for q, s in sgs.items():
        c = sg(q, s)
        if c is TRUE:
            return TRUE
        if c is not FALSE and c not in res:
            res.append(c)
    for c in res:
        if notc(c) in res:
            return TRUE
    if not res:
        return FALSE
    if len(res) == 1:
        return res[0]
    return mk('or', tuple(sorted(res, key=lambda n: n.uid)))


# ------------------------------------------------------------------ ite
def ite(c, a, b):
    if c is TRUE or a is b:
        return a
    if c is FALSE:
        return b
    if a.kind != 'poly':   # conditions
        return orc(andc(c, a), andc(notc(c), b))
    if c.kind == 'not' or (c.kind == 'sg' and (len(c.args[1]) == 2 and c.args[1] != (-1, 0))) or (c.kind == 'or'):
        c, a, b = notc(c), b, a
    if c.kind in ('sg', 'ba'):
        a = assume(a, c, True)
        b = assume(b, c, False)
        if a is b:
            return a
    # pull common monomials
    db = dict(b.args[0])
    common = {}
    for m, k in a.args[0]:
        if db.get(m) == k:
            common[m] = k
    if common:
        cm = poly(common)
        return add(cm, ite(c, sub(a, cm), sub(b, cm)))
    return A(mk('ite', c, a, b))


def absv(t):
    if is_const(t):
        return const(abs(cval(t)))
    return ite(sg(t, {-1}), neg(t), t)


def maxv(a, b):
    d = sub(a, b)
    return ite(sg(d, {1, 0}), a, b)


def minv(a, b):
    d = sub(a, b)
    return ite(sg(d, {-1, 0}), a, b)


def assume(t, c, val):
    """specialise t knowing simple test c == val (no substitution of equalities)."""
    if c.kind == 'sg':
        q, s = c.args
        if q not in tests(t):
            return t
        known = set(s) if val else {-1, 0, 1} - set(s)
        return rewrite(t, {}, {q: known})
    if c.kind == 'ba':
        if c not in tests(t):
            return t
        return rewrite(t, {}, {c: val})
    return t


# ------------------------------------------------------------------ functions
def fn(name, *args):
    return A(mk('fn', name, *args))


def tests(n):
    """set of tests (poly q of sg, or ba nodes) occurring anywhere in n, incl. under binders"""
    if n.tests_ is not None:
        return n.tests_
    out = set()

    def walk(a):
        if isinstance(a, N):
            out.update(tests(a))
        elif isinstance(a, tuple):
            for b in a:
                walk(b)
    for a in n.args:
        walk(a)
    if n.kind == 'sg':
        out.add(n.args[0])
    elif n.kind == 'ba':
        out.add(n)
    n.tests_ = frozenset(out) if out else _EMPTY
    return n.tests_


# ------------------------------------------------------------------ rewriting
def rewrite(n, amap, known=None, memo=None):
    """substitute atoms (atom -> poly) and known tests (q -> allowed sign set / ba -> bool)."""
    if memo is None:
        memo = {}
    return _rw(n, amap, known or {}, memo)


def _rwarg(a, amap, known, memo):
    if isinstance(a, N):
        return _rw(a, amap, known, memo)
    if isinstance(a, tuple):
        return tuple(_rwarg(b, amap, known, memo) for b in a)
    return a


# smart reconstruct hooks per atom kind; engine may register
REBUILD = {}


def _relevant(n, amap, known):
    if known and n.tests_ is not _EMPTY:
        ts = tests(n)
        for q in known:
            if q in ts:
                return True
        for q in ts:
            if q.kind == 'ba' and q.args and q.args[0] == 'streq':
                return True
    if amap:
        lv = n.leaves
        for a in amap:
            if a.kind in ('elt', 'loop', 'cur', 'sym', 'bv'):
                if a in lv:
                    return True
            else:
                return True   # compound atom: cannot filter by leaves
    return False


def _rw(n, amap, known, memo):
    r = memo.get(n)
    if r is not None:
        return r
    k = n.kind
    if not n.args or not _relevant(n, amap, known):
        memo[n] = n
        return n
    if k == 'poly':
        out = []
        plain = {}
        for m, c in n.args[0]:
            changed = None
            for a, e in m:
                t = _rw_atom(a, amap, known, memo)
                if t is not None:
                    if changed is None:
                        changed = {}
                    changed[a] = t
            if changed is None:
                plain[m] = plain.get(m, 0) + c
            else:
                rest = tuple((a, e) for a, e in m if a not in changed)
                p = mk('poly', ((rest, c),))
                for a, e in m:
                    if a in changed:
                        p = mul(p, powr(changed[a], e))
                out.append(p)
        r = poly(plain)
        if out:
            r = add(r, *out)
    elif k == 'sg':
        q, s = n.args
        if q in known:
            al = known[q]
            s2 = set(s) & set(al)
            if not s2:
                r = FALSE
            elif s2 == set(al):
                r = TRUE
            else:
                r = n
        if r is None or r is n:
            q2 = _rw(q, amap, known, memo)
            r = sg(q2, s) if q2 is not q else n
            if r.kind == 'sg' and r.args[0] in known and r is not n:
                r = _rw(r, {}, {r.args[0]: known[r.args[0]]}, {})
    elif k == 'ba':
        if n in known:
            r = TRUE if known[n] else FALSE
        else:
            r = None
            if n.args[0] == 'streq':
                for kk, vv in known.items():
                    if vv is True and kk.kind == 'ba' and kk.args[0] == 'streq' and kk.args[1] == n.args[1] and kk.args[2] != n.args[2]:
                        r = FALSE
            if r is None:
                nb = mk('ba', *[_rwarg(a, amap, known, memo) for a in n.args])
                r = nb
                if nb is not n:
                    if nb in known:
                        r = TRUE if known[nb] else FALSE
                    elif 'ba' in REBUILD:
                        r = REBUILD['ba'](nb)
    elif k == 'not':
        r = notc(_rw(n.args[0], amap, known, memo))
    elif k == 'and':
        r = andc(*[_rw(a, amap, known, memo) for a in n.args[0]])
    elif k == 'or':
        r = orc(*[_rw(a, amap, known, memo) for a in n.args[0]])
    elif k in ('T', 'F'):
        r = n
    else:
        t = _rw_atom(n, amap, known, memo)
        r = n if t is None else t
        if t is not None and t.kind == 'poly' and len(t.args[0]) == 1 and n not in amap:
            # a bare structural node (lambda, loop summary, array) stays bare
            (m, c), = t.args[0]
            if c == 1 and len(m) == 1 and m[0][1] == 1 and m[0][0].kind == k:
                r = m[0][0]
    memo[n] = r
    return r


def _rw_atom(a, amap, known, memo):
    """returns poly or None if unchanged"""
    if a in amap:
        return amap[a]
    r = memo.get(('a', a))
    if r is not None:
        return r if r is not a else None
    if not a.args or not _relevant(a, amap, known):
        return None
    k = a.kind
    if k == 'ite':
        c = _rw(a.args[0], amap, known, memo)
        if c is TRUE:
            r = _rw(a.args[1], amap, known, memo)
        elif c is FALSE:
            r = _rw(a.args[2], amap, known, memo)
        else:
            x = _rw(a.args[1], amap, known, memo)
            y = _rw(a.args[2], amap, known, memo)
            if c is a.args[0] and x is a.args[1] and y is a.args[2]:
                r = None
            else:
                r = ite(c, x, y)
    elif k == 'grp':
        p = _rw(a.args[0], amap, known, memo)
        r = p if p is not a.args[0] else None
    elif k in ('num', 'sym', 'elt', 'loop', 'cur', 'bv'):
        if k in ('num', 'elt', 'loop', 'bv'):
            r = None
        else:
            na = tuple(_rwarg(x, amap, known, memo) for x in a.args)
            r = None if na == a.args else A(mk(k, *na))
    else:
        na = tuple(_rwarg(x, amap, known, memo) for x in a.args)
        if na == a.args:
            r = None
        elif k in REBUILD:
            r = REBUILD[k](*na)
        else:
            r = A(mk(k, *na))
    memo[('a', a)] = r if r is not None else a
    return r


def elt(d):
    return A(mk('elt', d))


ELT = [mk('elt', i) for i in range(4)]


def subst(n, m):
    """m: atom -> poly"""
    return rewrite(n, m)


# ------------------------------------------------------------------ binders
def close(vars_, *bodies):
    """turn free variable atoms `vars_` into canonical bound variables; returns (bvs, bodies)"""
    h = 0
    for b in bodies:
        h = max(h, b.h)
    m = {}
    bvs = []
    for i, v in enumerate(vars_):
        b = mk('bv', h + 1 + i)
        m[v] = A(b)
        bvs.append(b)
    return tuple(bvs), tuple(rewrite(b, m) for b in bodies)


def lam(nd, body):
    bvs, (b,) = close([ELT[i] for i in range(nd)], body)
    return mk('lam', bvs, b)


def lam_apply(l, *idx):
    return rewrite(l.args[1], {v: i for v, i in zip(l.args[0], idx)})


def has_leaf(n, pred):
    return any(pred(a) for a in n.leaves)


def split_indep(p, v):
    """poly -> list of (outer mono-poly, inner mono-poly) with inner depending on v"""
    res = []
    for m, c in p.args[0]:
        o = []
        i = []
        for a, e in m:
            (i if v in a.leaves else o).append((a, e))
        res.append((mk('poly', ((tuple(o), c),)), mk('poly', ((tuple(i), Fr(1)),)) if i else ONE))
    return res


def bigsum(n, v, body):
    """sum_{v=0}^{n-1} body, v a 'loop' atom"""
    out = ZERO
    for o, i in split_indep(body, v):
        if v not in i.leaves:
            out = add(out, mul(o, mul(i, n)))
            continue
        # collapse  sum_v [x == v] * f(v)
        col = _collapse(n, v, i)
        if col is not None:
            out = add(out, mul(o, col))
            continue
        (bv,), (b,) = close([v], i)
        out = add(out, mul(o, A(mk('sum', n, bv, b))))
    return out


def _collapse(n, v, i):
    (m, c), = i.args[0]
    for a, e in m:
        if a.kind == 'ite' and e == 1 and a.args[2] is ZERO and v in a.args[0].leaves:
            c0 = a.args[0]
            cs = c0.args[0] if c0.kind == 'and' else (c0,)
            for cc in cs:
                if cc.kind == 'sg' and cc.args[1] == (0,):
                    sol = solve_for(cc.args[0], v)
                    if sol is not None and v not in sol.leaves and is_int(sol):
                        rest = mk('poly', ((tuple(x for x in m if x[0] is not a), Fr(1)),))
                        body = mul(ite(andc(*[x for x in cs if x is not cc]), a.args[1], ZERO), rest)
                        body = rewrite(body, {v: sol})
                        g = andc(sg(sol, {0, 1}), sg(sub(sol, n), {-1}))
                        g = RANGE_SIMPLIFY[0](g)
                        return ite(g, body, ZERO)
    return None


RANGE_SIMPLIFY = [lambda g: g]


def _rebuild_sum(n, bv, b):
    v = mk('loop', 'rb%s' % (bv.args[0],))
    return bigsum(n, v, rewrite(b, {bv: A(v)}))


REBUILD['sum'] = _rebuild_sum


_FBV = {}


def free_bv(n):
    if isinstance(n, tuple):
        out = frozenset()
        for x in n:
            out |= free_bv(x)
        return out
    if not isinstance(n, N):
        return frozenset()
    if n.kind == 'bv':
        return frozenset([n])
    r = _FBV.get(n)
    if r is None:
        bs, out = set(), frozenset()
        for x in n.args:
            if n.kind != 'poly' and isinstance(x, N) and x.kind == 'bv':
                bs.add(x)
            elif n.kind != 'poly' and isinstance(x, tuple) and x and all(isinstance(y, N) and y.kind == 'bv' for y in x):
                bs |= set(x)
            else:
                out |= free_bv(x)
        r = _FBV[n] = out - bs
    return r


def _rebuild_lam(bvs, body):
    """keep the numbering of bound variables canonical when inner binders disappear"""
    if bvs and bvs[0].kind == 'bv' and bvs[0].args[0] > 1 and all(isinstance(b, N) for b in bvs):
        tmp = [mk('loop', ('lam', i)) for i in range(len(bvs))]
        b = rewrite(body, {v: A(t) for v, t in zip(bvs, tmp)})
        if not free_bv(b):
            bvs, (body,) = close(tmp, b)
    return A(mk('lam', bvs, body))


REBUILD['lam'] = _rebuild_lam


def solve_for(q, a):
    """q linear in atom a with constant coefficient and a nowhere else -> poly s with a == s"""
    coef = None
    rest = {}
    for m, c in q.args[0]:
        d = dict(m)
        if a in d:
            if len(m) == 1 and d[a] == 1:
                coef = c
            else:
                return None
        else:
            for b, e in m:
                if a in b.leaves or _occurs(a, b):
                    return None
            rest[m] = c
    if coef is None:
        return None
    return scale(poly(rest), -1 / coef)


def _occurs(a, n, memo=None):
    if memo is None:
        memo = set()
    if n is a:
        return True
    if n in memo:
        return False
    memo.add(n)
    if a.kind in ('elt', 'loop', 'cur', 'sym', 'bv'):
        if a not in n.leaves:
            return False
    st = list(n.args)
    while st:
        x = st.pop()
        if isinstance(x, N):
            if _occurs(a, x, memo):
                return True
        elif isinstance(x, tuple):
            st.extend(x)
    return False


def atoms_of(t):
    out = []
    seen = set()
    for m, c in t.args[0]:
        for a, e in m:
            if a not in seen:
                seen.add(a)
                out.append(a)
    return out


def all_atoms(n, out=None):
    """every atom node in n, deep"""
    if out is None:
        out = set()
    st = [n]
    seen = set()
    while st:
        x = st.pop()
        if isinstance(x, tuple):
            st.extend(x)
        elif isinstance(x, N):
            if x in seen:
                continue
            seen.add(x)
            if x.kind not in ('poly', 'sg', 'and', 'or', 'not', 'T', 'F', 'lam'):
                out.add(x)
            st.extend(x.args)
    return out


# ------------------------------------------------------------------ differentiation
class NoDiff(Exception):
    pass


def diff(t, x):
    """d t / d x, x an atom"""
    out = ZERO
    for m, c in t.args[0]:
        for i, (a, e) in enumerate(m):
            da = _datom(a, x)
            if da is ZERO:
                continue
            rest = tuple(m[:i] + m[i + 1:])
            p = mk('poly', ((rest, c * e),))
            p = mul(p, mul(powr(A(a), e - 1) if a.kind != 'grp' else powr(a.args[0], e - 1), da))
            out = add(out, p)
    return out


def _datom(a, x):
    if a is x:
        return ONE
    if not _occurs(x, a):
        return ZERO
    if a.kind == 'grp':
        return diff(a.args[0], x)
    if a.kind == 'ite':
        return ite(a.args[0], diff(a.args[1], x), diff(a.args[2], x))
    if a.kind == 'fn':
        f = a.args[0]
        u = a.args[1]
        du = diff(u, x)
        if f == 'sin':
            return mul(fn_('cos', u), du)
        if f == 'cos':
            return neg(mul(fn_('sin', u), du))
        if f == 'acos':
            return neg(mul(powr(sub(ONE, mul(u, u)), Fr(-1, 2)), du))
        if f == 'asin':
            return mul(powr(sub(ONE, mul(u, u)), Fr(-1, 2)), du)
        if f == 'atan':
            return mul(powr(add(ONE, mul(u, u)), -1), du)
        if f == 'log':
            return mul(powr(u, -1), du)
        if f == 'exp':
            return mul(A(a), du)
        if f == 'powv' and not _occurs(x, a.args[2]):
            b = a.args[2]
            return mul(mul(b, fn_('powv', u, sub(b, ONE))), du)
    raise NoDiff(a)


def fn_(name, *args):
    """function application with normalisation"""
    if name == 'powv':
        u, b = args
        if is_const(b):
            return powr(u, cval(b))
        k = dict(b.args[0]).get((), Fr(0))
        if k:
            return mul(powr(u, k), fn_('powv', u, sub(b, const(k))))
        return fn('powv', u, b)
    u = args[0]
    if name in ('sin', 'cos', 'acos', 'asin') and u.kind == 'poly':
        at = as_atom(u)
        if at is not None and at.kind == 'fn':
            v = at.args[1]
            if name == 'cos' and at.args[0] == 'acos':
                return v
            if name == 'sin' and at.args[0] == 'asin':
                return v
            if name == 'sin' and at.args[0] == 'acos':
                return powr(sub(ONE, mul(v, v)), Fr(1, 2))
            if name == 'cos' and at.args[0] == 'asin':
                return powr(sub(ONE, mul(v, v)), Fr(1, 2))
        # double angle
        if at is None and len(u.args[0]) == 1:
            m, c = u.args[0][0]
            base = mk('poly', ((m, Fr(1)),))
            ba = as_atom(base)
            if ba is not None and ba.kind == 'fn' and ba.args[0] in ('acos', 'asin') and c.denominator == 1 and c != 1 and abs(c) <= 4:
                if c < 0:
                    r = fn_(name, scale(u, -1))
                    return r if name == 'cos' else neg(r)
                n1 = scale(base, c - 1)
                if name == 'sin':
                    return add(mul(fn_('sin', n1), fn_('cos', base)), mul(fn_('cos', n1), fn_('sin', base)))
                return sub(mul(fn_('cos', n1), fn_('cos', base)), mul(fn_('sin', n1), fn_('sin', base)))
    if is_const(u):
        v = cval(u)
        if v == 0 and name in ('sin', 'tan', 'atan', 'asin'):
            return ZERO
        if v == 0 and name in ('cos', 'exp'):
            return ONE
        if v == 1 and name == 'log':
            return ZERO
    return fn(name, *args)


REBUILD['fn'] = fn_


# ------------------------------------------------------------------ display
def show(n, depth=0):
    if not isinstance(n, N):
        if isinstance(n, tuple):
            return '(' + ','.join(show(x) for x in n) + ')'
        return str(n)
    k = n.kind
    if depth > 14:
        return '...'
    s = lambda x: show(x, depth + 1)
    if k == 'poly':
        if not n.args[0]:
            return '0'
        parts = []
        for m, c in n.args[0]:
            f = []
            for a, e in m:
                f.append(s(a) if e == 1 else '%s^%s' % (s(a), e if e.denominator == 1 and e > 0 else '(%s)' % e))
            if not f:
                parts.append(str(c))
            elif c == 1:
                parts.append('*'.join(f))
            elif c == -1:
                parts.append('-' + '*'.join(f))
            else:
                parts.append(str(c) + '*' + '*'.join(f))
        return ' + '.join(parts).replace('+ -', '- ')
    if k == 'sym':
        return '.'.join(str(a) if not isinstance(a, N) else s(a) for a in n.args)
    if k == 'elt':
        return 'e%d' % n.args[0]
    if k in ('loop', 'cur'):
        return '%s<%s>' % (k, ','.join(show(x) for x in n.args))
    if k == 'bv':
        return 'v%d' % n.args[0]
    if k == 'sel':
        b = n.args[0]
        return '%s[%s]' % (b if isinstance(b, str) else s(b), ', '.join(s(x) for x in n.args[1:]))
    if k == 'grp':
        return '(%s)' % s(n.args[0])
    if k == 'num':
        return str(n.args[0])
    if k == 'fn':
        return '%s(%s)' % (n.args[0], ', '.join(s(x) for x in n.args[1:]))
    if k == 'ite':
        return '{%s ? %s : %s}' % (s(n.args[0]), s(n.args[1]), s(n.args[2]))
    if k == 'sg':
        op = {(-1,): '<0', (0,): '==0', (1,): '>0', (-1, 0): '<=0', (0, 1): '>=0', (-1, 1): '!=0'}[n.args[1]]
        return '%s%s' % (s(n.args[0]), op)
    if k == 'ba':
        return '<%s>' % ' '.join(show(x) for x in n.args)
    if k == 'not':
        return '!%s' % s(n.args[0])
    if k in ('and', 'or'):
        return '(' + (' & ' if k == 'and' else ' | ').join(s(x) for x in n.args[0]) + ')'
    if k == 'sum':
        return 'SUM[%s<%s](%s)' % (s(n.args[1]), s(n.args[0]), s(n.args[2]))
    if k == 'lam':
        return '\\%s.%s' % (','.join(s(x) for x in n.args[0]), s(n.args[1]))
    return '%s(%s)' % (k, ', '.join(show(x) if not isinstance(x, N) else s(x) for x in n.args))
