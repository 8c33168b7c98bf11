"""Matrix algebra on the syntax tree: a straight-line routine becomes noncommutative polynomials in its arguments.

A value is {word: coefficient}; a word is a tuple of letters (name, transposed, inverted).  Symmetric letters absorb
transposition, a letter next to its own inverse vanishes, Cholesky and QR factors are letters known through their product,
and the inverse of a sum introduces a letter for the sum by which one of its terms is eliminated, so that the sum cancels
against its inverse wherever it is built up again."""
import ast
from fractions import Fraction as Fr


class Unknown(Exception):
    pass


class Stack:
    """blocks above each other (vertical) or side by side"""
    def __init__(self, blocks, vertical):
        self.blocks, self.vertical = blocks, vertical


class Algebra:
    def __init__(self, symmetric=(), vectors=()):
        self.sym = set(symmetric)
        self.vec = set(vectors)
        self.sub = {}        # eliminated letter -> value
        self.gram = {}       # name -> value of L^T L
        self.cogram = {}     # name -> value of L L^T
        self.defn = {}       # letter of a sum -> the sum, in terms of the letters before the elimination
        self.n = 0

    # ---------------------------------------------------------------- building
    def atom(self, name):
        return self.norm({((name, False, False),): Fr(1)})

    def scalar(self, c):
        return {(): Fr(c)} if c else {}

    def add(self, a, b, k=1):
        r = dict(a)
        for w, c in b.items():
            r[w] = r.get(w, 0) + k * c
            if r[w] == 0:
                del r[w]
        if len(r) > 400:
            raise Unknown('expression too large')
        return r

    def mul(self, a, b):
        r = {}
        for w, c in a.items():
            for v, d in b.items():
                x = w + v
                r[x] = r.get(x, 0) + c * d
        return self.norm({w: c for w, c in r.items() if c})

    def T(self, a):
        if isinstance(a, Stack):
            return Stack([self.T(x) for x in a.blocks], not a.vertical)
        return self.norm({tuple((n, (not t) if n not in self.sym else False, i) for n, t, i in reversed(w)): c for w, c in a.items()})

    def norm(self, a):
        """apply eliminations, cancellations and products of factors until nothing changes"""
        out, todo, steps = {}, list(a.items()), 0
        while todo:
            steps += 1
            if steps > 20000:
                raise Unknown('expression too large')
            w, c = todo.pop()
            r = self.step(w)
            if r is None:
                out[w] = out.get(w, 0) + c
                if out[w] == 0:
                    del out[w]
            else:
                todo += [(v, c * d) for v, d in r.items()]
        return out

    def step(self, w):
        for i, (n, t, inv) in enumerate(w):
            if n in self.sym and t:
                return {w[:i] + ((n, False, inv),) + w[i + 1:]: 1}
            if n in self.sub and not inv:
                s = self.sub[n] if not t else self.T(self.sub[n])
                return {w[:i] + v + w[i + 1:]: d for v, d in s.items()}
        for i in range(len(w) - 1):
            (a, ta, ia), (b, tb, ib) = w[i], w[i + 1]
            if a != b:
                continue
            if ta == tb and ia != ib:
                return {w[:i] + w[i + 2:]: 1}
            if ta != tb and ia == ib:
                # (L^T L), (L^-1 L^-T) for a factor known by L^T L; the other order for one known by L L^T
                for tab, first in ((self.gram, not ia), (self.cogram, bool(ia))):
                    if a in tab and ta == first:
                        v = tab[a] if not ia else self.inv(tab[a])
                        return {w[:i] + x + w[i + 2:]: d for x, d in v.items()}
        return None

    def inv(self, a):
        if isinstance(a, Stack):
            raise Unknown('inverse of blocks')
        a = self.norm(a)
        if len(a) == 1:
            (w, c), = a.items()
            return self.norm({tuple((n, t, not i) for n, t, i in reversed(w)): 1 / c})
        single = sorted(w[0][0] for w, c in a.items() if len(w) == 1 and not w[0][1] and not w[0][2] and w[0][0] not in self.gram and w[0][0] not in self.cogram)
        for s in single:
            w0 = ((s, False, False),)
            rest = {w: c for w, c in a.items() if w != w0}
            if any(l[0] == s for w in rest for l in w):
                continue
            symm = s in self.sym and self.T(rest) == rest
            if s in self.sym and not symm:
                continue
            self.n += 1
            name = 'sum%d' % self.n
            if symm:
                self.sym.add(name)
            c = a[w0]
            self.defn[name] = dict(a)
            self.sub[s] = self.add({((name, False, False),): 1 / c}, rest, -1 / c)
            return {((name, False, True),): Fr(1)}
        # no term to eliminate: the sum only cancels where it appears as it stands
        for name, v in self.defn.items():
            if v == a and name.startswith('whole'):
                return {((name, False, True),): Fr(1)}
        self.n += 1
        name = 'whole%d' % self.n
        if self.T(a) == a:
            self.sym.add(name)
        self.defn[name] = dict(a)
        return {((name, False, True),): Fr(1)}

    def product(self, a, b):
        if isinstance(a, Stack) or isinstance(b, Stack):
            if isinstance(a, Stack) and isinstance(b, Stack) and not a.vertical and b.vertical and len(a.blocks) == len(b.blocks):
                r = {}
                for x, y in zip(a.blocks, b.blocks):
                    r = self.add(r, self.product(x, y))
                return r
            if isinstance(a, Stack) and a.vertical and not isinstance(b, Stack):
                return Stack([self.product(x, b) for x in a.blocks], True)
            if isinstance(b, Stack) and not b.vertical and not isinstance(a, Stack):
                return Stack([self.product(a, x) for x in b.blocks], False)
            raise Unknown('product of blocks')
        return self.mul(a, b)

    def chol(self, a):
        self.n += 1
        name = 'chol%d' % self.n
        self.cogram[name] = a
        return {((name, False, False),): Fr(1)}

    def qr_r(self, a):
        self.n += 1
        name = 'qr%d' % self.n
        self.gram[name] = self.product(self.T(a), a)
        return {((name, False, False),): Fr(1)}

    # ---------------------------------------------------------------- refutation by one concrete instance of the letters
    def value(self, a, env):
        tot = None
        for w, c in a.items():
            m = None
            for l in w:
                x = self.letter(l, env)
                m = x if m is None else mmul(m, x)
            if m is None:
                m = eye(3)
            m = [[float(c) * y for y in r] for r in m]
            tot = m if tot is None else [[p + q for p, q in zip(r, s)] for r, s in zip(tot, m)]
        return tot

    def letter(self, l, env):
        n, t, i = l
        if l in env:
            return env[l]
        if (n, False, False) not in env:
            if n in self.defn:
                v = self.value(self.defn[n], env)
            elif n in self.gram:
                v = mT(mchol(self.value(self.gram[n], env)))
            elif n in self.cogram:
                v = mchol(self.value(self.cogram[n], env))
            else:
                raise Unknown('no value for ' + n)
            env[(n, False, False)] = v
        v = env[(n, False, False)]
        if i:
            v = minv(v)
        if t:
            v = mT(v)
        env[l] = v
        return v


def eye(n):
    return [[1.0 if i == j else 0.0 for j in range(n)] for i in range(n)]


def mT(a):
    return [list(r) for r in zip(*a)]


def mmul(a, b):
    if len(a[0]) != len(b):
        raise Unknown('shapes')
    return [[sum(x * y for x, y in zip(r, c)) for c in zip(*b)] for r in a]


def minv(a):
    n = len(a)
    m = [list(r) + e for r, e in zip(a, eye(n))]
    for i in range(n):
        p = max(range(i, n), key=lambda k: abs(m[k][i]))
        m[i], m[p] = m[p], m[i]
        if abs(m[i][i]) < 1e-12:
            raise Unknown('singular instance')
        m[i] = [x / m[i][i] for x in m[i]]
        for k in range(n):
            if k != i:
                m[k] = [x - m[k][i] * y for x, y in zip(m[k], m[i])]
    return [r[n:] for r in m]


def mchol(a):
    n = len(a)
    L = [[0.0] * n for _ in range(n)]
    for i in range(n):
        for j in range(i + 1):
            s = a[i][j] - sum(L[i][k] * L[j][k] for k in range(j))
            if i == j:
                if s <= 0:
                    raise Unknown('not positive definite')
                L[i][i] = s ** 0.5
            else:
                L[i][j] = s / L[j][j]
    return L


class Reader:
    """evaluates the body of one routine over the algebra"""

    def __init__(self, repo, mod, alg):
        self.repo, self.mod, self.alg, self.depth = repo, mod, alg, 0

    def call(self, fn, args, mod=None):
        self.depth += 1
        if self.depth > 12:
            raise Unknown('recursion')
        names = [a.arg for a in fn.args.args]
        if len(names) != len(args) or fn.args.vararg or fn.args.kwarg:
            raise Unknown('signature of %s' % fn.name)
        old, self.mod = self.mod, mod or self.mod
        env = dict(zip(names, args))
        r = self.body(fn.body, env)
        self.mod = old
        self.depth -= 1
        if r is None:
            raise Unknown('no result')
        return r[0]

    def body(self, stmts, env):
        for s in stmts:
            if isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant) or isinstance(s, (ast.Pass, ast.Import, ast.ImportFrom, ast.Assert)):
                continue
            if isinstance(s, ast.Return):
                return (self.ev(s.value, env),)
            if isinstance(s, ast.Assign):
                v = self.ev(s.value, env)
                for t in s.targets:
                    self.assign(t, v, env)
            elif isinstance(s, ast.AnnAssign) and s.value is not None:
                self.assign(s.target, self.ev(s.value, env), env)
            elif isinstance(s, ast.AugAssign) and isinstance(s.target, ast.Name):
                # an array argument changed in place would be seen by the caller
                env[s.target.id] = self.binop(s.op, self.ev(s.target, dict(env)) if False else env[s.target.id], self.ev(s.value, env))
            elif isinstance(s, ast.Expr) and isinstance(s.value, ast.Call) and isinstance(s.value.func, ast.Name) and s.value.func.id == 'print':
                continue
            else:
                raise Unknown('statement %s at line %d' % (type(s).__name__, s.lineno))
        return None

    def assign(self, t, v, env):
        if isinstance(t, ast.Name):
            env[t.id] = v
        elif isinstance(t, (ast.Tuple, ast.List)) and isinstance(v, tuple) and len(v) == len(t.elts):
            for x, y in zip(t.elts, v):
                self.assign(x, y, env)
        else:
            raise Unknown('assignment at line %d' % t.lineno)

    def binop(self, op, a, b):
        g = self.alg
        if isinstance(op, ast.MatMult):
            return g.product(a, b)
        if isinstance(a, Stack) or isinstance(b, Stack) or isinstance(a, tuple) or isinstance(b, tuple):
            raise Unknown('arithmetic of blocks')
        if isinstance(op, ast.Add):
            return self.lin(a, b, 1)
        if isinstance(op, ast.Sub):
            return self.lin(a, b, -1)
        if isinstance(op, (ast.Mult, ast.Div)):
            if isinstance(b, Fr) and isinstance(a, Fr):
                return a * b if isinstance(op, ast.Mult) else a / b
            if isinstance(b, Fr):
                k = b if isinstance(op, ast.Mult) else 1 / b
                return {w: c * k for w, c in a.items()}
            if isinstance(a, Fr) and isinstance(op, ast.Mult):
                return {w: c * a for w, c in b.items()}
        raise Unknown('operator %s' % type(op).__name__)

    def lin(self, a, b, k):
        if isinstance(a, Fr) and isinstance(b, Fr):
            return a + k * b
        if isinstance(a, Fr) or isinstance(b, Fr):
            if a == 0:
                return {w: k * c for w, c in b.items()}
            if b == 0:
                return a
            raise Unknown('number added to a matrix')
        return self.alg.norm(self.alg.add(a, b, k))

    def ev(self, e, env):
        g = self.alg
        if isinstance(e, ast.Name):
            if e.id in env:
                return env[e.id]
            raise Unknown('name ' + e.id)
        if isinstance(e, ast.Constant) and isinstance(e.value, (int, float)) and not isinstance(e.value, bool):
            return Fr(repr(e.value)) if isinstance(e.value, float) else Fr(e.value)
        if isinstance(e, ast.Tuple):
            return tuple(self.ev(x, env) for x in e.elts)
        if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.USub):
            v = self.ev(e.operand, env)
            return -v if isinstance(v, Fr) else {w: -c for w, c in v.items()}
        if isinstance(e, ast.BinOp):
            return self.binop(e.op, self.ev(e.left, env), self.ev(e.right, env))
        if isinstance(e, ast.Attribute) and e.attr == 'T':
            return g.T(self.ev(e.value, env))
        if isinstance(e, ast.Attribute) and e.attr in ('shape', 'size'):
            self.ev(e.value, env)
            return ('shape',)
        if isinstance(e, ast.Subscript):
            v = self.ev(e.value, env)
            if isinstance(v, tuple) and v[:1] == ('shape',):
                return ('shape',)
            if isinstance(v, tuple) and isinstance(e.slice, ast.Constant):
                return v[e.slice.value]
            raise Unknown('indexing at line %d' % e.lineno)
        if isinstance(e, ast.Call):
            return self.callx(e, env)
        raise Unknown('expression %s at line %d' % (type(e).__name__, getattr(e, 'lineno', 0)))

    def path(self, f):
        if isinstance(f, ast.Name):
            return (f.id,)
        if isinstance(f, ast.Attribute):
            p = self.path(f.value)
            return p + (f.attr,) if p else None
        return None

    def blocks(self, e, env):
        """nested list of one block per row / per column"""
        if isinstance(e, (ast.List, ast.Tuple)):
            xs = e.elts
            if all(isinstance(x, (ast.List, ast.Tuple)) for x in xs):
                if all(len(x.elts) == 1 for x in xs):
                    return Stack([self.ev(x.elts[0], env) for x in xs], True)
                if len(xs) == 1:
                    return Stack([self.ev(x, env) for x in xs[0].elts], False)
                raise Unknown('blocks')
            return Stack([self.ev(x, env) for x in xs], False)
        raise Unknown('blocks')

    def callx(self, e, env):
        g = self.alg
        p = self.path(e.func)
        kw = {k.arg: k.value for k in e.keywords}
        last = p[-1] if p else None
        if p and (p[0] in env or len(p) == 1 and p[0] in env):
            p = None
        if p is None and isinstance(e.func, ast.Attribute):
            o = self.ev(e.func.value, env)
            m = e.func.attr
            if m == 'dot':
                return g.product(o, self.ev(e.args[0], env))
            if m in ('copy', 'astype') or m == 'transpose' and e.args:
                if m == 'transpose':
                    raise Unknown('transpose with axes')
                return o
            if m == 'transpose':
                return g.T(o)
            raise Unknown('method ' + m)
        if p is None:
            raise Unknown('call at line %d' % e.lineno)
        if len(p) == 1:
            d = self.repo.lookup(self.mod, p[0])
            if d is not None and hasattr(d, 'node') and isinstance(getattr(d, 'node'), ast.FunctionDef):
                fn = d.node
                args = [self.ev(a, env) for a in e.args]
                names = [a.arg for a in fn.args.args]
                rest = names[len(args):]
                dflt = dict(zip(names[len(names) - len(fn.args.defaults):], fn.args.defaults))
                for n in rest:
                    if n in kw:
                        args.append(self.ev(kw[n], env))
                    elif n in dflt:
                        args.append(self.ev(dflt[n], {}))
                    else:
                        raise Unknown('argument ' + n)
                return self.call(fn, args, d.mod)
        if len(p) == 1 and last in ('len',):
            return ('shape',)
        dp = self.dotted(p)
        if dp in ('numpy.eye', 'numpy.identity'):
            return g.scalar(1)
        if dp in ('numpy.dot', 'numpy.matmul'):
            return g.product(self.ev(e.args[0], env), self.ev(e.args[1], env))
        if dp == 'numpy.linalg.multi_dot':
            xs = [self.ev(x, env) for x in e.args[0].elts]
            r = xs[0]
            for x in xs[1:]:
                r = g.product(r, x)
            return r
        if dp == 'numpy.transpose' and len(e.args) == 1:
            return g.T(self.ev(e.args[0], env))
        if dp in ('numpy.linalg.inv', 'scipy.linalg.inv', 'numpy.linalg.pinv', 'scipy.linalg.pinv'):
            return g.inv(self.ev(e.args[0], env))
        if dp in ('numpy.linalg.solve', 'scipy.linalg.solve'):
            return g.product(g.inv(self.ev(e.args[0], env)), self.ev(e.args[1], env))
        if dp == 'scipy.linalg.cho_factor':
            return ('factored', self.ev(e.args[0], env))
        if dp == 'scipy.linalg.cho_solve':
            f = self.ev(e.args[0], env)
            if isinstance(f, tuple) and f[:1] == ('factored',):
                return g.product(g.inv(f[1]), self.ev(e.args[1], env))
        if dp in ('numpy.copy', 'numpy.array', 'numpy.asarray', 'numpy.ascontiguousarray', 'numpy.atleast_2d'):
            return self.ev(e.args[0], env)
        if dp in ('numpy.linalg.cholesky', 'scipy.linalg.cholesky'):
            lower = dp.startswith('numpy') or isinstance(kw.get('lower'), ast.Constant) and kw['lower'].value is True
            c = g.chol(self.ev(e.args[0], env))
            return c if lower else g.T(c)
        if dp in ('numpy.linalg.qr', 'scipy.linalg.qr'):
            m = kw.get('mode', e.args[1] if len(e.args) > 1 else None)
            if isinstance(m, ast.Constant) and m.value == 'r':
                return g.qr_r(self.ev(e.args[0], env))
            raise Unknown('orthogonal factor')
        if dp in ('numpy.vstack', 'numpy.row_stack') or dp == 'numpy.concatenate' and ('axis' not in kw or ast.dump(kw['axis']) == ast.dump(ast.Constant(0))):
            return Stack([self.ev(x, env) for x in e.args[0].elts], True)
        if dp == 'numpy.hstack':
            return Stack([self.ev(x, env) for x in e.args[0].elts], False)
        if dp == 'numpy.block':
            return self.blocks(e.args[0], env)
        raise Unknown('call of %s' % dp)

    def dotted(self, p):
        d = self.repo.lookup(self.mod, p[0])
        head = getattr(d, 'path', None) if d is not None else None
        return '.'.join(((head,) if head else p[:1]) + p[1:])


def equal(alg, a, b, seed=1):
    """'same' | 'different' | reason why it is not known"""
    if isinstance(a, (Stack, tuple)) or isinstance(b, (Stack, tuple)):
        return 'not a single matrix'
    a, b = alg.norm(a), alg.norm(b)
    d = alg.add(a, b, -1)
    if not d:
        return 'same'
    import random
    for s in range(seed, seed + 3):
        r = random.Random(s)
        env = {}
        names = {l[0] for x in (a, b) for w in x for l in w} | {l[0] for x in alg.defn.values() for w in x for l in w} | {l[0] for t in (alg.gram, alg.cogram) for x in t.values() for w in x for l in w} | set(alg.sub)
        for n in sorted(names):
            if n in alg.defn or n in alg.gram or n in alg.cogram:
                continue
            m = [[r.uniform(-1, 1) for _ in range(1 if n in alg.vec else 3)] for _ in range(3)]
            if n in alg.sym:
                m = [[x + (1.0 if i == j else 0) for j, x in enumerate(q)] for i, q in enumerate(mmul(m, mT(m)))]
            env[(n, False, False)] = m
        try:
            va, vb = alg.value(a, env), alg.value(b, env)
        except Unknown as e:
            return str(e)
        if va is None or vb is None:
            return 'different'
        if len(va[0]) != len(vb[0]) or max(abs(x - y) for p, q in zip(va, vb) for x, y in zip(p, q)) > 1e-6 * (1 + max(abs(x) for p in va for x in p)):
            return 'different'
    return 'equal on an instance but not by the rules of the algebra'


def show(a):
    if isinstance(a, (Stack, tuple)):
        return '(several matrices)'
    f = lambda l: l[0] + ("'" if l[1] else '') + ('^-1' if l[2] else '')
    return ' + '.join('%s%s' % ('' if c == 1 else '%s*' % c, ' '.join(map(f, w)) or 'I') for w, c in sorted(a.items(), key=str)) or '0'
