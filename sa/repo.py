"""Syntax-level model of the package: modules, imports, classes, constants (no import, no execution)."""
import ast, os
from fractions import Fraction as Fr
from . import terms as T
from . import rename
from .terms import *
from .interp import Func, ModV, ClsV, Ext

PKG = 'pipedream_solver'
STD = ('numpy', 'scipy', 'pandas', 'numba', 'math', 'copy', 'time', 'sys', 'itertools', 'collections', 'matplotlib', 'mpl_toolkits', 'warnings', 'functools', 'operator', 'logging', 'datetime')


class Vanished(Exception):
    """an anchor the analysis is defined on no longer exists"""


class Repo:
    def __init__(self, root='/repo', pkg=PKG, extra=None):
        self.root = root
        self.pkg = pkg
        self.mods = {}
        self.src = {}
        self.names = {}      # mod -> name -> ('func',node) | ('class',node) | ('mod',path) | ('from',path,name) | ('expr',node)
        self.cls = {}        # class name -> (node, mod, [base names], {method name: node})
        self.owner = {}      # id(FunctionDef) -> class name
        d = os.path.join(root, pkg)
        trees = {}
        for f in sorted(os.listdir(d)):
            if f.endswith('.py'):
                trees[pkg + '.' + f[:-3] if f != '__init__.py' else pkg] = ast.parse(open(os.path.join(d, f)).read())
        self.renamed = rename.apply(trees)
        for m, t in trees.items():
            self.add(m, t, os.path.join(pkg, '__init__.py' if m == pkg else m.split('.')[-1] + '.py'))

    def add(self, m, src, fname):
        tree = ast.parse(src) if isinstance(src, str) else src
        self.mods[m] = tree
        self.src[m] = fname
        names = self.names[m] = {}
        self._scan(m, tree.body, names)

    def _scan(self, m, body, names):
        for s in body:
            if isinstance(s, ast.FunctionDef):
                names[s.name] = ('func', s)
            elif isinstance(s, ast.ClassDef):
                names[s.name] = ('class', s)
                meth = {}
                self._scan_class(s, meth)
                bases = [b.id if isinstance(b, ast.Name) else b.attr for b in s.bases if isinstance(b, (ast.Name, ast.Attribute))]
                self.cls[s.name] = (s, m, bases, meth)
                for f in meth.values():
                    self.owner[id(f)] = s.name
            elif isinstance(s, ast.Import):
                for a in s.names:
                    if a.asname:
                        names[a.asname] = ('mod', a.name)
                    else:
                        names[a.name.split('.')[0]] = ('mod', a.name.split('.')[0])
            elif isinstance(s, ast.ImportFrom):
                for a in s.names:
                    src = s.module or ''
                    if s.level:
                        src = PKG + ('.' + src if src else '')
                    names.setdefault(a.asname or a.name, ('from', src, a.name))
            elif isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Name):
                names[s.targets[0].id] = ('expr', s.value)
            elif isinstance(s, (ast.Try, ast.If)):
                self._scan(m, s.body, names)
                for h in getattr(s, 'handlers', []):
                    self._scan(m, [x for x in h.body], {})
                alt = {}
                self._scan(m, s.orelse, alt)
                for k, v in alt.items():
                    names.setdefault(k, v)

    def _scan_class(self, c, meth):
        for f in c.body:
            if isinstance(f, ast.FunctionDef):
                nm = f.name
                for d in f.decorator_list:
                    if isinstance(d, ast.Attribute) and d.attr == 'setter':
                        nm = f.name + '.setter'
                meth[nm] = f
            elif isinstance(f, ast.If):
                self._scan_class(f, meth)
            elif isinstance(f, ast.Assign) and len(f.targets) == 1 and isinstance(f.targets[0], ast.Name) and isinstance(f.value, ast.Name) and f.value.id in meth:
                meth[f.targets[0].id] = meth[f.value.id]

    def mro(self, cls):
        out = []
        st = [cls]
        while st:
            c = st.pop(0)
            if c in out or c not in self.cls:
                continue
            out.append(c)
            st.extend(self.cls[c][2])
        return out

    def find_method(self, cls, name, after=None):
        ms = self.mro(cls)
        if after is not None and after in ms:
            ms = ms[ms.index(after) + 1:]
        for c in ms:
            f = self.cls[c][3].get(name)
            if f is not None:
                return f, self.cls[c][1]
        return None

    def method(self, cls, name):
        f = self.find_method(cls, name)
        if f is None:
            raise Vanished('%s.%s' % (cls, name))
        return f

    def cls_bases_unknown(self, cls):
        return any(b not in self.cls and b != 'object' for c in self.mro(cls) for b in self.cls[c][2])

    def mentioned(self, name):
        """names of attributes that functions of this name, or functions they call, read or write"""
        if not hasattr(self, '_ment'):
            self._ment, self._byname = {}, {}
            for m, t in self.mods.items():
                if m.startswith('spec.'):
                    continue
                for f in ast.walk(t):
                    if isinstance(f, ast.FunctionDef):
                        self._byname.setdefault(f.name, []).append(f)
        if name not in self._ment:
            out, seen, todo = set(), set(), [name]
            while todo:
                x = todo.pop()
                if x in seen:
                    continue
                seen.add(x)
                for f in self._byname.get(x, ()):
                    for n in ast.walk(f):
                        if isinstance(n, ast.Attribute):
                            out.add(n.attr)
                            if n.attr in self._byname and len(self._byname[n.attr]) < 8:
                                todo.append(n.attr)
                        elif isinstance(n, ast.Name) and n.id in self._byname:
                            todo.append(n.id)
            self._ment[name] = out
        return self._ment[name]

    def is_property(self, f):
        return any(isinstance(d, ast.Name) and d.id == 'property' for d in f.decorator_list)

    def is_static(self, f):
        return any(isinstance(d, ast.Name) and d.id == 'staticmethod' for d in f.decorator_list)

    def is_classm(self, f):
        return any(isinstance(d, ast.Name) and d.id == 'classmethod' for d in f.decorator_list)

    def cls_of(self, f):
        return self.owner.get(id(f))

    def file_of(self, mod):
        return self.src.get(mod, mod)

    def lookup(self, mod, name):
        e = self.names.get(mod, {}).get(name)
        return None if e is None else self._val(mod, name, e)

    def _val(self, mod, name, e):
        k = e[0]
        if k == 'func':
            return Func(e[1], mod)
        if k == 'class':
            return ClsV(name, mod)
        if k == 'mod':
            return ModV(e[1])
        if k == 'from':
            if e[1] in self.mods:
                return self.lookup(e[1], e[2])
            if e[1] + '.' + e[2] in self.mods:
                return ModV(e[1] + '.' + e[2])
            return ModV(e[1] + '.' + e[2])
        if k == 'expr':
            return self._const(mod, name, e[1])
        return None

    def _const(self, mod, name, x):
        if isinstance(x, ast.Constant):
            v = x.value
            if isinstance(v, (bool, str)) or v is None:
                return v
            if isinstance(v, int):
                return const(v)
            if isinstance(v, float):
                return const(Fr(repr(v)))
        if isinstance(x, ast.UnaryOp) and isinstance(x.op, ast.USub):
            v = self._const(mod, name, x.operand)
            return neg(v) if isinstance(v, N) else None
        if isinstance(x, ast.BinOp):
            a, b = self._const(mod, name, x.left), self._const(mod, name, x.right)
            if isinstance(a, N) and isinstance(b, N) and a.kind == 'poly' and b.kind == 'poly':
                if isinstance(x.op, ast.Add):
                    return add(a, b)
                if isinstance(x.op, ast.Sub):
                    return sub(a, b)
                if isinstance(x.op, ast.Mult):
                    return mul(a, b)
                if isinstance(x.op, ast.Div):
                    return div(a, b)
                if isinstance(x.op, ast.Pow) and is_const(b):
                    return powr(a, cval(b))
            return None
        if isinstance(x, ast.Name):
            return self.lookup(mod, x.id)
        if isinstance(x, ast.Dict) and all(isinstance(k, ast.Constant) for k in x.keys):
            return ('constdict', mod, name)
        src = ast.unparse(x)
        if 'finfo' in src and src.endswith('.eps'):
            return sym('eps')
        return Ext(mk('ext', 'global', name))

    def const_dict(self, mod, name):
        e = self.names[mod][name][1]
        out = {}
        for k, v in zip(e.keys, e.values):
            out[k.value] = self._const(mod, name, v)
        return out

    def mod_attr(self, path, name):
        if path in self.mods:
            v = self.lookup(path, name)
            if v is not None:
                return v
        if path + '.' + name in self.mods:
            return ModV(path + '.' + name)
        return None
