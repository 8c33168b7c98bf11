"""Consistent renamings of private names.  A private attribute or helper of the reference tree (sa/names.json) that no longer
occurs anywhere in the package, while a new private name occurs where it did, has been renamed: the trees are read with the
old name.  Nothing is renamed while the old name still occurs, so two different variables are never taken for one."""
import ast, json, os

FILE = os.path.join(os.path.dirname(os.path.abspath(__file__)), 'names.json')


def private(n):
    return n.startswith(('_', 'numba_')) and not n.startswith('__')


def profile(trees):
    """{'attr'|'func': {name: {function: occurrences}}}, every name that occurs"""
    attrs, funcs, used, defined = {}, {}, set(), set()

    def walk(node, where):
        for c in ast.iter_child_nodes(node):
            w = where
            if isinstance(c, (ast.FunctionDef, ast.ClassDef)):
                if isinstance(c, ast.FunctionDef) and private(c.name):
                    defined.add(c.name)
                w = where + '.' + c.name
            if isinstance(c, ast.Attribute):
                used.add(c.attr)
                if private(c.attr):
                    d = attrs.setdefault(c.attr, {})
                    d[w] = d.get(w, 0) + 1
            if isinstance(c, ast.Name):
                used.add(c.id)
            n = c.attr if isinstance(c, ast.Attribute) else c.id if isinstance(c, ast.Name) and isinstance(c.ctx, ast.Load) else None
            if n and private(n):
                d = funcs.setdefault(n, {})
                d[w] = d.get(w, 0) + 1
            walk(c, w)
    for m, t in trees.items():
        walk(t, m.split('.')[-1])
    used |= defined
    return {'attr': {a: d for a, d in attrs.items() if a not in defined}, 'func': {a: funcs.get(a, {}) for a in defined}, 'used': sorted(used)}


def like(a, b):
    """share of the occurrences that are in the same functions (a renamed function counts under either name)"""
    n = max(sum(a.values()), sum(b.values()))
    return sum(min(v, b.get(k, 0)) for k, v in a.items()) / n if n else 0


def renamed(trees):
    if not os.path.exists(FILE):
        return {}
    old, now = json.load(open(FILE)), profile(trees)
    before, after = set(old['used']), set(now['used'])
    out = {}
    for kind in ('attr', 'func'):
        gone = [n for n in old[kind] if n not in after]
        new = [n for n in now[kind] if n not in before]
        for n in gone:
            rank = sorted(((like(old[kind][n], now[kind][m]), m) for m in new), reverse=True)
            if not rank or rank[0][0] < 0.6 or len(rank) > 1 and rank[1][0] == rank[0][0]:
                continue
            m = rank[0][1]
            if max((like(old[kind][g], now[kind][m]), g) for g in gone)[1] == n and m not in out:
                out[m] = n
    return out


class Apply(ast.NodeTransformer):
    def __init__(self, names):
        self.n = names

    def visit_Attribute(self, x):
        self.generic_visit(x)
        x.attr = self.n.get(x.attr, x.attr)
        return x

    def visit_Name(self, x):
        x.id = self.n.get(x.id, x.id)
        return x

    def visit_FunctionDef(self, x):
        x.name = self.n.get(x.name, x.name)
        self.generic_visit(x)
        return x

    def visit_alias(self, x):
        x.name = self.n.get(x.name, x.name)
        return x

    def visit_arg(self, x):
        x.arg = self.n.get(x.arg, x.arg)
        return x

    def visit_keyword(self, x):
        self.generic_visit(x)
        x.arg = self.n.get(x.arg, x.arg)
        return x

    def visit_Constant(self, x):
        if isinstance(x.value, str):
            x.value = self.n.get(x.value, x.value)
        return x


def apply(trees):
    n = renamed(trees)
    if n:
        for t in trees.values():
            Apply(n).visit(t)
    return n
