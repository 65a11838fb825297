"""Queries over the syntax trees of the package: values of expressions, call sites, names of functions."""
import ast
import os

from .scen import SRC


def files(src=SRC, parts=None):
    """Paths of the analysed source files, without tests."""
    out = []
    for base, dirs, names in os.walk(src):
        dirs[:] = sorted(d for d in dirs if d not in ('__pycache__', 'test', 'tests'))
        rel = os.path.relpath(base, src)
        if rel == '.' and parts:
            dirs[:] = [d for d in dirs if d in parts]
        for n in sorted(names):
            if n.endswith('.py') and not (rel == '.' and (parts or n.startswith('test_') or n == 'run_tests.py')):
                out.append(os.path.join(base, n))
    return out


class Fn:
    """A function and where it is."""

    def __init__(self, node, cls, outer, mod):
        self.node, self.cls, self.outer, self.mod = node, cls, outer, mod
        self.name = getattr(node, 'name', '<lambda>')
        a = node.args
        self.pos = [x.arg for x in a.posonlyargs + a.args]
        self.params = set(self.pos) | {x.arg for x in a.kwonlyargs}
        self.defaults = dict(zip(self.pos[len(self.pos) - len(a.defaults):], a.defaults))
        self.defaults.update({x.arg: d for x, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None})
        self.star = {x.arg for x in (a.vararg, a.kwarg) if x is not None}


class Mod:
    def __init__(self, path, src):
        self.path = path
        self.name = os.path.relpath(path, src)[:-3].replace(os.sep, '.')
        with open(path, encoding='utf-8') as f:
            self.tree = ast.parse(f.read())
        self.alias = {}         # local name -> dotted name
        self.globals = {}       # name -> [expr]
        self.calls = []         # (call node, function or None, class or None)
        self.fns = []
        self.locals = {}        # Fn -> name -> [expr or None]
        self.attrs = []         # (attribute name, expr, in class body)
        self.returns = []
        self.nodes = []
        self._walk(self.tree, None, None)

    def where(self, node, fn=None):
        return f'src/{self.name.replace(".", "/")}.py:{getattr(node, "lineno", 0)}' + (f' ({fn.name})' if fn else '')

    def _store(self, t, value, fn, cls):
        if isinstance(t, ast.Name):
            if fn is not None:
                self.locals.setdefault(fn, {}).setdefault(t.id, []).append(value)
            elif cls is not None:
                self.attrs.append((t.id, value, True))
            else:
                self.globals.setdefault(t.id, []).append(value)
        elif isinstance(t, ast.Attribute):
            self.attrs.append((t.attr, value, False))
        elif isinstance(t, (ast.Tuple, ast.List)):
            for i, x in enumerate(t.elts):
                v = None
                if isinstance(value, (ast.Tuple, ast.List)) and len(value.elts) == len(t.elts):
                    v = value.elts[i]
                self._store(x, v, fn, cls)
        elif isinstance(t, ast.Starred):
            self._store(t.value, None, fn, cls)

    def _walk(self, node, fn, cls):
        for n in ast.iter_child_nodes(node):
            self.nodes.append((n, fn, cls))
            if isinstance(n, ast.Import):
                for a in n.names:
                    self.alias[a.asname or a.name.split('.')[0]] = a.name if a.asname else a.name.split('.')[0]
            elif isinstance(n, ast.ImportFrom):
                for a in n.names:
                    if a.name != '*':
                        self.alias[a.asname or a.name] = f'{n.module or ""}.{a.name}'
            elif isinstance(n, ast.Assign):
                for t in n.targets:
                    self._store(t, n.value, fn, cls)
            elif isinstance(n, (ast.AnnAssign, ast.NamedExpr)):
                if n.value is not None:
                    self._store(n.target, n.value, fn, cls)
            elif isinstance(n, ast.AugAssign):
                self._store(n.target, None, fn, cls)
            elif isinstance(n, (ast.For, ast.comprehension)):
                v = n.iter
                if isinstance(v, (ast.Tuple, ast.List, ast.Set)) and v.elts:
                    for x in v.elts:
                        self._store(n.target, x, fn, cls)
                else:
                    self._store(n.target, ast.Subscript(value=v, slice=None), fn, cls)
            elif isinstance(n, ast.With):
                for i in n.items:
                    if i.optional_vars is not None:
                        self._store(i.optional_vars, i.context_expr, fn, cls)
            elif isinstance(n, ast.Call):
                self.calls.append((n, fn, cls))
            elif isinstance(n, ast.Return):
                self.returns.append((n, fn))
            if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda)):
                f = Fn(n, cls if fn is None else None, fn, self)
                self.fns.append(f)
                self._walk(n, f, None)
            elif isinstance(n, ast.ClassDef):
                self._walk(n, fn, n)
            else:
                self._walk(n, fn, cls)


class Pkg:
    def __init__(self, src=SRC, parts=None):
        self.src = src
        self.mods = [Mod(p, src) for p in files(src, parts)]
        self.by_name = {m.name: m for m in self.mods}

    # ------------------------------------------------------------------ names
    def dotted(self, e, mod, fn=None, depth=0):
        """Dotted name an expression stands for (imports and simple aliases resolved), or None."""
        if depth > 8:
            return None
        if isinstance(e, ast.Name):
            for v in self.bindings(e.id, mod, fn):
                if v is None:
                    return None
                d = self.dotted(v, mod, fn, depth + 1) if not (isinstance(v, ast.Name) and v.id == e.id) else None
                return d
            if e.id in mod.alias:
                return self.canonical(mod.alias[e.id])
            return 'builtins.' + e.id
        if isinstance(e, ast.Attribute):
            d = self.dotted(e.value, mod, fn, depth + 1)
            return self.canonical(f'{d}.{e.attr}') if d and not d.startswith('builtins.') else None
        return None

    def canonical(self, d):
        """Follow names that a module of the package imports from elsewhere."""
        for _ in range(5):
            m, _, n = d.rpartition('.')
            x = self.by_name.get(m)
            if x is None or n not in x.alias or x.alias[n] == d:
                return d
            d = x.alias[n]
        return d

    def bindings(self, name, mod, fn):
        f = fn
        while f is not None:
            if name in f.params or name in f.star:
                return [None]
            if name in mod.locals.get(f, {}):
                return mod.locals[f][name]
            f = f.outer
        return mod.globals.get(name, [])

    # ------------------------------------------------------------------ values
    def values(self, e, mod, fn=None, depth=0):
        """Possible constant values of an expression: list of (value, definite), or None if unknown.
        definite: the value does occur whenever the construct it comes from is used."""
        if depth > 10 or e is None:
            return None
        if isinstance(e, ast.Constant):
            return [(e.value, True)]
        if isinstance(e, (ast.IfExp, ast.BoolOp)):
            return self._join([self.values(x, mod, fn, depth + 1) for x in ((e.body, e.orelse) if isinstance(e, ast.IfExp) else e.values)])
        if isinstance(e, ast.Name):
            return self._name(e.id, mod, fn, depth)
        if isinstance(e, ast.Attribute):
            vs = [(v, body) for m in self.mods for a, v, body in m.attrs if a == e.attr]
            own = [self.values(v, m, None, depth + 1) for m in self.mods for a, v, body in m.attrs if a == e.attr]
            m = self.by_name.get(self.dotted(e.value, mod, fn) or '')
            if not vs and m is not None and e.attr in m.globals:
                return self._name(e.attr, m, None, depth)
            if not vs:
                return None
            r = self._join(own)
            if r is not None and not all(b for _, b in vs):
                r = [(v, False) for v, _ in r] if len({v for v, _ in r}) > 1 else r
            return r
        if isinstance(e, ast.BinOp) and isinstance(e.op, ast.Add):
            return self._concat([e.left, e.right], mod, fn, depth)
        if isinstance(e, ast.JoinedStr):
            return self._concat([x.value if isinstance(x, ast.FormattedValue) else x for x in e.values], mod, fn, depth)
        if isinstance(e, ast.Subscript):
            v = e.value
            if isinstance(v, ast.Name):
                b = self.bindings(v.id, mod, fn)
                v = b[0] if len(b) == 1 else None
            if isinstance(v, ast.Dict):
                return self._join([self.values(x, mod, fn, depth + 1) for x in v.values])
            if isinstance(v, (ast.Tuple, ast.List)):
                return self._join([self.values(x, mod, fn, depth + 1) for x in v.elts])
            return None
        if isinstance(e, ast.Call):
            if isinstance(e.func, ast.Attribute) and e.func.attr in ('lower', 'upper', 'strip') and not e.args:
                r = self.values(e.func.value, mod, fn, depth + 1)
                return None if r is None else [(getattr(v, e.func.attr)() if isinstance(v, str) else v, d) for v, d in r]
            d = self.dotted(e.func, mod, fn)
            if d in ('locale.getpreferredencoding', 'locale.getencoding', 'sys.getdefaultencoding', 'sys.getfilesystemencoding'):
                return [(d, True)]
            f = self.function(e.func, mod, fn)
            if f is not None:
                rs = [self.values(r.value, f.mod, f, depth + 1) for r, g in f.mod.returns if g is f]
                return self._join(rs) if rs else None
        return None

    def _join(self, rs):
        out = []
        for r in rs:
            if r is None:
                return None
            out += r
        return out or None

    def _concat(self, parts, mod, fn, depth):
        out = [('', True)]
        for p in parts:
            r = self.values(p, mod, fn, depth + 1)
            if r is None:
                return None
            out = [(a + str(b), x and y) for a, x in out for b, y in r]
        return out

    def _name(self, name, mod, fn, depth):
        f = fn
        while f is not None:
            if name in f.star:
                return None
            loc = mod.locals.get(f, {}).get(name, [])
            if name in f.params:
                r = self.argument(f, name, depth)
                if not loc:
                    return r
                r = self._join([r] + [self.values(v, mod, f, depth + 1) for v in loc])
                return None if r is None else [(v, False) for v, _ in r]
            if loc:
                r = self._join([self.values(v, mod, f, depth + 1) for v in loc])
                several = len(loc) > 1 and not all(isinstance(v, ast.Constant) for v in loc)
                if r is not None and (several or len(loc) > 1 and len({v for v, _ in r}) > 1):
                    r = [(v, False) for v, _ in r]
                return r
            f = f.outer
        if name in mod.globals:
            return self._join([self.values(v, mod, None, depth + 1) for v in mod.globals[name]])
        if name in mod.alias:
            m, _, n = self.canonical(mod.alias[name]).rpartition('.')
            if m in self.by_name and n in self.by_name[m].globals:
                return self._name(n, self.by_name[m], None, depth + 1)
            return None
        found = [m for m in self.mods if name in m.globals]
        return self._name(name, found[0], None, depth + 1) if len(found) == 1 else None

    def argument(self, f, name, depth):
        """Values a parameter gets at the call sites."""
        out = []
        for m in self.mods:
            for c, g, _ in m.calls:
                n = c.func.attr if isinstance(c.func, ast.Attribute) else c.func.id if isinstance(c.func, ast.Name) else None
                if n != f.name and not (f.name == '__init__' and f.cls is not None and n == f.cls.name):
                    continue
                r = self.bound(c, f, name)
                if r == 'unknown':
                    return None
                v = self.values(r, m, g, depth + 1) if r is not None else self.values(f.defaults.get(name), f.mod, None, depth + 1)
                if v is None:
                    return None
                out += v
        if not out and name in f.defaults:
            r = self.values(f.defaults[name], f.mod, None, depth + 1)
            return None if r is None else [(v, False) for v, _ in r]
        return out or None

    def bound(self, c, f, name):
        """The argument expression of a call for a parameter; None if it is omitted."""
        for k in c.keywords:
            if k.arg == name:
                return k.value
        if name in f.pos:
            i = f.pos.index(name) - (1 if f.cls is not None and f.pos and f.pos[0] in ('self', 'cls') else 0)
            if any(isinstance(a, ast.Starred) for a in c.args[:i + 1]):
                return 'unknown'
            if i < len(c.args):
                return c.args[i]
        if any(k.arg is None for k in c.keywords):
            return 'unknown'
        return None

    def function(self, e, mod, fn):
        """The function of the package an expression names, if there is exactly one."""
        n = e.attr if isinstance(e, ast.Attribute) else e.id if isinstance(e, ast.Name) else None
        fs = [f for m in self.mods for f in m.fns if f.name == n]
        if len(fs) > 1 and isinstance(e, ast.Name):
            fs = [f for f in fs if f.mod is mod]
        return fs[0] if len(fs) == 1 else None

    def argof(self, c, i, *names):
        """Argument of a library call: position or keyword; 'unknown' with star arguments."""
        for k in c.keywords:
            if k.arg in names:
                return k.value
        if i is not None and any(isinstance(a, ast.Starred) for a in c.args[:i + 1]):
            return 'unknown'
        if i is not None and i < len(c.args):
            return c.args[i]
        for k in c.keywords:
            if k.arg is None:
                if isinstance(k.value, ast.Dict) and all(isinstance(x, ast.Constant) for x in k.value.keys):
                    for x, v in zip(k.value.keys, k.value.values):
                        if x.value in names:
                            return v
                    continue
                return 'unknown'
        return None
