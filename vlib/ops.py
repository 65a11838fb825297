"""Operators, attributes, items, strings and built-in functions of the abstract interpreter."""
import ast
import re

from .core import *
from .core import _Tup
from . import holes as H
from .holes import has_holes, new_hole, map_holes, op as hole_op, HOLE_RE
from .interp import Interp, OK_HOST

STR_METHODS = {m for m in dir(str) if not m.startswith('_')} | {'decode'}


def lit_translate(s, t):
    return map_holes(s.translate(t), lambda h: hole_op(h, 'translate', tuple(t.items())))


def concrete(v):
    """A host value without unknown parts."""
    if isinstance(v, str):
        return not has_holes(v)
    if isinstance(v, tuple):
        return all(concrete(x) for x in v)
    return isinstance(v, OK_HOST)


class Ops(Interp):

    # ------------------------------------------------------------------ truth and comparison
    def truth(self, v):
        if isinstance(v, Top):
            return self.decide(('truth', v.label))
        if isinstance(v, Num):
            return True if v.lo else self.decide(('truth', v.label))
        if isinstance(v, Ref):
            o = self.st.get(v)
            if o.kind in ('list', 'dict', 'set'):
                return len(o.d) > 0
            if o.kind == 'elem':
                return len(o.d['kids']) > 0
            if o.kind == 'inst':
                for m in ('__bool__', '__len__'):
                    if o.cls.lookup(m)[1] is not None:
                        return self.truth(self.call(self.getattr(v, m), [], {}))
            if o.kind == 'toplist':
                return self.decide(('truth', o.d))
            return True
        if isinstance(v, U):
            return self.truth(self.choose(v.alts))
        if isinstance(v, OK_HOST) or isinstance(v, (tuple, range)):
            return bool(v)
        return True

    def is_same(self, a, b):
        if isinstance(a, Top) or isinstance(b, Top):
            if isinstance(a, Top) and isinstance(b, Top) and a == b:
                return True
            return self.decide(('is', repr(a), repr(b)))
        if a is None or b is None:
            return a is b
        if isinstance(a, bool) or isinstance(b, bool):
            return a is b
        if isinstance(a, Ref) or isinstance(b, Ref):
            return a == b
        if isinstance(a, (int, str)) and isinstance(b, (int, str)):
            return type(a) == type(b) and a == b
        return a == b

    def equal(self, a, b):
        if isinstance(a, Top) or isinstance(b, Top):
            if a == b:
                return True
            return self.decide(('eq', repr(a), repr(b)))
        if isinstance(a, str) and isinstance(b, str):
            return self.str_equal(a, b)
        if isinstance(a, Num) or isinstance(b, Num):
            if a == b:
                return True
            other = b if isinstance(a, Num) else a
            if other is None or isinstance(other, (str, Ref, tuple)):
                return False
            if (a if isinstance(a, Num) else b).lo is not None and not isinstance(other, Num):
                if other < (a if isinstance(a, Num) else b).lo:
                    return False
            return self.decide(('eq', repr(a), repr(b)))
        if isinstance(a, Ref) and isinstance(b, Ref):
            if a == b:
                return True
            x, y = self.st.get(a), self.st.get(b)
            if x.kind == 'inst' and x.cls.lookup('__eq__')[1] is not None:
                return self.truth(self.call(self.getattr(a, '__eq__'), [b], {}))
            if x.kind != y.kind:
                return False
            if x.kind == 'list':
                return len(x.d) == len(y.d) and all(self.truth(self.equal(p, q)) for p, q in zip(x.d, y.d))
            if x.kind == 'set':
                return set(x.d) == set(y.d)
            if x.kind == 'dict':
                return set(x.d) == set(y.d) and all(self.truth(self.equal(x.d[k], y.d[k])) for k in x.d)
            return False
        if isinstance(a, tuple) and isinstance(b, tuple):
            return len(a) == len(b) and all(self.truth(self.equal(p, q)) for p, q in zip(a, b))
        if isinstance(a, Ref) or isinstance(b, Ref):
            r = a if isinstance(a, Ref) else b
            o = self.st.get(r)
            if o.kind == 'inst' and o.cls.lookup('__eq__')[1] is not None:
                return self.truth(self.call(self.getattr(r, '__eq__'), [b if r is a else a], {}))
            return False
        try:
            return bool(a == b)
        except Exception:
            return False

    def str_equal(self, a, b):
        if a == b:
            return True
        if not has_holes(a) and not has_holes(b):
            return False
        if len(a) == 1 and len(b) == 1 and has_holes(a) and has_holes(b):
            x, y = H.hole(a), H.hole(b)
            if x.origin == y.origin:
                return self.decide_same(x, y)
            return False
        # the same literal skeleton, holes differing only by transformations of the same text
        if len(a) == len(b) and has_holes(a) and has_holes(b):
            for p, q in zip(a, b):
                if p == q:
                    continue
                if not (H.is_hole(p) and H.is_hole(q)):
                    return False
                x, y = H.hole(p), H.hole(q)
                if x.origin != y.origin or not self.decide_same(x, y):
                    return False
            return True
        s, t = (a, b) if has_holes(a) else (b, a)
        if len(s) == 1 and not has_holes(t):
            return self.hole_pred(s, 'equals', t)
        if not self.may_be_equal(a, b):
            return False
        return self.decide(('eq', a, b))

    def may_be_equal(self, a, b):
        """Generic texts differ from the program's own literals and from each other."""
        sa, sb = set(H.holes_in(a)), set(H.holes_in(b))
        if not sa or not sb:
            return False
        if {H.hole(c).origin for c in sa} != {H.hole(c).origin for c in sb}:
            return False
        na, nb = [c for c in a if H.is_hole(c)], [c for c in b if H.is_hole(c)]
        if sorted(na) == sorted(nb):
            # the same unknown parts, in sum the same length
            return len(a) == len(b)
        for k in range(H.MAXP):
            try:
                if self.probe_text(a, k) == self.probe_text(b, k):
                    return True
            except H.OpFail:
                pass
            except H.Opaque:
                return True
        return False

    @staticmethod
    def probe_text(s, k):
        def f(m):
            h = H.hole(m.group())
            ps = list(H.probes(h))
            return H.apply_ops(h.ops, ps[k % len(ps)])
        return H.HOLE_RE.sub(f, s)

    def decide_same(self, x, y):
        if not x.ops and not y.ops:
            return True
        if not x.ops or not y.ops:
            ops = x.ops or y.ops
            return self.hole_pred_ops(x.origin, x.kind, (), 'same', (ops,))
        return self.decide(('same', x.origin, x.ops, y.ops))

    def hole_pred(self, ch, pred, *args):
        h = H.hole(ch)
        return self.hole_pred_ops(h.origin, h.kind, h.ops, pred, args)

    def hole_pred_ops(self, origin, kind, ops, pred, args):
        """Predicate on an unknown text, decided on the probes of its kind."""
        h = H.Hole(origin, kind, ops, -1)
        res = set()
        f = H.PREDS[pred]
        for p in H.probes(h):
            if not H.facts_ok(h, p, self.st.facts):
                continue
            try:
                res.add(f(H.apply_ops(ops, p), *args))
            except (H.Opaque, H.OpFail):
                res |= {True, False}
        if len(res) == 1:
            return res.pop()
        return self.decide(('hp', origin, ops, pred, args))

    def compare(self, op, a, b):
        t = type(op)
        if t is ast.Is:
            return self.is_same(a, b)
        if t is ast.IsNot:
            return not self.is_same(a, b)
        if t is ast.Eq:
            return self.equal(a, b)
        if t is ast.NotEq:
            return not self.truth(self.equal(a, b))
        if t is ast.In:
            return self.contains(b, a)
        if t is ast.NotIn:
            return not self.truth(self.contains(b, a))
        sym = {ast.Lt: '<', ast.LtE: '<=', ast.Gt: '>', ast.GtE: '>='}[t]
        if isinstance(a, (Top, Num)) or isinstance(b, (Top, Num)):
            if a is None or b is None:
                self.throw(TypeError, f"'{sym}' not supported")
            if isinstance(a, Num) and a.lo is not None or isinstance(b, Num) and b.lo is not None:
                n, k, s2 = (a, b, sym) if isinstance(a, Num) else (b, a, {'<': '>', '<=': '>=', '>': '<', '>=': '<='}[sym])
                if isinstance(k, int):
                    if s2 in ('>', '<=') and k < n.lo or s2 in ('>=', '<') and k <= n.lo:
                        return s2 in ('>', '>=')
            return self.decide_order(sym, repr(a), repr(b))
        if isinstance(a, Ref) and isinstance(b, Ref):
            x, y = self.st.get(a), self.st.get(b)
            if x.kind == 'set' and y.kind == 'set':
                p, q = set(x.d), set(y.d)
                return {'<': p < q, '<=': p <= q, '>': p > q, '>=': p >= q}[sym]
            self.unsupported('comparison')
        if isinstance(a, str) and isinstance(b, str) and (has_holes(a) or has_holes(b)):
            return self.decide_order(sym, a, b)
        try:
            return {'<': lambda: a < b, '<=': lambda: a <= b, '>': lambda: a > b, '>=': lambda: a >= b}[sym]()
        except TypeError as e:
            self.throw(TypeError, str(e))

    def decide_order(self, sym, a, b):
        """Unknown order relation: consistent for the four operators."""
        if sym in ('>', '<='):
            a, b = b, a
        key, back = ('lt', a, b), ('lt', b, a)
        if a == b or self.st.facts.get(back) or self.st.facts.get(('eq', a, b)) or self.st.facts.get(('eq', b, a)):
            less = False
        else:
            less = self.decide(key)
        return less if sym in ('<', '>') else not less

    def contains(self, c, x):
        if isinstance(c, Top) or isinstance(x, Top):
            return self.decide(('in', repr(c), repr(x)))
        if isinstance(c, str):
            if not isinstance(x, str):
                self.throw(TypeError, 'in <string> requires string')
            return self.str_contains(c, x)
        if isinstance(c, (tuple, range)):
            return any(self.truth(self.equal(y, x)) for y in c)
        if isinstance(c, Ref):
            o = self.st.get(c)
            if o.kind in ('dict', 'set'):
                if isinstance(x, Ref) and self.st.get(x).kind in ('list', 'dict', 'set'):
                    self.throw(TypeError, 'unhashable type')
                if x in o.d:
                    return True
                if isinstance(x, str) and has_holes(x):
                    return any(isinstance(k, str) and self.may_be_equal(k, x) and self.str_equal(k, x) for k in o.d)
                return False
            if o.kind == 'list':
                return any(self.truth(self.equal(y, x)) for y in list(o.d))
            if o.kind == 'elem':
                return x in o.d['kids']
            if o.kind == 'inst' and o.cls.lookup('__contains__')[1] is not None:
                return self.truth(self.call(self.getattr(c, '__contains__'), [x], {}))
            return any(self.truth(self.equal(y, x)) for y in self.iterate(c))
        self.throw(TypeError, f'argument of type {self.describe(c)} is not iterable')

    def str_contains(self, s, x):
        if x in s:
            return True
        if has_holes(x) or not has_holes(s):
            return False
        for ch in dict.fromkeys(H.holes_in(s)):
            if self.hole_pred(ch, 'contains', x):
                return True
        return False

    # ------------------------------------------------------------------ operators
    def binop(self, op, a, b):
        t = type(op)
        if isinstance(a, str) and isinstance(b, str) and t is ast.Add:
            return a + b
        if isinstance(a, Top) or isinstance(b, Top):
            return Top(f'op')
        if t is ast.Mod and isinstance(a, str):
            return self.percent(a, b)
        if isinstance(a, Ref) or isinstance(b, Ref):
            x = self.st.get(a) if isinstance(a, Ref) else None
            y = self.st.get(b) if isinstance(b, Ref) else None
            if t is ast.Add and x and y and x.kind == 'list' and y.kind == 'list':
                return self.new_list(list(x.d) + list(y.d))
            if t is ast.Mult:
                l, n = (x, b) if x else (y, a)
                if l.kind == 'list' and isinstance(n, int):
                    return self.new_list(list(l.d) * n)
            if x and y and x.kind == 'set' and y.kind == 'set':
                d = {ast.BitOr: lambda: {**x.d, **y.d}, ast.BitAnd: lambda: {k: None for k in x.d if k in y.d},
                     ast.Sub: lambda: {k: None for k in x.d if k not in y.d},
                     ast.BitXor: lambda: {**{k: None for k in x.d if k not in y.d}, **{k: None for k in y.d if k not in x.d}}}.get(t)
                if d:
                    return self.alloc('set', d())
            if x and y and x.kind == 'dict' and y.kind == 'dict' and t is ast.BitOr:
                return self.new_dict({**x.d, **y.d})
            names = {ast.Add: 'add', ast.Sub: 'sub', ast.Mult: 'mul', ast.Div: 'truediv', ast.BitOr: 'or', ast.BitAnd: 'and',
                     ast.Mod: 'mod', ast.FloorDiv: 'floordiv', ast.BitXor: 'xor'}.get(t)
            if x and x.kind == 'inst' and names and x.cls.lookup(f'__{names}__')[1] is not None:
                return self.call(self.getattr(a, f'__{names}__'), [b], {})
            if y and y.kind == 'inst' and names and y.cls.lookup(f'__r{names}__')[1] is not None:
                return self.call(self.getattr(b, f'__r{names}__'), [a], {})
            plain = ('list', 'dict', 'set', 'inst', 'file', 'elem')
            if (x and x.kind not in plain) or (y and y.kind not in plain) or isinstance(a, Num) or isinstance(b, Num):
                self.unsupported(f'operation {t.__name__} on {x.kind if x else type(a).__name__} and {y.kind if y else type(b).__name__}')
            self.throw(TypeError, 'unsupported operand types')
        if isinstance(a, Num) or isinstance(b, Num):
            if isinstance(a, str) or isinstance(b, str) or a is None or b is None:
                if t is ast.Mult and (isinstance(a, str) or isinstance(b, str)):
                    return Top('str')
                self.throw(TypeError, 'unsupported operand types')
            sym = {ast.Add: '+', ast.Sub: '-', ast.Mult: '*', ast.Div: '/', ast.FloorDiv: '//', ast.Mod: '%', ast.Pow: '**'}.get(t, '?')
            if sym == '+' and a == 0:
                return b
            if sym in '+-' and b == 0:
                return a
            f = lambda v: v.label if isinstance(v, Num) else repr(v)
            return Num(f'({f(a)}{sym}{f(b)})')
        try:
            if t is ast.Add:
                return a + b
            if t is ast.Sub:
                return a - b
            if t is ast.Mult:
                return a * b
            if t is ast.Div:
                return a / b
            if t is ast.FloorDiv:
                return a // b
            if t is ast.Mod:
                return a % b
            if t is ast.Pow:
                return a ** b
            if t is ast.BitOr:
                return a | b
            if t is ast.BitAnd:
                return a & b
            if t is ast.BitXor:
                return a ^ b
            if t is ast.LShift:
                return a << b
            if t is ast.RShift:
                return a >> b
        except TypeError as e:
            if isinstance(a, (RegexV,)) or isinstance(b, (RegexV, Ext)) or isinstance(a, Ext):
                if t is ast.BitOr:
                    return Top('flags')
            self.throw(TypeError, str(e))
        except ZeroDivisionError as e:
            self.throw(ZeroDivisionError, str(e))
        self.unsupported('operator')

    def percent(self, a, b):
        args = list(b) if isinstance(b, tuple) else [b]
        if all(concrete(x) for x in args) and not has_holes(a):
            try:
                return a % (b if isinstance(b, tuple) else (b,))
            except (TypeError, ValueError) as e:
                self.throw(type(e), str(e))
        out = []
        i = 0
        for part in re.split(r'(%[sdrif%])', a):
            if part == '%%':
                out.append('%')
            elif re.fullmatch(r'%[sdrif]', part):
                if i >= len(args):
                    self.throw(TypeError, 'not enough arguments for format string')
                out.append(self.to_str(args[i]))
                i += 1
            else:
                out.append(part)
        if i < len(args):
            self.throw(TypeError, 'not all arguments converted')
        return self.concat(out)

    # ------------------------------------------------------------------ conversion to text
    def to_str(self, v):
        if isinstance(v, str):
            return v
        if isinstance(v, (bool, int, float, type(None))):
            return str(int(v)) if isinstance(v, Pos) else str(v)
        if isinstance(v, Num):
            return new_hole(('num', v.label), 'num')
        if isinstance(v, Top):
            return Top('str(' + v.label + ')') if not v.label.startswith('str(') else v
        if isinstance(v, ExcV):
            if len(v.args) == 0:
                return ''
            if v.cls is KeyError:
                return self.repr_(v.args[0])
            return self.to_str(v.args[0]) if len(v.args) == 1 else self.repr_(tuple(v.args))
        if isinstance(v, Ref):
            o = self.st.get(v)
            if o.kind == 'inst':
                if o.cls.lookup('__str__')[1] is not None:
                    return self.call(self.getattr(v, '__str__'), [], {})
                if 'args' in o.d and any(isinstance(b, type) for b in o.cls.ext_bases()):
                    a = o.d['args']
                    return '' if not a else (self.to_str(a[0]) if len(a) == 1 else self.repr_(a))
                if o.cls.lookup('__repr__')[1] is not None:
                    return self.call(self.getattr(v, '__repr__'), [], {})
            return self.repr_(v)
        if isinstance(v, tuple):
            return self.repr_(v)
        return Top('str')

    def repr_(self, v):
        if isinstance(v, (bool, int, float, type(None))):
            return repr(v)
        if isinstance(v, str):
            return repr(v) if not has_holes(v) else "'" + v + "'"
        if isinstance(v, tuple):
            return self.concat(['('] + [self.repr_(x) + ', ' if not isinstance(self.repr_(x), Top) else Top('str') for x in v] + [')'])
        if isinstance(v, Ref) and self.st.get(v).kind == 'list':
            parts = [self.repr_(x) for x in self.st.get(v).d]
            if any(isinstance(p, Top) for p in parts):
                return Top('str')
            return '[' + ', '.join(parts) + ']'
        if isinstance(v, Ref) and self.st.get(v).kind in ('dict', 'set'):
            o = self.st.get(v)
            if o.kind == 'set' and not o.d:
                return 'set()'
            parts = [self.repr_(k) if o.kind == 'set' else (self.repr_(k), self.repr_(x)) for k, x in o.d.items()]
            if any(isinstance(p, Top) or isinstance(p, tuple) and any(isinstance(q, Top) for q in p) for p in parts):
                return Top('str')
            return '{' + ', '.join(p if isinstance(p, str) else ': '.join(p) for p in parts) + '}'
        return new_hole(('repr', type(v).__name__), 'word')

    def type_of(self, v):
        if isinstance(v, ExcV):
            return v.cls
        if isinstance(v, Ref):
            o = self.st.get(v)
            if o.kind == 'inst':
                return o.cls
            return Ext('builtins.' + {'list': 'list', 'dict': 'dict', 'set': 'set'}.get(o.kind, o.kind))
        if isinstance(v, Num):
            return Ext('builtins.int')
        if isinstance(v, Top):
            return Top('type')
        if isinstance(v, Class):
            return Ext('builtins.type')
        n = type(v).__name__
        return Ext('builtins.' + ('int' if n == 'Pos' else 'NoneType' if v is None else n))

    # ------------------------------------------------------------------ iteration
    def iter_source(self, v):
        """Something iter_step understands; raises for non-iterables."""
        if isinstance(v, Ref):
            o = self.st.get(v)
            if o.kind in ('list', 'elem'):
                return ('live', v)
            if o.kind == 'dict':
                return ('host', tuple(o.d), v, len(o.d))
            if o.kind == 'inst' and o.cls.lookup('__iter__')[1] is not None:
                w = self.call(self.getattr(v, '__iter__'), [], {})
                if isinstance(w, Ref) and self.st.get(w).kind != 'inst':
                    return self.iter_source(w)
                return ('host', tuple(self.by_next(w)), None, 0)
            if o.kind == 'gen':
                self.force(v)
                return ('iter', v)
            if o.kind == 'iter':
                return ('iter', v)
            return ('host', tuple(self.iterate(v)), None, 0)
        return ('host', tuple(self.iterate(v)), None, 0)

    def by_next(self, v):
        """All items of an iterator object of the program."""
        out = []
        while True:
            try:
                out.append(self.call(self.getattr(v, '__next__'), [], {}))
            except PyRaise as e:
                if self.exc_matches(e.val, StopIteration):
                    return out
                raise
            if len(out) > 20 * self.max_iter:
                self.unsupported('endless iteration')

    def iter_step(self, it, i):
        """(item,) or None at the end."""
        if it[0] == 'live':
            o = self.st.get(it[1])
            items = o.d['kids'] if o.kind == 'elem' else o.d
            return (self.pick_item(it[1], items, i),) if i < len(items) else None
        if it[0] == 'iter':
            d = self.st.get(it[1]).d
            if d['pos'] >= len(d['items']):
                return None
            pos = d['pos']
            self.st.w(it[1]).d['pos'] = pos + 1
            return (d['items'][pos],)
        if it[2] is not None and len(self.st.get(it[2]).d) != it[3]:
            if i < len(it[1]) or len(self.st.get(it[2]).d) != it[3] and i < len(it[1]):
                self.throw(RuntimeError, 'dictionary changed size during iteration')
        return (it[1][i],) if i < len(it[1]) else None

    def pick_item(self, ref, items, i):
        v = items[i]
        if isinstance(v, U):
            v = self.choose(v.alts)
            self.st.w(ref).d[i] = v
        return v

    def iterate(self, v):
        """All items as a host list."""
        if isinstance(v, tuple):
            return list(v)
        if isinstance(v, range):
            return list(v)
        if isinstance(v, str):
            return list(v)
        if isinstance(v, bytes):
            return list(v)
        if isinstance(v, Ref):
            o = self.st.get(v)
            if o.kind == 'gen':
                self.force(v)
                o = self.st.get(v)
            if o.kind == 'list':
                return [self.pick_item(v, o.d, i) for i in range(len(o.d))]
            if o.kind == 'set' and o.cls is None and len(o.d) > 1 and any(not isinstance(x, int) for x in o.d):
                # any order is possible: follow two
                return list(self.choose([tuple(o.d), tuple(reversed(o.d))]))
            if o.kind in ('dict', 'set'):
                return list(o.d)
            if o.kind == 'elem':
                return list(o.d['kids'])
            if o.kind == 'iter':
                d = self.st.w(v).d
                items = d['items'][d['pos']:]
                d['pos'] = len(d['items'])
                return list(items)
            if o.kind == 'inst':
                if o.cls.lookup('__iter__')[1] is not None:
                    w = self.call(self.getattr(v, '__iter__'), [], {})
                    if isinstance(w, Ref) and self.st.get(w).kind == 'inst':
                        return self.by_next(w)
                    return self.iterate(w)
                self.throw(TypeError, f"'{o.cls.name}' object is not iterable")
            r = self.native_iter(v, o)
            if r is not None:
                return r
        if isinstance(v, Top):
            self.note(f'iteration over unknown value {v.label}')
            return self.choose([[], [Top(v.label + '[]')]])
        self.throw(TypeError, f'{self.describe(v)} object is not iterable')

    # ------------------------------------------------------------------ attributes
    def getattr(self, o, name):
        if isinstance(o, Ref):
            ob = self.st.get(o)
            if ob.kind == 'inst':
                return self.inst_attr(o, ob, name)
            return self.native_attr(o, ob, name)
        if o is None:
            if name == '__class__':
                return Ext('builtins.NoneType')
            self.throw(AttributeError, f"'NoneType' object has no attribute '{name}'")
        if isinstance(o, str):
            if name in STR_METHODS:
                return Meth(o, name)
            if name == '__class__':
                return Ext('builtins.str')
            if name.startswith('__') and hasattr(o, name):
                self.unsupported(f'str.{name}')
            self.throw(AttributeError, f"'str' object has no attribute '{name}'")
        if isinstance(o, ModuleV):
            if name in o.env:
                return o.env[name]
            m = self.load(f'{o.name}.{name}')
            if m is not None:
                return m
            if o.is_stub:
                return Ext(f'{o.name}.{name}')
            self.throw(AttributeError, f"module '{o.name}' has no attribute '{name}'")
        if isinstance(o, Ext):
            return self.ext_attr(o, name)
        if isinstance(o, Class):
            return self.class_attr(o, name)
        if isinstance(o, SuperV):
            return self.super_attr(o, name)
        if isinstance(o, Top):
            return Top(o.label + '.' + name)
        if isinstance(o, ExcV):
            if name == 'args':
                return o.args
            if name in ('errno', 'strerror', 'filename', 'msg', 'code', 'position', 'reason', '__cause__', '__traceback__'):
                return Top(name)
            if name == 'with_traceback':
                return Meth(o, name)
            if name == '__class__':
                return o.cls
            self.throw(AttributeError, name)
        if isinstance(o, type):
            if name == '__name__':
                return o.__name__
            self.throw(AttributeError, name)
        if isinstance(o, (Fn, Bound)):
            f = o if isinstance(o, Fn) else o.a[0]
            if name == '__name__':
                return f.name
            if name == '__self__' and isinstance(o, Bound):
                return o.a[1]
            if name == '__doc__':
                return ''
            self.throw(AttributeError, name)
        if isinstance(o, (RegexV, MatchV)):
            return self.re_attr(o, name)
        if isinstance(o, (int, float, tuple, bytes, range)):
            if isinstance(o, bool) or hasattr(o, name):
                return Meth(o, name)
            self.throw(AttributeError, name)
        if isinstance(o, Num):
            return Meth(o, name)
        if isinstance(o, (Prop, StaticM, ClassM, Partial, Meth)):
            if name == '__func__' and not isinstance(o, (Prop, Partial, Meth)):
                return o.a[0]
            self.unsupported(f'attribute {name}')
        return self.native_host_attr(o, name)

    def native_host_attr(self, o, name):
        self.unsupported(f'attribute {name} of {type(o).__name__}')

    def inst_attr(self, ref, ob, name):
        c, v = ob.cls.lookup(name)
        if isinstance(v, Prop):
            if v.a[0] is None:
                self.throw(AttributeError, name)
            if v.a[1] == 'cached':
                if name not in ob.d:
                    x = self.call(v.a[0], [ref], {})
                    self.st.w(ref).d[name] = x
                    return x
            else:
                return self.call(v.a[0], [ref], {})
        if name in ob.d:
            x = ob.d[name]
            if isinstance(x, U):
                x = self.choose(x.alts)
                self.st.w(ref).d[name] = x
            return x
        if c is not None:
            return self.bind_class_value(v, ref, ob.cls)
        if name == '__class__':
            return ob.cls
        if name == '__dict__':
            return self.alloc('vars', {'of': ref})
        r = self.native_inst_attr(ref, ob, name)
        if r is not None:
            return r
        g = ob.cls.lookup('__getattr__')[1]
        if g is not None:
            return self.call(Bound(g, ref), [name], {})
        if any(isinstance(b, Ext) and b.name not in ('abc.ABC',) for b in ob.cls.ext_bases()):
            return Top(f'{ob.cls.name}.{name}')
        self.throw(AttributeError, f"'{ob.cls.name}' object has no attribute '{name}'")

    def native_inst_attr(self, ref, ob, name):
        return None

    def bind_class_value(self, v, ref, cls):
        if isinstance(v, Fn):
            return Bound(v, ref) if ref is not None else v
        if isinstance(v, StaticM):
            return v.a[0]
        if isinstance(v, ClassM):
            return Bound(v.a[0], cls)
        if isinstance(v, Prop):
            return self.call(v.a[0], [ref], {}) if ref is not None else v
        if isinstance(v, U):
            return self.choose(v.alts)
        return v

    def class_attr(self, c, name):
        owner, v = c.lookup(name)
        if owner is not None:
            return self.bind_class_value(v, None, c)
        if name == '__name__' or name == '__qualname__':
            return c.name
        if name == '__mro__':
            return tuple(c.mro)
        if name == '__bases__':
            return tuple(c.bases)
        if name == '__doc__':
            return ''
        if name == '__module__':
            return c.module
        if name == '__init__':
            for b in c.ext_bases():
                if isinstance(b, Ext):
                    return Ext(b.name + '.' + name)
            return Ext('builtins.object.__init__')
        for b in c.ext_bases():
            if isinstance(b, Ext) and b.name != 'abc.ABC':
                return self.ext_attr(b, name)
        self.throw(AttributeError, f"type object '{c.name}' has no attribute '{name}'")

    def super_attr(self, s, name):
        cls, obj = s.a
        oc = self.st.get(obj).cls if isinstance(obj, Ref) else obj
        i = oc.mro.index(cls)
        for c in oc.mro[i + 1:]:
            if isinstance(c, Class):
                if name in c.ns:
                    return self.bind_class_value(c.ns[name], obj if isinstance(obj, Ref) else None, oc)
            elif isinstance(c, Ext):
                if c.name == 'abc.ABC':
                    continue
                return Bound(Ext(c.name + '.' + name), obj)
            elif isinstance(c, type) and name == '__init__':
                return Bound(Ext('builtins.BaseException.__init__'), obj)
        if name == '__init__':
            return Bound(Ext('builtins.object.__init__'), obj)
        if name in ('__del__', '__setattr__', '__getattribute__', '__new__', '__str__', '__eq__'):
            return Bound(Ext('builtins.object.' + name), obj)
        self.throw(AttributeError, f"'super' object has no attribute '{name}'")

    def setattr(self, o, name, v):
        if isinstance(o, Ref):
            ob = self.st.get(o)
            if ob.kind == 'inst':
                c, x = ob.cls.lookup(name)
                if isinstance(x, Prop) and x.a[1] != 'cached':
                    if x.a[1] is None:
                        self.throw(AttributeError, f"can't set attribute '{name}'")
                    self.call(x.a[1], [o, v], {})
                    return
                sa = ob.cls.lookup('__setattr__')[1]
                if sa is not None:
                    self.unsupported('__setattr__')
                self.on_setattr(o, ob, name, v)
                self.st.w(o).d[name] = v
                return
            return self.native_setattr(o, ob, name, v)
        if isinstance(o, Class):
            o.ns[name] = v
            self.note('class attribute assigned at run time')
            return
        if isinstance(o, ModuleV):
            o.env[name] = v
            return
        if o is None:
            self.throw(AttributeError, f"'NoneType' object has no attribute '{name}'")
        if isinstance(o, (Top, Ext)):
            return
        if isinstance(o, (str, int, tuple, Num)):
            self.throw(AttributeError, f"object has no attribute '{name}'")
        self.unsupported(f'attribute assignment on {type(o).__name__}')

    def on_setattr(self, ref, ob, name, v):
        pass

    def delattr(self, o, name):
        if isinstance(o, Ref) and self.st.get(o).kind == 'inst':
            d = self.st.w(o).d
            if name not in d:
                self.throw(AttributeError, name)
            del d[name]
            return
        self.unsupported('del attribute')

    # ------------------------------------------------------------------ items
    def index_of(self, i):
        if isinstance(i, bool):
            return int(i)
        return i

    def getitem(self, o, i):
        if isinstance(o, Top):
            return Top(o.label + '[]')
        if isinstance(i, U):
            i = self.choose(i.alts)
        if isinstance(o, str):
            return self.str_item(o, i)
        if isinstance(o, (tuple, range, bytes)):
            if isinstance(i, (Top, Num)):
                return self.choose(list(o)) if o else self.throw(IndexError, 'index')
            if isinstance(i, slice):
                if any(isinstance(x, (Top, Num)) for x in (i.start, i.stop, i.step)):
                    self.unsupported('unknown slice')
                return o[i]
            if not isinstance(i, int):
                self.throw(TypeError, 'indices must be integers')
            try:
                return o[i]
            except IndexError as e:
                self.throw(IndexError, str(e))
        if isinstance(o, Ref):
            ob = self.st.get(o)
            if ob.kind == 'list':
                if isinstance(i, (Top, Num)):
                    self.note('unknown index')
                    return self.choose(list(ob.d)) if ob.d else self.throw(IndexError, 'list index out of range')
                if isinstance(i, slice):
                    if any(isinstance(x, (Top, Num)) for x in (i.start, i.stop, i.step)):
                        self.unsupported('unknown slice')
                    return self.new_list(ob.d[i])
                if not isinstance(i, int):
                    self.throw(TypeError, 'list indices must be integers or slices')
                if not -len(ob.d) <= i < len(ob.d):
                    self.throw(IndexError, 'list index out of range')
                return self.pick_item(o, ob.d, i)
            if ob.kind == 'dict':
                if isinstance(i, (Top, Num)):
                    self.note('unknown key')
                    return self.choose(list(ob.d.values())) if ob.d else self.throw(KeyError, 'key')
                self.key(i)
                if i not in ob.d:
                    if ob.cls is not None:      # defaultdict
                        v = self.call(ob.cls, [], {})
                        self.st.w(o).d[i] = v
                        return v
                    self.throw(KeyError, i)
                v = ob.d[i]
                if isinstance(v, U):
                    v = self.choose(v.alts)
                    self.st.w(o).d[i] = v
                return v
            if ob.kind == 'inst' and ob.cls.lookup('__getitem__')[1] is not None:
                return self.call(self.getattr(o, '__getitem__'), [i], {})
            return self.native_getitem(o, ob, i)
        if o is None:
            self.throw(TypeError, "'NoneType' object is not subscriptable")
        if isinstance(o, MatchV):
            return self.call_method(o, 'group', [i], {})
        if isinstance(o, (Class, Ext)):
            return o        # generic alias
        self.throw(TypeError, f'{self.describe(o)} is not subscriptable')

    def str_item(self, s, i):
        if isinstance(i, slice):
            if any(isinstance(x, (Top, Num)) for x in (i.start, i.stop, i.step)):
                return Top('str')
            if not has_holes(s):
                return s[i]
            if i.step not in (None, 1):
                return Top('str')
            a, b = i.start, i.stop
            exact = True
            if a is not None and not isinstance(a, Pos):
                seg = s[:a] if a >= 0 else s[a:]
                exact = not has_holes(seg)
            if b is not None and not isinstance(b, Pos):
                seg = s[:b] if b >= 0 else s[b:]
                exact = exact and not has_holes(seg)
            if exact:
                return s[i]
            # a cut inside unknown text
            a2 = 0 if a is None else a
            return map_holes(s, lambda c: hole_op(c, 'clip', a2, b))
        if isinstance(i, (Top, Num)):
            return Top('str')
        if not isinstance(i, int):
            self.throw(TypeError, 'string indices must be integers')
        if not has_holes(s) or isinstance(i, Pos):
            try:
                return s[i]
            except IndexError as e:
                self.throw(IndexError, str(e))
        seg = s[:i + 1] if i >= 0 else s[i:]
        if has_holes(seg):
            return Top('char')
        return s[i]

    def setitem(self, o, i, v):
        if isinstance(o, Ref):
            ob = self.st.get(o)
            if ob.kind == 'dict':
                i = self.key(i)
                self.st.w(o).d[i] = v
                return
            if ob.kind == 'list':
                if isinstance(i, slice):
                    vals = self.iterate(v)
                    self.st.w(o).d[i] = vals
                    return
                if isinstance(i, (Top, Num)):
                    self.unsupported('unknown index')
                if not isinstance(i, int):
                    self.throw(TypeError, 'list indices must be integers')
                if not -len(ob.d) <= i < len(ob.d):
                    self.throw(IndexError, 'list assignment index out of range')
                self.st.w(o).d[i] = v
                return
            if ob.kind == 'inst' and ob.cls.lookup('__setitem__')[1] is not None:
                self.call(self.getattr(o, '__setitem__'), [i, v], {})
                return
            return self.native_setitem(o, ob, i, v)
        if isinstance(o, (Top, Ext)):
            return
        self.throw(TypeError, 'object does not support item assignment')

    def delitem(self, o, i):
        if isinstance(o, Ref):
            ob = self.st.get(o)
            if ob.kind == 'dict':
                self.key(i)
                if i not in ob.d:
                    self.throw(KeyError, i)
                del self.st.w(o).d[i]
                return
            if ob.kind == 'list':
                if isinstance(i, slice):
                    del self.st.w(o).d[i]
                    return
                if not isinstance(i, int) or not -len(ob.d) <= i < len(ob.d):
                    self.throw(IndexError, 'list assignment index out of range')
                del self.st.w(o).d[i]
                return
            if ob.kind == 'elem':
                kids = self.st.w(o).d['kids']
                try:
                    del kids[i]
                except IndexError:
                    self.throw(IndexError, 'child')
                return
        if isinstance(o, Top):
            return
        self.throw(TypeError, 'object does not support item deletion')

    # ------------------------------------------------------------------ methods of host values and containers
    def call_method(self, r, name, args, kw):
        if isinstance(r, str):
            return self.str_method(r, name, args, kw)
        if isinstance(r, Ref):
            ob = self.st.get(r)
            f = getattr(self, f'm_{ob.kind}_{name}', None)
            if f is not None:
                return f(r, ob, *args, **kw)
            return self.native_method(r, ob, name, args, kw)
        if isinstance(r, (RegexV, MatchV)):
            return self.re_method(r, name, args, kw)
        if isinstance(r, ExcV):
            return r
        if isinstance(r, Num):
            return Num(f'{r.label}.{name}')
        if all(concrete(a) for a in args) and isinstance(r, (int, float, bytes, tuple)):
            if isinstance(r, tuple) and not concrete(r):
                if name == 'index':
                    for i, x in enumerate(r):
                        if self.truth(self.equal(x, args[0])):
                            return i
                    self.throw(ValueError, 'tuple.index')
                if name == 'count':
                    return sum(1 for x in r if self.truth(self.equal(x, args[0])))
            try:
                return getattr(r, name)(*args, **kw)
            except Exception as e:
                self.throw(type(e), *[str(a) for a in e.args])
        return self.native_host_method(r, name, args, kw)

    def native_host_method(self, r, name, args, kw):
        self.unsupported(f'method {name} of {type(r).__name__}')

    # --- list
    def m_list_append(self, r, o, v):
        self.st.w(r).d.append(v)

    def m_list_extend(self, r, o, v):
        items = self.iterate(v)
        self.st.w(r).d.extend(items)

    def m_list_insert(self, r, o, i, v):
        if not isinstance(i, int):
            self.unsupported('unknown index')
        self.st.w(r).d.insert(i, v)

    def m_list_pop(self, r, o, i=-1):
        if not o.d:
            self.throw(IndexError, 'pop from empty list')
        if not isinstance(i, int) or not -len(o.d) <= i < len(o.d):
            self.throw(IndexError, 'pop index out of range')
        self.pick_item(r, o.d, i)
        return self.st.w(r).d.pop(i)

    def m_list_remove(self, r, o, v):
        for i, x in enumerate(o.d):
            if self.truth(self.equal(x, v)):
                del self.st.w(r).d[i]
                return
        self.throw(ValueError, 'list.remove(x): x not in list')

    def m_list_index(self, r, o, v, a=0, b=None):
        for i, x in enumerate(o.d):
            if i >= a and (b is None or i < b) and self.truth(self.equal(x, v)):
                return i
        self.throw(ValueError, 'not in list')

    def m_list_count(self, r, o, v):
        return sum(1 for x in list(o.d) if self.truth(self.equal(x, v)))

    def m_list_copy(self, r, o):
        return self.new_list(o.d)

    def m_list_clear(self, r, o):
        self.st.w(r).d.clear()

    def m_list_reverse(self, r, o):
        self.st.w(r).d.reverse()

    def m_list_sort(self, r, o, key=None, reverse=False):
        items = self.sorted_items(list(o.d), key, reverse)
        self.st.w(r).d[:] = items

    def sorted_items(self, items, key, reverse):
        ks = [self.call(key, [x], {}) if key is not None else x for x in items]
        if len(items) < 2:
            return items
        if all(concrete(k) for k in ks):
            try:
                order = sorted(range(len(items)), key=lambda i: ks[i], reverse=bool(reverse))
            except TypeError as e:
                self.throw(TypeError, str(e))
            return [items[i] for i in order]
        if any(isinstance(k, Ref) for k in ks):
            self.unsupported('sort key')
        if any(k is None for k in ks) and not all(k is None for k in ks):
            self.throw(TypeError, 'not supported between NoneType')
        # unknown texts: any order; follow the given and the reversed one
        return list(self.choose([tuple(items), tuple(reversed(items))]))

    # --- dict
    def m_dict_get(self, r, o, k, default=None):
        self.key(k)
        if k in o.d:
            return self.getitem(r, k)
        return default

    def m_dict_keys(self, r, o):
        return self.alloc('set', dict.fromkeys(o.d), 'ordered')

    def m_dict_values(self, r, o):
        return self.new_list([self.getitem(r, k) for k in list(o.d)])

    def m_dict_items(self, r, o):
        return self.new_list([(k, self.getitem(r, k)) for k in list(o.d)])

    def m_dict_copy(self, r, o):
        return self.alloc('dict', dict(o.d), o.cls)

    def m_dict_pop(self, r, o, k, *default):
        self.key(k)
        if k in o.d:
            v = self.getitem(r, k)
            del self.st.w(r).d[k]
            return v
        if default:
            return default[0]
        self.throw(KeyError, k)

    def m_dict_most_common(self, r, o, n=None):
        items = sorted(o.d.items(), key=lambda kv: -kv[1]) if all(isinstance(x, int) for x in o.d.values()) else self.unsupported('most_common')
        return self.new_list(items[:n])

    def m_dict_elements(self, r, o):
        return self.new_list([k for k, n in o.d.items() for _ in range(n)])

    def m_dict_popitem(self, r, o):
        if not o.d:
            self.throw(KeyError, 'empty')
        k = list(o.d)[-1]
        v = self.st.w(r).d.pop(k)
        return (k, v)

    def m_dict_setdefault(self, r, o, k, default=None):
        self.key(k)
        if k not in o.d:
            self.st.w(r).d[k] = default
        return self.getitem(r, k)

    def m_dict_update(self, r, o, other=None, **kw):
        d = {}
        if other is not None:
            if isinstance(other, Ref) and self.st.get(other).kind == 'dict':
                d = dict(self.st.get(other).d)
            elif isinstance(other, Top):
                self.unsupported('dict.update with unknown')
            else:
                for p in self.iterate(other):
                    a, b = self.iterate(p)
                    d[self.key(a)] = b
        d.update(kw)
        self.st.w(r).d.update(d)

    def m_dict_clear(self, r, o):
        self.st.w(r).d.clear()

    # --- set
    def m_set_add(self, r, o, v):
        self.key(v)
        self.st.w(r).d[v] = None

    def m_set_discard(self, r, o, v):
        self.st.w(r).d.pop(v, None)

    def m_set_remove(self, r, o, v):
        if v not in o.d:
            self.throw(KeyError, v)
        self.st.w(r).d.pop(v, None)

    def m_set_update(self, r, o, *others):
        for x in others:
            for v in self.iterate(x):
                self.st.w(r).d[v] = None

    def m_set_union(self, r, o, *others):
        d = dict(o.d)
        for x in others:
            for v in self.iterate(x):
                d[v] = None
        return self.alloc('set', d)

    def m_set_difference(self, r, o, *others):
        d = dict(o.d)
        for x in others:
            for v in self.iterate(x):
                d.pop(v, None)
        return self.alloc('set', d)

    def m_set_intersection(self, r, o, other):
        vs = set(self.iterate(other))
        return self.alloc('set', {k: None for k in o.d if k in vs})

    def m_set_isdisjoint(self, r, o, other):
        vs = set(self.iterate(other))
        return not any(k in vs for k in o.d)

    def m_set_issuperset(self, r, o, other):
        return all(k in o.d for k in self.iterate(other))

    def m_set_symmetric_difference(self, r, o, other):
        vs = dict.fromkeys(self.iterate(other))
        return self.alloc('set', {**{k: None for k in o.d if k not in vs}, **{k: None for k in vs if k not in o.d}})

    def m_set_difference_update(self, r, o, *others):
        for x in others:
            for v in self.iterate(x):
                self.st.w(r).d.pop(v, None)

    def m_set_intersection_update(self, r, o, other):
        vs = set(self.iterate(other))
        for k in list(o.d):
            if k not in vs:
                self.st.w(r).d.pop(k, None)

    def m_set_pop(self, r, o):
        if not o.d:
            self.throw(KeyError, 'pop from an empty set')
        v = self.iterate(r)[0]
        self.st.w(r).d.pop(v, None)
        return v

    def m_set_copy(self, r, o):
        return self.alloc('set', dict(o.d))

    def m_set_issubset(self, r, o, other):
        return set(o.d) <= set(self.iterate(other))

    def m_set_clear(self, r, o):
        self.st.w(r).d.clear()

    # --- strings
    def str_method(self, s, name, args, kw):
        if name == 'join':
            items = self.iterate(args[0])
            for x in items:
                if not isinstance(x, (str, Top)):
                    self.throw(TypeError, 'sequence item: expected str instance')
            if any(isinstance(x, Top) for x in items):
                return Top('str')
            return s.join(items)
        if name == 'format':
            return self.str_format(s, args, kw)
        if any(isinstance(a, Top) for a in args):
            return Top('str')
        if any(isinstance(a, (Ref, Num)) for a in args) and name not in ('translate', 'format_map'):
            if any(isinstance(a, Num) for a in args):
                return Top('str')
            self.throw(TypeError, f'str.{name}: bad argument type')
        if any(a is None for a in args) and name not in ('split', 'rsplit', 'strip', 'lstrip', 'rstrip', 'find', 'count', 'encode'):
            self.throw(TypeError, f'str.{name}: argument must be str, not None')
        if name == 'decode':
            return s            # binary data are represented by their texts
        hol = has_holes(s)
        if name == 'translate' and not hol and isinstance(args[0], Ref):
            return s.translate(self.as_dict(args[0]))
        if not hol and all(concrete(a) for a in args):
            if name == 'encode':
                self.encoded('encode', args[0] if args else kw.get('encoding', 'utf-8'), args[1] if len(args) > 1 else kw.get('errors'))
                return s
            if name in ('maketrans',):
                return self.new_dict(str.maketrans(*args))
            try:
                r = getattr(s, name)(*args, **kw)
            except Exception as e:
                self.throw(type(e), *[str(a) for a in e.args])
            if isinstance(r, list):
                return self.new_list(r)
            return r
        if name == 'replace':
            a, b = args[0], args[1]
            n = args[2] if len(args) > 2 else kw.get('count', -1)
            if a == '':
                return Top('str')
            out = s.replace(a, b, n)
            if has_holes(a):
                return out
            return map_holes_once(s, out, lambda c: hole_op(c, 'replace', a, b, n))
        if name in ('strip', 'lstrip', 'rstrip'):
            chars = args[0] if args else None
            out = getattr(s, name)(chars)
            if not out:
                return out
            if name != 'rstrip' and H.is_hole(out[0]):
                which = 'strip' if len(out) == 1 and name == 'strip' else 'lstrip'
                out = hole_op(out[0], which, chars) + out[1:]
            if name != 'lstrip' and len(out) and H.is_hole(out[-1]) and not (len(out) == 1 and name == 'strip'):
                out = out[:-1] + hole_op(out[-1], 'rstrip', chars)
            return out
        if name in ('split', 'rsplit'):
            sep = args[0] if args else kw.get('sep')
            n = args[1] if len(args) > 1 else kw.get('maxsplit', -1)
            if sep is None:
                return self.fuzzy_split(s)
            if sep == '':
                self.throw(ValueError, 'empty separator')
            return self.new_list(getattr(self.cut(s, sep), name)(sep, n))
        if name == 'splitlines':
            return self.new_list(s.splitlines(*args, **kw))
        if name in ('partition', 'rpartition'):
            return getattr(self.cut(s, args[0]), name)(args[0])
        if name in ('startswith', 'endswith'):
            pats = args[0] if isinstance(args[0], tuple) else (args[0],)
            return any(self.str_edge(s, name, p, args[1:]) for p in pats)
        if name in ('find', 'rfind', 'index', 'rindex'):
            r = getattr(s, name.replace('index', 'find'))(*args)
            if r < 0:
                for ch in H.holes_in(s):
                    if self.hole_pred(ch, 'contains', args[0]):
                        return Num(f'{name}({H.show(s)},{args[0]})', 0)
                if name.endswith('index'):
                    self.throw(ValueError, 'substring not found')
                return r
            return Pos(r)
        if name == 'count':
            for ch in dict.fromkeys(H.holes_in(s)):
                if not has_holes(args[0]) and self.hole_pred(ch, 'contains', args[0]):
                    return Num(f'count({H.show(s)},{args[0]})', 1)
            return s.count(args[0])
        if name in ('lower', 'upper', 'title', 'capitalize', 'casefold', 'swapcase', 'expandtabs'):
            return map_holes(getattr(s, name)(*args), lambda c: hole_op(c, name, *args))
        if name in ('removeprefix', 'removesuffix'):
            out = getattr(s, name)(args[0])
            return out
        if name in ('isdigit', 'isnumeric', 'isalpha', 'isspace', 'isalnum', 'isdecimal', 'islower', 'isupper', 'isascii',
                    'isidentifier', 'isprintable', 'istitle'):
            if len(s) == 1:
                return self.hole_pred(s, name)
            lit = HOLE_RE.sub('', s)
            if lit and not getattr(lit, name)():
                return False
            return all(self.hole_pred(c, name) for c in H.holes_in(s))
        if name == 'zfill':
            if len(s) == 1:
                return hole_op(s, 'zfill', args[0])
            return s
        if name in ('encode',):
            self.encoded('encode', args[0] if args else kw.get('encoding', 'utf-8'), args[1] if len(args) > 1 else kw.get('errors'))
            return s
        if name in ('ljust', 'rjust', 'center'):
            return s
        if name == 'translate':
            t = {k: v for k, v in self.as_dict(args[0]).items()}
            t = {(ord(k) if isinstance(k, str) else k): (chr(v) if isinstance(v, int) else '' if v is None else v) for k, v in t.items()}
            if any(has_holes(v) for v in t.values()):
                self.unsupported('translate')
            if any(chr(k) in v for k in t for v in t.values()):
                return lit_translate(s, t)
            for k, v in t.items():
                s = self.str_method(s, 'replace', [chr(k), v], {})
            return s
        return Top('str')

    def cut(self, s, sep):
        """Cut unknown texts containing the separator at its only place; texts containing it more than once are not considered."""
        if has_holes(sep):
            return s
        for ch in dict.fromkeys(H.holes_in(s)):
            if self.hole_pred(ch, 'contains', sep):
                if not self.cut_texts or not self.hole_pred(ch, 'once', sep):
                    raise Dead()
                s = s.replace(ch, hole_op(ch, 'splitpart', sep, 0, -1) + sep + hole_op(ch, 'splitpart', sep, 1, -1))
        return s

    def fuzzy_split(self, s):
        """Words of a text: the number is unknown."""
        return self.alloc('words', {'of': s})

    def m_words___len__(self, r, o):
        return Num(f'words({o.d["of"]})')

    def str_edge(self, s, name, p, rest):
        if rest:
            self.unsupported('startswith with position')
        if getattr(s, name)(p):
            return True
        if p == '':
            return True
        edge = s[0] if name == 'startswith' else s[-1]
        if not s or not H.is_hole(edge) or has_holes(p):
            # a literal part may decide it partly only if it is shorter than p
            lit = ''
            if s:
                m = HOLE_RE.search(s) if name == 'startswith' else None
            return False
        return self.hole_pred(edge, name, p)

    def str_format(self, s, args, kw):
        import string
        if has_holes(s):
            return Top('str')
        out = []
        auto = 0
        try:
            parts = list(string.Formatter().parse(s))
        except ValueError as e:
            self.throw(ValueError, str(e))
        for lit, field, spec, conv in parts:
            out.append(lit)
            if field is None:
                continue
            if field == '':
                field = str(auto)
                auto += 1
            m = re.fullmatch(r'([^.\[]*)(.*)', field)
            base = m.group(1)
            if base.isdigit():
                if int(base) >= len(args):
                    self.throw(IndexError, 'Replacement index out of range for positional args tuple')
                v = args[int(base)]
            else:
                if base not in kw:
                    self.throw(KeyError, base)
                v = kw[base]
            for a in re.findall(r'\.(\w+)', m.group(2)):
                v = self.getattr(v, a)
            out.append(self.fmt(v, spec or '') if conv != 'r' else self.repr_(v))
        return self.concat(out)

    # ------------------------------------------------------------------ regular expressions
    def re_attr(self, o, name):
        if isinstance(o, RegexV):
            if name == 'pattern':
                return o.a[0]
            if name == 'flags':
                return o.a[1]
        elif name == 'string':
            return o.a[2]
        return Meth(o, name)

    def re_compile(self, pat, flags=0):
        if isinstance(pat, RegexV):
            return pat
        if isinstance(pat, Top) or isinstance(flags, Top):
            self.unsupported('unknown pattern')
        if not isinstance(pat, str):
            self.throw(TypeError, 'first argument must be string or compiled pattern')
        try:
            re.compile(pat, flags)
        except re.error as e:
            self.throw(re.error, str(e))
        return RegexV(pat, int(flags))

    def host_re(self, rx):
        return re.compile(rx.a[0], rx.a[1])

    def re_method(self, o, name, args, kw):
        if isinstance(o, RegexV):
            return self.regex_call(o, name, list(args), dict(kw))
        m = self.host_match(o)
        if name in ('group', '__getitem__'):
            try:
                r = m.group(*args)
            except (IndexError, error_type) as e:
                self.throw(IndexError, str(e))
            return r
        if name == 'groups':
            return m.groups(*args)
        if name == 'groupdict':
            return self.new_dict(m.groupdict())
        if name in ('start', 'end'):
            return Pos(getattr(m, name)(*args))
        if name == 'span':
            a, b = m.span(*args)
            return (Pos(a), Pos(b))
        if name == 'expand':
            return m.expand(*args)
        self.unsupported(f'match.{name}')

    def host_match(self, o):
        pat, flags, s, start, how = o.a
        rx = re.compile(pat, flags)
        return getattr(rx, how)(s, start)

    def regex_call(self, rx, name, args, kw):
        h = self.host_re(rx)
        if name == 'sub' or name == 'subn':
            repl, s = args[0], args[1] if len(args) > 1 else kw.get('string')
            n = args[2] if len(args) > 2 else kw.get('count', 0)
            if isinstance(s, Top) or isinstance(repl, Top):
                return Top('str')
            if not isinstance(s, str):
                self.throw(TypeError, 'expected string or bytes-like object')
            if isinstance(repl, str):
                try:
                    out = h.sub(repl, s, n)
                except (re.error, IndexError) as e:
                    self.throw(re.error, str(e))
                if has_holes(s) and not has_holes(repl) and not has_holes(rx.a[0]):
                    out = map_holes_once(s, out, lambda c: hole_op(c, 'resub', rx.a[0], repl, rx.a[1], n))
                return out if name == 'sub' else (out, self.match_count(h, s, n))
            parts = []
            pos = 0
            for m in h.finditer(s):
                parts.append(s[pos:m.start()])
                r = self.call(repl, [MatchV(rx.a[0], rx.a[1], s, m.start(), 'search')], {})
                if not isinstance(r, (str, Top)):
                    self.throw(TypeError, 'expected str instance')
                parts.append(r)
                pos = m.end()
                if n and len(parts) // 2 >= n:
                    break
            parts.append(s[pos:])
            if has_holes(s) and not has_holes(rx.a[0]):
                for ch in H.holes_in(''.join(p for p in parts[0::2])):
                    if any(h.search(i) for _, i in H.images(ch) if i):
                        parts = [map_holes(p, lambda c: hole_op(c, 'opaque')) if isinstance(p, str) else p for p in parts]
                        break
            r = self.concat(parts)
            return r if name == 'sub' else (r, self.match_count(h, s, n))
        s = args[0] if args else kw.get('string')
        if isinstance(s, Top):
            self.note('regular expression on unknown text')
            return Top('match') if name in ('search', 'match', 'fullmatch') else Top('list')
        if not isinstance(s, str):
            self.throw(TypeError, 'expected string or bytes-like object')
        if name in ('search', 'match', 'fullmatch'):
            start = args[1] if len(args) > 1 else 0
            m = getattr(h, name)(s, start)
            if m is None:
                if has_holes(s) and len(s) == 1:
                    if self.hole_pred(s, name, rx.a[0], rx.a[1]):
                        return Top('match')
                return None
            return MatchV(rx.a[0], rx.a[1], s, int(start), name)
        if name == 'findall':
            return self.new_list([x for x in h.findall(s)])
        if name == 'finditer':
            return self.new_list([MatchV(rx.a[0], rx.a[1], s, m.start(), 'search') for m in h.finditer(s)])
        if name == 'split':
            return self.new_list(h.split(s, *args[1:], **kw))
        self.unsupported(f'regex.{name}')


def _match_count(self, h, s, n):
    """Number of substitutions: exact, if no unknown text can contain a match."""
    c = sum(1 for _ in h.finditer(s))
    if n and c >= n:
        return n
    for ch in H.holes_in(s):
        if any(h.search(i) for _, i in H.images(ch) if i):
            return Num(f'matches of {h.pattern!r} in {s!r}', c)
    return c


Ops.match_count = _match_count
error_type = re.error


def map_holes_once(s, out, f):
    """Transform the holes that came from s (a replacement text may contain others)."""
    src = set(H.holes_in(s))
    return HOLE_RE.sub(lambda m: f(m.group()) if m.group() in src else m.group(), out)
