"""Abstract interpreter for the Python subset used by the repository (and by plausible edits of it)."""
import ast
import builtins
import os
import sys

from .core import *
from .core import _Tup
from . import holes as H
from .holes import has_holes, new_hole

MAX_STATES = 64
OK_HOST = (type(None), bool, int, float, str, bytes, complex, type(Ellipsis))

BUILTIN_FUNCS = {'len', 'str', 'int', 'float', 'bool', 'list', 'dict', 'tuple', 'set', 'frozenset', 'isinstance',
                 'issubclass', 'range', 'enumerate', 'zip', 'map', 'filter', 'sorted', 'reversed', 'any', 'all', 'sum', 'min',
                 'max', 'print', 'open', 'getattr', 'setattr', 'hasattr', 'delattr', 'vars', 'type', 'super', 'iter', 'next',
                 'repr', 'abs', 'round', 'bytes', 'object', 'property', 'staticmethod', 'classmethod', 'callable', 'input',
                 'ord', 'chr', 'id', 'hash', 'divmod', 'slice', 'exit', 'quit', 'eval', 'exec', 'globals', 'locals', 'dir',
                 'format', 'bytearray', '__import__', 'compile', 'hex', 'bin', 'oct', 'pow', 'memoryview'}


KNOWN_BASES = ('abc.ABC', 'xml.sax.ContentHandler', 'xml.sax.handler.ContentHandler', 'builtins.object', 'typing.Protocol',
               'typing.Generic')
NO_DEFAULT = object()


class Frame:
    __slots__ = ('oid', 'fn', 'mod', 'chain', 'owner', 'info', 'ns', 'cls_name', 'cb')

    def __init__(self, oid, fn, mod, chain, owner, info, ns=None):
        self.oid, self.fn, self.mod, self.chain, self.owner, self.info, self.ns = oid, fn, mod, chain, owner, info, ns
        self.cb = None           # what consumes the values a generator yields


class FnInfo:
    __slots__ = ('locals', 'globals', 'nonlocals', 'is_gen', 'is_cm', 'cache')

    def __init__(self, node):
        self.locals, self.globals, self.nonlocals, self.is_gen, self.is_cm = set(), set(), set(), False, False
        self.cache = None
        a = node.args
        for x in a.posonlyargs + a.args + a.kwonlyargs:
            self.locals.add(x.arg)
        for x in (a.vararg, a.kwarg):
            if x:
                self.locals.add(x.arg)
        body = node.body if isinstance(node.body, list) else [node.body]
        stack = list(body)
        while stack:
            n = stack.pop()
            if isinstance(n, (ast.FunctionDef, ast.ClassDef, ast.AsyncFunctionDef)):
                self.locals.add(n.name)
                continue
            if isinstance(n, ast.Lambda):
                continue
            if isinstance(n, (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
                # own scope (except walrus)
                for m in ast.walk(n):
                    if isinstance(m, ast.NamedExpr):
                        self.locals.add(m.target.id)
                continue
            if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
                self.locals.add(n.id)
            elif isinstance(n, ast.ExceptHandler) and n.name:
                self.locals.add(n.name)
            elif isinstance(n, ast.Global):
                self.globals.update(n.names)
            elif isinstance(n, ast.Nonlocal):
                self.nonlocals.update(n.names)
            elif isinstance(n, (ast.Import, ast.ImportFrom)):
                for al in n.names:
                    self.locals.add((al.asname or al.name).split('.')[0])
            elif isinstance(n, (ast.Yield, ast.YieldFrom)):
                self.is_gen = True
            elif isinstance(n, (ast.MatchAs, ast.MatchStar)) and n.name:
                self.locals.add(n.name)
            stack.extend(ast.iter_child_nodes(n))
        self.locals -= self.globals | self.nonlocals


class Interp:
    """Evaluation of statements and expressions; library models are mixed in (models.py)."""

    def __init__(self, src='/repo/src', budget=3_000_000):
        self.src = src
        self.modules = {}
        self._escapes = {}
        self.next_oid = 1
        self.st = State()
        self.log, self.pos, self.pending = [], 0, []
        self.stack = []
        self.steps = 0
        self.budget = budget
        self.infos = {}
        self.notes = {}          # imprecision notes: text -> count
        self.covered = set()     # functions analysed
        self.fn_nodes = {}       # name -> (node, path)
        self.stmts = set()       # statements analysed
        self.forks = 0
        self.where = None
        self.hooks = {}          # ext name -> python function(self, args, kw)
        self.fault_sites = None  # None: no faults; else a callable deciding which operations may fail
        self.max_iter = 400
        self.callseq = 0
        self.trace_calls = None
        self.roots = []
        self.base_notes = {}     # reservations about the loaded classes
        self.keep = []

    # ------------------------------------------------------------------ notes
    def note(self, text):
        w = self.loc()
        k = f'{text} at {w}'
        self.notes[k] = self.notes.get(k, 0) + 1

    def loc(self):
        if self.where is None:
            return '?'
        mod, node = self.where
        return f'{mod.name}:{getattr(node, "lineno", 0)}'

    def unsupported(self, text):
        raise Unsupported(f'{text} at {self.loc()}')

    # ------------------------------------------------------------------ allocation and choice
    def alloc(self, kind, d, cls=None):
        if self.pos < len(self.log):
            e = self.log[self.pos]
            if e[0] != 'oid':
                raise Unsupported('replay mismatch')
            self.pos += 1
            oid = e[1]
        else:
            oid = self.next_oid
            self.next_oid += 1
            self.log.append(('oid', oid))
            self.pos += 1
        self.st.heap[oid] = Obj(kind, d, cls)
        self.st.own.add(oid)
        return Ref(oid)

    def choose(self, alts):
        """Follow all alternatives."""
        alts = list(alts)
        if len(alts) == 1:
            return alts[0]
        if not alts:
            raise Dead()
        if self.pos < len(self.log):
            e = self.log[self.pos]
            if e[0] != 'ch':
                raise Unsupported('replay mismatch')
            self.pos += 1
            return e[1]
        self.forks += 1
        pre = self.log[:self.pos]
        for a in alts[1:]:
            self.pending.append(pre + [('ch', a)])
        self.log.append(('ch', alts[0]))
        self.pos += 1
        return alts[0]

    def decide(self, key):
        """An unknown condition: both ways, consistently along a path."""
        if key in self.st.facts:
            return self.st.facts[key]
        v = self.choose([True, False])
        self.st.fact(key, v)
        return v

    def multi(self, st, f):
        """Run f in a copy of st for all choices: [(kind, value, state)]."""
        saved = self.st, self.log, self.pos, self.pending
        outs = []
        pending = [[]]
        n = 0
        try:
            while pending:
                n += 1
                if n > 300:
                    self.note('partitions dropped')
                    break
                self.log = pending.pop()
                self.pos = 0
                self.pending = pending
                self.st = st.fork()
                try:
                    v = f()
                    outs.append(('N', v, self.st))
                except PyRaise as e:
                    outs.append(('X', e.val, self.st))
                except Dead:
                    pass
        finally:
            self.st, self.log, self.pos, self.pending = saved
        return outs

    # ------------------------------------------------------------------ exceptions
    def throw(self, cls, *args):
        self.st.xloc = self.loc()
        raise PyRaise(ExcV(cls, tuple(args)))

    def exc_classes(self, v):
        """Class objects (host or interpreted) an exception value is an instance of."""
        if isinstance(v, ExcV):
            return [v.cls]
        if isinstance(v, Ref):
            return list(self.st.get(v).cls.mro)
        return []

    def exc_matches(self, v, t):
        if isinstance(t, tuple):
            r = [self.exc_matches(v, x) for x in t]
            return True if True in r else (None if None in r else False)
        if isinstance(v, Top) or isinstance(t, (Top, Ext)):
            return None
        for c in self.exc_classes(v):
            if c is t:
                return True
            if isinstance(c, type) and isinstance(t, type) and issubclass(c, t):
                return True
        return False

    # ------------------------------------------------------------------ modules
    def load(self, name):
        if name in self.modules:
            return self.modules[name]
        p = os.path.join(self.src, *name.split('.'))
        if os.path.isdir(p):
            f = os.path.join(p, '__init__.py')
        else:
            f = p + '.py'
        if not os.path.isfile(f):
            # simple stand-ins for libraries
            f = os.path.join(os.path.dirname(os.path.abspath(__file__)), 'stubs', name + '.py')
            if not os.path.isfile(f):
                return None
        with open(f, encoding='utf-8-sig') as fh:
            return self.load_source(name, f, fh.read())

    def load_source(self, name, f, source):
        """Load a module from its source text."""
        m = ModuleV(name, f)
        self.modules[name] = m
        m.tree = ast.parse(source, f)
        m.env['__name__'] = name
        m.env['__file__'] = f
        m.env['__doc__'] = ast.get_docstring(m.tree, clean=False)
        fr = Frame(None, None, m, (), None, None, m.env)
        outs = self.exec_block(m.tree.body, self.st, fr)
        good = [o for o in outs if o[0] == 'N']
        if not good:
            raise Unsupported(f'module {name} cannot be loaded: {outs and self.describe(outs[0][1], outs[0][2])}')
        self.st = good[0][2]
        m.done = True
        return m

    def import_name(self, name):
        m = self.load(name)
        if m is not None:
            return m
        return Ext(name)

    # ------------------------------------------------------------------ names
    def lookup(self, name, fr):
        if fr.ns is not None:
            if name in fr.ns:
                return self.pick_ns(fr.ns, name)
        else:
            info = fr.info
            if name not in info.globals:
                d = self.st.heap[fr.oid].d
                if name in d:
                    v = d[name]
                    if isinstance(v, U):
                        v = self.choose(v.alts)
                        self.st.w(Ref(fr.oid)).d[name] = v
                    return v
                if name in info.locals:
                    self.throw(UnboundLocalError, f"cannot access local variable '{name}'")
        for oid in fr.chain:
            d = self.st.heap[oid].d
            if name in d:
                v = d[name]
                if isinstance(v, U):
                    v = self.choose(v.alts)
                    self.st.w(Ref(oid)).d[name] = v
                return v
        if name in fr.mod.env:
            return fr.mod.env[name]
        if name in BUILTIN_FUNCS:
            return Ext('builtins.' + name)
        if name in ('True', 'False', 'None', 'NotImplemented', 'Ellipsis', '__debug__'):
            return getattr(builtins, name)
        b = getattr(builtins, name, None)
        if isinstance(b, type) and issubclass(b, BaseException):
            return b
        if b is not None:
            return Ext('builtins.' + name)
        self.throw(NameError, f"name '{name}' is not defined")

    def pick_ns(self, ns, name):
        return ns[name]

    def store_name(self, name, v, fr):
        if fr.ns is not None:
            fr.ns[name] = v
            return
        info = fr.info
        if name in info.globals:
            fr.mod.env[name] = v
            return
        if name in info.nonlocals:
            for oid in fr.chain:
                if name in self.st.heap[oid].d:
                    self.st.w(Ref(oid)).d[name] = v
                    return
        self.st.w(Ref(fr.oid)).d[name] = v

    # ------------------------------------------------------------------ blocks and statements
    def exec_block(self, stmts, st, fr):
        states = [st]
        outs = []
        for s in stmts:
            new = []
            for x in states:
                for o in self.exec_stmt(s, x, fr):
                    if o[0] == 'N':
                        new.append(o[2])
                    else:
                        outs.append(o)
            if not new:
                return outs
            states = self.merge_states(new) if len(new) > 1 else new
        outs.extend(('N', None, x) for x in states)
        return outs

    def merge_states(self, states, vals=None):
        """Merge states with the same heap up to renaming (facts are intersected)."""
        seen = {}
        order = []
        for i, s in enumerate(states):
            k = self.canon(s, [vals[i]] if vals else [])
            if k in seen:
                t = seen[k]
                if t.facts != s.facts:
                    t.facts = {a: b for a, b in t.facts.items() if s.facts.get(a, not b) == b}
            else:
                seen[k] = s
                order.append((s, vals[i] if vals else None))
        if len(order) > MAX_STATES:
            self.note('partitions dropped')
            order = order[:MAX_STATES]
        if vals is None:
            return [s for s, _ in order]
        return order

    def canon(self, st, extra=()):
        num = {}
        out = []
        work = []

        def val(v):
            if isinstance(v, Ref):
                n = num.get(v.oid)
                if n is None:
                    n = num[v.oid] = len(num)
                    work.append(v.oid)
                return ('r', n)
            if isinstance(v, tuple):
                return tuple(val(x) for x in v)
            if isinstance(v, _Tup):
                return (type(v).__name__,) + tuple(val(x) for x in v.a)
            if isinstance(v, Fn):
                return ('fn', id(v.node), tuple(val(Ref(o)) for o in v.closure))
            if isinstance(v, bool) or v is None:
                return v, 'c'
            if isinstance(v, U):
                return ('U', frozenset(val(x) for x in v.alts))
            if isinstance(v, (str, int, float, bytes, Top, Num, Class, ModuleV, type)):
                return v
            return ('h', repr(v))
        for v in self.roots:
            out.append(val(v))
        for oid in self.stack:
            out.append(val(Ref(oid)))
        for v in extra:
            out.append(val(v))
        out.append(st.cwd)
        out.append(tuple((k, val(v)) for k, v in sorted(st.fs.items())))
        out.append(tuple(val(e) for e in st.events))
        i = 0
        while i < len(work):
            o = st.heap.get(work[i])
            i += 1
            if o is None:
                out.append('gone')
                continue
            d = o.d
            if o.kind == 'elem':
                out.append(('e', val(d['tag']), val(d['text']), val(d['tail']),
                            tuple((k, val(v)) for k, v in d['attrib'].items()), tuple(val(x) for x in d['kids'])))
            elif isinstance(d, dict):
                out.append((o.kind, id(o.cls) if o.cls else 0, tuple((val(k), val(v)) for k, v in d.items())))
            elif isinstance(d, (list, tuple)):
                out.append((o.kind, tuple(val(x) for x in d)))
            else:
                out.append((o.kind, val(d)))
        return tuple(out)

    def exec_stmt(self, s, st, fr):
        self.steps += 1
        if self.steps > self.budget:
            raise Budget('step budget exhausted')
        self.where = (fr.mod, s)
        self.stmts.add(id(s))
        m = getattr(self, 'x_' + type(s).__name__, None)
        if m is None:
            self.unsupported(f'statement {type(s).__name__}')
        return m(s, st, fr)

    def simple(self, st, f):
        outs = self.multi(st, f)
        if len(outs) > 1:
            ns = [o for o in outs if o[0] == 'N']
            if len(ns) > 1:
                ms = self.merge_states([o[2] for o in ns])
                outs = [o for o in outs if o[0] != 'N'] + [('N', None, x) for x in ms]
        return outs

    def x_Expr(self, s, st, fr):
        if isinstance(s.value, ast.Constant):
            return [('N', None, st)]
        if isinstance(s.value, ast.Yield) and getattr(fr, 'cb', None) is not None:
            return self.yield_to(s.value.value, st, fr)
        if isinstance(s.value, ast.YieldFrom) and getattr(fr, 'cb', None) is not None:
            return self.loop(s.value.value, st, fr, lambda v, x: self.hand_over(fr.cb(v, x)))
        return self.simple(st, lambda: self.ev(s.value, fr))

    def x_Assign(self, s, st, fr):
        if isinstance(s.value, ast.Yield) and getattr(fr, 'cb', None) is not None:
            outs = []
            for k, v, x in self.yield_to(s.value.value, st, fr):
                if k == 'N':
                    outs.extend(self.simple(x, lambda: [self.assign(t, None, fr) for t in s.targets]))
                else:
                    outs.append((k, v, x))
            return outs

        def f():
            v = self.ev(s.value, fr)
            for t in s.targets:
                self.assign(t, v, fr)
        return self.simple(st, f)

    def x_AnnAssign(self, s, st, fr):
        if s.value is None:
            return [('N', None, st)]
        return self.simple(st, lambda: self.assign(s.target, self.ev(s.value, fr), fr))

    def x_AugAssign(self, s, st, fr):
        def f():
            t = s.target
            if isinstance(t, ast.Name):
                old = self.lookup(t.id, fr)
                new = self.aug(s.op, old, self.ev(s.value, fr))
                self.store_name(t.id, new, fr)
            elif isinstance(t, ast.Attribute):
                o = self.ev(t.value, fr)
                old = self.getattr(o, t.attr)
                self.setattr(o, t.attr, self.aug(s.op, old, self.ev(s.value, fr)))
            elif isinstance(t, ast.Subscript):
                o = self.ev(t.value, fr)
                i = self.ev_slice(t.slice, fr)
                old = self.getitem(o, i)
                self.setitem(o, i, self.aug(s.op, old, self.ev(s.value, fr)))
        return self.simple(st, f)

    def aug(self, op, old, v):
        if isinstance(old, Ref) and isinstance(op, ast.Add) and self.st.get(old).kind == 'list':
            for x in self.iterate(v):
                self.st.w(old).d.append(x)
            return old
        return self.binop(op, old, v)

    def x_Pass(self, s, st, fr):
        return [('N', None, st)]

    x_Nonlocal = x_Pass
    x_Global = x_Pass

    def x_Return(self, s, st, fr):
        if s.value is None:
            return [('R', None, st)]
        return [('R' if k == 'N' else k, v, x) for k, v, x in self.multi(st, lambda: self.ev(s.value, fr))]

    def x_Break(self, s, st, fr):
        return [('B', None, st)]

    def x_Continue(self, s, st, fr):
        return [('C', None, st)]

    def x_Delete(self, s, st, fr):
        def f():
            for t in s.targets:
                self.delete(t, fr)
        return self.simple(st, f)

    def delete(self, t, fr):
        if isinstance(t, ast.Name):
            if fr.ns is not None:
                fr.ns.pop(t.id, None)
            else:
                self.st.w(Ref(fr.oid)).d.pop(t.id, None)
        elif isinstance(t, ast.Subscript):
            self.delitem(self.ev(t.value, fr), self.ev_slice(t.slice, fr))
        elif isinstance(t, ast.Attribute):
            self.delattr(self.ev(t.value, fr), t.attr)
        elif isinstance(t, (ast.Tuple, ast.List)):
            for x in t.elts:
                self.delete(x, fr)

    def x_Assert(self, s, st, fr):
        def f():
            if not self.truth(self.ev(s.test, fr)):
                self.throw(AssertionError, *([] if s.msg is None else [self.ev(s.msg, fr)]))
        return self.simple(st, f)

    def x_Raise(self, s, st, fr):
        def f():
            if s.exc is None:
                v = self.current_exc(fr)
                if v is None:
                    self.throw(RuntimeError, 'No active exception to reraise')
                raise PyRaise(v)
            v = self.ev(s.exc, fr)
            if isinstance(v, (Class, type)):
                v = self.call(v, [], {})
            if s.cause is not None:
                self.ev(s.cause, fr)
            self.st.xloc = self.loc()
            raise PyRaise(v)
        return self.multi(st, f)

    def current_exc(self, fr):
        if fr.ns is not None:
            return fr.ns.get('%exc')
        d = self.st.heap[fr.oid].d
        return d.get('%exc')

    def x_Import(self, s, st, fr):
        def f():
            for a in s.names:
                m = self.import_name(a.name)
                if a.asname:
                    self.store_name(a.asname, m, fr)
                else:
                    top = a.name.split('.')[0]
                    self.store_name(top, self.import_name(top), fr)
        return self.simple_load(st, f)

    def simple_load(self, st, f):
        # loading modules happens in the given state
        saved = self.st, self.log, self.pos, self.pending
        self.st, self.log, self.pos, self.pending = st.fork(), [], 0, []
        try:
            f()
            return [('N', None, self.st)]
        except PyRaise as e:
            return [('X', e.val, self.st)]
        finally:
            self.st, self.log, self.pos, self.pending = saved

    def x_ImportFrom(self, s, st, fr):
        def f():
            base = s.module or ''
            if s.level:
                parts = fr.mod.name.split('.')
                if not fr.mod.path.endswith('__init__.py'):
                    parts = parts[:-1]
                parts = parts[:len(parts) - (s.level - 1)]
                base = '.'.join(parts + ([s.module] if s.module else []))
            m = self.import_name(base)
            for a in s.names:
                if a.name == '*':
                    if isinstance(m, ModuleV):
                        names = m.env.get('__all__')
                        if isinstance(names, Ref):
                            names = self.st.get(names).d
                        if names is None:
                            names = [n for n in m.env if not n.startswith('_')]
                        for n in names:
                            if n in m.env:
                                self.store_name(n, m.env[n], fr)
                    continue
                if isinstance(m, ModuleV):
                    if a.name in m.env:
                        v = m.env[a.name]
                    else:
                        v = self.load(f'{base}.{a.name}')
                        if v is None and m.is_stub:
                            v = Ext(f'{base}.{a.name}')
                        if v is None:
                            self.throw(ImportError, f"cannot import name '{a.name}'")
                else:
                    v = self.ext_attr(m, a.name)
                self.store_name(a.asname or a.name, v, fr)
        return self.simple_load(st, f)

    def x_If(self, s, st, fr):
        outs = []
        ts, fs = [], []
        for k, v, x in self.multi(st, lambda: self.truth(self.ev(s.test, fr))):
            if k != 'N':
                outs.append((k, v, x))
            elif v:
                ts.append(x)
            else:
                fs.append(x)
        n = len(ts) + len(fs)
        if len(ts) > 1:
            ts = self.merge_states(ts)
        if len(fs) > 1:
            fs = self.merge_states(fs)
        for x in ts:
            outs.extend(self.exec_block(s.body, x, fr))
        for x in fs:
            if s.orelse:
                outs.extend(self.exec_block(s.orelse, x, fr))
            else:
                outs.append(('N', None, x))
        return self.dedupe(outs) if n > 1 else outs

    def dedupe(self, outs):
        ns = [o[2] for o in outs if o[0] == 'N']
        if len(ns) > 1:
            ns = self.merge_states(ns)
            outs = [o for o in outs if o[0] != 'N'] + [('N', None, x) for x in ns]
        return outs

    def x_For(self, s, st, fr):
        def each(v, x):
            outs = []
            for k, r, y in self.multi(x, lambda: self.assign(s.target, v, fr)):
                if k == 'X':
                    outs.append((k, r, y))
                else:
                    outs.extend(self.exec_block(s.body, y, fr))
            return outs
        return self.dedupe(self.loop(s.iter, st, fr, each, s.orelse))

    def loop(self, source, st, fr, each, orelse=None):
        """Loop over what the expression yields; each(value, state) gives the outcomes of one round."""
        outs = []
        if isinstance(source, ast.GeneratorExp):
            return self.loop_genexp(source, st, fr, each, orelse)

        def start():
            v = self.ev(source, fr)
            if isinstance(source, ast.Call) and isinstance(v, Ref) and self.st.get(v).kind == 'gen':
                return ('gen', v)
            return self.iter_source(v)
        for k, it, x in self.multi(st, start):
            if k != 'N':
                outs.append((k, it, x))
            elif it[0] == 'gen':
                outs.extend(self.finish_loop(self.run_gen(it[1], x, lambda v, y: self.hand_over(each(v, y))), fr, orelse))
            else:
                outs.extend(self.run_for(it, x, fr, each, orelse))
        return outs

    def hand_over(self, outs):
        """Outcomes of the consumer, as seen by the generator: it goes on or it is closed."""
        return [('N', None, x) if k in 'NC' else (k, v, x) if k == 'G' else ('G', (k, v), x) for k, v, x in outs]

    def finish_loop(self, outs, fr, orelse):
        res = []
        for k, v, x in outs:
            if k == 'G' and v[0] == 'B':
                res.append(('N', None, x))
            elif k == 'G':
                res.append((v[0], v[1], x))
            elif k in 'NR':
                if orelse:
                    res.extend(self.exec_block(orelse, x, fr))
                else:
                    res.append(('N', None, x))
            else:
                res.append((k, v, x))
        return res

    def yield_to(self, node, st, fr):
        outs = []
        for k, v, x in self.multi(st, lambda: None if node is None else self.ev(node, fr)):
            if k == 'N':
                outs.extend(fr.cb(v, x))
            else:
                outs.append((k, v, x))
        return self.dedupe(outs)

    def run_gen(self, g, st, cb):
        """Outcomes of the body of a generator; cb(value, state) is executed at each yield."""
        st = st.fork()
        st.own = set() if st.own is None else st.own
        o = st.heap[g.oid]
        fn, ref = o.d['fn'], o.d['frame']
        w = st.w(g)
        w.kind, w.d = 'iter', {'items': (), 'pos': 0, 'frame': ref}
        fr = Frame(ref.oid, fn, fn.mod, fn.closure, fn.owner, fn.info)
        fr.cb = cb
        self.stack.append(ref.oid)
        try:
            return self.exec_block(fn.node.body, st, fr)
        finally:
            self.stack.pop()

    def force(self, g):
        """Run a generator to its end: its values."""
        if self.pos < len(self.log):
            e = self.log[self.pos]
            if e[0] != 'gen':
                raise Unsupported('replay mismatch')
            self.pos += 1
        else:
            saved = self.st, self.log, self.pos, self.pending, self.where
            st = self.st.fork()
            ref = st.heap[g.oid].d['frame']

            def keep(v, x):
                x = x.fork()
                x.own = set() if x.own is None else x.own
                d = x.w(ref).d
                d['%yield'] = d['%yield'] + (v,)
                return [('N', None, x)]
            self.log, self.pos, self.pending = [], 0, []
            try:
                outs = [(k, v, x) for k, v, x in self.run_gen(g, st, keep)]
            finally:
                self.st, self.log, self.pos, self.pending, self.where = saved
            if not outs:
                raise Dead()
            pre = self.log[:self.pos]
            for o in outs[1:]:
                self.pending.append(pre + [('gen', o)])
            e = ('gen', outs[0])
            self.log.append(e)
            self.pos += 1
        kind, val, x = e[1]
        self.st = x.fork()
        if kind == 'X':
            raise PyRaise(val)
        w = self.st.w(g)
        w.d = {'items': self.st.heap[w.d['frame'].oid].d['%yield'], 'pos': 0}

    def loop_genexp(self, n, st, fr, each, orelse):
        names = {m.id for g in n.generators for m in ast.walk(g.target) if isinstance(m, ast.Name)}
        info = FnInfo.__new__(FnInfo)
        info.locals, info.globals, info.nonlocals, info.is_gen, info.is_cm = names, set(), set(), False, False
        st = st.fork()
        saved = self.st, self.log, self.pos, self.pending
        self.st, self.log, self.pos, self.pending = st, [], 0, []
        ref = self.alloc('frame', {})
        self.st, self.log, self.pos, self.pending = saved
        chain = fr.chain if fr.ns is not None else (fr.oid,) + tuple(fr.chain)
        f = CompFrame(ref.oid, fr.fn, fr.mod, chain, fr.owner, info)
        f.outer = fr
        last = len(n.generators) - 1

        def clause(i):
            g = n.generators[i]

            def body(v, x):
                outs = []

                def test():
                    self.assign(g.target, v, f)
                    return all(self.truth(self.ev(c, f)) for c in g.ifs)
                for k, r, y in self.multi(x, test):
                    if k != 'N':
                        outs.append((k, r, y))
                    elif not r:
                        outs.append(('N', None, y))
                    elif i < last:
                        outs.extend(self.loop(n.generators[i + 1].iter, y, f, clause(i + 1)))
                    else:
                        for k2, r2, z in self.multi(y, lambda: self.ev(n.elt, f)):
                            if k2 != 'N':
                                outs.append((k2, r2, z))
                            else:
                                outs.extend(self.hand_over(each(r2, z)))
                return outs
            return body
        self.stack.append(ref.oid)
        try:
            outs = self.loop(n.generators[0].iter, st, fr, clause(0))
        finally:
            self.stack.pop()
        return self.finish_loop(outs, fr, orelse)

    def run_for(self, it, st, fr, each, orelse=None):
        outs = []
        states = [st]
        i = 0
        done = []
        broke = []
        while states:
            new = []
            for x in states:
                nx = self.multi(x, lambda: self.iter_step(it, i))
                for k, v, y in nx:
                    if k == 'X':
                        outs.append((k, v, y))
                        continue
                    if v is None:
                        done.append(y)
                        continue
                    for o in each(v[0], y):
                        if o[0] in 'NC':
                            new.append(o[2])
                        elif o[0] == 'B':
                            broke.append(o[2])
                        else:
                            outs.append(o)
            i += 1
            if i > 20 * self.max_iter:
                self.note('loop bound')
                break
            states = self.merge_states(new) if len(new) > 1 else new
        for x in done:
            if orelse:
                outs.extend(self.exec_block(orelse, x, fr))
            else:
                outs.append(('N', None, x))
        outs.extend(('N', None, x) for x in broke)
        return outs

    def x_While(self, s, st, fr):
        outs = []
        states = [st]
        i = 0
        while states:
            new = []
            for x in states:
                for k, v, y in self.multi(x, lambda: self.truth(self.ev(s.test, fr))):
                    if k != 'N':
                        outs.append((k, v, y))
                    elif v:
                        for o in self.exec_block(s.body, y, fr):
                            if o[0] in 'NC':
                                new.append(o[2])
                            elif o[0] == 'B':
                                outs.append(('N', None, o[2]))
                            else:
                                outs.append(o)
                    elif s.orelse:
                        outs.extend(self.exec_block(s.orelse, y, fr))
                    else:
                        outs.append(('N', None, y))
            i += 1
            if i > self.max_iter:
                self.note('loop bound')
                break
            states = self.merge_states(new) if len(new) > 1 else new
        return self.dedupe(outs)

    def x_Try(self, s, st, fr):
        outs = []
        body = self.exec_block(s.body, st, fr)
        mid = []
        for o in body:
            if o[0] == 'N' and s.orelse:
                mid.extend(self.exec_block(s.orelse, o[2], fr))
            elif o[0] == 'X' and s.handlers:
                mid.extend(self.handle(s, o[1], o[2], fr))
            else:
                mid.append(o)
        if not s.finalbody:
            return self.dedupe(mid)
        mid = self.dedupe(mid)
        for k, v, x in mid:
            for o in self.exec_block(s.finalbody, x, fr):
                if o[0] == 'N':
                    outs.append((k, v, o[2]))
                else:
                    outs.append(o)
        return outs

    x_TryStar = x_Try

    def handle(self, s, exc, st, fr):
        outs = []
        states = [st]
        for h in s.handlers:
            rest = []
            for x in states:
                def test():
                    if h.type is None:
                        return True
                    m = self.exc_matches(exc, self.ev_exc_type(h.type, fr))
                    if m is None:
                        m = self.decide(('exc', repr(exc), id(h)))
                    return m
                for k, v, y in self.multi(x, test):
                    if k == 'X':
                        outs.append((k, v, y))
                    elif v:
                        outs.extend(self.run_handler(h, exc, y, fr))
                    else:
                        rest.append(y)
            states = rest
            if not states:
                break
        outs.extend(('X', exc, x) for x in states)
        return outs

    def ev_exc_type(self, node, fr):
        v = self.ev(node, fr)
        return v

    def run_handler(self, h, exc, st, fr):
        st = st.fork()
        saved = self.st
        self.st = st
        prev = self.current_exc(fr)
        if fr.ns is not None:
            fr.ns['%exc'] = exc
        else:
            st.w(Ref(fr.oid)).d['%exc'] = exc
        if h.name:
            self.store_name(h.name, exc, fr)
        self.st = saved
        outs = self.exec_block(h.body, st, fr)
        for o in outs:
            if fr.ns is not None:
                fr.ns['%exc'] = prev
                if h.name:
                    fr.ns.pop(h.name, None)
            else:
                o[2].own = set() if o[2].own is None else o[2].own
                d = o[2].w(Ref(fr.oid)).d
                if prev is None:
                    d.pop('%exc', None)
                else:
                    d['%exc'] = prev
                if h.name:
                    d.pop(h.name, None)
        return outs

    def x_With(self, s, st, fr, i=0):
        if i == len(s.items):
            return self.exec_block(s.body, st, fr)
        item = s.items[i]

        def enter():
            c = self.ev(item.context_expr, fr)
            if isinstance(c, Ref) and self.st.get(c).kind == 'cm':
                return c
            v = self.ctx_enter(c)
            if item.optional_vars is not None:
                self.assign(item.optional_vars, v, fr)
            return c
        outs = []
        for k, c, x in self.multi(st, enter):
            if k != 'N':
                outs.append((k, c, x))
                continue
            if isinstance(c, Ref) and x.heap[c.oid].kind == 'cm':
                def inner(v, y):
                    res = []
                    for k2, v2, z in self.multi(y, lambda: item.optional_vars is not None and self.assign(item.optional_vars, v, fr)):
                        res.extend([(k2, v2, z)] if k2 == 'X' else self.x_With(s, z, fr, i + 1))
                    return [(k2, v2, z) if k2 in 'NXG' else ('N', None, self.leave(z, gf, (k2, v2))) for k2, v2, z in res]
                gf = x.heap[x.heap[c.oid].d['gen'].oid].d['frame']
                for k2, v2, y in self.run_gen(x.heap[c.oid].d['gen'], x, inner):
                    if k2 in 'NR':
                        k2, v2 = y.heap[gf.oid].d.get('%leave', ('N', None))
                    outs.append((k2, v2, y))
                continue
            for k2, v2, y in self.x_With(s, x, fr, i + 1):
                exc = v2 if k2 == 'X' else None
                for k3, v3, z in self.multi(y, lambda: self.ctx_exit(c, exc)):
                    if k3 == 'X':
                        outs.append((k3, v3, z))
                    elif k2 == 'X' and v3:
                        outs.append(('N', None, z))
                    else:
                        outs.append((k2, v2, z))
        return outs

    def leave(self, st, frame, how):
        """The body of a with statement is left by a jump: the manager goes on first."""
        st = st.fork()
        st.own = set() if st.own is None else st.own
        st.w(frame).d['%leave'] = how
        return st

    def ctx_enter(self, c):
        if isinstance(c, Ref):
            o = self.st.get(c)
            if o.kind == 'inst':
                if o.cls.lookup('__enter__')[1] is not None:
                    return self.call(self.getattr(c, '__enter__'), [], {})
            return self.native_enter(c)
        if isinstance(c, Top):
            return Top('with')
        self.throw(TypeError, 'not a context manager')

    def ctx_exit(self, c, exc):
        if isinstance(c, Ref):
            o = self.st.get(c)
            if o.kind == 'inst' and o.cls.lookup('__exit__')[1] is not None:
                a = [None, None, None] if exc is None else [self.type_of(exc), exc, None]
                return self.truth(self.call(self.getattr(c, '__exit__'), a, {}))
            return self.native_exit(c, exc)
        return False

    def x_FunctionDef(self, s, st, fr):
        def f():
            fn = self.make_fn(s, fr)
            v = fn
            for d in reversed(s.decorator_list):
                v = self.decorate(self.ev_decorator(d, fr), v, s)
            self.store_name(s.name, v, fr)
        return self.simple(st, f)

    def ev_decorator(self, d, fr):
        if isinstance(d, ast.Attribute) and isinstance(d.value, ast.Name) and d.attr in ('setter', 'deleter', 'getter'):
            base = self.lookup(d.value.id, fr)
            if isinstance(base, Prop):
                return ('prop', d.attr, base)
        return self.ev(d, fr)

    def decorate(self, dec, v, s):
        if isinstance(dec, tuple) and dec[0] == 'prop':
            g, st_, dl = dec[2].a
            return Prop(v if dec[1] == 'getter' else g, v if dec[1] == 'setter' else st_, v if dec[1] == 'deleter' else dl)
        if isinstance(dec, Partial) and isinstance(dec.a[0], Ext) and dec.a[0].name in ('functools.wraps', 'functools.lru_cache'):
            dec = dec.a[0]
            if dec.name == 'functools.wraps':
                return v
        if isinstance(dec, Ext):
            n = dec.name
            if n == 'builtins.property':
                return Prop(v, None, None)
            if n == 'builtins.staticmethod':
                return StaticM(v)
            if n == 'builtins.classmethod':
                return ClassM(v)
            if n in ('abc.abstractmethod', 'typing.override', 'typing.final', 'typing.no_type_check',
                     'contextlib.contextmanager'):
                if n == 'contextlib.contextmanager':
                    v.info.is_cm = True
                return v
            if n in ('functools.cache', 'functools.lru_cache'):
                if not isinstance(v, Fn):
                    self.unsupported('cache')
                v.info.cache = self.alloc('dict', {})
                return v
            if n == 'functools.cached_property':
                return Prop(v, 'cached', None)
        return self.call(dec, [v], {})

    def make_fn(self, node, fr):
        info = self.infos.get(id(node))
        if info is None:
            info = self.infos[id(node)] = FnInfo(node)
        a = node.args
        defaults = tuple(self.ev(x, fr) for x in a.defaults)
        kwd = {}
        for x, d in zip(a.kwonlyargs, a.kw_defaults):
            if d is not None:
                kwd[x.arg] = self.ev(d, fr)
        if fr.ns is not None and not isinstance(fr.ns, dict):
            raise AssertionError
        chain = fr.chain if fr.ns is not None else (fr.oid,) + tuple(fr.chain)
        owner = fr.owner if fr.ns is None else None
        return Fn(node, fr.mod, chain, owner, defaults, kwd, getattr(node, 'name', '<lambda>'), info)

    def x_ClassDef(self, s, st, fr):
        def f():
            bases = []
            for b in s.bases:
                v = self.ev(b, fr)
                bases.append(v)
            bases = [b for b in bases if not (isinstance(b, Ext) and b.name == 'builtins.object')]
            ns = {}
            cfr = Frame(None, None, fr.mod, fr.chain if fr.ns is not None else (fr.oid,) + tuple(fr.chain), None, None, ns)
            outs = self.exec_block(s.body, self.st, cfr)
            good = [o for o in outs if o[0] == 'N']
            if not good:
                if outs:
                    raise PyRaise(outs[0][1])
                raise Dead()
            self.st = good[0][2]
            record = [b for b in bases if isinstance(b, Ext) and b.name in ('typing.NamedTuple', 'NamedTuple')]
            bases = [b for b in bases if b not in record]
            for b in bases:
                if isinstance(b, Ext) and b.name not in KNOWN_BASES and not b.name.startswith('tkinter'):
                    self.base_notes[f'subclass of unmodelled {b.name} at {fr.mod.name}:{s.lineno}'] = 1
            c = Class(s.name, bases, ns, fr.mod.name, s)
            if record:
                self.make_record(c, self.fields_of(s, ns), fr)
            for k, v in list(ns.items()):
                self.set_owner(v, c)
            v = c
            for d in reversed(s.decorator_list):
                dv = self.ev(d, fr)
                if isinstance(dv, Ext) and dv.name == 'dataclasses.dataclass':
                    self.make_dataclass(c, s, fr)
                    continue
                if isinstance(dv, Ext) and dv.name in ('functools.total_ordering', 'typing.final'):
                    continue
                v = self.call(dv, [v], {})
            self.store_name(s.name, v, fr)
        saved = self.st, self.log, self.pos, self.pending
        self.st, self.log, self.pos, self.pending = st.fork(), [], 0, []
        try:
            f()
            return [('N', None, self.st)]
        except PyRaise as e:
            return [('X', e.val, self.st)]
        finally:
            self.st, self.log, self.pos, self.pending = saved

    def fields_of(self, s, ns):
        return [(n.target.id, ns.get(n.target.id, NO_DEFAULT) if n.value is not None else NO_DEFAULT) for n in s.body
                if isinstance(n, ast.AnnAssign) and isinstance(n.target, ast.Name)
                and 'ClassVar' not in ast.unparse(n.annotation)]

    def add_method(self, c, source, fr, defaults=(), kw=None):
        node = ast.parse(source).body[0]
        for n in ast.walk(node):
            if hasattr(n, 'lineno'):
                n.lineno = c.node.lineno if getattr(c, 'node', None) is not None else 1
        info = self.infos[id(node)] = FnInfo(node)
        self.keep.append(node)
        c.ns[node.name] = Fn(node, fr.mod, (), c, tuple(defaults), kw or {}, node.name, info)

    def make_dataclass(self, c, s, fr):
        fields = {}
        for b in reversed(c.mro):
            if isinstance(b, Class):
                for n, d in (self.fields_of(s, c.ns) if b is c else b.ns.get('%fields', ())):
                    fields[n] = d
        c.ns['%fields'] = tuple(fields.items())
        pos, kw, body, defaults = ['self'], [], [], []
        factories = {}
        for n, d in fields.items():
            if isinstance(d, Ref) and self.st.get(d).kind == 'dcfield':
                o = self.st.get(d).d
                if 'default_factory' in o:
                    pos.append(f'{n}=None')
                    defaults.append(None)
                    kw.append(f'f_{n}=None')
                    factories[f'f_{n}'] = o['default_factory']
                    body.append(f'self.{n} = f_{n}() if {n} is None else {n}')
                    c.ns.pop(n, None)
                    continue
                d = o.get('default', NO_DEFAULT)
                c.ns[n] = d
            if d is NO_DEFAULT:
                pos.append(n)
                c.ns.pop(n, None)
            else:
                pos.append(f'{n}=None')
                defaults.append(d)
            body.append(f'self.{n} = {n}')
        if '__post_init__' in c.ns or any(isinstance(b, Class) and '__post_init__' in b.ns for b in c.mro):
            body.append('self.__post_init__()')
        if '__init__' not in c.ns:
            sig = ', '.join(pos + (['*'] + kw if kw else []))
            self.add_method(c, f'def __init__({sig}):\n    ' + '\n    '.join(body or ['pass']), fr, defaults, factories)
        tup = lambda x: '(' + ''.join(f'{x}.{n}, ' for n in fields) + ')'
        if '__eq__' not in c.ns:
            self.add_method(c, f'def __eq__(self, other):\n    return self.__class__ is other.__class__ and {tup("self")} == {tup("other")}', fr)

    def make_record(self, c, fields, fr):
        """The methods of a named tuple."""
        names = [n for n, d in fields]
        defaults = [d for n, d in fields if d is not NO_DEFAULT]
        for n in names:
            c.ns.pop(n, None)
        tup = '(' + ''.join(f'self.{n}, ' for n in names) + ')'
        self.add_method(c, 'def __init__(self' + ''.join(f', {n}' + ('' if d is NO_DEFAULT else '=None') for n, d in fields) + '):\n    '
                        + ('\n    '.join(f'self.{n} = {n}' for n in names) or 'pass'), fr, defaults)
        self.add_method(c, f'def __iter__(self):\n    return iter({tup})', fr)
        self.add_method(c, f'def __getitem__(self, i):\n    return {tup}[i]', fr)
        self.add_method(c, f'def __len__(self):\n    return {len(names)}', fr)
        self.add_method(c, f'def __eq__(self, other):\n    return {tup} == tuple(other)', fr)
        self.add_method(c, 'def _asdict(self):\n    return {' + ', '.join(f'{n!r}: self.{n}' for n in names) + '}', fr)
        self.add_method(c, 'def _replace(self, **kw):\n    return self.__class__(**{**self._asdict(), **kw})', fr)
        c.ns['_fields'] = tuple(names)

    def set_owner(self, v, c):
        if isinstance(v, Fn):
            if v.owner is None:
                v.owner = c
        elif isinstance(v, (Prop, StaticM, ClassM)):
            for x in v.a:
                self.set_owner(x, c)

    def x_Match(self, s, st, fr):
        outs = []
        for k, v, x in self.multi(st, lambda: self.ev(s.subject, fr)):
            if k != 'N':
                outs.append((k, v, x))
                continue
            states = [x]
            for c in s.cases:
                rest = []
                for y in states:
                    def test():
                        if not self.match_pat(c.pattern, v, fr):
                            return False
                        return c.guard is None or self.truth(self.ev(c.guard, fr))
                    for k2, r, z in self.multi(y, test):
                        if k2 == 'X':
                            outs.append((k2, r, z))
                        elif r:
                            outs.extend(self.exec_block(c.body, z, fr))
                        else:
                            rest.append(z)
                states = rest
            outs.extend(('N', None, y) for y in states)
        return self.dedupe(outs)

    def match_pat(self, p, v, fr):
        if isinstance(p, ast.MatchValue):
            return self.truth(self.equal(v, self.ev(p.value, fr)))
        if isinstance(p, ast.MatchSingleton):
            return self.truth(self.is_same(v, p.value))
        if isinstance(p, ast.MatchAs):
            if p.pattern is not None and not self.match_pat(p.pattern, v, fr):
                return False
            if p.name:
                self.store_name(p.name, v, fr)
            return True
        if isinstance(p, ast.MatchOr):
            return any(self.match_pat(q, v, fr) for q in p.patterns)
        if isinstance(p, ast.MatchMapping):
            if not (isinstance(v, Ref) and self.st.get(v).kind == 'dict'):
                return False
            for k, q in zip(p.keys, p.patterns):
                kk = self.ev(k, fr)
                if not self.truth(self.contains(v, kk)) or not self.match_pat(q, self.getitem(v, kk), fr):
                    return False
            if p.rest:
                self.unsupported('rest of a mapping pattern')
            return True
        if isinstance(p, ast.MatchClass):
            c = self.ev(p.cls, fr)
            if not self.truth(self.call_ext('builtins.isinstance', [v, c], {})):
                return False
            if p.patterns:
                if not (isinstance(c, Ext) and len(p.patterns) == 1):
                    self.unsupported('class pattern')
                if not self.match_pat(p.patterns[0], v, fr):
                    return False
            for a, q in zip(p.kwd_attrs, p.kwd_patterns):
                if not self.truth(self.call_ext('builtins.hasattr', [v, a], {})) or not self.match_pat(q, self.getattr(v, a), fr):
                    return False
            return True
        if isinstance(p, ast.MatchSequence):
            if isinstance(v, Top):
                self.unsupported('pattern for an unknown value')
            if not isinstance(v, tuple) and not (isinstance(v, Ref) and self.st.get(v).kind == 'list'):
                return False
            items = self.iterate(v)
            star = [i for i, q in enumerate(p.patterns) if isinstance(q, ast.MatchStar)]
            if star:
                i = star[0]
                after = len(p.patterns) - i - 1
                if len(items) < len(p.patterns) - 1:
                    return False
                if not all(self.match_pat(q, x, fr) for q, x in zip(p.patterns[:i], items)):
                    return False
                if after and not all(self.match_pat(q, x, fr) for q, x in zip(p.patterns[i + 1:], items[-after:])):
                    return False
                if p.patterns[i].name:
                    self.store_name(p.patterns[i].name, self.new_list(items[i:len(items) - after]), fr)
                return True
            return len(items) == len(p.patterns) and all(self.match_pat(q, x, fr) for q, x in zip(p.patterns, items))
        self.unsupported('match pattern')

    # ------------------------------------------------------------------ assignment
    def assign(self, t, v, fr):
        if isinstance(t, ast.Name):
            self.store_name(t.id, v, fr)
        elif isinstance(t, ast.Attribute):
            self.setattr(self.ev(t.value, fr), t.attr, v)
        elif isinstance(t, ast.Subscript):
            o = self.ev(t.value, fr)
            self.setitem(o, self.ev_slice(t.slice, fr), v)
        elif isinstance(t, (ast.Tuple, ast.List)):
            if isinstance(v, Top):
                for x in t.elts:
                    self.assign(x.value if isinstance(x, ast.Starred) else x, Top(v.label), fr)
                return
            items = self.iterate(v)
            star = [i for i, x in enumerate(t.elts) if isinstance(x, ast.Starred)]
            if star:
                i = star[0]
                after = len(t.elts) - i - 1
                if len(items) < i + after:
                    self.throw(ValueError, 'not enough values to unpack')
                for x, y in zip(t.elts[:i], items[:i]):
                    self.assign(x, y, fr)
                self.assign(t.elts[i].value, self.new_list(items[i:len(items) - after]), fr)
                for x, y in zip(t.elts[i + 1:], items[len(items) - after:]):
                    self.assign(x, y, fr)
                return
            if len(items) != len(t.elts):
                self.throw(ValueError, 'unpack')
            for x, y in zip(t.elts, items):
                self.assign(x, y, fr)
        elif isinstance(t, ast.Starred):
            self.assign(t.value, v, fr)
        else:
            self.unsupported(f'target {type(t).__name__}')

    def new_list(self, items):
        return self.alloc('list', list(items))

    def new_dict(self, d):
        return self.alloc('dict', dict(d))

    # ------------------------------------------------------------------ expressions
    def ev(self, n, fr):
        m = getattr(self, 'e_' + type(n).__name__, None)
        if m is None:
            self.unsupported(f'expression {type(n).__name__}')
        return m(n, fr)

    def e_Constant(self, n, fr):
        if isinstance(n.value, bytes):
            # Binary data of the files are represented by their texts.
            try:
                return n.value.decode('utf-8')
            except UnicodeDecodeError:
                pass
        return n.value

    def e_Name(self, n, fr):
        return self.lookup(n.id, fr)

    def e_Attribute(self, n, fr):
        return self.getattr(self.ev(n.value, fr), n.attr)

    def e_Subscript(self, n, fr):
        o = self.ev(n.value, fr)
        return self.getitem(o, self.ev_slice(n.slice, fr))

    def ev_slice(self, s, fr):
        if isinstance(s, ast.Slice):
            f = lambda x: None if x is None else self.ev(x, fr)
            return slice(f(s.lower), f(s.upper), f(s.step))
        return self.ev(s, fr)

    def e_Slice(self, s, fr):
        return self.ev_slice(s, fr)

    def e_Tuple(self, n, fr):
        return tuple(self.ev_elts(n.elts, fr))

    def e_List(self, n, fr):
        return self.new_list(self.ev_elts(n.elts, fr))

    def e_Set(self, n, fr):
        return self.alloc('set', {self.key(x): None for x in self.ev_elts(n.elts, fr)})

    def ev_elts(self, elts, fr):
        out = []
        for x in elts:
            if isinstance(x, ast.Starred):
                out.extend(self.iterate(self.ev(x.value, fr)))
            else:
                out.append(self.ev(x, fr))
        return out

    def e_Dict(self, n, fr):
        d = {}
        for k, v in zip(n.keys, n.values):
            if k is None:
                o = self.ev(v, fr)
                d.update(self.as_dict(o))
            else:
                kk = self.key(self.ev(k, fr))
                d[kk] = self.ev(v, fr)
        return self.alloc('dict', d)

    def as_dict(self, o):
        if isinstance(o, Ref):
            ob = self.st.get(o)
            if ob.kind == 'dict':
                return dict(ob.d)
            if ob.kind == 'vars':
                return self.vars_of(ob)
            if ob.kind == 'inst' and 'dict' in [getattr(b, 'name', '') for b in ob.cls.ext_bases()]:
                pass
        self.unsupported('mapping')

    def key(self, k):
        if isinstance(k, (Top, U)):
            self.unsupported('unknown dictionary key')
        if isinstance(k, Ref) and self.st.get(k).kind in ('list', 'dict', 'set'):
            self.throw(TypeError, 'unhashable type')
        return k

    def e_JoinedStr(self, n, fr):
        out = []
        for v in n.values:
            if isinstance(v, ast.Constant):
                out.append(v.value)
            else:
                x = self.ev(v.value, fr)
                if v.conversion == ord('r') or v.conversion == ord('a'):
                    x = self.repr_(x)
                elif v.conversion == ord('s'):
                    x = self.to_str(x)
                spec = '' if v.format_spec is None else self.ev(v.format_spec, fr)
                out.append(self.fmt(x, spec))
        return self.concat(out)

    def concat(self, parts):
        if any(isinstance(p, Top) for p in parts):
            return Top('str')
        return ''.join(parts)

    def fmt(self, x, spec):
        if not spec:
            return self.to_str(x)
        if isinstance(x, (str, int, float)) and not isinstance(x, Pos) and not (isinstance(x, str) and has_holes(x)):
            try:
                return format(x, spec)
            except ValueError as e:
                self.throw(ValueError, str(e))
        if isinstance(x, Num):
            return new_hole(f'fmt({x.label},{spec})', 'num')
        s = self.to_str(x)
        return s

    def e_FormattedValue(self, n, fr):
        return self.fmt(self.ev(n.value, fr), '')

    def e_BoolOp(self, n, fr):
        is_and = isinstance(n.op, ast.And)
        v = None
        for x in n.values:
            v = self.ev(x, fr)
            if x is n.values[-1]:
                return v
            t = self.truth(v)
            if is_and and not t:
                return v if not isinstance(v, Top) else self.falsy(v)
            if not is_and and t:
                return v
        return v

    def falsy(self, v):
        return False if isinstance(v, Top) and v.label.startswith('bool') else v

    def e_UnaryOp(self, n, fr):
        v = self.ev(n.operand, fr)
        if isinstance(n.op, ast.Not):
            return not self.truth(v)
        if isinstance(v, Top):
            return v
        if isinstance(v, Num):
            return Num(f'-{v.label}')
        try:
            if isinstance(n.op, ast.USub):
                return -v
            if isinstance(n.op, ast.UAdd):
                return +v
            return ~v
        except TypeError as e:
            self.throw(TypeError, str(e))

    def e_IfExp(self, n, fr):
        return self.ev(n.body if self.truth(self.ev(n.test, fr)) else n.orelse, fr)

    def e_NamedExpr(self, n, fr):
        v = self.ev(n.value, fr)
        self.store_name(n.target.id, v, fr)
        return v

    def e_Lambda(self, n, fr):
        return self.make_fn(n, fr)

    def e_Starred(self, n, fr):
        self.unsupported('starred')

    def e_Yield(self, n, fr):
        self.unsupported('yield within an expression')

    e_YieldFrom = e_Yield

    def lazy_call(self, n, fr):
        """any(), all() and next() of a generator expression stop early."""
        ifs = n.args[0]
        name = n.func.id
        found = []

        class Stop(Exception):
            pass

        def leaf(f):
            v = self.ev(ifs.elt, f)
            if name == 'next':
                found.append(v)
                raise Stop()
            if self.truth(v) is (name == 'any'):
                raise Stop()
        default = [self.ev(x, fr) for x in n.args[1:]]
        try:
            self.comp(ifs.generators, fr, leaf)
        except Stop:
            return found[0] if found else name == 'any'
        if name == 'next':
            if default:
                return default[0]
            self.throw(StopIteration)
        return name == 'all'

    def e_ListComp(self, n, fr):
        return self.new_list(self.comp(n.generators, fr, lambda f: self.ev(n.elt, f)))

    def e_GeneratorExp(self, n, fr):
        return self.alloc('iter', {'items': tuple(self.comp(n.generators, fr, lambda f: self.ev(n.elt, f))), 'pos': 0})

    def e_SetComp(self, n, fr):
        return self.alloc('set', {self.key(x): None for x in self.comp(n.generators, fr, lambda f: self.ev(n.elt, f))})

    def e_DictComp(self, n, fr):
        return self.alloc('dict', dict(self.comp(n.generators, fr,
                                                 lambda f: (self.key(self.ev(n.key, f)), self.ev(n.value, f)))))

    def comp(self, gens, fr, leaf):
        names = set()
        for g in gens:
            for m in ast.walk(g.target):
                if isinstance(m, ast.Name):
                    names.add(m.id)
        info = FnInfo.__new__(FnInfo)
        info.locals, info.globals, info.nonlocals, info.is_gen, info.is_cm = names, set(), set(), False, False
        # names assigned by walrus go to the enclosing frame: not used in the repository
        ref = self.alloc('frame', {})
        chain = fr.chain if fr.ns is not None else (fr.oid,) + tuple(fr.chain)
        f = Frame(ref.oid, fr.fn, fr.mod, chain, fr.owner, info)
        f2 = CompFrame(ref.oid, fr.fn, fr.mod, chain, fr.owner, info)
        f2.outer = fr
        out = []

        def go(i):
            if i == len(gens):
                out.append(leaf(f2))
                return
            g = gens[i]
            for v in self.iterate(self.ev(g.iter, f2 if i else fr)):
                self.assign(g.target, v, f2)
                if all(self.truth(self.ev(c, f2)) for c in g.ifs):
                    go(i + 1)
        go(0)
        return out

    def e_Compare(self, n, fr):
        left = self.ev(n.left, fr)
        res = True
        for op, c in zip(n.ops, n.comparators):
            right = self.ev(c, fr)
            res = self.compare(op, left, right)
            if len(n.ops) > 1 and not self.truth(res):
                return False
            left = right
        return res

    def e_BinOp(self, n, fr):
        a = self.ev(n.left, fr)
        return self.binop(n.op, a, self.ev(n.right, fr))

    def e_Call(self, n, fr):
        if isinstance(n.func, ast.Name) and n.func.id == 'super' and not n.args:
            me = self.first_arg(fr)
            return SuperV(fr.owner, me)
        if isinstance(n.func, ast.Name) and n.func.id in ('locals', 'vars') and not n.args:
            self.unsupported('locals()')
        f = self.ev(n.func, fr)
        if isinstance(f, Ext) and f.name in ('builtins.any', 'builtins.all', 'builtins.next') and isinstance(n.func, ast.Name) \
                and n.func.id == f.name[9:] and n.args and isinstance(n.args[0], ast.GeneratorExp) and not n.keywords:
            return self.lazy_call(n, fr)
        args = self.ev_elts(n.args, fr)
        kw = {}
        for k in n.keywords:
            if k.arg is None:
                v = self.ev(k.value, fr)
                kw.update({str(a): b for a, b in self.as_dict(v).items()})
            else:
                kw[k.arg] = self.ev(k.value, fr)
        saved = self.where
        self.where = (fr.mod, n)
        r = self.call(f, args, kw)
        self.where = saved
        return r

    def first_arg(self, fr):
        f = fr
        while isinstance(f, CompFrame):
            f = f.outer
        node = f.fn.node
        a = node.args.posonlyargs + node.args.args
        if not a:
            self.unsupported('super()')
        return self.st.heap[f.oid].d[a[0].arg]

    # ------------------------------------------------------------------ calls
    def call(self, f, args, kw):
        if isinstance(f, Fn):
            if f.info.cache is not None:
                k = (tuple(self.key(x) for x in args), tuple(kw.items()))
                c = self.st.get(f.info.cache).d
                if k not in c:
                    r = self.call_fn(f, args, kw)
                    self.st.w(f.info.cache).d[k] = r
                    return r
                return c[k]
            return self.call_fn(f, args, kw)
        if isinstance(f, Bound):
            return self.call(f.a[0], [f.a[1]] + list(args), kw)
        if isinstance(f, Class):
            return self.instantiate(f, args, kw)
        if isinstance(f, type) and issubclass(f, BaseException):
            return ExcV(f, tuple(args))
        if isinstance(f, Meth):
            return self.call_method(f.a[0], f.a[1], args, kw)
        if isinstance(f, Ext):
            return self.call_ext(f.name, args, kw)
        if isinstance(f, Partial):
            fn, a, k = f.a
            return self.call(fn, list(a) + list(args), {**dict(k), **kw})
        if isinstance(f, StaticM):
            return self.call(f.a[0], args, kw)
        if isinstance(f, Top):
            self.note(f'call of unknown value {f.label}')
            return Top('call')
        if isinstance(f, Ref):
            o = self.st.get(f)
            if o.kind == 'inst' and o.cls.lookup('__call__')[1] is not None:
                return self.call(self.getattr(f, '__call__'), args, kw)
        self.throw(TypeError, f'{self.describe(f)} is not callable')

    def instantiate(self, c, args, kw):
        owner, new = c.lookup('__new__')
        if new is not None:
            self.unsupported('__new__')
        bases = c.ext_bases()
        for b in bases:
            if isinstance(b, Ext):
                r = self.native_base_new(b.name, c, args, kw)
                if r is not None:
                    return r
        ref = self.alloc('inst', {}, c)
        exc = [b for b in bases if isinstance(b, type) and issubclass(b, BaseException)]
        if exc:
            self.st.w(ref).d['args'] = tuple(args)
        owner, init = c.lookup('__init__')
        if init is not None:
            self.call(Bound(init, ref), args, kw)
        elif not exc and not any(isinstance(b, Ext) for b in bases) and (args or kw):
            self.throw(TypeError, f'{c.name}() takes no arguments')
        return ref

    def call_fn(self, fn, args, kw):
        if self.pos < len(self.log):
            e = self.log[self.pos]
            if e[0] != 'call':
                raise Unsupported('replay mismatch')
            self.pos += 1
        else:
            if not self.stack:
                # values held by the driver of the scenario
                self.roots = [Ref(e[1]) for e in self.log[:self.pos] if e[0] == 'oid']
                self.roots += [e[1][1] for e in self.log[:self.pos] if e[0] == 'call'] + list(args) + list(kw.values())
            outs = self.run_function(fn, args, kw, self.st)
            if not outs:
                raise Dead()
            pre = self.log[:self.pos]
            for o in outs[1:]:
                self.pending.append(pre + [('call', o)])
            e = ('call', outs[0])
            self.log.append(e)
            self.pos += 1
        kind, val, st = e[1]
        self.st = st.fork()
        if kind == 'X':
            raise PyRaise(val)
        return val

    def bind(self, fn, args, kw):
        a = fn.node.args
        names = [x.arg for x in a.posonlyargs + a.args]
        d = {}
        args = list(args)
        if len(args) > len(names) and a.vararg is None:
            self.throw(TypeError, f'{fn.name}() takes {len(names)} positional arguments but {len(args)} were given')
        for n, v in zip(names, args):
            d[n] = v
        if a.vararg is not None:
            d[a.vararg.arg] = tuple(args[len(names):])
        extra = {}
        kwnames = {x.arg for x in a.kwonlyargs}
        for k, v in kw.items():
            if k in names or k in kwnames:
                if k in d:
                    self.throw(TypeError, f"{fn.name}() got multiple values for argument '{k}'")
                d[k] = v
            elif a.kwarg is not None:
                extra[k] = v
            else:
                self.throw(TypeError, f"{fn.name}() got an unexpected keyword argument '{k}'")
        if fn.defaults:
            for n, v in zip(names[-len(fn.defaults):], fn.defaults):
                d.setdefault(n, v)
        for k, v in (fn.kwdefaults or {}).items():
            d.setdefault(k, v)
        for n in names + list(kwnames):
            if n not in d:
                self.throw(TypeError, f"{fn.name}() missing required argument: '{n}'")
        return d, (a.kwarg.arg if a.kwarg is not None else None), extra

    def run_function(self, fn, args, kw, st):
        """[(kind, value, state)] with kind R (as N) or X."""
        if len(self.stack) > 120:
            self.unsupported('recursion depth')
        if fn.qual not in self.covered:
            self.covered.add(fn.qual)
            self.fn_nodes[fn.qual] = fn.node, fn.mod.path
        saved = self.st, self.log, self.pos, self.pending, self.where
        self.st = st.fork()
        self.log, self.pos, self.pending = [], 0, []
        try:
            try:
                d, kwname, extra = self.bind(fn, args, kw)
                if kwname is not None:
                    d[kwname] = self.new_dict(extra)
                if fn.info.is_gen:
                    d['%yield'] = ()
                ref = self.alloc('frame', d)
                if fn.info.is_gen:
                    g = self.alloc('gen', {'fn': fn, 'frame': ref})
                    if fn.info.is_cm:
                        g = self.alloc('cm', {'gen': g})
                st2 = self.st
            except PyRaise as e:
                return [('X', e.val, self.st)]
            if self.trace_calls is not None:
                self.trace_calls(self, fn, d, st2)
            if fn.info.is_gen:
                return [('N', g, st2)]
            fr = Frame(ref.oid, fn, fn.mod, fn.closure, fn.owner, fn.info)
            self.stack.append(ref.oid)
            try:
                if isinstance(fn.node, ast.Lambda):
                    outs = [('R' if k == 'N' else k, v, x) for k, v, x in self.multi(st2, lambda: self.ev(fn.node.body, fr))]
                else:
                    outs = self.exec_block(fn.node.body, st2, fr)
                res = []
                for k, v, x in outs:
                    if k == 'X':
                        res.append((k, v, x))
                        continue
                    if k == 'N':
                        v = None
                    if len(fn.closure) == 0 and not self.escapes(fn):
                        x.heap.pop(ref.oid, None)
                    res.append(('N', v, x))
            finally:
                self.stack.pop()
            if len(res) > 1:
                res = self.merge_results(res)
            return res
        finally:
            self.st, self.log, self.pos, self.pending, self.where = saved

    def escapes(self, fn):
        """May a nested function or comprehension refer to the frame after the return?"""
        r = self._escapes.get(fn.node)
        if r is None:
            r = self._escapes[fn.node] = any(n is not fn.node and isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef))
                                             for n in ast.walk(fn.node))
        return r

    def merge_results(self, res):
        out = []
        for kind in ('N', 'X'):
            xs = [r for r in res if r[0] == kind]
            if len(xs) > 1:
                out.extend((kind, v, s) for s, v in self.merge_states([r[2] for r in xs], [r[1] for r in xs]))
            else:
                out.extend(xs)
        return out

    # ------------------------------------------------------------------ entry points for checks
    def run(self, st, f):
        """Run a Python driver f(interp) in the abstract; [(kind, value, state)]."""
        return self.multi(st, lambda: f(self))

    def describe(self, v, st=None):
        st = st or self.st
        if isinstance(v, ExcV):
            return f'{v.cls.__name__}({", ".join(H.show(a) if isinstance(a, str) else repr(a) for a in v.args)})'
        if isinstance(v, Ref):
            o = st.heap.get(v.oid)
            if o is None:
                return repr(v)
            if o.kind == 'inst':
                a = o.d.get('args')
                return o.cls.name + ('(' + ', '.join(H.show(x) if isinstance(x, str) else repr(x) for x in a) + ')' if a is not None else '')
            return o.kind
        if isinstance(v, str):
            return repr(H.show(v))
        return repr(v)


class CompFrame(Frame):
    __slots__ = ('outer',)
