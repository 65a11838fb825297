"""Abstract values, heap and state."""


class Ref:
    __slots__ = ('oid',)

    def __init__(self, oid):
        self.oid = oid

    def __eq__(self, o):
        return isinstance(o, Ref) and o.oid == self.oid

    def __hash__(self):
        return hash(('ref', self.oid))

    def __repr__(self):
        return f'#{self.oid}'


class Top:
    """Any value."""
    __slots__ = ('label',)

    def __init__(self, label='?'):
        self.label = label

    def __eq__(self, o):
        return isinstance(o, Top) and o.label == self.label

    def __hash__(self):
        return hash(('top', self.label))

    def __repr__(self):
        return f'Top({self.label})'


class Num:
    """An unknown number with provenance."""
    __slots__ = ('label', 'lo')

    def __init__(self, label, lo=None):
        self.label = label if len(label) < 400 else label[:400]
        self.lo = lo            # lower bound

    def __eq__(self, o):
        return isinstance(o, Num) and o.label == self.label

    def __hash__(self):
        return hash(('num', self.label))

    def __repr__(self):
        return f'Num({self.label})'


class Pos(int):
    """A position inside an abstract string (exact with respect to its representation)."""

    def __add__(self, o):
        return Pos(int(self) + int(o)) if isinstance(o, int) else NotImplemented

    __radd__ = __add__

    def __sub__(self, o):
        return Pos(int(self) - int(o)) if isinstance(o, int) else NotImplemented

    def __hash__(self):
        return int.__hash__(self)


class U:
    """One of several values (result of a join)."""
    __slots__ = ('alts',)

    def __init__(self, alts):
        self.alts = alts

    def __eq__(self, o):
        return isinstance(o, U) and o.alts == self.alts

    def __hash__(self):
        return hash(('U', self.alts))

    def __repr__(self):
        return 'U' + repr(self.alts)


class Class:
    def __init__(self, name, bases, ns, module, node):
        self.name, self.bases, self.ns, self.module, self.node = name, bases, ns, module, node
        self.mro = c3(self)
        self.qual = f'{module}.{name}'

    def __repr__(self):
        return f'<class {self.qual}>'

    def lookup(self, name):
        for c in self.mro:
            if isinstance(c, Class) and name in c.ns:
                return c, c.ns[name]
        return None, None

    def ext_bases(self):
        return [c for c in self.mro if not isinstance(c, Class)]


def c3(cls):
    def lin(c):
        return list(c.mro) if isinstance(c, Class) else [c]
    seqs = [lin(b) for b in cls.bases] + [list(cls.bases)]
    out = [cls]
    while True:
        seqs = [s for s in seqs if s]
        if not seqs:
            return out
        for s in seqs:
            h = s[0]
            if not any(h in t[1:] for t in seqs):
                break
        else:
            raise TypeError('mro')
        out.append(h)
        for s in seqs:
            if s and s[0] == h:
                del s[0]


class Fn:
    __slots__ = ('node', 'mod', 'closure', 'owner', 'defaults', 'kwdefaults', 'name', 'info')

    def __init__(self, node, mod, closure, owner, defaults, kwdefaults, name, info):
        self.node, self.mod, self.closure, self.owner = node, mod, closure, owner
        self.defaults, self.kwdefaults, self.name, self.info = defaults, kwdefaults, name, info

    def __eq__(self, o):
        return isinstance(o, Fn) and o.node is self.node and o.closure == self.closure and o.defaults == self.defaults

    def __hash__(self):
        return hash((id(self.node), self.closure))

    def __repr__(self):
        return f'<fn {self.qual}>'

    @property
    def qual(self):
        o = f'{self.owner.name}.' if self.owner else ''
        return f'{self.mod.name}:{o}{self.name}'


class _Tup:
    """Small immutable structural values."""
    __slots__ = ('a',)

    def __init__(self, *a):
        self.a = a

    def __eq__(self, o):
        return type(o) is type(self) and o.a == self.a

    def __hash__(self):
        return hash((type(self).__name__, self.a))

    def __repr__(self):
        return f'{type(self).__name__}{self.a}'


class Bound(_Tup):      # fn, self
    pass


class Meth(_Tup):       # receiver, name: method of a modelled object
    pass


class Ext(_Tup):        # dotted name of an external module, class or function
    @property
    def name(self):
        return self.a[0]


class SuperV(_Tup):     # class, object
    pass


class Prop(_Tup):       # getter, setter, deleter
    pass


class StaticM(_Tup):
    pass


class ClassM(_Tup):
    pass


class Partial(_Tup):    # fn, args, kwargs
    pass


class RegexV(_Tup):     # pattern, flags
    pass


class MatchV(_Tup):     # pattern, flags, string, start, method
    pass


class ModuleV:
    def __init__(self, name, path):
        self.name, self.path, self.env, self.tree = name, path, {}, None
        self.done = False
        self.is_stub = '/vlib/stubs/' in path

    def __repr__(self):
        return f'<module {self.name}>'


class ExcV(_Tup):       # host exception class, args
    @property
    def cls(self):
        return self.a[0]

    @property
    def args(self):
        return self.a[1]


class Obj:
    __slots__ = ('kind', 'cls', 'd')

    def __init__(self, kind, d, cls=None):
        self.kind, self.d, self.cls = kind, d, cls

    def clone(self):
        d = self.d
        if isinstance(d, dict):
            d = d.copy()
            if self.kind == 'elem':
                d['kids'] = list(d['kids'])
                d['attrib'] = d['attrib'].copy()
        elif isinstance(d, list):
            d = list(d)
        return Obj(self.kind, d, self.cls)

    def __repr__(self):
        return f'{self.kind}:{self.cls or ""}{self.d}'


class Heap:
    """Map of object numbers with cheap copies: a shared base and a small overlay."""
    __slots__ = ('base', 'over')

    def __init__(self, base=None, over=None):
        self.base, self.over = base or {}, over if over is not None else {}

    def copy(self):
        o = self.over
        if len(o) > 300:
            b = self.base.copy()
            b.update(o)
            for k in [k for k, v in o.items() if v is None]:
                del b[k]
            self.base, self.over = b, {}
            return Heap(b, {})
        return Heap(self.base, o.copy())

    def get(self, k, default=None):
        v = self.over.get(k)
        if v is None:
            if k in self.over:
                return default
            return self.base.get(k, default)
        return v

    def __getitem__(self, k):
        v = self.get(k)
        if v is None:
            raise KeyError(k)
        return v

    def __setitem__(self, k, v):
        self.over[k] = v

    def __contains__(self, k):
        return self.get(k) is not None

    def pop(self, k, default=None):
        v = self.get(k, default)
        self.over[k] = None
        return v


class State:
    __slots__ = ('heap', 'own', 'fs', 'events', 'facts', 'cwd', 'xloc')

    def __init__(self):
        self.heap, self.own, self.fs, self.events, self.facts, self.cwd = Heap(), set(), {}, (), {}, '/cwd'
        self.xloc = ''          # where the last exception was raised

    def fork(self):
        n = State()
        n.heap = self.heap.copy()
        self.own = set()
        n.fs, n.events, n.facts, n.cwd, n.xloc = self.fs, self.events, self.facts, self.cwd, self.xloc
        return n

    def get(self, ref):
        return self.heap[ref.oid]

    def w(self, ref):
        o = self.heap[ref.oid]
        if ref.oid not in self.own:
            o = o.clone()
            self.heap[ref.oid] = o
            self.own.add(ref.oid)
        return o

    def event(self, *e):
        self.events = self.events + (e,)

    def fact(self, key, val):
        self.facts = {**self.facts, key: val}


class PyRaise(Exception):
    """An exception of the analysed program."""

    def __init__(self, val):
        self.val = val


class Unsupported(Exception):
    """A construct outside the abstract domain: the analysis of the scenario is inconclusive."""


class Budget(Unsupported):
    pass


class Dead(Exception):
    """The current path is infeasible or not followed."""
