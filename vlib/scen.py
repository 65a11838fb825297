"""Scenario building blocks: abstract novels, projects and conversions."""
import os

from .core import *
from . import holes as H
from .holes import new_hole
from .models import Models

SRC = os.environ.get('VERIF_SRC', '/repo/src')
_BASE = {}


def module_names(src=SRC, exclude=('pywriter.test',)):
    out = []
    for d, _, fs in os.walk(os.path.join(src, 'pywriter')):
        for f in sorted(fs):
            if f.endswith('.py'):
                n = os.path.relpath(os.path.join(d, f), src)[:-3].replace(os.sep, '.')
                if n.endswith('.__init__'):
                    n = n[:-9]
                if not n.startswith(exclude):
                    out.append(n)
    return sorted(out)


def fresh(src=SRC, tk=True):
    """An interpreter with all modules of the application loaded."""
    it = Models(src)
    it.st.fs = {'/cwd': ('dir',), '/tmp': ('dir',), '/p': ('dir',)}
    it.load_errors = {}
    for n in module_names(src):
        try:
            it.load(n)
        except Unsupported as e:
            it.load_errors[n] = str(e)
            it.modules.pop(n, None)
    it.classes = {}
    for m in it.modules.values():
        for v in m.env.values():
            if isinstance(v, Class):
                it.classes.setdefault(v.name, v)
    return it


def T(name, kind='text'):
    """An unknown text."""
    return new_hole(name, kind)


class D:
    """Driver: convenience wrapper around the interpreter used inside scenario functions."""

    def __init__(self, it):
        self.it = it

    def cls(self, name):
        c = self.it.classes.get(name)
        if c is None:
            raise Unsupported(f'class {name} does not exist')
        return c

    def new(self, name, *args, **kw):
        return self.it.call(self.cls(name), list(args), kw)

    def get(self, o, name):
        return self.it.getattr(o, name)

    def set(self, o, name, v):
        self.it.setattr(o, name, v)

    def call(self, o, name, *args, **kw):
        return self.it.call(self.it.getattr(o, name), list(args), kw)

    def lst(self, items):
        return self.it.new_list(items)

    def dct(self, d):
        return self.it.new_dict(d)

    def put(self, d, k, v):
        self.it.setitem(d, k, v)

    def add(self, l, v):
        self.it.st.w(l).d.append(v)

    def val(self, v):
        return to_host(self.it.st, v)

    def a(self, o, name):
        """Attribute value in host form."""
        return self.val(self.get(o, name))


def to_host(st, v, depth=0):
    """Abstract value -> host structure."""
    if depth > 12:
        return '...'
    if isinstance(v, Ref):
        o = st.heap.get(v.oid)
        if o is None:
            return 'gone'
        if o.kind == 'list':
            return [to_host(st, x, depth + 1) for x in o.d]
        if o.kind == 'set':
            return {to_host(st, x, depth + 1) for x in o.d}
        if o.kind == 'dict':
            return {to_host(st, k, depth + 1): to_host(st, x, depth + 1) for k, x in o.d.items()}
        if o.kind == 'inst':
            return Inst(o.cls.name, {k: to_host(st, x, depth + 1) for k, x in o.d.items()})
        if o.kind == 'iter':
            return [to_host(st, x, depth + 1) for x in o.d['items']]
        return f'<{o.kind}>'
    if isinstance(v, tuple):
        return tuple(to_host(st, x, depth + 1) for x in v)
    return v


class Inst:
    def __init__(self, cls, d):
        self.cls, self.d = cls, d

    def __eq__(self, o):
        return isinstance(o, Inst) and o.cls == self.cls and o.d == self.d

    def __repr__(self):
        return f'{self.cls}{self.d}'


def same(a, b, facts=None):
    """Are two abstract values equal for all texts?  True, False or None (not decidable)."""
    if isinstance(a, (Top, U)) or isinstance(b, (Top, U)):
        return True if a == b else None
    if isinstance(a, str) and isinstance(b, str):
        return same_str(a, b, facts)
    if isinstance(a, bool) or isinstance(b, bool):
        return type(a) is type(b) and a == b
    if isinstance(a, (list, tuple)) and type(a) is type(b):
        if len(a) != len(b):
            return False
        r = [same(x, y, facts) for x, y in zip(a, b)]
        return False if False in r else None if None in r else True
    if isinstance(a, dict) and isinstance(b, dict):
        if set(a) != set(b):
            return False
        r = [same(a[k], b[k], facts) for k in a]
        return False if False in r else None if None in r else True
    if isinstance(a, Inst) and isinstance(b, Inst):
        return same(a.d, b.d, facts) if a.cls == b.cls else False
    return a == b


def same_str(a, b, facts=None):
    """Texts are equal if they agree for every probe of every unknown part."""
    if a == b:
        return True
    if not H.has_holes(a) and not H.has_holes(b):
        return False
    for k in range(H.MAXP):
        try:
            if joint(a, k, facts) != joint(b, k, facts):
                return False
        except H.OpFail:
            return False
        except H.Opaque:
            return None
    return True


def joint(s, k, facts=None):
    """Concretise with probes chosen by origin, so that different forms of one text agree."""
    def f(m):
        h = H.hole(m.group())
        ps = [p for p in H.probes(h) if H.facts_ok(h, p, facts)] or list(H.probes(h))
        p = ps[(k + (hash_origin(h.origin) if not facts else 0)) % len(ps)]
        if k == 0 and H.facts_ok(h, f'\u00ab{h.origin}\u00bb', facts):
            p = f'\u00ab{h.origin}\u00bb'
            # a distinguishable text of each origin
        return H.apply_ops(h.ops, p)
    return H.HOLE_RE.sub(f, s)


def hash_origin(o):
    import zlib
    return zlib.crc32(repr(o).encode()) % 97


def first_diff(a, b):
    return f'{show(a)} instead of {show(b)}'


def show(v):
    if isinstance(v, str):
        return repr(H.show(v))
    if isinstance(v, (list, tuple)):
        s = ', '.join(show(x) for x in v)
        return f'[{s}]' if isinstance(v, list) else f'({s})'
    if isinstance(v, dict):
        return '{' + ', '.join(f'{show(k)}: {show(x)}' for k, x in v.items()) + '}'
    return repr(v)


# ---------------------------------------------------------------------- novel specification
NOVEL_TEXTS = ('title', 'desc', 'authorName', 'authorBio', 'fieldTitle1', 'fieldTitle2', 'fieldTitle3', 'fieldTitle4')
CHAPTER_TEXTS = ('title', 'desc')
SCENE_TEXTS = ('title', 'desc', 'sceneContent', 'notes', 'field1', 'field2', 'field3', 'field4', 'goal', 'conflict', 'outcome',
               'image')
WORLD_TEXTS = ('title', 'desc', 'image', 'aka')
CHARACTER_TEXTS = ('title', 'desc', 'image', 'notes', 'aka', 'bio', 'goals', 'fullName')
NOTE_TEXTS = ('title', 'desc')
SCENE_DAYS = ('lastsDays', 'lastsHours', 'lastsMinutes')
