"""Models of the standard library functions and classes the repository uses."""
import ast
import configparser
import datetime
import io
import posixpath
import re
import string
import urllib.parse
import xml.etree.ElementTree as HET
import xml.sax as HSAX
from xml.parsers import expat

from .core import *
from .core import _Tup
from . import holes as H
from .holes import has_holes, new_hole, map_holes, op as hole_op, HOLE_RE
from .interp import OK_HOST, NO_DEFAULT
from .ops import Ops, concrete

TYPES = {'str': str, 'int': int, 'float': float, 'bool': bool, 'bytes': bytes, 'tuple': tuple, 'complex': complex}
XML_ESC = str.maketrans({'&': '&amp;', '<': '&lt;', '>': '&gt;'})


def lit_map(s, f, hop, *args):
    """Apply f to the literal parts and the operation hop to the unknown ones."""
    out = []
    pos = 0
    for m in HOLE_RE.finditer(s):
        out.append(f(s[pos:m.start()]))
        out.append(hole_op(m.group(), hop, *args))
        pos = m.end()
    out.append(f(s[pos:]))
    return ''.join(out)


class Models(Ops):

    def __init__(self, *a, **k):
        super().__init__(*a, **k)
        self.record_fs = False
        self.sax_split = False
        self.cut_texts = True        # consider unknown texts containing a separator once
        self.answers = None          # replies to input()/askyesno: None = both
        self.now = 'now'
        self.locale = 'en_US'
        self.encodings = set()
        self.file_dialog = ''        # reply to the file selection
        self.startfile, self.missing, self.platform = False, (), {}
        self.escaped_files = {}

    # ------------------------------------------------------------------ dispatch
    def call_ext(self, name, args, kw):
        h = self.hooks.get(name)
        if h is not None:
            return h(self, args, kw)
        f = getattr(self, 'f_' + name.replace('.', '__'), None)
        if f is not None:
            return f(*args, **kw)
        if name.startswith('tkinter') or name.startswith('builtins.object.'):
            return self.opaque_call(name, args)
        self.note(f'call of unmodelled {name}')
        return Top(name + '()')

    def opaque_call(self, name, args):
        if name in ('builtins.object.__init__', 'builtins.object.__del__', 'builtins.object.__setattr__'):
            return None
        self.st.event('ui', name, tuple(x for x in args))
        return Top(name + '()')

    def ext_attr(self, e, name):
        full = f'{e.name}.{name}'
        consts = {'os.sep': '/', 'os.path.sep': '/', 'os.linesep': '\n', 'os.name': 'posix', 'sys.platform': 'linux',
                  're.DOTALL': int(re.DOTALL), 're.MULTILINE': int(re.MULTILINE), 're.IGNORECASE': int(re.I), 're.I': int(re.I),
                  're.S': int(re.S), 're.M': int(re.M), 're.VERBOSE': int(re.X), 're.UNICODE': int(re.U), 're.ASCII': int(re.A),
                  're.X': int(re.X), 're.U': int(re.U), 're.A': int(re.A), 're.NOFLAG': 0,
                  'zipfile.ZIP_DEFLATED': 8, 'zipfile.ZIP_STORED': 0, 'os.curdir': '.', 'os.extsep': '.',
                  'string.digits': string.digits, 'string.ascii_letters': string.ascii_letters,
                  'string.punctuation': string.punctuation, 'string.whitespace': string.whitespace,
                  'string.ascii_lowercase': string.ascii_lowercase, 'string.ascii_uppercase': string.ascii_uppercase,
                  'sys.maxsize': 2 ** 63 - 1, 'os.F_OK': 0, 'os.R_OK': 4, 'os.W_OK': 2}
        if full in self.platform:
            return self.platform[full]
        if full in consts:
            return consts[full]
        if full == 'os.startfile' and not self.startfile:
            self.throw(AttributeError, "module 'os' has no attribute 'startfile'")
        if full == 'sys.argv':
            return self.alloc('list', ['/app/prog.py'])
        if full in ('re.error', 're.PatternError'):
            return re.error
        if full in ('xml.etree.ElementTree.ParseError',):
            return HET.ParseError
        if full in ('xml.sax.SAXParseException', 'xml.sax.SAXException', 'xml.sax._exceptions.SAXParseException'):
            return getattr(HSAX, full.rpartition('.')[2])
        if full in ('zipfile.BadZipFile', 'zipfile.BadZipfile'):
            import zipfile
            return zipfile.BadZipFile
        if full.startswith('configparser.') and isinstance(getattr(configparser, name, None), type) \
                and issubclass(getattr(configparser, name), BaseException):
            return getattr(configparser, name)
        if full == 'shutil.Error':
            import shutil
            return shutil.Error
        if full == 'subprocess.CalledProcessError':
            import subprocess
            return subprocess.CalledProcessError
        if full in ('os.error',):
            return OSError
        return Ext(full)

    # ------------------------------------------------------------------ built-in functions
    def f_builtins__len(self, o):
        if isinstance(o, Ref):
            ob = self.st.get(o)
            if ob.kind in ('list', 'dict', 'set'):
                return len(ob.d)
            if ob.kind == 'elem':
                return len(ob.d['kids'])
            if ob.kind == 'words':
                return self.m_words___len__(o, ob)
            if ob.kind == 'inst' and ob.cls.lookup('__len__')[1] is not None:
                return self.call(self.getattr(o, '__len__'), [], {})
            if ob.kind == 'saxattrs':
                return len(ob.d)
            if ob.kind == 'vars':
                return len(self.vars_of(ob))
            if ob.kind not in ('inst', 'iter', 'gen', 'file'):
                self.unsupported(f'len of {ob.kind}')
            self.throw(TypeError, 'object has no len()')
        if isinstance(o, str):
            return Num(f'len({H.show(o)})', len(o)) if has_holes(o) else len(o)
        if isinstance(o, Top):
            return Num(f'len({o.label})')
        try:
            return len(o)
        except TypeError as e:
            self.throw(TypeError, str(e))

    def f_builtins__str(self, v='', *a, **k):
        return self.to_str(v)

    def f_builtins__repr(self, v):
        return self.repr_(v)

    def f_builtins__format(self, v, spec=''):
        return self.fmt(v, spec)

    def f_builtins__int(self, v=0, *base, **kw):
        if isinstance(v, Num):
            return v
        if isinstance(v, Top):
            if self.decide(('isint', v.label)):
                return Num(f'int({v.label})')
            self.throw(ValueError, 'invalid literal for int()')
        if isinstance(v, str) and has_holes(v):
            s = v.strip()
            if len(s) == 1:
                h = H.hole(s)
                if isinstance(h.origin, tuple) and h.origin[0] == 'num' and not h.ops:
                    return Num(h.origin[1])
                if h.kind == 'num':
                    return Num(f'int({h!r})')
                if self.hole_pred(s, 'isnumeric'):
                    return Num(f'int({h!r})')
            self.throw(ValueError, f'invalid literal for int() with base 10')
        if v is None or isinstance(v, (Ref, tuple)):
            self.throw(TypeError, "int() argument must be a string, a bytes-like object or a real number")
        try:
            return int(v, *base, **kw)
        except (ValueError, TypeError) as e:
            self.throw(type(e), str(e))

    def f_builtins__float(self, v=0.0):
        if isinstance(v, Num):
            return v
        if isinstance(v, Top) or isinstance(v, str) and has_holes(v):
            r = self.f_builtins__int(v)
            return r
        if v is None or isinstance(v, (Ref, tuple)):
            self.throw(TypeError, 'float() argument')
        try:
            return float(v)
        except (ValueError, TypeError) as e:
            self.throw(type(e), str(e))

    def f_builtins__bool(self, v=False):
        return self.truth(v)

    def f_builtins__abs(self, v):
        return Num(f'abs({v.label})') if isinstance(v, (Num, Top)) else abs(v)

    def f_builtins__round(self, v, n=None):
        return Num(f'round({v.label})') if isinstance(v, (Num, Top)) else round(v, n) if n is not None else round(v)

    def f_builtins__divmod(self, a, b):
        return (self.binop(ast.FloorDiv(), a, b), self.binop(ast.Mod(), a, b))

    def f_builtins__pow(self, a, b):
        return self.binop(ast.Pow(), a, b)

    def f_builtins__list(self, v=()):
        return self.new_list(self.iterate(v))

    def f_builtins__tuple(self, v=()):
        return tuple(self.iterate(v))

    def f_builtins__set(self, v=()):
        return self.alloc('set', {self.key(x): None for x in self.iterate(v)})

    f_builtins__frozenset = f_builtins__set

    def f_builtins__dict(self, v=None, **kw):
        d = {}
        if v is not None:
            if isinstance(v, Ref) and self.st.get(v).kind == 'dict':
                d = dict(self.st.get(v).d)
            else:
                for p in self.iterate(v):
                    a, b = self.iterate(p)
                    d[self.key(a)] = b
        d.update(kw)
        return self.new_dict(d)

    def f_builtins__object(self):
        return self.alloc('object', {})

    def f_builtins__isinstance(self, v, t):
        if isinstance(t, tuple):
            return any(self.truth(self.f_builtins__isinstance(v, x)) for x in t)
        if isinstance(v, Top):
            return self.decide(('isinstance', v.label, repr(t)))
        if isinstance(t, Class):
            return isinstance(v, Ref) and self.st.get(v).kind == 'inst' and t in self.st.get(v).cls.mro
        if isinstance(t, type):
            return bool(self.exc_matches(v, t))
        if isinstance(t, Ext):
            n = t.name
            if n == 'builtins.object':
                return True
            if isinstance(v, Ref):
                ob = self.st.get(v)
                if ob.kind == 'inst':
                    return t in ob.cls.mro
                return n == 'builtins.' + ob.kind
            if isinstance(v, Num):
                return n in ('builtins.int', 'builtins.float')
            b = n.rpartition('.')[2]
            if n.startswith('builtins.') and b in TYPES:
                return isinstance(v, TYPES[b])
            if n in ('builtins.type',):
                return isinstance(v, (Class, type))
            if n == 're.Match':
                return isinstance(v, MatchV)
            if n == 're.Pattern':
                return isinstance(v, RegexV)
            return False
        self.unsupported('isinstance')

    def f_builtins__issubclass(self, c, t):
        if isinstance(t, tuple):
            return any(self.f_builtins__issubclass(c, x) for x in t)
        if isinstance(c, Class):
            return t in c.mro
        if isinstance(c, type) and isinstance(t, type):
            return issubclass(c, t)
        return c == t

    def f_builtins__callable(self, v):
        return isinstance(v, (Fn, Bound, Class, Meth, Ext, Partial, StaticM))

    def f_builtins__range(self, *a):
        if any(isinstance(x, (Num, Top)) for x in a):
            self.note('range of unknown length')
            n = self.choose([0, 1, 2])
            return range(n)
        try:
            return range(*a)
        except (TypeError, ValueError) as e:
            self.throw(type(e), str(e))

    def f_builtins__enumerate(self, v, start=0):
        return self.alloc('iter', {'items': tuple((start + i, x) for i, x in enumerate(self.iterate(v))), 'pos': 0})

    def f_builtins__zip(self, *vs, **kw):
        return self.alloc('iter', {'items': tuple(zip(*[self.iterate(v) for v in vs])), 'pos': 0})

    def f_builtins__map(self, f, *vs):
        items = [self.call(f, list(a), {}) for a in zip(*[self.iterate(v) for v in vs])]
        return self.alloc('iter', {'items': tuple(items), 'pos': 0})

    def f_builtins__filter(self, f, v):
        items = [x for x in self.iterate(v) if self.truth(x if f is None else self.call(f, [x], {}))]
        return self.alloc('iter', {'items': tuple(items), 'pos': 0})

    def f_builtins__sorted(self, v, key=None, reverse=False):
        return self.new_list(self.sorted_items(self.iterate(v), key, reverse))

    def f_builtins__reversed(self, v):
        return self.alloc('iter', {'items': tuple(reversed(self.iterate(v))), 'pos': 0})

    def f_builtins__any(self, v):
        return any(self.truth(x) for x in self.iterate(v))

    def f_builtins__all(self, v):
        return all(self.truth(x) for x in self.iterate(v))

    def f_builtins__sum(self, v, start=0):
        t = start
        for x in self.iterate(v):
            t = self.binop(ast.Add(), t, x)
        return t

    def _minmax(self, how, a, kw):
        items = self.iterate(a[0]) if len(a) == 1 else list(a)
        key = kw.get('key')
        if not items:
            if 'default' in kw:
                return kw['default']
            self.throw(ValueError, 'empty sequence')
        ks = [self.call(key, [x], {}) if key is not None else x for x in items]
        if all(concrete(k) for k in ks):
            try:
                i = how(range(len(ks)), key=lambda j: ks[j])
            except TypeError as e:
                self.throw(TypeError, str(e))
            return items[i]
        return self.choose(items)

    def f_builtins__min(self, *a, **kw):
        return self._minmax(min, a, kw)

    def f_builtins__max(self, *a, **kw):
        return self._minmax(max, a, kw)

    def f_builtins__getattr(self, o, name, *default):
        if isinstance(name, Top):
            self.note('getattr with unknown name')
            return Top('attr')
        if not default:
            return self.getattr(o, name)
        try:
            return self.getattr(o, name)
        except PyRaise as e:
            if self.exc_matches(e.val, AttributeError):
                return default[0]
            raise

    def f_builtins__setattr(self, o, name, v):
        if not isinstance(name, str):
            self.unsupported('setattr with unknown name')
        self.setattr(o, name, v)

    def f_builtins__delattr(self, o, name):
        self.delattr(o, name)

    def f_builtins__hasattr(self, o, name):
        try:
            self.getattr(o, name)
            return True
        except PyRaise as e:
            if self.exc_matches(e.val, AttributeError):
                return False
            raise

    def f_builtins__vars(self, o):
        if isinstance(o, Ref) and self.st.get(o).kind == 'inst':
            return self.alloc('vars', {'of': o})
        return Top('vars')

    def vars_of(self, ob):
        of = ob.d['of']
        return {k: self.getattr(of, k) for k in list(self.st.get(of).d) if not k.startswith('%')}

    def vars_dict(self, o):
        return self.new_dict(self.vars_of(o))

    def m_vars_get(self, r, o, k, default=None):
        return self.vars_of(o).get(k, default)

    def m_vars_keys(self, r, o):
        return self.call_method(self.vars_dict(o), 'keys', [], {})

    def m_vars_values(self, r, o):
        return self.call_method(self.vars_dict(o), 'values', [], {})

    def m_vars_items(self, r, o):
        return self.call_method(self.vars_dict(o), 'items', [], {})

    def m_vars_copy(self, r, o):
        return self.vars_dict(o)

    def vars_set(self, o, k, v):
        if not isinstance(k, str):
            self.unsupported('attribute name')
        self.on_setattr(o.d['of'], self.st.get(o.d['of']), k, v)
        self.st.w(o.d['of']).d[k] = v

    def m_vars_update(self, r, o, other=None, **kw):
        d = {}
        if other is not None:
            d = self.as_dict(self.f_builtins__dict(other))
        for k, v in {**d, **kw}.items():
            self.vars_set(o, k, v)

    def m_vars_setdefault(self, r, o, k, default=None):
        if k not in self.vars_of(o):
            self.vars_set(o, k, default)
        return self.vars_of(o)[k]

    def m_vars_pop(self, r, o, k, *default):
        d = self.vars_of(o)
        if k in d:
            del self.st.w(o.d['of']).d[k]
            return d[k]
        if default:
            return default[0]
        self.throw(KeyError, k)

    def f_builtins__dir(self, *o):
        return Top('dir')

    def f_builtins__type(self, v, *rest):
        if rest:
            self.unsupported('type()')
        return self.type_of(v)

    def f_builtins__id(self, v):
        return Num(f'id({v!r})')

    def f_builtins__hash(self, v):
        return Num(f'hash({v!r})')

    def f_builtins__iter(self, v, *a):
        if isinstance(v, Ref) and self.st.get(v).kind in ('iter', 'gen'):
            return v
        return self.alloc('iter', {'items': tuple(self.iterate(v)), 'pos': 0})

    def f_builtins__next(self, v, *default):
        if isinstance(v, Top):
            return Top('next')
        if isinstance(v, Ref) and self.st.get(v).kind == 'gen':
            self.force(v)
        if not isinstance(v, Ref) or self.st.get(v).kind != 'iter':
            if isinstance(v, Ref) and self.st.get(v).kind == 'inst':
                return self.call(self.getattr(v, '__next__'), [], {})
            self.throw(TypeError, 'object is not an iterator')
        d = self.st.get(v).d
        if d['pos'] >= len(d['items']):
            if default:
                return default[0]
            self.throw(StopIteration)
        pos = d['pos']
        self.st.w(v).d['pos'] = pos + 1
        return d['items'][pos]

    def m_iter___next__(self, r, o):
        return self.f_builtins__next(r)

    def f_builtins__print(self, *a, **kw):
        self.st.event('print', tuple(self.to_str(x) for x in a))
        return None

    def f_builtins__input(self, prompt=''):
        self.st.event('ask', self.to_str(prompt))
        a = self.choose(['y', 'n']) if self.answers is None else self.answers
        self.st.event('answer', a)
        return a

    def f_builtins__exit(self, *a):
        self.throw(SystemExit, *a)

    f_builtins__quit = f_builtins__exit
    f_sys__exit = f_builtins__exit

    def f_builtins__ord(self, c):
        if isinstance(c, str) and len(c) == 1 and not has_holes(c):
            return ord(c)
        return Num('ord')

    def f_builtins__chr(self, n):
        return chr(n) if isinstance(n, int) else Top('chr')

    def f_builtins__hex(self, n):
        return hex(n) if isinstance(n, int) else Top('str')

    def f_builtins__slice(self, *a):
        return slice(*a)

    def f_builtins__bytes(self, v=b'', *a, **k):
        return v if isinstance(v, (str, bytes)) else Top('bytes')

    def f_builtins__property(self, g=None, s=None, d=None, doc=None):
        return Prop(g, s, d)

    def f_builtins__staticmethod(self, f):
        return StaticM(f)

    def f_builtins__classmethod(self, f):
        return ClassM(f)

    def f_builtins__BaseException____init__(self, obj, *a):
        self.st.w(obj).d['args'] = tuple(a)

    def f_builtins__str__join(self, sep, it):
        return self.str_method(sep, 'join', [it], {})

    def __getattr__(self, name):
        # unbound methods: str.lower(x), dict.get(d, k), ...
        m = re.fullmatch(r'f_builtins__(str|list|dict|set|tuple)__(\w+)', name)
        if m:
            def f(o, *a, **k):
                if m.group(1) == 'dict' and m.group(2) == 'fromkeys':
                    return self.new_dict({self.key(x): (a[0] if a else None) for x in self.iterate(o)})
                if m.group(1) == 'str' and m.group(2) == 'maketrans':
                    return self.new_dict(str.maketrans(*[self.as_dict(x) if isinstance(x, Ref) else x for x in (o, *a)]))
                return self.call_method(o, m.group(2), list(a), k)
            return f
        raise AttributeError(name)

    # ------------------------------------------------------------------ file system
    def fspath(self, p):
        """Path objects as text."""
        if isinstance(p, Ref):
            o = self.st.get(p)
            if o.kind == 'inst' and o.cls.lookup('__fspath__')[1] is not None:
                return self.call(self.getattr(p, '__fspath__'), [], {})
        return p

    def path(self, p):
        p = self.fspath(p)
        if isinstance(p, Top):
            self.unsupported('unknown path')
        if not isinstance(p, str):
            self.throw(TypeError, f'expected str, bytes or os.PathLike object, not {type(p).__name__}')
        if not p.startswith('/'):
            p = posixpath.join(self.st.cwd, p)
        return posixpath.normpath(p)

    def fs_set(self, path, content, what):
        fs = dict(self.st.fs)
        if content is None:
            fs.pop(path, None)
        else:
            fs[path] = content
        self.st.fs = fs
        self.crash(what, path)

    def crash(self, what, path):
        if self.record_fs:
            self.st.event('fs', what, path, tuple(sorted(self.st.fs.items(), key=lambda x: x[0])))

    def fault(self, opname, path, exc=OSError):
        """The operation may fail (at most one failure per path)."""
        if self.fault_sites is None or any(e[0] == 'fault' for e in self.st.events):
            return
        if not self.fault_sites(opname, path):
            return
        if self.choose([False, True]):
            self.st.event('fault', opname, path)
            self.throw(exc, f'{opname} failed', path)

    def will_fail(self, opname, path):
        if self.fault_sites is None or any(e[0] == 'fault' for e in self.st.events) or not self.fault_sites(opname, path):
            return False
        if self.choose([False, True]):
            self.st.event('fault', opname, path)
            return True
        return False

    def f_os__path__isfile(self, p):
        if isinstance(p, Top):
            return self.decide(('isfile', p.label))
        if p is None:
            self.throw(TypeError, 'stat: path should be string, bytes, os.PathLike or integer, not NoneType')
        c = self.st.fs.get(self.path(p))
        return c is not None and c[0] != 'dir'

    def f_os__path__isdir(self, p):
        c = self.st.fs.get(self.path(p))
        return c is not None and c[0] == 'dir'

    def f_os__path__exists(self, p):
        return self.path(p) in self.st.fs

    f_os__path__lexists = f_os__path__exists

    def f_os__access(self, p, mode):
        return self.path(p) in self.st.fs

    def f_os__stat(self, p):
        if self.path(p) not in self.st.fs:
            self.throw(FileNotFoundError, p)
        return Top('stat')

    def f_os__path__getsize(self, p):
        if self.path(p) not in self.st.fs:
            self.throw(FileNotFoundError, p)
        return Num('size')

    f_os__path__getmtime = f_os__path__getsize

    def _pure_path(self, f, *a):
        a = [self.fspath(x) for x in a]
        if any(isinstance(x, Top) for x in a):
            return Top('path')
        if any(not isinstance(x, str) for x in a):
            self.throw(TypeError, 'expected str, bytes or os.PathLike object')
        return f(*a)

    def f_os__path__split(self, p):
        return self._pure_path(posixpath.split, p)

    def f_os__path__splitext(self, p):
        return self._pure_path(posixpath.splitext, p)

    def f_os__path__dirname(self, p):
        return self._pure_path(posixpath.dirname, p)

    def f_os__path__basename(self, p):
        return self._pure_path(posixpath.basename, p)

    def f_os__path__normpath(self, p):
        return self._pure_path(posixpath.normpath, p)

    def f_os__path__join(self, *p):
        return self._pure_path(posixpath.join, *p)

    def f_os__path__isabs(self, p):
        return self._pure_path(posixpath.isabs, p)

    def f_os__path__normcase(self, p):
        return self._pure_path(posixpath.normcase, p)

    def f_os__path__realpath(self, p, **k):
        return self._pure_path(self.path, p)

    f_os__path__abspath = f_os__path__realpath

    def f_os__fspath(self, p):
        return self.fspath(p)

    def f_os__getcwd(self):
        return self.st.cwd

    def f_os__chdir(self, p):
        p = self.path(p)
        if self.st.fs.get(p, ('',))[0] != 'dir' and p != '/cwd':
            self.throw(FileNotFoundError, p)
        self.st.cwd = p

    def f_os__mkdir(self, p, *a, **k):
        p = self.path(p)
        self.fault('mkdir', p)
        if p in self.st.fs:
            self.throw(FileExistsError, p)
        self.fs_set(p, ('dir',), 'mkdir')

    def f_os__makedirs(self, p, mode=0o777, exist_ok=False):
        p = self.path(p)
        self.fault('mkdir', p)
        if p in self.st.fs and not exist_ok:
            self.throw(FileExistsError, p)
        self.fs_set(p, ('dir',), 'mkdir')

    def f_os__replace(self, a, b, **k):
        a, b = self.path(a), self.path(b)
        self.fault('replace', a)
        if a not in self.st.fs:
            self.throw(FileNotFoundError, a)
        if a == b:
            return
        fs = dict(self.st.fs)
        fs[b] = fs.pop(a)
        self.st.fs = fs
        self.crash('replace', (a, b))

    f_os__rename = f_os__replace
    f_os__renames = f_os__replace
    f_shutil__move = f_os__replace

    def f_os__remove(self, p, **k):
        p = self.path(p)
        self.fault('remove', p)
        if p not in self.st.fs:
            self.throw(FileNotFoundError, p)
        self.fs_set(p, None, 'remove')

    f_os__unlink = f_os__remove

    def f_os__rmdir(self, p):
        self.f_shutil__rmtree(p)

    def f_os__listdir(self, p='.'):
        p = self.path(p)
        return self.new_list([posixpath.basename(q) for q in self.st.fs if posixpath.dirname(q) == p])

    def f_os__startfile(self, p):
        # only on Windows
        if self.startfile:
            self.st.event('start', p)
            return
        self.throw(AttributeError, "module 'os' has no attribute 'startfile'")

    def f_os__system(self, cmd):
        self.st.event('shell', cmd)
        return 0

    f_os__popen = f_os__system

    def f_os__getenv(self, k, d=None):
        return d

    def f_os__fsync(self, *a):
        return None

    def f_platform__system(self):
        return {'win32': 'Windows', 'darwin': 'Darwin'}.get(self.platform.get('sys.platform'), 'Linux')

    def f_shutil__which(self, cmd, *a, **k):
        return None if self.missing and (self.missing == 'all' or cmd in self.missing) else '/usr/bin/' + cmd

    def _proc(self, cmd, *a, shell=False, **kw):
        if isinstance(cmd, Ref):
            cmd = tuple(self.iterate(cmd))
        shell = self.truth(shell)
        if not shell and self.missing and (self.missing == 'all' or cmd and (cmd if isinstance(cmd, str) else cmd[0]) in self.missing):
            self.throw(FileNotFoundError, 'No such file or directory: the program')
        self.st.event('shell' if shell else 'proc', cmd)
        return 0

    f_subprocess__call = _proc
    f_subprocess__run = _proc
    f_subprocess__check_call = _proc
    f_subprocess__Popen = _proc

    def f_subprocess__getoutput(self, cmd):
        self.st.event('shell', cmd)
        return Top('str')

    def f_shutil__rmtree(self, p, ignore_errors=False, **k):
        p = self.path(p)
        if p not in self.st.fs:
            if ignore_errors:
                return
            self.throw(FileNotFoundError, p)
        self.st.event('rmtree', p)
        fs = {q: c for q, c in self.st.fs.items() if q != p and not q.startswith(p + '/')}
        self.st.fs = fs
        self.crash('rmtree', p)

    def f_shutil__copyfile(self, a, b, **k):
        b0 = b
        a, b = self.path(a), self.path(b)
        if a not in self.st.fs:
            self.throw(FileNotFoundError, a)
        if self.will_fail('copy', b):
            self.throw(OSError, b)
        self.fs_set(b, self.st.fs[a], 'copy')
        return b0

    f_shutil__copy = f_shutil__copyfile
    f_shutil__copy2 = f_shutil__copyfile

    def f_tempfile__mkdtemp(self, suffix=None, prefix=None, dir=None):
        n = 0
        while f'/tmp/{prefix or "tmp"}{n}{suffix or ""}' in self.st.fs:
            n += 1
        p = f'/tmp/{prefix or "tmp"}{n}{suffix or ""}'
        self.fs_set(p, ('dir',), 'mkdtemp')
        return p

    def f_tempfile__gettempdir(self):
        return '/tmp'

    def f_tempfile__TemporaryDirectory(self, suffix=None, prefix=None, dir=None):
        return self.alloc('tmpdir', {'name': self.f_tempfile__mkdtemp(suffix, prefix, dir)})

    def f_builtins__open(self, file, mode='r', buffering=-1, encoding=None, errors=None, newline=None, **k):
        p = self.path(file)
        if 'b' not in mode:
            self.encoded('read' if 'r' in mode else 'write', encoding, errors)
        if 'r' in mode and '+' not in mode:
            self.fault('open-r', p)
            c = self.st.fs.get(p)
            if c is None:
                self.throw(FileNotFoundError, f'No such file or directory: {p}')
            if c[0] == 'dir':
                self.throw(IsADirectoryError, p)
            return self.alloc('file', {'path': p, 'mode': mode, 'enc': encoding, 'pos': 0, 'closed': False, 'errors': errors})
        if '+' in mode:
            self.unsupported('open mode')
        if 'x' in mode and p in self.st.fs:
            self.throw(FileExistsError, p)
        if self.will_fail('open-w', p):
            self.throw(OSError, f'cannot open {p}')
        self.st.event('open-w', p, encoding, errors)
        if 'a' not in mode or p not in self.st.fs:
            self.fs_set(p, ('text', '', encoding, False), 'open-w')
        return self.alloc('file', {'path': p, 'mode': mode, 'enc': encoding, 'pos': 0, 'closed': False, 'errors': errors})

    f_io__open = f_builtins__open
    f_codecs__open = lambda self, file, mode='r', encoding=None, errors=None, buffering=-1: self.f_builtins__open(file, mode, encoding=encoding, errors=errors)

    def encoded(self, kind, enc, errors):
        """Record that text is read or written with an encoding here."""
        self.encodings.add((kind, enc if isinstance(enc, str) else None, errors, self.loc()))

    def m_file_write(self, r, o, s):
        if isinstance(s, Top):
            self.unsupported('unknown text written')
        if not isinstance(s, (str, bytes)):
            self.throw(TypeError, 'write() argument must be str')
        if o.d['closed']:
            self.throw(ValueError, 'I/O operation on closed file')
        p = o.d['path']
        c = self.st.fs.get(p)
        old = c[1] if c is not None and c[0] == 'text' else ''
        if self.will_fail('write', p):
            self.fs_set(p, ('text', old, o.d['enc'], False), 'write-partial')
            self.throw(OSError, 'write failed')
        self.fs_set(p, ('text', old + s, o.d['enc'], False), 'write')
        return Num('written')

    def m_file_writelines(self, r, o, lines):
        for s in self.iterate(lines):
            self.m_file_write(r, self.st.get(r), s)

    def text_of(self, p, enc, errors=None):
        c = self.st.fs.get(p)
        if c is None:
            self.throw(FileNotFoundError, p)
        if c[0] in ('undecodable', 'zip') and errors not in (None, 'strict'):
            return '\ufffd'
        if c[0] == 'undecodable':
            self.throw(UnicodeDecodeError, 'utf-8', b'', 0, 1, 'invalid start byte')
        if c[0] == 'zip':
            self.throw(UnicodeDecodeError, 'utf-8', b'', 0, 1, 'invalid start byte')
        if c[0] != 'text':
            self.throw(OSError, p)
        have = (c[2] or 'utf-8').lower().replace('_', '-')
        want = (enc or 'utf-8').lower().replace('_', '-')
        if have.replace('-sig', '') != want.replace('-sig', '') and 'utf8' != want:
            if want in ('latin-1', 'iso-8859-1', 'cp1252', 'windows-1252'):
                return map_holes(c[1], lambda x: hole_op(x, 'opaque'))
            if errors not in (None, 'strict'):
                return '\ufffd'
            self.throw(UnicodeError if want == 'utf-16' else UnicodeDecodeError, *(('UTF-16 stream does not start with BOM',) if want == 'utf-16' else ('utf-8', b'', 0, 1, 'invalid start byte')))
        if have == 'utf-8-sig' and want == 'utf-8':
            return '\ufeff' + c[1]
        return c[1]

    def m_file_read(self, r, o, n=None):
        d = self.st.w(r).d
        if 'b' in d['mode']:
            c = self.st.fs.get(d['path'])
            return Top('bytes') if c is None or c[0] != 'text' else c[1]
        self.fault('read', d['path'])
        s = self.text_of(d['path'], d['enc'], d['errors'])
        if n is not None and not (isinstance(n, int) and n < 0):
            self.unsupported('read(n)')
        if d['pos']:
            return ''
        d['pos'] = 1
        return s

    def m_file_readlines(self, r, o):
        return self.new_list(self.m_file_read(r, o).splitlines(True))

    def m_file_close(self, r, o):
        d = self.st.w(r).d
        if d['closed']:
            return
        d['closed'] = True
        p = d['path']
        c = self.st.fs.get(p)
        if 'r' not in d['mode'] and c is not None and c[0] == 'text':
            self.fs_set(p, ('text', c[1], c[2], True), 'close')

    def m_file_flush(self, r, o):
        return None

    def m_file_fileno(self, r, o):
        return 3

    # ------------------------------------------------------------------ native objects
    def native_enter(self, r):
        o = self.st.get(r)
        if o.kind == 'tmpdir':
            return o.d['name']
        return r

    def native_exit(self, r, exc):
        o = self.st.get(r)
        if o.kind == 'file':
            if exc is not None:
                # the file stays incomplete
                self.st.w(r).d['closed'] = True
                return False
            self.m_file_close(r, o)
        elif o.kind == 'zip':
            if exc is not None:
                self.st.w(r).d['closed'] = True
                return False
            self.m_zip_close(r, o)
        elif o.kind == 'suppress':
            if exc is not None:
                m = self.exc_matches(exc, o.d['types'])
                return bool(m) if m is not None else self.decide(('suppress', repr(exc)))
        elif o.kind == 'tmpdir':
            try:
                self.f_shutil__rmtree(o.d['name'])
            except PyRaise:
                pass
        return False

    def native_attr(self, r, o, name):
        k = o.kind
        if k == 'elem':
            if name in ('tag', 'text', 'tail'):
                return o.d[name]
            if name == 'attrib':
                return self.alloc('dict', dict(o.d['attrib']))
        if k == 'tmpdir' and name == 'name':
            return o.d['name']
        if k == 'file' and name == 'name':
            return o.d['path']
        if k == 'file' and name == 'closed':
            return o.d['closed']
        if k == 'zip' and name == 'filename':
            return o.d['path']
        if k == 'datetime' and name in ('year', 'month', 'day', 'hour', 'minute', 'second', 'microsecond'):
            return getattr(o.d, name) if o.d is not None else Num(name)
        if k == 'template' and name == 'template':
            return o.d
        if k == 'cfgsec' and name == 'name':
            return o.d['name']
        if k in ('frame',):
            self.unsupported('frame attribute')
        if name == '__class__':
            return self.type_of(r)
        if name == '__len__' and k in ('list', 'dict', 'set', 'elem'):
            return Meth(r, '__len__')
        if name == '__getitem__' or name == '__contains__':
            return Meth(r, name)
        if getattr(self, f'm_{k}_{name}', None) is not None:
            return Meth(r, name)
        known = {'list': list, 'dict': dict, 'set': set, 'elem': HET.Element, 'etree': HET.ElementTree, 'file': io.TextIOWrapper,
                 'template': string.Template, 'cfg': configparser.ConfigParser, 'cfgsec': configparser.SectionProxy}.get(k)
        if known is not None and not hasattr(known, name) and not (k == 'cfgsec' and name in ('getint', 'getfloat', 'getboolean')):
            self.throw(AttributeError, f"'{k}' object has no attribute '{name}'")
        return Meth(r, name)

    def native_setattr(self, r, o, name, v):
        if o.kind == 'cfg' and name == 'optionxform':
            self.st.w(r).d['xform'] = v
            return
        if o.kind == 'elem':
            if name in ('text', 'tail', 'tag'):
                self.st.w(r).d[name] = v
                return
            if name == 'attrib':
                self.st.w(r).d['attrib'] = self.as_dict(v)
                return
        if o.kind == 'cfg':
            self.unsupported('configuration parser attribute')
        self.throw(AttributeError, f"'{o.kind}' object has no attribute '{name}'")

    def native_method(self, r, o, name, args, kw):
        if name == '__len__':
            return self.f_builtins__len(r)
        if name == '__getitem__':
            return self.getitem(r, args[0])
        if name == '__contains__':
            return self.contains(r, args[0])
        if name == '__iter__':
            return self.f_builtins__iter(r)
        self.unsupported(f'method {name} of {o.kind}')

    def native_getitem(self, r, o, i):
        if o.kind == 'elem':
            if isinstance(i, slice):
                return self.new_list(o.d['kids'][i])
            if not isinstance(i, int):
                self.throw(TypeError, 'element indices must be integers')
            try:
                return o.d['kids'][i]
            except IndexError:
                self.throw(IndexError, 'child index out of range')
        if o.kind == 'cfg':
            if i not in o.d['sections'] and i != 'DEFAULT':
                self.throw(KeyError, i)
            return self.alloc('cfgsec', {'cfg': r, 'name': i})
        if o.kind == 'cfgsec':
            v = self.cfg_get(o.d['cfg'], o.d['name'], i)
            if v is None:
                self.throw(KeyError, i)
            return v[0]
        if o.kind == 'saxattrs':
            if i not in o.d:
                self.throw(KeyError, i)
            return o.d[i]
        if o.kind == 'vars':
            d = self.vars_of(o)
            if i not in d:
                self.throw(KeyError, i)
            return d[i]
        if o.kind == 'inst':
            return Top(f'{o.cls.name}[]')
        self.throw(TypeError, f"'{o.kind}' object is not subscriptable")

    def native_setitem(self, r, o, i, v):
        if o.kind == 'elem' and isinstance(i, int):
            self.st.w(r).d['kids'][i] = v
            return
        if o.kind == 'cfg':
            secs = dict(o.d['sections'])
            secs[i] = {self.cfg_key(r, k): x for k, x in self.as_dict(v).items()}
            for k, x in list(secs[i].items()):
                secs[i][k] = self.cfg_check(r, x if isinstance(x, str) else self.to_str(x))
            self.st.w(r).d['sections'] = secs
            return
        if o.kind == 'cfgsec':
            self.m_cfg_set(o.d['cfg'], self.st.get(o.d['cfg']), o.d['name'], i, v)
            return
        if o.kind == 'vars':
            self.vars_set(o, i, v)
            return
        if o.kind == 'inst':
            return
        self.throw(TypeError, f"'{o.kind}' object does not support item assignment")

    def native_iter(self, r, o):
        if o.kind == 'file':
            return self.m_file_read(r, o).splitlines(True)
        if o.kind == 'cfg':
            return ['DEFAULT'] + list(o.d['sections'])
        if o.kind == 'cfgsec':
            return list(self.st.get(o.d['cfg']).d['sections'].get(o.d['name'], {}))
        if o.kind == 'words':
            self.note('iteration over the words of an unknown text')
            return [new_hole(('word', o.d['of']), 'word')]
        if o.kind == 'saxattrs':
            return list(o.d)
        if o.kind == 'vars':
            return list(self.vars_of(o))
        return None

    def native_base_new(self, name, cls, args, kw):
        if name == 'configparser.ConfigParser':
            self.unsupported('subclass of ConfigParser')
        return None

    def native_inst_attr(self, ref, ob, name):
        for b in ob.cls.ext_bases():
            if isinstance(b, Ext) and b.name in ('xml.sax.ContentHandler', 'xml.sax.handler.ContentHandler'):
                if name in ('startElement', 'endElement', 'characters', 'startDocument', 'endDocument', 'ignorableWhitespace',
                            'processingInstruction', 'skippedEntity', 'setDocumentLocator', 'startPrefixMapping',
                            'endPrefixMapping'):
                    return Ext('nop')
                self.throw(AttributeError, name)
        if any(isinstance(b, type) and issubclass(b, BaseException) for b in ob.cls.ext_bases()):
            if name == 'with_traceback':
                return Ext('nop')
            if name in ('__cause__', '__context__', '__traceback__'):
                return Top(name)
        return None

    def f_nop(self, *a, **k):
        return None

    f_xml__sax__ContentHandler____init__ = f_nop
    f_xml__sax__handler__ContentHandler____init__ = f_nop
    f_gc__collect = f_nop
    f_time__sleep = f_nop

    def f_time__time(self):
        return Num('time')

    def f_xml__sax__ContentHandler__startElement(self, *a):
        return None

    f_xml__sax__ContentHandler__endElement = f_nop
    f_xml__sax__ContentHandler__characters = f_nop

    # ------------------------------------------------------------------ string.Template
    def f_string__Template(self, s):
        if isinstance(s, Top):
            self.unsupported('unknown template')
        if not isinstance(s, str):
            s = None if s is None else s
        return self.alloc('template', s)

    def _subst(self, o, args, kw, safe):
        d = {}
        if args:
            a = args[0]
            if isinstance(a, Ref) and self.st.get(a).kind == 'dict':
                d = {k: self.getitem(a, k) for k in list(self.st.get(a).d)}
            else:
                self.unsupported('mapping')
        d.update(kw)
        if o.d is None:
            self.throw(TypeError, 'expected string or bytes-like object')
        parts = []
        pos = 0
        for m in string.Template.pattern.finditer(o.d):
            parts.append(o.d[pos:m.start()])
            named = m.group('named') or m.group('braced')
            if named is not None:
                if named in d:
                    parts.append(self.to_str(d[named]))
                elif safe:
                    parts.append(m.group())
                else:
                    self.throw(KeyError, named)
            elif m.group('escaped') is not None:
                parts.append('$')
            elif safe:
                parts.append(m.group())
            else:
                self.throw(ValueError, 'Invalid placeholder in string')
            pos = m.end()
        parts.append(o.d[pos:])
        if has_holes(o.d):
            # text of unknown content used as a template
            parts = [map_holes(p, lambda c: hole_op(c, 'resub', r'\$\$|\$\{?\w*\}?', '', 0, 0)) if isinstance(p, str) else p for p in parts]
        return self.concat(parts)

    def m_template_safe_substitute(self, r, o, *args, **kw):
        return self._subst(o, args, kw, True)

    def m_template_substitute(self, r, o, *args, **kw):
        return self._subst(o, args, kw, False)

    # ------------------------------------------------------------------ text functions
    def f_html__unescape(self, s):
        if not isinstance(s, str):
            return self.bad_text(s)
        import html
        return lit_map(s, html.unescape, 'unescape')

    def f_html__escape(self, s, quote=True):
        if not isinstance(s, str):
            return self.bad_text(s)
        import html
        return lit_map(s, lambda x: html.escape(x, quote), 'hescape', bool(quote))

    def bad_text(self, s):
        if isinstance(s, Top):
            return Top('str')
        self.throw(AttributeError if s is None or isinstance(s, (Ref, Num)) else TypeError, 'argument must be str')

    def _entities(self, e):
        return tuple(self.as_dict(e).items()) if isinstance(e, Ref) else ()

    def f_xml__sax__saxutils__escape(self, s, entities=None):
        if not isinstance(s, str):
            return self.bad_text(s)
        from xml.sax.saxutils import escape
        e = self._entities(entities)
        return lit_map(s, lambda x: escape(x, dict(e)), 'sxescape', e)

    def f_xml__sax__saxutils__unescape(self, s, entities=None):
        if not isinstance(s, str):
            return self.bad_text(s)
        from xml.sax.saxutils import unescape
        return lit_map(s, lambda x: unescape(x, dict(self._entities(entities))), 'sxunescape')

    def f_xml__sax__saxutils__quoteattr(self, s, entities=None):
        if not isinstance(s, str):
            return self.bad_text(s)
        from xml.sax.saxutils import escape
        x = lit_map(s, lambda x: escape(x, {'"': '&quot;'}), 'sxescape', (('"', '&quot;'),))
        return '"' + x + '"'

    def f_urllib__parse__quote(self, s, safe='/', *a, **k):
        if not isinstance(s, str):
            return self.bad_text(s)
        return lit_map(s, lambda x: urllib.parse.quote(x, safe), 'quote', safe)

    def f_urllib__parse__unquote(self, s, *a, **k):
        if not isinstance(s, str):
            return self.bad_text(s)
        return lit_map(s, urllib.parse.unquote, 'unquote')

    def f_urllib__parse__quote_plus(self, s, *a, **k):
        return map_holes(urllib.parse.quote_plus(s), lambda c: hole_op(c, 'opaque'))

    def f_textwrap__dedent(self, s):
        import textwrap
        return textwrap.dedent(s)

    # ------------------------------------------------------------------ re
    def f_re__compile(self, pat, flags=0):
        return self.re_compile(pat, flags)

    def _re(name):
        def f(self, pat, *args, **kw):
            flags = kw.pop('flags', 0)
            n = 3 if name in ('sub', 'subn') else 2 if name == 'split' else 1
            args = list(args)
            if len(args) > n:
                flags = args.pop(n)
            return self.regex_call(self.re_compile(pat, flags), name, args, kw)
        return f

    f_re__sub, f_re__subn, f_re__search = _re('sub'), _re('subn'), _re('search')
    f_re__match, f_re__fullmatch, f_re__findall = _re('match'), _re('fullmatch'), _re('findall')
    f_re__finditer, f_re__split = _re('finditer'), _re('split')

    def f_re__escape(self, s):
        if has_holes(s):
            return Top('str')
        return re.escape(s)

    # ------------------------------------------------------------------ locale, gettext, sys, datetime
    def f_locale__getlocale(self, *a):
        return (self.locale, 'UTF-8')

    def f_locale__getdefaultlocale(self, *a):
        return (self.locale, 'UTF-8')

    def f_locale__setlocale(self, *a):
        return 'C'

    def f_gettext__translation(self, *a, **k):
        self.throw(FileNotFoundError, 'No translation file found')

    def f_sys__stderr__write(self, s):
        self.st.event('stderr', s)

    def f_sys__stdout__write(self, s):
        self.st.event('print', (s,))

    def f_datetime__datetime__today(self):
        return self.alloc('datetime', None)

    f_datetime__datetime__now = lambda self, *a: self.alloc('datetime', None)
    f_datetime__datetime__utcnow = lambda self: self.alloc('datetime', None)
    f_datetime__date__today = f_datetime__datetime__today

    def f_datetime__datetime__fromisoformat(self, s):
        if isinstance(s, Top):
            self.unsupported('unknown date')
        if not isinstance(s, str):
            self.throw(TypeError, 'fromisoformat: argument must be str')
        if has_holes(s):
            self.throw(ValueError, 'Invalid isoformat string')
        try:
            return self.alloc('datetime', datetime.datetime.fromisoformat(s))
        except ValueError as e:
            self.throw(ValueError, str(e))

    def f_datetime__datetime__strptime(self, s, f):
        if has_holes(s):
            self.throw(ValueError, 'time data does not match')
        try:
            return self.alloc('datetime', datetime.datetime.strptime(s, f))
        except ValueError as e:
            self.throw(ValueError, str(e))

    def m_datetime_replace(self, r, o, **k):
        if o.d is None or any(not isinstance(x, int) for x in k.values()):
            return self.alloc('datetime', None)
        try:
            return self.alloc('datetime', o.d.replace(**k))
        except ValueError as e:
            self.throw(ValueError, str(e))

    def m_datetime_isoformat(self, r, o, *a, **k):
        return new_hole('now', 'num') if o.d is None else o.d.isoformat(*a, **k)

    def m_datetime_strftime(self, r, o, f):
        return new_hole('now', 'num') if o.d is None else o.d.strftime(f)

    def m_datetime_date(self, r, o):
        return self.alloc('datetime', o.d.date() if o.d is not None else None)

    def m_datetime_time(self, r, o):
        return self.alloc('datetime', o.d.time() if o.d is not None else None)

    # ------------------------------------------------------------------ contextlib, functools, itertools, collections, copy
    def f_contextlib__suppress(self, *types):
        return self.alloc('suppress', {'types': tuple(types)})

    def f_functools__wraps(self, *a, **k):
        return Partial(Ext('functools.wraps'), (), ())

    def f_functools__lru_cache(self, maxsize=128, typed=False):
        if isinstance(maxsize, Fn):
            return self.decorate(Ext('functools.lru_cache'), maxsize, None)
        return Partial(Ext('functools.lru_cache'), (), ())

    def f_functools__cache(self, f):
        return self.decorate(Ext('functools.cache'), f, None)

    def f_functools__partial(self, f, *a, **k):
        return Partial(f, tuple(a), tuple(k.items()))

    def f_functools__reduce(self, f, it, *init):
        items = list(init) + self.iterate(it)
        if not items:
            self.throw(TypeError, 'reduce() of empty iterable')
        v = items[0]
        for x in items[1:]:
            v = self.call(f, [v, x], {})
        return v

    def _iter(self, items):
        return self.alloc('iter', {'items': tuple(items), 'pos': 0})

    def f_itertools__chain(self, *its):
        return self._iter([x for i in its for x in self.iterate(i)])

    def f_itertools__chain__from_iterable(self, its):
        return self.f_itertools__chain(*self.iterate(its))

    def f_itertools__islice(self, it, *a):
        return self._iter(self.iterate(it)[slice(*a)])

    def f_itertools__count(self, start=0, step=1):
        return self._iter(range(start, start + 2000 * step, step))

    def f_itertools__repeat(self, v, times=2000):
        return self._iter([v] * times)

    def f_itertools__pairwise(self, it):
        items = self.iterate(it)
        return self._iter(zip(items, items[1:]))

    def f_itertools__accumulate(self, it, func=None, *, initial=None):
        out = [] if initial is None else [initial]
        for x in self.iterate(it):
            out.append(x if not out else self.call(func, [out[-1], x], {}) if func is not None else self.binop(ast.Add(), out[-1], x))
        return self._iter(out)

    def f_itertools__groupby(self, it, key=None):
        out = []
        for x in self.iterate(it):
            k = self.call(key, [x], {}) if key is not None else x
            if out and self.truth(self.equal(out[-1][0], k)):
                out[-1][1].append(x)
            else:
                out.append((k, [x]))
        return self._iter([(k, self._iter(xs)) for k, xs in out])

    def f_itertools__filterfalse(self, f, it):
        return self._iter([x for x in self.iterate(it) if not self.truth(self.call(f, [x], {}) if f is not None else x)])

    def f_itertools__starmap(self, f, it):
        return self._iter([self.call(f, self.iterate(x), {}) for x in self.iterate(it)])

    def f_operator__methodcaller(self, name, *a, **k):
        return Partial(Ext('methodcall'), (name, a, tuple(k.items())), ())

    def f_methodcall(self, name, a, k, o):
        return self.call(self.getattr(o, name), list(a), dict(k))

    def f_operator__add(self, a, b):
        return self.binop(ast.Add(), a, b)

    f_operator__concat = f_operator__add

    def f_operator__eq(self, a, b):
        return self.equal(a, b)

    def f_operator__ne(self, a, b):
        return not self.truth(self.equal(a, b))

    def f_operator__contains(self, a, b):
        return self.contains(a, b)

    def f_operator__getitem(self, a, b):
        return self.getitem(a, b)

    def f_itertools__product(self, *its):
        import itertools
        return self._iter(itertools.product(*[self.iterate(i) for i in its]))

    def f_itertools__zip_longest(self, *its, fillvalue=None):
        import itertools
        return self._iter(itertools.zip_longest(*[self.iterate(i) for i in its], fillvalue=fillvalue))

    def f_itertools__takewhile(self, f, it):
        out = []
        for x in self.iterate(it):
            if not self.truth(self.call(f, [x], {})):
                break
            out.append(x)
        return self._iter(out)

    def f_itertools__dropwhile(self, f, it):
        out = []
        for x in self.iterate(it):
            if out or not self.truth(self.call(f, [x], {})):
                out.append(x)
        return self._iter(out)

    def f_operator__attrgetter(self, *names):
        return Partial(Ext('attrget'), (names,), ())

    def f_attrget(self, names, o):
        vs = []
        for n in names:
            v = o
            for p in n.split('.'):
                v = self.getattr(v, p)
            vs.append(v)
        return vs[0] if len(vs) == 1 else tuple(vs)

    def f_operator__itemgetter(self, *names):
        return Partial(Ext('itemget'), (names,), ())

    def f_itemget(self, names, o):
        vs = [self.getitem(o, n) for n in names]
        return vs[0] if len(vs) == 1 else tuple(vs)

    def f_dataclasses__dataclass(self, *a, **k):
        if a:
            self.unsupported('dataclass()')
        return Ext('dataclasses.dataclass')

    def f_dataclasses__field(self, **k):
        return self.alloc('dcfield', dict(k))

    def f_collections__namedtuple(self, name, fields, rename=False, defaults=None, module=None):
        names = fields.replace(',', ' ').split() if isinstance(fields, str) else self.iterate(fields)
        ds = list(self.iterate(defaults)) if defaults is not None else []
        c = Class(name, [], {}, 'collections', None)
        if not self.modules:
            self.unsupported('namedtuple')
        class Fr:
            mod = next(iter(self.modules.values()))
        self.make_record(c, [(n, ds[i - len(names) + len(ds)] if i >= len(names) - len(ds) else NO_DEFAULT) for i, n in enumerate(names)], Fr)
        return c

    def f_collections__Counter(self, v=(), **kw):
        d = {}
        for x in self.iterate(v):
            d[self.key(x)] = d.get(x, 0) + 1
        return self.alloc('dict', d, Partial(Ext('builtins.int'), (), ()))

    def f_collections__OrderedDict(self, *a, **k):
        return self.f_builtins__dict(*a, **k)

    def f_collections__defaultdict(self, f=None, *a, **k):
        d = self.f_builtins__dict(*a, **k)
        self.st.w(d).cls = f
        return d

    def f_collections__deque(self, v=(), maxlen=None):
        return self.new_list(self.iterate(v))

    def m_list_appendleft(self, r, o, v):
        self.st.w(r).d.insert(0, v)

    def m_list_popleft(self, r, o):
        return self.m_list_pop(r, o, 0)

    def f_copy__copy(self, v):
        if isinstance(v, Ref):
            o = self.st.get(v)
            if o.kind in ('list', 'dict', 'set', 'inst'):
                return self.alloc(o.kind, type(o.d)(o.d), o.cls)
            if o.kind == 'elem':
                return self.alloc('elem', {**o.d, 'attrib': dict(o.d['attrib']), 'kids': list(o.d['kids'])})
            self.unsupported('copy')
        return v

    def f_copy__deepcopy(self, v, memo=None):
        memo = {}

        def cp(x):
            if isinstance(x, tuple):
                return tuple(cp(y) for y in x)
            if not isinstance(x, Ref):
                return x
            if x in memo:
                return memo[x]
            o = self.st.get(x)
            if o.kind not in ('list', 'dict', 'set', 'inst', 'elem', 'etree'):
                return x
            if o.kind == 'list':
                n = memo[x] = self.alloc('list', [])
                self.st.w(n).d.extend([cp(y) for y in o.d])
            elif o.kind == 'elem':
                n = memo[x] = self.alloc('elem', {**o.d, 'attrib': dict(o.d['attrib']), 'kids': []})
                kids = [cp(y) for y in o.d['kids']]
                self.st.w(n).d['kids'].extend(kids)
            else:
                n = memo[x] = self.alloc(o.kind, {}, o.cls)
                items = [(k, cp(y)) for k, y in o.d.items()]
                self.st.w(n).d.update(items)
            return n
        return cp(v)

    def f_abc__ABC(self, *a):
        return None

    # ------------------------------------------------------------------ ElementTree
    def elem(self, tag, attrib=None, text=None, tail=None, kids=()):
        return self.alloc('elem', {'tag': tag, 'attrib': dict(attrib or {}), 'text': text, 'tail': tail, 'kids': list(kids)})

    def f_xml__etree__ElementTree__Element(self, tag, attrib=None, **extra):
        a = self.as_dict(attrib) if attrib is not None else {}
        a.update(extra)
        return self.elem(tag, a)

    def f_xml__etree__ElementTree__SubElement(self, parent, tag, attrib=None, **extra):
        if not isinstance(parent, Ref) or self.st.get(parent).kind != 'elem':
            self.throw(TypeError, 'SubElement() argument 1 must be xml.etree.ElementTree.Element')
        e = self.f_xml__etree__ElementTree__Element(tag, attrib, **extra)
        self.st.w(parent).d['kids'].append(e)
        return e

    def f_xml__etree__ElementTree__ElementTree(self, element=None, file=None):
        return self.alloc('etree', {'root': element})

    def m_etree_getroot(self, r, o):
        return o.d['root']

    def m_etree__setroot(self, r, o, e):
        self.st.w(r).d['root'] = e

    def m_etree_find(self, r, o, path, namespaces=None):
        return self.m_elem_find(o.d['root'], self.st.get(o.d['root']), path, namespaces)

    def m_etree_findall(self, r, o, path, namespaces=None):
        return self.m_elem_findall(o.d['root'], self.st.get(o.d['root']), path, namespaces)

    def m_etree_iter(self, r, o, tag=None):
        return self.m_elem_iter(o.d['root'], self.st.get(o.d['root']), tag)

    def m_etree_parse(self, r, o, source, parser=None):
        t = self.f_xml__etree__ElementTree__parse(source)
        root = self.st.get(t).d['root']
        self.st.w(r).d['root'] = root
        return root

    def char_references(self, text, enc):
        """ElementTree writes characters missing in the encoding as character references."""
        if enc.replace('_', '-').startswith(('utf', 'unicode')):
            return text
        try:
            return lit_map(text, lambda s: H.OPS['charref'](s, enc), 'charref', enc)
        except LookupError as e:
            self.throw(LookupError, str(e))

    def m_etree_write(self, r, o, file, encoding=None, xml_declaration=None, default_namespace=None, method=None,
                      short_empty_elements=True):
        if isinstance(file, Ref):
            if self.st.get(file).kind != 'file' or default_namespace or method not in (None, 'xml'):
                self.unsupported('ElementTree.write to a stream')
            return self.m_file_write(file, self.st.get(file), self.serialized(o.d['root'], encoding, xml_declaration, short_empty_elements))
        self.encoded('xml', encoding, None)
        p = self.path(file)
        if self.will_fail('open-w', p):
            self.throw(OSError, f'cannot open {p}')
        self.st.event('open-w', p, encoding, None)
        self.fs_set(p, ('text', '', encoding, False), 'open-w')
        enc = (encoding or 'us-ascii').lower()
        if o.d['root'] is None:
            self.throw(AttributeError, "'NoneType' object has no attribute 'iter'")
        text = self.serialize(o.d['root'], short_empty_elements)
        text = self.char_references(text, enc)
        if xml_declaration or xml_declaration is None and enc not in ('utf-8', 'us-ascii', 'utf8', 'unicode'):
            text = f"<?xml version='1.0' encoding='{encoding or 'us-ascii'}'?>\n" + text
        if self.will_fail('write', p):
            self.fs_set(p, ('text', '', encoding, False), 'write-partial')
            self.throw(OSError, 'write failed')
        self.fs_set(p, ('text', text, 'utf-8' if enc in ('us-ascii', 'unicode') else enc, True), 'write')

    def xml_name(self, n):
        if isinstance(n, str):
            return n
        self.throw(TypeError, f'cannot serialize {n!r}')

    def ns_name(self, n, nss):
        m = re.match(r'\{(.*?)\}(.*)', n)
        if not m:
            return n
        p = nss.setdefault(m.group(1), f'ns{len(nss)}')
        return f'{p}:{m.group(2)}'

    def serialize(self, ref, short=True):
        nss = {}
        body = self._ser(ref, short, nss)
        if nss:
            m = re.match(r'<[^\s/>]+', body)
            body = body[:m.end()] + ''.join(f' xmlns:{p}="{u}"' for u, p in nss.items()) + body[m.end():]
        return body

    def _ser(self, ref, short, nss):
        d = self.st.get(ref).d
        tag = self.ns_name(self.xml_name(d['tag']), nss)
        out = ['<' + tag]
        for k, v in d['attrib'].items():
            if not isinstance(v, str):
                self.throw(TypeError, f'cannot serialize {v!r}')
            v = lit_map(v, H.OPS['etescapeattr'], 'etescapeattr')
            out.append(f' {self.ns_name(k, nss)}="{v}"')
        text = d['text']
        if isinstance(text, Top):
            self.unsupported('unknown text in element')
        if text is not None and not isinstance(text, str):
            if self.truth(text):
                self.throw(TypeError, f'cannot serialize {text!r} (type {type(text).__name__})')
            text = None
        kids = d['kids']
        if text or kids or not short:
            out.append('>')
            if text:
                out.append(lit_map(text, H.OPS['etescape'], 'etescape'))
            for k in kids:
                out.append(self._ser(k, short, nss))
            out.append(f'</{tag}>')
        else:
            out.append(' />')
        tail = d['tail']
        if tail:
            if not isinstance(tail, str):
                self.throw(TypeError, f'cannot serialize {tail!r}')
            out.append(lit_map(tail, H.OPS['etescape'], 'etescape'))
        return ''.join(out)

    def serialized(self, root, encoding=None, xml_declaration=None, short_empty_elements=True):
        enc = (encoding or 'us-ascii').lower()
        if enc != 'unicode':
            self.encoded('xml', encoding, None)
        text = self.serialize(root, short_empty_elements)
        text = self.char_references(text, enc)
        if xml_declaration or xml_declaration is None and enc not in ('utf-8', 'us-ascii', 'utf8', 'unicode'):
            text = f"<?xml version='1.0' encoding='{encoding or 'us-ascii'}'?>\n" + text
        return text

    def f_xml__etree__ElementTree__tostring(self, e, encoding=None, method=None, xml_declaration=None, default_namespace=None, short_empty_elements=True):
        if default_namespace or method not in (None, 'xml'):
            self.unsupported('tostring')
        return self.serialized(e, encoding, xml_declaration, short_empty_elements)

    def f_xml__etree__ElementTree__indent(self, tree, space='  ', level=0):
        root = tree
        if self.st.get(tree).kind == 'etree':
            root = self.st.get(tree).d['root']

        def go(ref, lv):
            d = self.st.w(ref).d
            if not d['kids']:
                return
            i = '\n' + (lv + 1) * space
            if not d['text'] or not d['text'].strip():
                d['text'] = i
            for k in d['kids']:
                go(k, lv + 1)
                kd = self.st.w(k).d
                if not kd['tail'] or not kd['tail'].strip():
                    kd['tail'] = i
            kd = self.st.w(d['kids'][-1]).d
            if not kd['tail'] or not kd['tail'].strip() or kd['tail'] == i:
                kd['tail'] = '\n' + lv * space
        go(root, level)

    # --- parsing
    def xml_events(self, text, incremental=False):
        """[(event, ...)] from expat; ParseError of the program if the skeleton is not well-formed."""
        ev = []
        p = expat.ParserCreate()
        p.buffer_text = False
        p.ordered_attributes = True
        cdata = [False]

        def chars(s):
            ev.append(('t', s, cdata[0]))

        def sc():
            cdata[0] = True

        def ec():
            cdata[0] = False

        p.StartElementHandler = lambda n, a: ev.append(('s', n, tuple(zip(a[::2], a[1::2]))))
        p.EndElementHandler = lambda n: ev.append(('e', n))
        p.CharacterDataHandler = chars
        p.StartCdataSectionHandler = sc
        p.EndCdataSectionHandler = ec
        try:
            if text.startswith('<?xml'):
                text = re.sub(r'(<\?xml[^>]*?)encoding=(["\']).*?\2', r'\1', text, count=1)
            p.Parse(text.encode('utf-8'), True)
        except expat.ExpatError as e:
            if not incremental:
                self.throw(HET.ParseError, str(e))
            # the events before the error are delivered
            ev.append(('error', str(e)))
        return ev

    def char_text(self, s, in_cdata):
        return map_holes(s, lambda c: hole_op(c, 'cdataread' if in_cdata else 'xmlunescape'))

    def attr_text(self, s):
        return map_holes(s, lambda c: hole_op(c, 'attrread'))

    def parse_xml(self, text):
        if isinstance(text, Top):
            self.unsupported('unknown XML text')
        if not isinstance(text, str):
            self.throw(TypeError, 'a bytes-like object is required')
        if text.startswith('\ufeff'):
            text = text[1:]
        ev = self.xml_events(text)
        stack = []
        nss = [{'xml': 'http://www.w3.org/XML/1998/namespace'}]
        root = None
        last = None      # element whose tail is being read

        def name(n, m, default=True):
            if ':' in n:
                p, l = n.split(':', 1)
                if p not in m:
                    self.throw(HET.ParseError, f'unbound prefix: {p}')
                return f'{{{m[p]}}}{l}'
            return f'{{{m[""]}}}{n}' if default and m.get('') else n
        for e in ev:
            if e[0] == 's':
                m = nss[-1]
                attrs = e[2]
                if any(k == 'xmlns' or k.startswith('xmlns:') for k, v in attrs):
                    m = dict(m)
                    for k, v in attrs:
                        if k == 'xmlns':
                            m[''] = v
                        elif k.startswith('xmlns:'):
                            m[k[6:]] = v
                nss.append(m)
                a = {name(k, m, False): self.attr_text(v) for k, v in attrs if not (k == 'xmlns' or k.startswith('xmlns:'))}
                r = self.elem(name(e[1], m), a)
                if stack:
                    self.st.w(stack[-1]).d['kids'].append(r)
                else:
                    root = r
                stack.append(r)
                last = None
            elif e[0] == 'e':
                last = stack.pop()
                nss.pop()
            elif stack:
                s = self.char_text(e[1], e[2])
                if last is None:
                    d = self.st.w(stack[-1]).d
                    d['text'] = (d['text'] or '') + s
                else:
                    d = self.st.w(last).d
                    d['tail'] = (d['tail'] or '') + s
        return root

    def f_xml__etree__ElementTree__fromstring(self, text, parser=None):
        return self.parse_xml(text)

    f_xml__etree__ElementTree__XML = f_xml__etree__ElementTree__fromstring

    def f_xml__etree__ElementTree__parse(self, source, parser=None):
        if isinstance(source, Ref):
            o = self.st.get(source)
            if o.kind == 'file':
                return self.alloc('etree', {'root': self.parse_xml(self.m_file_read(source, o))})
            self.unsupported('ET.parse of an object')
        p = self.path(source)
        self.fault('open-r', p)
        c = self.st.fs.get(p)
        if c is None:
            self.throw(FileNotFoundError, p)
        if c[0] == 'text':
            return self.alloc('etree', {'root': self.parse_xml(c[1])})
        self.throw(HET.ParseError, 'not well-formed (invalid token)')

    def ns_path(self, path, namespaces):
        if not isinstance(path, str):
            self.unsupported('element path')
        ns = self.as_dict(namespaces) if isinstance(namespaces, Ref) else {}

        def f(seg):
            if seg.startswith('{') or ':' not in seg:
                if ns.get('') and seg not in ('*', '.', '..', '') and not seg.startswith('{'):
                    return f'{{{ns[""]}}}{seg}'
                return seg
            p, l = seg.split(':', 1)
            if p not in ns:
                self.throw(SyntaxError, f'prefix {p!r} not found in prefix map')
            return f'{{{ns[p]}}}{l}'
        parts = re.findall(r'\{[^}]*\}[^/\[]*|//|[^/\[\]]+|\[[^\]]*\]|/', path)
        return [f(x) if x not in ('/', '//') and not x.startswith('[') else x for x in parts]

    def find_all(self, ref, path, namespaces):
        cur = [ref]
        deep = False
        for seg in self.ns_path(path, namespaces):
            if seg == '/':
                continue
            if seg == '.':
                continue
            if seg == '//':
                deep = True
                continue
            if seg == '..':
                self.unsupported('parent path')
            if seg.startswith('['):
                t = seg[1:-1]
                m = re.fullmatch(r'@([\w:{}/.\-]+)\s*=\s*[\'"](.*)[\'"]', t)
                if m:
                    cur = [e for e in cur if self.st.get(e).d['attrib'].get(m.group(1)) == m.group(2)]
                elif re.fullmatch(r'@\w+', t):
                    cur = [e for e in cur if t[1:] in self.st.get(e).d['attrib']]
                elif t.isdigit():
                    cur = cur[int(t) - 1:int(t)]
                elif re.fullmatch(r'\w+', t):
                    cur = [e for e in cur if any(self.st.get(k).d['tag'] == t for k in self.st.get(e).d['kids'])]
                else:
                    self.unsupported('element path predicate')
                continue
            new = []
            for e in cur:
                if deep:
                    c = self.descend(e)
                    c = c[1:] if c else c
                else:
                    c = self.st.get(e).d['kids']
                for k in c:
                    t = self.st.get(k).d['tag']
                    if seg == '*' or t == seg or seg.startswith('{*}') and t.rpartition('}')[2] == seg[3:]:
                        new.append(k)
            deep = False
            cur = new
        return cur

    def descend(self, e):
        out = [e]
        for k in self.st.get(e).d['kids']:
            out.extend(self.descend(k))
        return out

    def m_elem_find(self, r, o, path, namespaces=None):
        x = self.find_all(r, path, namespaces)
        return x[0] if x else None

    def m_elem_findall(self, r, o, path, namespaces=None):
        return self.new_list(self.find_all(r, path, namespaces))

    def m_elem_iterfind(self, r, o, path, namespaces=None):
        return self._iter(self.find_all(r, path, namespaces))

    def m_elem_findtext(self, r, o, path, default=None, namespaces=None):
        x = self.find_all(r, path, namespaces)
        if not x:
            return default
        return self.st.get(x[0]).d['text'] or ''

    def m_elem_iter(self, r, o, tag=None):
        items = self.descend(r)
        if tag not in (None, '*'):
            items = [e for e in items if self.st.get(e).d['tag'] == tag]
        return self._iter(items)

    def m_elem_itertext(self, r, o):
        out = []

        def go(e, top):
            d = self.st.get(e).d
            if d['text']:
                out.append(d['text'])
            for k in d['kids']:
                go(k, False)
                t = self.st.get(k).d['tail']
                if t:
                    out.append(t)
        go(r, True)
        return self._iter(out)

    def m_elem_get(self, r, o, key, default=None):
        return o.d['attrib'].get(key, default)

    def m_elem_set(self, r, o, key, v):
        self.st.w(r).d['attrib'][key] = v

    def m_elem_keys(self, r, o):
        return self.new_list(list(o.d['attrib']))

    def m_elem_items(self, r, o):
        return self.new_list(list(o.d['attrib'].items()))

    def _child(self, e):
        if not isinstance(e, Ref) or self.st.get(e).kind != 'elem':
            self.throw(TypeError, 'expected an Element')
        return e

    def m_elem_append(self, r, o, e):
        self.st.w(r).d['kids'].append(self._child(e))

    def m_elem_insert(self, r, o, i, e):
        self.st.w(r).d['kids'].insert(i, self._child(e))

    def m_elem_extend(self, r, o, es):
        for e in self.iterate(es):
            self.st.w(r).d['kids'].append(self._child(e))

    def m_elem_remove(self, r, o, e):
        self._child(e)
        kids = self.st.w(r).d['kids']
        if e not in kids:
            self.throw(ValueError, 'list.remove(x): x not in list')
        kids.remove(e)

    def m_elem_clear(self, r, o):
        d = self.st.w(r).d
        d['text'] = d['tail'] = None
        d['kids'], d['attrib'] = [], {}

    # ------------------------------------------------------------------ sax
    def f_xml__sax__parseString(self, text, handler, *a):
        if isinstance(text, Top):
            self.unsupported('unknown XML text')
        if not isinstance(text, str):
            self.throw(TypeError, 'a bytes-like object is required')
        ev = self.xml_events(text, True)
        merged = []
        for e in ev:
            if e[0] == 't':
                s = self.char_text(e[1], e[2])
                if merged and merged[-1][0] == 't':
                    merged[-1][1].append(s)
                else:
                    merged.append(['t', [s]])
            else:
                merged.append(e)
        for e in merged:
            if e[0] == 's':
                at = self.alloc('saxattrs', {k: self.attr_text(v) for k, v in e[2]})
                self.call(self.getattr(handler, 'startElement'), [e[1], at], {})
            elif e[0] == 'e':
                self.call(self.getattr(handler, 'endElement'), [e[1]], {})
            elif e[0] == 'error':
                self.throw(HSAX.SAXParseException, e[1])
            else:
                parts = e[1]
                text = ''.join(parts)
                if self.sax_split == 'whole':
                    chunks = [text]
                elif self.sax_split == 'chars':
                    chunks = list(text)
                elif self.sax_split:
                    chunks = [x for x in re.split('([\U00100000-\U0010fffd])', text) if x]
                else:
                    # expat reports line breaks separately
                    chunks = [x for x in re.split('(\n)', text) if x]
                for c in chunks:
                    self.call(self.getattr(handler, 'characters'), [c], {})

    def f_xml__sax__parse(self, source, handler, *a):
        if isinstance(source, Ref) and self.st.get(source).kind == 'file':
            return self.f_xml__sax__parseString(self.m_file_read(source, self.st.get(source)), handler)
        p = self.path(source)
        self.fault('open-r', p)
        if p not in self.st.fs:
            self.throw(FileNotFoundError, p)
        return self.f_xml__sax__parseString(self.text_of(p, 'utf-8'), handler)

    def m_saxattrs_items(self, r, o):
        return self.new_list(list(o.d.items()))

    def m_saxattrs_keys(self, r, o):
        return self.new_list(list(o.d))

    m_saxattrs_getNames = m_saxattrs_keys

    def m_saxattrs_values(self, r, o):
        return self.new_list(list(o.d.values()))

    def m_saxattrs_get(self, r, o, k, default=None):
        return o.d.get(k, default)

    def m_saxattrs_getValue(self, r, o, k):
        if k not in o.d:
            self.throw(KeyError, k)
        return o.d[k]

    def m_saxattrs_copy(self, r, o):
        return self.alloc('saxattrs', dict(o.d))

    # ------------------------------------------------------------------ zip files
    def f_zipfile__ZipFile(self, file, mode='r', compression=0, *a, **k):
        p = self.path(file)
        if mode == 'r':
            self.fault('open-r', p)
            c = self.st.fs.get(p)
            if c is None:
                self.throw(FileNotFoundError, p)
            if c[0] != 'zip' or not c[1]:
                import zipfile
                self.throw(zipfile.BadZipFile, 'File is not a zip file')
            return self.alloc('zip', {'path': p, 'mode': 'r', 'members': c[2], 'closed': False})
        if self.will_fail('open-w', p):
            self.throw(OSError, f'cannot open {p}')
        self.st.event('open-w', p, 'zip', None)
        self.fs_set(p, ('zip', False, ()), 'open-w')
        return self.alloc('zip', {'path': p, 'mode': mode, 'members': (), 'closed': False})

    def m_zip_write(self, r, o, filename, arcname=None, compress_type=None, compresslevel=None):
        src = self.path(filename)
        if src not in self.st.fs:
            self.throw(FileNotFoundError, src)
        name = self.fspath(arcname if arcname is not None else filename)
        self._zip_add(r, name, self.st.fs[src])

    def m_zip_writestr(self, r, o, name, data, compress_type=None, compresslevel=None):
        self._zip_add(r, name, ('text', data, 'utf-8', True))

    def _zip_add(self, r, name, content):
        d = self.st.w(r).d
        if self.will_fail('write', d['path']):
            self.throw(OSError, 'write failed')
        d['members'] = d['members'] + ((name, content),)
        self.fs_set(d['path'], ('zip', False, d['members']), 'zip-add')

    def m_zip_read(self, r, o, name, pwd=None):
        for n, c in o.d['members']:
            if n == name:
                return c[1] if c[0] == 'text' else Top('bytes')
        self.throw(KeyError, f"There is no item named '{name}' in the archive")

    def m_zip_namelist(self, r, o):
        return self.new_list([n for n, c in o.d['members']])

    def m_zip_open(self, r, o, name, mode='r'):
        self.unsupported('ZipFile.open')

    def m_zip_close(self, r, o):
        d = self.st.w(r).d
        if d['closed']:
            return
        if d['mode'] != 'r':
            if self.will_fail('close', d['path']):
                self.throw(OSError, 'close failed')
            self.fs_set(d['path'], ('zip', True, d['members']), 'close')
        d['closed'] = True

    # ------------------------------------------------------------------ configparser
    def f_configparser__ConfigParser(self, *a, **kw):
        interp = 'basic'
        if 'interpolation' in kw:
            i = kw['interpolation']
            interp = 'none' if i is None else 'basic' if isinstance(i, Ref) and self.st.get(i).d == 'basic' else 'ext'
        opts = {k: v for k, v in kw.items() if k in ('delimiters', 'comment_prefixes', 'inline_comment_prefixes', 'strict',
                                                     'empty_lines_in_values', 'allow_no_value')}
        for k in kw:
            if k not in opts and k not in ('interpolation',):
                self.unsupported(f'ConfigParser({k})')
        return self.alloc('cfg', {'sections': {}, 'interp': interp, 'opts': tuple(opts.items())})

    def f_configparser__RawConfigParser(self, *a, **kw):
        kw['interpolation'] = None
        return self.f_configparser__ConfigParser(*a, **kw)

    def f_configparser__BasicInterpolation(self):
        return self.alloc('interp', 'basic')

    def f_configparser__ExtendedInterpolation(self):
        return self.alloc('interp', 'ext')

    def cfg_key(self, r, k):
        f = self.st.get(r).d.get('xform')
        if f is not None:
            return self.call(f, [k], {})
        return self.str_method(k, 'lower', [], {})

    def host_cfg(self, o):
        opts = {k: (tuple(v) if isinstance(v, tuple) else v) for k, v in o.d['opts']}
        return configparser.ConfigParser(interpolation=None, **opts)

    def cfg_check(self, r, v):
        """Value given to set()."""
        o = self.st.get(r)
        if not isinstance(v, str):
            if v is None and dict(o.d['opts']).get('allow_no_value'):
                return v
            self.throw(TypeError, 'option values must be strings')
        sign = {'basic': '%', 'ext': '$'}.get(o.d['interp'])
        if sign:
            for ch in H.holes_in(v):
                if self.hole_pred(ch, 'contains', sign):
                    self.throw(ValueError, f"invalid interpolation syntax in '{sign}'")
            lit = HOLE_RE.sub('', v).replace(sign * 2, '')
            if sign in lit and not re.search(r'%\(\w+\)s', lit):
                self.throw(ValueError, 'invalid interpolation syntax')
        return v

    def m_cfg_has_section(self, r, o, s):
        return s in o.d['sections']

    def m_cfg_has_option(self, r, o, s, k):
        return s in o.d['sections'] and self.cfg_key(r, k) in o.d['sections'][s]

    def m_cfg_sections(self, r, o):
        return self.new_list(list(o.d['sections']))

    def m_cfg_options(self, r, o, s):
        return self.new_list(list(o.d['sections'].get(s, {})))

    def m_cfg_add_section(self, r, o, s):
        if s in o.d['sections']:
            self.throw(configparser.DuplicateSectionError, s)
        self.st.w(r).d['sections'] = {**o.d['sections'], s: {}}

    def m_cfg_set(self, r, o, s, k, v=None):
        if s not in o.d['sections']:
            self.throw(configparser.NoSectionError, s)
        v = self.cfg_check(r, v)
        secs = dict(o.d['sections'])
        secs[s] = {**secs[s], self.cfg_key(r, k): v}
        self.st.w(r).d['sections'] = secs

    def m_cfg_read_dict(self, r, o, d):
        for s, opts in self.as_dict(d).items():
            if s not in self.st.get(r).d['sections']:
                self.m_cfg_add_section(r, self.st.get(r), s)
            for k, v in self.as_dict(opts).items():
                self.m_cfg_set(r, self.st.get(r), s, k, self.to_str(v))

    def m_cfg_write(self, r, o, f, space_around_delimiters=True):
        d = ' = ' if space_around_delimiters else '='
        out = []
        for s, opts in o.d['sections'].items():
            out.append(f'[{s}]\n')
            for k, v in opts.items():
                out.append(f'{k}{d}{v}'.replace('\n', '\n\t') + '\n')
            out.append('\n')
        self.m_file_write(f, self.st.get(f), ''.join(out))

    def m_cfg_read(self, r, o, files, encoding=None):
        self.encoded('read', encoding, None)
        done = []
        for p in ([files] if isinstance(self.fspath(files), str) else self.iterate(files)):
            q = self.path(p)
            if q not in self.st.fs or self.st.fs[q][0] == 'dir':
                continue
            self.cfg_load(r, self.text_of(q, encoding))
            done.append(p)
        return self.new_list(done)

    def m_cfg_read_file(self, r, o, f, source=None):
        self.cfg_load(r, self.m_file_read(f, self.st.get(f)))

    def m_cfg_read_string(self, r, o, s, source=None):
        self.cfg_load(r, s)

    def cfg_load(self, r, text):
        o = self.st.get(r)
        h = self.host_cfg(o)
        h.optionxform = str
        try:
            h.read_string(text)
        except configparser.Error as e:
            self.throw(type(e), str(e))
        secs = dict(o.d['sections'])
        inline = dict(o.d['opts']).get('inline_comment_prefixes') or ()
        for s in h.sections():
            n = dict(secs.get(s, {}))
            here = set()
            for k, v in h[s].items():
                x = self.cfg_key(r, k)
                if x in here and dict(o.d['opts']).get('strict', True):
                    self.throw(configparser.DuplicateOptionError, s, x)
                here.add(x)
                if isinstance(v, str):
                    for c in inline:
                        v = map_holes(v, lambda x: hole_op(x, 'resub', r'(?:^|\s)' + re.escape(c) + '.*', '', 0, 0))
                    v = self.str_method(v, 'strip', [], {})
                n[self.cfg_key(r, k)] = v
            secs[s] = n
        self.st.w(r).d['sections'] = secs

    def cfg_get(self, r, s, k):
        o = self.st.get(r)
        sec = o.d['sections'].get(s)
        if sec is None or self.cfg_key(r, k) not in sec:
            return None
        v = sec[self.cfg_key(r, k)]
        sign = {'basic': '%', 'ext': '$'}.get(o.d['interp'])
        if sign and isinstance(v, str):
            for ch in H.holes_in(v):
                if self.hole_pred(ch, 'contains', sign):
                    self.throw(configparser.InterpolationSyntaxError, k, s, 'bad interpolation')
            v = v.replace(sign * 2, sign)
        return (v,)

    def _cfg_fallback(self, a, kw):
        if a:
            return (a[0],)
        if 'fallback' in kw:
            return (kw['fallback'],)
        return None

    def m_cfg_get(self, r, o, s, k, *a, **kw):
        kw.pop('raw', None)
        v = self.cfg_get(r, s, k)
        if v is not None:
            return v[0]
        fb = self._cfg_fallback(a, kw)
        if fb is not None:
            return fb[0]
        self.throw(configparser.NoSectionError if s not in o.d['sections'] else configparser.NoOptionError, *([s] if s not in o.d['sections'] else [k, s]))

    def m_cfgsec_get(self, r, o, k, *a, **kw):
        kw.pop('raw', None)
        v = self.cfg_get(o.d['cfg'], o.d['name'], k)
        if v is not None:
            return v[0]
        fb = self._cfg_fallback(a, kw)
        return fb[0] if fb is not None else None

    def _to_bool(self, v):
        if isinstance(v, str) and has_holes(v):
            if self.decide(('cfgbool', v)):
                self.throw(ValueError, 'Not a boolean')
            return Top('bool:' + v)
        x = configparser.ConfigParser.BOOLEAN_STATES.get(str(v).lower())
        if x is None:
            self.throw(ValueError, f'Not a boolean: {v}')
        return x

    def m_cfgsec_getboolean(self, r, o, k, *a, **kw):
        v = self.cfg_get(o.d['cfg'], o.d['name'], k)
        if v is not None:
            return self._to_bool(v[0])
        fb = self._cfg_fallback(a, kw)
        return fb[0] if fb is not None else None

    def m_cfg_getboolean(self, r, o, s, k, *a, **kw):
        v = self.cfg_get(r, s, k)
        if v is not None:
            return self._to_bool(v[0])
        fb = self._cfg_fallback(a, kw)
        if fb is not None:
            return fb[0]
        self.throw(configparser.NoOptionError, k, s)

    def m_cfgsec_keys(self, r, o):
        return self.new_list(self.native_iter(r, o))

    def m_cfgsec_items(self, r, o):
        return self.new_list([(k, self.cfg_get(o.d['cfg'], o.d['name'], k)[0]) for k in self.native_iter(r, o)])

    def m_cfg_items(self, r, o, s=None):
        if s is None:
            return self.new_list([(n, self.native_getitem(r, o, n)) for n in o.d['sections']])
        return self.new_list([(k, self.cfg_get(r, s, k)[0]) for k in o.d['sections'].get(s, {})])

    # contains for native mappings
    def contains(self, c, x):
        if isinstance(c, Ref):
            o = self.st.get(c)
            if o.kind == 'cfg':
                return x in o.d['sections'] or x == 'DEFAULT'
            if o.kind == 'cfgsec':
                return self.cfg_key(o.d['cfg'], x) in self.st.get(o.d['cfg']).d['sections'].get(o.d['name'], {})
            if o.kind == 'saxattrs':
                return x in o.d
            if o.kind == 'vars':
                return x in self.vars_of(o)
        return super().contains(c, x)

    # ------------------------------------------------------------------ tkinter answers
    def f_tkinter__filedialog__askopenfilename(self, *a, **k):
        return self.file_dialog

    def f_tkinter__messagebox__askyesno(self, *a, **k):
        self.st.event('ask', a)
        a = self.choose([True, False]) if self.answers is None else self.answers == 'y'
        self.st.event('answer', 'y' if a else 'n')
        return a
