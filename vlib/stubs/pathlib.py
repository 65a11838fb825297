"""Stand-in for pathlib, on top of os, os.path and open()."""
import os
import shutil


class PurePath:

    def __init__(self, *parts):
        self._p = os.path.join(*[os.fspath(p) for p in parts]) if parts else '.'
        while '//' in self._p:
            self._p = self._p.replace('//', '/')
        while '/./' in self._p:
            self._p = self._p.replace('/./', '/')
        if self._p.startswith('./') and len(self._p) > 2:
            self._p = self._p[2:]
        if self._p.endswith('/') and self._p != '/':
            self._p = self._p[:-1]
        if not self._p:
            self._p = '.'

    def __str__(self):
        return self._p

    def __fspath__(self):
        return self._p

    def __repr__(self):
        return f"PosixPath('{self._p}')"

    def __eq__(self, other):
        return isinstance(other, PurePath) and self._p == other._p

    def __truediv__(self, other):
        return self.__class__(self._p, other)

    def __rtruediv__(self, other):
        return self.__class__(other, self._p)

    def joinpath(self, *others):
        return self.__class__(self._p, *others)

    def as_posix(self):
        return self._p

    def as_uri(self):
        return 'file://' + self._p

    def is_absolute(self):
        return os.path.isabs(self._p)

    @property
    def name(self):
        return os.path.basename(self._p) if self._p != '.' else ''

    @property
    def suffix(self):
        ext = os.path.splitext(self.name)[1]
        return '' if ext == '.' else ext

    @property
    def stem(self):
        name = self.name
        suffix = self.suffix
        return name[:len(name) - len(suffix)] if suffix else name

    @property
    def parent(self):
        return self.__class__(os.path.dirname(self._p) or '.')

    @property
    def parts(self):
        parts = tuple(p for p in self._p.split('/') if p)
        return ('/',) + parts if self._p.startswith('/') else parts

    def with_name(self, name):
        return self.parent / name

    def with_suffix(self, suffix):
        return self.parent / (self.stem + suffix)

    def with_stem(self, stem):
        return self.parent / (stem + self.suffix)


class Path(PurePath):

    @classmethod
    def cwd(cls):
        return cls(os.getcwd())

    def exists(self):
        return os.path.exists(self._p)

    def is_file(self):
        return os.path.isfile(self._p)

    def is_dir(self):
        return os.path.isdir(self._p)

    def open(self, mode='r', buffering=-1, encoding=None, errors=None, newline=None):
        return open(self._p, mode, encoding=encoding, errors=errors, newline=newline)

    def read_text(self, encoding=None, errors=None, newline=None):
        with open(self._p, 'r', encoding=encoding, errors=errors) as f:
            return f.read()

    def read_bytes(self):
        with open(self._p, 'rb') as f:
            return f.read()

    def write_text(self, data, encoding=None, errors=None, newline=None):
        with open(self._p, 'w', encoding=encoding, errors=errors, newline=newline) as f:
            return f.write(data)

    def write_bytes(self, data):
        with open(self._p, 'wb') as f:
            return f.write(data)

    def unlink(self, missing_ok=False):
        if missing_ok and not os.path.exists(self._p):
            return
        os.remove(self._p)

    def rename(self, target):
        os.replace(self._p, target)
        return self.__class__(target)

    def replace(self, target):
        os.replace(self._p, target)
        return self.__class__(target)

    def mkdir(self, mode=0o777, parents=False, exist_ok=False):
        if exist_ok and os.path.isdir(self._p):
            return
        os.mkdir(self._p)

    def rmdir(self):
        os.rmdir(self._p)

    def touch(self, mode=0o666, exist_ok=True):
        with open(self._p, 'a'):
            pass

    def resolve(self, strict=False):
        return self.__class__(os.path.realpath(self._p))

    def absolute(self):
        return self.__class__(os.path.realpath(self._p))

    def stat(self):
        return os.stat(self._p)

    def iterdir(self):
        for name in os.listdir(self._p):
            yield self / name


PosixPath = Path
PurePosixPath = PurePath
