"""Stand-in for tkinter: widgets keep their options, other methods do nothing."""


class Misc:

    def __init__(self, master=None, cnf=None, **kw):
        self._opts = dict(kw)
        self._entries = []
        self._bound = {}
        if cnf:
            self._opts.update(cnf)

    def config(self, cnf=None, **kw):
        if cnf:
            self._opts.update(cnf)
        self._opts.update(kw)

    configure = config

    def cget(self, key):
        return self._opts.get(key, f'default {key}')

    def __getitem__(self, key):
        return self.cget(key)

    def __setitem__(self, key, value):
        self._opts[key] = value

    def title(self, string=None):
        if string is None:
            return self._opts.get('title', '')
        self._opts['title'] = string

    wm_title = title

    def geometry(self, newGeometry=None):
        if newGeometry is None:
            return self._opts.get('geometry', '1x1')
        self._opts['geometry'] = newGeometry

    wm_geometry = geometry

    def winfo_geometry(self):
        return self._opts.get('geometry', '1x1')

    def protocol(self, name=None, func=None):
        self._bound[name] = func

    def bind(self, sequence=None, func=None, add=None):
        self._bound[sequence] = func

    def __getattr__(self, name):
        if name.startswith('__'):
            raise AttributeError(name)
        return _ignore


def _ignore(*args, **kw):
    return None


class Variable:

    def __init__(self, master=None, value=None, name=None):
        self._value = value

    def get(self):
        return self._value

    def set(self, value):
        self._value = value


StringVar = IntVar = BooleanVar = DoubleVar = Variable


class Tk(Misc):
    pass


class Toplevel(Misc):
    pass


class Frame(Misc):
    pass


class Label(Misc):
    pass


class Button(Misc):
    pass


class Text(Misc):
    pass


class Menu(Misc):
    """Entries are lists [kind, options]."""

    def add(self, itemType, cnf=None, **kw):
        options = dict(kw)
        if cnf:
            options.update(cnf)
        self._entries.append([itemType, options])

    def add_command(self, cnf=None, **kw):
        self.add('command', cnf, **kw)

    def add_cascade(self, cnf=None, **kw):
        self.add('cascade', cnf, **kw)

    def entryconfigure(self, index, cnf=None, **kw):
        for entry in self._entries:
            if entry[1].get('label') == index:
                entry[1].update(kw)
                if cnf:
                    entry[1].update(cnf)
                return

        raise RuntimeError(f'bad menu entry index "{index}"')

    entryconfig = entryconfigure

    def entrycget(self, index, option):
        for entry in self._entries:
            if entry[1].get('label') == index:
                return entry[1].get(option, '')

        raise RuntimeError(f'bad menu entry index "{index}"')
