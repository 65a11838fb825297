"""P26-P29: encodings, configuration files, command shells, translated messages."""
import ast
import gettext
import json
import os
import posixpath
import re
import string

from vlib import check
from vlib import holes as H
from vlib.check import Job
from vlib.lint import Pkg
from vlib.scen import *
from .build import fill_novel, put_file
from .conv import bad_inputs, cases, convert
from .files import make, writers

NAMES = ('author', 'yw_last_open', 'windowGeometry', 'PreferredLanguage', 'größe', 'x')
INI = '/cfg/app.ini'
TEXTS = ('', '%', '100 %', '%(author)s', '%%', '${author}', '$', '#', '#x', ';', '; x', 'a # b', 'a ; b', '=', ':', '= x', 'a=b', 'a: b', '[x]', '[SETTINGS]', 'author',
         '"', '"x"', "'x'", '\\', '\\n', 'C:\\x\\y', 'äöü—é', '😀', 'yes', 'No', '0', 'None', 'a\tb', 'a  b', 'REM', '<x>&amp;', 'x' * 300)


def config(d, settings, options):
    return d.new('Configuration', settings, options)


def p27_round(j, settings, options, defaults=None, defopts=None, twice=False):
    """What is written is read back by another object with other defaults."""
    ds = {k: 'default ' + k for k in settings} if defaults is None else defaults
    do = {k: not bool(v) for k, v in options.items()} if defopts is None else defopts

    def f(d):
        a = config(d, d.dct(settings), d.dct(options))
        d.call(a, 'write', INI)
        if twice:
            d.call(a, 'read', INI)
            d.call(a, 'write', INI)
        x, y = d.dct(ds), d.dct(do)
        b = config(d, x, y)
        d.call(b, 'read', INI)
        return d.a(a, 'settings'), d.a(a, 'options'), d.a(b, 'settings'), d.a(b, 'options'), d.val(x), d.val(y)
    for k, v, st in j.run(f, put_file(j, {INI: 'an older\nfile'})):
        what = f'settings {show(settings)}, options {show(options)}'
        if not j.raised('no-exception', k, v, st, what):
            continue
        at = j.anchor('settings', 'set')
        ao = j.anchor('options', 'getboolean')
        j.eq('settings-read', v[2], {n: (str(settings[n]) if n in settings and settings[n] is not None else str(settings[n]) if n in settings else ds[n]) for n in ds},
             f'{what}: the settings read back are', at)
        j.eq('options-read', v[3], {n: bool(options[n]) if n in options else do[n] for n in do}, f'{what}: the options read back are', ao)
        if not twice:
            j.eq('settings-kept', v[0], settings, f'{what}: the settings after writing are', at)
            j.eq('options-kept', v[1], options, f'{what}: the options after writing are', ao)
        j.eq('defaults-kept', v[4], ds, f'{what}: the dictionary of default settings is', at)
        j.eq('defaults-kept', v[5], do, f'{what}: the dictionary of default options is', ao)


YES = ('yes', 'Yes', 'YES', 'true', 'True', 'on', '1')
NO = ('no', 'No', 'false', 'FALSE', 'off', '0')
BAD = ('', 'maybe', 'ja', '2', '-1', 'None', 'yes no')


def p27_read(j, text, ws, wo, settings=None, options=None):
    """Reading a handwritten or damaged file."""
    ds = {'a': 'A', 'bC': 'B', 'same': 'S'} if settings is None else settings
    do = {'p': True, 'qR': False, 'same': True} if options is None else options

    def f(d):
        b = config(d, d.dct(ds), d.dct(do))
        d.call(b, 'read', INI)
        return d.a(b, 'settings'), d.a(b, 'options')
    for k, v, st in j.run(f, put_file(j, {INI: text} if text is not None else {})):
        what = f'reading {show(text)!r}'
        if not j.raised('no-exception', k, v, st, what):
            continue
        j.eq('settings-defaults', v[0], {**ds, **ws}, f'{what}: the settings are', j.anchor('settings'))
        j.eq('options-defaults', v[1], {**do, **wo}, f'{what}: the options are', j.anchor('options'))
        j.ob('file-kept', all_same(j, st, text), f'{what}: the file is changed', j.anchor('settings'))


def all_same(j, st, text):
    c = st.fs.get(INI)
    return c is None if text is None else c == ('text', text, 'utf-8', True)


def p27_set(j):
    """Replacing the stores: what is given is copied, what is omitted remains."""
    def f(d):
        s, o = d.dct({'a': 'A'}), d.dct({'p': True})
        c = config(d, s, o)
        out = []
        n = d.dct({'b': 'B'})
        d.call(c, 'set', settings=n)
        out.append((d.a(c, 'settings'), d.a(c, 'options')))
        d.call(c, 'set', options=d.dct({'q': False}))
        out.append((d.a(c, 'settings'), d.a(c, 'options')))
        d.call(c, 'set')
        out.append((d.a(c, 'settings'), d.a(c, 'options')))
        d.call(c, 'write', INI)
        d.put(d.get(c, 'settings'), 'b', 'changed')
        out.append((d.val(n), d.val(s)))
        d.call(c, 'read', INI)
        out.append((d.a(c, 'settings'), d.a(c, 'options')))
        e = d.new('Configuration')
        d.put(d.get(e, 'settings'), 'own', 'x')
        out.append((d.a(d.new('Configuration'), 'settings'), d.a(d.new('Configuration'), 'options')))
        d.call(d.new('Configuration'), 'write', '/cfg/empty.ini')
        d.call(c, 'read', '/cfg/empty.ini')
        out.append((d.a(c, 'settings'), d.a(c, 'options')))
        return out
    want = [({'b': 'B'}, {'p': True}), ({'b': 'B'}, {'q': False}), ({'b': 'B'}, {'q': False}), ({'b': 'B'}, {'a': 'A'}), ({'b': 'B'}, {'q': False}),
            ({}, {}), ({'b': 'B'}, {'q': False})]
    names = ('replacing the settings', 'replacing the options', 'replacing nothing', 'changing a store afterwards (given dictionaries)', 'reading after writing',
             'a new configuration without defaults', 'reading an empty file')
    for k, v, st in j.run(f, put_file(j, {})):
        if j.raised('no-exception', k, v, st, 'replacing the stores'):
            for n, g, w in zip(names, v, want):
                j.eq('stores', g, w, n, j.anchor('settings', 'options'))


def jobs27(tier):
    out = [Job('stores', p27_set)]
    out.append(Job('any', p27_round, ({n: T('s.' + n, 'text') for n in NAMES}, {n: bool(i % 2) for i, n in enumerate(NAMES)})))
    for n in NAMES:
        for o in (True, False, 1, 0, '', 'x', None):
            out.append(Job(f'one/{n}/{o!r}', p27_round, ({n: T('s', 'text')}, {n: o}, None, None, o is True)))
    for i, x in enumerate(TEXTS):
        out.append(Job(f'text/{i}', p27_round, ({'author': x, 'other': x, 'bC': 'z'}, {'author': True, 'p': False}, None, None, i % 2 == 0)))
    for x in (0, 1, -3, 2.5, True, False):
        out.append(Job(f'value/{x!r}', p27_round, ({'n': x}, {})))
    # the reader knows other entries than the writer
    out.append(Job('unknown', p27_round, ({'a': T('a'), 'b': T('b')}, {'p': True, 'q': False}, {'b': 'B', 'c': 'C'}, {'q': True, 'r': True})))
    out.append(Job('swapped', p27_round, ({'a': 'yes'}, {'p': True}, {'p': 'P'}, {'a': False})))
    out.append(Job('only-settings', p27_round, ({'a': T('a')}, {}, None, {'a': True})))
    out.append(Job('only-options', p27_round, ({}, {'a': True}, {'a': 'A'}, None)))
    out.append(Job('none', p27_round, ({}, {}, {'a': 'A'}, {'p': True})))
    files = [
        (None, {}, {}), ('', {}, {}), ('\n\n', {}, {}), ('# nothing\n; here\n', {}, {}),
        ('[SETTINGS]\n', {}, {}), ('[OPTIONS]\n', {}, {}), ('[OPTIONS]\n\n[SETTINGS]\n', {}, {}),
        ('[OTHER]\na = x\np = no\n', {}, {}),
        ('[SETTINGS]\na = x\n', {'a': 'x'}, {}), ('[OPTIONS]\np = no\n', {}, {'p': False}),
        ('[OPTIONS]\nsame = no\n[SETTINGS]\nsame = x\n', {'same': 'x'}, {'same': False}),
        ('[SETTINGS]\nbC = x\nBad = y\n[OPTIONS]\nqR = yes\nzz = maybe\n', {'bC': 'x'}, {'qR': True}),
        ('[SETTINGS]\nbc=x\n[OPTIONS]\nqr:on\n', {'bC': 'x'}, {'qR': True}),
        ('[SETTINGS]\na = \nbC =\n', {'a': '', 'bC': ''}, {}),
        ('[SETTINGS]\na = %(bC)s\n', {'a': '%(bC)s'}, {}), ('[SETTINGS]\na = 50%\n', {'a': '50%'}, {}),
        ('[SETTINGS]\np = x\n[OPTIONS]\na = no\n', {}, {}),
        ('[SETTINGS]\na = ' + T('a') + '\n[MORE]\nx = y\n', {'a': T('a')}, {}),
    ]
    files += [(f'[OPTIONS]\np = {x}\nqR = {y}\n', {}, {'p': False, 'qR': True}) for x, y in zip(NO, YES)]
    files += [(f'[OPTIONS]\np = {x}\nqR = {y}\n', {}, {'p': True, 'qR': False}) for x, y in zip(YES, NO)]
    files += [(f'[OPTIONS]\np = {x}\nqR = yes\nsame = {x}\n', {}, {'qR': True}) for x in BAD]
    files += [(f'[OPTIONS]\nqR = {x}\nsame = no\n[SETTINGS]\na = {x}\n', {'a': x}, {'same': False}) for x in BAD]
    for i, x in enumerate(files):
        out.append(Job(f'file/{i}', p27_read, x))
    return out


P27 = dict(
    rule='abstract interpretation of Configuration.write followed by Configuration.read on an object with other defaults, with settings of unknown text and of all texts with a meaning in INI files: the stores read back equal the stores written; handwritten files leave exactly the missing or invalid entries at their defaults',
    assumptions=['setting texts are single lines without outer blanks', 'names do not differ by case only', 'model of configparser in vlib/models.py'],
    jobs=jobs27)


# ------------------------------------------------------------------------------- P26
UTF8 = ('utf-8', 'utf-8-sig')
OPEN = ('builtins.open', 'io.open', 'codecs.open', 'os.fdopen', 'io.TextIOWrapper', 'tempfile.NamedTemporaryFile', 'tempfile.TemporaryFile', 'fileinput.input')
PARTS = ('pywriter', 'sample')


def norm_codec(v):
    v = str(v).lower().replace('_', '-')
    return {'utf8': 'utf-8', 'u8': 'utf-8', 'utf-8': 'utf-8', 'utf8-sig': 'utf-8-sig', 'utf16': 'utf-16', 'utf-16': 'utf-16'}.get(v, v)


def codec_ok(v, kind):
    return isinstance(v, str) and (norm_codec(v) in UTF8 or kind == 'read' and norm_codec(v).startswith('utf-16'))


def text_sites(p):
    """(module, call, function, kind, encoding expression or None or 'unknown', what) of all text input and output."""
    for m in p.mods:
        for c, f, _ in m.calls:
            d = p.dotted(c.func, m, f)
            name = c.func.attr if isinstance(c.func, ast.Attribute) else None
            if d == 'functools.partial' and c.args and p.dotted(c.args[0], m, f) in OPEN:
                c2 = ast.copy_location(ast.Call(func=c.args[0], args=c.args[1:], keywords=c.keywords), c)
                if p.argof(c2, None, 'encoding') is not None:
                    yield m, c, f, 'both', p.argof(c2, None, 'encoding'), 'open'
                continue
            if isinstance(c.func, ast.Name) or isinstance(c.func, ast.Attribute):
                b = p.bindings(c.func.id, m, f) if isinstance(c.func, ast.Name) else []
                if len(b) == 1 and isinstance(b[0], ast.Call) and p.dotted(b[0].func, m, f) == 'functools.partial':
                    q = b[0]
                    if q.args and p.dotted(q.args[0], m, f) in OPEN:
                        c2 = ast.copy_location(ast.Call(func=q.args[0], args=q.args[1:] + c.args, keywords=c.keywords + q.keywords), c)
                        yield from open_site(p, m, c2, f, p.dotted(q.args[0], m, f))
                    continue
            if d in OPEN:
                yield from open_site(p, m, c, f, d)
            elif name in ('read_text', 'write_text'):
                yield m, c, f, name.split('_')[0], p.argof(c, 0 if name == 'read_text' else 1, 'encoding'), name
            elif name == 'open' and d is None and not c.args[1:] and not any(k.arg == 'encoding' for k in c.keywords):
                r = [x for x in p.bindings(c.func.value.id, m, f)] if isinstance(c.func.value, ast.Name) else [c.func.value]
                if any(isinstance(x, ast.Call) and (p.dotted(x.func, m, f) or '').startswith('pathlib.') for x in r):
                    yield m, c, f, 'both', None, 'Path.open'
            elif name in ('read', 'write') and made_by(p, c.func.value, m, f, ('ConfigParser', 'RawConfigParser')) and name == 'read':
                yield m, c, f, 'read', p.argof(c, 1, 'encoding'), 'ConfigParser.read'
            elif name == 'write' and (made_by(p, c.func.value, m, f, ('ElementTree',)) or {k.arg for k in c.keywords} & {'xml_declaration', 'short_empty_elements'}):
                yield m, c, f, 'xml', p.argof(c, 1, 'encoding'), 'ElementTree.write'
            elif name in ('encode', 'decode') and (c.args or c.keywords):
                yield m, c, f, 'encode' if name == 'encode' else 'read', p.argof(c, 0, 'encoding'), name
            elif d in ('builtins.bytes', 'builtins.str', 'codecs.encode', 'codecs.decode') and len(c.args) > 1:
                yield m, c, f, 'encode' if 'bytes' in d or 'encode' in d else 'read', c.args[1], d


def open_site(p, m, c, f, d):
    i = {'io.TextIOWrapper': None, 'tempfile.NamedTemporaryFile': 0, 'tempfile.TemporaryFile': 0}.get(d, 1)
    mode = p.argof(c, i, 'mode') if i is not None else None
    default = 'w+b' if d.startswith('tempfile') else 'r'
    modes = [(default, True)] if mode is None else None if mode == 'unknown' else p.values(mode, m, f)
    if modes is not None and all('b' in str(x) for x, _ in modes):
        return
    kind = 'both' if modes is None else 'read' if all('r' in str(x) and '+' not in str(x) for x, _ in modes) else 'write'
    e = p.argof(c, {'codecs.open': 2, 'io.TextIOWrapper': 1, 'builtins.open': 3, 'io.open': 3, 'os.fdopen': 3}.get(d), 'encoding')
    if e is None and modes is None:
        e = 'unknown'
    yield m, c, f, kind, e, d.split('.')[-1]


def made_by(p, e, m, f, classes, depth=0):
    """Is the value of the expression an object of one of the library classes?"""
    if depth > 4 or e is None:
        return False
    if isinstance(e, ast.Call):
        d = (p.dotted(e.func, m, f) or '').split('.')[-1]
        return d in classes or 'ElementTree' in classes and d == 'parse' and (p.dotted(e.func, m, f) or '').startswith('xml')
    if isinstance(e, ast.Name):
        return any(made_by(p, x, m, f, classes, depth + 1) for x in p.bindings(e.id, m, f) if x is not None)
    if isinstance(e, ast.Attribute):
        return any(made_by(p, v, n, None, classes, depth + 1) for n in p.mods for a, v, _ in n.attrs if a == e.attr and v is not None)
    return False


def p26_sites(j):
    p = Pkg(parts=PARTS)
    n = 0
    for m, c, f, kind, e, what in text_sites(p):
        n += 1
        where = m.where(c, f)
        key = f'site/{m.name.split(".")[-1]}.{f.name if f else ""}'
        if e is None:
            j.ob(key, False, f'{what} without an encoding: the text is {"read" if kind == "read" else "written"} in the encoding of the locale', where)
            continue
        vs = None if e == 'unknown' else p.values(e, m, f)
        if vs is None:
            j.inconc.append(f'{where}: the encoding of {what} is not known from the source')
            continue
        bad = [v for v, definite in vs if definite and not codec_ok(v, kind)]
        maybe = [v for v, definite in vs if not definite and not codec_ok(v, kind)]
        j.ob(key, not bad, f'{what} with the encoding {bad and bad[0]!r}', where)
        if maybe and not bad:
            j.inconc.append(f'{where}: the encoding of {what} may be {maybe}')
    j.ob('sites', n > 0, 'no text is read or written', '')


def encodings_used(j, what):
    for kind, enc, errors, loc in sorted(j.it.encodings, key=str):
        where = loc.replace('.', '/').replace(':', '.py:')
        j.ob(f'used/{loc.split(":")[0]}', codec_ok(enc, kind), f'{what}: text is {"read" if kind == "read" else "written"} here '
             + (f'with the encoding {enc!r}' if enc else 'in the encoding of the locale'), 'src/' + where)


def p26_run(j, tag, conv, src, suffix, files, target):
    convert(j, conv, src, files, suffix, answers='y')
    j.ob('run', True)
    encodings_used(j, f'{conv}.run({src!r}, suffix={suffix!r})')


def p26_project(j):
    from .conv import small_project
    for enc in ('utf-8', 'utf-16'):
        def f(d):
            y = d.new('Yw7File', '/p/x.yw7')
            d.set(y, 'novel', d.new('Novel'))
            d.call(y, 'read')
            d.call(y, 'write')
        for k, v, st in j.run(f, put_file(j, {'/p/x.yw7': ('text', small_project(), enc, True)})):
            j.raised('no-exception', k, v, st, f'reading and writing a project in {enc}')
        encodings_used(j, f'reading and writing a project in {enc}')

    def g(d):
        x = d.new('Configuration', d.dct({'a': 'ä'}), d.dct({'b': True}))
        d.call(x, 'write', INI)
        d.call(x, 'read', INI)
    for k, v, st in j.run(g, put_file(j, {})):
        j.raised('no-exception', k, v, st, 'writing and reading the configuration')
    encodings_used(j, 'writing and reading the configuration')


def p26_writer(j, name):
    def f(d):
        o, path = make(d, name)
        d.set(o, 'novel', fill_novel(d, d.new('Novel'), 'a', 'word', dates=(0, 0, 0)))
        d.call(o, 'write')
    for k, v, st in j.run(f, put_file(j, {})):
        j.raised(f'no-exception/{name}', k, v, st, f'{name}.write()')
    encodings_used(j, f'{name}.write()')


def jobs26(tier):
    out = [Job('sites', p26_sites), Job('project', p26_project)]
    seen = set()
    for c in cases():
        if c[1] == 'Yw7Converter' and c[0] not in seen:
            seen.add(c[0])
            out.append(Job(f'run/{c[0]}', p26_run, (c[0], c[1], c[2], c[3], c[4], c[5])))
    for n in ('DataFiles', 'ProbeExport'):
        out.append(Job(f'writer/{n}', p26_writer, (n,)))
    return out


P26 = dict(technique='static analysis: syntax-tree queries with value and call-site resolution, and abstract interpretation of the source', 
    rule='query over the syntax trees: at every call site that opens a text file, writes an XML tree, reads a configuration or converts text to bytes, the encoding argument resolves (constants, names, attributes, parameters through their call sites) to UTF-8, or to UTF-16 for reading; besides, the encodings in effect at all such sites reached in the abstract execution of every conversion, of reading and writing projects, data files and configurations',
    assumptions=['encodings which are not known from the source and not reached in the abstract executions are reported as undecided'],
    jobs=jobs26)


# ------------------------------------------------------------------------------- P28
SHELLS = ('sh', 'bash', 'dash', 'zsh', 'ksh', 'csh', 'cmd', 'cmd.exe', 'powershell', 'powershell.exe', 'pwsh', '/bin/sh', '/bin/bash')
RUN = {'subprocess.' + n for n in ('call', 'run', 'check_call', 'check_output', 'Popen')}
BANNED = {'os.system': 'runs a command shell', 'os.popen': 'runs a command shell', 'subprocess.getoutput': 'runs a command shell',
          'subprocess.getstatusoutput': 'runs a command shell', 'asyncio.create_subprocess_shell': 'runs a command shell', 'pty.spawn': 'runs a program in a terminal',
          'builtins.eval': 'evaluates text as program code', 'builtins.exec': 'evaluates text as program code', 'builtins.compile': 'evaluates text as program code',
          'pickle.load': 'executes code from data', 'pickle.loads': 'executes code from data', 'marshal.loads': 'executes code from data', 'commands.getoutput': 'runs a command shell'}


def p28_sites(j):
    p = Pkg(parts=PARTS)
    n = 0
    for m in p.mods:
        for c, f, _ in m.calls:
            n += 1
            d = p.dotted(c.func, m, f)
            where = m.where(c, f)
            key = f'{m.name.split(".")[-1]}.{f.name if f else ""}'
            if d == 'functools.partial' and c.args:
                c = ast.copy_location(ast.Call(func=c.args[0], args=c.args[1:], keywords=c.keywords), c)
                d = p.dotted(c.func, m, f)
            if d in BANNED:
                j.ob(f'banned/{key}', False, f'{d} {BANNED[d]}', where)
            elif d in RUN:
                sh = p.argof(c, None, 'shell')
                vs = [(False, True)] if sh is None else None if sh == 'unknown' else p.values(sh, m, f)
                if vs is None:
                    j.inconc.append(f'{where}: it is not known from the source whether {d} uses a shell')
                elif any(v and definite for v, definite in vs):
                    j.ob(f'shell/{key}', False, f'{d} with shell=True interprets the file name', where)
                elif any(v for v, _ in vs):
                    j.inconc.append(f'{where}: {d} may use a shell')
                a = p.argof(c, 0, 'args')
                b = p.bindings(a.id, m, f) if isinstance(a, ast.Name) else []
                if len(b) == 1 and b[0] is not None:
                    a = b[0]
                if isinstance(a, (ast.List, ast.Tuple)) and a.elts:
                    first = p.values(a.elts[0], m, f) or []
                    j.ob(f'shell/{key}', not (len(a.elts) > 1 and any(v in SHELLS and x for v, x in first)), f'{d} starts the command shell {first}', where)
                elif isinstance(a, ast.JoinedStr) or isinstance(a, ast.BinOp) and isinstance(a.op, (ast.Mod,)) or \
                        isinstance(a, ast.Call) and isinstance(a.func, ast.Attribute) and a.func.attr == 'format':
                    j.ob(f'string/{key}', False, f'{d} gets a command line built from text instead of separate arguments', where)
    j.ob('sites', n > 0, 'no calls', '')


PATHS = ('/p/x.odt', '/p/my file.odt', '/p/$(touch x).odt', '/p/`x`;y|z&.odt', "/p/o'neil.odt", '/p/"x".odt', '/p/a  b.odt', '/p/ä%20#?.odt', '/p/*.odt', '/p/-x.odt', '/p/\\n.odt', '/p/x\ty.odt')
SYSTEMS = (('linux', dict(), {}), ('linux without xdg-open', dict(missing=('xdg-open',)), {}), ('no opener', dict(missing='all'), {}),
           ('mac', dict(missing=('xdg-open',), platform={'sys.platform': 'darwin'}), {}), ('windows', dict(startfile=True, missing='all', platform={'sys.platform': 'win32', 'os.name': 'nt'}), {}))


def p28_open(j, name, opts):
    paths = list(PATHS) + ['/p/' + T('f', 'fname') + '.odt', '/' + T('d', 'fname') + '/' + T('f', 'fname') + '.odt', T('f', 'fname') + '.odt', '/p//q/./x.odt']
    for path in paths:
        def f(d):
            m = next(m for m in d.it.modules.values() if 'open_document' in m.env)
            g = next((m.env['norm_path'] for m in d.it.modules.values() if 'norm_path' in m.env), None)
            d.it.call(m.env['open_document'], [path], {})
            return d.it.call(g, [path], {})
        for k, v, st in j.run(f, put_file(j, {posixpath.normpath(posixpath.join('/cwd', path)): 'x'}), **opts):
            what = f'opening {show(path)!r} ({name})'
            if not j.raised('no-exception', k, v, st, what):
                continue
            w = j.anchor('call', 'run', 'Popen', 'startfile') or j.anchor('norm_path')
            ev = [e for e in st.events if e[0] in ('shell', 'proc', 'start')]
            j.ob('no-shell', not any(e[0] == 'shell' for e in ev), f'{what}: the command {[show(e[1]) for e in ev if e[0] == "shell"]} is given to a shell', w)
            j.ob('opened-once', len(ev) == (0 if name == 'no opener' else 1), f'{what}: {len(ev)} programs are started', w)
            for e in ev:
                args = (e[1],) if e[0] == 'start' else e[1]
                if isinstance(args, str) and e[0] == 'proc':
                    j.ob('own-argument', False, f'{what}: the program gets the command line {show(args)!r} instead of separate arguments', w)
                    continue
                if e[0] == 'shell':
                    continue
                j.ob('own-argument', len(args) in (1, 2, 3) and (same(args[-1], v) is True or same(args[-1], path) is True),
                     f'{what}: the program gets the arguments {[show(a) for a in args]}', w)
                j.ob('own-argument', e[0] == 'start' or not H.has_holes(str(args[0])) and args[0] not in SHELLS, f'{what}: the program is {show(args[0])}', w)


def p28_ui(j, tag, conv, src, suffix, files, target):
    """No conversion starts a program but with separate arguments."""
    st0, outs = convert(j, conv, src, files, suffix, answers='y')
    for k, v, st in outs:
        bad = [e for e in st.events if e[0] == 'shell' or e[0] == 'proc' and isinstance(e[1], str)]
        j.ob('conversion', not bad, f'{conv}.run({src!r}, suffix={suffix!r}): the command {[show(e[1]) for e in bad]} is given to a shell', st.xloc or j.anchor('run'))


def jobs28(tier):
    out = [Job('sites', p28_sites)]
    for n, o, _ in SYSTEMS:
        out.append(Job(f'open/{n}', p28_open, (n, o)))
    for c in cases('/p/$(x) `y`; z'):
        if c[1] == 'Yw7Converter':
            out.append(Job(f'run/{c[0]}', p28_ui, c))
    return out


P28 = dict(technique='static analysis: syntax-tree queries with value and call-site resolution, and abstract interpretation of the source', 
    rule='query over the syntax trees: no call starts a command shell or evaluates text as code; besides, abstract interpretation of opening a document with unknown file names on each system: exactly one program is started, with the unchanged file name as an argument of its own',
    assumptions=['os.startfile passes the name to the system without a shell'],
    jobs=jobs28)


# ------------------------------------------------------------------------------- P29
def fields(text):
    """Replacement fields of a format string; None if it is malformed."""
    out, auto = [], 0
    try:
        for _, name, spec, conv in string.Formatter().parse(text):
            if name is not None:
                if name == '':
                    name, auto = str(auto), auto + 1
                out.append(name)
    except ValueError:
        return None
    return sorted(out)


def percents(text):
    return sorted(re.findall(r'%(?:\(\w+\))?[sdrfx]', text))


def parent_map(tree):
    return {c: n for n in ast.walk(tree) for c in ast.iter_child_nodes(n)}


def dynamic(p, e, m, f, depth=0):
    """A part of the expression which puts runtime text into the message before it is translated."""
    if depth > 6 or e is None:
        return None
    if isinstance(e, ast.JoinedStr):
        bad = [x for x in e.values if isinstance(x, ast.FormattedValue) and p.values(x.value, m, f) is None]
        return (m, e, f, 'an f-string') if bad else None
    if isinstance(e, ast.BinOp) and isinstance(e.op, ast.Mod):
        return m, e, f, 'a %-expression'
    if isinstance(e, ast.BinOp) and isinstance(e.op, ast.Add) and p.values(e, m, f) is None:
        return m, e, f, 'a concatenation'
    if isinstance(e, ast.Call) and isinstance(e.func, ast.Attribute) and e.func.attr in ('format', 'format_map', 'replace', 'join'):
        return m, e, f, f'the result of {e.func.attr}()'
    if isinstance(e, ast.IfExp):
        return dynamic(p, e.body, m, f, depth + 1) or dynamic(p, e.orelse, m, f, depth + 1)
    if isinstance(e, ast.Name):
        g = f
        while g is not None:
            if e.id in m.locals.get(g, {}):
                for v in m.locals[g][e.id]:
                    r = dynamic(p, v, m, g, depth + 1)
                    if r:
                        return r
            if e.id in g.params:
                for n in p.mods:
                    for c, h, _ in n.calls:
                        x = c.func.attr if isinstance(c.func, ast.Attribute) else c.func.id if isinstance(c.func, ast.Name) else None
                        if x == g.name:
                            a = p.bound(c, g, e.id)
                            r = dynamic(p, a, n, h, depth + 1) if isinstance(a, ast.AST) else None
                            if r:
                                return r
                return None
            g = g.outer
    return None


def messages(p):
    """(module, call, function, text or None) of all translated messages."""
    for m in p.mods:
        for c, f, _ in m.calls:
            if isinstance(c.func, ast.Name) and c.func.id == '_' and c.args or \
                    (p.dotted(c.func, m, f) or '').endswith(('.gettext', 'pywriter_globals._')) and c.args:
                if f is not None and f.name == '_':
                    continue
                for v, _x in p.values(c.args[0], m, f) or [(None, True)]:
                    yield m, c, f, v


def p29_sites(j):
    p = Pkg(parts=PARTS)
    parents = {m: parent_map(m.tree) for m in p.mods}
    n = 0
    for m, c, f, text in messages(p):
        n += 1
        where = m.where(c, f)
        key = f'{m.name.split(".")[-1]}.{f.name if f else ""}'
        r = dynamic(p, c.args[0], m, f)
        if r:
            j.ob(f'literal/{key}', False, f'the message to be translated is {r[3]}: it is never found in a dictionary', r[0].where(r[1], r[2]))
            continue
        if not isinstance(text, str):
            j.inconc.append(f'{where}: the message is not known from the source')
            continue
        j.ob(f'literal/{key}', True)
        use = formatting(p, m, c, f, parents[m])
        if use is None:
            continue
        kind, node, count, names = use
        w = m.where(node, f)
        if kind == 'format':
            fs = fields(text)
            ok = fs is not None and all((x.split('.')[0].split('[')[0] in names) or x.isdigit() and int(x) < count for x in fs)
            ok = ok and all(str(i) in [x.split('.')[0].split('[')[0] for x in fs] for i in range(count))
            j.ob(f'arguments/{key}', ok, f'the message {text!r} has the placeholders {fs}, but gets {count} arguments {sorted(names) or ""}', w)
        elif kind == 'percent':
            j.ob(f'arguments/{key}', count is None or len(percents(text)) == count, f'the message {text!r} gets {count} arguments', w)
        else:
            j.ob(f'arguments/{key}', not fields(text), f'the message {text!r} is used without arguments', w)
    j.ob('sites', n > 0, 'no messages', '')


def formatting(p, m, c, f, par):
    """How the translated text is used: ('format', node, number of positional arguments, names), ('percent', ...), ('plain', ...) or None."""
    u = par.get(c)
    if isinstance(u, ast.IfExp):
        u, c = par.get(u), u
    if isinstance(u, ast.Attribute) and u.attr == 'format' and isinstance(par.get(u), ast.Call):
        k = par[u]
        if any(isinstance(a, ast.Starred) for a in k.args) or any(x.arg is None for x in k.keywords):
            return None
        return 'format', k, len(k.args), {x.arg for x in k.keywords}
    if isinstance(u, ast.BinOp) and isinstance(u.op, ast.Mod) and u.left is c:
        r = u.right
        return 'percent', u, len(r.elts) if isinstance(r, ast.Tuple) else None if isinstance(r, (ast.Name, ast.Dict)) else 1, set()
    if isinstance(u, ast.FormattedValue):
        return 'plain', c, 0, set()
    return None


def po_entries(path):
    out, cur, last = [], {}, None
    for line in open(path, encoding='utf-8').read().splitlines() + ['']:
        t = re.match(r'(msgid|msgstr)\s+(".*")\s*$', line)
        if t:
            if t.group(1) == 'msgid' and cur:
                out.append((cur.get('msgid', ''), cur.get('msgstr', '')))
                cur = {}
            last = t.group(1)
            cur[last] = ast.literal_eval(t.group(2))
        elif line.startswith('"') and last:
            cur[last] += ast.literal_eval(line.strip())
    if cur:
        out.append((cur.get('msgid', ''), cur.get('msgstr', '')))
    return [x for x in out if x[0]]


def catalogs():
    root = os.path.dirname(SRC)
    out = []
    for base, dirs, names in os.walk(root):
        dirs[:] = [d for d in dirs if not d.startswith('.') and d != 'test']
        for n in sorted(names):
            path = os.path.join(base, n)
            rel = os.path.relpath(path, root)
            if n.endswith('.po'):
                out.append((rel, po_entries(path)))
            elif n.endswith('.mo'):
                with open(path, 'rb') as fp:
                    out.append((rel, [x for x in gettext.GNUTranslations(fp)._catalog.items() if isinstance(x[0], str) and x[0]]))
            elif n.endswith('.json') and 'i18n' in rel:
                out.append((rel, [x for x in json.load(open(path, encoding='utf-8')).items() if isinstance(x[1], str)]))
    return out


def p29_catalog(j, rel, entries):
    j.ob('catalog', len(entries) > 0, f'{rel}: no messages', rel)
    for a, b in entries:
        if not b:
            continue
        fa, fb = fields(a), fields(b)
        j.ob(f'placeholders/{rel}/{a[:40]}', fa is None or fa == fb, f'{rel}: the message {a!r} has the placeholders {fa}, its translation {b!r} has {fb}', rel)
        j.ob(f'placeholders/{rel}/{a[:40]}', percents(a) == percents(b), f'{rel}: the message {a!r} has the placeholders {percents(a)}, its translation {b!r} has {percents(b)}', rel)


GERMAN = """
TABLE = {}


def _(message):
    return TABLE.get(message, message)
"""


def translated(j, table):
    m = check.BASE.modules.get('german') or check.BASE.load_source('german', '/verif/checks/misc.py', GERMAN.format(repr(table)))
    for x in check.BASE.modules.values():
        if '_' in x.env and x is not m:
            x.env['_'] = m.env['_']


def p29_run(j, name, conv, src, suffix, files, table):
    """The same run in both languages: the messages contain the same file names."""
    runs = []
    for lang in ('English', 'German'):
        if lang == 'German':
            translated(j, table)
        st0, outs = convert(j, conv, src, files, suffix, answers='y')
        for k, v, st in outs:
            j.raised(f'no-exception/{name}', k, v, st, f'{conv}.run({src!r}, suffix={suffix!r}) in {lang}')
        runs.append([(v, st) for k, v, st in outs if k == 'N'])
    if len(runs[0]) != len(runs[1]):
        j.ob('same-outcomes', False, f'{conv}.run({src!r}): {len(runs[0])} outcomes in English, {len(runs[1])} in German', j.anchor('_'))
        return
    for (a, s), (b, t) in zip(*runs):
        what = f'{conv}.run({src!r}, suffix={suffix!r})'
        w = t.xloc or j.anchor('set_info_how', 'set_info_what', '_')
        j.ob('same-exception', (a[0] is None) == (b[0] is None), f'{what} in German: {b[0]}', w)
        j.ob('same-file', a[2] == b[2] and len(a[1]) == len(b[1]), f'{what}: messages {a[1]} and {b[1]}', w)
        asked = [[e[1] for e in x.events if e[0] == 'ask'] for x in (s, t)]
        for x, y in zip(a[1] + a[3] + a[4] + asked[0], b[1] + b[3] + b[4] + asked[1]):
            j.ob('file-names', names_in(x) == names_in(y), f'{what}: {x!r} in English, {y!r} in German', w)
            j.ob('error-mark', x.startswith('!') == y.startswith('!'), f'{what}: {x!r} in English, {y!r} in German', w)
            j.ob('placeholder-left', not re.search(r'\{\w*\}', y), f'{what}: {y!r}', w)


def names_in(s):
    return sorted(re.findall(r'/[\w./ ]+', s))


def jobs29(tier):
    out = [Job('sites', p29_sites)]
    table = {}
    for rel, entries in catalogs():
        out.append(Job(f'catalog/{rel}', p29_catalog, (rel, entries)))
        if rel.endswith('.mo'):
            table.update({a: b for a, b in entries if b})
    seen = set()
    for c in cases():
        if c[1] == 'Yw7Converter' and c[0] not in seen:
            seen.add(c[0])
            out.append(Job(f'run/{c[0]}', p29_run, (c[0], c[1], c[2], c[3], {**c[4], c[5]: c[4].get(c[5], 'old')} if c[0].startswith('export') else c[4], table)))
    for i, b in enumerate(bad_inputs()):
        out.append(Job(f'bad{i}/{b[0]}', p29_run, (b[0], 'Yw7Converter', *b[1:], table)))
    return out


P29 = dict(technique='static analysis: syntax-tree queries with value and call-site resolution, and abstract interpretation of the source', 
    rule='query over the syntax trees: every message to be translated is known from the source, and the number of its arguments is that of its placeholders; comparison of the placeholders of each message in all dictionaries with those of its translation; besides, abstract interpretation of every conversion and failure with both languages: the messages name the same files',
    assumptions=['the dictionaries in the repository are those in use'],
    jobs=jobs29)
