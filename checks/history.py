"""P35: earlier documents, conversions and failures leave no trace in later ones."""
import posixpath

from vlib.check import Job
from vlib.core import PyRaise
from vlib.scen import *
from . import conv
from .build import *
from .docs import members
from .files import documents, make
from .imports import AUTO, COLUMNS, Hd, P, S, markers, novel_with, ods, odt, pairs, reader_class, row, span


def agree(j, key, gots, wants, what, where):
    """Every outcome after the history is one that occurs without it."""
    if not j.ob(f'driver/{key}', bool(gots) and bool(wants), f'{what}: no outcome'):
        return
    for g, facts in gots:
        rs = [same(g, w, facts) for w in wants]
        ok = True if True in rs else None if None in rs else False
        j.ob(key, ok, '' if ok else f'{what}: ' + difference(g, wants[0], facts), '' if ok else where())


def difference(g, w, facts=None, at=''):
    """The first difference between two values."""
    if isinstance(g, dict) and isinstance(w, dict):
        for k in list(w) + [k for k in g if k not in w]:
            if k not in g:
                return f'{show(k)} is missing'
            if k not in w:
                return f'there is an additional {show(k)}'
            if same(g[k], w[k], facts) is not True:
                return difference(g[k], w[k], facts, f'{at} {show(k)}')
    if isinstance(g, (list, tuple)) and isinstance(w, (list, tuple)) and len(g) == len(w):
        for i, (a, b) in enumerate(zip(g, w)):
            if same(a, b, facts) is not True:
                return difference(a, b, facts, f'{at}')
    if isinstance(g, str) and isinstance(w, str) and len(g) > 300:
        i = next((i for i, (a, b) in enumerate(zip(g, w)) if a != b), min(len(g), len(w)))
        return f'{at} …{show(g[max(0, i - 60):i + 200])} instead of …{show(w[max(0, i - 60):i + 200])}'
    return f'{at} is {show(g)} instead of {show(w)}'


def outcomes(j, key, f, st, what, **options):
    out = []
    for k, v, s in j.run(f, st, **options):
        if j.raised(f'no-exception/{key}', k, v, s, what):
            out.append((v, s))
    return out


# ------------------------------------------------------------------------------------------- reading
OTHER = (AUTO.replace('fo:font-style="italic"', 'fo:color="#00ff00"').replace('fo:font-weight="bold"', 'fo:font-style="italic"')
         .replace('fo:language="fr" fo:country="FR"', 'fo:language="it" fo:country="IT"').replace('fo:color="#ff0000"', 'fo:font-weight="bold"')
         .replace('fo:language="en" fo:country="US"', 'fo:color="#0000ff"').replace('"Quotations"', '"Text_20_body"')
         .replace('"Heading_20_2"', '"Heading_20_1"'))


def variant(doc, content=lambda t: t, styles=lambda t: t):
    """The document with other content or styles."""
    return ('zip', True, tuple((n, ('text', {'content.xml': content, 'styles.xml': styles}.get(n, lambda t: t)(c[1]), *c[2:])) for n, c in doc[2]))


def fixed(p):
    """Certain words, where unknown ones would have too many cases."""
    return lambda n: f'{p}{n}word'


def rich(p, w=None):
    """Paragraphs that use every automatic style and every kind of block."""
    w = w or (lambda n: T(f'{p}.{n}', 'word'))
    t = [span(w(f't{i}'), f'T{i}') for i in range(1, 6)]
    out = [P(''.join(t)), P(w('p1'), 'P1'), P(w('p2'), 'P2'), P(w('q'), 'Quotations'),
           f'<text:list><text:list-item>{P(w("l"))}</text:list-item></text:list>',
           P(w('n') + f'<office:annotation><dc:creator>{w("cr")}</dc:creator>{P(w("an"))}</office:annotation>' + w('m'))]
    return out


def text_document(sfx, p):
    """(document, places)."""
    if sfx in COLUMNS:
        kind, pre, cols = COLUMNS[sfx]
        rows = [row([pre + i] + ['2' if k in ('rating', 'number') else T(f'{p}{i}.{x}', 'word') for x, (a, k) in enumerate(cols)], 0) for i in ('1', '2')]
        return ods(rows), [(kind, i, 'title') for i in ('1', '2')]
    if not sfx:
        w = fixed(p)
        return odt(Hd(w('h1'), 1) + Hd(w('h2'), 2) + ''.join(rich(p, w)) + P('* * *') + P(w('e')) + P(w('h3'), 'P3') + P(w('f')), title=w('title')), []
    if sfx == 'outline':
        w = lambda n: T(f'{p}.{n}', 'word')
        return odt(Hd(w('h1'), 1) + P(w('a')) + Hd(w('h2'), 2) + P(w('b')) + Hd(w('h3'), 3) + P(w('c')), title=w('title')), []
    body, places = markers(sfx, [rich(p + '1'), rich(p + '2')])
    return odt(body), places


def cut(t, at='"Quotations">'):
    """The document ends in the middle of a block within the first section."""
    i = t.find(at)
    if i < 0:
        i = t.find('<text:p', t.find('<office:spreadsheet')) if 'office:spreadsheet' in t else t.rfind('<text:p')
    return t[:t.find('>', i) + 1] + 'x</wrong>'


def before(sfx, p):
    """Documents that are read earlier: (name, document)."""
    a = text_document(sfx, p)[0]
    out = [('other', a), ('malformed', variant(a, cut))]
    if sfx not in COLUMNS:
        out += [(f'malformed {at}', variant(a, lambda t, at=at: cut(t, f'"{at}">'))) for at in ('T1', 'T3', 'P1')]
        out.append(('malformed comment', variant(a, lambda t: cut(t, '<dc:creator>'))))
        out.append(('malformed list', variant(a, lambda t: cut(t, '<text:list-item>'))))
        out.append(('styles', variant(a, lambda t: t.replace(AUTO, OTHER), lambda t: t.replace('"de"', '"pt"').replace('"AT"', '"BR"'))))
    else:
        kind, pre, cols = COLUMNS[sfx]
        out.append(('short row', ods([row([pre + '1', 'x'], 0).replace('<table:table-cell table:number-columns-repeated="1000"/>', '')])))
    out.append(('no document', ('undecodable',)))
    return out


CLASS_OF = {'': 'OdtRImport', 'outline': 'OdtROutline'}


def read_one(d, sfx, path, places):
    n = d.new('Novel')
    if places:
        novel_with(d, n, places)
    r = d.new(CLASS_OF.get(sfx) or reader_class(sfx), path)
    d.set(r, 'novel', n)
    e = None
    try:
        d.call(r, 'read')
    except PyRaise as x:
        e = d.it.describe(x.val, d.it.st)
    return e, n, r


def p35_read(j, sfx, first):
    """A document read after another one."""
    doc, places = text_document(sfx, 'b')
    ext = conv.extension(sfx)
    name = sfx if sfx.startswith('_') else ''
    path, pa = f'/p/y{name}{ext}', f'/p/x{name if first == sfx else first if first.startswith("_") else ""}{conv.extension(first)}'

    def alone(d):
        e, n, r = read_one(d, sfx, path, places)
        return e, snapshot(d, n, codes=True), d.a(r, 'scenesSplit') if sfx not in COLUMNS and sfx else None
    wants = [v for v, s in outcomes(j, f'alone{sfx}', alone, put_file(j, {path: doc}), f'reading {path}', cut_texts=False)]
    j.ob(f'driver{sfx}', bool(wants) and all(w[0] is None for w in wants), f'reading {path} fails: {[w[0] for w in wants]}')
    for tag, a in before(first, 'a'):
        what = f'reading {path} after {pa} ({tag})'
        pl = text_document(first, 'a')[1]

        def f(d):
            e, n1, r1 = read_one(d, first, pa, pl)
            s1 = snapshot(d, n1, codes=True)
            return alone(d), s1, snapshot(d, n1, codes=True)
        outs = outcomes(j, f'read{sfx}', f, put_file(j, {path: doc, pa: a}), what, cut_texts=False)
        w = lambda: j.anchor('_EM_TAGS', '_lines', 'feed_file', 'handle_data', '_rows')
        agree(j, f'read-after{sfx}', [(v[0], s.facts) for v, s in outs], wants, what, w)
        for v, s in outs:
            ok = same(v[2], v[1], s.facts)
            j.ob(f'earlier-novel{sfx}', ok, '' if ok else f'{what}: the earlier novel changes: ' + difference(v[2], v[1], s.facts), '' if ok else w())


def p35_project(j):
    """Project files read and written after others."""
    files = {'/p/x.yw7': project_xml('a', 'word', (1, 0, 1), foreign=True), '/p/y.yw7': conv.small_project('b'), '/p/z.yw7': conv.MALFORMED,
             '/p/w.yw7': project_xml('w', 'word')}

    def one(d, path, write=True):
        y = d.new('Yw7File', path)
        d.set(y, 'novel', d.new('Novel'))
        return again(d, y, write)

    def again(d, y, write=True):
        e = None
        try:
            d.call(y, 'read')
            s = snapshot(d, d.get(y, 'novel'), codes=True)
            if write:
                d.call(y, 'write')
        except PyRaise as x:
            return d.it.describe(x.val, d.it.st), None
        return e, s

    def texts(st, p):
        return {q: c for q, c in st.fs.items() if q.startswith(p)}
    for b in ('/p/y.yw7', '/p/w.yw7'):
        def alone(d):
            return one(d, b)
        al = outcomes(j, 'alone.yw7', alone, put_file(j, files), f'reading and writing {b}')
        j.ob('driver.yw7', bool(al) and all(v[0] is None for v, s in al), f'reading {b} fails')
        wants = [(v, texts(s, b)) for v, s in al]
        for a in ('/p/x.yw7', '/p/z.yw7', '/p/none.yw7'):
            for write in (False, True):
                def f(d):
                    e = one(d, a, write)
                    return one(d, b)

                def same_object(d):
                    y = d.new('Yw7File', a)
                    d.set(y, 'novel', d.new('Novel'))
                    again(d, y, write)
                    d.set(y, 'novel', d.new('Novel'))
                    d.set(y, 'filePath', b)
                    return again(d, y)
                for fn, how in ((f, 'another object'), (same_object, 'the same object')):
                    what = f'reading and writing {b} after {a}' + (' was written' if write else '') + f' by {how}'
                    outs = outcomes(j, 'project', fn, put_file(j, files), what)
                    agree(j, f'project-after/{how}', [((v, texts(s, b)), s.facts) for v, s in outs], wants, what, lambda: j.anchor('tree', '_ywApp', 'read', mods=('yw7_file',)))


# ------------------------------------------------------------------------------------------- writing
def novel_of(d, p, lang):
    n = fill_novel(d, d.new('Novel'), p, 'word', dates=(0, 1, 0) if p == 'a' else (1, 0, 1))
    ss = d.get(n, 'scenes')
    for s in d.val(ss):
        d.set(d.it.getitem(ss, s), 'sceneContent', f'{T(p + s + "c", "word")} [i]{T(p + s + "i", "word")}[/i] [lang={lang}]{T(p + s + "l", "word")}[/lang={lang}]\n> {T(p + s + "q", "word")}')
    if p == 'a':
        s = d.it.getitem(ss, '12')
        d.set(s, 'sceneContent', f'{T("a.n1", "word")} /*@fn {T("a.n2", "word")}*/ {T("a.n3", "word")} /*@en {T("a.n4", "word")}*/')
    else:
        s = d.it.getitem(ss, '11')
        d.set(s, 'sceneContent', f'{T("b.n1", "word")} /*@fn {T("b.n2", "word")}*/ [lang={lang}]{T("b.n3", "word")}[/lang={lang}]')
    d.set(n, 'languages', None)
    d.set(n, 'languageCode', lang[:2])
    d.set(n, 'countryCode', lang[-2:])
    if p == 'a':
        chs = d.get(n, 'chapters')
        for c in d.val(chs):
            d.set(d.it.getitem(chs, c), 'chLevel', 1)
    return n


def write_one(d, name, base, p, lang, doc=None):
    if doc is None:
        doc, path = make(d, name, base)
    else:
        path = d.get(doc, 'filePath')
    d.set(doc, 'novel', novel_of(d, p, lang))
    d.call(doc, 'write')
    return doc, path


def p35_write(j, name, first):
    """A document written after another one."""
    def alone(d):
        return write_one(d, name, '/p/y', 'b', 'fr-FR')[1]
    al = outcomes(j, f'alone/{name}', alone, j.base(), f'{name}.write()')
    j.ob(f'driver/{name}', bool(al), f'{name}.write() without outcome')
    wants = [members(s, v) for v, s in al]

    def other(d):
        write_one(d, first, '/p/x', 'a', 'de-DE')
        return alone(d)

    def same_object(d):
        doc, p = write_one(d, name, '/p/y', 'a', 'de-DE')
        return write_one(d, name, '/p/y', 'b', 'fr-FR', doc)[1]

    def twice(d):
        doc, p = write_one(d, name, '/p/y', 'b', 'fr-FR')
        d.call(doc, 'write')
        return p
    for fn, how in ((other, f'another novel with {first}'), (same_object, 'another novel by the same object'), (twice, 'itself')):
        what = f'{name}.write() after writing {how}'
        outs = outcomes(j, f'write/{name}', fn, j.base(), what)
        agree(j, f'write-after/{name}', [(members(s, v), s.facts) for v, s in outs], wants, what, lambda: j.anchor('write', '_tempDir', 'languages'))


def p35_retry(j, name):
    """A document written again after a failure."""
    if name == 'Yw7File':
        def start(d):
            y, n = read_project(d)
            d.set(n, 'title', T('new', 'word'))
            return y, '/p/x.yw7'
        st0 = put_file(j, {'/p/x.yw7': project_xml('a', 'word', (1, 0, 1))})
    else:
        def start(d):
            doc, path = make(d, name, '/p/x')
            d.set(doc, 'novel', novel_of(d, 'a', 'de-DE'))
            return doc, path
        st0 = j.base()
        st0.fs = {**st0.fs, **({} if name == 'DataFiles' else {make_path(j, name): ('text', 'old', 'utf-8', True)})}

    def alone(d):
        doc, path = start(d)
        d.call(doc, 'write')
        return path
    al = outcomes(j, f'alone/{name}', alone, st0, f'{name}.write()')
    wants = [members(s, v) for v, s in al]

    def retry(d):
        doc, path = start(d)
        d.it.st.event('mark')
        e = None
        try:
            d.call(doc, 'write')
        except PyRaise as x:
            e = d.it.describe(x.val, d.it.st)
        d.it.st.event('again')
        if e is None:
            return path, None
        e2 = None
        try:
            d.call(doc, 'write')
        except PyRaise as x:
            e2 = d.it.describe(x.val, d.it.st)
        return path, e2

    def sites(op, path):
        ev = j.it.st.events
        return any(e == ('mark',) for e in ev) and not any(e == ('again',) for e in ev)
    n = 0
    for v, s in outcomes(j, f'retry/{name}', retry, st0, f'{name}.write()', fault_sites=sites):
        fault = conv.fault_of(s)
        what = f'{name}.write() again' + (f' after failing {fault[0]} of {fault[1]}' if fault else '')
        w = lambda: j.anchor('write', '_tempDir', '.bak')
        n += bool(fault)
        if fault and any(e == ('again',) for e in s.events):
            j.ob(f'retry/{name}', v[1] is None, f'{what}: {v[1]}', w() if v[1] else '')
            if v[1] is None:
                agree(j, f'retry-content/{name}', [(members(s, v[0]), s.facts)], wants, what, w)
    j.ob(f'driver-faults/{name}', n > 0, f'{name}.write() has no file operation')


def make_path(j, name):
    return j.run(lambda d: make(d, name, '/p/x')[1])[0][1]


# ------------------------------------------------------------------------------------------- conversions
def steps(j, runs, files, shared, change=None, **options):
    """Run conversions one after another; each value is a list of (exception, messages, new file, warnings, announcements, questions)."""
    st0 = put_file(j, files)
    st0.cwd = '/cwd'
    st0.fs = {**st0.fs, '/cwd': ('dir',), '/p': ('dir',)}

    def f(d):
        m = d.it.modules.get('probe_ui') or d.it.load_source('probe_ui', '/verif/checks/conv.py', conv.UI)
        out, c, snaps = [], None, []
        for cls, src, suffix in runs:
            if out and change:
                d.it.st.fs = {**d.it.st.fs, **change}
            if c is None or not shared or d.it.st.get(c).cls.name != cls:
                c = d.new(cls)
            ui = d.it.call(m.env['ProbeUi'], [], {})
            d.set(c, 'ui', ui)
            e = None
            before = len([x for x in d.it.st.events if x[0] == 'ask'])
            try:
                d.call(c, 'run', src, suffix=suffix)
            except PyRaise as x:
                e = d.it.describe(x.val, d.it.st)
            asks = [x[1] for x in d.it.st.events if x[0] == 'ask'][before:]
            out.append((e, d.a(ui, 'how'), d.a(c, 'newFile'), d.a(ui, 'warned'), d.a(ui, 'what'), asks))
            snaps.append({p: x for p, x in d.it.st.fs.items() if not p.startswith('/tmp/')})
        return out, snaps
    return j.run(f, st0, **options)


def part(fs, base):
    return {p: c for p, c in fs.items() if p.startswith(base)}


def firsts(base='/p/x'):
    """Conversions that come first: (name, source, suffix, files, answer)."""
    prj = conv.small_project('q')
    x = base
    out = [('export', x + '.yw7', '_manuscript', {x + '.yw7': prj}), ('overwrite', x + '.yw7', '_proof', {x + '.yw7': prj, x + '_proof.odt': conv.OTHER}),
           ('split', x + '_manuscript.odt', None, {x + '.yw7': prj, x + '_manuscript.odt': conv.document('_manuscript', True)}),
           ('list', x + '_charlist.ods', None, {x + '.yw7': prj, x + '_charlist.ods': conv.document('_charlist')}),
           ('create', x + '.odt', None, {x + '.odt': conv.document('')}), ('exists', x + '.odt', None, {x + '.odt': conv.document(''), x + '.yw7': prj}),
           ('missing', x + '.yw7', '_manuscript', {}), ('unknown', x + '.yw7', '_nothing', {x + '.yw7': prj}),
           ('malformed', x + '.yw7', '_xref', {x + '.yw7': conv.MALFORMED}),
           ('bad document', x + '_proof.odt', None, {x + '.yw7': prj, x + '_proof.odt': ('undecodable',)}),
           ('not importable', x + '_xref.odt', None, {x + '.yw7': prj, x + '_xref.odt': conv.document('_manuscript')})]
    return out


def p35_runs(j, case, names):
    """A conversion after others, by the same converter and in the same process."""
    tag, cls, src, suffix, files, target = case
    if tag.startswith('export'):
        files = {**files, target: conv.OTHER}
    al = [(v, s) for k, v, s in steps(j, [(cls, src, suffix)], files, False, answers='y') if j.raised(f'no-exception/{tag}', k, v, s, tag)]
    wants = [(v[0][0], part(v[1][0], '/p/y')) for v, s in al]
    w = lambda: j.anchor('newFile', 'scenesSplit', 'run', '_confirm_overwrite', 'check')
    for a in firsts():
        if a[0] not in names:
            continue
        for shared in (False, True):
            what = f'{cls}.run({src!r}, suffix={suffix!r}) after {a[0]}: run({a[1]!r}, suffix={a[2]!r})' + (' with the same converter' if shared else '')
            outs = []
            for k, v, s in steps(j, [(cls, a[1], a[2]), (cls, src, suffix)], {**files, **a[3]}, shared, answers='y'):
                if j.raised(f'no-exception/{tag}', k, v, s, what):
                    outs.append((v, s))
            agree(j, f'run-after/{tag}', [((v[0][1], part(v[1][1], '/p/y')), s.facts) for v, s in outs], wants, what, w)
            for v, s in outs:
                ok = part(v[1][1], '/p/x') == part(v[1][0], '/p/x')
                j.ob(f'earlier-files/{tag}', ok, f'{what}: changes the files of the earlier conversion', '' if ok else w())


CHAIN = ('export_manuscript', 'import_manuscript', 'import_charlist', 'create', 'replaced')


def p35_chain(j, first, case):
    """A conversion after another one of the same project, and after the project file was replaced."""
    a = next((c for c in conv.cases('/p/y') if c[0] == first and c[1] == 'Yw7Converter'), None)
    tag, cls, src, suffix, files, target = case
    files = {**files, **(a[4] if a else {})}
    if first == 'create' and not tag.startswith('create'):
        files.pop('/p/y.yw7', None)
    if a:
        runs = [(cls, a[2], a[3]), (cls, src, suffix)]
        change = None
    else:
        # the same conversion before the project, or the document, is replaced
        runs = [(cls, src, suffix)] * 2
        new = {src: ('text', conv.small_project('z'), 'utf-8', True)} if tag.startswith('export') else {src: text_document(tag[6:], 'z')[0]} if tag.startswith('import') else None
        if new is None:
            return
        change = new
    one = [(v, s) for k, v, s in steps(j, runs[:1], files, False, answers='y') if j.raised(f'no-exception/{tag}', k, v, s, first)]
    keep = lambda x: {p: c for p, c in x.items() if p.startswith('/p/')}
    wants = []
    for v, s in one:
        fs = {**v[1][0], **(change or {})}
        wants += [(v2[0][0], keep(v2[1][0])) for k, v2, s2 in steps(j, runs[1:], keep(fs), False, answers='y') if k == 'N']
    w = lambda: j.anchor('newFile', 'run', 'read', 'make_file_objects')
    for shared in (False, True):
        what = f'{cls}.run({src!r}, suffix={suffix!r}) after ' + (f'run({a[2]!r}, suffix={a[3]!r})' if a else f'{src} was replaced') + (' with the same converter' if shared else '')
        outs = [(v, s) for k, v, s in steps(j, runs, files, shared, change, answers='y') if j.raised(f'no-exception/{tag}', k, v, s, what)]
        agree(j, f'chain/{tag}', [((v[0][1], keep(v[1][1])), s.facts) for v, s in outs], wants, what, w)


def p35_again(j, case, answer):
    """The same conversion once more: a question each time, the same result."""
    tag, cls, src, suffix, files, target = case
    if tag.startswith('export'):
        files = {**files, target: conv.OTHER}
    code = {'import_notes': '1', 'import_todo': '2'}.get(tag)
    if code:
        # the project as this document type belongs to it
        prj = files[target].replace('<Type>0</Type>', '<Type>1</Type>').replace('<ChapterType>0<', f'<ChapterType>{code}<')
        files = {**files, target: prj.replace('<Status>', f'<Unused>-1</Unused><Fields><Field_SceneType>{code}</Field_SceneType></Fields><Status>')}
    w = lambda: j.anchor('_confirm_overwrite', 'newFile', 'check')
    for shared in (False, True):
        what = f'{cls}.run({src!r}, suffix={suffix!r}) twice, answers {answer},' + (' with the same converter' if shared else '')
        for k, v, s in steps(j, [(cls, src, suffix)] * 2, files, shared, answers=answer):
            if not j.raised(f'no-exception/{tag}', k, v, s, what):
                continue
            (a, b), (fa, fb) = v
            if tag.startswith('create'):
                j.ob(f'again/{tag}', bool(b[1]) and b[1][0].startswith('!') and fa == fb, f'{what}: {show(b[1])}', w())
                continue
            for i, x in enumerate((a, b)):
                j.ob(f'asked-each-time/{tag}', len(x[5]) == 1, f'{what}: run {i + 1} asks {len(x[5])} times', w())
            ok = same(b, a, s.facts)
            j.ob(f'again/{tag}', ok, '' if ok else f'{what}: ' + difference(b, a, s.facts), '' if ok else w())
            if answer == 'y':
                ok = same(fb.get(target), fa.get(target), s.facts)
                j.ob(f'same-file/{tag}', ok, '' if ok else f'{what}: {target} differs', '' if ok else w())


def jobs35(tier):
    out = [Job('project', p35_project)]
    kinds = list(pairs()) + ['', 'outline']
    for s in kinds:
        out.append(Job(f'read{s or "import"}', p35_read, (s, s)))
        if s != '_proof':
            out.append(Job(f'read{s or "import"}/proof', p35_read, (s, '_proof')))
        if s in COLUMNS and s != '_scenelist':
            out.append(Job(f'read{s}/scenelist', p35_read, (s, '_scenelist')))
    ws = documents()
    for n in ws:
        out.append(Job(f'write/{n}', p35_write, (n, n)))
        if n != 'OdtWProof':
            out.append(Job(f'write/{n}/proof', p35_write, (n, 'OdtWProof')))
    for n in list(ws) + ['Yw7File']:
        out.append(Job(f'retry/{n}', p35_retry, (n,)))
    names = [a[0] for a in firsts()]
    for i, c in enumerate(c for c in conv.cases('/p/y') if c[1] == 'Yw7Converter'):
        ns = names if tier == 'thorough' else [names[(i * 3 + k) % len(names)] for k in range(3)]
        out.append(Job(f'run/{c[0]}', p35_runs, (c, ns)))
        for k, first in enumerate(CHAIN):
            if tier == 'thorough' or (i + k) % 2 == 0 or first == 'replaced':
                out.append(Job(f'chain/{first}/{c[0]}', p35_chain, (first, c)))
        for ans in 'yn':
            out.append(Job(f'again/{c[0]}/{ans}', p35_again, (c, ans)))
    return out


P35 = dict(
    rule='abstract interpretation of histories of two operations in one process - documents read, written, retried after a failing file operation, and conversions run one after another: '
         'the result of the second one (texts, documents, messages, questions, files) equals its result without the first one',
    assumptions=['histories of two operations', 'a reader object reads one document', 'at most one failing file operation per run', 'models in vlib/models.py'],
    jobs=jobs35)
