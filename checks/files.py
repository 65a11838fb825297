"""P07, P14, P34: writing files."""
import posixpath
import xml.etree.ElementTree as HET

from vlib import holes as H
from vlib.check import Job
from vlib.scen import *
from .build import *
from .project import is_app_error, fs_diff, parse_file

OLD = ('text', 'the previous content', 'utf-8', True)
STALE = ('text', 'an older backup', 'utf-8', True)

PROBE = '''
from pywriter.file.file_export import FileExport

class ProbeExport(FileExport):
    EXTENSION = '.csv'
    SUFFIX = '_probe'
    _fileHeader = 'T,$Title\\n'
    _chapterTemplate = 'C,$ID,$Title\\n'
    _sceneTemplate = 'S,$ID,$Title,$SceneContent\\n'
    _fileFooter = 'end\\n'

    def _convert_from_yw(self, text, quick=False):
        return text or ''
'''


def writers(it):
    """All concrete document writers: classes with a write method, an extension and templates of their own."""
    odf = it.classes.get('OdfFile')
    out = []
    for c in it.classes.values():
        if odf in c.mro and c.lookup('EXTENSION')[1] and not any(c in x.mro and x is not c for x in it.classes.values()):
            out.append(c.name)
        elif odf in c.mro and 'SUFFIX' in c.ns and c.lookup('EXTENSION')[1]:
            out.append(c.name)
    return sorted(set(out))


def class_attr(d, name, attr):
    return d.it.getattr(d.cls(name), attr)


def make(d, name, base='/p/x'):
    """A document object of the class with a filled novel."""
    if name == 'ProbeExport':
        m = d.it.modules.get('probe_export') or d.it.load_source('probe_export', '/verif/checks/files.py', PROBE)
        c = m.env['ProbeExport']
    else:
        c = d.cls(name)
    path = base + (d.it.getattr(c, 'SUFFIX') or '') + d.it.getattr(c, 'EXTENSION')
    return d.it.call(c, [path], {}), path


def holds(c, old, new):
    return c is not None and (c == old or c == new)


def p07_case(j, name, have, base='/p/x', poison=None, existing=False):
    """Writing with at most one failing operation.  have: which of (target, backup) exist before."""
    abs_base = base if base.startswith('/') else '/cwd/' + base
    box = {}

    def f(d, path0=None):
        if existing:
            y = d.new('Yw7File', abs_base + '.yw7')
            d.set(y, 'novel', d.new('Novel'))
            d.call(y, 'read')
            doc, path = y, abs_base + '.yw7'
        else:
            doc, path = make(d, name, base)
            d.set(doc, 'novel', fill_novel(d, d.new('Novel'), 'a', 'word', dates=(0, 0, 0)))
        n = d.get(doc, 'novel')
        if poison == 'scene':
            d.add(d.get(d.it.getitem(d.get(n, 'chapters'), '22'), 'srtScenes'), '999')
        elif poison == 'type':
            d.set(n, 'authorName', 4711)
            d.set(d.it.getitem(d.get(n, 'scenes'), '12'), 'title', 4711)
        d.it.st.event('mark')
        r = None
        try:
            d.call(doc, 'write')
        except PyRaise as e:
            r = e.val
        return r, d.get(doc, 'filePath')
    # where the target is
    probe = j.run(lambda d: (make(d, name, base)[1] if not existing else abs_base + '.yw7', d.it.st.cwd))
    tpath = probe[0][1][0]
    target = tpath if tpath.startswith('/') else '/cwd/' + tpath
    st0 = j.base()
    old = OLD
    if existing:
        old = ('text', project_xml('a', 'word'), 'utf-8', True)
    fs = dict(st0.fs)
    if have[0]:
        fs[target] = old
    if have[1]:
        fs[target + '.bak'] = STALE
    st0.fs = fs
    st0.cwd = '/cwd'
    tag = name + ('/existing' if existing else '')

    def sites(op, path):
        """Reading the project beforehand is not the writing."""
        return any(e == ('mark',) for e in j.it.st.events) and op in ('open-w', 'write', 'close', 'replace', 'remove', 'mkdir', 'copy',
                                                                     'open-r', 'read')
    if poison:
        outs = j.run(f, st0, record_fs=True)
        outs_ok = []
    else:
        outs_ok = j.run(f, st0, record_fs=True)
        outs = j.run(f, st0, record_fs=True, fault_sites=sites)
    final = {st.fs.get(target) for k, v, st in outs_ok if k == 'N' and v[0] is None}
    where = None
    if not poison:
        if not j.ob(f'driver/{tag}', len(final) == 1 and None not in final, f'{name}: writing without any failure gives '
                    f'{[j.it.describe(v[0] if k == "N" else v, st) for k, v, st in outs_ok if k != "N" or v[0] is not None][:2] or len(final)}'):
            return
    new = final.pop() if final else None
    where = lambda st: st.xloc or j.anchor('replace', '.bak')
    for k, v, st in outs:
        if not j.raised(f'driver/{tag}', k, v, st, 'write'):
            continue
        exc, fp = v
        fault = next((e[1:] for e in st.events if e[0] == 'fault'), None)
        what = f'{name}.write()' + (f' with failing {fault[0]} of {fault[1]}' if fault else '') + (f' of a novel with invalid {poison}' if poison else '')
        if have[0]:
            # every intermediate state
            seen = False
            for e in st.events:
                if e == ('mark',):
                    seen = True
                if e[0] != 'fs' or not seen:
                    continue
                snap = dict(e[3])
                ok = holds(snap.get(target), old, new) or holds(snap.get(target + '.bak'), old, new)
                j.ob(f'old-or-new/{tag}', ok, '' if ok else f'{what}: after {e[1]} of {e[2]}, neither {target} nor its backup is complete',
                     '' if ok else where(st))
        if exc is None:
            if fault is None or st.fs.get(target) == new:
                ok = st.fs.get(target) == new if new is not None else True
                j.ob(f'success/{tag}', ok, '' if ok else f'{what}: the content differs from the one without failure', '' if ok else where(st))
                if have[0] and poison is None:
                    ok = st.fs.get(target + '.bak') == old
                    j.ob(f'backup/{tag}', ok, '' if ok else f'{what}: the backup does not hold the previous content', '' if ok else where(st))
            elif not poison:
                j.ob(f'reported/{tag}', False, f'{what}: the failure is not reported', where(st))
        else:
            if fault is not None:
                j.ob(f'app-error/{tag}', is_app_error(j.it, exc, st), f'{what}: raises {j.it.describe(exc, st)}', where(st))
            if have[0]:
                ok = st.fs.get(target) == old
                j.ob(f'restored/{tag}', ok, '' if ok else f'{what}: the previous file is not back '
                     f'({"missing" if target not in st.fs else "other content"})', '' if ok else where(st))


DOCS = ('OdtWExport', 'OdtWBriefSynopsis', 'OdtWChapterDesc', 'OdtWCharacters', 'OdtWItems', 'OdtWLocations', 'OdtWManuscript', 'OdtWNotes',
        'OdtWPartDesc', 'OdtWProof', 'OdtWSceneDesc', 'OdtWTodo', 'OdtWXref', 'OdsWCharList', 'OdsWItemList', 'OdsWLocList',
        'OdsWSceneList')
SUFFIXES = ('', '_brf_synopsis', '_chapters', '_characters', '_items', '_locations', '_manuscript', '_notes', '_parts', '_proof', '_scenes',
            '_todo', '_xref')


def documents():
    """The document writers offered for export (registry of the converter); with the names known otherwise."""
    from vlib import check
    it = check.BASE
    c = it.classes.get('Yw7Converter')
    out = []
    if c is not None:
        try:
            reg = c.lookup('EXPORT_TARGET_CLASSES')[1]
            out = [x.name for x in it.st.get(reg).d]
        except Exception:
            out = []
    return out or [n for n in DOCS if n in it.classes]


def p07_jobs(tier):
    jobs = []
    docs = documents()
    odt = [x for x in docs if x.startswith('Odt')]
    ods = [x for x in docs if x.startswith('Ods')]
    for have in ((True, True), (True, False), (False, False)):
        h = f'{"file" if have[0] else "no-file"}-{"bak" if have[1] else "no-bak"}'
        for name in ('Yw7File', 'ProbeExport', 'OdtWManuscript', 'OdsWSceneList'):
            jobs.append(Job(f'{name}-{h}', p07_case, (name, have)))
            jobs.append(Job(f'{name}-{h}-relative', p07_case, (name, have, 'x')))
    jobs.append(Job('Yw7File-existing', p07_case, ('Yw7File', (True, True), '/p/x', None, True)))
    jobs.append(Job('DataFiles', p07_data))
    for name in docs:
        if tier == 'thorough':
            for have in ((True, True), (True, False), (False, False)):
                jobs.append(Job(f'all-{name}-{have}', p07_case, (name, have)))
        jobs.append(Job(f'all-{name}', p07_case, (name, (True, False))))
        jobs.append(Job(f'poison-{name}', p07_case, (name, (True, False), '/p/x', 'scene')))
    for name in ('Yw7File', 'ProbeExport') + tuple(docs[:2]) + tuple(ods[:1]):
        for p in ('scene', 'type'):
            jobs.append(Job(f'poison2-{name}-{p}', p07_case, (name, (True, True), '/p/x', p)))
    return jobs


# files beside a project with an unusual name
DATA = '/p.xml_Items/d.e/x.y.xml_Items z'


def p07_data(j):
    """The separate XML data files."""
    names = ('Characters', 'Locations', 'Items')
    st0 = j.base()
    st0.fs = {**st0.fs, **{f'{DATA}_{n}.xml': OLD for n in names}}

    def f(d):
        y = d.new('DataFiles', f'{DATA}.xml')
        d.set(y, 'novel', fill_novel(d, d.new('Novel'), 'a', 'word', dates=(0, 0, 0)))
        r = None
        try:
            d.call(y, 'write')
        except PyRaise as e:
            r = e.val
        return r
    good = {n: st.fs.get(f'{DATA}_{n}.xml') for k, v, st in j.run(f, st0) for n in names}
    for k, v, st in j.run(f, st0, record_fs=True):
        if not j.raised('driver/DataFiles', k, v, st, 'write'):
            continue
        for e in st.events:
            if e[0] == 'fs':
                snap = dict(e[3])
                for n in names:
                    p = f'{DATA}_{n}.xml'
                    ok = holds(snap.get(p), OLD, good[n]) or holds(snap.get(p + '.bak'), OLD, good[n])
                    j.ob('old-or-new/DataFiles', ok, '' if ok else f'DataFiles.write(): after {e[1]} of {e[2]}, neither {p} nor a backup of it '
                         'is complete', '' if ok else j.anchor('_Characters.xml'))


P07 = dict(
    rule='Abstract interpretation of the write methods in an abstract file system, with every file operation (open, write, close, replace, '
         'remove, mkdir, read) failing in turn. Obligations: in every intermediate state, the target or its backup holds the complete '
         'previous or the final content; after a failure the previous content is at its place and the application error is raised; after '
         'success the backup holds the previous content.',
    assumptions=['at most one failing operation per run', 'os.replace is atomic', 'models in vlib/models.py'],
    jobs=p07_jobs)


# ------------------------------------------------------------------------------- P14
MF = '{urn:oasis:names:tc:opendocument:xmlns:manifest:1.0}'


def p14_case(j, name, base, fail):
    cwd = '/cwd/work'
    st0 = j.base()
    st0.fs = {**st0.fs, cwd: ('dir',)}
    st0.cwd = cwd

    def f(d):
        doc, path = make(d, name, base)
        d.set(doc, 'novel', fill_novel(d, d.new('Novel'), 'a', 'word', dates=(0, 0, 0)))
        p0 = d.get(doc, 'filePath')
        if fail == 'poison':
            d.add(d.get(d.it.getitem(d.get(d.get(doc, 'novel'), 'chapters'), '22'), 'srtScenes'), '999')
        d.it.st.event('mark')
        r = None
        try:
            d.call(doc, 'write')
        except PyRaise as e:
            r = e.val
        first = dict(d.it.st.fs)
        if fail == 'twice' and r is None:
            try:
                d.call(doc, 'write')
            except PyRaise as e:
                r = e.val
        return r, p0, d.get(doc, 'filePath'), path

    def sites(op, path):
        return any(e == ('mark',) for e in j.it.st.events)
    for k, v, st in j.run(f, st0, **({'fault_sites': sites} if fail == 'faults' else {})):
        if not j.raised(f'driver/{name}', k, v, st, 'write'):
            continue
        exc, p0, p1, path = v
        fault = next((e[1:] for e in st.events if e[0] == 'fault'), None)
        what = f'{name}.write()' + (f' with failing {fault[0]} of {fault[1]}' if fault else '') + \
            (f', raising {j.it.describe(exc, st)}' if exc is not None else '')
        j.ob(f'cwd/{name}', st.cwd == cwd, f'{what}: the working directory is {st.cwd} instead of {cwd}', j.anchor('chdir'))
        j.ob(f'path/{name}', p0 == p1, f'{what}: the path of the document object is {p1} instead of {p0}', j.anchor('_filePath', 'filePath'))
        if exc is not None:
            if fail in (None, 'twice'):
                j.ob(f'written/{name}', False, what, st.xloc)
            continue
        target = posixpath.normpath(path if path.startswith('/') else f'{cwd}/{path}')
        left = [p for p in fs_diff(st0.fs, st.fs) if p not in (target, target + '.bak')]
        j.ob(f'traces/{name}', not left, f'{what}: {left} is left behind', j.anchor('_tear_down', 'rmtree'))
        c = st.fs.get(target)
        if not j.ob(f'zip/{name}', c is not None and c[0] == 'zip' and c[1], f'{what}: {target} is {c and c[0]}, not a complete archive'):
            continue
        members = [(n.rstrip('/'), x) for n, x in c[2]]
        names = [n for n, x in members if x[0] != 'dir']
        kind = 'text' if path.endswith('.odt') else 'spreadsheet'
        need = ['mimetype', 'META-INF/manifest.xml', 'settings.xml', 'styles.xml', 'meta.xml', 'content.xml'] + (['manifest.rdf'] if kind == 'text' else [])
        w = j.anchor('_ODF_COMPONENTS', 'ZipFile')
        for n in need:
            j.ob(f'member/{n}', names.count(n) == 1, f'{what}: the package contains {n} {names.count(n)} times', w)
        j.ob(f'complete/{name}', all(x[0] == 'dir' or x[-1] is True for n, x in members), f'{what}: an unfinished part is packed')
        content = dict((n, x[1]) for n, x in members if x[0] == 'text')
        mime = content.get('mimetype')
        j.ob(f'mimetype/{kind}', mime == f'application/vnd.oasis.opendocument.{kind}', f'{what}: mimetype is {mime}', j.anchor('_MIMETYPE'))
        try:
            m = HET.fromstring(content.get('META-INF/manifest.xml', '').encode())
        except HET.ParseError as e:
            j.ob(f'manifest/{name}', False, f'the manifest is not well-formed: {e}', j.anchor('_MANIFEST_XML'))
            continue
        entries = {e.get(MF + 'full-path'): e.get(MF + 'media-type') for e in m.iter(MF + 'file-entry')}
        j.ob(f'manifest-type/{kind}', entries.get('/') == mime, f'{what}: the manifest says {entries.get("/")}, mimetype is {mime}',
             j.anchor('_MANIFEST_XML'))
        for n in names:
            if n != 'mimetype' and not n.startswith('META-INF/'):
                j.ob(f'listed/{kind}.{n}', n in entries, f'{what}: {n} is not listed in the manifest', j.anchor('_MANIFEST_XML'))
        for n in entries:
            if not n.endswith('/'):
                j.ob(f'exists/{kind}.{n}', n in names, f'{what}: the manifest lists {n}, which is not in the package', w)
        for n, t in content.items():
            if n.endswith(('.xml', '.rdf')):
                try:
                    HET.fromstring(H.map_holes(t, lambda c: 'x').encode())
                    ok, msg = True, ''
                except HET.ParseError as e:
                    ok, msg = False, f'{what}: {n} is not well-formed: {e}'
                j.ob(f'part/{kind}.{n}', ok, msg)
                bad = '$' in H.map_holes(t, lambda c: 'x')
                j.ob(f'filled/{name}.{n}', not bad, f'{what}: {n} contains an unfilled placeholder: '
                     f'{t[max(0, t.find("$") - 20):t.find("$") + 30]!r}' if bad else '')


def p14_unwritten(j):
    """A document object that is never written."""
    def f(d):
        doc, path = make(d, 'OdtWManuscript')
        d.call(doc, '__del__')
    for k, v, st in j.run(f):
        if j.raised('driver/unwritten', k, v, st, 'creating and deleting a document object'):
            left = fs_diff(j.base().fs, st.fs)
            j.ob('traces/unwritten', not left, f'deleting a document object leaves {left}', j.anchor('_tear_down', '__del__'))


def p14_jobs(tier):
    jobs = [Job('unwritten', p14_unwritten)]
    for n in documents():
        jobs.append(Job(f'{n}', p14_case, (n, '/p/x', None)))
        jobs.append(Job(f'{n}-faults', p14_case, (n, 'x', 'faults')))
        jobs.append(Job(f'{n}-relative', p14_case, (n, 'x', 'poison')))
        jobs.append(Job(f'{n}-twice', p14_case, (n, '../x y', 'twice')))
    return jobs


P14 = dict(
    rule='Abstract interpretation of the write methods of all registered document writers in an abstract file system, with absolute and '
         'relative paths, without failure, written twice, with invalid novel data and with each file operation failing. Obligations on the '
         'resulting abstract archive (members, manifest entries, media type, well-formed parts), the working directory, the path attribute '
         'and the remaining files.',
    assumptions=['models in vlib/models.py'],
    jobs=p14_jobs)


# ------------------------------------------------------------------------------- P34
def p34_case(j, update):
    st0 = put_file(j, {f'{DATA}.yw7': project_xml('z', 'word')}) if update else j.base()

    def f(d):
        y = d.new('DataFiles', f'{DATA}.xml')
        n = fill_novel(d, d.new('Novel'), 'a', dates=(0, 0, 0))
        d.set(y, 'novel', n)
        want = snapshot(d, n)
        d.call(y, 'write')
        fs = dict(d.it.st.fs)
        parts = [fs.get(f'{DATA}_{k}.xml') for k in ('Characters', 'Locations', 'Items')]
        if any(p is None or p[0] != 'text' for p in parts):
            return want, None, fs
        # the parts as sections of a project
        d.it.st.fs = {**fs, '/q/y.yw7': ('text', '<YWRITER7><PROJECT/>' + ''.join(strip_decl(p[1]) for p in parts) + '<PROJECTVARS/>'
                                         '<SCENES/><CHAPTERS/></YWRITER7>', 'utf-8', True)}
        y2, n2 = read_project(d, '/q/y.yw7')
        return want, snapshot(d, n2), fs
    for k, v, st in j.run(f, st0):
        if not j.raised('no-exception/data-files', k, v, st, 'writing and reading XML data files'):
            continue
        want, got, fs = v
        if not j.ob('three-files/data-files', got is not None, f'not all data files are written: {sorted(fs)}', j.anchor('_Characters.xml')):
            continue
        for n, tag in (('Characters', 'CHARACTERS'), ('Locations', 'LOCATIONS'), ('Items', 'ITEMS')):
            try:
                root = parse_file(joint(fs[f'{DATA}_{n}.xml'][1], 0, st.facts))
                j.ob(f'root/{n}', root.tag == tag, f'the root of the {n} file is {root.tag}', j.anchor(tag))
            except HET.ParseError as e:
                j.ob(f'root/{n}', False, f'the {n} file is not well-formed: {e}', j.anchor(tag))
        w = {k: x for k, x in want.items() if k[0] in ('characters', 'locations', 'items')}
        g = {k: x for k, x in got.items() if k[0] in ('characters', 'locations', 'items')}
        compare(j, 'data', g, w, 'after writing the XML data files and reading them', st.facts, names=NAMES)
        for a in ('srtCharacters', 'srtLocations', 'srtItems'):
            j.ob(f'order/{a}', got['novel', '', a] == want['novel', '', a], f'{a} is {got["novel", "", a]}', j.anchor(a))
        other = [p for p in fs_diff(st0.fs, fs) if p not in {f'{DATA}_{k}.xml' for k in ('Characters', 'Locations', 'Items')}]
        j.ob('only/data-files', not other, f'writing the data files touches {other}', j.anchor('_Characters.xml'))


def strip_decl(s):
    import re
    return re.sub(r'^\s*<\?xml[^>]*\?>\s*', '', s)


P34 = dict(
    rule='Abstract interpretation of DataFiles.write over an abstract novel; the three abstract files are composed to a project file that '
         'is read with Yw7File.read. Obligation per attribute: the provenance label of the element it came from, unchanged.',
    assumptions=['models in vlib/models.py'],
    jobs=lambda tier: [Job('new', p34_case, (False,)), Job('beside-project', p34_case, (True,))])
