"""P21-P24: conversions, their outcomes, file types, and paths."""
import posixpath

from vlib.check import Job
from vlib.core import PyRaise
from vlib.scen import *
from .build import *
from .files import PROBE, documents
from .imports import COLUMNS, Hd, P, markers, odt, ods, pairs, reader_class, row
from .project import fs_diff as all_diff

UI = '''
from pywriter.ui.ui import Ui


class ProbeUi(Ui):
    def __init__(self):
        super().__init__('')
        self.how = []
        self.what = []
        self.warned = []

    def ask_yes_no(self, text):
        return input(text) == 'y'

    def set_info_how(self, message):
        super().set_info_how(message)
        self.how.append(message)

    def set_info_what(self, message):
        self.what.append(message)

    def show_warning(self, message):
        self.warned.append(message)
'''
def fs_diff(a, b):
    """Changes, apart from the temporary directory of a document object that is still in use."""
    return [p for p in all_diff(a, b) if not p.startswith('/tmp/')]


CONVERTERS = ('Yw7Converter', 'Yw7Exporter', 'Yw7Importer')
LISTS = tuple(COLUMNS)


def small_project(p='a'):
    """A project file with one chapter, two scenes, and one element of each kind."""
    sc = ''.join(E('SCENE', X('ID', i), X('Title', T(f'{p}.s{i}', 'word')), X('Desc', T(f'{p}.d{i}', 'word')), X('Status', '1'),
                   X('SceneContent', T(f'{p}.c{i}', 'word'))) for i in ('1', '2'))
    ch = E('CHAPTER', X('ID', '1'), X('Title', T(f'{p}.ch', 'word')), X('Type', '0'), X('ChapterType', '0'), E('Scenes', X('ScID', '1'), X('ScID', '2')))
    w = ''.join(E(t + 'S', E(t, X('ID', '1'), X('Title', T(f'{p}.{t}', 'word')))) for t in ('LOCATION', 'ITEM', 'CHARACTER'))
    return '<?xml version="1.0" encoding="utf-8"?>\n' + E('YWRITER7', E('PROJECT', X('Ver', '7'), X('Title', T(f'{p}.title', 'word'))), w, E('PROJECTNOTES'),
                                                        E('PROJECTVARS'), E('SCENES', sc), E('CHAPTERS', ch))


def document(sfx, split=False):
    """An edited document of the type."""
    if sfx in COLUMNS:
        kind, pre, cols = COLUMNS[sfx]
        fixed = dict(rating='2', number='2', AR='R', major='Major', status='Draft')
        return ods([row([pre + '1'] + [fixed.get(k) or T(f'{sfx}.{x}', 'word') for x, (a, k) in enumerate(cols)], 0)])
    if sfx == '':
        return odt(Hd(T('h', 'word'), 2) + P(T('t1', 'word')) + P(T('t2', 'word')))
    if sfx == 'outline':
        return odt(Hd(T('h', 'word'), 2) + Hd(T('h3', 'word'), 3).replace('Heading_20_3', 'Heading_20_3') + P(T('t2', 'word')))
    new = [[P(T('new', 'word')) + (P('### ' + 'x') + P(T('new2', 'word')) if split else '')]]
    return odt(markers(sfx, new)[0])


def extension(sfx):
    return '.ods' if sfx in LISTS else '.odt'


def convert(j, conv, src, files, suffix=None, direct=None, **options):
    """Outcomes of running a converter: yields (how, newFile, warnings, what, kind, value, state, state before)."""
    st0 = put_file(j, files)
    st0.cwd = '/cwd'
    st0.fs = {**st0.fs, '/cwd': ('dir',), '/p': ('dir',)}

    def f(d):
        m = d.it.modules.get('probe_ui') or d.it.load_source('probe_ui', '/verif/checks/conv.py', UI)
        ui = d.it.call(m.env['ProbeUi'], [], {})
        c = d.new(conv)
        d.set(c, 'ui', ui)
        d.set(c, 'newFile', 'stale')
        d.it.st.event('mark')
        e = None
        try:
            if direct:
                direct(d, c)
            else:
                d.call(c, 'run', src, suffix=suffix)
        except PyRaise as x:
            e = d.it.describe(x.val, d.it.st)
        return e, d.a(ui, 'how'), d.a(c, 'newFile'), d.a(ui, 'warned'), d.a(ui, 'what')

    def sites(op, path):
        return any(e == ('mark',) for e in j.it.st.events)
    if options.pop('faults', False):
        options['fault_sites'] = sites
    return st0, j.run(f, st0, **options)


def outcome(j, tag, what, v, st, st0, want, target, fault=None):
    """Obligations on one run; want: 'ok', 'fail' or None (both possible)."""
    exc, how, new, warned, info = v
    w = st.xloc or j.anchor('set_info_how', 'newFile')
    what += f' with failing {fault[0]} of {fault[1]}' if fault else ''
    if not j.ob(f'no-exception/{tag}', exc is None, f'{what}: {exc} escapes', w):
        return
    if not j.ob(f'one-message/{tag}', len(how) == 1, f'{what}: {len(how)} final messages {how}', w):
        return
    failed = how[0].startswith('!')
    j.ob(f'text/{tag}', len(how[0]) > 3, f'{what}: the message is {how[0]!r}', w)
    if want is not None:
        j.ob(f'outcome/{tag}', failed == (want == 'fail'), f'{what}: reports {show(how[0])}', w)
    if failed:
        j.ob(f'no-new-file/{tag}', new is None, f'{what}: reports {show(how[0])}, but the new file is {show(new)}', w)
    else:
        j.ob(f'new-file/{tag}', new == target, f'{what}: reports {show(how[0])}, the new file is {show(new)} instead of {target}', w)
        shown = posixpath.normpath(target)
        j.ob(f'names-file/{tag}', shown in how[0], f'{what}: the message {show(how[0])} does not name the file {shown}', w)
        j.ob(f'announced/{tag}', bool(info) and shown in info[-1] and len(info) == 1, f'{what}: the announcement is {show(info)}, {shown} is expected', w)
        c = st.fs.get(posixpath.normpath(posixpath.join('/cwd', target)))
        j.ob(f'written/{tag}', c is not None and c != st0.fs.get(target) and (c[0] == 'zip' and c[1] or c[0] == 'text' and c[3]),
             f'{what}: reports {show(how[0])}, but the file is {c and c[0] or "not there"}', w)


def fault_of(st):
    return next((e[1:] for e in st.events if e[0] == 'fault'), None)


def cases(base='/p/x'):
    """(name, converter, source, suffix, files, target)."""
    it = None
    from vlib import check
    it = check.BASE
    out = []
    prj = {base + '.yw7': small_project()}
    for name in documents():
        c = it.classes[name]
        s, e = c.lookup('SUFFIX')[1], c.lookup('EXTENSION')[1]
        for conv in ('Yw7Converter', 'Yw7Exporter'):
            out.append((f'export{s}', conv, base + '.yw7', s, prj, f'{base}{s or ""}{e}'))
    for s in pairs():
        src = base + s + extension(s)
        for conv in ('Yw7Converter', 'Yw7Importer'):
            out.append((f'import{s}', conv, src, None, {**prj, src: document(s)}, base + '.yw7'))
    for n, s in (('create', ''), ('create-outline', 'outline')):
        for conv in ('Yw7Converter', 'Yw7Importer'):
            out.append((n, conv, base + '.odt', None, {base + '.odt': document(s)}, base + '.yw7'))
    return out


OTHER = ('text', 'another file', 'utf-8', True)
MALFORMED = '<?xml version="1.0" encoding="utf-8"?>\n<YWRITER7><PROJECT></YWRITER7>'


def p21_case(j, tag, conv, src, suffix, files, target, mode):
    """One conversion without failure, with failing file operations, with both answers."""
    what = f'{conv}.run({src!r}, suffix={suffix!r})'
    opts = {'faults': True} if mode == 'faults' else {}
    if mode == 'existing' and tag.startswith('export'):
        files = {**files, target: OTHER}
        what += ' over an existing file'
    want = 'ok'
    if mode == 'existing' and tag.startswith('create'):
        files = {**files, target: small_project('b')}
        want = 'fail'
    st0, outs = convert(j, conv, src, files, suffix, answers=None if mode != 'faults' else 'y', **opts)
    for k, v, st in outs:
        if not j.raised(f'no-exception/{tag}', k, v, st, what):
            continue
        fault = fault_of(st)
        asked = [e for e in st.events if e[0] == 'ask']
        exp = None if fault else want
        if asked and not fault and mode != 'faults':
            exp = None
            failed = v[1] and v[1][0].startswith('!')
            ch = fs_diff(st0.fs, st.fs)
            j.ob(f'answer/{tag}', bool(failed) == (not ch), f'{what}: reports {show(v[1])} after changing {ch}', j.anchor('check', '_confirm_overwrite'))
        outcome(j, tag, what, v, st, st0, exp, target, fault)


def bad_inputs():
    """(name, source, suffix, files): inputs that cannot be converted."""
    prj = small_project()
    zip_of = lambda **m: ('zip', True, tuple((n, ('text', t, 'utf-8', True)) for n, t in m.items()))
    good = dict((n, c[1]) for n, c in document('_manuscript')[2])
    part = lambda **m: ('zip', True, tuple((n, ('text', t, 'utf-8', True)) for n, t in {**good, **m}.items() if t is not None))
    out = [('missing-project', '/p/x.yw7', '_manuscript', {}),
           ('missing-document', '/p/x_manuscript.odt', None, {'/p/x.yw7': prj}),
           ('missing-target', '/p/x_manuscript.odt', None, {'/p/x_manuscript.odt': document('_manuscript')}),
           ('directory', '/p/x.yw7', '_manuscript', {'/p/x.yw7': ('dir',)})]
    for s in ('_nothing', None, 'manuscript', '_Manuscript', '.odt'):
        out.append((f'export-type/{s}', '/p/x.yw7', s, {'/p/x.yw7': prj}))
    for n in ('x.txt', 'x', 'x.yw5', 'x.yw7.bak', 'x_xref.odt', 'x_brf_synopsis.odt', 'x.ods', 'x_foo.ods', 'x.html', 'x_manuscript.ods', 'x_charlist.doc'):
        out.append((f'type/{n}', f'/p/{n}', None, {f'/p/{n}': document('_manuscript'), '/p/x.yw7': prj}))
        out.append((f'type-alone/{n}', f'/p/{n}', None, {f'/p/{n}': document('_manuscript')}))
    for n, c in (('empty', ''), ('text', 'no xml'), ('malformed', MALFORMED), ('other-xml', '<?xml version="1.0"?><x/>'), ('undecodable', ('undecodable',)),
                 ('zip', document('_manuscript'))):
        out.append((f'project-{n}', '/p/x.yw7', '_manuscript', {'/p/x.yw7': c}))
        out.append((f'update-{n}', '/p/x_manuscript.odt', None, {'/p/x.yw7': c, '/p/x_manuscript.odt': document('_manuscript')}))
    for n, c in (('empty', ''), ('text', 'no zip'), ('undecodable', ('undecodable',)), ('no-content', part(**{'content.xml': None})),
                 ('malformed', part(**{'content.xml': '<x><y></x>'})), ('no-styles', part(**{'styles.xml': None})),
                 ('bad-styles', part(**{'styles.xml': '<x><y></x>'}))):
        for s in ('_manuscript', '_proof', '_scenes', ''):
            out.append((f'document-{n}', f'/p/x{s}.odt', None, {f'/p/x{s}.odt': c, **({'/p/x.yw7': prj} if s else {})}))
        if 'styles' not in n:
            for s in ('_charlist', '_scenelist'):
                out.append((f'document-{n}', f'/p/x{s}.ods', None, {f'/p/x{s}.ods': c, '/p/x.yw7': prj}))
    out.append(('bad-table', '/p/x_charlist.ods', None, {'/p/x_charlist.ods': ods([row(['CrID:1', 'x'], 0).replace('<table:table-cell table:number-columns-repeated="1000"/>', '')]), '/p/x.yw7': prj}))
    bad = lambda b: {'/p/x_manuscript.odt': odt(b), '/p/x.yw7': prj}
    out.append(('scene-without-chapter', '/p/x_manuscript.odt', None, bad(f'<text:section text:name="ScID:77">{P("x")}</text:section>')))
    out.append(('bad-marker', '/p/x_proof.odt', None, {'/p/x_proof.odt': odt(P('[ScID:]') + P('x') + P('[/ScID]')), '/p/x.yw7': prj}))
    for s in ('_manuscript', None):
        src = '/p/x.yw7' if s else '/p/x_manuscript.odt'
        out.append(('locked' if s is None else 'exporting-locked', src, s, {'/p/x.yw7': prj, '/p/x.yw7.lock': '', '/p/x_manuscript.odt': document('_manuscript')}))
    return out


def p21_bad(j, name, src, suffix, files):
    for conv in CONVERTERS:
        if suffix == '_manuscript' and conv == 'Yw7Importer':
            continue
        what = f'{conv}.run({src!r}, suffix={suffix!r}) ({name})'
        st0, outs = convert(j, conv, src, files, suffix, answers='y')
        for k, v, st in outs:
            if not j.raised(f'no-exception/{name}', k, v, st, what):
                continue
            want = None if name in ('exporting-locked',) else 'fail'
            outcome(j, name, what, v, st, st0, want, '/p/x_manuscript.odt' if suffix else '/p/x.yw7')
            if want:
                ch = [p for p in fs_diff(st0.fs, st.fs) if not p.endswith('.bak')]
                j.ob(f'no-change/{name}', not ch, f'{what}: changes {ch}', st.xloc or j.anchor('run', 'check', 'write'))


def p21_direct(j):
    """The conversion methods called directly, with objects of a wrong file type."""
    for method, src, tgt in (('export_from_yw', ('Yw7File', '/p/x.txt'), ('OdtWManuscript', '/p/x_manuscript.odt')),
                             ('export_from_yw', ('Yw7File', '/p/x.yw7'), ('OdtWManuscript', '/p/x.odt')),
                             ('export_from_yw', ('Yw7File', '/p/y.yw7'), ('OdtWManuscript', '/p/x_manuscript.odt')),
                             ('import_to_yw', ('OdtRManuscript', '/p/x.odt'), ('Yw7File', '/p/x.yw7')),
                             ('import_to_yw', ('OdtRManuscript', '/p/y_manuscript.odt'), ('Yw7File', '/p/x.yw7')),
                             ('import_to_yw', ('OdtRManuscript', '/p/x_manuscript.odt'), ('Yw7File', '/p/x.txt')),
                             ('create_yw7', ('OdtRImport', '/p/y.odt'), ('Yw7File', '/p/y.yw7')),
                             ('create_yw7', ('OdtRImport', '/p/x.txt'), ('Yw7File', '/p/y.yw7')),
                             ('create_yw7', ('OdtRImport', '/p/x.odt'), ('Yw7File', '/p/x.yw7'))):
        files = {'/p/x.yw7': small_project(), '/p/x_manuscript.odt': document('_manuscript'), '/p/x.odt': document(''), '/p/x.txt': 'x'}

        def direct(d, c):
            d.call(c, method, d.new(*src), d.new(*tgt))
        what = f'{method}({src[0]}({src[1]!r}), {tgt[0]}({tgt[1]!r}))'
        st0, outs = convert(j, 'Yw7Converter', None, files, direct=direct, answers='y')
        for k, v, st in outs:
            if not j.raised(f'no-exception/{method}', k, v, st, what):
                continue
            outcome(j, method, what, v, st, st0, 'fail', None)
            j.ob(f'no-change/{method}', not fs_diff(st0.fs, st.fs), f'{what}: changes {fs_diff(st0.fs, st.fs)}', st.xloc or j.anchor('check', 'write'))


def p21_split(j):
    """New scenes are reported by a warning, and the conversion is successful."""
    for sfx in ('_manuscript', '_proof', '_notes', '_todo', '_scenes'):
        for split in (False, True):
            files = {'/p/x.yw7': small_project(), f'/p/x{sfx}.odt': document(sfx, split)}
            st0, outs = convert(j, 'Yw7Converter', f'/p/x{sfx}.odt', files, answers='y')
            for k, v, st in outs:
                what = f'importing x{sfx}.odt {"with" if split else "without"} a divider'
                if not j.raised(f'no-exception/split{sfx}', k, v, st, what):
                    continue
                outcome(j, f'split{sfx}', what, v, st, st0, 'ok', '/p/x.yw7')
                n = 1 if split and sfx != '_scenes' else 0
                j.ob(f'warning{sfx}', len(v[3]) == n, f'{what}: {len(v[3])} warnings', j.anchor('scenesSplit', 'show_warning'))


def p21_ui(j):
    """The user interface facades mark failures."""
    for cls in ('Ui', 'UiCmd'):
        for msg in ('!not written', 'written', '!a ! b', 'File written: "/p/x!y.odt".', '! x'):
            def f(d):
                u = d.new(cls, 'title')
                d.call(u, 'set_info_how', msg)
                return d.a(u, 'infoHowText')
            for k, v, st in j.run(f):
                what = f'{cls}.set_info_how({show(msg)})'
                if not j.raised(f'no-exception/{cls}', k, v, st, what):
                    continue
                want = 'FAIL: ' + msg[1:].strip() if msg.startswith('!') else msg
                j.eq(f'message/{cls}', v, want, what, j.anchor('infoHowText'))
                shown = [e[1] for e in st.events if e[0] in ('print', 'stderr')]
                if msg.startswith('!') or cls == 'UiCmd':
                    j.ob(f'shown/{cls}', any(want in str(s) for s in shown), f'{what}: prints {shown}', j.anchor('infoHowText'))


def jobs21(tier):
    out = [Job('split', p21_split), Job('direct', p21_direct), Job('ui', p21_ui)]
    for c in cases():
        for mode in ('plain', 'existing', 'faults'):
            if mode == 'faults' and c[1] != 'Yw7Converter':
                continue
            out.append(Job(f'{c[0]}/{c[1]}/{mode}', p21_case, (*c, mode)))
    for c in cases('x y'):
        if c[1] == 'Yw7Converter':
            c = (*c[:4], {('/cwd/' + n): t for n, t in c[4].items()}, c[5])
            out.append(Job(f'{c[0]}/relative', p21_case, (*c, 'plain')))
    for i, b in enumerate(bad_inputs()):
        out.append(Job(f'bad{i}/{b[0]}', p21_bad, b))
    return out


P21 = dict(
    rule='abstract interpretation of YwCnvUi.run for each conversion direction over every failing input and every single failing file operation: exactly one final message, its error mark, the new-file path and the absence of an escaping exception agree with the outcome',
    assumptions=['at most one failing file operation per run', 'models in vlib/models.py'],
    jobs=jobs21)


# ------------------------------------------------------------------------------- P22
def first_change(st, st0):
    """Index of the first event that changes an existing file, of the first question."""
    ch = ask = None
    for i, e in enumerate(st.events):
        if e[0] == 'fs' and ch is None:
            snap = dict(e[3])
            if any(snap.get(p) != c for p, c in st0.fs.items() if c[0] != 'dir'):
                ch = i
        if e[0] == 'ask' and ask is None:
            ask = i
    return ch, ask


def p22_case(j, tag, conv, src, suffix, files, target, faults):
    files = dict(files)
    if tag.startswith('export'):
        files[target] = OTHER
    if tag.startswith('create'):
        files[target] = small_project('b')
    what = f'{conv}.run({src!r}, suffix={suffix!r}) with an existing {target}'
    for answer in ('y', 'n'):
        if faults and answer == 'y':
            continue
        st0, outs = convert(j, conv, src, files, suffix, answers=answer, record_fs=True, **({'faults': True} if faults else {}))
        for k, v, st in outs:
            if not j.raised(f'no-exception/{tag}', k, v, st, what):
                continue
            fault = fault_of(st)
            w = j.anchor('check', '_confirm_overwrite', 'isfile')
            wh = what + f' and answer {answer}' + (f' with failing {fault[0]} of {fault[1]}' if fault else '')
            ch, ask = first_change(st, st0)
            asked = [e for e in st.events if e[0] == 'ask']
            if tag.startswith('create'):
                j.ob(f'existing-project/{tag}', ch is None and not fs_diff(st0.fs, st.fs), f'{wh}: changes {fs_diff(st0.fs, st.fs)}', w)
                continue
            j.ob(f'asked-first/{tag}', ch is None or ask is not None and ask < ch, f'{wh}: {target} is changed before the user is asked', w)
            if not fault:
                j.ob(f'asked/{tag}', len(asked) == 1, f'{wh}: the user is asked {len(asked)} times', w)
                j.ob(f'question/{tag}', any(posixpath.basename(target) in str(e[1]) for e in asked), f'{wh}: the question is {asked}', w)
            if answer == 'n':
                left = fs_diff(st0.fs, st.fs)
                j.ob(f'untouched/{tag}', not left and ch is None, f'{wh}: changes {left}', w)
                if not fault:
                    how = v[1]
                    j.ob(f'cancelled/{tag}', len(how) == 1 and how[0].startswith('!') and 'cancel' in how[0].lower() and v[2] is None,
                         f'{wh}: reports {show(how)}, new file {show(v[2])}', w)
            elif not fault:
                j.ob(f'consent/{tag}', not v[1][0].startswith('!') and st.fs.get(target) != st0.fs.get(target), f'{wh}: reports {show(v[1])}', w)


def p22_new(j, tag, conv, src, suffix, files, target):
    """Without an existing target, there is no question."""
    if tag.startswith('import'):
        return
    what = f'{conv}.run({src!r}, suffix={suffix!r}) without an existing {target}'
    st0, outs = convert(j, conv, src, files, suffix, answers=None, record_fs=True)
    for k, v, st in outs:
        if j.raised(f'no-exception/{tag}', k, v, st, what):
            ch = [p for p in fs_diff(st0.fs, st.fs) if p in st0.fs]
            j.ob(f'others/{tag}', not ch and first_change(st, st0)[0] is None, f'{what}: changes the existing {ch}', j.anchor('write'))


def p22_again(j, tag, conv, src, suffix, files, target, fresh):
    """A second conversion of the same file: the answer given before is no consent to overwriting again."""
    if tag.startswith('create'):
        return
    files = dict(files)
    if tag.startswith('export'):
        files[target] = OTHER

    def twice(d, c):
        d.call(c, 'run', src, suffix=suffix)
        d.it.st.event('mark', 'again')
        if fresh:
            ui = d.get(c, 'ui')
            c = d.new(conv)
            d.set(c, 'ui', ui)
        d.call(c, 'run', src, suffix=suffix)
    what = f'{conv}.run({src!r}, suffix={suffix!r}) twice with an existing {target}' + (', by different converters' if fresh else '')
    st0, outs = convert(j, conv, src, files, suffix, direct=twice, answers=None, record_fs=True)
    seen = set()
    for k, v, st in outs:
        if not j.raised(f'no-exception/{tag}', k, v, st, what):
            continue
        at = st.events.index(('mark', 'again'))
        before = next((dict(e[3]) for e in reversed(st.events[:at]) if e[0] == 'fs'), st0.fs)
        answers = [e[1] for e in st.events if e[0] == 'answer']
        late = st.events[at:]
        ch = next((i for i, e in enumerate(late) if e[0] == 'fs' and any(dict(e[3]).get(p) != c for p, c in before.items() if c[0] != 'dir')), None)
        yes = next((i for i, e in enumerate(late) if e[0] == 'answer' and e[1] == 'y'), None)
        j.ob(f'asked-again/{tag}', ch is None or yes is not None and yes < ch, f'{what}: answers {answers}, but the second run changes {fs_diff(before, st.fs)}', j.anchor('check', '_confirm_overwrite', 'isfile'))
        seen.add((tuple(answers), ch is None))
    j.ob(f'driver/{tag}', any(not c for a, c in seen), f'{what}: the second run never writes: {seen}')


def jobs22(tier):
    out = []
    for c in cases():
        out.append(Job(f'{c[0]}/{c[1]}', p22_case, (*c, False)))
        if c[1] == 'Yw7Converter' and not c[0].startswith('create'):
            for fresh in (False, True):
                out.append(Job(f'{c[0]}/again/{fresh}', p22_again, (*c, fresh)))
        out.append(Job(f'{c[0]}/{c[1]}/new', p22_new, c))
        if c[1] == 'Yw7Converter' and (tier == 'thorough' or c[0] in ('export_manuscript', 'import_manuscript', 'create', 'export_charlist')):
            out.append(Job(f'{c[0]}/faults', p22_case, (*c, True)))
    return out


P22 = dict(rule='abstract interpretation of all conversion directions with existing and missing targets: on every path that changes an existing target, a consent question precedes the first file operation; a refusal path has no effect on the abstract file system', assumptions=['at most one failing file operation per run', 'models in vlib/models.py'], jobs=jobs22)


# ------------------------------------------------------------------------------- P23
def registry(name, attr):
    from vlib import check
    it = check.BASE
    c = it.classes.get(name)
    r = c and c.lookup(attr)
    return [x.name for x in it.st.get(r[1]).d] if r else []


def of(name, attr):
    from vlib import check
    r = check.BASE.classes[name].lookup(attr)
    return r[1] if r else None


def implementations(kind):
    """{suffix: class} of all document classes with a writer or reader implementation, apart from the registries."""
    from vlib import check
    out = {}
    for c in check.BASE.classes.values():
        mro = [k.name for k in c.mro if hasattr(k, 'name')]
        if 'SUFFIX' in c.ns and isinstance(c.ns['SUFFIX'], str) and c.lookup('EXTENSION')[1] in ('.odt', '.ods'):
            if kind == 'writer' and 'OdfFile' in mro or kind == 'reader' and ('OdtReader' in mro or 'OdsReader' in mro):
                out.setdefault(c.ns['SUFFIX'], []).append(c.name)
    return out


BASES = ('/p/x', '/p/x_xref_2', '/p_xref/x', '/p/a_brf_synopsis_b', '/p_brf_synopsis.odt/_xref_', '/p/a.b', '/p/x_notes', '/p.odt/x_manuscript', '/p_proof/x', '/p/my file', '/p/x.odt', '/p/x_proof.odt_y', '/p/_charlist_list', '/p/äöü', 'x', '../x')


def factory(d, conv, attr):
    return d.get(d.new(conv), attr)


def is_error(v, st):
    """Is the exception the one the application raises on purpose?"""
    return getattr(v, 'oid', None) is not None and st.heap[v.oid].cls.name == 'Error'


def p23_export(j, conv):
    """The writers of the converters."""
    j.interp()
    names = registry(conv, 'EXPORT_TARGET_CLASSES')
    seen = {}
    for n in names:
        s = of(n, 'SUFFIX')
        j.ob(f'unique/{conv}', s not in seen, f'{conv} has two document types with the suffix {s!r}: {seen.get(s)}, {n}')
        seen[s] = n
    known = implementations('writer')
    for n in names:
        t = of(n, 'DESCRIPTION')
        j.ob(f'described/{conv}', isinstance(t, str) and bool(t.strip()) and t != 'File', f'the document type {n} has the description {t!r}', j.anchor('DESCRIPTION'))
    for s, cs in known.items():
        if names:
            j.ob(f'offered/{conv}', s in seen, f'{conv} cannot export documents with the suffix {s!r} ({cs})')
    for s in [x for x in known if x in seen]:
        for b in BASES:
            def f(d):
                t = d.call(factory(d, conv, 'exportTargetFactory'), 'make_file_objects', b + '.yw7', suffix=s)[1]
                return d.it.st.get(t).cls.name, d.a(t, 'filePath'), d.get(t, 'SUFFIX'), d.get(t, 'EXTENSION')
            for k, v, st in j.run(f):
                what = f'{conv} exporting {b}.yw7 with the suffix {s!r}'
                if not j.raised(f'no-exception{s}', k, v, st, what):
                    continue
                cls, path, sfx, ext = v
                a = j.anchor('SUFFIX', '_fileClasses')
                j.ob(f'type{s}', cls in known[s] and sfx == s, f'{what} creates a {cls}', a)
                j.ob(f'target{s}', path == b + s + ext, f'{what}: the target is {path}', a)
    for s in ('_nothing', '_Proof', 'proof', '_proof.odt', '_', None, ' '):
        def f(d):
            r = d.call(factory(d, conv, 'exportTargetFactory'), 'make_file_objects', '/p/x.yw7', suffix=s)
            return r
        for k, v, st in j.run(f):
            ok = k == 'X' and is_error(v, st)
            j.ob('unknown-export', ok, f'{conv} exporting with the suffix {s!r}: ' + (j.it.describe(v, st) if k == 'X' else 'accepted'), j.anchor('_fileClasses', 'SUFFIX'))
    for src in ('x.yw7', '/p/x.YW7x', '/p/x.yw6', '/p/x.odt', '/p/x', '/p/yw7', '/p.yw7/x'):
        def f(d):
            t = d.call(factory(d, conv, 'exportSourceFactory'), 'make_file_objects', src, suffix='')
            return d.a(t[0], 'filePath')
        for k, v, st in j.run(f):
            if src.endswith('.yw7'):
                j.ob('project-source', k == 'N' and v == src, f'{conv}: {src} is not accepted as a project', j.anchor('_fileClasses'))
            else:
                j.ob('project-source', k == 'X' and is_error(v, st), f'{conv}: {src} is accepted as a project', j.anchor('_fileClasses'))


def p23_import(j, conv):
    """The readers of the converters and the project beside the document."""
    j.interp()
    names = registry(conv, 'IMPORT_SOURCE_CLASSES')
    for n in names:
        t = of(n, 'DESCRIPTION')
        j.ob(f'described/{conv}', isinstance(t, str) and bool(t.strip()) and t != 'File', f'the document type {n} has the description {t!r}', j.anchor('DESCRIPTION'))
    known = {s: c for s, c in implementations('reader').items() if s}
    if names:
        have = [of(n, 'SUFFIX') for n in names]
        for s, cs in known.items():
            j.ob(f'offered/{conv}', have.count(s) == 1, f'{conv} knows {have.count(s)} readers for documents with the suffix {s!r} ({cs})')
    for s in known if names else ():
        ext = extension(s)
        for b in BASES:
            src = b + s + ext

            def f(d):
                r = d.call(factory(d, conv, 'importSourceFactory'), 'make_file_objects', src, suffix=None)[0]
                t = d.call(factory(d, conv, 'importTargetFactory'), 'make_file_objects', src, suffix=d.get(r, 'SUFFIX'))[1]
                return d.it.st.get(r).cls.name, d.a(r, 'filePath'), d.it.st.get(t).cls.name, d.a(t, 'filePath')
            want = b + '.yw7'
            st0 = put_file(j, {posixpath.normpath(posixpath.join('/cwd', p)): 'x' for p in
                               {want, b.replace(s, '') + '.yw7', b + s + '.yw7', b.split('.')[0] + '.yw7' if '.' in posixpath.basename(b) else want}})
            st0.cwd = '/cwd'
            for k, v, st in j.run(f, st0):
                what = f'{conv} importing {src}'
                a = j.anchor('SUFFIX', '_fileClasses', 'EXTENSION')
                if not j.raised(f'no-exception{s}', k, v, st, what):
                    continue
                j.ob(f'reader{s}', v[0] in known[s] and v[1] == src, f'{what} uses {v[0]} for {v[1]}', a)
                j.ob(f'project{s}', v[2] == 'Yw7File' and v[3] == want, f'{what}: the project is {v[3]} instead of {want}', a)
            for k, v, st in j.run(f):
                ok = k == 'X' and is_error(v, st)
                j.ob(f'no-project{s}', ok, f'{conv} importing {src} without a project: ' + (j.it.describe(v, st) if k == 'X' else f'{v[3]}'), j.anchor('EXTENSION', '_fileClasses'))


def p23_run(j):
    """Export-only and unknown documents never create or change a project."""
    writers, readers = implementations('writer'), implementations('reader')
    only = [s for s in writers if s and s not in readers]
    for conv in ('Yw7Converter', 'Yw7Importer'):
        for b in ('/p/x', '/p/a.b', '/p/x_notes', '/p/x_xref', '/p/x y'):
            for s in only:
                for prj in (False, True):
                    src = b + s + of(writers[s][0], 'EXTENSION')
                    files = {src: document('_manuscript')}
                    if prj:
                        files[b + '.yw7'] = small_project()
                    st0, outs = convert(j, conv, src, files, None, answers='y')
                    for k, v, st in outs:
                        what = f'{conv}.run({src!r}) {"with" if prj else "without"} a project'
                        if not j.raised(f'no-exception{s}', k, v, st, what):
                            continue
                        a = j.anchor('DO_NOT_IMPORT', '_canImport')
                        ch = fs_diff(st0.fs, st.fs)
                        j.ob(f'refused{s}', len(v[1]) == 1 and v[1][0].startswith('!') and v[2] is None, f'{what}: reports {show(v[1])}', a)
                        j.ob(f'refused{s}', not ch, f'{what}: changes {ch}', a)
    j.ob('export-only', len(only) > 0 or len(writers) <= len(readers), 'no export-only documents')


def p23_new(j):
    """Documents without suffix: outlines and works in progress become new projects beside them."""
    for conv in ('Yw7Converter', 'Yw7Importer'):
        for b in BASES:
            for kind, cls in (('', 'OdtRImport'), ('outline', 'OdtROutline')):
                if b.endswith(tuple(s for s in implementations('reader') if s)):
                    continue

                def f(d):
                    s, t = d.call(factory(d, conv, 'newProjectFactory'), 'make_file_objects', b + '.odt')
                    return d.it.st.get(s).cls.name, d.a(s, 'filePath'), d.it.st.get(t).cls.name, d.a(t, 'filePath')
                st0 = put_file(j, {posixpath.normpath(posixpath.join('/cwd', b + '.odt')): document(kind)})
                st0.cwd = '/cwd'
                for k, v, st in j.run(f, st0):
                    what = f'{conv} creating a project from {b}.odt ({cls})'
                    if not j.raised('no-exception/new', k, v, st, what):
                        continue
                    a = j.anchor('EXTENSION', '_fileClasses', '_canImport')
                    j.ob('new-source', v[0] == cls and v[1] == b + '.odt', f'{what}: the source is {v[0]}({v[1]})', a)
                    j.ob('new-target', v[2] == 'Yw7File' and v[3] == b + '.yw7', f'{what}: the target is {v[2]}({v[3]})', a)


def jobs23(tier):
    out = [Job('run', p23_run), Job('new', p23_new)]
    for c in CONVERTERS:
        if registry(c, 'EXPORT_TARGET_CLASSES'):
            out.append(Job(f'export/{c}', p23_export, (c,)))
        if registry(c, 'IMPORT_SOURCE_CLASSES'):
            out.append(Job(f'import/{c}', p23_import, (c,)))
    return out


P23 = dict(rule='the registries and factories are interpreted for every registered suffix: class, suffix, extension and target path of the chosen reader or writer; export-only and unknown suffixes end in the application error without effect', assumptions=['models in vlib/models.py'], jobs=jobs23)


# ------------------------------------------------------------------------------- P24
def name_parts(sfx, ext):
    """Names a document may have before its suffix."""
    s = sfx or '_notes'
    atoms = ('x', s, s[1:], '.', ext, ' ', 'ä', '_')
    out = ['x' + a + b for a in ('',) + atoms for b in ('',) + atoms]
    out += [s + 'x', s + s + 'x', 'x' + s + 'x' + s, s.upper() + 'x', 'x' + s * 3, 'x.yw7', 'x.yw7' + s, 'a&b', "o'n", '$(x)', '%41', '#']
    return list(dict.fromkeys(out))


def p24_target(j, sfx):
    ext = extension(sfx)
    dirs = ('/p/', '/p' + sfx + '/', '/p' + sfx + ext + '/q.d/', '', '../', sfx + '/')
    for dr in dirs:
        for n in name_parts(sfx, ext):
            src = dr + n + sfx + ext
            want = dr + n + '.yw7'

            def f(d):
                t = d.call(factory(d, 'Yw7Converter', 'importTargetFactory'), 'make_file_objects', src, suffix=sfx)[1]
                return d.a(t, 'filePath')
            st0 = put_file(j, {posixpath.normpath(posixpath.join('/cwd', want)): 'x'})
            st0.cwd = '/cwd'
            for k, v, st in j.run(f, st0):
                j.ob(f'project-path{sfx}', k == 'N' and v == want, f'the project of {src} is ' + (f'{v} instead of {want}' if k == 'N' else f'not found: {j.it.describe(v, st)}'),
                     j.anchor('EXTENSION', '_fileClasses'))


def p24_accept(j, cls):
    sfx, ext = of(cls, 'SUFFIX') or '', of(cls, 'EXTENSION')
    end = sfx + ext
    good = [p + end for p in ('/p/x', 'x', '/p' + end + '/x', '/p/x' + end, '/p/a.b', '/p/ä b', '../x')] + ['/p/x' + end.upper()]
    bad = ['/p/x', '/p/x' + end + '.bak', '/p/x' + end + '~', '/p' + end + '/x', '/p/x.txt', '/p/x' + sfx + '.doc', '/p/x' + end[:-1], '/p/x' + end + ' ']
    if sfx:
        bad += ['/p/x' + ext, '/p/x_other' + ext, '/p/x' + sfx[1:] + ext, '/p/x' + sfx + 'x' + ext, '/p/x' + sfx + ' ' + ext]
    for p in good + bad:
        def f(d):
            o = d.new(cls, p)
            r = [d.a(o, 'filePath')]
            d.set(o, 'filePath', good[0])
            r.append(d.a(o, 'filePath'))
            d.set(o, 'filePath', p)
            r.append(d.a(o, 'filePath'))
            return r
        for k, v, st in j.run(f):
            what = f'{cls}({p!r})'
            if not j.raised(f'no-exception/{cls}', k, v, st, what):
                continue
            want = [p if p in good else None, good[0], p if p in good else good[0]]
            j.ob(f'accepted/{cls}', v == want, f'{what}: the paths are {v} instead of {want}', j.anchor('_filePath', 'SUFFIX'))


def jobs24(tier):
    out = []
    for s in pairs():
        out.append(Job(f'project{s}', p24_target, (s,)))
    for kind in ('writer', 'reader'):
        for s, cs in implementations(kind).items():
            for c in cs:
                out.append(Job(f'accept/{c}', p24_accept, (c,)))
    out.append(Job('accept/Yw7File', p24_accept, ('Yw7File',)))
    return out


P24 = dict(rule='the import target factory and the path setter are interpreted for every registered suffix with names built from the suffix, the extension, dots and directories: the derived path equals the name without its last suffix', assumptions=['models in vlib/models.py'], jobs=jobs24)
