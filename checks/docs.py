"""P10-P13: exported documents."""
import itertools
import re
import xml.etree.ElementTree as HET

from vlib import holes as H
from vlib.check import Job
from vlib.scen import *
from .build import *
from .files import make, documents, class_attr
from .model import mini

H.KINDS['prose'] = tuple(p for p in H.KINDS['text'] if '<' not in p)
T_ = '{urn:oasis:names:tc:opendocument:xmlns:text:1.0}'
O_ = '{urn:oasis:names:tc:opendocument:xmlns:office:1.0}'
TB_ = '{urn:oasis:names:tc:opendocument:xmlns:table:1.0}'
FORMATTED = ('OdtWExport', 'OdtWProof', 'OdtWManuscript', 'OdtWNotes', 'OdtWTodo')


def suffixes(j):
    """{document class: suffix} of the registered writers."""
    from vlib import check
    it = check.BASE
    return {n: it.classes[n].lookup('SUFFIX')[1] for n in documents()}


def members(st, path):
    c = st.fs.get(path)
    if c is None:
        return {}
    if c[0] == 'zip':
        return {n.rstrip('/'): x[1] for n, x in c[2] if x[0] == 'text'}
    return {'content': c[1]} if c[0] == 'text' else {}


def export(j, name, build, base='/p/x', hook=None, **kw):
    """[(kind, value, state, members)] of writing the novel with the document class."""
    def f(d):
        doc, path = make(d, name, base)
        n = build(d)
        d.set(doc, 'novel', n)
        r = hook(d, n) if hook else None
        d.call(doc, 'write')
        return path, r, hook(d, n) if hook else None
    st0 = j.base()
    st0.fs = {**st0.fs, posixdir(base): ('dir',)}
    for k, v, st in j.run(f, st0, **kw):
        yield k, v, st, members(st, v[0]) if k == 'N' else {}


def posixdir(p):
    import posixpath
    return posixpath.dirname(p) or '/cwd'


def where_of(t, pos):
    s = t[max(0, pos - 90):pos + 90].replace('\n', ' ')
    return s


def parse(text):
    return HET.fromstring(text.encode('utf-8', 'replace'))


def position(text, e):
    line, col = e.position
    lines = text.split('\n')
    return sum(len(x) + 1 for x in lines[:line - 1]) + col


def wellformed(j, rule, name, ms, facts, what, ks=range(H.MAXP)):
    """Obligations: every XML part parses for every probe of the unknown texts."""
    for part, t in ms.items():
        if not part.endswith(('.xml', '.rdf')):
            continue
        for k in ks if H.has_holes(t) else (0,):
            try:
                c = joint(t, k, facts)
            except H.OpFail as e:
                j.ob(f'{rule}/{name}.{part}', False, f'{what}: {part}: {e}', j.anchor('_convert_from_yw'))
                return False
            except H.Opaque as e:
                j.ob(f'{rule}/{name}.{part}', None, f'{what}: {part}: effect of {e}')
                return None
            try:
                parse(c)
                ok, msg = True, ''
            except HET.ParseError as e:
                ok, msg = False, f'{what}: {part} is not well-formed ({e}): ...{where_of(c, position(c, e))}...'
            j.ob(f'{rule}/{name}.{part}', ok, msg, '' if ok else construct(j, name))
            if not ok:
                return False
    return True


def construct(j, name):
    """The functions and templates of the document class involved."""
    it = j.it
    c = it.classes.get(name)
    out = []
    if c is not None:
        for q, (node, path) in it.fn_nodes.items():
            if q in it.covered and any(q.split(':')[-1].split('.')[0] == k.name for k in c.mro if hasattr(k, 'name')) \
                    and any(x in q for x in ('_convert_from_yw', '_get_text', 'Mapping', '_get_scenes', '_get_chapters')):
                import os
                from vlib.check import REPO
                out.append(f'{os.path.relpath(path, REPO)}:{node.lineno} ({q.split(":")[-1]})')
    return ', '.join(out[:8])


# ------------------------------------------------------------------------------- the novels
def full(kind='text', content='prose', dates=(0, 1, 0)):
    def build(d):
        n = fill_novel(d, d.new('Novel'), 'a', kind, dates=dates)
        h = d.it.st.get(d.get(n, 'scenes'))
        for i, sid in enumerate(('11', '12', '13')):
            s = d.it.getitem(d.get(n, 'scenes'), sid)
            d.set(s, 'sceneContent', text(f'a.scene{i + 1}.sceneContent', 'sceneContent', content))
        return n
    return build


def typed(sctype, kind='text', content='prose'):
    """The full novel with all scenes and chapters of one type."""
    def build(d):
        n = full(kind, content)(d)
        for cid in ('21', '22'):
            d.set(d.it.getitem(d.get(n, 'chapters'), cid), 'chType', sctype)
        for sid in ('11', '12', '13'):
            d.set(d.it.getitem(d.get(n, 'scenes'), sid), 'scType', sctype)
        return n
    return build


def novel_for(name, **kw):
    return typed({'OdtWNotes': 1, 'OdtWTodo': 2}.get(name, 0), **kw)


def parts_novel(name, **kw):
    """All chapters at the first level."""
    def build(d):
        n = novel_for(name, **kw)(d)
        for cid in ('21', '22'):
            d.set(d.it.getitem(d.get(n, 'chapters'), cid), 'chLevel', 1)
        return n
    return build


def matrix_spec():
    """[(chapter, {attributes}, [(scene, {attributes})])]: all types, levels and flags."""
    out = []
    c = s = 0

    def chapter(scenes, **a):
        nonlocal c, s
        c += 1
        sc = []
        for x in scenes:
            s += 1
            sc.append((f'1{s:02d}', x))
        out.append((f'2{c:02d}', a, sc))
    S = dict
    mixed = [S(scType=0), S(scType=1), S(scType=0, doNotExport=True), S(scType=2), S(scType=0, appendToPrev=True), S(scType=3),
             S(scType=0, doNotExport=True, appendToPrev=True), S(scType=1, doNotExport=True), S(scType=0)]
    for lev in (0, 1):
        chapter(mixed, chType=0, chLevel=lev)
        chapter(list(reversed(mixed)), chType=0, chLevel=lev, suppressChapterTitle=True)
        chapter([], chType=0, chLevel=lev)
        chapter([S(scType=0, doNotExport=True), S(scType=0, doNotExport=True)], chType=0, chLevel=lev)
        chapter([S(scType=0, appendToPrev=True), S(scType=0, appendToPrev=True), S(scType=0)], chType=0, chLevel=lev,
                suppressChapterBreak=True)
        chapter([S(scType=1), S(scType=2), S(scType=3)], chType=0, chLevel=lev)
        chapter([S(scType=1), S(scType=0)], chType=0, chLevel=lev)
        chapter([S(scType=2, appendToPrev=True), S(scType=0, appendToPrev=True)], chType=0, chLevel=lev)
        chapter([S(scType=0, doNotExport=True), S(scType=1)], chType=0, chLevel=lev)
        for t in (1, 2, 3):
            chapter([S(scType=t), S(scType=t, doNotExport=True), S(scType=t, appendToPrev=True), S(scType=t)], chType=t, chLevel=lev)
            chapter([], chType=t, chLevel=lev)
            chapter([S(scType=t, doNotExport=True)], chType=t, chLevel=lev, suppressChapterTitle=True)
        chapter([S(scType=0)], chType=0, chLevel=lev)
    chapter([S(scType=0), S(scType=3), S(scType=0, doNotExport=True)], chType=3, chLevel=0)
    chapter([S(scType=3)], chType=3, chLevel=0, isTrash=True)
    return out


MATRIX_TEXTS = ('title', 'desc', 'sceneContent', 'notes', 'goal', 'conflict', 'outcome', 'field1')


def matrix(spec, filled=True, contents=None):
    def build(d):
        n = d.new('Novel')
        d.set(n, 'title', 'N')
        for cid, attrs, scenes in reversed(spec):
            c = d.new('Chapter')
            if filled:
                for a in CHAPTER_TEXTS:
                    d.set(c, a, T(f'chapter{cid}.{a}', 'word'))
            for a, v in {'chType': 0, 'chLevel': 0, **attrs}.items():
                d.set(c, a, v)
            for sid, sa in reversed(scenes):
                s = d.new('Scene')
                if filled:
                    for a in MATRIX_TEXTS:
                        d.set(s, a, T(f'scene{sid}.{a}', 'word'))
                if contents:
                    d.set(s, 'sceneContent', contents[sid])
                for a, v in {'scType': 0, **sa}.items():
                    if a == 'RAW':
                        # a scene made of code for another program
                        d.set(s, 'sceneContent', v + d.a(s, 'sceneContent'))
                    else:
                        d.set(s, a, v)
                d.put(d.get(n, 'scenes'), sid, s)
            d.set(c, 'srtScenes', d.lst([x[0] for x in scenes]))
            d.put(d.get(n, 'chapters'), cid, c)
        d.set(n, 'srtChapters', d.lst([x[0] for x in spec]))
        return n
    return build


def sparse(texts):
    """Elements whose attributes have the values they are created with, or None."""
    def build(d):
        n = d.new('Novel')
        none = texts == 'none'
        for i in range(3):
            s = d.new('Scene')
            if none:
                for a in SCENE_TEXTS + ('tags', 'date', 'time', 'day', 'status', 'characters', 'locations', 'items', 'scnArcs', 'scnMode') \
                        + SCENE_DAYS:
                    if a != 'sceneContent':
                        d.set(s, a, None)
            elif texts == 'empty':
                for a in SCENE_TEXTS:
                    d.set(s, a, '')
                for a in ('tags', 'characters', 'locations', 'items'):
                    d.set(s, a, d.lst([]))
            d.set(s, 'scType', 0)
            d.put(d.get(n, 'scenes'), f'1{i}', s)
        for i, t in enumerate((0, 1)):
            c = d.new('Chapter')
            d.set(c, 'chType', 0)
            d.set(c, 'chLevel', t)
            if texts == 'empty':
                d.set(c, 'title', '')
                d.set(c, 'desc', '')
            d.set(c, 'srtScenes', d.lst([f'1{i}'] if i else ['10', '12']))
            d.put(d.get(n, 'chapters'), f'2{i}', c)
        d.set(n, 'srtChapters', d.lst(['20', '21']))
        for attr, order, cls, pre in WORLD_LISTS:
            e = d.new(cls)
            if none or texts == 'empty':
                for a in CHARACTER_TEXTS if cls == 'Character' else WORLD_TEXTS:
                    d.set(e, a, None if none else '')
                d.set(e, 'tags', None if none else d.lst([]))
            d.put(d.get(n, attr), pre + '1', e)
            d.set(n, order, d.lst([pre + '1']))
        if texts == 'refs':
            for a, pre in (('characters', '6'), ('locations', '4'), ('items', '5')):
                d.set(d.it.getitem(d.get(n, 'scenes'), '10'), a, d.lst([pre + '1']))
        return n
    return build


# ------------------------------------------------------------------------------- markup
TOKENS = ('[i]', '[/i]', '[b]', '[/b]', '[lang=de-DE]', '[/lang=de-DE]', '/*', '*/', '/* @fn ', '\n> ', '\n', '\n- ', '[u]', '')
TOKENS2 = TOKENS + ('*/*', '/*/', '/* @en* ', '[/u]', '[h1]', '> ', '- ', '&', '[lang=x]', '/* @fn* ', '[', '[/', '*', '/', ' ', '\n\n', '\t', '"', '<a>',
                    '[lang=de-DE]\n', '[i]\n', '\n[/i]', '[b][i]', '[/i][/b]', '[/b][/i]')
WORDS = 8


def word(i):
    return T(f'w{i}', 'word')


def sequence(seq):
    return word(0) + ''.join(t + word(k + 1) for k, t in enumerate(seq))


def sequences(tier):
    """Chunks of token sequences."""
    seqs = [s for s in itertools.product(TOKENS2, repeat=2)] + [(t,) for t in TOKENS2]
    core = ('[i]', '[/i]', '[b]', '[/b]', '/*', '*/', '\n', '\n> ', '[lang=de-DE]', '[/lang=de-DE]')
    if tier == 'thorough':
        seqs += list(itertools.product(TOKENS, repeat=3))
        seqs += list(itertools.product(('[i]', '[/i]', '[b]', '[/b]', '/*', '*/', '\n'), repeat=4))
    else:
        seqs += list(itertools.product(core, repeat=3))
    seqs = list(dict.fromkeys(seqs))
    size = 260
    return [seqs[i:i + size] for i in range(0, len(seqs), size)]


def body_of(name, t):
    """{scene ID: text of its part of the document}"""
    if name == 'OdtWProof':
        return {m.group(1): m.group(2) for m in re.finditer(r'\[ScID:(\d+)\]</text:p>\s*(.*?)\s*<text:p text:style-name="scene_20_mark">\[/ScID\]', t, re.S)}
    return {m.group(1): m.group(2) for m in re.finditer(r'text:name="ScID:(\d+)">(.*?)</text:section>', t, re.S)}


def markup_novel(seqs, sctype, titles=False):
    def build(d):
        cont = {str(i + 1): sequence(s) for i, s in enumerate(seqs)}
        n = mini(d, {'1': list(cont)}, cont, scType={s: sctype for s in cont})
        d.set(d.it.getitem(d.get(n, 'chapters'), '1'), 'chType', sctype)
        d.set(n, 'authorName', 'A & B "C" \\1')
        if titles:
            for sid, t in cont.items():
                d.set(d.it.getitem(d.get(n, 'scenes'), sid), 'title', t.replace('\n', ' '))
            d.set(n, 'title', 'x /* y')
            d.set(d.it.getitem(d.get(n, 'chapters'), '1'), 'title', '[i]z */')
        return n
    return build


def p10_markup(j, name, seqs, titles=False):
    t = {'OdtWNotes': 1, 'OdtWTodo': 2}.get(name, 0)
    for k, v, st, ms in export(j, name, markup_novel(seqs, t, titles)):
        if not j.raised(f'no-exception/{name}', k, v, st, f'{name}.write() of texts with markup'):
            continue
        c = ms.get('content.xml', '')
        bad = markup_check(j, name, c, seqs, st)
        if not bad:
            wellformed(j, 'markup', name, {'content.xml': c}, st.facts, f'{name} of texts with markup', (0, 1))


def header(t):
    a = t.find('<office:document-content')
    return t[a:t.find('>', a) + 1]


def markup_check(j, name, c, seqs, st):
    head = header(c)
    bodies = body_of(name, c)
    bad = 0
    for sid, body in bodies.items():
        try:
            parse(head + joint(body, 1, st.facts) + '</office:document-content>')
            j.ob(f'markup/{name}', True)
        except HET.ParseError as e:
            bad += 1
            src = sequence(seqs[int(sid) - 1])
            j.ob(f'markup/{name}', False, f'{name}: the scene text {show(src)} becomes {show(body.strip())}, which is not well-formed ({e})',
                 construct(j, name))
    return bad


def p10_novel(j, name, which):
    build, base = NOVELS[which](name)
    what = f'{name} of a novel with {which}'
    for k, v, st, ms in export(j, name, build, base):
        if j.raised(f'no-exception/{name}', k, v, st, what):
            j.ob(f'content/{name}', 'content.xml' in ms, f'{what}: no content.xml is written')
            if wellformed(j, which, name, ms, st.facts, what) and 'content.xml' in ms:
                outside(j, name, parse(joint(ms['content.xml'], 0, st.facts)), what)


BLOCKS = tuple(O_ + x for x in ('text', 'spreadsheet', 'body', 'document-content', 'automatic-styles', 'font-face-decls', 'scripts')) + tuple(
    T_ + x for x in ('section', 'list', 'list-item', 'note', 'note-body', 'sequence-decls')) + tuple(
    TB_ + x for x in ('table', 'table-row', 'table-cell', 'table-column', 'covered-table-cell')) + (O_ + 'annotation',)


def outside(j, name, tree, what):
    """All text is inside of paragraphs and headings."""
    for e in tree.iter():
        if e.tag in BLOCKS:
            for s in [e.text] + [c.tail for c in e]:
                s = (s or '').strip()
                j.ob(f'outside/{name}/{s}' if s else f'outside/{name}', not s, f'{what}: the text {s!r} is outside of paragraphs, in {e.tag.split("}")[1]}',
                     construct(j, name) if s else '')



def odd_locale(name):
    b = novel_for(name, kind='word', content='word')

    def build(d):
        n = b(d)
        d.set(n, 'languageCode', T('a.languageCode'))
        d.set(n, 'countryCode', T('a.countryCode'))
        d.set(n, 'languages', d.lst(['de-DE', 'a"b<&-c', 'nodash', 'a-b-c', '']))
        return n
    return build


def no_locale(name):
    b = novel_for(name, kind='word', content='word')

    def build(d):
        n = b(d)
        d.set(n, 'languageCode', None)
        d.set(n, 'countryCode', None)
        d.set(n, 'languages', None)
        for sid in ('11', '12'):
            d.set(d.it.getitem(d.get(n, 'scenes'), sid), 'sceneContent', '[lang=de-DE]x[/lang=de-DE] [lang=fr"<-&]y[/lang=fr"<-&]')
        return n
    return build


def odd_lists(name):
    """Lists and texts one might be tempted to tidy up."""
    b = novel_for(name, kind='word', content='word')

    def build(d):
        n = b(d)
        h = d.val(n).d
        lists = (['', 'b', 'a', 'b', ' x '], ['z', '', 'a'], [], [''])
        texts = (' a \n\n b ', '', ' ', '/* c */ [i]x', '[lang=de-DE]x[/lang=de-DE] -- ...', '\n', 'a;b, c')
        k = 0
        for kind in ('scenes', 'chapters', 'characters', 'locations', 'items', 'projectNotes'):
            for i, x in h[kind].items():
                e = d.it.getitem(d.get(n, kind), i)
                if 'tags' in x.d:
                    d.set(e, 'tags', d.lst(lists[k % len(lists)]))
                for a in SCENE_TEXTS + CHAPTER_TEXTS + CHARACTER_TEXTS + WORLD_TEXTS + NOTE_TEXTS:
                    if a in x.d or '_' + a in x.d:
                        t = texts[k % len(texts)]
                        d.set(e, a, t if a in MULTI else t.replace('\n', ' '))
                        # titles, names and ratings are one-liners
                        k += 1
                k += 1
        for sid, (ch, lo, it) in (('11', (['62', '61', '62'], ['42', '42'], ['52', '51', '51'])), ('12', (['61', '61'], [], ['51', '51']))):
            e = d.it.getitem(d.get(n, 'scenes'), sid)
            for a, v in (('characters', ch), ('locations', lo), ('items', it)):
                d.set(e, a, d.lst(v))
        d.set(n, 'languages', d.lst(['zz-ZZ', 'de-DE', 'aa-AA']))
        return n
    return build


NOVELS = {
    'odd lists and texts': lambda name: (odd_lists(name), '/p/x'),
    'any texts': lambda name: (novel_for(name), '/p/x'),
    'any texts in parts': lambda name: (parts_novel(name), '/p/x'),
    'all types and flags': lambda name: (matrix(matrix_spec()), '/p/x'),
    'all types and flags, unset attributes': lambda name: (matrix(matrix_spec(), False), '/p/x'),
    'attributes as created': lambda name: (sparse('new'), '/p/x'),
    'attributes set to None': lambda name: (sparse('none'), '/p/x'),
    'empty attributes': lambda name: (sparse('empty'), '/p/x'),
    'relations to untitled elements': lambda name: (sparse('refs'), '/p/x'),
    'a special file name': lambda name: (novel_for(name, kind='word', content='word'), '/p/A&B <x> "q" \'z\'/C&D <y> "q" \'z\''),
    'odd language codes': lambda name: (odd_locale(name), '/p/x'),
    'unknown languages': lambda name: (no_locale(name), '/p/x'),
    'no elements': lambda name: (lambda d: d.new('Novel'), '/p/x'),
}


def p10_jobs(tier):
    jobs = []
    for name in documents():
        for w in NOVELS:
            jobs.append(Job(f'{name}-{w}', p10_novel, (name, w)))
    docs = [n for n in documents() if n in FORMATTED]
    chunks = sequences(tier)
    for i, c in enumerate(chunks):
        for name in docs:
            if name in ('OdtWNotes', 'OdtWTodo') and i % 4 and tier == 'quick':
                continue
            jobs.append(Job(f'{name}-markup{i}', p10_markup, (name, c)))
    for name in docs:
        jobs.append(Job(f'{name}-titles', p10_markup, (name, chunks[0], True)))
    return jobs


P10 = dict(
    rule='Abstract interpretation of the write method of every registered document class over abstract novels: all chapter types, levels and '
         'scene types and flags, unset, None, empty and arbitrary attribute texts (a text is a label with transformations, represented by '
         'probe texts with all characters special to XML), special file names, odd and missing language codes, and scene texts and titles '
         'made of all sequences of up to three markup tokens with unknown words between them. Obligation: each XML part of the abstract '
         'package is well-formed for all probes.',
    assumptions=['models in vlib/models.py', 'a text transformation behaves on all texts as on the probe texts of its kind (vlib/holes.py)'],
    jobs=p10_jobs)


# ------------------------------------------------------------------------------- P11
W_CHAR = ('title', 'fullName', 'aka', 'desc', 'bio', 'goals', 'notes')
EXPECT = {
    '': (('novel', 'title', 'authorName'), ('chapter', 'title'), ('scene', 'sceneContent')),
    '_proof': (('novel', 'title', 'authorName'), ('chapter', 'title'), ('scene', 'title', 'sceneContent')),
    '_manuscript': (('novel', 'title', 'authorName'), ('chapter', 'title'), ('scene', 'title', 'sceneContent')),
    '_notes': (('novel', 'title', 'authorName'), ('chapter', 'title'), ('scene', 'title', 'sceneContent')),
    '_todo': (('novel', 'title', 'authorName'), ('chapter', 'title'), ('scene', 'title', 'sceneContent')),
    '_brf_synopsis': (('novel', 'title', 'authorName'), ('chapter', 'title'), ('scene', 'title')),
    '_scenes': (('novel', 'title', 'authorName'), ('chapter', 'title'), ('scene', 'title', 'desc')),
    '_chapters': (('novel', 'title', 'authorName'), ('chapter', 'title', 'desc')),
    '_parts': (('novel', 'title', 'authorName'), ('chapter', 'title', 'desc')),
    '_characters': (('novel', 'title', 'authorName'), ('characters',) + W_CHAR),
    '_locations': (('novel', 'title', 'authorName'), ('locations', 'title', 'aka', 'desc')),
    '_items': (('novel', 'title', 'authorName'), ('items', 'title', 'aka', 'desc')),
    '_charlist': (('characters',) + W_CHAR + ('tag1', 'tag2'),),
    '_loclist': (('locations', 'title', 'aka', 'desc', 'tag1', 'tag2'),),
    '_itemlist': (('items', 'title', 'aka', 'desc', 'tag1', 'tag2'),),
    '_scenelist': (('novel', 'fieldTitle1', 'fieldTitle2', 'fieldTitle3', 'fieldTitle4'),
                   ('scene', 'title', 'desc', 'tag1', 'tag2', 'notes', 'goal', 'conflict', 'outcome', 'field1', 'field2', 'field3', 'field4'),
                   ('characters', 'title'), ('locations', 'title'), ('items', 'title')),
    '_xref': (('novel', 'title', 'authorName'), ('scene', 'title', 'tag1', 'tag2'), ('characters', 'title', 'tag1', 'tag2'),
              ('locations', 'title', 'tag1', 'tag2'), ('items', 'title', 'tag1', 'tag2')),
}
COUNT = {'novel': [''], 'chapter': ['21', '22'], 'scene': ['1', '2', '3'], 'characters': ['1', '2'], 'locations': ['1', '2'], 'items': ['1', '2']}


def expected_labels(suffix):
    out = set()
    for kind, *attrs in EXPECT.get(suffix, ()):
        for i in COUNT[kind]:
            for a in attrs:
                base = f'a.{kind}{i}.{a}'
                out |= {base + '.1', base + '.2'} if a in MULTI else {base}
    return out


def flat(e):
    """All texts and attribute values of a document in order."""
    out = []

    def walk(x):
        out.append(('t', x.tag, x.text or ''))
        for a, v in sorted(x.attrib.items()):
            out.append(('a', a, v))
        for c in x:
            walk(c)
            out.append(('t', x.tag, c.tail or ''))
    walk(e)
    return out


LABEL = re.compile('\u00ab([^\u00ab\u00bb]*)\u00bb')


def p11_case(j, name, suffix, parts):
    build = (parts_novel if parts else novel_for)(name)
    what = f'{name}'
    for k, v, st, ms in export(j, name, build):
        if not j.raised(f'no-exception/{name}', k, v, st, what):
            continue
        c = ms.get('content.xml')
        if not j.ob(f'content/{name}', c is not None, f'{what}: no content.xml'):
            continue
        origins = {str(H.hole(ch).origin) for ch in H.holes_in(c)}
        if not (parts and suffix == '_chapters' or not parts and suffix == '_parts'):
            want = expected_labels(suffix)
            for o in sorted(want):
                key = re.sub(r'\d+(?=\.)', '', o.split('.', 1)[1])
                ok = o in origins
                j.ob(f'present/{name}.{key}', ok, '' if ok else f'{what}: {o} is missing in the document', '' if ok else
                     j.anchor(attr_of(o)) + ' ' + construct(j, name))
        compare_values(j, name, c, st, what)


def attr_of(o):
    p = o.split('.')
    return 'tags' if p[2].startswith('tag') else p[2]


def compare_values(j, name, c, st, what):
    """The decoded document with any values equals the decoded document with labels, the values put in."""
    def tree(k):
        t = H.HOLE_RE.sub(lambda m: conc(m.group(), k, st.facts), c)
        return flat(parse(t))
    try:
        base = tree(None)
    except (HET.ParseError, H.OpFail) as e:
        j.ob(f'decoded/{name}', False, f'{what}: not well-formed: {e}', construct(j, name))
        return
    except H.Opaque as e:
        j.ob(f'decoded/{name}', None, f'{what}: effect of {e}')
        return
    kinds = {str(H.hole(ch).origin): H.hole(ch) for ch in H.holes_in(c)}
    for k in range(H.MAXP):
        try:
            got = tree(k)
        except (HET.ParseError, H.OpFail) as e:
            j.ob(f'decoded/{name}', False, f'{what}: not well-formed: {e}', construct(j, name))
            return
        if len(got) != len(base):
            j.ob(f'decoded/{name}', False, f'{what}: the structure depends on the texts', construct(j, name))
            return
        for g, b in zip(got, base):
            if '\u00ab' not in b[2]:
                continue
            w = LABEL.sub(lambda m: value(kinds[m.group(1)], k, st.facts) if m.group(1) in kinds else m.group(), b[2])
            if b[0] == 'a':
                w = re.sub('[\t\r\n]', ' ', w)
            ok = g[2] == w
            os_ = LABEL.findall(b[2])
            key = re.sub(r'\d+(?=\.)', '', os_[0].split('.', 1)[-1]) if os_ else ''
            if b[0] == 'a' and 'href' in b[1]:
                continue
            j.ob(f'value/{name}.{key}', ok, '' if ok else f'{what}: {os_} with the text {w!r} appears as {g[2]!r} in '
                 f'{b[1].split("}")[-1]}', '' if ok else j.anchor(attr_of(os_[0])) + ' ' + construct(j, name))


def conc(ch, k, facts):
    h = H.hole(ch)
    p = f'\u00ab{h.origin}\u00bb' if k is None else value(h, k, facts)
    return H.apply_ops(h.ops, p)


def value(h, k, facts):
    ps = [p for p in H.probes(h) if H.facts_ok(h, p, facts)] or list(H.probes(h))
    return ps[(k + hash_origin(h.origin)) % len(ps)]


def p11_markup(j, name, seqs):
    """No word of a text with markup is lost, duplicated or displaced."""
    t = {'OdtWNotes': 1, 'OdtWTodo': 2}.get(name, 0)
    for k, v, st, ms in export(j, name, markup_novel(seqs, t)):
        if not j.raised(f'no-exception/{name}', k, v, st, f'{name}.write() of texts with markup'):
            continue
        c = ms.get('content.xml', '')
        bodies = body_of(name, c)
        if name == 'OdtWExport':
            got = [H.hole(x).origin for x in H.holes_in(c)]
            want = [f'w{i}' for s in seqs for i in range(len(s) + 1)]
            ok = got == want
            i = next((i for i, (a, b) in enumerate(zip(got, want)) if a != b), 0)
            j.ob(f'words/{name}', ok, '' if ok else f'{name}: texts with markup are incomplete: {len(got)} of {len(want)} words, from word {i} on',
                 '' if ok else construct(j, name))
            continue
        for i, s in enumerate(seqs):
            b = bodies.get(str(i + 1), '')
            got = [H.hole(x).origin for x in H.holes_in(b)]
            want = [f'w{n}' for n in range(len(s) + 1)]
            ok = got == want
            j.ob(f'words/{name}', ok, '' if ok else f'{name}: the text {show(sequence(s))} becomes {show(b.strip())}', '' if ok else construct(j, name))


PLAIN = ('', ' ', '& ', '< > ', '"', "'", '*', '/', ' * / ', '@n@', '@r@', '[', ']', '[x]', '[j]', ' [ i ]', '\\1', '$Title', '${ID}', '%s', '&amp;',
         ']]>', '@fn ', '#', '##', '~', '\t')


def p11_plain(j, name):
    """Characters without meaning stay as they are."""
    t = {'OdtWNotes': 1, 'OdtWTodo': 2}.get(name, 0)
    seqs = [s for s in itertools.product(PLAIN, repeat=2)]
    for k, v, st, ms in export(j, name, markup_novel(seqs, t)):
        if not j.raised(f'no-exception/{name}', k, v, st, f'{name}.write()'):
            continue
        c = ms.get('content.xml', '')
        try:
            tree = parse(joint(c, 0, st.facts))
        except HET.ParseError as e:
            j.ob(f'plain/{name}', False, f'{name}: not well-formed: {e}', construct(j, name))
            continue
        ps = [''.join(p.itertext()) for p in tree.iter(T_ + 'p')]
        ps = [p for p in ps if '\u00abw' in p]
        for s, p in itertools.zip_longest(seqs, ps):
            w = joint(sequence(s), 0) if s is not None else None
            ok = p == w
            j.ob(f'plain/{name}', ok, '' if ok else f'{name}: the text {w!r} appears as {p!r}', '' if ok else construct(j, name))
            if not ok:
                break


CODES_IN_TEXT = ('<TEX a b /TEX>', '<HTM <b> /HTM>', '<RTFBRK>', '<RTF \\i /RTF>', '<epub x /epub>', '<mobi y /mobi>', '<rtfimg z /rtfimg>', ' <x> ', '\n',
                 ' /TEX> ', ' <TEX> ')


def p11_inline(j):
    """Raw code for other formats is removed, and nothing else."""
    seqs = [('',) + s for s in itertools.product(CODES_IN_TEXT, repeat=2)]
    seqs += [('', a, ' ', b, '') for a, b in itertools.product(CODES_IN_TEXT[:7], repeat=2)]
    for k, v, st, ms in export(j, 'OdtWExport', markup_novel(seqs, 0)):
        if not j.raised('no-exception/OdtWExport', k, v, st, 'OdtWExport.write()'):
            continue
        try:
            tree = parse(joint(ms.get('content.xml', ''), 0, st.facts))
        except HET.ParseError as e:
            j.ob('inline/OdtWExport', False, f'OdtWExport: not well-formed: {e}', construct(j, 'OdtWExport'))
            continue
        ps = [''.join(p.itertext()) for p in tree.iter(T_ + 'p')]
        got = [p for p in ps if '\u00abw' in p]
        want = []
        for s in seqs:
            want += joint(sequence(tuple('' if t in CODES_IN_TEXT[:7] else t for t in s)), 0).split('\n')
        for g, w in itertools.zip_longest(got, want):
            j.ob('inline/OdtWExport', g == w, '' if g == w else f'OdtWExport: raw code in the text: the paragraph is {g!r} instead of {w!r}',
                 '' if g == w else construct(j, 'OdtWExport'))
            if g != w:
                break


def p11_sparse(j, name, which):
    build, base = NOVELS[which](name)
    for k, v, st, ms in export(j, name, build, base):
        if not j.raised(f'no-exception/{name}', k, v, st, f'{name} of a novel with {which}'):
            continue
        try:
            tree = parse(joint(ms.get('content.xml', ''), 0))
        except HET.ParseError:
            continue
        bad = [x for x in flat(tree) if re.search(r'\bNone\b', x[2]) and not x[1].endswith(('display', 'country'))]
        j.ob(f'no-None/{name}', not bad, f'{name} of a novel with {which}: an unset attribute appears as "None" in {bad[:2]}', construct(j, name))


FIELDS = '''
from pywriter.file.file_export import FileExport


def _lines(name, *fields):
    return ''.join([f'{name}\\x1f$ID\\x1f{x}\\x1f${x}\\x1e' for x in fields])


class FieldExport(FileExport):
    \"\"\"A document made of all variables of the templates.\"\"\"
    EXTENSION = '.csv'
    SUFFIX = '_fields'
    _fileHeader = _lines('novel', 'Title', 'Desc', 'AuthorName', 'AuthorBio', 'FieldTitle1', 'FieldTitle2', 'FieldTitle3', 'FieldTitle4',
                         'Language', 'Country')
    _partTemplate = _lines('part', 'Title', 'Desc', 'ProjectName', 'ProjectPath', 'Language', 'Country')
    _chapterTemplate = _lines('chapter', 'Title', 'Desc', 'ProjectName', 'ProjectPath', 'Language', 'Country')
    _chapterEndTemplate = _lines('end', 'Title', 'Desc')
    _sceneTemplate = _lines('scene', 'Title', 'Desc', 'WordCount', 'LetterCount', 'Status', 'SceneContent', 'FieldTitle1', 'FieldTitle2',
                            'FieldTitle3', 'FieldTitle4', 'Field1', 'Field2', 'Field3', 'Field4', 'Date', 'Time', 'Day', 'ScDate', 'LastsDays',
                            'LastsHours', 'LastsMinutes', 'Duration', 'ReactionScene', 'Goal', 'Conflict', 'Outcome', 'Tags',
                            'Characters', 'Viewpoint', 'Locations', 'Items', 'Notes', 'ProjectName', 'ProjectPath', 'Language', 'Country')
    _characterTemplate = _lines('character', 'Title', 'Desc', 'Tags', 'AKA', 'Notes', 'Bio', 'Goals', 'FullName', 'Status', 'ProjectName',
                                'ProjectPath')
    _locationTemplate = _lines('location', 'Title', 'Desc', 'Tags', 'AKA', 'ProjectName', 'ProjectPath')
    _itemTemplate = _lines('item', 'Title', 'Desc', 'Tags', 'AKA', 'ProjectName', 'ProjectPath')
    _projectNoteTemplate = _lines('note', 'Title', 'Desc', 'ProjectName', 'ProjectPath')
'''
LOW = {'AuthorName': 'authorName', 'AuthorBio': 'authorBio', 'FullName': 'fullName', 'SceneContent': 'sceneContent', 'Language': 'languageCode',
       'Country': 'countryCode', 'AKA': 'aka'}
STATI = (None, 'Outline', 'Draft', '1st Edit', '2nd Edit', 'Done')
FIELD_SCENES = {
    'all set': {},
    'unset': {'tags': None, 'characters': None, 'locations': None, 'items': None, 'status': None, 'date': None, 'time': None, 'day': None,
              'lastsDays': None, 'lastsHours': None, 'lastsMinutes': None, 'isReactionScene': None},
    'reaction': {'isReactionScene': True, 'date': None, 'day': '3', 'time': '23:59:01', 'lastsDays': '0', 'lastsHours': '7', 'lastsMinutes': '0',
                 'status': 5},
    'no hours': {'isReactionScene': False, 'date': '0001-01-01', 'day': None, 'lastsDays': '2', 'lastsHours': '0', 'lastsMinutes': '8', 'status': 4},
    'single': {'day': '0', 'date': None, 'characters': ['61'], 'locations': ['41'], 'items': ['51'], 'lastsDays': None, 'lastsHours': '0',
               'lastsMinutes': '9', 'status': 3},
    'empty lists': {'tags': [], 'characters': [], 'locations': [], 'items': [], 'day': '5', 'date': '2020-03-04', 'time': None, 'lastsDays': '1',
                    'lastsHours': None, 'lastsMinutes': None},
    'untitled relations': {'characters': ['61', '62'], 'locations': ['41', '42'], 'items': ['51', '52']},
    'untitled last relations': {'characters': ['62', '61'], 'locations': ['42', '41'], 'items': ['52', '51']},
}


def field_scene(d, h, x, v):
    names = lambda kind: [h[kind][i].d['title'] or '' for i in v[kind] or []]
    at = {'date': '', 'day': ''}
    if v['date'] not in (None, '0001-01-01'):
        at['date'] = v['date']
    elif v['day'] is not None:
        at['day'] = v['day']
    last = {a: v[a] if v[a] not in (None, '0') else '' for a in ('lastsDays', 'lastsHours', 'lastsMinutes')}
    if x in ('Characters', 'Locations', 'Items'):
        return ', '.join(names(x.lower()))
    if x == 'Duration':
        return ''.join(last[a] + u for a, u in (('lastsDays', 'd '), ('lastsHours', 'h '), ('lastsMinutes', 'min')) if last[a])
    return {'Viewpoint': lambda: (names('characters') or [''])[0], 'Status': lambda: STATI[v['status']] if v['status'] else '',
            'ReactionScene': lambda: 'R' if v['isReactionScene'] else 'A', 'Date': lambda: at['date'], 'Day': lambda: at['day'],
            'ScDate': lambda: at['date'] or (f'Day {at["day"]}' if at['day'] else ''), 'Time': lambda: (v['time'] or '').rsplit(':', 1)[0],
            'LastsDays': lambda: last['lastsDays'], 'LastsHours': lambda: last['lastsHours'],
            'LastsMinutes': lambda: last['lastsMinutes']}.get(x, lambda: MISSING)()


def p11_fields(j, which):
    '''Each variable of a template has the value of its attribute.'''
    def f(d):
        n = fill_novel(d, d.new('Novel'), 'a', 'text', dates=(0, 1, 0))
        m = d.it.modules.get('field_export') or d.it.load_source('field_export', '/verif/checks/docs.py', FIELDS)
        e = d.it.call(m.env['FieldExport'], ['/p/q r/x_fields.csv'], {})
        for cid, lev in (('21', 0), ('22', 1)):
            d.set(d.it.getitem(d.get(n, 'chapters'), cid), 'chLevel', lev)
            d.set(d.it.getitem(d.get(n, 'chapters'), cid), 'chType', 0)
        for sid in ('11', '12', '13'):
            s = d.it.getitem(d.get(n, 'scenes'), sid)
            d.set(s, 'scType', 0)
            if sid != '12':
                for a, x in FIELD_SCENES[which].items():
                    d.set(s, a, d.lst(x) if isinstance(x, list) else x)
            if sid == '13':
                d.set(s, 'sceneContent', 'three little words')
        if which.startswith('untitled'):
            for kind, i in (('characters', '61'), ('locations', '41'), ('items', '51')):
                d.set(d.it.getitem(d.get(n, kind), i), 'title', None)
        d.set(e, 'novel', n)
        snap = snapshot(d, n, codes=True)
        h = d.val(n).d
        d.call(e, 'write')
        return d.get(e, 'filePath'), snap, h, {sid: {a: snap['scenes', sid, a] for a in (
            'tags', 'characters', 'locations', 'items', 'status', 'date', 'time', 'day', 'lastsDays', 'lastsHours', 'lastsMinutes',
            'isReactionScene')} for sid in ('11', '12', '13')}, d
    for k, v, st in j.run(f):
        if not j.raised('no-exception/FieldExport', k, v, st, 'writing a template-based document'):
            continue
        path, snap, h, scenes, d = v
        c = members(st, path).get('content', '')
        got = [tuple(x.split('\x1f')) for x in c.split('\x1e')]
        order = [('novel', None)] + [('chapters', '22')] + [('scenes', '12')] + [('chapters', '22'), ('chapters', '21')] + [
            ('scenes', '13'), ('scenes', '11'), ('chapters', '21')] + [(kind, i) for kind, o in (
                ('characters', ('62', '61')), ('locations', ('42', '41')), ('items', ('52', '51')), ('projectNotes', ('72', '71'))) for i in o]
        seen = list(dict.fromkeys((g[0], g[1]) for g in got if len(g) == 4 and g[0] != 'novel'))
        want = [({'chapters': 'part' if i == '22' else 'chapter', 'projectNotes': 'note'}.get(kind, kind[:-1]), i) for kind, i in order[1:]]
        want[want.index(('part', '22'), 1)] = ('end', '22')
        want[want.index(('chapter', '21'), 5)] = ('end', '21')
        j.ob('template-order', seen == want, f'template-based export: the elements are {seen} instead of {want}', j.anchor('_get_text', 'srtChapters'))
        for g in got:
            if len(g) != 4:
                j.ob('template-fields', g == ('',), f'template-based export: unexpected text {g!r}')
                continue
            kind, i, x, val = g
            kinds = {'part': 'chapters', 'chapter': 'chapters', 'end': 'chapters', 'note': 'projectNotes', 'novel': 'novel'}.get(kind, kind + 's')
            i = '' if kind == 'novel' else i
            w = MISSING
            a = LOW.get(x, x[0].lower() + x[1:])
            if kind == 'scene':
                w = field_scene(d, h, x, scenes[i])
                if which.startswith('untitled') and x in ('Characters', 'Locations', 'Items'):
                    val, w = (', '.join([t for t in u.split(', ') if t]) for u in (val, w))
                    # whether there is a gap for the untitled one is not stated
                if x in ('WordCount', 'LetterCount'):
                    w = {'WordCount': '3', 'LetterCount': '18'}[x] if i == '13' else val
            if x == 'Status' and kind == 'character':
                w = 'Major' if snap[kinds, i, 'isMajor'] else 'Minor'
            if x in ('ProjectName', 'ProjectPath'):
                w = {'ProjectName': 'x', 'ProjectPath': '/p/q%20r'}[x]
            if x == 'Tags':
                w = ', '.join(snap[kinds, i, 'tags'] or [])
            if w is MISSING:
                w = snap['novel', '', a] if x in ('Language', 'Country') or x.startswith('FieldTitle') else snap[kinds, i, a]
            bad = None
            for p in range(H.MAXP):
                try:
                    gc, wc = (H.HOLE_RE.sub(lambda m: conc(m.group(), p, st.facts), t) for t in (val, w or ''))
                except H.Opaque:
                    gc = wc = None
                if gc != wc:
                    bad = f'{gc!r} instead of {wc!r}'
                    break
            j.ob(f'template/{kind}.{x}', bad is None, f'template-based export, scenes {which}: ${x} of {kind} {i} is {bad}',
                 '' if bad is None else j.anchor(x, a))


LITERAL = """
from pywriter.file.file_export import FileExport
from pywriter.odt_w.odt_w_formatted import OdtWFormatted


def _lines(name, *fields):
    return ''.join([f'<text:p>{name}|$ID|{x}|${x}</text:p>' for x in fields])


class LiteralExport(OdtWFormatted):
    SUFFIX = '_literal'
    _fileHeader = '$ContentHeader' + _lines('novel', 'Title', 'AuthorName', 'FieldTitle1', 'FieldTitle2', 'FieldTitle3', 'FieldTitle4')
    _partTemplate = _lines('part', 'Title')
    _chapterTemplate = _lines('chapter', 'Title')
    _sceneTemplate = _lines('scene', 'Title', 'FieldTitle1', 'FieldTitle2', 'FieldTitle3', 'FieldTitle4', 'Field1', 'Field2', 'Field3', 'Field4',
                            'Tags', 'Characters', 'Viewpoint', 'Locations', 'Items')
    _characterTemplate = _lines('character', 'Title', 'AKA', 'FullName')
    _locationTemplate = _lines('location', 'Title', 'AKA', 'Tags')
    _itemTemplate = _lines('item', 'Title', 'AKA', 'Tags')
    _projectNoteTemplate = _lines('note', 'Title')
    _fileFooter = OdtWFormatted._CONTENT_XML_FOOTER
    _get_text = FileExport._get_text
"""
LIT_FORMS = ('[h]{}', '[i]{}[/i]', 'a [b]{} /*c*/', '> {} [/b]', '/* {}', '[lang=de-DE]{}[/lang=de-DE] &lt; <i>', '- {} [s]x[/s]')


def p11_literal(j, form):
    """One-liners without formatting are kept literally in formatted documents."""
    def f(d):
        m = d.it.modules.get('literal_export') or d.it.load_source('literal_export', '/verif/checks/docs.py', LITERAL)
        n = fill_novel(d, d.new('Novel'), 'a', 'word')
        t = lambda label: form.format(T(label, 'word'))
        h = d.val(n).d
        d.set(n, 'languages', d.lst(['de-DE']))
        for a in ('title', 'authorName', 'fieldTitle1', 'fieldTitle2', 'fieldTitle3', 'fieldTitle4'):
            d.set(n, a, t('novel.' + a))
        for kind, attrs in (('scenes', ('title', 'field1', 'field2', 'field3', 'field4')), ('chapters', ('title',)), ('projectNotes', ('title',)),
                            ('characters', ('title', 'aka', 'fullName')), ('locations', ('title', 'aka')), ('items', ('title', 'aka'))):
            for i in h[kind]:
                e = d.it.getitem(d.get(n, kind), i)
                for a in attrs:
                    d.set(e, a, t(f'{kind}.{i}.{a}'))
                if kind in ('scenes', 'locations', 'items'):
                    d.set(e, 'tags', d.lst([t(f'{kind}.{i}.tag')]))
                if kind == 'scenes':
                    d.set(e, 'scType', 0)
                    d.set(e, 'sceneContent', 'x')
        for cid, lev in (('21', 0), ('22', 1)):
            c = d.it.getitem(d.get(n, 'chapters'), cid)
            d.set(c, 'chLevel', lev)
            d.set(c, 'chType', 0)
        e = d.it.call(m.env['LiteralExport'], ['/p/x_literal.odt'], {})
        d.set(e, 'novel', n)
        snap = snapshot(d, n)
        d.call(e, 'write')
        return d.get(e, 'filePath'), snap
    for k, v, st in j.run(f):
        if not j.raised('no-exception/literal', k, v, st, f'exporting one-liners like {form!r}'):
            continue
        path, snap = v
        c = members(st, path).get('content.xml', '')
        try:
            root = parse(joint(c, 0, st.facts))
        except HET.ParseError as e:
            j.ob('literal/well-formed', False, f'one-liners like {form!r}: not well-formed ({e})', j.anchor('_convert_from_yw'))
            continue
        count = 0
        for par in root.iter():
            t = ''.join(par.itertext())
            if not par.tag.endswith('}p') or t.count('|') < 3:
                continue
            count += 1
            kind, i, x, got = t.split('|', 3)
            a = LOW.get(x, x[0].lower() + x[1:])
            kinds = {'part': 'chapters', 'chapter': 'chapters', 'note': 'projectNotes', 'novel': 'novel'}.get(kind, kind + 's')
            i = '' if kind == 'novel' else i
            if x.startswith('FieldTitle'):
                w = snap['novel', '', a]
            elif x == 'Tags':
                w = snap[kinds, i, 'tags'][0]
            elif x in ('Characters', 'Locations', 'Items'):
                w = ', '.join([snap[a, r, 'title'] for r in snap[kinds, i, a]])
            elif x == 'Viewpoint':
                w = snap['characters', snap[kinds, i, 'characters'][0], 'title']
            else:
                w = snap[kinds, i, a]
            ok = got == joint(w, 0, st.facts) and not len(par)
            j.ob(f'literal/{kind}.{x}', ok, '' if ok else f'one-liners like {form!r}: ${x} of {kind} is {got!r}', '' if ok else j.anchor(x, a, mods=('file_export', 'odt_w_formatted')))
        j.ob('literal/complete', count == 70, f'one-liners like {form!r}: {count} fields are shown')


def p11_jobs(tier):
    jobs = [Job(f'fields-{w}', p11_fields, (w,)) for w in FIELD_SCENES] + [Job('OdtWExport-inline', p11_inline)]
    jobs += [Job(f'literal-{i}', p11_literal, (x,)) for i, x in enumerate(LIT_FORMS)]
    sfx = suffixes(None)
    for name in documents():
        for parts in (False, True):
            jobs.append(Job(f'{name}-{"parts" if parts else "chapters"}', p11_case, (name, sfx[name], parts)))
        for w in ('attributes as created', 'attributes set to None', 'relations to untitled elements'):
            jobs.append(Job(f'{name}-{w}', p11_sparse, (name, w)))
        if name in FORMATTED:
            jobs.append(Job(f'{name}-plain', p11_plain, (name,)))
            for i, c in enumerate(sequences(tier)):
                if i % 2 == 0 or tier == 'thorough':
                    jobs.append(Job(f'{name}-markup{i}', p11_markup, (name, c)))
    return jobs


P11 = dict(
    rule='Provenance analysis: abstract interpretation of every document writer with each attribute being a label of its own. Obligations: '
         'every attribute the document type is made of is present, and decoding the document with any probe value in place of the label '
         'yields this value at the place of the label (escaped exactly once, complete); words between markup tokens are all present in order; '
         'unset attributes are not shown as None; one-line values with text that looks like markup are kept literally.',
    assumptions=['models in vlib/models.py', 'a text transformation behaves on all texts as on the probe texts of its kind (vlib/holes.py)'],
    jobs=p11_jobs)


# ------------------------------------------------------------------------------- P12
def selection(spec, suffix):
    """Expected sequence of (element, attribute) in the document."""
    out = []
    kind = {'_notes': 1, '_todo': 2}.get(suffix, 0)
    for cid, ca, scenes in spec:
        ct, lev = ca.get('chType', 0), ca.get('chLevel', 0)
        dne = bool(scenes) and all(a.get('doNotExport') for _, a in scenes)
        shown = ct == kind and (kind != 0 or not dne)
        title = [(f'chapter{cid}', 'title')]
        desc = [(f'chapter{cid}', 'desc')]
        if shown:
            if suffix in ('', '_manuscript', '_notes', '_todo'):
                out += [] if ca.get('suppressChapterTitle') else title
            elif suffix in ('_proof', '_brf_synopsis', '_scenes'):
                out += title
            elif suffix == '_chapters':
                out += title + (desc if lev == 0 else [])
            elif suffix == '_parts':
                out += title + desc if lev == 1 else []
        for sid, a in scenes:
            if a.get('scType', 0) != kind or kind == 0 and (a.get('doNotExport') or ct != 0 or a.get('RAW')):
                continue
            t, c, ds = ((f'scene{sid}', x) for x in ('title', 'sceneContent', 'desc'))
            out += {'': [c], '_manuscript': [t, c], '_proof': [t, c], '_notes': [t, c], '_todo': [t, c], '_brf_synopsis': [t], '_scenes': [t, ds],
                    '_scenelist': [(f'scene{sid}', '')]}.get(suffix, [])
    return out


def observed(c, suffix):
    out = []
    for ch in H.holes_in(c):
        if not isinstance(H.hole(ch).origin, str):
            continue
        e, a = H.hole(ch).origin.split('.')[:2]
        x = (e, '' if suffix == '_scenelist' else a)
        if not out or out[-1] != x:
            out.append(x)
    return out


def p12_doc(j, name, suffix, spec):
    for k, v, st, ms in export(j, name, matrix(spec)):
        if not j.raised(f'no-exception/{name}', k, v, st, f'{name}.write()'):
            continue
        c = ms.get('content.xml', '')
        got, want = observed(c, suffix), selection(spec, suffix)
        info = {}
        for cid, ca, sc in spec:
            info['chapter' + cid] = ca
            for sid, a in sc:
                info['scene' + sid] = {**a, 'in chapter': ca}
        w = construct(j, name)
        for x in sorted(set(want) | set(got)):
            g, n = got.count(x), want.count(x)
            j.ob(f'selected/{name}', g == n, '' if g == n else f'{name}: {x[0]} ({info.get(x[0])}) {x[1]} appears {g} times instead of {n}', w)
        if sorted(got) == sorted(want):
            i = next((i for i, (a, b) in enumerate(zip(got, want)) if a != b), None)
            j.ob(f'order/{name}', i is None, '' if i is None else f'{name}: {got[i]} appears instead of {want[i]}', w)
        # everything inside a section belongs to the element of the section
        try:
            tree = parse(joint(c, 0, st.facts))
        except HET.ParseError:
            continue
        chap = {sid: cid for cid, _, sc in spec for sid, _ in sc}
        if suffix != '_scenelist':
            p12_layout(j, name, suffix, spec, tree, want, info, chap, w)
        for sec in tree.iter(T_ + 'section'):
            m = re.fullmatch(r'(ScID|ChID):(\w+)', sec.get(T_ + 'name') or '')
            if not m:
                continue
            for o in LABEL.findall(''.join(sec.itertext())):
                e = o.split('.')[0]
                if m.group(1) == 'ScID':
                    ok = e == 'scene' + m.group(2)
                else:
                    ok = e == 'chapter' + m.group(2) or chap.get(e[5:]) == m.group(2)
                j.ob(f'section/{name}', ok, '' if ok else f'{name}: {o} is in the section {m.group()}', '' if ok else w)


def p12_layout(j, name, suffix, spec, tree, want, info, chap, w):
    """Heading levels, dividers between scenes, continuation of attached scenes."""
    level = {'chapter' + cid: ca.get('chLevel', 0) for cid, ca, _ in spec}
    got = []
    for e in tree.iter():
        if e.tag in (T_ + 'h', T_ + 'p'):
            s = ''.join(e.itertext())
            if s.strip() == '* * *':
                got.append('divider')
            for o in LABEL.findall(s):
                x, a = o.split('.')[:2]
                if x.startswith('scene') and (not got or got[-1] != x):
                    got.append(x)
                if x.startswith('chapter') and a == 'title':
                    lev = e.get(T_ + 'outline-level')
                    exp = '1' if level[x] == 1 else '2'
                    j.ob(f'level/{name}', e.tag == T_ + 'h' and lev == exp, f'{name}: the title of {x} (level {level[x]}) is a heading of level {lev}', w)
                if suffix in ('', '_manuscript') and x.startswith('scene') and a == 'sceneContent':
                    first = next(y for y, _a in want if y.startswith('scene') and chap[y[5:]] == chap[x[5:]]) == x
                    attached = bool(info[x].get('appendToPrev')) and not first
                    sty = e.get(T_ + 'style-name')
                    j.ob(f'attached/{name}', (sty == 'First_20_line_20_indent') == attached, f'{name}: {x} ({info[x]}) starts with the paragraph style {sty}', w)
    exp, last = [], None
    for x, _a in want:
        if x.startswith('scene') and (not exp or exp[-1] != x):
            c = chap[x[5:]]
            if c == last and not info[x].get('appendToPrev') and suffix in ('', '_manuscript', '_scenes'):
                exp.append('divider')
            exp.append(x)
            last = c
    i = next((i for i, (a, b) in enumerate(itertools.zip_longest(got, exp)) if a != b), None)
    j.ob(f'dividers/{name}', i is None, '' if i is None else f'{name}: {got[i] if i < len(got) else "nothing"} ({info.get((got + [""])[i])}) follows '
         f'{got[i - 1] if i else "the beginning"} instead of {exp[i] if i < len(exp) else "nothing"}', w)


NUMBERS = '''
from pywriter.file.file_export import FileExport

class NumberExport(FileExport):
    EXTENSION = '.csv'
    SUFFIX = '_numbers'
    _partTemplate = 'P,$ID,$ChapterNumber\\n'
    _chapterTemplate = 'C,$ID,$ChapterNumber\\n'
    _sceneTemplate = 'S,$ID,$SceneNumber,$WordsTotal,$LettersTotal\\n'
    _notesSceneTemplate = 's,$ID,$SceneNumber\\n'
    _todoSceneTemplate = 's,$ID,$SceneNumber\\n'
    _unusedSceneTemplate = 's,$ID,$SceneNumber\\n'
    _notExportedSceneTemplate = 's,$ID,$SceneNumber\\n'
    _notesPartTemplate = 'c,$ID,$ChapterNumber\\n'
    _todoPartTemplate = 'c,$ID,$ChapterNumber\\n'
    _notesChapterTemplate = 'c,$ID,$ChapterNumber\\n'
    _todoChapterTemplate = 'c,$ID,$ChapterNumber\\n'
    _unusedChapterTemplate = 'c,$ID,$ChapterNumber\\n'
    _notExportedChapterTemplate = 'c,$ID,$ChapterNumber\\n'


class StoryExport(FileExport):
    EXTENSION = '.csv'
    SUFFIX = '_story'
    _chapterTemplate = 'C,$ID,$ChapterNumber\\n'
    _sceneTemplate = 'S,$ID,$SceneNumber,$WordsTotal,$LettersTotal\\n'
'''


def p12_numbers(j, cls, spec):
    contents = {sid: ' '.join(['word'] * (1 + i % 5)) for i, (sid, a) in enumerate(x for c in spec for x in c[2])}

    def f(d):
        m = d.it.modules.get('number_export') or d.it.load_source('number_export', '/verif/checks/docs.py', NUMBERS)
        e = d.it.call(m.env[cls], ['/p/x' + ('_numbers' if cls == 'NumberExport' else '_story') + '.csv'], {})
        d.set(e, 'novel', matrix(spec, contents=contents)(d))
        d.call(e, 'write')
        return d.get(e, 'filePath')
    for k, v, st in j.run(f):
        if not j.raised(f'no-exception/{cls}', k, v, st, 'writing a template-based document'):
            continue
        got = members(st, v).get('content', '').splitlines()
        want = []
        ch = sc = words = letters = 0
        for cid, ca, scenes in spec:
            ct, lev = ca.get('chType', 0), ca.get('chLevel', 0)
            dne = bool(scenes) and all(a.get('doNotExport') for _, a in scenes)
            normal = ct == 0 and not dne
            if cls == 'StoryExport':
                if normal:
                    ch += 1
                    want.append(f'C,{cid},{ch}')
            elif normal and lev == 1:
                want.append(f'P,{cid},')
            elif normal:
                ch += 1
                want.append(f'C,{cid},{ch}')
            else:
                want.append(f'c,{cid},')
            for sid, a in scenes:
                if a.get('scType', 0) == 0 and ct == 0 and not a.get('doNotExport') and a.get('RAW'):
                    continue
                elif a.get('scType', 0) == 0 and ct == 0 and not a.get('doNotExport'):
                    sc += 1
                    words += len(contents[sid].split())
                    letters += len(contents[sid])
                    want.append(f'S,{sid},{sc},{words},{letters}')
                elif cls == 'NumberExport':
                    want.append(f's,{sid},')
        w = j.anchor('ChapterNumber', 'SceneNumber', 'srtScenes', 'WordsTotal')
        for a, b in itertools.zip_longest(got, want):
            j.ob(f'numbers/{cls}', a == b, '' if a == b else f'template-based export: the line is {a!r} instead of {b!r} (element, ID, number, words, letters)', w)
            if a != b:
                break


def p12_scenelist(j, name, spec):
    contents = {sid: ' '.join(['word'] * (1 + i % 5)) for i, (sid, a) in enumerate(x for c in spec for x in c[2])}
    for k, v, st, ms in export(j, name, matrix(spec, contents=contents)):
        if not j.raised(f'no-exception/{name}', k, v, st, f'{name}.write()'):
            continue
        tree = parse(joint(ms['content.xml'], 0, st.facts))
        rows = [[''.join(c.itertext()).strip() for c in r.iter(TB_ + 'table-cell')] for r in tree.iter(TB_ + 'table-row')]
        story = [sid for cid, ca, sc in spec if ca.get('chType', 0) == 0 for sid, a in sc if a.get('scType', 0) == 0 and not a.get('doNotExport') and not a.get('RAW')]
        rows = [r for r in rows if r and r[0].startswith('ScID:')]
        for i, (r, sid) in enumerate(itertools.zip_longest(rows, story)):
            ok = r is not None and r[0] == f'ScID:{sid}' and r[9:10] == [str(i + 1)]
            j.ob(f'numbers/{name}', ok, '' if ok else f'{name}: row {i + 1} is {r[0] if r else None} with the number {r[9:10] if r else None} instead of '
                 f'ScID:{sid} with {i + 1}', '' if ok else construct(j, name))
            if not ok:
                break


def variants():
    spec = matrix_spec()
    yield 'matrix', spec
    raw = []
    for k in ('<HTML>', '<TEX>'):
        for i, c in enumerate(({}, {'chType': 1}, {'chType': 2}, {'chType': 3}, {'chLevel': 1}, {})):
            t = {1: 1, 2: 2}.get(i, 0)
            x = f'{len(raw) + 1}'
            raw.append((x, c, [(f'{x}{y}', a) for y, a in enumerate((
                {'scType': t, 'RAW': k}, {'scType': t}, {'scType': t, 'RAW': k, 'appendToPrev': True}, {'scType': t, 'appendToPrev': True}, {'scType': 1, 'RAW': k},
                {'scType': 2, 'RAW': k}, {'scType': 3, 'RAW': k}, {'scType': t, 'RAW': k, 'doNotExport': True}, {'scType': t}, {'scType': t, 'RAW': k})[:1 if i == 5 else 10])]))
    yield 'raw', raw
    yield 'reversed', [(c, a, list(reversed(s))) for c, a, s in reversed(spec)]


TEMPLATES = """
from pywriter.file.file_export import FileExport
from pywriter.file.filter import Filter


class Rejecting(Filter):

    def __init__(self, rejected):
        self.rejected = rejected

    def accept(self, source, eId):
        return not eId in self.rejected


def _t(name):
    return name + ',$ID\\n'


class TemplateExport(FileExport):
    EXTENSION = '.csv'
    SUFFIX = '_templates'
    _fileHeader = 'header,\\n'
    _partTemplate = _t('part')
    _chapterTemplate = _t('chapter')
    _notesPartTemplate = _t('notesPart')
    _todoPartTemplate = _t('todoPart')
    _notesChapterTemplate = _t('notesChapter')
    _todoChapterTemplate = _t('todoChapter')
    _unusedChapterTemplate = _t('unusedChapter')
    _notExportedChapterTemplate = _t('notExportedChapter')
    _sceneTemplate = _t('scene')
    _notesSceneTemplate = _t('notesScene')
    _todoSceneTemplate = _t('todoScene')
    _unusedSceneTemplate = _t('unusedScene')
    _notExportedSceneTemplate = _t('notExportedScene')
    _chapterEndTemplate = _t('chapterEnd')
    _unusedChapterEndTemplate = _t('unusedChapterEnd')
    _notExportedChapterEndTemplate = _t('notExportedChapterEnd')
    _notesChapterEndTemplate = _t('notesChapterEnd')
    _todoChapterEndTemplate = _t('todoChapterEnd')
    _characterSectionHeading = 'characters,\\n'
    _characterTemplate = _t('character')
    _locationSectionHeading = 'locations,\\n'
    _locationTemplate = _t('location')
    _itemSectionHeading = 'items,\\n'
    _itemTemplate = _t('item')
    _projectNoteTemplate = _t('note')
    _fileFooter = 'footer,\\n'

    def reject(self, ids):
        self._sceneFilter = self._chapterFilter = self._characterFilter = self._locationFilter = self._itemFilter = Rejecting(ids)


class PlainExport(TemplateExport):
    _notesPartTemplate = _todoPartTemplate = _notesChapterTemplate = _todoChapterTemplate = _unusedChapterTemplate = ''
    _notExportedChapterTemplate = _notesSceneTemplate = _todoSceneTemplate = _unusedSceneTemplate = _notExportedSceneTemplate = ''
    _chapterEndTemplate = _unusedChapterEndTemplate = _notExportedChapterEndTemplate = _notesChapterEndTemplate = _todoChapterEndTemplate = ''
    _characterSectionHeading = _locationSectionHeading = _itemSectionHeading = ''
    _appendedSceneTemplate = _t('appendedScene')
    _sceneDivider = 'divider,\\n'


class FirstExport(PlainExport):
    _firstSceneTemplate = _t('firstScene')
"""


def p12_templates(j, cls, spec, rejected):
    """Each element is processed with the template of its type; elements rejected by a filter are left out."""
    chs = [c[0] for c in spec]
    scs = [x[0] for c in spec for x in c[2]]
    out = {'none': (), 'some': chs[1::5] + scs[0::7] + scs[3::11] + ['62', '41', '51'], 'scenes': scs, 'chapters': chs, 'world': ['61', '62', '42', '41', '52']}[rejected]

    def f(d):
        m = d.it.modules.get('template_export') or d.it.load_source('template_export', '/verif/checks/docs.py', TEMPLATES)
        e = d.it.call(m.env[cls], ['/p/x_templates.csv'], {})
        n = matrix(spec, contents={s: 'x' for s in scs})(d)
        fill_world(d, n, 'a', 'word')
        d.set(e, 'novel', n)
        d.call(e, 'reject', d.lst(list(out)))
        d.call(e, 'write')
        return d.get(e, 'filePath')
    for k, v, st in j.run(f):
        if not j.raised(f'no-exception/{cls}', k, v, st, 'writing a template-based document'):
            continue
        got = members(st, v).get('content', '').splitlines()
        want = ['header,']
        full = cls == 'TemplateExport'
        for cid, ca, scenes in spec:
            if cid in out:
                continue
            ct, lev = ca.get('chType', 0), ca.get('chLevel', 0)
            dne = bool(scenes) and all(a.get('doNotExport') for _, a in scenes)
            if ct:
                t = ('', 'notes', 'todo', 'unused')[ct] + ('Part' if lev == 1 and ct < 3 else 'Chapter')
                end = ('', 'notes', 'todo', 'unused')[ct] + 'ChapterEnd'
            elif dne:
                t, end = 'notExportedChapter', 'notExportedChapterEnd'
            else:
                t, end = 'part' if lev == 1 else 'chapter', 'chapterEnd'
            if full or t in ('part', 'chapter'):
                want.append(f'{t},{cid}')
            first = True
            for sid, a in scenes:
                if sid in out:
                    continue
                x = a.get('scType', 0) or (3 if ct == 3 else 0)
                t = ('scene', 'notesScene', 'todoScene', 'unusedScene')[x]
                if not x and a.get('doNotExport'):
                    t = 'notExportedScene'
                elif not x and a.get('RAW'):
                    continue
                if not full:
                    if t != 'scene' or ct:
                        continue
                    if not first and a.get('appendToPrev'):
                        t = 'appendedScene'
                    elif not first:
                        want.append('divider,')
                    elif cls == 'FirstExport':
                        t = 'firstScene'
                first = False
                want.append(f'{t},{sid}')
            if full:
                want.append(f'{end},{cid}')
        for head, t, ids in (('characters', 'character', ('62', '61')), ('locations', 'location', ('42', '41')), ('items', 'item', ('52', '51')), ('', 'note', ('72', '71'))):
            if full and head:
                want.append(head + ',')
            want += [f'{t},{i}' for i in ids if i not in out or t == 'note']
        want.append('footer,')
        w = j.anchor('_chapterTemplate', '_sceneTemplate', 'srtScenes', mods=('file_export',))
        for a, b in itertools.zip_longest(got, want):
            j.ob(f'templates/{cls}', a == b, '' if a == b else f'template-based export, {rejected} rejected by filters: the line is {a!r} instead of {b!r} (template, ID)', w)
            if a != b:
                break


def p12_jobs(tier):
    jobs = []
    for v, spec in variants():
        for c in ('TemplateExport', 'PlainExport', 'FirstExport'):
            for r in ('none', 'some', 'scenes', 'chapters', 'world'):
                jobs.append(Job(f'{c}-{r}-{v}', p12_templates, (c, spec, r)))
    sfx = suffixes(None)
    for v, spec in variants():
        for name in documents():
            if sfx[name] in ('', '_manuscript', '_proof', '_notes', '_todo', '_brf_synopsis', '_scenes', '_chapters', '_parts', '_scenelist'):
                jobs.append(Job(f'{name}-{v}', p12_doc, (name, sfx[name], spec)))
            if sfx[name] == '_scenelist':
                jobs.append(Job(f'{name}-{v}-rows', p12_scenelist, (name, spec)))
        for c in ('NumberExport', 'StoryExport'):
            jobs.append(Job(f'{c}-{v}', p12_numbers, (c, spec)))
    return jobs


P12 = dict(
    rule='Provenance analysis: abstract interpretation of every document writer over a novel with all chapter types, levels and flags and all '
         'scene types and flags in them. Obligation: the sequence of the chapter and scene labels in the document is the one given by the '
         'selection rule of the document type; scene and chapter numbers and accumulated counts are consecutive over the normal exported '
         'elements; in template-based exports of any kind, each element gets the template of its type, and elements rejected by a filter are left '
         'out.',
    assumptions=['models in vlib/models.py', 'scenes of notes and todo chapters have their type, as after reading a project (P09)'],
    jobs=p12_jobs)


# ------------------------------------------------------------------------------- P13
def p13_case(j, name, which):
    build, base = NOVELS[which](name)

    def shot(d, n):
        s = snapshot(d, n, codes=True)
        h = d.val(n).d
        for sid, x in h['scenes'].items():
            for a in ('wordCount', 'letterCount'):
                s['scenes', sid, a] = x.d.get(a)
        for kind in ('chapters', 'scenes', 'locations', 'items', 'characters', 'projectNotes'):
            s['novel', '', kind + ' order'] = list(h[kind])
        s['novel', '', 'kwVar'] = h.get('kwVar')
        for kind in ('chapters', 'scenes', 'locations', 'items', 'characters', 'projectNotes'):
            for i, x in h[kind].items():
                s[kind, i, 'kwVar'] = x.d.get('kwVar')
        return s
    for k, v, st, ms in export(j, name, build, base, shot):
        if not j.raised(f'no-exception/{name}', k, v, st, f'{name}.write()'):
            continue
        _, before, after = v
        for key, w in before.items():
            g = after.get(key, MISSING)
            if key[2] in ('languageCode', 'countryCode', 'languages') and (w is None or not w):
                continue
            if key[2] in ('languageCode', 'countryCode') and before['novel', '', 'languageCode'] in (None, ''):
                continue
            ok = g is not MISSING and (g is w or type(g) is type(w) and same(g, w, st.facts) is True)
            j.ob(f'unchanged/{name}.{key[0]}.{key[2]}', ok, '' if ok else f'writing {name} changes {key[0]} {key[1]} {key[2]} from '
                 f'{show(w)} to {show(g) if g is not MISSING else "missing"}', '' if ok else j.anchor(key[2]))
        new = [x for x in after if x not in before]
        j.ob(f'nothing-new/{name}', not new, f'writing {name} adds {new[:3]}')


def p13_jobs(tier):
    which = ['any texts', 'all types and flags', 'attributes as created', 'attributes set to None', 'unknown languages', 'odd lists and texts']
    return [Job(f'{name}-{w}', p13_case, (name, w)) for name in documents() for w in which]


P13 = dict(
    rule='Effect analysis by abstract interpretation: the abstract novel before and after the write method of each document writer is compared '
         'attribute by attribute (all texts are labels, so any replaced or transformed text is noticed).',
    assumptions=['models in vlib/models.py'],
    jobs=p13_jobs)
