"""P15-P17: documents read back."""
import itertools
import re

from vlib import holes as H
from vlib.check import Job
from vlib.core import PyRaise
from vlib.scen import *
from .build import *
from .files import make, class_attr
from .docs import typed, novel_for, parts_novel, matrix, matrix_spec
from .model import mini

# Text without the marks that have a meaning in an edited document: '#' begins a new chapter or scene,
# '[c]' and the like are removed.
H.KINDS['body'] = tuple(p for p in H.KINDS['text'] if p not in ('#', '*') and '<' not in p) + ('a<b', 'x * * * y', '~t~')
H.KINDS['rawbody'] = tuple(p for p in H.KINDS['raw'] if p not in ('#', '*') and '<' not in p) + ('a<b', ' x * y ')
ROUND = ('proof', 'manuscript', 'notes', 'todo', 'scenes', 'chapters', 'parts', 'characters', 'locations', 'items')


def pairs():
    """{suffix: (writer class, reader class)} of the documents that can be exported and imported."""
    from vlib import check
    it = check.BASE
    w, r = {}, {}
    for c in it.classes.values():
        s = c.lookup('SUFFIX')
        s = s[1] if s else None
        if not isinstance(s, str) or not s or 'SUFFIX' not in c.ns:
            continue
        mro = [k.name for k in c.mro if hasattr(k, 'name')]
        if 'OdfFile' in mro:
            w[s] = c.name
        elif any(x in mro for x in ('OdtReader', 'OdsReader')):
            r[s] = c.name
    return {s: (w[s], r[s]) for s in w if s in r}


def roundtrip(j, suffix, build, edit=None, split=1):
    """Outcomes of exporting the novel and reading the document back into it."""
    wname, rname = pairs()[suffix]

    def f(d):
        doc, path = make(d, wname, '/p/x')
        n = build(d)
        d.set(doc, 'novel', n)
        before = snapshot(d, n, codes=True)
        d.call(doc, 'write')
        if edit:
            edit(d, n, path)
            before = snapshot(d, n, codes=True)
        r = d.new(rname, path)
        d.set(r, 'novel', n)
        d.call(r, 'read')
        return before, snapshot(d, n, codes=True)
    yield from j.run(f, j.base(), sax_split=split)


SKIP = ('languages',)
TYPE_OF = {'_notes': 1, '_todo': 2}


CARRIED = {'_scenes': ('scenes', 'desc'), '_chapters': ('chapters', 'desc'), '_parts': ('chapters', 'desc'), '_locations': ('locations', 'desc'),
           '_items': ('items', 'desc'), '_characters': ('characters', 'desc', 'bio', 'goals', 'notes')}


def p15_restore(j, suffix, ids):
    """A document restores the texts it was exported from."""
    name = pairs()[suffix][0]
    build = parts_novel(name, kind='word', content='word') if suffix == '_parts' else typed(TYPE_OF.get(suffix, 0), 'word', 'word')
    if ids:
        build = renumbered(build)
    kind, *attrs = CARRIED.get(suffix, ('scenes', 'sceneContent'))
    box = {}

    def edit(d, n, path):
        box['want'] = snapshot(d, n, codes=True)
        es = d.get(n, kind)
        for i in d.a(n, kind):
            e = d.it.getitem(es, i)
            if suffix in ('_chapters', '_parts') and d.get(e, 'chLevel') != (suffix == '_parts'):
                continue
            for a in attrs:
                d.set(e, a, 'changed afterwards')
    for k, v, st in roundtrip(j, suffix, build, edit):
        if not j.raised(f'no-exception/{suffix}', k, v, st, f'exporting {suffix} and reading it back'):
            continue
        compare(j, f'restored{suffix}', v[1], box['want'], f'{suffix} document read back after changes of the texts', st.facts, SKIP, NAMES)


def p15_full(j, suffix, kind, content, split=1, ids=False):
    name = pairs()[suffix][0]
    build = typed(TYPE_OF.get(suffix, 0), kind, content)
    if suffix == '_parts':
        build = parts_novel(name, kind=kind, content=content)
    if ids:
        build = renumbered(build)
    for k, v, st in roundtrip(j, suffix, build, split=split):
        if not j.raised(f'no-exception/{suffix}', k, v, st, f'exporting {suffix} and reading it back'):
            continue
        before, after = v
        compare(j, f'same{suffix}', after, before, f'{suffix} document read back', st.facts, SKIP, NAMES)



def styled(t):
    """[(character, set of markup)] of a text with well-formed markup; comments are characters of their own kind."""
    out, stack = [], []
    for m in re.finditer(r'\[(/?)(i|b|lang=[^\]]*)\]|(/\*)|(\*/)|(.)', t, re.S):
        close, tag, co, cc, ch = m.groups()
        if tag:
            if close:
                if tag in stack:
                    stack.remove(tag)
                else:
                    out.append((m.group(), ('unpaired',)))
            else:
                stack.append(tag)
        elif ch in ('>', '-', ' ') and ''.join(x[0] for x in out).rpartition('\n')[2] in ('', '>', '-'):
            out.append((ch, ()))
            # the mark of a quotation or list item is not part of the text
        elif co:
            out.append(('/*', tuple(sorted(set(stack)))))
        elif cc:
            out.append(('*/', tuple(sorted(set(stack)))))
        else:
            out.append((ch, () if ch in '\n' else tuple(sorted(set(stack)))))
    if stack:
        out.append(('', ('not closed',)))
    return out


TAGS = ('[i]', '[/i]', '[b]', '[/b]', '[lang=de-DE]', '[/lang=de-DE]', '[lang=fr-FR]', '[/lang=fr-FR]')
BREAKS = ('\n', '\n\n', '\n> ', '\n- ', '/*c*/', '')
SMALL = ('[i]', '[/i]', '[b]', '[/b]', '[lang=de-DE]', '[/lang=de-DE]', '\n', '\n> ')


def nested(seq):
    """Is all markup paired and nested?"""
    st = []
    for t in seq:
        if t.startswith('[/'):
            if not st or st[-1] != t[2:]:
                return False
            st.pop()
        elif t.startswith('['):
            if t[1:] in st:
                return False
            st.append(t[1:])
    return not st


def texts15(tier):
    """Chunks of texts with well-formed markup, every line and every markup with texts around and without."""
    seqs = [s for n in (1, 2, 3, 4) for s in itertools.product(TAGS + BREAKS, repeat=n) if nested(s)]
    if tier == 'thorough':
        seqs += [s for s in itertools.product(TAGS + BREAKS, repeat=5) if nested(s)]
        seqs += [s for s in itertools.product(SMALL, repeat=6) if nested(s)]
    out = []
    for s in dict.fromkeys(seqs):
        w = [T(f'w{i}', 'word') for i in range(len(s) + 1)]
        n = len(s)
        fills = (lambda i: True, lambda i: i in (0, n), lambda i: i % 2 == 0, lambda i: i % 2 == 1)
        for fill in fills if tier == 'thorough' else fills[:2]:
            t = ''.join((w[i] if fill(i) else '') + x for i, x in enumerate(s)) + (w[n] if fill(n) else '')
            if t.strip('\n') == t and t:
                out.append(t)
    out += ['> ' + x for x in out[:400]] + ['- ' + x for x in out[:200]]
    out = [x for x in dict.fromkeys(out) if H.HOLE_RE.search(x) and not x.endswith(('> ', '- ', '\n')) and not empty_lines(x)]
    size = 500
    return [out[i:i + size] for i in range(0, len(out), size)]


def empty_lines(t):
    """Markup around nothing or at the ends of the text: nothing that could be kept."""
    p = re.sub(r'\[/?[^\]]*\]', '', t)
    return p != p.strip() or '> \n' in p or '- \n' in p


def p15_markup(j, suffix, texts, split=1):
    ty = TYPE_OF.get(suffix, 0)

    def build(d):
        cont = {str(i + 1): t for i, t in enumerate(texts)}
        n = mini(d, {'1': list(cont)}, cont, scType={s: ty for s in cont})
        d.set(d.it.getitem(d.get(n, 'chapters'), '1'), 'chType', ty)
        d.set(n, 'languageCode', 'de')
        d.set(n, 'countryCode', 'AT')
        return n
    for k, v, st in roundtrip(j, suffix, build, split=split):
        if not j.raised(f'no-exception{suffix}', k, v, st, f'exporting {suffix} and reading it back'):
            continue
        before, after = v
        bad = 0
        j.ob(f'elements{suffix}', sorted(before) == sorted(after), f'{suffix} document read back: the elements change')
        for i, t in enumerate(texts):
            key = ('scenes', str(i + 1), 'sceneContent')
            g = after.get(key)
            ok = isinstance(g, str) and styled(g) == styled(t)
            if not ok:
                bad += 1
            if ok or bad < 40:
                j.ob(f'markup{suffix}/{i if not ok else 0}', ok, f'{suffix} document read back: {show(t)} becomes {show(g)}',
                     '' if ok else j.anchor('handle_starttag', 'handle_endtag', '_balance_markup', '_prepare_markup'))
        compare(j, f'others{suffix}', after, before, f'{suffix} document read back', st.facts, SKIP + ('sceneContent',), NAMES)


def renumbered(build):
    """The same novel with IDs of different lengths."""
    def f(d):
        n = build(d)
        maps = {}
        for kind, order in (('chapters', 'srtChapters'), ('scenes', None), ('characters', 'srtCharacters'), ('locations', 'srtLocations'), ('items', 'srtItems')):
            old = d.get(n, kind)
            ids = list(d.it.st.get(old).d)
            m = maps[kind] = {i: i + ('0017', '', '000')[k % 3] for k, i in enumerate(ids)}
            d.set(n, kind, d.dct({m[i]: d.it.getitem(old, i) for i in ids}))
            if order:
                d.set(n, order, d.lst([m[i] for i in d.a(n, order)]))

        def rename(o, attr, m):
            v = d.a(o, attr)
            if v:
                d.set(o, attr, d.lst([m[i] for i in v]))
        for c in maps['chapters'].values():
            rename(d.it.getitem(d.get(n, 'chapters'), c), 'srtScenes', maps['scenes'])
        for s in maps['scenes'].values():
            for kind in ('characters', 'locations', 'items'):
                rename(d.it.getitem(d.get(n, 'scenes'), s), kind, maps[kind])
        return n
    return f


PLAIN = ('_scenes', '_chapters', '_parts', '_characters', '_locations', '_items')
PIECES = ('\n', '\n\n', '\n\n\n', '> ', '\n> ', '\n- ', '[i]', '[/i]', '/* c */', '&', '<a>', '"', '  ', '~', '|', '\t', '# ', "'")


def plain_texts():
    w = [T(f'w{i}', 'body') for i in range(3)]
    out = [w[0], '/* c */' + w[0], '/*c', '> ' + w[0], '/* ~' + w[0] + ' */ x', '*/' + w[0]]
    out += [w[0] + a + w[1] for a in PIECES] + [w[0] + a + w[1] + b + w[2] for a in PIECES for b in PIECES]
    return out


def p15_plain(j, suffix):
    """All texts of the descriptions, one element for each."""
    kind, attrs = {'_scenes': ('scenes', ('desc',)), '_chapters': ('chapters', ('desc',)), '_parts': ('chapters', ('desc',)),
                   '_characters': ('characters', ('desc', 'bio', 'goals', 'notes')), '_locations': ('locations', ('desc',)),
                   '_items': ('items', ('desc',))}[suffix]
    texts = plain_texts()
    box = {}

    def build(d):
        n = d.new('Novel')
        d.set(n, 'languageCode', 'de')
        d.set(n, 'countryCode', 'AT')
        ids = [str(i + 1) for i in range(len(texts))]
        chapters, scenes = (ids, ['1']) if kind == 'chapters' else (['1'], ids)
        for c in chapters:
            e = d.new('Chapter')
            d.set(e, 'title', T(f'c{c}.title', 'word'))
            d.set(e, 'chType', 0)
            d.set(e, 'chLevel', 1 if suffix == '_parts' else 0)
            d.set(e, 'srtScenes', d.lst(scenes if c == '1' else []))
            d.put(d.get(n, 'chapters'), c, e)
        d.set(n, 'srtChapters', d.lst(chapters))
        for s in scenes:
            e = d.new('Scene')
            d.set(e, 'title', T(f's{s}.title', 'word'))
            d.set(e, 'scType', 0)
            d.put(d.get(n, 'scenes'), s, e)
        for attr, order, cls, pre in WORLD_LISTS:
            wid = ids if kind == attr else ['1']
            for i in wid:
                e = d.new(cls)
                d.set(e, 'title', T(f'{attr}{i}.title', 'word'))
                d.put(d.get(n, attr), i, e)
            d.set(n, order, d.lst(wid))
        for i, t in zip(ids, texts):
            for k, a in enumerate(attrs):
                d.set(d.it.getitem(d.get(n, kind), i), a, t if k % 2 == 0 else texts[-int(i)])
        return n
    for k, v, st in roundtrip(j, suffix, build):
        if not j.raised(f'no-exception{suffix}', k, v, st, f'exporting {suffix} and reading it back'):
            continue
        before, after = v
        j.ob(f'elements{suffix}', sorted(before) == sorted(after), f'{suffix} document read back: the elements change')
        compare(j, f'plain{suffix}', after, before, f'{suffix} document read back', st.facts, SKIP, NAMES)


def p15_matrix(j, suffix):
    """Documents of novels with all types and export flags."""
    spec = matrix_spec()
    b = matrix(spec)

    def build(d):
        n = b(d)
        d.set(n, 'languageCode', 'de')
        d.set(n, 'countryCode', 'AT')
        return n
    for k, v, st in roundtrip(j, suffix, build):
        if not j.raised(f'no-exception{suffix}', k, v, st, f'exporting {suffix} and reading it back'):
            continue
        before, after = v
        compare(j, f'matrix{suffix}', after, before, f'{suffix} document read back', st.facts, SKIP, NAMES)


COMMENTS = (('/*c*/', None), ('/*~5*/', None), ('/*5~*/', None), ('/*a ~5~ b*/', None), ('/*~*/', None), ('/*~~*/', None),
            ('/*~T~*/', 'T'), ('/*~ T u ~*/', 'T u'), ('/*~T~\n\nmore*/', 'T'), ('/*~T~ x ~y~*/', 'T'), ('/*a\nb*/', None), ('/*[i]a[/i]*/', None, '/*a*/'))


def p15_comments(j, suffix):
    """Comments are kept; titles between tildes at their beginning become the scene titles."""
    w = [T(f'w{i}', 'word') for i in range(2)]
    plain = suffix == '_scenes'
    cases = []
    for c, title, *kept in COMMENTS:
        for t in ((c + w[0], c + ' ' + w[0]) if plain else (c + w[0], w[0] + c, w[0] + c + w[1], w[0] + '\n' + c + w[1], '> ' + c + w[0], c)):
            want = t.replace(c, '') if title is not None else t.replace(c, kept[0]) if kept and suffix not in PLAIN else t
            cases.append((t, title, want))
    attr = 'desc' if plain else 'sceneContent'

    def build(d):
        ids = {str(i + 1): c[0] for i, c in enumerate(cases)}
        n = mini(d, {'1': list(ids)}, {i: 'x' for i in ids} if plain else ids)
        ty = TYPE_OF.get(suffix, 0)
        d.set(d.it.getitem(d.get(n, 'chapters'), '1'), 'chType', ty)
        d.set(d.it.getitem(d.get(n, 'chapters'), '1'), 'title', 'x')
        for i, t in ids.items():
            s = d.it.getitem(d.get(n, 'scenes'), i)
            d.set(s, 'title', T(f's{i}', 'word'))
            d.set(s, 'scType', ty)
            if plain:
                d.set(s, 'desc', t)
        return n
    for k, v, st in roundtrip(j, suffix, build):
        if not j.raised(f'no-exception{suffix}', k, v, st, f'exporting {suffix} and reading it back'):
            continue
        before, after = v
        for i, (t, title, want) in enumerate(cases):
            sid = str(i + 1)
            if suffix == '_proof':
                title, want = None, t if title else want
            g, tt = after['scenes', sid, attr], after['scenes', sid, 'title']
            wt = before['scenes', sid, 'title'] if title is None else title
            j.ob(f'comment{suffix}', same(tt, wt) and (same((g or '').strip(' '), want.strip(' '))
                                                       or isinstance(g, str) and not plain and styled(g) == styled(want)),
                 f'{suffix} document read back: {show(t)} becomes {show(g)} with the title {show(tt)}',
                 j.anchor('handle_comment', '_SC_TITLE_BRACKET'))


RULE15 = ('Each document type with a writer and a reader is written from abstract novels and read back into them by interpreting both classes; '
          'all attributes of all elements must be the same as before (markup compared as styled characters). Texts are placeholders standing for any text, '
          'combined with all sequences of markup, line breaks, quotations, list items, and comments up to the length bound.')


def jobs15(tier):
    out = []
    for s in pairs():
        if s.endswith('list'):
            continue
        out.append(Job(f'full{s}', p15_full, (s, 'word', 'word')))
        out.append(Job(f'texts{s}', p15_full, (s, 'text', 'body')))
        out.append(Job(f'ids{s}', p15_full, (s, 'word', 'word', 1, True)))
        for i in (False, True):
            out.append(Job(f'restore{s}/{i}', p15_restore, (s, i)))
        out.append(Job(f'matrix{s}', p15_matrix, (s,)))
        if s in PLAIN:
            out.append(Job(f'plain{s}', p15_plain, (s,)))
        if s not in PLAIN or s == '_scenes':
            out.append(Job(f'comments{s}', p15_comments, (s,)))
    for s in ('_proof', '_manuscript', '_notes', '_todo'):
        cs = texts15(tier)
        for i, c in enumerate(cs if tier == 'thorough' or s in ('_proof', '_manuscript') else cs[:1] + cs[-1:]):
            out.append(Job(f'markup{s}{i + 1}', p15_markup, (s, c)))
        # documents without any language, with a language without country, with many languages
        all_texts = [t for c in cs for t in c]
        none = [t for t in all_texts if '[lang' not in t]
        other = [t for t in all_texts if '[lang' in t][:150]
        zxx = [t.replace('de-DE', 'zxx').replace('fr-FR', 'pt-BR') for t in other]
        many = [t.replace('de-DE', f'{"abcdefghijklm"[k % 13]}e-D{"ABC"[k % 3]}') for k, t in enumerate(other)]
        for n, c in (('without', none[:300]), ('zxx', zxx), ('many', many)):
            out.append(Job(f'languages{s}/{n}', p15_markup, (s, c)))
    return out


P15 = dict(rule=RULE15, jobs=jobs15, assumptions=[
    'the text contains no markers of the document type ([ScID, lines beginning with #, * * *)',
    'markup is well-formed; empty lines at the ends of texts and blanks at the ends of comments are not kept'])

# ------------------------------------------------------------------------------------------- P17
ODT_HEAD = re.compile(r'<office:document-content.*?<office:text[^>]*>', re.S)
NS = ' '.join(f'xmlns:{p}="urn:oasis:names:tc:opendocument:xmlns:{u}:1.0"' for p, u in
              (('office', 'office'), ('style', 'style'), ('text', 'text'), ('fo', 'xsl-fo-compatible'), ('meta', 'meta'), ('draw', 'drawing'),
               ('table', 'table'))) + ' xmlns:dc="http://purl.org/dc/elements/1.1/" xmlns:xlink="http://www.w3.org/1999/xlink"'
AUTO = ('<style:style style:name="T1" style:family="text"><style:text-properties fo:font-style="italic"/></style:style>'
        '<style:style style:name="T2" style:family="text"><style:text-properties fo:font-weight="bold"/></style:style>'
        '<style:style style:name="T3" style:family="text"><style:text-properties fo:language="fr" fo:country="FR"/></style:style>'
        '<style:style style:name="T4" style:family="text"><style:text-properties fo:font-style="italic" fo:font-weight="bold"/></style:style>'
        '<style:style style:name="T5" style:family="text"><style:text-properties fo:color="#ff0000"/></style:style>'
        '<style:style style:name="P1" style:family="paragraph"><style:text-properties fo:language="en" fo:country="US"/></style:style>'
        '<style:style style:name="P2" style:family="paragraph" style:parent-style-name="Quotations"/>'
        '<style:style style:name="P3" style:family="paragraph" style:parent-style-name="Heading_20_2"/>')


def odt(body, title='', styles='de', meta=True):
    """An OpenDocument text document as an office application writes it."""
    st = f'<?xml version="1.0" encoding="UTF-8"?>\n<office:document-styles {NS}><office:styles><style:default-style style:family="graphic"/>' \
         f'<style:default-style style:family="paragraph"><style:text-properties fo:language="de" fo:country="AT"/></style:default-style>' \
         f'</office:styles></office:document-styles>'
    m = f'<?xml version="1.0" encoding="UTF-8"?>\n<office:document-meta {NS}><office:meta><dc:title>{title}</dc:title></office:meta></office:document-meta>'
    c = f'<?xml version="1.0" encoding="UTF-8"?>\n<office:document-content {NS}><office:automatic-styles>{AUTO}</office:automatic-styles>' \
        f'<office:body><office:text>{body}</office:text></office:body></office:document-content>'
    return ('zip', True, tuple((n, ('text', t, 'utf-8', True)) for n, t in
                               (('content.xml', c), ('styles.xml', st)) + ((('meta.xml', m),) if meta else ())))


def P(x, style='Text_20_body'):
    return f'<text:p text:style-name="{style}">{x}</text:p>'


def Hd(x, level):
    return f'<text:h text:style-name="Heading_20_{level}" text:outline-level="{level}">{x}</text:h>'


def S(x, name):
    return f'<text:section text:style-name="Sect1" text:name="{name}">{x}</text:section>'


def span(x, style):
    return f'<text:span text:style-name="{style}">{x}</text:span>'


def inline(i):
    """Inline pieces: (XML, text, text with markup)."""
    a, b = T(f'p{i}.a', 'rawbody'), T(f'p{i}.b', 'rawbody')
    x = esc(a) + esc(b)
    t = a + b
    return [
        (x, t, t),
        (' ', ' ', ' '),
        ('&amp;', '&', '&'),
        ('<text:s/>', ' ', ' '),
        ('<text:s text:c="3"/>', '   ', '   '),
        ('<text:tab/>', '\t', '\t'),
        ('<text:line-break/>', '\n', '\n'),
        (span(x, 'T5'), t, t),
        (span(' ', 'T5'), ' ', ' '),
        (span(x, 'Emphasis'), t, f'[i]{t}[/i]'),
        (span(x, 'Strong_20_Emphasis'), t, f'[b]{t}[/b]'),
        (span(x, 'T1'), t, f'[i]{t}[/i]'),
        (span(esc(a) + span(esc(b), 'T2'), 'T1'), t, f'[i]{a}[b]{b}[/b][/i]'),
        (span(x, 'T3'), t, f'[lang=fr-FR]{t}[/lang=fr-FR]'),
        (span(esc(a) + '<text:s/>' + esc(b), 'T4'), a + ' ' + b, f'[i][b]{a} {b}[/b][/i]'),
        (f'<text:a xlink:href="x">{x}</text:a>', t, t),
        ('<text:bookmark text:name="x"/><text:soft-page-break/>', '', ''),
        (f'<text:bookmark-start text:name="x"/>{x}<text:bookmark-end text:name="x"/>', t, t),
    ]


def paragraphs(n):
    """Lists of (XML, plain text, text with markup), each paragraph ended by a word."""
    out = []
    for k in (1, 2) if n == 2 else (1, 2, 3):
        for c in itertools.product(*[range(len(inline(i))) for i in range(k)]):
            ps = [inline(i)[x] for i, x in enumerate(c)]
            e = T('pe', 'word')
            out.append(tuple(''.join(p[m] for p in ps) + e for m in range(3)))
    return out


def markers(sfx, pars):
    """Body of a document of the type with one section for each paragraph list, and the places the texts belong to."""
    out, places = '', []
    n = 0
    heads = []
    if sfx in ('_scenes', '_manuscript', '_notes', '_todo'):
        b = ''
        for i, ps in enumerate(pars):
            b += S(''.join(ps), f'ScID:{i + 1}')
            places.append(('scenes', str(i + 1), 'desc' if sfx == '_scenes' else 'sceneContent'))
        out = S(Hd('x', 2) + b, 'ChID:1')
    elif sfx == '_proof':
        for i, ps in enumerate(pars):
            out += P(f'[ScID:{i + 1}]', 'scene_20_mark') + ''.join(ps) + P('[/ScID]', 'scene_20_mark')
            places.append(('scenes', str(i + 1), 'sceneContent'))
    elif sfx in ('_chapters', '_parts'):
        for i, ps in enumerate(pars):
            out += S(Hd('x', 2) + ''.join(ps), f'ChID:{i + 1}')
            places.append(('chapters', str(i + 1), 'desc'))
    elif sfx in ('_locations', '_items'):
        for i, ps in enumerate(pars):
            out += Hd('x', 2) + S(''.join(ps), ('LcID:' if sfx == '_locations' else 'ItID:') + str(i + 1))
            places.append((sfx[1:], str(i + 1), 'desc'))
    elif sfx == '_characters':
        for i, ps in enumerate(pars):
            s = ''
            for k in ('desc', 'bio', 'goals', 'notes'):
                s += Hd('x', 3) + S(''.join(ps), f'CrID_{k}:{i + 1}')
                places.append(('characters', str(i + 1), k))
            out += Hd('x', 2) + S(s, f'CrID:{i + 1}')
    return out, places


MODES = ('whole', 1, 0, 'chars')


def novel_with(d, n, places):
    """Elements for the places, every text already set."""
    ids = {}
    for kind, i, a in places:
        if i not in ids.setdefault(kind, []):
            ids[kind].append(i)
    chapters = ids.get('chapters', ['1'])
    scenes = ids.get('scenes', [])
    for c in chapters:
        e = d.new('Chapter')
        d.set(e, 'title', 'x')
        d.set(e, 'chType', 0)
        d.set(e, 'srtScenes', d.lst(scenes if c == '1' else []))
        d.put(d.get(n, 'chapters'), c, e)
    d.set(n, 'srtChapters', d.lst(chapters))
    for s in scenes:
        e = d.new('Scene')
        d.set(e, 'sceneContent', 'old')
        d.put(d.get(n, 'scenes'), s, e)
    for attr, order, cls, pre in WORLD_LISTS:
        for i in ids.get(attr, ()):
            d.put(d.get(n, attr), i, d.new(cls))
        d.set(n, order, d.lst(ids.get(attr, [])))


def reader_class(sfx):
    from vlib import check
    for c in check.BASE.classes.values():
        if c.lookup('SUFFIX') and 'SUFFIX' in c.ns and c.lookup('SUFFIX')[1] == sfx and any(
                getattr(k, 'name', '') in ('OdtReader', 'OdsReader') for k in c.mro):
            return c.name


def p17_read(j, sfx, body, places, mode):
    path = f'/p/x{sfx}.odt'

    def f(d):
        n = d.new('Novel')
        novel_with(d, n, places)
        r = d.new(reader_class(sfx), path)
        d.set(r, 'novel', n)
        d.call(r, 'read')
        return [d.a(d.it.getitem(d.get(n, k), i), a) for k, i, a in places]
    return j.run(f, put_file(j, {path: odt(body)}), sax_split=mode, cut_texts=False)


MARKED = ('_proof', '_manuscript', '_notes', '_todo')


def p17_pars(j, sfx, pars, mode):
    """Every paragraph on its own, and followed by another one."""
    word = T('next', 'word')
    lists = []
    if sfx == '_proof':
        # The proofread scene text has no outer blanks.
        pars = [tuple(word + x for x in p) for p in pars]
    for p in pars:
        lists.append(([P(p[0])], p))
    for p in pars[:60]:
        lists.append(([P(p[0]), P(word)], tuple(x + '\n' + word for x in p)))
        lists.append(([P(word), P(p[0])], tuple(word + '\n' + x for x in p)))
    body, places = markers(sfx, [x[0] for x in lists])
    per = len(places) // len(lists)
    for k, v, st in p17_read(j, sfx, body, places, mode):
        if not j.raised(f'no-exception{sfx}', k, v, st, f'reading a {sfx} document'):
            continue
        for i, got in enumerate(v):
            x, plain, marked = lists[i // per][1]
            want = marked if sfx in MARKED else plain
            xml = ''.join(lists[i // per][0])
            if sfx in MARKED:
                ok = isinstance(got, str) and styled(got) == styled(want)
            else:
                ok = same(got, want, st.facts)
            j.ob(f'complete{sfx}', ok, f'{sfx}: {show(xml)} becomes {show(got)} instead of {show(want)} (fragments: {mode})',
                 '' if ok else j.anchor('handle_data', '_lines'))


def block(w, kind):
    """One paragraph: (XML, text with markup, plain text)."""
    if kind == 'body':
        return P(esc(w)), w, w
    if kind == 'indent':
        return P(esc(w), 'First_20_line_20_indent'), w, w
    if kind == 'empty':
        return P(''), '', ''
    if kind == 'quote':
        return P(esc(w), 'Quotations'), '> ' + w, w
    if kind == 'quote style':
        return P(esc(w), 'P2'), '> ' + w, w
    if kind == 'list':
        return f'<text:list><text:list-item>{P(esc(w))}</text:list-item></text:list>', '- ' + w, w
    if kind == 'language':
        return P(esc(w), 'P1'), f'[lang=en-US]{w}[/lang=en-US]', w
    if kind == 'language list':
        return f'<text:list><text:list-item>{P(esc(w), "P1")}</text:list-item></text:list>', f'- [lang=en-US]{w}[/lang=en-US]', w
    if kind == 'italic':
        return P(esc(w), 'T1'), f'[i]{w}[/i]', w
    if kind == 'table':
        return (f'<table:table><table:table-row><table:table-cell>{P(esc(w))}</table:table-cell><table:table-cell>{P(esc(w))}'
                '</table:table-cell></table:table-row></table:table>', w + '\n' + w, w + '\n' + w)
    if kind == 'section':
        return P(esc(w)), w, w
    if kind == 'changes':
        return (f'<text:p text:style-name="Text_20_body"><text:change-start text:change-id="c"/>{esc(w)}<text:change-end text:change-id="c"/></text:p>', w, w)
    raise ValueError(kind)


BLOCKS = ('body', 'indent', 'empty', 'quote', 'quote style', 'list', 'language', 'language list', 'italic', 'table', 'changes')


def p17_blocks(j, sfx, seqs, mode):
    """Sequences of paragraphs of all kinds, last one a word."""
    lists = []
    for q in seqs:
        bs = [block(T(f'w{i}', 'word'), k) for i, k in enumerate(q)]
        lists.append(([b[0] for b in bs], '\n'.join(b[1] for b in bs), '\n'.join(b[2] for b in bs)))
    body, places = markers(sfx, [x[0] for x in lists])
    per = len(places) // len(lists)
    for k, v, st in p17_read(j, sfx, body, places, mode):
        if not j.raised(f'no-exception{sfx}', k, v, st, f'reading a {sfx} document'):
            continue
        for i, got in enumerate(v):
            xs, marked, plain = lists[i // per]
            want = marked if sfx in MARKED else plain
            if sfx == '_proof':
                # The proofread scene text has no outer blanks.
                want = want.strip()
            ok = isinstance(got, str) and (styled(got) == styled(want) if sfx in MARKED else same(got.rstrip(), want))
            j.ob(f'blocks{sfx}', ok, f'{sfx}: {show("".join(xs))} becomes {show(got)} instead of {show(want)} (fragments: {mode})',
                 '' if ok else j.anchor('handle_data', '_lines'))


def untagged(seq, cls):
    """(body, [[title, level, [[scene title or None, text]…], description]…]) of a sequence of paragraphs without IDs."""
    chapters, xml = [], ''
    sc = None
    for i, k in enumerate(seq):
        w = T(f'w{i}', 'word')
        if k in ('h1', 'h2'):
            xml += Hd(esc(w), int(k[1]))
            chapters.append([w, 1 if k == 'h1' else 0, [], []])
            sc = None
        elif k == 'heading style':
            xml += P(esc(w), 'P3')
            chapters.append([w, 0, [], []])
            sc = None
        elif k == 'h2 parts':
            xml += Hd(esc(w) + span(esc(w), 'T5') + '<text:s/>' + esc(w) + span(esc(w), 'T1'), 2)
            chapters.append([w + w + ' ' + w + w, 0, [], []])
            sc = None
        elif k == 'h3':
            xml += Hd(esc(w), 3)
            sc = [w, []]
            chapters[-1][2].append(sc)
        elif k == 'divider':
            xml += P('* * *')
            sc = None
        else:
            x, marked, plain = block(w, k)
            xml += x
            if not chapters:
                # Text before the first heading does not belong to anything.
                continue
            if cls == 'OdtRImport':
                if sc is None:
                    sc = [None, []]
                    chapters[-1][2].append(sc)
                sc[1].append(marked)
            elif sc is not None:
                sc[1].append(plain)
            else:
                chapters[-1][3].append(plain)
    return xml, chapters


UNTAGGED = {'OdtRImport': ('h1', 'h2', 'h2 parts', 'heading style', 'divider', 'body', 'quote', 'list', 'language', 'italic'),
            'OdtROutline': ('h1', 'h2', 'h2 parts', 'heading style', 'h3', 'body', 'quote', 'list', 'empty')}


def p17_untagged(j, cls, seqs, mode):
    """Documents without IDs: all headings become chapters or scenes, all paragraphs belong to them, in the order of the document."""
    for q in seqs:
        body, want = untagged(q, cls)

        def f(d):
            n = d.new('Novel')
            r = d.new(cls, '/p/x.odt')
            d.set(r, 'novel', n)
            d.call(r, 'read')
            out = []
            for c in d.a(n, 'srtChapters'):
                e = d.it.getitem(d.get(n, 'chapters'), c)
                scenes = []
                for s in d.a(e, 'srtScenes'):
                    o = d.it.getitem(d.get(n, 'scenes'), s)
                    scenes.append((d.a(o, 'title'), d.a(o, 'desc' if cls == 'OdtROutline' else 'sceneContent'), d.a(o, 'scType')))
                out.append((d.a(e, 'title'), d.a(e, 'chLevel'), scenes, d.a(e, 'desc'), d.a(e, 'chType')))
            return out, d.a(n, 'title'), d.a(n, 'languageCode'), d.a(n, 'countryCode')
        for k, v, st in j.run(f, put_file(j, {'/p/x.odt': odt(body, title=esc(T('nt', 'word')))}), sax_split=mode, cut_texts=False):
            if not j.raised(f'no-exception/{cls}', k, v, st, f'reading {body}'):
                continue
            out, title, lang, ctr = v
            a = j.anchor('handle_endtag', 'handle_data', '_chCount')
            j.ob(f'chapters/{cls}', [c[0] for c in out] == [c[0] for c in want] and [c[1] for c in out] == [c[1] for c in want],
                 f'{cls}: the headings {[c[:2] for c in want]} become the chapters {[(show(c[0]), c[1]) for c in out]} ({q}, fragments: {mode})', a)
            j.ob(f'meta/{cls}', (title, lang, ctr) == (T('nt', 'word'), 'de', 'AT'), f'{cls}: title and locale become {show((title, lang, ctr))}', a)
            j.ob(f'types/{cls}', all(c[4] == 0 and all(s[2] == 0 for s in c[2]) for c in out), f'{cls}: elements of other types', a)
            if len(out) != len(want):
                continue
            for c, w in zip(out, want):
                got = [g[1] for g in c[2]]
                ex = ['\n'.join(s[1]) for s in w[2]]
                if cls == 'OdtRImport':
                    # A divider below a heading leaves an empty scene.
                    got = [g for g in got if g]
                    ok = len(got) == len(ex) and all(styled((g or '').strip('\n')) == styled(e.strip('\n')) for g, e in zip(got, ex))
                else:
                    ok = len(got) == len(ex) and all(words(g) == words(e) for g, e in zip(got, ex)) and words(c[3]) == words('\n'.join(w[3])) \
                        and [g[0] for g in c[2]] == [s[0] for s in w[2]]
                j.ob(f'texts/{cls}', ok, f'{cls}: {show(ex)} {show(w[3])} becomes {show(got)} {show(c[3])} ({q}, fragments: {mode})', '' if ok else a)


def words(t):
    """The text without the marks of lists and empty lines."""
    return [x.strip(' ') for x in (t or '').split('\n') if x.strip(' ')]


def p17_outside(j, sfx, mode):
    """Text and sections the user added outside of the sections of the elements, and removed sections."""
    stray = P('stray') + P('stray', 'Quotations') + Hd('stray', 3) + P('')
    foreign = S(P('stray'), 'Section1')
    w = [[T(f'w{i}{c}', 'word') for c in 'ab'] for i in range(3)]
    full, places = markers(sfx, [[P(esc(a)), P(esc(b))] for a, b in w])
    per = len(places) // 3
    if sfx == '_proof':
        mid = '(?<=' + P('[/ScID]', 'scene_20_mark') + ')'
    else:
        mid = r'(?=<text:section [^>]*(?:ScID|LcID|ItID|CrID_|' + ('ChID' if sfx in ('_chapters', '_parts') else 'CrID') + r'))|(?<=</text:section>)'
    sections = [(m.start(), m.end()) for m in re.finditer(
        P(r'\[ScID:\d+\]', 'scene_20_mark') + '.*?' + P(r'\[/ScID\]', 'scene_20_mark') if sfx == '_proof' else
        r'<text:section [^>]*(?:ScID|LcID|ItID|CrID_|' + ('ChID' if sfx in ('_chapters', '_parts') else 'LcID') + r')[^>]*>.*?</text:section>', full)]
    assert len(sections) == len(places), (sfx, len(sections), len(places))
    bodies = [('text', range(0), re.sub(mid, lambda m: stray, full))]
    if sfx != '_proof':
        bodies += [('section', range(0), re.sub(mid, lambda m: foreign, full)), ('section', range(0), foreign + full + foreign)]
    for i, (x, y) in enumerate(sections):
        bodies.append(('removed', range(i, i + 1), full[:x] + full[y:]))
        bodies.append(('removed', range(i, i + 1), re.sub(mid, lambda m: stray, full[:x] + full[y:])))
    for i in range(3):
        q = range(i * per, (i + 1) * per)
        bodies.append(('removed', q, full[:sections[q[0]][0]] + full[sections[q[-1]][1]:]))
    for what, gone, body in bodies:
        for k, v, st in p17_read(j, sfx, body, places, mode):
            if not j.raised(f'no-exception{sfx}', k, v, st, f'reading a {sfx} document'):
                continue
            for i, got in enumerate(v):
                want = '\n'.join(w[i // per])
                if i in gone:
                    ok = got is None or got == 'old'
                    want = 'what it was'
                else:
                    ok = isinstance(got, str) and same(got.strip() if sfx == '_proof' else got.rstrip(), want) is True
                j.ob(f'outside-{what}{sfx}', ok, '' if ok else f'{sfx}, ' + {'text': 'text between the sections', 'section': 'a section of the user', 'removed':
                     'sections removed'}[what] + f': {places[i]} becomes {show(got)} instead of {show(want)} (fragments: {mode})',
                     '' if ok else j.anchor('handle_starttag', 'handle_endtag'))


def p17_special(j, sfx, mode):
    """Footnotes, comments, and headings of several pieces."""
    a, b, c = (T(x, 'word') for x in 'abc')
    note = f'<text:note text:id="ftn1" text:note-class="footnote"><text:note-citation>1</text:note-citation><text:note-body>{P(esc(c), "Footnote")}</text:note-body></text:note>'
    comment = lambda x: f'<office:annotation><dc:creator>me</dc:creator><dc:date>2020-01-01T00:00:00</dc:date>{x}</office:annotation>'
    span_c = '<office:annotation office:name="n"><dc:creator>me</dc:creator>' + P(esc(c)) + '</office:annotation>'
    cases = [('footnote', P(esc(a) + note + esc(b)), [a, b], None),
             ('footnote', P(span(esc(a) + note + esc(b), 'T1')), [a, b], None),
             ('footnote', P(esc(a) + note + esc(b), 'Quotations'), [a, b], None),
             ('comment', P(esc(a) + comment(P(esc(c))) + esc(b)), [a, b], f'{a}/*{c}*/{b}'),
             ('comment', P(esc(a) + comment(P(esc(c)) + P(esc(c))) + esc(b)), [a, b], f'{a}/*{c}\n{c}*/{b}'),
             ('comment', P(esc(a) + comment(P(span(esc(c), 'T1') + '<text:s/>' + esc(c))) + esc(b)), [a, b], f'{a}/*{c} {c}*/{b}'),
             ('comment', P(esc(a) + comment(P(esc(c), 'P1')) + esc(b)), [a, b], f'{a}/*{c}*/{b}'),
             ('comment', P(esc(a) + comment(P('x<text:line-break/>' + esc(c), 'Quotations')) + esc(b)), [a, b], f'{a}/*x\n{c}*/{b}'),
             ('comment', P(span(esc(a) + comment(P(esc(c))) + esc(b), 'T1')), [a, b], f'[i]{a}/*{c}*/{b}[/i]'),
             ('comment', P(esc(a) + comment(P(esc(c))) + comment(P(esc(c))) + esc(b)), [a, b], f'{a}/*{c}*//*{c}*/{b}'),
             ('comment', P(esc(a) + span_c + esc(b) + '<office:annotation-end office:name="n"/>' + esc(a)), [a, b, a], f'{a}/*{c}*/{b}{a}'),
             ('comment', P(esc(a) + comment(f'<text:list><text:list-item>{P(esc(c))}</text:list-item></text:list>') + esc(b)) + P(esc(b)), [a, b, b],
              f'{a}/*{c}*/{b}\n{b}')]
    if sfx not in MARKED:
        cases = [x for x in cases if x[0] == 'footnote']
    body, places = markers(sfx, [[x[1]] for x in cases])
    per = len(places) // len(cases)
    for k, v, st in p17_read(j, sfx, body, places, mode):
        if not j.raised(f'no-exception{sfx}', k, v, st, f'reading a {sfx} document'):
            continue
        for i, got in enumerate(v):
            what, xml, parts, want = cases[i // per]
            ok = isinstance(got, str) and (styled(got) == styled(want) if want is not None else in_order(got, parts))
            j.ob(f'{what}{sfx}', ok, f'{sfx}: {show(xml)} becomes {show(got)} (fragments: {mode})', '' if ok else j.anchor('handle_data', '_paragraphs'))


def in_order(t, parts):
    p = 0
    for x in parts:
        p = t.find(x, p)
        if p < 0:
            return False
        p += len(x)
    return True


RULE17 = ('The readers are interpreted on documents made of all short sequences of inline elements and paragraph types; the character data '
          'is delivered in one piece, split at every line, at every placeholder and at every character. The text of each element must '
          'be the concatenation of the paragraphs, in order.')


def jobs17(tier):
    out = []
    deep = tier == 'thorough'
    for s in ROUND:
        s = '_' + s
        for m in MODES if s in ('_proof', '_manuscript', '_scenes') or deep else ('whole', 'chars'):
            for i, c in enumerate(chunks(paragraphs(3 if deep and m in ('whole', 'chars') and s in ('_proof', '_manuscript', '_scenes') else 2), 600)):
                out.append(Job(f'paragraphs{s}/{m}{i + 1}', p17_pars, (s, c, m)))
            seqs = [(*q, 'body') for n in range(4 if deep else 3) for q in itertools.product(BLOCKS, repeat=n)]
            for i, c in enumerate(chunks(seqs, 400)):
                out.append(Job(f'blocks{s}/{m}{i + 1}', p17_blocks, (s, c, m)))
            out.append(Job(f'special{s}/{m}', p17_special, (s, m)))
            out.append(Job(f'outside{s}/{m}', p17_outside, (s, m)))
    for cls, kinds in UNTAGGED.items():
        for m in ('whole', 'chars'):
            seqs = [q for n in range(1, 5 if deep else 4) for q in itertools.product(kinds, repeat=n)]
            front = [q for n in (1, 2) for q in itertools.product([x for x in kinds if x[0] != 'h'], repeat=n)]
            for i, c in enumerate(chunks([('h2', *q) for q in seqs] + [(*q, h, *r) for q in front for h in ('h1', 'h2 parts') for r in ((), ('body', 'h2', 'quote'))], 400)):
                out.append(Job(f'{cls}/{m}{i + 1}', p17_untagged, (cls, c, m)))
    return out


def chunks(x, n):
    return [x[i:i + n] for i in range(0, len(x), n)]


P17 = dict(rule=RULE17, jobs=jobs17, assumptions=[
    'the SAX parser delivers well-formed event sequences; the text contains no markers of the document type',
    'proofread scene texts have no outer blanks and empty lines'])

# ------------------------------------------------------------------------------------------- P16
STATUS = (None, 'Outline', 'Draft', '1st Edit', '2nd Edit', 'Done')
# Columns of the lists: attribute and kind of its cell.
COLUMNS = {
    '_scenelist': ('scenes', 'ScID:', (('title', 'text'), ('desc', 'text'), ('tags', 'tags'), ('notes', 'text'), ('isReactionScene', 'AR'), ('goal', 'text'),
                                       ('conflict', 'text'), ('outcome', 'text'), (None, 'number'), (None, 'number'), ('field1', 'rating'),
                                       ('field2', 'rating'), ('field3', 'rating'), ('field4', 'rating'), (None, 'number'), (None, 'number'),
                                       ('status', 'status'), (None, 'names'), (None, 'names'), (None, 'names'))),
    '_charlist': ('characters', 'CrID:', (('title', 'text'), ('fullName', 'text'), ('aka', 'text'), ('desc', 'text'), ('bio', 'text'), ('goals', 'text'),
                                          ('isMajor', 'major'), ('tags', 'tags'), ('notes', 'text'))),
    '_loclist': ('locations', 'LcID:', (('title', 'text'), ('desc', 'text'), ('aka', 'text'), ('tags', 'tags'))),
    '_itemlist': ('items', 'ItID:', (('title', 'text'), ('desc', 'text'), ('aka', 'text'), ('tags', 'tags'))),
}
LISTS = tuple(COLUMNS)


def value(kind, name, variant):
    """(attribute value, cell text): variant 0 and 1 are set, 2 is empty."""
    if kind == 'text':
        return ('', '') if variant == 2 else (T(name + str(variant)),) * 2
    if kind == 'tags':
        if variant == 2:
            return [], ''
        t = [T(f'{name}{variant}{i}', 'tag') for i in range(2 + variant)]
        return t, ', '.join(t)
    if kind == 'AR':
        return (True, 'R') if variant == 1 else (False, 'A' if variant == 0 else '')
    if kind == 'major':
        return (True, 'Major') if variant == 1 else (False, 'Minor' if variant == 0 else '')
    if kind == 'rating':
        v = {0: '2', 1: '10', 2: '1'}[variant]
        return v, '' if variant == 2 else v
    if kind == 'status':
        return (variant + 1, STATUS[variant + 1]) if variant < 2 else (None, '')
    return None, {'number': '7', 'names': T(name + 'x', 'word')}[kind]


def old_novel(d, n, sfx, values):
    """A novel with three elements of the kind; values: {id: {attribute: value}}."""
    kind, pre, cols = COLUMNS[sfx]
    cls = {'scenes': 'Scene', 'characters': 'Character'}.get(kind, 'WorldElement')
    for i, vs in values.items():
        e = d.new(cls)
        for a, v in vs.items():
            d.set(e, a, d.lst(v) if isinstance(v, list) else v)
        if cls == 'Scene':
            d.set(e, 'scType', 0)
            d.set(e, 'sceneContent', T(f'text{i}'))
        d.put(d.get(n, kind), i, e)
    c = d.new('Chapter')
    d.set(c, 'title', T('chapter'))
    d.set(c, 'chType', 0)
    d.set(c, 'srtScenes', d.lst(list(values) if kind == 'scenes' else []))
    d.put(d.get(n, 'chapters'), '1', c)
    d.set(n, 'srtChapters', d.lst(['1']))
    if kind != 'scenes':
        d.set(n, 'srt' + kind.capitalize(), d.lst(list(values)))
    return n


def ods(rows):
    c = f'<?xml version="1.0" encoding="UTF-8"?>\n<office:document-content {NS}><office:body><office:spreadsheet><table:table table:name="x">' \
        f'<table:table-column table:number-columns-repeated="3"/>{"".join(rows)}</table:table></office:spreadsheet></office:body></office:document-content>'
    return ('zip', True, (('content.xml', ('text', c, 'utf-8', True)),))


def cell(t, n=1, style=0):
    r = f' table:number-columns-repeated="{n}"' if n > 1 else ''
    if not t:
        return f'<table:table-cell{r}/>'
    if style == 1:
        # text parts with formatting and a comment
        head, hole = (t[:1], t[1:]) if not H.HOLE_RE.match(t) else ('', t)
        x = esc(head) + span(esc(hole), 'T1')
        return f'<table:table-cell office:value-type="string"{r}><office:annotation><text:p>no</text:p></office:annotation><text:p>{x}</text:p></table:table-cell>'
    return f'<table:table-cell office:value-type="string"{r}>' + ''.join(f'<text:p>{esc(x)}</text:p>' for x in t.split('\n')) + '</table:table-cell>'


def row(cells, encoding):
    """A table row; encoding 0: one element per cell, 1: equal cells are repeated, 2: formatted text."""
    out = []
    if encoding == 1:
        for k, g in itertools.groupby(cells):
            out.append(cell(k, len(list(g))))
    else:
        out = [cell(c, 1, 1 if encoding == 2 and i else 0) for i, c in enumerate(cells)]
    return '<table:table-row table:style-name="ro2">' + ''.join(out) + '<table:table-cell table:number-columns-repeated="1000"/></table:table-row>'


def p16_same(j, sfx, variant, kind='text'):
    """Exporting a list and reading it back changes nothing."""
    k0, pre, cols = COLUMNS[sfx]

    def build(d):
        n = d.new('Novel')
        vals = {}
        for i in ('2', '1', '12034'):
            vals[i] = {a: value(k, f'{a}.{i}.', {'full': (int(i) + 1) % 2, 'empty': 2, 'mixed': (x + int(i)) % 3}[variant])[0]
                       for x, (a, k) in enumerate(cols) if a} if variant != 'unset' else {}
            if variant == 'lines':
                vals[i] = {a: (T(f'{a}.{i}.1') + '\n' + T(f'{a}.{i}.2') if k == 'text' else value(k, f'{a}{i}', 1)[0]) for a, k in cols if a}
        old_novel(d, n, sfx, vals)
        d.set(n, 'languageCode', 'de')
        d.set(n, 'countryCode', 'AT')
        if k0 == 'scenes':
            for attr, order, cls, p in WORLD_LISTS:
                e = d.new(cls)
                d.set(e, 'title', T(attr, 'word'))
                d.put(d.get(n, attr), '1', e)
                d.set(n, order, d.lst(['1']))
                for i in ('2', '1', '12034'):
                    d.set(d.it.getitem(d.get(n, 'scenes'), i), attr, d.lst(['1']))
        return n
    ratings = {a for a, k in cols if k == 'rating'}
    for k, v, st in roundtrip(j, sfx, build):
        if not j.raised(f'no-exception{sfx}', k, v, st, f'exporting {sfx} and reading it back'):
            continue
        before, after = v
        before = {q: '1' if q[2] in ratings and w in (None, '') and q[0] == k0 else w for q, w in before.items()}
        compare(j, f'same{sfx}', after, before, f'{sfx} read back', st.facts, SKIP, NAMES)


def p16_edit(j, sfx, base, encoding):
    """One changed cell changes one attribute; empty cells clear attributes and create nothing."""
    k0, pre, cols = COLUMNS[sfx]
    ids = ('2', '1', '12')
    cells, vals = {}, {}
    for i in ids:
        vs = [value(k, f'{a or x}.{i}.', {'set': 0, 'empty': 2, 'unset': 2}[base]) for x, (a, k) in enumerate(cols)]
        vals[i] = {a: v[0] for (a, k), v in zip(cols, vs) if a} if base != 'unset' else {}
        cells[i] = [pre + i] + [v[1] for v in vs]
    head = [cell('ID') + ''.join(cell(f'Column {i}') for i in range(len(cols)))]
    edits = [None] + [(x, var) for x, (a, k) in enumerate(cols) for var in ((1, 2) if base == 'set' else (1,))]
    extra = [(x, t) for x, (a, k) in enumerate(cols) if k == 'rating' for t in ('1', '2', '5', '9', '10', '0', '11', 'x')]
    extra += [(x, t) for x, (a, k) in enumerate(cols) if k == 'status' for t in STATUS[1:] + ('x',)]
    edits += [(x, ('cell', t)) for x, t in extra]
    edits += [(x, ('flag', t)) for x, (a, k) in enumerate(cols) if k == 'AR' for t in ('r', 'a', 'R', 'A')]
    for e in edits:
        new = {i: list(c) for i, c in cells.items()}
        want = {i: dict(v) for i, v in vals.items()}
        if e is not None:
            x, var = e
            a, kind = cols[x]
            if isinstance(var, tuple) and var[0] == 'flag':
                t = var[1]
                v = t in 'rR'
            elif isinstance(var, tuple):
                t = var[1]
                v = (t if t in [str(n) for n in range(1, 11)] else '1') if kind == 'rating' else STATUS.index(t) if t in STATUS else vals['1'].get(a)
            else:
                v, t = value(kind, f'new.{a}.', var)
                if kind == 'status' and var == 2:
                    v = vals['1'][a]
            new['1'][1 + x] = t
            if a:
                want['1'][a] = v
        rows = [f'<table:table-row>{head[0]}</table:table-row>', '<table:table-row table:number-rows-repeated="2"><table:table-cell/></table:table-row>']
        rows += [row(new[i], encoding) for i in ids]
        rows += ['<table:table-row table:number-rows-repeated="1000"><table:table-cell table:number-columns-repeated="1024"/></table:table-row>']

        def f(d):
            n = old_novel(d, d.new('Novel'), sfx, vals)
            before = snapshot(d, n, codes=True)
            r = d.new(reader_class(sfx), f'/p/x{sfx}.ods')
            d.set(r, 'novel', n)
            d.call(r, 'read')
            return before, snapshot(d, n, codes=True)
        for k, v, st in j.run(f, put_file(j, {f'/p/x{sfx}.ods': ods(rows)})):
            what = f'{sfx} with ' + ('no change' if e is None else f'{show(new["1"][1 + e[0]])} in the column {e[0] + 2} ({cols[e[0]][0]})') + \
                   f', all other attributes {base}'
            if not j.raised(f'no-exception{sfx}', k, v, st, what):
                continue
            before, after = v
            exp = dict(before)
            for i in ids:
                for a, kind in cols:
                    if a:
                        w = want[i].get(a)
                        if kind == 'rating' and w in (None, ''):
                            w = '1'
                        exp[k0, i, a] = bool(w) if a in ('isReactionScene', 'isMajor') else w
            compare(j, f'edit{sfx}' if e else f'unchanged{sfx}', after, exp, what, st.facts, SKIP, NAMES)


def p16_rows(j, sfx):
    """Rows belong to the elements with their IDs, whatever their order; incomplete tables change nothing."""
    k0, pre, cols = COLUMNS[sfx]
    ids = ('2', '1', '12', '21')
    vals = {i: {a: value(k, f'{a}.{i}.', 0)[0] for a, k in cols if a} for i in ids}
    cells = {i: [pre + i] + [value(k, f'{a or x}.{i}.', 0)[1] for x, (a, k) in enumerate(cols)] for i in ids}
    for order in itertools.permutations(ids):
        def f(d):
            n = old_novel(d, d.new('Novel'), sfx, vals)
            before = snapshot(d, n, codes=True)
            r = d.new(reader_class(sfx), f'/p/x{sfx}.ods')
            d.set(r, 'novel', n)
            d.call(r, 'read')
            return before, snapshot(d, n, codes=True)
        for k, v, st in j.run(f, put_file(j, {f'/p/x{sfx}.ods': ods([row(cells[i], 0) for i in order])})):
            if not j.raised(f'no-exception{sfx}', k, v, st, 'reading the table'):
                continue
            before, after = v
            srt = 'srt' + k0.capitalize()
            exp = dict(before)
            if k0 != 'scenes':
                exp['novel', '', srt] = list(order)
            compare(j, f'order{sfx}', after, exp, f'{sfx} with the rows {order}', st.facts, SKIP, NAMES)
    for cut in (1, 2, len(cols)):
        def f(d):
            n = old_novel(d, d.new('Novel'), sfx, vals)
            r = d.new(reader_class(sfx), f'/p/x{sfx}.ods')
            d.set(r, 'novel', n)
            before = snapshot(d, n, codes=True)
            try:
                d.call(r, 'read')
                return 'read', before, snapshot(d, n, codes=True)
            except PyRaise as e:
                return d.it.st.heap[e.val.oid].cls.name, before, snapshot(d, n, codes=True)
        rows = [row(cells['2'], 0), '<table:table-row>' + ''.join(cell(c) for c in cells['1'][:cut]) + '</table:table-row>']
        for k, v, st in j.run(f, put_file(j, {f'/p/x{sfx}.ods': ods(rows)})):
            if k != 'N':
                j.ob(f'short{sfx}', v.cls.name == 'Error', f'{sfx} with {cut} cells in a row: {v!r}', j.anchor('_rows', 'get_rows'))
                continue
            e, before, after = v
            j.ob(f'short{sfx}', e != 'read', f'{sfx} with {cut} cells in a row is read without an error', j.anchor('_rows', 'get_rows'))
            if e == 'read':
                continue
            j.ob(f'short{sfx}', e in ('read', 'Error'), f'{sfx} with {cut} cells in a row: {e!r}', j.anchor('_rows', 'get_rows'))
            compare(j, f'short-unchanged{sfx}', after, before, f'{sfx} with {cut} cells in a row', st.facts, SKIP, NAMES)


RULE16 = ('Lists are written and read back by interpreting both classes, and read from tables in which one cell is changed; all attributes of all '
          'elements are compared with the expected ones by the column table of the check.')


def jobs16(tier):
    out = []
    for s in LISTS:
        for v in ('full', 'empty', 'mixed', 'unset'):
            out.append(Job(f'same{s}/{v}', p16_same, (s, v)))
        for b in ('set', 'empty', 'unset'):
            for e in (0, 1, 2):
                out.append(Job(f'edit{s}/{b}{e}', p16_edit, (s, b, e)))
        out.append(Job(f'rows{s}', p16_rows, (s,)))
    return out


P16 = dict(rule=RULE16, jobs=jobs16, assumptions=[
    'repeated blanks inside of cells are not compared (the test data of the repository fixes that they are merged)',
    'scene rows with unknown IDs are not considered'])
