"""P19: comments and notes. P30: languages."""
import itertools
import re

from vlib import holes as H
from vlib.check import Job
from vlib.scen import *
from .build import *
from .docs import *
from .docs import FORMATTED, O_, T_
from .files import documents

DC_ = '{http://purl.org/dc/elements/1.1/}'
ST_ = '{urn:oasis:names:tc:opendocument:xmlns:style:1.0}'
FO_ = '{urn:oasis:names:tc:opendocument:xmlns:xsl-fo-compatible:1.0}'
LAB = re.compile('\u00ab([^\u00ab\u00bb]*)\u00bb')
AUTHOR = 'A & B "C" \\1 <d>'

# comment: (text, kind, starred, texts of the paragraphs)
COMMENTS = {
    'comment': ('/*', 'c', 0, '*/'), 'spaced comment': ('/* ', 'c', 0, ' */'), 'fn': ('/* @fn ', 'fn', 0, '*/'), 'fn close': ('/*@fn ', 'fn', 0, ' */'),
    'en': ('/* @en ', 'en', 0, ' */'), 'fn*': ('/* @fn* ', 'fn', 1, '*/'), 'en*': ('/*  @en* ', 'en', 0, '*/'), 'no note': ('/* x @fn ', 'c', 0, '*/'),
    'no space': ('/* @fn', 'c', 0, '*/'), 'other': ('/* @xn ', 'c', 0, '*/')}
FORMS = {'plain': ('{0}',), 'lines': ('{0}\n{1}',), 'italic': ('[i]{0}[/i] {1}',), 'paragraphs': ('{0}\n\n{1}',)}


def comment_text(kind, form, i):
    a, _k, _s, b = COMMENTS[kind]
    return a + FORMS[form][0].format(T(f'n{i}a', 'word'), T(f'n{i}b', 'word')) + b


def note_novel(t, scenes, title=None):
    """scenes: [[(kind, form)]]; the words between are numbered."""
    def build(d):
        cont, want = {}, []
        i = w = 0
        if title:
            want.append(('note', i, title))
            head = f'{T("w-1", "word")} {comment_text(*title, i)}'
            want.insert(0, ('w', '-1'))
            i += 1
        for n, sc in enumerate(scenes):
            s = ''
            for c in sc:
                if c is None:
                    s += f'{T(f"w{w}", "word")} '
                    want.append(('w', str(w)))
                    w += 1
                elif c == '\n':
                    s += '\n'
                else:
                    s += comment_text(*c, i)
                    want.append(('note', i, c))
                    i += 1
            cont[str(n + 1)] = s
        n = mini(d, {'1': list(cont)}, cont, scType={s: t for s in cont})
        d.set(d.it.getitem(d.get(n, 'chapters'), '1'), 'chType', t)
        if title:
            d.set(d.it.getitem(d.get(n, 'chapters'), '1'), 'title', head)
        d.set(n, 'authorName', AUTHOR)
        return n, want
    return build


def labels(s):
    return [x for x in LAB.findall(s or '')]


def walk(e, out):
    """[('w', number) | ('note', element)] in document order."""
    if e.tag in (O_ + 'annotation', T_ + 'note'):
        out.append(('note', e))
    else:
        out += [('w', x[1:]) for x in labels(e.text) if x[0] == 'w']
        for c in e:
            walk(c, out)
    out += [('w', x[1:]) for x in labels(e.tail) if x[0] == 'w']
    return out


def p19_case(j, name, cases):
    t = {'OdtWNotes': 1, 'OdtWTodo': 2}.get(name, 0)
    for scenes, title in cases:
        build = note_novel(t, scenes, title)
        want = []

        def b(d):
            n, w = build(d)
            want[:] = w
            return n
        for k, v, st, ms in export(j, name, b):
            what = f'{name}: scenes {[[x[0] + "/" + x[1] if isinstance(x, tuple) else x or "word" for x in s] for s in scenes]}' + (f', title with {title[0]}' if title else '')
            if not j.raised(f'no-exception/{name}', k, v, st, what):
                continue
            w_ = construct(j, name)
            try:
                tree = parse(joint(ms.get('content.xml', ''), 0, st.facts))
            except HET.ParseError as e:
                j.ob(f'wellformed/{name}', False, f'{what}: not well-formed: {e}', w_)
                continue
            got = []
            for top in tree.iter(O_ + 'text'):
                walk(top, got)
            if title and name != 'OdtWExport':
                want = [x for x in want if x != ('w', '-1') and not (x[0] == 'note' and x[1] == 0)]
                got = [x for x in got if x != ('w', '-1') and not (x[0] == 'note' and 'n0a' in ''.join(x[1].itertext()))]
            shape = [x if x[0] == 'w' else 'note' for x in got]
            ok = shape == [x if x[0] == 'w' else 'note' for x in want]
            j.ob(f'places/{name}', ok, '' if ok else f'{what}: the document has {shape}', '' if ok else w_)
            if not ok:
                continue
            number, ids = 0, []
            for (_n, i, (kind, form)), (_x, e) in zip([x for x in want if x[0] == 'note'], [x for x in got if x[0] == 'note']):
                _a, cls, star, _b = COMMENTS[kind]
                isnote = name == 'OdtWExport' and cls in ('fn', 'en')
                tag = T_ + 'note' if isnote else O_ + 'annotation'
                if not j.ob(f'kind/{name}', e.tag == tag, '' if e.tag == tag else f'{what}: note {i} ({kind}) is a {e.tag.split("}")[1]}', w_):
                    continue
                body = e if not isnote else next(e.iter(T_ + 'note-body'), None)
                ps = [] if body is None else [p for p in body.iter(T_ + 'p')]
                texts = [''.join(p.itertext()) for p in ps]
                texts = [x for x in texts if x.strip()]
                w1, w2 = joint(T(f'n{i}a', 'word'), 0), joint(T(f'n{i}b', 'word'), 0)
                pre = '' if isnote else {'fn': '@fn', 'fn close': '@fn', 'en': '@en', 'fn*': '@fn*', 'en*': '@en*', 'no note': 'x @fn', 'no space': '@fn',
                                         'other': '@xn'}.get(kind, '')
                pre += ' ' if pre and kind != 'no space' else ''
                exp = {'plain': [pre + w1], 'lines': [pre + w1, w2], 'italic': [f'{pre}{w1} {w2}'], 'paragraphs': [pre + w1, w2]}[form]
                ok = [x.strip() for x in texts] == exp
                j.ob(f'text/{name}', ok, '' if ok else f'{what}: note {i} ({kind}, {form}) has the text {texts} instead of {exp}', '' if ok else w_)
                outside = [x.text for x in e.iter() if x.tag != T_ + 'note-citation' and x.tag != DC_ + 'creator' and x not in ps
                           and not any(x in list(p.iter()) for p in ps) and (x.text or '').strip()]
                j.ob(f'inside/{name}', not outside, f'{what}: note {i} has text outside of paragraphs: {outside}', w_)
                if isnote:
                    if not star:
                        number += 1
                    c = e.find(T_ + 'note-citation')
                    lab = c.get(T_ + 'label') if c is not None else None
                    exp = '*' if star else str(number)
                    j.ob(f'number/{name}', lab == exp, f'{what}: note {i} ({kind}) has the number {lab} instead of {exp}', w_)
                    cl = e.get(T_ + 'note-class')
                    exp = 'footnote' if cls == 'fn' else 'endnote'
                    j.ob(f'class/{name}', cl == exp, f'{what}: note {i} ({kind}) is a {cl}', w_)
                    ids.append(e.get(T_ + 'id'))
                    sty = [p.get(T_ + 'style-name') for p in ps]
                    exp = 'Footnote' if cls == 'fn' else 'Endnote'
                    j.ob(f'style/{name}', bool(sty) and sty[0] == exp and 'First_20_line_20_indent' not in sty, f'{what}: note {i} ({kind}) has the styles {sty}', w_)
                else:
                    cr = e.find(DC_ + 'creator')
                    got_ = cr.text if cr is not None else None
                    j.ob(f'creator/{name}', got_ == AUTHOR, f'{what}: the author of the comment is {got_!r}', w_)
            j.ob(f'ids/{name}', len(ids) == len(set(ids)) and None not in ids, f'{what}: note IDs {ids}', w_)


def jobs19(tier):
    out = []
    kinds = list(COMMENTS)
    for name in FORMATTED:
        P = 'plain'
        cases = []
        for a, b in itertools.product(kinds, repeat=2):
            cases.append(([[None, (a, P), None], [None, (b, P), None, (a, P)]], None))
            cases.append(([[None, (a, P), (b, P), None]], None))
        for f, k in itertools.product(FORMS, kinds):
            cases.append(([[(k, f)], [None, (k, f), None, '\n', (k, f), None, '\n'], [None]], None))
        if tier == 'thorough' or name == 'OdtWExport':
            for s in itertools.product(('comment', 'fn', 'en', 'fn*', 'en*'), repeat=3):
                cases.append(([[None, (s[0], P), None, '\n', None, (s[1], P)], [(s[2], 'lines'), None]], None))
        if name == 'OdtWExport':
            for k in kinds:
                cases.append(([[None, ('fn', P), None]], (k, P)))
                cases.append(([[None]], (k, P)))
        cases.append(([[None], [None]], None))
        n = 60
        out += [Job(f'{name}/{i // n}', p19_case, (name, cases[i:i + n])) for i in range(0, len(cases), n)]
    return out


P19 = dict(
    rule='Abstract interpretation of each writer of formatted documents: for all arrangements of comments, footnotes and endnotes over scenes and the chapter '
         'title, the document contains exactly one annotation or note per comment, at its place between the words, of its kind, with its text, author, number and '
         'own ID.',
    assumptions=['models in vlib/models.py', 'texts of notes are words; special characters are covered by P10 and P11'],
    jobs=jobs19)


# ------------------------------------------------------------------------------- languages
TAG = re.compile(r'(\[/?lang=[^\]]*\])')
PIECES = ('a ', '[lang=de-DE]b[/lang=de-DE]', '[lang=en-AU]c', '[/lang=en-AU]', '[lang=fr-FR]d\ne[/lang=fr-FR]', '[i]f[/i]', '[lang=]g[/lang=]', '/* [lang=it-IT]h */',
          '> [lang=x]i[/lang=x]', '[lang', ']', '[lang=pt-BR')


def used(texts):
    return list(dict.fromkeys(x for t in texts if t for x in re.findall(r'\[lang=(.*?)\]', t)))


def p30_find(j, cases):
    """Novel.get_languages() finds each language exactly once."""
    for texts, known in cases:
        def f(d):
            n = mini(d, {'1': [str(i) for i in range(len(texts))]}, {str(i): MISSING if t is None else t for i, t in enumerate(texts)})
            d.set(n, 'languages', None if known is None else d.lst(known))
            d.call(n, 'get_languages')
            return d.a(n, 'languages')
        for k, v, st in j.run(f):
            what = f'get_languages() of {texts!r}' + (f', {known} known' if known else '')
            if not j.raised('no-exception/get_languages', k, v, st, what):
                continue
            w = j.anchor('languages')
            got = list(v or [])
            need = used(texts)
            j.ob('found/get_languages', set(need) <= set(got), '' if set(need) <= set(got) else f'{what}: {got}', w)
            j.ob('extra/get_languages', set(got) <= set(need) | set(known or ()), f'{what}: {got}', w)
            j.ob('once/get_languages', len(got) == len(set(got)), f'{what}: {got}', w)


CODES = (None, '', 'de', 'deu', 'd', 'DE')


def p30_locale(j):
    """Novel.check_locale() completes missing codes, replaces implausible ones, and keeps the others."""
    for lng, ctr, system in itertools.product(CODES, CODES + ('CH',), ('en_US', 'de_DE', 'none')):
        def f(d):
            n = d.new('Novel')
            d.set(n, 'languageCode', lng)
            d.set(n, 'countryCode', ctr)
            d.call(n, 'check_locale')
            d.call(n, 'check_locale')
            return d.a(n, 'languageCode'), d.a(n, 'countryCode')
        for k, v, st in j.run(f, locale=system if system != 'none' else None):
            what = f'check_locale() with {lng!r}, {ctr!r} on a system with {system}'
            if not j.raised('no-exception/check_locale', k, v, st, what):
                continue
            if not lng:
                want = tuple(system.split('_')) if system != 'none' else ('zxx', 'none')
            else:
                want = (lng, ctr) if ctr and len(lng) == len(ctr) == 2 else ('zxx', 'none')
            j.ob('codes/check_locale', v == want, f'{what}: {v} instead of {want}', j.anchor('check_locale'))


def spans(e, styles, cur, out, loc):
    """[(label, language)] of the words of the document."""
    here = cur
    if e.tag == T_ + 'span' and e.get(T_ + 'style-name') in styles:
        here = styles[e.get(T_ + 'style-name')] or cur
    out += [(x, here) for x in labels(e.text)]
    for c in e:
        spans(c, styles, here, out, loc)
    out += [(x, cur) for x in labels(e.tail)]
    return out


LTEXTS = (
    (('w', '[de-DE]', 'w', '[/de-DE]', 'w'), ('w',)),
    (('[de-DE]', 'w', '[en-AU]', 'w', '[/en-AU]', 'w', '[/de-DE]', 'w'), ('[en-AU]', 'w', '[/en-AU]')),
    (('w', '[fr-FR]', 'w', '\n', 'w', '[/fr-FR]', 'w'), ('w', '[de-DE]', 'w', '[/de-DE]', '[fr-FR]', 'w', '[/fr-FR]')),
    (('w',), ('w', '[de-DE]', '<i>', 'w', '</i>', '[/de-DE]', 'w'), ('<b>', '[en-AU]', 'w', '[/en-AU]', 'w', '</b>')),
    (('w', '[x]', 'w', '[/x]', 'w', '[de-DE]', 'w', '[/de-DE]'),),
    (('w', '\n', '> ', '[it-IT]', 'w', '[/it-IT]', 'w', '\n', '- ', '[de-DE]', 'w', '[/de-DE]'),),
    (('w', '[a-a]', 'w', '[/a-a]', '[a-b]', 'w', '[/a-b]', '[a-c]', 'w', '[/a-c]', '[a-d]', 'w', '[/a-d]', '[a-e]', 'w', '[/a-e]', '[a-f]', 'w', '[/a-f]',
      '[a-g]', 'w', '[/a-g]', '[a-h]', 'w', '[/a-h]', '[a-i]', 'w', '[/a-i]', '[a-j]', 'w', '[/a-j]', '[a-k]', 'w', '[/a-k]', '<i>', 'w', '</i>'),),
)
MARK = {'<i>': '[i]', '</i>': '[/i]', '<b>': '[b]', '</b>': '[/b]'}


def lang_texts(case):
    """([scene texts], {label: language})"""
    i, out, want = 0, [], []
    for sc in case:
        s, stack = '', []
        for x in sc:
            if x == 'w':
                s += T(f'w{i}', 'word')
                want.append((f'w{i}', stack[-1] if stack else None))
                i += 1
            elif x.startswith('[/'):
                s += f'[/lang={x[2:-1]}]'
                stack.remove(x[2:-1])
            elif x.startswith('['):
                s += f'[lang={x[1:-1]}]'
                stack.append(x[1:-1])
            else:
                s += MARK.get(x, x)
        out.append(s)
    return out, want


def p30_export(j, name, case, known):
    t = {'OdtWNotes': 1, 'OdtWTodo': 2}.get(name, 0)
    texts, want = lang_texts(case)

    def build(d):
        cont = {str(i + 1): s for i, s in enumerate(texts)}
        n = mini(d, {'1': list(cont)}, cont, scType={s: t for s in cont})
        d.set(d.it.getitem(d.get(n, 'chapters'), '1'), 'chType', t)
        d.set(n, 'languages', None if known is None else d.lst(known))
        d.set(n, 'languageCode', 'pl')
        d.set(n, 'countryCode', 'PL')
        return n
    for k, v, st, ms in export(j, name, build):
        what = f'{name}: scenes {case}' + (f', languages of the project: {known}' if known is not None else '')
        if not j.raised(f'no-exception/{name}', k, v, st, what):
            continue
        w = construct(j, name)
        try:
            tree = parse(joint(ms.get('content.xml', ''), 0, st.facts))
        except HET.ParseError as e:
            j.ob(f'wellformed/{name}', False, f'{what}: not well-formed: {e}', w)
            continue
        styles, count = {}, {}
        for s in tree.iter(ST_ + 'style'):
            x = s.get(ST_ + 'name')
            j.ob(f'style-once/{name}', x not in styles, f'{what}: the style {x} is defined twice', w)
            styles[x] = None
            for p in s.iter(ST_ + 'text-properties'):
                lc = p.get(FO_ + 'language')
                if lc is not None:
                    c = f'{lc}-{p.get(FO_ + "country")}'
                    styles[x] = c
                    count[c] = count.get(c, 0) + 1
                    for sfx in ('asian', 'complex'):
                        c2 = f'{p.get(ST_ + "language-" + sfx)}-{p.get(ST_ + "country-" + sfx)}'
                        j.ob(f'codes/{name}', c2 == c, f'{what}: the style {x} has the languages {c} and {c2}', w)
        for lng in used(texts):
            c = lng if lng.count('-') == 1 else 'zxx-none'
            j.ob(f'style/{name}', count.get(c) == 1, f'{what}: {count.get(c, 0)} styles for the language {lng}', w)
        got = []
        for top in tree.iter(O_ + 'text'):
            spans(top, styles, None, got, None)
        exp = [(a, b if b is None or b.count('-') == 1 else 'zxx-none') for a, b in want]
        got = [x for x in got if re.fullmatch(r'w\d+', x[0])]
        ok = got == exp
        j.ob(f'passages/{name}', ok, '' if ok else f'{what}: the words have the languages {got}', '' if ok else w)
        left = ''.join(tree.itertext())
        j.ob(f'tags/{name}', 'lang=' not in left, f'{what}: language tags appear as text', w)


def p30_overall(j, name):
    """The default language of each document is that of the project."""
    for lng, ctr, want in (('pl', 'PL', 'pl-PL'), (None, None, 'en-US'), ('x', 'PL', 'zxx-none'), ('pl', None, 'zxx-none')):
        def build(d):
            n = mini(d, {'1': ['1']}, {'1': 'x'})
            d.set(n, 'languageCode', lng)
            d.set(n, 'countryCode', ctr)
            return n
        for k, v, st, ms in export(j, name, build, locale='en_US'):
            what = f'{name}: project with the codes {lng}, {ctr}'
            if not j.raised(f'no-exception/{name}', k, v, st, what):
                continue
            got = []
            t = ms.get('styles.xml')
            if t is None:
                continue
            tree = parse(joint(t, 0, st.facts))
            for s in tree.iter(ST_ + 'default-style'):
                for p in s.iter(ST_ + 'text-properties'):
                    if p.get(FO_ + 'language') is not None or p.get(FO_ + 'country') is not None:
                        got.append(f'{p.get(FO_ + "language")}-{p.get(FO_ + "country")}')
            j.ob(f'default/{name}', bool(got) and set(got) == {want}, f'{what}: the default styles have the languages {got} instead of {want}', construct(j, name))


def pvar(i, title, desc='x', omit=()):
    return E('PROJECTVAR', *[X(a, b) for a, b in (('ID', i), ('Title', title), ('Desc', desc), ('Tags', '0')) if a not in omit])


VARS = {
    'none': None, 'empty': [], 'foreign': [pvar('7', T('vt', 'word'), T('vd'))], 'nameless': [pvar('3', '', T('vd'))], 'untitled': [pvar('3', 'x', omit=('Title',))],
    'locale': [pvar('1', 'Language', 'sv'), pvar('2', 'Country', 'SE')], 'nameless first': [pvar('3', ''), pvar('1', 'Language', 'sv'), pvar('2', 'Country', 'SE')],
    'language': [pvar('9', 'lang=de-DE'), pvar('4', '/lang=de-DE')], 'half': [pvar('2', 'Country', 'SE')], 'empty locale': [pvar('1', 'Language', ''), pvar('2', 'Country', '')],
    'untitled first': [pvar('3', 'x', omit=('Title',)), pvar('1', 'Language', 'sv'), pvar('2', 'Country', 'SE'), pvar('5', 'lang=fr-FR'), pvar('6', '/lang=fr-FR')],
}


def p30_project(j, name, new, again=False):
    """The project file records each language once."""
    vars_ = VARS[name]
    x = project_xml('a', 'word')
    x = re.sub(r'(?s)<PROJECTVARS>.*?</PROJECTVARS>', '', x)
    if vars_ is not None:
        x = x.replace('<SCENES>', E('PROJECTVARS', *vars_) + '<SCENES>', 1)
    st0 = put_file(j, {'/p/x.yw7': x})

    def f(d):
        p, n = read_project(d)
        if again:
            d.call(p, 'read')
        first = d.a(n, 'languageCode'), d.a(n, 'countryCode'), d.a(n, 'languages')
        for i, t in enumerate(new):
            d.set(d.it.getitem(d.get(n, 'scenes'), f'1{i + 1}'), 'sceneContent', t)
        d.call(p, 'write')
        _p, n2 = read_project(d)
        return first, (d.a(n2, 'languageCode'), d.a(n2, 'countryCode'), d.a(n2, 'languages'))
    want = used(new)
    for k, v, st in j.run(f, st0, locale='en_US'):
        what = f'project with {name} variables, scenes {new!r}' + (', read twice' if again else '')
        if not j.raised('no-exception/project', k, v, st, what):
            continue
        w = j.anchor('languages', 'languageCode')
        first, last = v
        had = [y.group(1) for y in re.finditer(r'\[CDATA\[lang=(.*?)\]\]', ''.join(vars_ or ()))] or [y for y in re.findall(r'<Title>lang=(.*?)<', ''.join(vars_ or ()))]
        if 'sv' in ''.join(vars_ or ()):
            j.ob('read/locale', first[:2] == ('sv', 'SE'), f'{what}: the codes {first[:2]} are read', w)
        j.ob('read/languages', sorted(first[2] or []) == sorted(had), f'{what}: the languages {first[2]} are read instead of {had}', w)
        tree = parse(joint(st.fs['/p/x.yw7'][1], 0, st.facts))
        pv = [{e.tag: e.text for e in y} for y in tree.iter('PROJECTVAR')]
        ts = [y.get('Title') or '' for y in pv]
        for lng in dict.fromkeys(want + had):
            j.ob('recorded/opening', ts.count(f'lang={lng}') == 1, f'{what}: {ts.count("lang=" + lng)} variables lang={lng}', w)
            j.ob('recorded/closing', ts.count(f'/lang={lng}') == 1, f'{what}: {ts.count("/lang=" + lng)} variables /lang={lng}', w)
        extra = [t for t in ts if 'lang=' in t and t.lstrip('/')[5:] not in want + had]
        j.ob('recorded/extra', not extra, f'{what}: variables {extra}', w)
        for t in ('Language', 'Country'):
            j.ob('recorded/locale', ts.count(t) <= 1 and (ts.count(t) == 1 or not (want + had)), f'{what}: {ts.count(t)} variables {t}', w)
        ids = [y.get('ID') for y in pv]
        j.ob('recorded/ids', len(ids) == len(set(ids)) and None not in ids, f'{what}: variable IDs {ids}', w)
        j.ob('reread/languages', sorted(last[2] or []) == sorted(dict.fromkeys(want + had)), f'{what}: the languages {last[2]} are read back', w)
        if 'sv' in ''.join(vars_ or ()):
            j.ob('reread/locale', last[:2] == ('sv', 'SE'), f'{what}: the codes {last[:2]} are read back', w)
        for y in vars_ or ():
            m = [z for z in pv if z.get('ID') == parse(joint(y, 0, st.facts)).findtext('ID')]
            src = {e.tag: e.text for e in parse(joint(y, 0, st.facts))}
            if src.get('Title') in ('Language', 'Country'):
                continue
            ok = len(m) == 1 and all((m[0].get(a) or '') == (b or '') for a, b in src.items())
            j.ob('kept/variable', ok, f'{what}: the variable {src} becomes {m}', w)


def jobs30(tier):
    out = []
    cases = []
    for n in (1, 2):
        for s in itertools.product(PIECES, repeat=n):
            cases.append(([' '.join(s)], None))
            cases.append((list(s), None))
    for s in itertools.product(PIECES[:6], repeat=2):
        for known in ([], ['de-DE'], ['sv-SE', 'en-AU']):
            cases.append(([s[0], None, s[1]], known))
    cases += [([None], None), ([], None), ([''], ['de-DE'])]
    if tier == 'thorough':
        cases += [([' '.join(s)], None) for s in itertools.product(PIECES, repeat=3)]
    out += [Job(f'find{i // 200}', p30_find, (cases[i:i + 200],)) for i in range(0, len(cases), 200)]
    out.append(Job('locale', p30_locale))
    for name in FORMATTED:
        for i, c in enumerate(LTEXTS):
            for n, known in enumerate((None, [], ['de-DE'], ['sv-SE', 'fr-FR'])):
                out.append(Job(f'{name}/{i}/{n}', p30_export, (name, c, known)))
    for name in documents():
        out.append(Job(f'default/{name}', p30_overall, (name,)))
    for name in VARS:
        for i, new in enumerate((['[lang=de-DE]x[/lang=de-DE]', 'y', '[lang=fr-FR]z[/lang=fr-FR] [lang=de-DE]x[/lang=de-DE]'], ['x', 'y', 'z'],
                                 ['[lang=en-AU]x\ny[/lang=en-AU]', '', 'z'])):
            out.append(Job(f'project/{name}/{i}', p30_project, (name, new)))
            out.append(Job(f'project/{name}/{i}/again', p30_project, (name, new, True)))
    return out


P30 = dict(
    rule='Abstract interpretation of the determination of languages for all arrangements of language tags and system locales; of the writers of formatted '
         'documents for all arrangements of passages: each word is inside of a span of its language, each language has one style with its codes, no tags are left '
         'as text, whatever languages the project records; of all writers: the default language is that of the project; of reading, writing and reading projects '
         'with all kinds of project variables.',
    assumptions=['models in vlib/models.py'],
    jobs=jobs30)
