"""P01-P09, P20, P33: reading and writing project files."""
import ast
import itertools
import re
import xml.etree.ElementTree as HET

from vlib import holes as H
from vlib.check import Job
from vlib.scen import *
from .build import *

PATH = '/p/x.yw7'


def write_new(d, p='a', kind='text'):
    n = fill_novel(d, d.new('Novel'), p, kind)
    y = d.new('Yw7File', PATH)
    d.set(y, 'novel', n)
    return y, n


# ------------------------------------------------------------------------------- P01
def p01_new(j):
    def f(d):
        y, n = write_new(d)
        want = snapshot(d, n)
        d.call(y, 'write')
        y2, n2 = read_project(d)
        return want, snapshot(d, n2)
    for k, v, st in j.run(f):
        if j.raised('no-exception/new', k, v, st, 'saving and reading a new project'):
            compare(j, 'new-file', v[1], v[0], 'after saving a new project and reading it', st.facts, names=NAMES)


def p01_read(j, foreign=False):
    """The elements of a project file as yWriter writes it end up in their attributes."""
    st0 = put_file(j, {PATH: project_xml('a', foreign=foreign)})

    def f(d):
        n = fill_novel(d, d.new('Novel'), 'a')
        want = snapshot(d, n)
        y2, n2 = read_project(d)
        return want, snapshot(d, n2)
    for k, v, st in j.run(f, st0):
        if j.raised('no-exception/read', k, v, st, 'reading a project'):
            compare(j, 'read', v[1], v[0], 'after reading a project file', st.facts, names=NAMES)


def p01_times(j):
    """Scene starts and durations as yWriter may have stored them: without leading zeros, without seconds, in parts."""
    cases = [(X('Hour', str(h)) + X('Minute', str(m)), {'date': None, 'time': f'{h:02}:{m:02}:00', 'day': None})
             for h, m in ((0, 0), (5, 7), (9, 59), (10, 3), (23, 0), (7, 40), (0, 9))]
    cases += [(X('Minute', '7') + X('Hour', '21') + X('Day', d), {'date': None, 'time': '21:07:00', 'day': d}) for d in ('1', '17', '365', '-2')]
    cases += [(X('Hour', '5'), {'date': None, 'time': '05:00:00', 'day': None}), (X('Minute', '8'), {'date': None, 'time': '00:08:00', 'day': None}),
              (X('Day', '3') + X('Hour', '14'), {'date': None, 'time': '14:00:00', 'day': '3'}), (X('Day', '4'), {'date': None, 'time': None, 'day': '4'}),
              ('', {'date': None, 'time': None, 'day': None})]
    cases += [(X('SpecificDateTime', f'{d} {t}') + X('SpecificDateMode', '-1'), {'date': d, 'time': (t + ':00')[:8], 'day': None})
              for d in ('2020-03-04', '1066-12-31') for t in ('05:06:07', '05:06', '23:59:59', '00:00:00', '00:00', '10:00')]
    sx = ''
    for i, (x, w) in enumerate(cases):
        sx += E('SCENE', X('ID', str(i + 1)), X('Title', f't{i}'), X('Status', '1'), x, X('LastsDays', str(i)), X('LastsHours', str(i + 1)),
                X('LastsMinutes', str(i + 2)))
    st0 = put_file(j, {PATH: project_xml('a', 'word', scenes=sx, chapters=chapter_xml('a', '21', [str(i + 1) for i in range(len(cases))], kind='word'))})

    def f(d):
        y, n = read_project(d)
        first = snapshot(d, n)
        d.call(y, 'write')
        y, n = read_project(d)
        return first, snapshot(d, n)
    for k, v, st in j.run(f, st0):
        if not j.raised('no-exception/times', k, v, st, 'reading scene starts'):
            continue
        for part, what in zip(v, ('read', 'read, saved and read again')):
            for i, (x, w) in enumerate(cases):
                w = {**w, 'lastsDays': str(i), 'lastsHours': str(i + 1), 'lastsMinutes': str(i + 2)}
                compare(j, 'times', {('scenes', '', a): part['scenes', str(i + 1), a] for a in w}, {('scenes', '', a): b for a, b in w.items()},
                        f'scene start stored as {x or "nothing"}, {what}', names=NAMES)


def p01_keep(j):
    """Reading and saving without changes."""
    st0 = put_file(j, {PATH: project_xml('a')})

    def f(d):
        y, n = read_project(d)
        want = snapshot(d, n)
        d.call(y, 'write')
        y2, n2 = read_project(d)
        return want, snapshot(d, n2)
    for k, v, st in j.run(f, st0):
        if j.raised('no-exception/keep', k, v, st, 'reading, saving and reading a project'):
            compare(j, 'unchanged', v[1], v[0], 'after saving an existing project without changes', st.facts, names=NAMES)


def p01_update(j, perm=0):
    """All attributes of an existing project get new values; the elements' dates change their form."""
    st0 = put_file(j, {PATH: project_xml('a')})

    def f(d):
        y, n = read_project(d)
        for attr in ('locations', 'items', 'characters', 'projectNotes', 'scenes', 'chapters'):
            d.set(n, attr, d.dct({}))
        fill_novel(d, n, 'b', dates=(1, 0, 1) if perm == 0 else (0, 1, 0))
        if perm == 1:
            # another order of everything
            for o in ('srtChapters', 'srtLocations', 'srtItems', 'srtCharacters', 'srtPrjNotes'):
                d.set(n, o, d.lst(list(reversed(d.a(n, o)))))
            d.set(d.it.getitem(d.get(n, 'chapters'), '21'), 'srtScenes', d.lst(['12', '11']))
            d.set(d.it.getitem(d.get(n, 'chapters'), '22'), 'srtScenes', d.lst(['13']))
            s = d.it.getitem(d.get(n, 'scenes'), '12')
            for a, l in (('characters', ['61', '62']), ('locations', ['41']), ('items', ['51', '52'])):
                d.set(s, a, d.lst(l))
            d.set(n, 'languages', d.lst(['fr-FR', 'en-AU', 'it-IT']))
            d.set(n, 'languageCode', 'en')
            d.set(n, 'countryCode', 'GB')
            d.set(n, 'wordTarget', 3)
            d.set(n, 'wordCountStart', 1)
        want = snapshot(d, n)
        d.call(y, 'write')
        y2, n2 = read_project(d)
        return want, snapshot(d, n2)
    for k, v, st in j.run(f, st0):
        if j.raised('no-exception/update', k, v, st, 'updating a project'):
            compare(j, 'update', v[1], v[0], 'after giving all attributes of an existing project new values', st.facts,
                    skip=('languages',), names=NAMES)
            if perm == 1:
                j.eq('update/novel.languages', sorted(v[1]['novel', '', 'languages']), ['en-AU', 'fr-FR', 'it-IT'],
                     'languages of the updated project', j.anchor('languages'))


def p01_partial(j):
    """A new element beside existing ones, with few attributes."""
    st0 = put_file(j, {PATH: project_xml('a')})

    def f(d):
        y, n = read_project(d)
        want0 = snapshot(d, n)
        s = d.new('Scene')
        d.set(s, 'title', T('new.title'))
        d.set(s, 'sceneContent', T('new.text'))
        d.put(d.get(n, 'scenes'), '14', s)
        c = d.new('Chapter')
        d.set(c, 'title', T('newch.title', 'word'))
        d.set(c, 'srtScenes', d.lst(['14']))
        d.put(d.get(n, 'chapters'), '23', c)
        d.set(n, 'srtChapters', d.lst(['22', '23', '21']))
        for attr, order, cls, pre in WORLD_LISTS:
            e = d.new(cls)
            d.set(e, 'title', T(f'new.{attr}.title'))
            d.put(d.get(n, attr), pre + '3', e)
            d.set(n, order, d.lst([pre + '1', pre + '3', pre + '2']))
        d.call(y, 'write')
        y2, n2 = read_project(d)
        return want0, snapshot(d, n2)
    for k, v, st in j.run(f, st0):
        if not j.raised('no-exception/add', k, v, st, 'adding elements to a project'):
            continue
        want, got = v
        want = dict(want)
        want['novel', '', 'srtChapters'] = ['22', '23', '21']
        want['scenes', '14', 'title'] = T('new.title')
        want['scenes', '14', 'sceneContent'] = T('new.text')
        want['chapters', '23', 'title'] = T('newch.title', 'word')
        want['chapters', '23', 'srtScenes'] = ['14']
        for attr, order, cls, pre in WORLD_LISTS:
            want['novel', '', order] = [pre + '1', pre + '3', pre + '2']
            want[attr, pre + '3', 'title'] = T(f'new.{attr}.title')
        new = {k for k in got if k[1] in ('14', '23', '43', '53', '63')} - set(want)
        for k2 in sorted(new):
            # nothing leaks into the attributes of new elements
            g = got[k2]
            if g not in (None, '', [], False, 0, '0') and k2[2] not in ('field1', 'field2', 'field3', 'field4', 'status'):
                j.ob(f'new-element/{k2[0]}.{k2[2]}', False, f'a new element of {k2[0]} takes over {k2[2]} = {show(g)}',
                     j.anchor(k2[2]))
            else:
                j.ob(f'new-element/{k2[0]}.{k2[2]}', True)
        compare(j, 'add', {k: g for k, g in got.items() if k not in new}, want, 'after adding elements to an existing project',
                st.facts, names=NAMES)


SINGLE_VALUES = {'status': 3, 'scnMode': 2, 'isMajor': True, 'lastsDays': '4', 'lastsHours': '5', 'lastsMinutes': '6', 'date': '2020-03-04',
                 'time': '05:06:07', 'day': '17', 'wordTarget': 4711, 'wordCountStart': 815, 'characters': ['61'], 'locations': ['41'],
                 'items': ['51']}
CLASSES = {'scenes': 'Scene', 'chapters': 'Chapter', 'locations': 'WorldElement', 'items': 'WorldElement', 'characters': 'Character',
           'projectNotes': 'BasicElement'}


def single_attrs(kind):
    """[[attributes set together]]; the date needs the time and vice versa."""
    out = []
    for a in SNAP[kind] + CODES.get(kind, ()) + KW.get(kind, ()):
        if a in ('srtScenes', 'languages', 'languageCode', 'countryCode') or a.startswith('srt'):
            continue
        out.append([a])
    if kind == 'scenes':
        out = [x for x in out if x[0] not in ('date', 'time', 'day')] + [['date', 'time'], ['date'], ['time'], ['day', 'time'], ['day']]
    return out


def p01_single(j, kind, but, update):
    """Elements with a single attribute set, or with all but one, in a new file or as new values in a file with empty elements.

    Only what was set is compared: it has to be read back unchanged.
    """
    attrs = single_attrs(kind)
    full = [a for x in attrs for a in x if a not in ('day',)]
    want = {}

    def value(a, i):
        if a == 'tags':
            return [T(f'{kind}{i}.tag', 'tag')]
        if a in SINGLE_VALUES:
            return SINGLE_VALUES[a]
        if a in ('chType', 'scType', 'chLevel'):
            return 1
        if a in FLAG:
            return True
        return text(f'{kind}{i}.{a}', a, 'word')

    def f(d):
        y = d.new('Yw7File', PATH)
        n = d.new('Novel')
        d.set(y, 'novel', n)
        for attr, order, cls, pre in WORLD_LISTS:
            d.put(d.get(n, attr), pre + '1', d.new(cls))
            d.set(n, order, d.lst([pre + '1']))
        ids = [str(200 + i) for i in range(len(attrs))]
        for i, sid in enumerate(ids):
            d.put(d.get(n, kind), sid, d.new(CLASSES[kind]))
        if kind != 'scenes':
            order = {'chapters': 'srtChapters', 'projectNotes': 'srtPrjNotes', 'locations': 'srtLocations', 'items': 'srtItems',
                     'characters': 'srtCharacters'}[kind]
            d.set(n, order, d.lst(d.a(n, order) + ids))
        else:
            d.put(d.get(n, 'chapters'), '1', d.new('Chapter'))
            d.set(n, 'srtChapters', d.lst(['1']))
            d.set(d.it.getitem(d.get(n, 'chapters'), '1'), 'srtScenes', d.lst(ids))
        if update:
            d.call(y, 'write')
            y, n = read_project(d)
        for i, sid in enumerate(ids):
            e = d.it.getitem(d.get(n, kind), sid)
            for a in ([a for a in full if a not in attrs[i]] if but else attrs[i]):
                v = value(a, i)
                want[kind, sid, a] = v
                if a.startswith('Field_'):
                    d.put(d.get(e, 'kwVar'), a, v)
                else:
                    d.set(e, a, d.lst(v) if isinstance(v, list) else v)
        d.call(y, 'write')
        y2, n2 = read_project(d)
        return snapshot(d, n2, True)
    for k, v, st in j.run(f):
        what = f'{kind} with {"all attributes but one" if but else "a single attribute"}'
        if not j.raised('no-exception/single', k, v, st, 'saving ' + what):
            continue
        for key, w in want.items():
            g = v.get(key, MISSING)
            a = key[2]
            if a == 'time' and w == SINGLE_VALUES['time'] and g == '05:06:00' and (kind, key[1], 'date') not in want:
                g = w
                # a time without a date has no seconds
            if a == 'date' and (kind, key[1], 'time') not in want:
                continue
                # a date goes with a time
            ok = g is not MISSING and same(g, w, st.facts)
            j.ob(f'single/{kind}.{a}', ok, '' if ok else f'{what} ({", ".join(attrs[int(key[1]) - 200])}): {a} is '
                 f'{show(g) if g is not MISSING else "missing"} instead of {show(w)}', '' if ok else j.anchor(a, *NAMES.get(a, ())))


def p01_single_novel(j):
    """Projects of which a single attribute is set."""
    for a in NOVEL_TEXTS + ('wordTarget', 'wordCountStart'):
        for but in (False, True):
            want = {}

            def f(d):
                y = d.new('Yw7File', PATH)
                n = d.new('Novel')
                d.set(y, 'novel', n)
                for b in NOVEL_TEXTS + ('wordTarget', 'wordCountStart'):
                    if (b == a) != but:
                        w = want['novel', '', b] = SINGLE_VALUES.get(b) or text(f'novel.{b}', b, 'word')
                        d.set(n, b, w)
                d.call(y, 'write')
                y2, n2 = read_project(d)
                return snapshot(d, n2)
            for k, v, st in j.run(f):
                what = f'a project with {"everything but" if but else "only"} {a}'
                if j.raised('no-exception/single', k, v, st, 'saving ' + what):
                    compare(j, 'single', {x: v.get(x) for x in want}, want, what, st.facts, names=NAMES)


DATE_FORMS = [
    {'date': '2020-03-04', 'time': '05:06:07', 'day': None},
    {'date': '1999-12-31', 'time': '23:59:00', 'day': None},
    {'date': None, 'time': '11:12:00', 'day': '17'},
    {'date': None, 'time': None, 'day': '0'},
    {'date': None, 'time': '00:01:00', 'day': None},
    {'date': None, 'time': '09:08:00', 'day': '-3'},
    {'date': None, 'time': None, 'day': None},
]


def p01_dates(j):
    """All transitions between the forms of a scene's start and duration, in an existing project."""
    pairs = [(a, b) for a in range(len(DATE_FORMS)) for b in range(len(DATE_FORMS) - 1)]

    def f(d):
        y = d.new('Yw7File', PATH)
        n = d.new('Novel')
        d.set(y, 'novel', n)
        for i, (a, b) in enumerate(pairs):
            s = d.new('Scene')
            for k, v in DATE_FORMS[a].items():
                d.set(s, k, v)
            if a % 2:
                d.set(s, 'lastsDays', '1')
                d.set(s, 'lastsHours', '2')
                d.set(s, 'lastsMinutes', '3')
            d.put(d.get(n, 'scenes'), str(i + 1), s)
        d.call(y, 'write')
        y, n = read_project(d)
        first = snapshot(d, n)
        for i, (a, b) in enumerate(pairs):
            s = d.it.getitem(d.get(n, 'scenes'), str(i + 1))
            for k, v in DATE_FORMS[b].items():
                d.set(s, k, v)
            d.set(s, 'lastsDays', str(4 + i))
            d.set(s, 'lastsHours', str(5 + i))
            d.set(s, 'lastsMinutes', str(6 + i))
        d.call(y, 'write')
        y2, n2 = read_project(d)
        return first, snapshot(d, n2)
    keys = ('date', 'time', 'day', 'lastsDays', 'lastsHours', 'lastsMinutes')
    for k, v, st in j.run(f):
        if not j.raised('no-exception/dates', k, v, st, 'saving dates'):
            continue
        for i, (a, b) in enumerate(pairs):
            w1 = {**DATE_FORMS[a], 'lastsDays': '1' if a % 2 else None, 'lastsHours': '2' if a % 2 else None,
                  'lastsMinutes': '3' if a % 2 else None}
            compare(j, 'dates-new', {('scenes', '', x): v[0]['scenes', str(i + 1), x] for x in keys},
                    {('scenes', '', x): w1[x] for x in keys}, f'scene start {DATE_FORMS[a]} in a new project', names=NAMES)
            w2 = {**DATE_FORMS[b], 'lastsDays': str(4 + i), 'lastsHours': str(5 + i), 'lastsMinutes': str(6 + i)}
            if DATE_FORMS[a]['day'] is not None and b == 4:
                w2['day'] = DATE_FORMS[a]['day']
                # an unset day is kept
            if DATE_FORMS[a]['date'] is None and DATE_FORMS[a]['time'] is not None and b == 3:
                w2['time'] = DATE_FORMS[a]['time']
                # an unset time is kept
            compare(j, 'dates-change', {('scenes', '', x): v[1]['scenes', str(i + 1), x] for x in keys},
                    {('scenes', '', x): w2[x] for x in keys}, f'scene start changed from {DATE_FORMS[a]} to {DATE_FORMS[b]}',
                    names=NAMES)


# ------------------------------------------------------------------------------- one change among many elements
FORMS = (DATE_FORMS[0], DATE_FORMS[2], DATE_FORMS[6])
DATED = ('date', 'time', 'day')


def scene_changes():
    """[(name, {attribute: value})]: each a single change of a scene."""
    out = []
    for a in SCENE_TEXTS:
        out += [(f'{a} replaced', {a: T(f'new.{a}', 'word')}), (f'{a} cleared', {a: ''})]
    out += [('tags replaced', {'tags': [T('new.tag', 'tag')]}), ('tags cleared', {'tags': []})]
    for a in SCENE_DAYS:
        out += [(f'{a} replaced', {a: '77'}), (f'{a} cleared', {a: ''})]
    out += [('date, time and day replaced', f) for f in DATE_FORMS[:-1]]
    out += [('date and time cleared', {'date': '', 'time': ''}), ('day and time cleared', {'date': None, 'day': '', 'time': ''})]
    out += [(f'status {i}', {'status': i}) for i in (1, 5)]
    out += [('arcs replaced', {'scnArcs': T('new.arcs', 'word')}), ('arcs cleared', {'scnArcs': ''})]
    out += [(f'mode {i}', {'scnMode': i}) for i in (0, 4)]
    for a in ('characters', 'locations', 'items'):
        x = {'characters': '61', 'locations': '41', 'items': '51'}[a]
        out += [(f'{a} replaced', {a: [x]}), (f'{a} cleared', {a: []})]
    out += [(f'type {TYPES[i]}', {'scType': i}) for i in range(4)]
    out += [(f'{a} {x}', {a: x}) for a in SC_FLAGS for x in (True, False)]
    return out


def chapter_changes():
    out = []
    for a in CHAPTER_TEXTS:
        out += [(f'{a} replaced', {a: T(f'new.{a}', 'word')}), (f'{a} cleared', {a: ''})]
    out += [(f'type {TYPES[i]}', {'chType': i}) for i in range(4)]
    out += [(f'level {i}', {'chLevel': i}) for i in (0, 1)]
    out += [(f'{a} {x}', {a: x}) for a in CH_FLAGS for x in (True, False)]
    out += [('scenes removed', {'srtScenes': []})]
    return out


def one_change(j, variant, foreign, between=False):
    """Many scenes and chapters of a kind, in each of them a single thing is changed.

    variant: 0 - all attributes set, plain; 1 - with flags and a type; 2 - only a title
    between: unknown elements before and behind each known one, not only at the end
    """
    sch, cch = scene_changes(), chapter_changes()
    sids = [str(100 + i) for i in range(len(sch))]
    cids = [str(20 + i) for i in range(len(cch))]

    def build(d):
        y, n = write_new(d, 'a', 'word')
        for i, sid in enumerate(sids):
            s = d.new('Scene')
            if variant == 2:
                d.set(s, 'title', T(f'a.s{sid}.title', 'word'))
            else:
                fill_scene(d, s, 'a', 1, 0, 'word')
                for k, v in FORMS[variant].items():
                    d.set(s, k, v)
            d.set(s, 'scType', (0, 1 + i % 3, 0)[variant])
            for a in SC_FLAGS:
                d.set(s, a, variant == 1)
            d.put(d.get(n, 'scenes'), sid, s)
        ids = d.a(n, 'srtChapters')
        for i, cid in enumerate(cids):
            c = d.new('Chapter')
            for a in CHAPTER_TEXTS if variant != 2 else ():
                d.set(c, a, T(f'a.c{cid}.{a}', 'word'))
            set_chapter(d, c, ((0, 0, (False,) * 3), (1 + i % 3, 1, (True,) * 3), (0, 0, (False,) * 3))[variant])
            d.set(c, 'srtScenes', d.lst([]))
            d.put(d.get(n, 'chapters'), cid, c)
        c = d.new('Chapter')
        set_chapter(d, c, (0, 0, (False,) * 3))
        d.set(c, 'srtScenes', d.lst(sids))
        d.put(d.get(n, 'chapters'), '99', c)
        d.set(n, 'srtChapters', d.lst(ids + cids + ['99']))
        d.call(y, 'write')
        return d.it.st.fs[PATH][1]

    placed = {}

    def inject(t):
        """Unknown elements in each scene, chapter and field list."""
        import re

        def one(m):
            kind, body = m.group(1), m.group(2)
            i = re.search('<ID>(.*?)</ID>', body).group(1)
            x = f'<Field_Foreign>{kind}{i}</Field_Foreign>'
            if '</Fields>' in body:
                body = body.replace('</Fields>', x + '</Fields>')
            elif '<Fields' in body:
                body = re.sub('<Fields *>(?!.*</Fields>)|<Fields */>', f'<Fields>{x}</Fields>', body, flags=re.S)
            else:
                body += f'<Fields>{x}</Fields>'
            if between:
                count = itertools.count(1)

                def before(n, tag):
                    return lambda m: f'{m.group(1)}<{tag}>{kind}{i}.{next(count)}</{tag}>{m.group(0)}'
                body = re.sub('(\n      )<(?=[A-Z])', before(1, 'Foreign'), body)
                body = re.sub('(\n        )<(?=Field_)', before(2, 'Field_Foreign'), body)
                placed[kind, i] = next(count) - 1
            return f'<{kind}>{body}<Foreign>{kind}{i}</Foreign></{kind}>'
        return re.sub(r'<(SCENE|CHAPTER)>(.*?)</\1>', one, t, flags=re.S)

    def f(d):
        t = build(d)
        if foreign or between:
            t = inject(t)
        d.it.st.fs = {**d.it.st.fs, PATH: ('text', t, 'utf-8', True)}
        y, n = read_project(d)
        before = snapshot(d, n, True)
        for ids, changes, kind in ((sids, sch, 'scenes'), (cids, cch, 'chapters')):
            for i, (_, ch) in zip(ids, changes):
                e = d.it.getitem(d.get(n, kind), i)
                for a, v in ch.items():
                    d.set(e, a, d.lst(v) if isinstance(v, list) else v)
        d.call(y, 'write')
        y2, n2 = read_project(d)
        return before, snapshot(d, n2, True)
    for k, v, st in j.run(f):
        if not j.raised('no-exception/one-change', k, v, st, 'saving a project with single changes'):
            continue
        before, after = v
        done = {('scenes', i): c for i, c in zip(sids, sch)} | {('chapters', i): c for i, c in zip(cids, cch)}
        if not foreign or between:
            groups = {}
            for key, w in before.items():
                name, ch = done.get(key[:2], ('', {}))
                if key[2] in ch or key[2] in DATED and any(a in ch for a in DATED):
                    continue
                groups.setdefault(name, {})[key] = w
            for name, want in groups.items():
                compare(j, 'others', {x: after[x] for x in want if x in after}, want,
                        f'after saving with {name or "changes of other elements"}', st.facts, names=NAMES)
            for key, (name, ch) in done.items():
                for a, w in ch.items():
                    if a in DATED:
                        continue
                    g = after.get(key + (a,), MISSING)
                    ok = g is not MISSING and (not g and not w or same(g, w, st.facts))
                    j.ob(f'change/{key[0]}.{a}', ok, '' if ok else f'{key[0]} {key[1]} with {name}: {a} is {show(g) if g is not MISSING else "missing"} '
                         'after reopening', '' if ok else j.anchor(a, *NAMES.get(a, ())))
        if not foreign:
            continue
        root = parse_file(joint(st.fs[PATH][1], 0, st.facts))
        for kind, tag in (('scenes', 'SCENE'), ('chapters', 'CHAPTER')):
            have = {e.findtext('ID'): e for e in root.iter(tag)}
            for (kd, i), (name, _) in done.items():
                if kd != kind:
                    continue
                e = have.get(i)
                for path, what in (('Foreign', 'element'), ('Fields/Field_Foreign', 'custom field')):
                    got = [x.text for x in e.findall(path)] if e is not None else []
                    ok = got.count(tag + i) == 1 and (between or len(got) == 1)
                    if between and ok and path == 'Foreign':
                        got += [x.text for p in ('Fields/Field_Foreign', 'Fields/Foreign') for x in e.findall(p)]
                        want = [f'{tag}{i}.{x}' for x in range(1, placed[tag, i] + 1)] + [tag + i] * 2
                        ok = sorted(got) == sorted(want)
                    j.ob(f'kept-change/{tag}.{path}', ok, '' if ok else f'a {tag} with {name}: an unknown {what} is lost or changed' + (f': {sorted(set(want) ^ set(got))[:4]}' if between and path == 'Foreign' else ''),
                         '' if ok else j.anchor('Fields', 'Field_SceneType', mods=('yw7_file',)))


def removed(j, foreign):
    """Elements are removed from the novel: everything else stays."""
    st0 = put_file(j, {PATH: project_xml('a', 'word', foreign=True)})
    gone = {('scenes', '11'), ('chapters', '22'), ('characters', '61'), ('locations', '42'), ('items', '51'), ('projectNotes', '72')}

    def f(d):
        y, n = read_project(d)
        for kind, i in gone:
            r = d.get(n, kind)
            d.call(r, 'pop', i)
        for a, x in (('srtChapters', '22'), ('srtCharacters', '61'), ('srtLocations', '42'), ('srtItems', '51'), ('srtPrjNotes', '72')):
            d.call(d.get(n, a), 'remove', x)
        for i in ('12', '13'):
            for a, x in (('characters', '61'), ('locations', '42'), ('items', '51')):
                d.call(d.get(d.it.getitem(d.get(n, 'scenes'), i), a), 'remove', x)
        d.call(d.get(d.it.getitem(d.get(n, 'chapters'), '21'), 'srtScenes'), 'remove', '11')
        want = snapshot(d, n, True)
        d.call(y, 'write')
        y2, n2 = read_project(d)
        return want, snapshot(d, n2, True)
    for k, v, st in j.run(f, st0):
        if not j.raised('no-exception/removed', k, v, st, 'saving a project with elements removed'):
            continue
        compare(j, 'removed', v[1], v[0], 'after saving with other elements removed', st.facts, names=NAMES)


P01 = dict(
    rule='Abstract interpretation of Yw7File.write and read over an abstract novel in which every attribute holds an unknown text '
         'with its own provenance label. Obligation per attribute and scenario (new file, file as yWriter writes it, update with '
         'all values replaced, additional and removed elements, all transitions between forms of scene dates, each single change of a '
         'scene or chapter among many, all other attributes being kept, scene starts stored without leading zeros or seconds, elements with a single attribute set or all but one): the attribute read back is '
         'the identity transformation of the same label.',
    assumptions=['texts consist of characters XML can represent and do not end with a line break; list elements contain no separator',
                 'models of ElementTree, re, str and the file system in vlib/models.py'],
    jobs=lambda tier: [Job('new', p01_new), Job('read', p01_read), Job('keep', p01_keep), Job('update', p01_update, (0,)),
                       Job('reorder', p01_update, (1,)), Job('add', p01_partial), Job('dates', p01_dates), Job('times', p01_times), Job('removed', removed, (False,))]
         + [Job(f'one-change-{v}{"-between" if b else ""}', one_change, (v, False, b)) for v in range(3) for b in (False, True)]
         + [Job(f'single-{k}-{b:d}{u:d}', p01_single, (k, b, u)) for k in CLASSES for b in (False, True) for u in (False, True)]
         + [Job('single-novel', p01_single_novel)])


# ------------------------------------------------------------------------------- P02
def set_chapter(d, c, code):
    t, l, (a, b, e) = code
    d.set(c, 'chType', t)
    d.set(c, 'chLevel', l)
    d.set(c, 'suppressChapterTitle', a)
    d.set(c, 'isTrash', b)
    d.set(c, 'suppressChapterBreak', e)


def chapter_code(s, i):
    g = lambda a: s['chapters', i, a]
    return g('chType'), g('chLevel'), tuple(g(a) for a in CH_FLAGS)


BITS3 = list(itertools.product((False, True), repeat=3))
BITS4 = list(itertools.product((False, True), repeat=4))
TYPES = ('normal', 'notes', 'todo', 'unused')


def p02_chapters(j, pairs):
    def f(d):
        y = d.new('Yw7File', PATH)
        n = d.new('Novel')
        d.set(y, 'novel', n)
        ids = [str(i + 1) for i in range(len(pairs))]
        for i, (a, b) in zip(ids, pairs):
            c = d.new('Chapter')
            d.set(c, 'title', 'Title')
            set_chapter(d, c, a)
            d.put(d.get(n, 'chapters'), i, c)
        d.set(n, 'srtChapters', d.lst(ids))
        d.call(y, 'write')
        y, n = read_project(d)
        first = snapshot(d, n, True, False)
        for i, (a, b) in zip(ids, pairs):
            set_chapter(d, d.it.getitem(d.get(n, 'chapters'), i), b)
        d.call(y, 'write')
        y2, n2 = read_project(d)
        return first, snapshot(d, n2, True, False)

    def say(c):
        return f'{TYPES[c[0]]} {("chapter", "part")[c[1]]} with ' + (', '.join(a for a, x in zip(CH_FLAGS, c[2]) if x) or 'no flag')
    for k, v, st in j.run(f):
        if not j.raised('no-exception/chapters', k, v, st, 'saving chapters'):
            continue
        for i, (a, b) in enumerate(pairs):
            g1, g2 = chapter_code(v[0], str(i + 1)), chapter_code(v[1], str(i + 1))
            for got, want, what in ((g1, a, 'new'), (g2, b, 'changed')):
                for x, name in enumerate(('chType', 'chLevel', CH_FLAGS)):
                    for nm, gg, ww in ((name, got[x], want[x]),) if x < 2 else zip(name, got[x], want[x]):
                        j.ob(f'chapter-{what}/{nm}', gg == ww,
                             '' if gg == ww else f'a {say(want)}' + (f' that was {say(a)}' if what == 'changed' else '')
                             + f': {nm} is {gg} instead of {ww} after reopening', '' if gg == ww else j.anchor(nm, *NAMES[nm]))


def p02_scenes(j, pairs):
    """pairs of (type, flags, mode, status)"""
    def put(d, s, c):
        d.set(s, 'scType', c[0])
        for a, x in zip(SC_FLAGS, c[1]):
            d.set(s, a, x)
        d.set(s, 'scnMode', c[2])
        d.set(s, 'status', c[3])

    def code(s, i):
        return tuple(s['scenes', i, a] for a in ('scType',) + SC_FLAGS + ('scnMode', 'status'))

    def f(d):
        y = d.new('Yw7File', PATH)
        n = d.new('Novel')
        d.set(y, 'novel', n)
        ids = [str(i + 1) for i in range(len(pairs))]
        for i, (a, b) in zip(ids, pairs):
            s = d.new('Scene')
            put(d, s, a)
            d.put(d.get(n, 'scenes'), i, s)
        d.call(y, 'write')
        y, n = read_project(d)
        first = snapshot(d, n, True)
        for i, (a, b) in zip(ids, pairs):
            put(d, d.it.getitem(d.get(n, 'scenes'), i), b)
        d.call(y, 'write')
        y2, n2 = read_project(d)
        return first, snapshot(d, n2, True)
    names = ('scType',) + SC_FLAGS + ('scnMode', 'status')
    for k, v, st in j.run(f):
        if not j.raised('no-exception/scenes', k, v, st, 'saving scenes'):
            continue
        for i, (a, b) in enumerate(pairs):
            for got, want, what in ((code(v[0], str(i + 1)), a, 'new'), (code(v[1], str(i + 1)), b, 'changed')):
                want = (want[0],) + tuple(want[1]) + (want[2] or None, want[3])
                for nm, gg, ww in zip(names, got, want):
                    ok = gg == ww or nm == 'scnMode' and not gg and not ww
                    j.ob(f'scene-{what}/{nm}', ok,
                         '' if ok else f'scene with {dict(zip(names, want))}' + (f' that had {dict(zip(names, (a[0],) + tuple(a[1]) + a[2:]))}' if what == 'changed' else '')
                         + f': {nm} is {gg} instead of {ww} after reopening', '' if ok else j.anchor(nm, *NAMES[nm]))


def p02_major(j):
    def f(d):
        y = d.new('Yw7File', PATH)
        n = d.new('Novel')
        d.set(y, 'novel', n)
        for i, (a, b) in enumerate(itertools.product((False, True), repeat=2)):
            c = d.new('Character')
            d.set(c, 'isMajor', a)
            d.put(d.get(n, 'characters'), str(i), c)
        d.set(n, 'srtCharacters', d.lst(list('0123')))
        d.call(y, 'write')
        y, n = read_project(d)
        r1 = [bool(d.a(d.it.getitem(d.get(n, 'characters'), str(i)), 'isMajor')) for i in range(4)]
        for i, (a, b) in enumerate(itertools.product((False, True), repeat=2)):
            d.set(d.it.getitem(d.get(n, 'characters'), str(i)), 'isMajor', b)
        d.call(y, 'write')
        y, n = read_project(d)
        return r1, [bool(d.a(d.it.getitem(d.get(n, 'characters'), str(i)), 'isMajor')) for i in range(4)]
    for k, v, st in j.run(f):
        if j.raised('no-exception/major', k, v, st, 'saving characters'):
            j.eq('character-new/isMajor', v[0], [False, False, True, True], 'major flags of new characters', j.anchor('isMajor', 'Major'))
            j.eq('character-changed/isMajor', v[1], [False, True, False, True], 'major flags of changed characters',
                 j.anchor('isMajor', 'Major'))


CH_CODES = [(t, l) for t in range(4) for l in range(2)]


def p02_files(j):
    """The codes as yWriter 7 writes them."""
    chapters = [  # (xml, type, level, flags)
        (X('Type', '0') + X('ChapterType', '0'), '', 0, 0, (False, False, False)),
        (X('SectionStart', '-1') + X('Type', '0') + X('ChapterType', '0'), '', 0, 1, (False, False, False)),
        (X('Unused', '-1') + X('Type', '1') + X('ChapterType', '1'), '', 1, 0, (False, False, False)),
        (X('Unused', '-1') + X('Type', '1') + X('ChapterType', '2'), '', 2, 0, (False, False, False)),
        (X('Unused', '-1') + X('Type', '1') + X('ChapterType', '0'), '', 3, 0, (False, False, False)),
        ('', X('Field_SuppressChapterTitle', '1'), 0, 0, (True, False, False)),
        ('', X('Field_SuppressChapterTitle', '0'), 0, 0, (False, False, False)),
        ('', X('Field_IsTrash', '1'), 0, 0, (False, True, False)),
        ('', X('Field_SuppressChapterBreak', '1'), 0, 0, (False, False, True)),
        ('', X('Field_SuppressChapterBreak', '0') + X('Field_IsTrash', '0'), 0, 0, (False, False, False)),
        # before 7.0.7.2
        (X('Type', '0'), '', 0, 0, (False, False, False)),
        (X('Type', '1'), '', 1, 0, (False, False, False)),
        (X('Unused', '-1') + X('Type', '0'), '', 3, 0, (False, False, False)),
    ]
    scenes = [
        ('', '', 0, (False,) * 4),
        (X('Unused', '-1'), X('Field_SceneType', '1'), 1, (False,) * 4),
        (X('Unused', '-1'), X('Field_SceneType', '2'), 2, (False,) * 4),
        (X('Unused', '-1'), X('Field_SceneType', '0'), 3, (False,) * 4),
        (X('Unused', '-1'), '', 3, (False,) * 4),
        ('', X('Field_SceneType', '0'), 0, (False,) * 4),
        (X('ExportCondSpecific', ''), '', 0, (True, False, False, False)),
        (X('ExportCondSpecific', '') + X('ExportWhenRTF', '-1'), '', 0, (False,) * 4),
        (X('AppendToPrev', '-1'), '', 0, (False, True, False, False)),
        (X('ReactionScene', '-1'), '', 0, (False, False, True, False)),
        (X('SubPlot', '-1'), '', 0, (False, False, False, True)),
    ]
    sx = ''.join(scene_xml('a', i + 1, str(i + 1), 0, fields=f, codes=c, texts=False) for i, (c, f, *_) in enumerate(scenes))
    cx = ''.join(chapter_xml('a', str(i + 1), [], kind='word', codes=c, fields=f) for i, (c, f, *_) in enumerate(chapters))
    st0 = put_file(j, {PATH: project_xml('a', scenes=sx, chapters=cx)})

    def f(d):
        y, n = read_project(d)
        return snapshot(d, n, True, False)
    for k, v, st in j.run(f, st0):
        if not j.raised('no-exception/files', k, v, st, 'reading codes'):
            continue
        for i, (c, fx, t, l, fl) in enumerate(chapters):
            got = chapter_code(v, str(i + 1))
            ok = got == (t, l, fl)
            j.ob('read-chapter/codes', ok, f'a chapter stored as {c}{fx} is read as {got} instead of {(t, l, fl)}',
                 j.anchor('ChapterType', 'Unused', 'SectionStart', 'Field_IsTrash'))
        for i, (c, fx, t, fl) in enumerate(scenes):
            got = v['scenes', str(i + 1), 'scType'], tuple(v['scenes', str(i + 1), a] for a in SC_FLAGS)
            j.ob('read-scene/codes', got == (t, fl), f'a scene stored as {c}{fx} is read as {got} instead of {(t, fl)}',
                 j.anchor('scType', *SC_FLAGS))


def p02_jobs(tier):
    N = (False, False, False)
    tl = [(a, b) for a in CH_CODES for b in CH_CODES]
    fl = [(a, b) for a in BITS3 for b in BITS3]
    jobs = []
    # all transitions of type and level with rotating flags, all transitions of the flags with rotating types
    jobs.append(Job('chapters-types', p02_chapters,
                    ([((a[0], a[1], BITS3[i % 8]), (b[0], b[1], BITS3[(i * 3 + 5) % 8])) for i, (a, b) in enumerate(tl)],)))
    jobs.append(Job('chapters-flags', p02_chapters,
                    ([((*CH_CODES[i % 8], a), (*CH_CODES[(i * 5 + 3) % 8], b)) for i, (a, b) in enumerate(fl)],)))
    jobs.append(Job('chapters-plain', p02_chapters, ([((a[0], a[1], N), (b[0], b[1], N)) for a, b in tl],)))
    tm = [((t, m), (u, o)) for t in range(4) for m in range(4) for u in range(4) for o in range(4)]
    for part in range(4):
        ps = tm[part::4]
        jobs.append(Job(f'scenes-types-{part}', p02_scenes,
                        ([((a[0], BITS4[i % 16], a[1], i % 5 + 1), (b[0], BITS4[(i * 7 + 3) % 16], b[1], (i + i // 5) % 5 + 1))
                          for i, (a, b) in enumerate(ps)],)))
    ff = [(a, b) for a in BITS4 for b in BITS4]
    for part in range(4):
        jobs.append(Job(f'scenes-flags-{part}', p02_scenes,
                        ([((i % 4, a, 0, i % 5 + 1), ((i // 4) % 4, b, 0, i // 5 % 5 + 1)) for i, (a, b) in enumerate(ff[part::4])],)))
    if tier == 'thorough':
        al = [(t, l, f) for t, l in CH_CODES for f in BITS3]
        pairs = [(a, b) for a in al for b in al]
        for part in range(64):
            jobs.append(Job(f'chapters-all-{part}', p02_chapters, (pairs[part::64],)))
    jobs.append(Job('major', p02_major))
    jobs.append(Job('files', p02_files))
    return jobs


P02 = dict(
    rule='Abstract interpretation of write and read over enumerated codes: all transitions of chapter type and level (64), of the '
         'chapter flags (64), of scene type and mode (256), of the scene flags (256); thorough: all 4096 transitions of complete '
         'chapter codes. Obligation: each code read back equals the one set. The codes in files written by yWriter are read '
         'according to the tables in the source documentation.',
    assumptions=['chapter titles do not begin with @ (which means a suppressed title)', 'models in vlib/models.py'],
    jobs=p02_jobs)


# ------------------------------------------------------------------------------- P03
def parse_file(text):
    return HET.fromstring(text.encode('utf-8'))


def p03_scan(j, name, v, st, path=PATH):
    """The file is well-formed for all probes, and the parsed texts are those of the novel."""
    c = st.fs.get(path)
    if not (isinstance(c, tuple) and c[0] == 'text'):
        j.ob(f'{name}/file', False, f'no project file is written: {c}')
        return
    holes = set(H.holes_in(c[1]))
    for k in range(H.MAXP):
        try:
            s = joint(c[1], k, st.facts)
        except H.OpFail as e:
            j.ob(f'{name}/transform', False, f'a text of the file cannot be formed: {e}')
            continue
        except H.Opaque as e:
            j.ob(f'{name}/transform', None, str(e))
            return
        try:
            root = parse_file(s)
        except HET.ParseError as e:
            pos = e.position
            line = s.split('\n')[pos[0] - 1]
            j.ob(f'{name}/well-formed', False, f'the file is not well-formed XML: {e}: ...{line[max(0, pos[1] - 60):pos[1] + 40]!r}',
                 j.anchor('CDATA', '_postprocess_xml_file', 'unescape', '_CDATA_TAGS'))
            continue
        j.ob(f'{name}/well-formed', True)
        for (kind, i, a), want in v.items():
            elem = locate(root, kind, i, a)
            if elem is None:
                continue
            w = joint(want, k, st.facts)
            got = elem.text or ''
            j.ob(f'{name}/text-{elem.tag}', got == w, '' if got == w else
                 f'{kind} {i} {a}: the file says {got!r} instead of {w!r}', '' if got == w else j.anchor(elem.tag))
    j.ob(f'{name}/holes', bool(holes), 'the file contains none of the texts')


SECT = {'scenes': ('SCENES', 'SCENE'), 'chapters': ('CHAPTERS', 'CHAPTER'), 'locations': ('LOCATIONS', 'LOCATION'),
        'items': ('ITEMS', 'ITEM'), 'characters': ('CHARACTERS', 'CHARACTER'), 'projectNotes': ('PROJECTNOTES', 'PROJECTNOTE')}


def locate(root, kind, i, a):
    if kind == 'novel':
        t = TAG_NOVEL.get(a)
        return root.find(f'PROJECT/{t}') if t else None
    tab = TAG_SCENE if kind == 'scenes' else TAG_WORLD
    t = tab.get(a)
    if a.startswith('Field_'):
        t = f'Fields/{a}'
    if t is None or a in SCENE_DAYS:
        return None
    for e in root.findall('/'.join(SECT[kind])):
        if e.findtext('ID') == i:
            return e.find(t)
    return None


def texts_of(snap):
    return {k: v for k, v in snap.items() if isinstance(v, str) and H.has_holes(v)}


def p03_new(j):
    def f(d):
        y, n = write_new(d)
        v = snapshot(d, n)
        d.call(y, 'write')
        return texts_of(v)
    for k, v, st in j.run(f):
        if j.raised('no-exception/new', k, v, st, 'saving a new project'):
            p03_scan(j, 'new', v, st)


def p03_update(j):
    st0 = put_file(j, {PATH: project_xml('a', foreign=True)})

    def f(d):
        y, n = read_project(d)
        for attr in ('locations', 'items', 'characters', 'projectNotes', 'scenes', 'chapters'):
            d.set(n, attr, d.dct({}))
        fill_novel(d, n, 'b')
        v = snapshot(d, n)
        d.call(y, 'write')
        return texts_of(v)
    for k, v, st in j.run(f, st0):
        if j.raised('no-exception/update', k, v, st, 'updating a project'):
            p03_scan(j, 'update', v, st)


def p03_keep(j):
    """Existing texts, including those of elements the application does not know."""
    st0 = put_file(j, {PATH: project_xml('a', foreign=True)})

    def f(d):
        y, n = read_project(d)
        v = snapshot(d, n)
        d.call(y, 'write')
        return texts_of(v)
    for k, v, st in j.run(f, st0):
        if j.raised('no-exception/keep', k, v, st, 'saving an existing project'):
            p03_scan(j, 'keep', v, st)


def p03_twice(j):
    """Saving again does not escape once more; markup of the file format inside the texts."""
    hard = ['<Title>', '</Title>', '<![CDATA[', ']]>', '&lt;Desc&gt;', '<SceneContent>x</SceneContent>', '&amp;amp;', '<CHAPTERS />',
            '[CDATA[ ', 'a\n]]b', 'a\n]]>b', '<![CDATA[ \nx', '&#10;', ']]&gt;', '"&quot;\'', '</AKA>', '<b>&</b>',
            '<?xml version="1.0"?>', '<!-- x -->', 'ä€😀']

    def f(d):
        y = d.new('Yw7File', PATH)
        n = d.new('Novel')
        d.set(y, 'novel', n)
        want = {}
        for i, t in enumerate(hard):
            s = d.new('Scene')
            for a in SCENE_TEXTS:
                d.set(s, a, t)
                want['scenes', str(i), a] = t
            d.put(d.get(n, 'scenes'), str(i), s)
        d.call(y, 'write')
        y, n = read_project(d)
        d.call(y, 'write')
        y, n = read_project(d)
        got = snapshot(d, n)
        return want, {k: got.get(k) for k in want}
    for k, v, st in j.run(f):
        if j.raised('no-exception/twice', k, v, st, 'saving a project twice'):
            for key in v[0]:
                ok = v[0][key] == v[1][key]
                j.ob(f'twice/{key[2]}', ok, '' if ok else f'scene text {v[0][key]!r} becomes {v[1][key]!r} after saving twice',
                     '' if ok else j.anchor(key[2], *NAMES.get(key[2], ())))
            p03_scan(j, 'literal', v[0], st) if False else None


P03 = dict(
    rule='Abstract interpretation of Yw7File.write; the abstract file content (literals and provenance-labelled texts with their chain '
         'of escaping operations) is checked to be well-formed XML, each known element holding its text exactly, for all '
         'representatives of the character classes that the escaping operations distinguish.',
    assumptions=['texts consist of characters XML can represent and do not end with a line break',
                 'characters not distinguished by any operation on the path behave like the representatives'],
    jobs=lambda tier: [Job('new', p03_new), Job('update', p03_update), Job('keep', p03_keep), Job('twice', p03_twice)])


# ------------------------------------------------------------------------------- P04
P04_TEXTS = {'scenes': SCENE_TEXTS + ('tags',) + SCENE_DAYS, 'chapters': CHAPTER_TEXTS, 'novel': NOVEL_TEXTS}


def p04_unset(j):
    st0 = put_file(j, {PATH: project_xml('a')})

    def f(d):
        y, n = read_project(d)
        want = snapshot(d, n)
        # the same elements, with nothing but their IDs
        m = d.new('Novel')
        for a in ('srtChapters', 'locations', 'srtLocations', 'items', 'srtItems', 'characters', 'srtCharacters',
                  'projectNotes', 'srtPrjNotes'):
            d.set(m, a, d.get(n, a))
        for sid in d.a(n, 'scenes'):
            s = d.new('Scene')
            for a in ('characters', 'locations', 'items', 'scnArcs', 'scnMode'):
                d.set(s, a, d.get(d.it.getitem(d.get(n, 'scenes'), sid), a))
            d.put(d.get(m, 'scenes'), sid, s)
        for cid in d.a(n, 'chapters'):
            c = d.new('Chapter')
            d.set(c, 'srtScenes', d.get(d.it.getitem(d.get(n, 'chapters'), cid), 'srtScenes'))
            d.put(d.get(m, 'chapters'), cid, c)
        d.set(y, 'novel', m)
        d.call(y, 'write')
        y2, n2 = read_project(d)
        return want, snapshot(d, n2)
    for k, v, st in j.run(f, st0):
        if j.raised('no-exception/unset', k, v, st, 'saving elements with unset attributes'):
            compare(j, 'unset', v[1], v[0], 'saved with all attributes unset', st.facts, names=NAMES,
                    skip=('languages', 'languageCode', 'countryCode'))


def p04_clear(j, one=None):
    """Clear all text attributes, or one of them, of all elements."""
    st0 = put_file(j, {PATH: project_xml('a')})

    def f(d):
        y, n = read_project(d)
        want = snapshot(d, n)

        def clear(o, kind, i, a):
            d.set(o, a, d.lst([]) if a == 'tags' else '')
            want[kind, i, a] = None
        for kind, attrs in {'novel': NOVEL_TEXTS, **{k: v for k, v in SNAP.items() if k != 'novel'}}.items():
            attrs = [a for a in attrs if a in SCENE_TEXTS + NOVEL_TEXTS + CHARACTER_TEXTS + SCENE_DAYS + ('tags',)]
            todo = [one[1]] if one and one[0] == kind else [] if one else attrs
            if kind == 'novel':
                for a in todo:
                    clear(n, kind, '', a)
            else:
                for i in d.a(n, kind):
                    for a in todo:
                        clear(d.it.getitem(d.get(n, kind), i), kind, i, a)
        d.call(y, 'write')
        y2, n2 = read_project(d)
        return want, snapshot(d, n2)
    for k, v, st in j.run(f, st0):
        if j.raised('no-exception/clear', k, v, st, 'saving cleared attributes'):
            compare(j, 'clear', v[1], v[0], 'saved with ' + (f'cleared {one[1]}' if one else 'all texts cleared'), st.facts, names=NAMES)


def p04_clear_new(j):
    """Empty texts in a new project do no harm and stay empty."""
    def f(d):
        y, n = write_new(d)
        want = snapshot(d, n)
        for i in d.a(n, 'scenes'):
            for a in SCENE_TEXTS + SCENE_DAYS:
                d.set(d.it.getitem(d.get(n, 'scenes'), i), a, '')
                want['scenes', i, a] = None
        d.call(y, 'write')
        y2, n2 = read_project(d)
        return want, snapshot(d, n2)
    for k, v, st in j.run(f):
        if j.raised('no-exception/empty', k, v, st, 'saving empty attributes'):
            compare(j, 'empty', v[1], v[0], 'new project with empty scene texts', st.facts, names=NAMES)


def p04_dates(j):
    forms = [{'date': '', 'time': '', 'day': None}, {'date': None, 'time': '', 'day': ''}, {'date': '', 'time': '', 'day': ''}]
    pairs = [(a, b) for a in range(6) for b in range(3)]

    def f(d):
        y = d.new('Yw7File', PATH)
        n = d.new('Novel')
        d.set(y, 'novel', n)
        for i, (a, b) in enumerate(pairs):
            s = d.new('Scene')
            for k, v in DATE_FORMS[a].items():
                d.set(s, k, v)
            d.put(d.get(n, 'scenes'), str(i + 1), s)
        d.call(y, 'write')
        y, n = read_project(d)
        for i, (a, b) in enumerate(pairs):
            s = d.it.getitem(d.get(n, 'scenes'), str(i + 1))
            for k, v in forms[b].items():
                d.set(s, k, v)
        d.call(y, 'write')
        y2, n2 = read_project(d)
        return snapshot(d, n2)
    for k, v, st in j.run(f):
        if not j.raised('no-exception/dates', k, v, st, 'clearing dates'):
            continue
        c = st.fs[PATH][1]
        root = parse_file(c)
        for i, (a, b) in enumerate(pairs):
            e = [x for x in root.iter('SCENE') if x.findtext('ID') == str(i + 1)][0]
            left = [t for t in ('SpecificDateTime', 'SpecificDateMode', 'Day', 'Hour', 'Minute') if e.find(t) is not None]
            got = {x: v['scenes', str(i + 1), x] for x in ('date', 'time', 'day')}
            ok = not left and not any(got.values())
            j.ob('clear-date/scenes.date', ok, '' if ok else f'scene start {DATE_FORMS[a]} set to {forms[b]}: {left} remain, read as {got}',
                 '' if ok else j.anchor('SpecificDateTime', 'Day', 'Hour', 'Minute', 'SpecificDateMode'))


STARTS = [{'date': d, 'time': t, 'day': y} for d in ('', '1999-12-31', None) for t in ('', '23:59:00', '23:58', None) for y in ('', '-4', None)
          if not (d and (t is None or y)) and not (d == '' and t is None and y is None) and any(x is not None for x in (d, t, y))]
# (a date without time cannot be represented)


def start_parts(old, new):
    """{attribute: expected value} after changing the scene start from one form to another one."""
    d, t, y = new['date'], new['time'], new['day']
    full = lambda x: x + ':00' if x.count(':') == 1 else x
    if d:
        return {'date': d, **({'time': full(t)} if t else {})}
        # yWriter has no date without time
    if not t and not y:
        return {} if t is None or y is None and d is None else {'date': None, 'time': None, 'day': None}
        # half-cleared: not stated
    out = {'date': None}
    if t is not None:
        out['time'] = full(t)
    elif not old['date']:
        out['time'] = old['time']
    if y is not None or not old['date']:
        out['day'] = old['day'] if y is None else y
    return out


def p04_parts(j, a):
    """The parts of a scene's start are cleared and set one by one."""
    def f(d):
        y = d.new('Yw7File', PATH)
        n = d.new('Novel')
        d.set(y, 'novel', n)
        for i in range(len(STARTS)):
            s = d.new('Scene')
            for k, v in DATE_FORMS[a].items():
                d.set(s, k, v)
            d.put(d.get(n, 'scenes'), str(i + 1), s)
        d.call(y, 'write')
        y, n = read_project(d)
        for i, form in enumerate(STARTS):
            s = d.it.getitem(d.get(n, 'scenes'), str(i + 1))
            for k, v in form.items():
                d.set(s, k, v)
        d.call(y, 'write')
        y2, n2 = read_project(d)
        return snapshot(d, n2)
    for k, v, st in j.run(f):
        what = f'scene starts {DATE_FORMS[a]} being changed part by part'
        if not j.raised('no-exception/date-parts', k, v, st, what):
            continue
        for i, form in enumerate(STARTS):
            for x, want in start_parts(DATE_FORMS[a], form).items():
                got = v['scenes', str(i + 1), x]
                j.eq(f'date-parts/scenes.{x}', got or None, want or None, f'scene start {DATE_FORMS[a]} changed to {form}: {x}',
                     j.anchor('SpecificDateTime', 'Day', 'Hour', 'Minute', 'SpecificDateMode'))


def p04_jobs(tier):
    jobs = [Job('unset', p04_unset), Job('clear', p04_clear), Job('clear-new', p04_clear_new), Job('dates', p04_dates)]
    jobs += [Job(f'date-parts-{a}', p04_parts, (a,)) for a in range(len(DATE_FORMS))]
    for kind, attrs in P04_TEXTS.items():
        for a in attrs:
            if tier == 'thorough' or a in ('sceneContent', 'desc', 'title', 'tags'):
                jobs.append(Job(f'clear-{kind}-{a}', p04_clear, ((kind, a),)))
    return jobs


P04 = dict(
    rule='Abstract interpretation of read, update, write and read of an existing project: with all attributes of project, chapters and '
         'scenes unset, with all texts cleared, with single texts cleared, with all forms of dates cleared. Obligation per attribute: '
         'unset ones have the provenance label of the stored text, cleared ones are empty, all others are unchanged.',
    assumptions=['world elements and project notes are rewritten from the novel (statement)', 'models in vlib/models.py'],
    jobs=p04_jobs)


# ------------------------------------------------------------------------------- P05
def p05_keep(j, change=False):
    src = project_xml('a', 'word', foreign=True)
    st0 = put_file(j, {PATH: src})

    def f(d):
        y, n = read_project(d)
        if change:
            for i in d.a(n, 'scenes'):
                s = d.it.getitem(d.get(n, 'scenes'), i)
                d.set(s, 'scType', 2)
                d.set(s, 'scnArcs', T('newarcs', 'word'))
                d.set(s, 'isSubPlot', True)
                d.set(s, 'doNotExport', True)
                d.set(s, 'characters', d.lst([]))
            for i in d.a(n, 'chapters'):
                set_chapter(d, d.it.getitem(d.get(n, 'chapters'), i), (2, 1, (True, True, True)))
        d.call(y, 'write')
    DERIVED = {'WordCount', 'LetterCount', 'RTFFile', 'BelongsToChID', 'SortOrder', 'SavedWith', 'SavedOn'}
    CHANGED = {'Unused', 'Type', 'ChapterType', 'SectionStart', 'Field_SceneType', 'Field_SceneArcs', 'SubPlot', 'ExportCondSpecific',
               'ExportWhenRTF', 'Characters', 'CharID', 'Field_SuppressChapterTitle', 'Field_IsTrash', 'Field_SuppressChapterBreak'}
    for k, v, st in j.run(f, st0):
        if not j.raised('no-exception/keep', k, v, st, 'saving an existing project'):
            continue
        a = parse_file(joint(src, 0))
        b = parse_file(joint(st.fs[PATH][1], 0, st.facts))

        def canon(e):
            t = e.text or ''
            return (e.tag, tuple(sorted(e.attrib.items())), t if len(e) == 0 or t.strip() else '',
                    tuple(canon(c) for c in e))

        def under(e, f):
            return canon(f) == canon(e)

        def check(e, f, path):
            """Every child of e (but derived ones) is still in f; known ones with the same content."""
            for c in e:
                if c.tag in DERIVED or change and c.tag in CHANGED:
                    continue
                p = f'{path}/{c.tag}'
                if c.tag in ('Fields',):
                    g = f.find('Fields')
                    j.ob(f'kept/{p}', g is not None, f'the field list of {path} is lost', j.anchor('Fields'))
                    if g is not None:
                        check(c, g, p)
                    continue
                same_ = [x for x in f.findall(c.tag) if under(c, x)]
                ok = len(same_) >= len([x for x in e.findall(c.tag) if canon(x) == canon(c)])
                j.ob(f'kept/{p}', ok, '' if ok else f'{path}: the element {HET.tostring(c, "unicode").strip()} is lost or changed: '
                     + (' '.join(HET.tostring(x, 'unicode').strip() for x in f.findall(c.tag)) or 'not in the saved file'),
                     '' if ok else j.anchor(c.tag, path.split('/')[-1]))
        for sec in a:
            g = b.find(sec.tag)
            if sec.tag in ('SCENES', 'CHAPTERS'):
                for e in sec:
                    h = [x for x in (g if g is not None else []) if x.findtext('ID') == e.findtext('ID')]
                    if j.ob(f'kept/{e.tag}', len(h) == 1, f'{e.tag} {e.findtext("ID")} is there {len(h)} times'):
                        check(e, h[0], e.tag)
            elif sec.tag in ('LOCATIONS', 'ITEMS', 'CHARACTERS', 'PROJECTNOTES'):
                continue
            elif sec.tag in ('Foreign', 'Other'):
                hs = [x for x in b.findall(sec.tag) if canon(x) == canon(sec)]
                j.ob(f'kept/{sec.tag}', len(hs) >= 1, f'the section {HET.tostring(sec, "unicode").strip()} is lost or changed',
                     j.anchor('YWRITER7'))
            elif j.ob(f'kept/{sec.tag}', g is not None, f'the section {sec.tag} is lost'):
                check(sec, g, sec.tag)


def p05_texts(j):
    """Texts of unknown elements with arbitrary characters."""
    src = project_xml('a', 'word', foreign=True)
    st0 = put_file(j, {PATH: src})

    def f(d):
        y, n = read_project(d)
        d.call(y, 'write')
    for k, v, st in j.run(f, st0):
        if not j.raised('no-exception/texts', k, v, st, 'saving an existing project'):
            continue
        for pr in range(H.MAXP):
            try:
                a, b = parse_file(joint(src, pr, st.facts)), parse_file(joint(st.fs[PATH][1], pr, st.facts))
            except (HET.ParseError, H.OpFail) as e:
                j.ob('foreign-text/parse', False, f'the saved file is not well-formed: {e}')
                continue

            def texts(root):
                return sorted((e.tag, tuple(e.attrib.items()), e.text) for t in ('Foreign', 'Inner', 'Field_Foreign')
                              for e in root.iter(t))
            ta, tb = texts(a), texts(b)
            j.ob('foreign-text/texts', ta == tb, '' if ta == tb else
                 f'texts of unknown elements change: {[x for x in ta if x not in tb][:3]} -> {[x for x in tb if x not in ta][:3]}',
                 '' if ta == tb else j.anchor('YWRITER7', 'unescape', 'CDATA'))


def p05_old(j):
    """Optional sections missing in the file."""
    src = project_xml('a', 'word', foreign=True)
    import re
    src = re.sub('<PROJECTNOTES>.*</PROJECTNOTES>', '', re.sub('<PROJECTVARS>.*</PROJECTVARS>', '', src))
    st0 = put_file(j, {PATH: src})

    def f(d):
        y, n = read_project(d)
        d.call(y, 'write')
        y, n2 = read_project(d)
        return snapshot(d, n), snapshot(d, n2)
    for k, v, st in j.run(f, st0):
        if j.raised('no-exception/old', k, v, st, 'saving a project without project notes and variables'):
            compare(j, 'old', v[1], v[0], 'project without notes and variables', st.facts,
                    skip=('languages', 'languageCode', 'countryCode'))


P05 = dict(
    rule='Abstract interpretation of read and write over an existing project with foreign elements, attributes, nested elements, repeated '
         'elements and fields at every level; the element tree of the abstract file before and after is compared: each element below '
         'project, chapter, scene, field list and root is retained with its text (provenance label), except the documented derived ones.',
    assumptions=['world elements and project notes are rewritten from the novel (statement)', 'models in vlib/models.py'],
    jobs=lambda tier: [Job('keep', p05_keep), Job('keep-changed', p05_keep, (True,)), Job('texts', p05_texts), Job('old', p05_old)]
         + [Job(f'one-change-{v}{"-between" if b else ""}', one_change, (v, True, b)) for v in range(3) for b in (False, True)])


# ------------------------------------------------------------------------------- P06
def is_app_error(it, v, st):
    return isinstance(v, Ref) and any(getattr(c, 'name', '') == 'Error' for c in st.get(v).cls.mro)


def fs_diff(a, b):
    return [p for p in sorted(set(a) | set(b)) if a.get(p) != b.get(p)]


WRITES = {'open-w', 'write', 'replace', 'remove', 'mkdir', 'copy', 'rename', 'rmtree'}


def p06_locked(j, op, exists):
    files = {PATH + '.lock': ''}
    if exists:
        files[PATH] = project_xml('a', 'word')
        files[PATH + '.bak'] = 'previous backup'
    st0 = put_file(j, files)
    box = {}

    def f(d):
        y = d.new('Yw7File', PATH)
        n = fill_novel(d, d.new('Novel'), 'b', 'word')
        d.set(n, 'languages', None)
        d.put(d.get(n, 'kwVar'), 'Field_LanguageCode', 'xx')
        d.set(y, 'novel', n)
        ids = d.a(d.get(n, 'scenes'), 'x') if False else None
        before = d.val(n)
        r = None
        try:
            d.call(y, op)
        except PyRaise as e:
            r = e.val
        return before, d.val(n), r, d.get(y, 'novel') == n
    for k, v, st in j.run(f, st0, record_fs=True):
        if not j.raised(f'driver/{op}', k, v, st, op):
            continue
        before, after, exc, same_novel = v
        j.ob(f'error/{op}', exc is not None and is_app_error(j.it, exc, st),
             f'{op}() of a locked project ' + ('raises ' + j.it.describe(exc, st) if exc is not None else 'raises no error'),
             j.anchor('is_locked', '.lock'))
        diff = fs_diff(st0.fs, st.fs)
        j.ob(f'files/{op}', not diff, f'{op}() of a locked project changes {diff}', j.anchor('is_locked', '.lock'))
        ev = [e for e in st.events if e[0] == 'fs']
        j.ob(f'operations/{op}', not ev, f'{op}() of a locked project: {[e[1:3] for e in ev][:3]}', j.anchor('is_locked'))
        ok = same_novel and before == after
        j.ob(f'novel/{op}', ok, f'{op}() of a locked project changes the novel: ' +
             str([a for a in before.d if before.d[a] != after.d.get(a)] if not ok else ''), j.anchor('is_locked'))


def p06_lock_dir(j):
    """Without a lock file, the project can be read and written; also beside other locked projects."""
    st0 = put_file(j, {PATH: project_xml('a', 'word'), '/p/other.yw7.lock': '', '/p/x.lock': '', '/p/xx.yw7.lock': ''})

    def f(d):
        y, n = read_project(d)
        d.call(y, 'write')
    for k, v, st in j.run(f, st0):
        j.raised('unlocked/write', k, v, st, 'reading and writing an unlocked project')


P06 = dict(
    rule='Abstract interpretation of Yw7File.read and write in an abstract file system with a lock file, project present or not. '
         'Obligations: the application error is raised on every path, no file system effect occurs, the abstract novel is unchanged.',
    assumptions=['models in vlib/models.py'],
    jobs=lambda tier: [Job(f'{op}-{"existing" if e else "missing"}', p06_locked, (op, e)) for op in ('read', 'write') for e in (True, False)]
    + [Job('unlocked', p06_lock_dir)])


# ------------------------------------------------------------------------------- P08, P09
def p08_refs(j):
    def sc(sid, ch, lo, it):
        return E('SCENE', X('ID', sid), X('Title', 't' + sid), E('Characters', *(X('CharID', c) for c in ch)),
                 E('Locations', *(X('LocID', c) for c in lo)), E('Items', *(X('ItemID', c) for c in it)))
    scenes = (sc('11', ['62', '99', '61', '41'], ['52', '42', '41', '11'], ['42', '98', '51', '52'])
              + sc('12', ['99'], ['99'], ['99']) + sc('13', ['61'], [], []))
    chapters = (chapter_xml('a', '21', ['12', '98', '11', '21'], kind='word')
                + chapter_xml('a', '22', ['97', '13'], kind='word') + chapter_xml('a', '23', ['96'], kind='word'))
    st0 = put_file(j, {PATH: project_xml('a', 'word', scenes=scenes, chapters=chapters)})

    def f(d, twice):
        y, n = read_project(d)
        if twice:
            d.call(y, 'read')
        return d.val(n)
    for twice in (False, True):
        for k, v, st in j.run(lambda d: f(d, twice), st0):
            if not j.raised('no-exception/refs', k, v, st, 'reading a project with unknown references'):
                continue
            r = 'reread' if twice else 'read'
            want = {('scenes', '11', 'characters'): ['62', '61'], ('scenes', '11', 'locations'): ['42', '41'],
                    ('scenes', '11', 'items'): ['51', '52'], ('scenes', '12', 'characters'): [], ('scenes', '12', 'locations'): [],
                    ('scenes', '12', 'items'): [], ('scenes', '13', 'characters'): ['61'], ('chapters', '21', 'srtScenes'): ['12', '11'],
                    ('chapters', '22', 'srtScenes'): ['13'], ('chapters', '23', 'srtScenes'): []}
            for (kind, i, a), w in want.items():
                got = v.d[kind][i].d[a] or []
                j.ob(f'{r}/{kind}.{a}', got == w, f'{kind} {i}: {a} is {got} instead of {w}', j.anchor(a, *NAMES.get(a, ())))
            for a, w in (('srtChapters', ['21', '22', '23']), ('srtLocations', ['42', '41']), ('srtItems', ['52', '51']),
                         ('srtCharacters', ['62', '61']), ('srtPrjNotes', ['72', '71'])):
                j.ob(f'{r}/novel.{a}', v.d[a] == w, f'{a} is {v.d[a]} instead of {w} after ' + ('reading again' if twice else 'reading'),
                     j.anchor(a))
            for a, e in (('srtChapters', 'chapters'), ('srtLocations', 'locations'), ('srtItems', 'items'),
                         ('srtCharacters', 'characters'), ('srtPrjNotes', 'projectNotes')):
                j.ob(f'{r}/keys.{a}', set(v.d[a]) == set(v.d[e]), f'{a} does not match {e}', j.anchor(a))


def p08_changed(j, removed=False):
    """The file has changed when it is read again into the same novel."""
    st0 = put_file(j, {PATH: project_xml('a', 'word')})
    new = project_xml('b', 'word', chapters=chapter_xml('b', '21', ['13', '12'], kind='word') + chapter_xml('b', '24', ['14', '11'], kind='word')
                      + chapter_xml('b', '22', [], kind='word'))
    if removed:
        new = new.replace(chapter_xml('b', '22', [], kind='word'), '')
    for tag, pre in (('LOCATION', '4'), ('ITEM', '5'), ('CHARACTER', '6'), ('PROJECTNOTE', '7')):
        # another order: 1 before a new 3, without 2
        block = re.search(f'(?s)<{tag}S>(.*?)</{tag}S>', new).group(1)
        e = dict((m.group(1), m.group(0)) for m in re.finditer(f'(?s)<{tag}>.*?<ID>(\\d+)</ID>.*?</{tag}>', block))
        one = e[pre + '1']
        new = new.replace(block, one + one.replace(f'<ID>{pre}1</ID>', f'<ID>{pre}3</ID>'))
    s14 = scene_xml('b', 1, '14', 0, kind='word').replace('<CharID>62</CharID>', '<CharID>63</CharID>').replace(
        '<LocID>42</LocID>', '<LocID>43</LocID>').replace('<ItemID>52</ItemID>', '<ItemID>53</ItemID>')
    s12 = re.search('(?s)<SCENE>(?:(?!</SCENE>).)*<ID>12</ID>.*?</SCENE>', new).group(0)
    new = new.replace(s12, s14)
    want = {('novel', '', 'srtChapters'): ['21', '24', '22'], ('novel', '', 'srtLocations'): ['41', '43'], ('novel', '', 'srtItems'): ['51', '53'],
            ('novel', '', 'srtCharacters'): ['61', '63'], ('novel', '', 'srtPrjNotes'): ['71', '73'],
            ('chapters', '21', 'srtScenes'): ['13'], ('chapters', '24', 'srtScenes'): ['14', '11'], ('chapters', '22', 'srtScenes'): [],
            ('scenes', '14', 'characters'): ['63', '61'], ('scenes', '14', 'locations'): ['43', '41'], ('scenes', '14', 'items'): ['53', '51'],
            ('scenes', '11', 'characters'): ['61'], ('scenes', '11', 'locations'): ['41'], ('scenes', '11', 'items'): ['51']}
    if removed:
        del want['chapters', '22', 'srtScenes']
        want['novel', '', 'srtChapters'] = ['21', '24']

    def f(d, mode):
        if mode == 'fresh':
            d.it.st.fs = {**d.it.st.fs, PATH: ('text', new, 'utf-8', True)}
        y, n = read_project(d)
        if mode == 'again':
            d.it.st.fs = {**d.it.st.fs, PATH: ('text', new, 'utf-8', True)}
            d.call(y, 'read')
        elif mode == 'other':
            d.it.st.fs = {**d.it.st.fs, PATH: ('text', new, 'utf-8', True)}
            y2 = d.new('Yw7File', PATH)
            d.set(y2, 'novel', n)
            d.call(y2, 'read')
        return snapshot(d, n)
    fresh = None
    for mode in ('fresh', 'again', 'other'):
        for k, v, st in j.run(lambda d: f(d, mode), st0):
            if not j.raised('no-exception/changed', k, v, st, 'reading a project again after it has changed'):
                continue
            if fresh is None:
                fresh = v
            what = {'fresh': 'read once', 'again': 'read again after the file has changed', 'other': 'read into a novel with data'}[mode]
            for (kind, i, a), w in want.items():
                got = v.get((kind, i, a), MISSING)
                ok = got == w
                j.ob(f'changed/{kind}.{a}', ok, '' if ok else f'{what}: {kind} {i}: {a} is {show(got) if got is not MISSING else "missing"} instead of {w}',
                     '' if ok else j.anchor(a, *NAMES.get(a, ())))
            got = {i for kd, i, a in v if kd == 'scenes'}
            j.ob('changed/scenes', got == {'11', '13', '14'}, f'{what}: the scenes are {sorted(got)} instead of 11, 13 and 14', j.anchor('scenes', mods=('yw7_file',)))
            ids = {(kd, i) for kd, i, a in fresh}
            for key, w in fresh.items():
                if key[0] == 'novel' or key[:2] not in ids:
                    continue
                ok = key in v and same(v[key], w, st.facts)
                j.ob(f'changed-values/{key[0]}.{key[2]}', ok, '' if ok else f'{what}: {key[0]} {key[1]}: {key[2]} is {show(v.get(key))} instead of {show(w)}',
                     '' if ok else j.anchor(key[2], *NAMES.get(key[2], ())))


P08 = dict(
    rule='Abstract interpretation of Yw7File.read over a project file with valid, unknown and wrong-kind references in every reference '
         'list, read once and twice, and of reading a file again after its elements have changed. Obligation per list: exactly the valid '
         'references, in file order; after the change: the lists and elements are those a fresh novel gets.',
    assumptions=['models in vlib/models.py'], jobs=lambda tier: [Job('references', p08_refs), Job('changed', p08_changed), Job('changed-removed', p08_changed, (True,))])


def p09_types(j, old):
    enc = [X('Type', '0') + X('ChapterType', '0'), X('Unused', '-1') + X('Type', '1') + X('ChapterType', '1'),
           X('Unused', '-1') + X('Type', '1') + X('ChapterType', '2'), X('Unused', '-1') + X('Type', '1') + X('ChapterType', '0')]
    if old:
        enc = [X('Type', '0'), X('Unused', '-1') + X('Type', '1'), None, X('Unused', '-1') + X('Type', '0')]
    senc = [('', ''), (X('Unused', '-1'), X('Field_SceneType', '1')), (X('Unused', '-1'), X('Field_SceneType', '2')),
            (X('Unused', '-1'), X('Field_SceneType', '0'))]
    sx, cx, want = '', '', {}
    for c in range(4):
        if enc[c] is None:
            continue
        for l in (0, 1):
            ids = []
            for s in range(4):
                sid = f'{c + 1}{l}{s}'
                sx += scene_xml('a', 1, sid, 0, fields=senc[s][1], codes=senc[s][0], texts=False)
                ids.append(sid)
                want[sid] = c, s
            cx += chapter_xml('a', f'{c + 1}{l}', ids, kind='word', codes=(X('SectionStart', '-1') if l else '') + enc[c])
    st0 = put_file(j, {PATH: project_xml('a', 'word', scenes=sx, chapters=cx)})

    def f(d, again):
        y, n = read_project(d)
        if again:
            for sid in want:
                d.set(d.it.getitem(d.get(n, 'scenes'), sid), 'scType', want[sid][1])
            d.call(y, 'write')
            y, n = read_project(d)
        return d.val(n)
    for again in (False, True):
        for k, v, st in j.run(lambda d: f(d, again), st0):
            if not j.raised('no-exception/types', k, v, st, 'reading scene types'):
                continue
            for sid, (c, s) in want.items():
                got = v.d['scenes'][sid].d['scType']
                w = c if c else s
                j.ob(f'inherit/{TYPES[c]}', got == w, f'a {TYPES[s]} scene in a {TYPES[c]} chapter is read as type {got}',
                     j.anchor('scType', 'adjust_scene_types'))


def p09_flags(j):
    """Chapters of each type with all flags, scenes with all flags, in several orders; also a scene used by several chapters."""
    enc = [X('Type', '0') + X('ChapterType', '0'), X('Unused', '-1') + X('Type', '1') + X('ChapterType', '1'),
           X('Unused', '-1') + X('Type', '1') + X('ChapterType', '2'), X('Unused', '-1') + X('Type', '1') + X('ChapterType', '0')]
    senc = [('', ''), (X('Unused', '-1'), X('Field_SceneType', '1')), (X('Unused', '-1'), X('Field_SceneType', '2')),
            (X('Unused', '-1'), X('Field_SceneType', '0'))]
    fields = ('Field_SuppressChapterTitle', 'Field_IsTrash', 'Field_SuppressChapterBreak')
    marks = ('', X('AppendToPrev', '-1'), X('ExportCondSpecific', ''), X('ExportCondSpecific', '') + X('ExportWhenRTF', '-1'), X('SubPlot', '-1'),
             X('ReactionScene', '-1'), X('AppendToPrev', '-1') + X('ExportCondSpecific', ''))
    sx, cx, want, sn, cn = '', '', {}, 1000, 100
    for c, l, fl in itertools.product(range(4), (0, 1), BITS3):
        ids = []
        for s in (0, 1, 2, 3, 0)[:4 + (cn % 2)]:
            sn += 1
            s = (s + cn) % 4
            sx += scene_xml('a', 1, str(sn), sn % 3, fields=senc[s][1], codes=senc[s][0] + marks[sn % len(marks)], texts=False)
            ids.append(str(sn))
            want[str(sn)] = c, s
        cn += 1
        cx += chapter_xml('a', str(cn), ids, kind='word', codes=(X('SectionStart', '-1') if l else '') + enc[c],
                          fields=''.join(X(f, '1' if x else '0') for f, x in zip(fields, fl) if x or f != 'Field_IsTrash'))
    st0 = put_file(j, {PATH: project_xml('a', 'word', scenes=sx, chapters=cx)})

    def f(d):
        y, n = read_project(d)
        return d.val(n)
    for k, v, st in j.run(f, st0):
        if not j.raised('no-exception/flags', k, v, st, 'reading scene types'):
            continue
        for sid, (c, s) in want.items():
            got = v.d['scenes'][sid].d['scType']
            w = c if c else s
            chap = next(x.d for i, x in v.d['chapters'].items() if sid in x.d['srtScenes'])
            fl = [a for a in CH_FLAGS if chap.get(a)]
            j.ob(f'inherit-flags/{TYPES[c]}', got == w, f'a {TYPES[s]} scene in a {TYPES[c]} chapter with the flags {fl} is read as type {got}',
                 j.anchor('scType', 'adjust_scene_types'))


def p09_changed(j):
    """A file is read again after its chapters have changed: other types, scenes moved, chapters removed and new."""
    enc = [X('Type', '0') + X('ChapterType', '0'), X('Unused', '-1') + X('Type', '1') + X('ChapterType', '1'),
           X('Unused', '-1') + X('Type', '1') + X('ChapterType', '2'), X('Unused', '-1') + X('Type', '1') + X('ChapterType', '0')]
    senc = [('', ''), (X('Unused', '-1'), X('Field_SceneType', '1')), (X('Unused', '-1'), X('Field_SceneType', '2')),
            (X('Unused', '-1'), X('Field_SceneType', '0'))]
    N = 8

    def project(chapters, shift):
        sx = cx = ''
        types = {}
        for c, t, ids in chapters:
            cx += chapter_xml('a', str(c), [str(i) for i in ids], kind='word', codes=enc[t])
            for i in ids:
                own = (i + shift) % 4
                sx += scene_xml('a', 1, str(i), 0, fields=senc[own][1], codes=senc[own][0], texts=False)
                types[str(i)] = t or own
        return project_xml('a', 'word', scenes=sx, chapters=cx), types

    def some(c, n=4):
        return [100 + n * c + k for k in range(n)]
    old = [(c, c % 4, some(c)) for c in range(N)]
    news = {
        'other types': [(c, (c + 1 + c // 4) % 4, some(c)) for c in range(N)],
        'scenes moved': [(c, c % 4, some((c + 3) % N)) for c in range(N)],
        'scenes moved and other types': [(c, (c // 2) % 4, some((c + 5) % N)) for c in range(N)],
        'chapters removed, scenes moved': [(c, c % 4, some(c) + some(c + 1)) for c in (0, 4)] + [(6, 2, some(7))],
        'chapters and scenes removed': [(c, 0, some(c)[:2]) for c in (1, 2)],
        'chapters replaced': [(c + 20, 0, some(c)) for c in range(N)],
        'chapters reversed': [(c, (3 - c) % 4, some(c)) for c in reversed(range(N))],
    }
    src, _ = project(old, 0)
    st0 = put_file(j, {PATH: src})
    for (name, chapters), shift, other in itertools.product(news.items(), (0, 1), (False, True)):
        new, want = project(chapters, shift)

        def f(d):
            y, n = read_project(d)
            d.it.st.fs = {**d.it.st.fs, PATH: ('text', new, 'utf-8', True)}
            if other:
                y = d.new('Yw7File', PATH)
                d.set(y, 'novel', n)
            d.call(y, 'read')
            return d.val(n)
        for k, v, st in j.run(f, st0):
            if not j.raised('no-exception/changed', k, v, st, f'reading a project again after it has changed ({name})'):
                continue
            for sid, w in want.items():
                got = v.d['scenes'][sid].d['scType'] if sid in v.d['scenes'] else 'missing'
                j.ob('inherit-again', got == w, f'read again after the file has changed ({name}): scene {sid} has the type {got} instead of {w}',
                     j.anchor('scType', 'adjust_scene_types'))


P09 = dict(
    rule='Abstract interpretation of Yw7File.read over all combinations of chapter type, chapter level, chapter flags and scene type, in '
         'the current and the old encoding, read once, after saving, and read again into the same novel after the types, the scenes and the '
         'set of chapters have changed. Obligation: resulting scene type.',
    assumptions=['models in vlib/models.py'], jobs=lambda tier: [Job('current', p09_types, (False,)), Job('old', p09_types, (True,)),
                                                                               Job('flags', p09_flags), Job('changed', p09_changed)])
