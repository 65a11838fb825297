"""P18, P20, P25, P32, P33: operations on the novel model."""
import ast
import itertools
import os
import xml.etree.ElementTree as HET

from vlib import holes as H
from vlib.check import Job, REPO
from vlib.scen import *
from .build import *
from .project import parse_file

PATH = '/p/x.yw7'


def mini(d, chapters, contents, **attrs):
    """A novel: {chapter ID: [scene IDs]}, {scene ID: text}."""
    n = d.new('Novel')
    for sid, t in contents.items():
        s = d.new('Scene')
        d.set(s, 'title', f'Title {sid}')
        d.set(s, 'scType', attrs.get('scType', {}).get(sid, 0))
        if t is not MISSING:
            d.set(s, 'sceneContent', t)
        d.put(d.get(n, 'scenes'), sid, s)
    for cid, sc in chapters.items():
        c = d.new('Chapter')
        d.set(c, 'title', f'Chapter {cid}')
        d.set(c, 'chLevel', 0)
        d.set(c, 'chType', 0)
        d.set(c, 'srtScenes', d.lst(sc))
        d.put(d.get(n, 'chapters'), cid, c)
    d.set(n, 'srtChapters', d.lst(list(chapters)))
    return n


def counts_ok(j, d_or_none, st, rule, got, want, what):
    ok = same(got, want)
    j.ob(rule, ok, '' if ok else f'{what}: counts are {show(got)} instead of {show(want)}', '' if ok else j.anchor('wordCount', 'letterCount'))


# ------------------------------------------------------------------------------- P18
def is_div(line):
    return 's' if line.startswith('###') else 'c' if line.startswith('##') else 'p' if line.startswith('#') else ''


def expected(chapters, contents):
    """Structure after splitting: [(old chapter ID or (kind, title, desc), [(old scene ID or title/desc or None, lines)])]."""
    out, any_div = [], False
    for cid, sc in chapters.items():
        cur = (cid, [])
        out.append(cur)
        for sid in sc:
            t = contents[sid]
            lines = [] if t is None or t is MISSING else t.split('\n')
            scene = (sid, [])
            cur[1].append(scene)
            if not t or t is MISSING:
                scene = (sid, None)
                cur[1][-1] = scene
                continue
            for line in lines:
                k = is_div(line)
                if k:
                    any_div = True
                    h = line.strip('# ').split('|')
                    title, desc = h[0], h[1] if len(h) > 1 else ''
                if k == 's':
                    scene = ((title, desc, sid), [])
                    cur[1].append(scene)
                elif k:
                    cur = ((1 if k == 'p' else 0, title, desc), [])
                    out.append(cur)
                    scene = None
                else:
                    if scene is None:
                        scene = (('', '', sid), [])
                        cur[1].append(scene)
                    scene[1].append(line)
    return out, any_div


COPIED = ('scType', 'date', 'time', 'day', 'lastsDays', 'lastsHours', 'lastsMinutes')
MARKED = ('desc', 'goal', 'conflict', 'outcome', 'status', 'sceneContent', 'wordCount', 'letterCount')


def p18_one(j, d, chapters, contents, name, extra_scenes=()):
    n = mini(d, chapters, contents, scType={s: i % 4 for i, s in enumerate(contents)})
    for i, sid in enumerate(contents):
        s = d.it.getitem(d.get(n, 'scenes'), sid)
        d.set(s, 'date', '2020-01-0%d' % (i % 9 + 1))
        d.set(s, 'time', '0%d:00:00' % (i % 9))
        d.set(s, 'lastsDays', str(i + 1))
        d.set(s, 'lastsHours', str(i + 2))
        d.set(s, 'lastsMinutes', str(i + 3))
        d.set(s, 'tags', d.lst(['tag' + sid]))
        d.set(s, 'notes', 'notes ' + sid)
        d.set(s, 'status', i % 5 + 1)
    y = d.new('Yw7File', PATH)
    d.set(y, 'novel', n)
    before = d.val(n)
    r = d.call(d.new('Splitter'), 'split_scenes', y)
    return before, d.val(d.get(y, 'novel')), r


def p18_check(j, chapters, contents, k, v, st, what):
    w = lambda: j.anchor('split_scenes', 'srtScenes', 'sceneContent', 'create_id', mods=('pywriter.model.splitter',)) or \
        j.anchor('SCENE_SEPARATOR', 'CHAPTER_SEPARATOR')
    if not j.raised('no-exception/split', k, v, st, what):
        return
    before, after, r = v
    want, any_div = expected(chapters, contents)
    j.ob('reported', r is any_div or r == any_div, f'{what}: split_scenes() returns {r}', w())
    chs = after.d['srtChapters']
    if not j.ob('chapters', len(chs) == len(want), f'{what}: {len(chs)} chapters instead of {len(want)}', w()):
        return
    j.ob('chapter-ids', len(set(chs)) == len(chs) and all(c in after.d['chapters'] for c in chs), f'{what}: chapter IDs {chs}', w())
    seen = []
    for cid, (wc, wscenes) in zip(chs, want):
        c = after.d['chapters'].get(cid)
        if c is None:
            continue
        if isinstance(wc, str):
            j.ob('chapter-order', cid == wc, f'{what}: chapter {cid} instead of {wc}', w())
        else:
            j.ob('chapter-new', cid not in before.d['chapters'], f'{what}: new chapter overwrites chapter {cid}', w())
            level, title, desc = wc
            j.ob('chapter-level', c.d['chLevel'] == level, f'{what}: new chapter has level {c.d["chLevel"]}', w())
            j.ob('chapter-title', same(c.d['title'], title) if title else bool(c.d['title']), f'{what}: new chapter title is '
                 f'{show(c.d["title"])} instead of {show(title)}', w())
            j.ob('chapter-desc', same(c.d['desc'] or '', desc), f'{what}: new chapter description is {show(c.d["desc"])} instead of {show(desc)}', w())
            j.ob('chapter-type', c.d['chType'] == 0, f'{what}: new chapter has type {c.d["chType"]}', w())
        got = c.d['srtScenes']
        seen += got
        if not j.ob('scenes', len(got) == len(wscenes), f'{what}: chapter {show(c.d["title"])} has {len(got)} scenes instead of {len(wscenes)}', w()):
            continue
        for sid, (ws, lines) in zip(got, wscenes):
            s = after.d['scenes'].get(sid)
            if not j.ob('scene-exists', s is not None, f'{what}: scene {sid} does not exist', w()):
                continue
            if isinstance(ws, str):
                j.ob('scene-order', sid == ws, f'{what}: scene {sid} instead of {ws}', w())
            else:
                j.ob('scene-new', sid not in before.d['scenes'], f'{what}: new scene overwrites scene {sid}', w())
                title, desc, parent = ws
                if title:
                    j.ob('scene-title', same(s.d['title'], title), f'{what}: new scene title is {show(s.d["title"])} instead of {show(title)}', w())
                else:
                    j.ob('scene-title', bool(s.d['title']), f'{what}: a new scene has no title', w())
                j.ob('scene-desc', same(s.d['desc'] or '', desc), f'{what}: new scene description is {show(s.d["desc"])} instead of {show(desc)}', w())
                p = after.d['scenes'][parent]
                for a in COPIED + ('status',):
                    j.ob(f'scene-copy/{a}', s.d[a] == p.d[a], f'{what}: {a} of the new scene is {s.d[a]} instead of {p.d[a]}', j.anchor(a, mods=('pywriter.model.splitter',)))
            if lines is not None:
                t = s.d.get('sceneContent', s.d.get('_sceneContent'))
                ok = same(t or '', '\n'.join(lines))
                j.ob('text', ok, '' if ok else f'{what}: text of a scene is {show(t)} instead of {show(chr(10).join(lines))}', '' if ok else w())
    j.ob('once', len(set(seen)) == len(seen), f'{what}: scenes {seen} are not unique', w())
    lost = [x for x in after.d['scenes'] if x not in seen and x not in before.d['scenes']]
    j.ob('in-chapter', not lost, f'{what}: new scenes {lost} belong to no chapter', w())
    # existing elements
    divided = {ws[2] for wc, wscenes in want for ws, lines in wscenes if not isinstance(ws, str)}
    for i, e in before.d['scenes'].items():
        g, b = after.d['scenes'].get(i), e.d['status']
        if g is not None:
            exp = min(b, 2) if i in divided and b is not None else b
            j.ob('status', g.d['status'] == exp, f'{what}: the status of scene {i} becomes {g.d["status"]} instead of {exp}', j.anchor('status', mods=('pywriter.model.splitter',)))
    for kind in ('scenes', 'chapters'):
        for i, e in before.d[kind].items():
            g = after.d[kind].get(i)
            if not j.ob(f'kept/{kind}', g is not None, f'{what}: {kind} {i} is gone', w()):
                continue
            bad = [a for a in e.d if a not in MARKED and a not in ('srtScenes', '_sceneContent') and e.d[a] != g.d.get(a)]
            j.ob(f'kept/{kind}', not bad, f'{what}: {kind} {i}: {bad} changed', w())
            if i not in seen and kind == 'scenes':
                j.ob('kept/unattached', e.d == g.d, f'{what}: the unattached scene {i} is changed', w())


LINES = {'t': None, 's': '### {0}|{1}', 'c': '## {0}|{1}', 'p': '# {0}|{1}'}


def make_text(seq, p):
    out = []
    for i, x in enumerate(seq):
        if x == 't':
            out.append(T(f'{p}.line{i}', 'word'))
        else:
            out.append(LINES[x].format(T(f'{p}.title{i}', 'word'), T(f'{p}.desc{i}', 'word')))
    return '\n'.join(out)


SHAPES = {
    'one': (({'1': ['1']}), ('1',)),
    'two-scenes': ({'1': ['1', '2']}, ('1',)),
    'second': ({'1': ['1', '2', '3'], '2': ['4']}, ('2',)),
    'both': ({'1': ['1', '2'], '2': ['4']}, ('1', '2')),
    'two-chapters': ({'1': ['1'], '2': ['2', '3']}, ('1', '2')),
}


def p18_seqs(j, shape, seqs):
    chapters, where = SHAPES[shape]
    for seq in seqs:
        contents = {s: f'Text {s}' for sc in chapters.values() for s in sc}
        for s in where:
            contents[s] = make_text(seq, 's' + s)
        for k, v, st in j.run(lambda d: p18_one(j, d, chapters, contents, seq)):
            p18_check(j, chapters, contents, k, v, st, f'splitting {"".join(seq)} ({shape})')


SPECIAL = [
    ('#### a', 'x'), ('###', 'x'), ('### ', 'x'), ('##', 'x'), ('#', 'x'), ('###|desc', 'x'), ('##|desc', 'x'), ('#|desc',),
    ('a # b', 'a ## b', 'a ### b'), (' ### no divider', 'x'), ('\t## no divider',), ('', '', '### t', '', 'x', ''),
    ('x', '', '## t', ''), ('### t', '### t'), ('###t|d',), ('### t # u', 'x'), ('## t ##', 'x'), ('##t', '#u', '###v', 'x'), ('### t | d ', 'x'),
    ('x', '#', '##', '###', 'y'), ('', ), ('x', ''), ('## t', '', '', 'x'), ('######', 'x'), ('***', '* * *', '---', '> x', '- #'),
    ('/* # */', '[b]## x[/b]'), ('### 1', '## 2', '# 3', '## 4', '### 5'),
]


def p18_special(j):
    for lines in SPECIAL:
        chapters = {'1': ['1', '2']}
        contents = {'1': '\n'.join(lines), '2': 'Text 2'}
        for k, v, st in j.run(lambda d: p18_one(j, d, chapters, contents, 's')):
            p18_check(j, chapters, contents, k, v, st, f'splitting {lines}')


def p18_ids(j):
    """IDs with gaps, unattached elements, scenes without text."""
    for ids in (('1', '3', '5'), ('3', '2', '1'), ('7', '8', '9'), ('2', '4', '1'), ('10', '1', '2')):
        chapters = {ids[0]: [ids[1]], ids[2]: [ids[0]], '11': []}
        contents = {ids[0]: make_text('tsctpst', 'a'), ids[1]: make_text('scptt', 'b'), ids[2]: 'unattached', '4': None, '6': ''}
        contents = {k: (MISSING if v is None else v) for k, v in contents.items()}
        for k, v, st in j.run(lambda d: p18_one(j, d, chapters, contents, 's')):
            p18_check(j, chapters, contents, k, v, st, f'splitting with IDs {ids}')
    chapters = {'1': ['1', '2', '3']}
    contents = {'1': '', '2': MISSING, '3': make_text('tst', 'a')}
    for k, v, st in j.run(lambda d: p18_one(j, d, chapters, contents, 's')):
        p18_check(j, chapters, contents, k, v, st, 'splitting a novel with empty scenes')
    for chapters in ({}, {'1': []}, {'1': [], '2': ['1']}):
        contents = {'1': make_text('ct', 'a')} if chapters.get('2') else {}
        for k, v, st in j.run(lambda d: p18_one(j, d, chapters, contents, 's')):
            p18_check(j, chapters, contents, k, v, st, f'splitting a novel with chapters {chapters}')


def p18_jobs(tier):
    jobs = [Job('special', p18_special), Job('ids', p18_ids)]
    top = 4 if tier == 'quick' else 6
    for shape in SHAPES:
        m = top if shape == 'second' else min(top, 3 if tier == 'quick' else 5)
        seqs = [s for L in range(1, m + 1) for s in itertools.product('tscp', repeat=L)]
        size = 60
        for i in range(0, len(seqs), size):
            jobs.append(Job(f'{shape}-{i}', p18_seqs, (shape, seqs[i:i + size])))
    return jobs


P18 = dict(
    rule='Abstract interpretation of Splitter.split_scenes over all sequences of text lines and scene, chapter and part dividers up to a '
         'length of 4 (thorough: 6) with unknown line texts, titles and descriptions (provenance labels), in several novel structures, with '
         'existing IDs with gaps. Obligations: the resulting order of chapters, scenes and line labels.',
    assumptions=['dividers separate lines independently of the line texts', 'models in vlib/models.py'], jobs=p18_jobs)


# ------------------------------------------------------------------------------- P20
def short(ids):
    """Consecutive numbers as ranges."""
    out = []
    for i in ids:
        if out and i.isdigit() and out[-1][1].isdigit() and int(i) == int(out[-1][1]) + 1:
            out[-1][1] = i
        else:
            out.append([i, i])
    return '[' + ', '.join(a if a == b else f'{a}..{b}' for a, b in out) + ']'


def p20_create(j, kind):
    m = j.interp().modules.get('pywriter.model.id_generator')
    f = m and m.env.get('create_id')
    if f is None:
        j.inconc.append('create_id does not exist')
        return
    pool = ('1', '2', '3', '4', '5')
    cases = [c for L in range(len(pool) + 1) for c in itertools.combinations(pool, L)]
    cases += [tuple(reversed(c)) for c in cases] + [('10', '9', '2', '1'), ('01', '1'), ('a', 'b'), ('0',), ('-1',), ('1', 'x', '3'), ('', '1'),
                                                  tuple(str(i) for i in range(1, 40)), ('3', '3', '1')]
    R = lambda *a: tuple(str(i) for i in range(*a))
    # larger sets: without gaps, with a gap at each place and IDs behind it, even, odd, sparse and high ones, powers of two
    for n in list(range(6, 40)) + [63, 64, 65, 99, 100, 101, 127, 128, 129, 255, 256, 257]:
        cases.append(R(1, n + 1))
        cases += [R(1, g) + R(g + 1, n + 1) for g in ((1, 2, n - 1, n // 2, n * 3 // 4) if n > 22 else range(1, n))]
        cases += [R(1, n + 1) + (str(n + 2),), R(1, n + 1) + R(n + 2, n + 5), R(1, n + 1) + R(n + 3, 2 * n), R(n, 2 * n), R(0, n), R(1, n + 1, 2) + R(1, 3)]
        cases += [R(n, 0, -1) + (str(2 * n),), R(2, n + 1) + ('1000', '999'), ('1',) + tuple(str(2 ** i) for i in range(1, n % 12))]
    for ids in dict.fromkeys(cases):
        def g(d):
            if kind == 'dict':
                e = d.dct({})
                for i in ids:
                    d.put(e, i, d.new('Scene'))
            else:
                e = d.lst(list(ids))
            r = d.it.call(f, [e], {})
            return r, d.val(e)
        for k, v, st in j.run(g):
            if j.raised('no-exception/create_id', k, v, st, f'create_id({list(ids)})'):
                r, e = v
                j.ob(f'unused/{kind}', isinstance(r, str) and r not in ids and r.isdigit(), f'create_id({short(ids)}) returns {r!r}', j.anchor('create_id'))
                j.ob(f'unchanged/{kind}', list(e) == list(dict.fromkeys(ids)) if kind == 'dict' else e == list(ids), 'create_id changes the elements')


def p20_vars(j, variant):
    """Project variables added when saving."""
    pool = ('1', '2', '3', '4')
    kinds = ((), ('Language', 'Country', 'lang=fr-FR', '/lang=fr-FR'), ('lang=fr-FR', '/lang=fr-FR', 'lang=it-IT', '/lang=it-IT'),
             ('lang=en-GB', '/lang=en-GB', 'Country', None), (None, 'Language', 'lang=fr-FR', '/lang=fr-FR'))
    # the titles of existing variables: of the user's own, the ones kept by the application, and none
    for L in range(len(pool) + 1):
        for ids, titles in itertools.product(itertools.combinations(pool, L), kinds[variant:variant + 1]):
            named = {i: titles[k] if k < len(titles) else f'var{i}' for k, i in enumerate(ids)}
            for order in dict.fromkeys((ids, tuple(reversed(ids)))):
                src = project_xml('a', 'word', scenes='', chapters='')
                import re
                var = ''.join(E('PROJECTVAR', X('ID', i), X('Title', named[i]) if named[i] else '', X('Desc', T(f'v.{i}', 'word')), X('Tags', '0')) for i in order)
                src = re.sub('<PROJECTVARS>.*</PROJECTVARS>', lambda m: E('PROJECTVARS', var), src)
                st0 = put_file(j, {PATH: src})

                def f(d):
                    y, n = read_project(d)
                    d.set(n, 'languageCode', 'de')
                    d.set(n, 'countryCode', 'AT')
                    d.set(n, 'languages', d.lst(['fr-FR', 'en-GB']))
                    d.call(y, 'write')
                for k, v, st in j.run(f, st0):
                    if not j.raised('no-exception/vars', k, v, st, 'saving a project with variables'):
                        continue
                    root = parse_file(joint(st.fs[PATH][1], 0, st.facts))
                    vs = [(e.findtext('ID'), e.findtext('Title')) for e in root.iter('PROJECTVAR')]
                    got = [i for i, t in vs]
                    j.ob('variables/unique', len(set(got)) == len(got) and None not in got, f'project variables {vs} after saving a project with variables {[(i, named[i]) for i in order]}',
                         j.anchor('PROJECTVAR'))
                    j.ob('variables/kept', all((i, named[i]) in vs for i in ids), f'project variables {vs}: one of {order} is lost', j.anchor('PROJECTVAR'))
                    half = {t for t in named.values() if t and 'lang=' in t and not {t, '/' + t} <= set(named.values()) and not {t, t[1:]} <= set(named.values())}
                    want = {'Language', 'Country'} | {t for l in ('fr-FR', 'en-GB') if not half & {f'lang={l}', f'/lang={l}'} for t in (f'lang={l}', f'/lang={l}')}
                    # half a pair in the file is not in question here
                    j.ob('variables/added', {t for i, t in vs} >= want,
                         f'project variables {vs}', j.anchor('PROJECTVAR'))


def p20_split(j, kind):
    pool = ('1', '2', '3', '4', '5')
    for L in range(1, len(pool) + 1):
        for ids in itertools.combinations(pool, L):
            for a in {ids[0], ids[-1]}:
                if kind == 'scenes':
                    chapters, contents = {'1': [a]}, {i: 'x' for i in ids}
                else:
                    chapters, contents = {i: [] for i in ids}, {'1': 'x'}
                    chapters[a] = ['1']
                text = make_text('tststs' if kind == 'scenes' else 'tctptc', 'z')
                contents = {**contents, (a if kind == 'scenes' else '1'): text}
                for k, v, st in j.run(lambda d: p18_one(j, d, chapters, contents, 's')):
                    if not j.raised(f'no-exception/split-{kind}', k, v, st, 'splitting'):
                        continue
                    before, after, r = v
                    n = len(after.d[kind])
                    j.ob(f'split/{kind}', n == len(before.d[kind]) + 3, f'splitting with {kind} {ids}: {n} {kind} instead of {len(before.d[kind]) + 3}',
                         j.anchor('create_id'))
                    for i in before.d[kind]:
                        j.ob(f'split-kept/{kind}', after.d[kind][i].d['title'] == before.d[kind][i].d['title'],
                             f'{kind} {i} is overwritten', j.anchor('create_id'))


P20 = dict(
    rule='Abstract interpretation of create_id over all subsets of five IDs (and irregular ones) and sets of up to some hundred IDs with and '
         'without gaps, as dictionary and list, and of its users '
         '(scene splitting, project variables) over all subsets of existing IDs. Obligations: the new ID is not among the existing '
         'ones, and no existing element is replaced.',
    assumptions=['behaviour for subsets of small IDs is representative', 'models in vlib/models.py'],
    jobs=lambda tier: [Job('create-dict', p20_create, ('dict',)), Job('create-list', p20_create, ('list',)), *(Job(f'variables-{v}', p20_vars, (v,)) for v in range(5)),
                       Job('split-scenes', p20_split, ('scenes',)), Job('split-chapters', p20_split, ('chapters',))])


# ------------------------------------------------------------------------------- P25
def p25_set(j):
    A, B = T('old text') + '\n' + T('old text 2'), T('new text') + ' ' + T('new text 2')
    texts = {'A': A, 'B': B, 'empty': '', 'C': 'Some plain text--with a dash.\n\n[i]x[/i]', 'D': T('t') + '\n'}

    def counts(d, s):
        return d.a(s, 'wordCount'), d.a(s, 'letterCount'), d.a(s, 'sceneContent')

    def f(d, seq):
        s = d.new('Scene')
        for x in seq:
            d.set(s, 'sceneContent', texts[x])
        r = counts(d, s)
        for a, v in (('title', 'x'), ('desc', 'some words'), ('notes', 'n'), ('status', 2), ('scType', 1), ('doNotExport', True)):
            d.set(s, a, v)
        q = d.new('Scene')
        d.set(q, 'sceneContent', texts[seq[-1]])
        return r, counts(d, s), counts(d, q)
    for seq in itertools.chain(itertools.product(texts, repeat=1), itertools.product(texts, repeat=2), itertools.product('ABC', repeat=3)):
        for k, v, st in j.run(lambda d: f(d, seq)):
            if j.raised('no-exception/set', k, v, st, 'setting a scene text'):
                r, r2, q = v
                counts_ok(j, None, st, 'own-text', r[:2], q[:2], f'after setting {"->".join(seq)}')
                counts_ok(j, None, st, 'other-attributes', r2[:2], r[:2], 'after setting other attributes')
                j.eq('text-kept', r[2], texts[seq[-1]], 'the text')
                if seq[-1] == 'empty':
                    j.ob('zero', r[0] == 0 and r[1] == 0, f'counts of an empty text are {r[:2]}')
    # concrete counts change with the text

    def g(d):
        s, out = d.new('Scene'), [(d.a(d.new('Scene'), 'wordCount'), d.a(d.new('Scene'), 'letterCount'))]
        for t in ('one', 'one two', 'one two three\nfour', ''):
            d.set(s, 'sceneContent', t)
            out.append((d.a(s, 'wordCount'), d.a(s, 'letterCount')))
        return out
    for k, v, st in j.run(g):
        if j.raised('no-exception/count', k, v, st, 'counting'):
            j.ob('counted', [x[0] for x in v] == [0, 1, 2, 4, 0] and [x[1] for x in v][:4] == [0, 3, 7, 17] and v[4][1] == 0,
                 f'counts of nothing, one, two, four and no words: {v}', j.anchor('wordCount', 'letterCount'))


def all_counts(d, n):
    """{scene ID: (counts, counts of a new scene with the same text)}."""
    out = {}
    for sid in d.a(n, 'scenes'):
        s = d.it.getitem(d.get(n, 'scenes'), sid)
        q = d.new('Scene')
        t = d.get(s, 'sceneContent')
        if t is not None:
            d.set(q, 'sceneContent', t)
        out[sid] = (d.a(s, 'wordCount'), d.a(s, 'letterCount')), (d.a(q, 'wordCount'), d.a(q, 'letterCount'))
    return out


def p25_ops(j, op):
    src = project_xml('a', 'word' if op != 'read' else 'text', foreign=True)
    st0 = put_file(j, {PATH: src})

    def f(d):
        y, n = read_project(d)
        if op == 'write':
            d.call(y, 'write')
        elif op == 'split':
            s = d.it.getitem(d.get(n, 'scenes'), '12')
            d.set(s, 'sceneContent', make_text('tstcpttst', 'q'))
            d.call(d.new('Splitter'), 'split_scenes', y)
        elif op == 'tags':
            s = d.it.getitem(d.get(n, 'scenes'), '12')
            d.set(s, 'sceneContent', f'[lang=en-US]{T("x", "word")}[/lang=en-US]')
            d.it.call(d.it.modules['pywriter.yw.yw7_purge'].env['remove_language_tags'], [n], {})
        elif op == 'languages':
            d.call(n, 'get_languages')
            d.call(n, 'check_locale')
        elif op == 'export':
            doc = d.new('OdtWManuscript', '/p/x_manuscript.odt')
            d.set(doc, 'novel', n)
            d.call(doc, 'write')
        elif op == 'reread':
            d.call(y, 'read')
        return all_counts(d, n)
    for k, v, st in j.run(f, st0):
        if j.raised(f'no-exception/{op}', k, v, st, op):
            for sid, (a, b) in v.items():
                counts_ok(j, None, st, f'after/{op}', a, b, f'scene {sid} after {op}')


def p25_lint(j):
    """No other module stores counts, and nobody bypasses the setter."""
    it = j.interp()
    scene = it.classes.get('Scene')
    if scene is None:
        j.inconc.append('class Scene does not exist')
        return

    def mod(c):
        return c.module if not isinstance(c.module, str) else it.modules.get(c.module)
    # the attributes behind the public ones: what the setter of sceneContent assigns
    node = next((n for n in ast.walk(mod(scene).tree) if isinstance(n, ast.ClassDef) and n.name == 'Scene'), None) \
        if mod(scene) is not None else None
    priv = set()
    if node is not None:
        for fn in ast.walk(node):
            if isinstance(fn, ast.FunctionDef) and fn.name == 'sceneContent':
                for n in ast.walk(fn):
                    if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store) and isinstance(n.value, ast.Name) and n.value.id == 'self':
                        priv.add(n.attr)
    names = {'wordCount', 'letterCount'} | {p for p in priv if p.startswith('_')}
    sites = 0
    for m in it.modules.values():
        if m.tree is None or m is mod(scene):
            continue
        for n in ast.walk(m.tree):
            hit = None
            if isinstance(n, ast.Attribute) and isinstance(n.ctx, (ast.Store, ast.Del)):
                sites += 1
                if n.attr in names and not (isinstance(n.value, ast.Name) and n.value.id == 'self'):
                    hit = n.attr
            elif isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id == 'setattr' and len(n.args) > 1:
                sites += 1
                if isinstance(n.args[1], ast.Constant) and n.args[1].value in names:
                    hit = n.args[1].value
            if hit:
                j.ob(f'stores/{m.name}.{hit}', False, f'{hit} of a scene is stored outside the class Scene',
                     f'{os.path.relpath(m.path, REPO)}:{n.lineno}')
    j.ob('stores', True)
    j.obs += [('stores', True, '', '')] * sites


P25 = dict(
    rule='Abstract interpretation of the scene text setter over sequences of unknown texts, and of reading, saving, splitting, purging, '
         'exporting and rereading projects; obligation: word and letter count (symbolic terms over the text) equal those of a new scene '
         'with the same text. Syntax rule over all modules: no assignment of counts or of the text storage outside the class Scene.',
    assumptions=['models in vlib/models.py'],
    jobs=lambda tier: [Job('setter', p25_set), Job('stores', p25_lint)] + [Job(f'after-{o}', p25_ops, (o,)) for o in (
        'read', 'write', 'split', 'tags', 'languages', 'export', 'reread')])


# ------------------------------------------------------------------------------- P32
def xref_novel(d, variant):
    """Chapters 2 and 1, scenes in unordered IDs, elements with partly equal IDs, tags shared between kinds."""
    chapters = {'2': ['14', '12', '11'], '1': ['15'], '3': [], '4': ['13', '16', '18']}
    contents = {s: f'Text {s}' for s in ('11', '12', '13', '14', '15', '16', '17', '18')}
    n = mini(d, chapters, contents, scType={'12': 1, '15': 2, '16': 3})
    elements = {'characters': ('2', '1', '3'), 'locations': ('1', '2', '4'), 'items': ('3', '1', '2')}
    tags = {'characters': {'2': ['red', 'both'], '1': ['both', 'x'], '3': None}, 'locations': {'1': ['both'], '2': [], '4': ['red', 'blue', 'both']},
            'items': {'3': ['both'], '1': None, '2': ['blue', 'both']}}
    stags = {'11': ['both', 'red'], '12': None, '13': ['red'], '14': ['red', 'own'], '15': [], '16': ['both', 'own'], '17': ['red', 'lost'], '18': ['x']}
    rel = {'11': (['1', '2'], ['2'], ['3']), '12': (['2'], [], ['1', '2', '3']), '13': (['1'], ['1', '2'], None), '14': (['2', '1'], ['4'], ['3']),
           '15': (None, ['4', '1'], []), '16': (['2'], None, ['2']), '17': (['3'], ['1'], ['3']), '18': ([], ['2'], ['3', '2'])}
    if variant == 'few':
        rel = {s: ((['3'], ['1'], ['2']) if s == '13' else (None, None, None)) for s in rel}
        stags = {s: None for s in rel}
    orders = {'characters': 'srtCharacters', 'locations': 'srtLocations', 'items': 'srtItems'}
    for kind, cls in (('characters', 'Character'), ('locations', 'WorldElement'), ('items', 'WorldElement')):
        for i in elements[kind]:
            e = d.new(cls)
            d.set(e, 'title', f'Name of {kind[:-1]} {i}')
            if tags[kind][i] is not None:
                d.set(e, 'tags', d.lst(tags[kind][i]))
            if kind == 'characters':
                d.set(e, 'fullName', f'Full {i}')
            d.put(d.get(n, kind), i, e)
        d.set(n, orders[kind], d.lst(list(elements[kind])))
    for sid in contents:
        s = d.it.getitem(d.get(n, 'scenes'), sid)
        if stags[sid] is not None:
            d.set(s, 'tags', d.lst(stags[sid]))
        for a, v in zip(('characters', 'locations', 'items'), rel[sid]):
            if v is not None:
                d.set(s, a, d.lst(v))
    for kind in ('chapters', 'scenes', 'characters', 'locations', 'items'):
        # the order of the elements is that of the lists, not of the collections
        es = d.get(n, kind)
        d.set(n, kind, d.dct({i: d.it.getitem(es, i) for i in reversed(list(d.it.st.get(es).d))}))
    d.set(n, 'title', 'Novel')
    d.set(n, 'languageCode', 'en')
    d.set(n, 'countryCode', 'US')
    order = [s for sc in chapters.values() for s in sc]
    want = {}
    for pos, (kind, name) in enumerate((('characters', 'scnPerChr'), ('locations', 'scnPerLoc'), ('items', 'scnPerItm'))):
        want[name] = {i: [s for s in order if i in (rel[s][pos] or ())] for i in elements[kind]}
    want['scnPerTag'] = {}
    for s in order:
        for t in stags[s] or ():
            want['scnPerTag'].setdefault(t, []).append(s)
    for kind, name in (('characters', 'chrPerTag'), ('locations', 'locPerTag'), ('items', 'itmPerTag')):
        want[name] = {}
        for i in elements[kind]:
            for t in tags[kind][i] or ():
                want[name].setdefault(t, []).append(i)
    want['chpPerScn'] = {s: c for c, sc in chapters.items() for s in sc}
    want['srtScenes'] = order
    return n, want, order, chapters


DICTS = ('scnPerChr', 'scnPerLoc', 'scnPerItm', 'scnPerTag', 'chrPerTag', 'locPerTag', 'itmPerTag', 'chpPerScn')


def p32_generate(j, variant, twice):
    box = {}

    def f(d):
        n, want, order, chapters = xref_novel(d, variant)
        box['want'] = want
        x = d.new('CrossReferences')
        if twice:
            n0, *_ = xref_novel(d, 'full' if variant == 'few' else 'few')
            d.call(x, 'generate_xref', n0)
            d.call(x, 'generate_xref', n)
        before = d.val(n)
        d.call(x, 'generate_xref', n)
        return {a: d.a(x, a) for a in DICTS + ('srtScenes',)}, before, d.val(n)
    for k, v, st in j.run(f):
        if not j.raised('no-exception/xref', k, v, st, 'generate_xref()'):
            continue
        got, before, after = v
        for a in DICTS + ('srtScenes',):
            g, w = got[a], box['want'][a]
            if isinstance(w, dict):
                g = {x: y for x, y in g.items() if y}
                w = {x: y for x, y in w.items() if y}
            j.ob(f'lists/{a}', g == w, f'{a} is {g} instead of {w}', j.anchor(a))
            if isinstance(w, dict) and a not in ('chpPerScn',):
                j.ob(f'order/{a}', list(g) == list(w), f'{a} has the keys {list(g)} instead of {list(w)}', j.anchor(a))
        j.ob('novel', before == after, 'generate_xref() changes the novel', j.anchor('generate_xref'))


TX = '{urn:oasis:names:tc:opendocument:xmlns:text:1.0}'
XL = '{http://www.w3.org/1999/xlink}'


def p32_document(j, variant):
    box = {}

    def f(d):
        n, want, order, chapters = xref_novel(d, variant)
        box.update(want=want, order=order, chapters=chapters)
        doc = d.new('OdtWXref', '/p/x_xref.odt')
        d.set(doc, 'novel', n)
        d.call(doc, 'write')
    for k, v, st in j.run(f):
        if not j.raised('no-exception/document', k, v, st, 'writing the cross reference'):
            continue
        c = dict((n, x[1]) for n, x in st.fs['/p/x_xref.odt'][2] if x[0] == 'text').get('content.xml')
        root = HET.fromstring(c.encode())
        want = box['want']
        types = {'12': 1, '15': 2, '16': 3}
        sec, out = None, []
        for e in root.iter():
            if e.tag == TX + 'h':
                sec = (''.join(e.itertext()).strip(), [])
                out.append(sec)
            elif e.tag == TX + 'p' and sec is not None:
                link = e.find(TX + 'a')
                sec[1].append((' '.join(''.join(e.itertext()).split()), link.get(XL + 'href') if link is not None else None))
        exp = []
        chs = list(box['chapters'])
        for name, kind, what in (('scnPerChr', 'character', 's'), ('scnPerLoc', 'location', 's'), ('scnPerItm', 'item', 's'), ('scnPerTag', None, 's'),
                                 ('chrPerTag', None, 'character'), ('locPerTag', None, 'location'), ('itmPerTag', None, 'item')):
            for key, ids in want[name].items():
                if ids:
                    exp.append((name, f'Name of {kind} {key}' if kind else key, what, ids))
        w = j.anchor('_xr', 'scnPerChr', 'scnPerTag')
        if not j.ob('sections', len(out) == len(exp), f'the cross reference has {len(out)} sections instead of {len(exp)}: {[o[0] for o in out]}', w):
            continue
        words = {'scnPerChr': ('Scenes', 'Character'), 'scnPerLoc': ('Scenes', 'Location'), 'scnPerItm': ('Scenes', 'Item'), 'scnPerTag': ('Scenes', 'tagged'),
                 'chrPerTag': ('Characters', 'tagged'), 'locPerTag': ('Locations', 'tagged'), 'itmPerTag': ('Items', 'tagged')}
        for (head, items), (name, title, what, ids) in zip(out, exp):
            j.ob(f'heading/{name}', title in head and all(x in head for x in words[name]), f'heading {head!r} for {name} {title}', w)
            if not j.ob(f'entries/{name}', len(items) == len(ids), f'{head}: {[i[0] for i in items]} instead of {ids}', w):
                continue
            for (text, href), i in zip(items, ids):
                if what == 's':
                    no = box['order'].index(i) + 1
                    ch = chs.index(want['chpPerScn'][i]) + 1
                    ok = text.split(' ')[0] == str(no) and f'(Ch {ch})' in text and f'Title {i}' in text
                    j.ob(f'scene/{name}', ok, f'{head}: {text!r} instead of scene {no}, chapter {ch}, Title {i}', j.anchor('_get_sceneMapping', 'Chapter'))
                    if types.get(i):
                        j.ob(f'scene-type/{name}', ('Notes', 'ToDo', 'Unused')[types[i] - 1] in text and href is None,
                             f'{head}: {text!r} is a scene of type {types[i]}', j.anchor('scType'))
                    else:
                        j.ob(f'scene-link/{name}', href is not None and f'#ScID:{i}%7C' in href, f'{head}: scene {i} links to {href}', w)
                else:
                    mark = {'character': 'CrID', 'location': 'LcID', 'item': 'ItID'}[what]
                    j.ob(f'element/{name}', f'Name of {what} {i}' in text, f'{head}: {text!r} instead of {what} {i}', w)
                    j.ob(f'element-link/{name}', href is not None and f'_{what}s.odt#{mark}:{i}%7C' in href, f'{head}: {what} {i} links to {href}', w)


P32 = dict(
    rule='Abstract interpretation of CrossReferences.generate_xref and of OdtWXref.write over novels in which chapters, scenes, characters, '
         'locations, items and tags have overlapping IDs and names, all scene types, missing and empty relations and unattached scenes. '
         'Obligations: the exact lists and their order; the sections, entries, numbers and links of the abstract document.',
    assumptions=['models in vlib/models.py'],
    jobs=lambda tier: [Job(f'lists-{v}-{t}', p32_generate, (v, t)) for v in ('full', 'few') for t in (False, True)]
    + [Job(f'document-{v}', p32_document, (v,)) for v in ('full', 'few')])


# ------------------------------------------------------------------------------- P33
KWVARS = {'novel': 'PRJ_KWVAR', 'chapters': 'CHP_KWVAR', 'scenes': 'SCN_KWVAR', 'characters': 'CRT_KWVAR', 'locations': 'LOC_KWVAR', 'items': 'ITM_KWVAR',
          'projectNotes': 'PNT_KWVAR'}


def kw_fields(d):
    y = d.cls('Yw7File')
    out = []
    for kind, a in KWVARS.items():
        for f in d.val(d.it.getattr(y, a)):
            out.append((kind, f))
    return out


def kw_elements(d, n, kind):
    if kind == 'novel':
        return {'': n}
    return {i: d.it.getitem(d.get(n, kind), i) for i in d.a(n, kind)}


def p33_custom(j, mode):
    it = j.interp()
    fn = it.modules['pywriter.yw.yw7_purge'].env['reset_custom_variables']
    fields = []
    for k, v, st in j.run(lambda d: kw_fields(d)):
        fields = v
    kinds = {k for k, f in fields}
    if mode == 'single':
        cases = [[f] for f in fields]
    elif mode == 'all':
        cases = [fields, []] + [[x for x in fields if x[0] == k] for k in KWVARS] + [[x for x in fields if x[0] != k] for k in KWVARS]
    for case in cases:
        for which in ('first', 'last', 'unattached'):
            def f(d):
                n = fill_novel(d, d.new('Novel'), 'a', 'word')
                if which == 'unattached':
                    for o in ('srtChapters', 'srtLocations', 'srtItems', 'srtCharacters', 'srtPrjNotes'):
                        d.set(n, o, d.lst([]))
                for kind in KWVARS:
                    for i, e in kw_elements(d, n, kind).items():
                        for k2, fld in fields:
                            if k2 == kind:
                                d.put(d.get(e, 'kwVar'), fld, '' if fld.endswith('e') else None)
                for kind, fld in case:
                    es = kw_elements(d, n, kind)
                    i = list(es)[-1 if which == 'last' else 0]
                    d.put(d.get(es[i], 'kwVar'), fld, T(f'{kind}.{fld}'))
                y = d.new('Yw7File', PATH)
                d.set(y, 'novel', n)
                before = snapshot(d, n, codes=True)
                r = d.it.call(fn, [y], {})
                left = []
                for kind in KWVARS:
                    for i, e in kw_elements(d, n, kind).items():
                        left += [(kind, i, k2, x) for k2, x in d.a(e, 'kwVar').items() if x]
                return r, left, before, snapshot(d, n, codes=True)
            for k, v, st in j.run(f):
                what = f'reset_custom_variables() with {len(case)} set fields' + (f' ({case[0]})' if len(case) == 1 else '')
                if not j.raised('no-exception/custom', k, v, st, what):
                    continue
                r, left, before, after = v
                j.ob('emptied', not left, f'{what}: {left[:3]} are left', j.anchor('kwVar', *(KWVARS[x[0]] for x in left)) if left else '')
                j.ob('reported', r is bool(case), f'{what} returns {r}', j.anchor('kwVar') if r is not bool(case) else '')
                changed = [x for x in before if x[2] not in {f for _, f in fields} and before[x] != after.get(x)]
                j.ob('other', not changed, f'{what} changes {changed[:3]}', '')


def p33_lang(j):
    it = j.interp()
    fn = it.modules['pywriter.yw.yw7_purge'].env['remove_language_tags']
    A, B, C = T('A', 'word'), T('B', 'word'), T('C')
    o, c, o2, c2 = '[lang=en-US]', '[/lang=en-US]', '[lang=de]', '[/lang=de]'
    texts = {'none': A, 'one': f'{o}{A}{c}', 'inner': f'{A} {o}{B}{c} {C}', 'two': f'{A}{o}{B}{c}{o2}{C}{c2}', 'lines': f'{A}\n{o}{B}\n{C}{c}\n{B}',
             'open': f'{A}{o}{B}', 'close': f'{A}{c}{B}', 'nested': f'{o}{A}{o2}{B}{c2}{c}', 'only': f'{o}{c}', 'markup': f'[i]{o}{A}{c}[/i] [b]x[/b]',
             'empty': '', 'missing': MISSING, 'similar': f'[language] {A} [x] lang=de [ lang=x]', 'many': f'{o}{A}{c} ' * 3 + '\n' + f'{o2}{B}{c2}' * 2}
    import re
    want = {k: v if v is MISSING else re.sub(r'\[/*lang=[^\]]*\]', '', v) for k, v in texts.items()}
    cases = [[x] for x in texts] + [list(texts), ['none', 'empty', 'missing', 'similar'], ['none', 'one', 'none'], ['one', 'none']]
    for case in cases:
        def f(d):
            contents = {str(i + 1): texts[x] for i, x in enumerate(case)}
            n = mini(d, {'1': list(contents)[:-1]}, contents)
            before = {i: d.val(d.it.getitem(d.get(n, 'scenes'), i)).d for i in contents}
            r = d.it.call(fn, [n], {})
            return r, {i: d.val(d.it.getitem(d.get(n, 'scenes'), i)).d for i in contents}, before
        for k, v, st in j.run(f):
            what = f'remove_language_tags() with texts {case}'
            if not j.raised('no-exception/lang', k, v, st, what):
                continue
            r, after, before = v
            changed = any(want[x] != texts[x] for x in case)
            j.ob('lang-reported', r is changed, f'{what} returns {r}', j.anchor('hasChanged', 'sceneContent', mods=('pywriter.yw.yw7_purge',)) if r is not changed else '')
            for i, x in enumerate(case):
                e, b = after[str(i + 1)], before[str(i + 1)]
                t = e.get('sceneContent', e.get('_sceneContent'))
                if want[x] is MISSING:
                    j.ob('lang-text', t is None, f'{what}: a missing text becomes {show(t)}')
                else:
                    ok = same(t, want[x])
                    j.ob('lang-text', ok, '' if ok else f'{what}: {show(texts[x])} becomes {show(t)} instead of {show(want[x])}',
                         '' if ok else j.anchor('sceneContent', mods=('pywriter.yw.yw7_purge',)))
                bad = [a for a in b if a not in ('sceneContent', '_sceneContent', 'wordCount', 'letterCount') and b[a] != e[a]]
                j.ob('lang-other', not bad, f'{what} changes {bad}')


P33 = dict(
    rule='Abstract interpretation of reset_custom_variables with every custom field of every element kind set alone, set per kind, for all '
         'kinds but one, and of remove_language_tags over texts with all arrangements of tags around unknown text parts. Obligations: all '
         'fields empty, all tags and nothing else removed (provenance labels), the result tells whether there was a change.',
    assumptions=['models in vlib/models.py'],
    jobs=lambda tier: [Job('custom-single', p33_custom, ('single',)), Job('custom-all', p33_custom, ('all',)), Job('language', p33_lang)])
