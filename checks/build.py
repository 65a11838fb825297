"""Abstract novels and project files used by the scenarios."""
from vlib import holes as H
from vlib.scen import *

WORLD_LISTS = (('locations', 'srtLocations', 'WorldElement', '4'), ('items', 'srtItems', 'WorldElement', '5'),
               ('characters', 'srtCharacters', 'Character', '6'))
KW_SCENE = ('Field_SceneArcs', 'Field_SceneMode')
KW = {'characters': ('Field_Link', 'Field_BirthDate', 'Field_DeathDate'), 'locations': ('Field_Link',),
      'items': ('Field_Link',)}
MULTI = {'desc', 'sceneContent', 'notes', 'bio', 'goals', 'goal', 'conflict', 'outcome', 'authorBio'}


def text(name, attr, kind='text'):
    """An unknown text; attributes that may have several lines get two of them."""
    return T(name + '.1', kind) + '\n' + T(name + '.2', kind) if attr in MULTI else T(name, kind)


DATES = ({'date': '2020-03-04', 'time': '05:06:07', 'day': None}, {'date': None, 'time': '11:12:00', 'day': '17'})


def fill_scene(d, s, p, i, dates, kind='text'):
    for a in SCENE_TEXTS:
        d.set(s, a, text(f'{p}.scene{i}.{a}', a, kind))
    d.set(s, 'tags', d.lst([T(f'{p}.scene{i}.tag{k}', 'tag') for k in (1, 2)]))
    for k, v in DATES[dates].items():
        d.set(s, k, v)
    for k, a in enumerate(SCENE_DAYS):
        d.set(s, a, str(10 * i + k + 1))
    d.set(s, 'status', i + 1)
    d.set(s, 'scnArcs', T(f'{p}.scene{i}.arcs'))
    d.set(s, 'scnMode', i)
    d.set(s, 'characters', d.lst(['62', '61']))
    d.set(s, 'locations', d.lst(['42', '41']))
    d.set(s, 'items', d.lst(['52', '51']))


def fill_world(d, n, p, kind='text'):
    for attr, order, cls, pre in WORLD_LISTS:
        ids = []
        for i in (2, 1):
            e = d.new(cls)
            for a in CHARACTER_TEXTS if cls == 'Character' else WORLD_TEXTS:
                d.set(e, a, text(f'{p}.{attr}{i}.{a}', a, kind))
            d.set(e, 'tags', d.lst([T(f'{p}.{attr}{i}.tag{k}', 'tag') for k in (1, 2)]))
            for f in KW[attr]:
                d.put(d.get(e, 'kwVar'), f, T(f'{p}.{attr}{i}.{f}'))
            if cls == 'Character':
                d.set(e, 'isMajor', i == 1)
            d.put(d.get(n, attr), pre + str(i), e)
            ids.append(pre + str(i))
        d.set(n, order, d.lst(ids))
    for i in (2, 1):
        e = d.new('BasicElement')
        for a in NOTE_TEXTS:
            d.set(e, a, text(f'{p}.note{i}.{a}', a, kind))
        d.put(d.get(n, 'projectNotes'), '7' + str(i), e)
    d.set(n, 'srtPrjNotes', d.lst(['72', '71']))


def fill_novel(d, n, p, kind='text', scenes=('11', '12', '13'), dates=(0, 1, 0)):
    """Give every attribute of a novel with two chapters a value of its own."""
    for a in NOVEL_TEXTS:
        d.set(n, a, text(f'{p}.novel.{a}', a, kind))
    d.set(n, 'wordTarget', 4711)
    d.set(n, 'wordCountStart', 815)
    d.set(n, 'languageCode', 'de')
    d.set(n, 'countryCode', 'AT')
    d.set(n, 'languages', d.lst(['fr-FR', 'en-AU']))
    for i, sid in enumerate(scenes):
        s = d.new('Scene')
        fill_scene(d, s, p, i + 1, dates[i], kind)
        d.put(d.get(n, 'scenes'), sid, s)
    chapters = {'21': ['13', '11'], '22': ['12']}
    for cid, sc in chapters.items():
        c = d.new('Chapter')
        for a in CHAPTER_TEXTS:
            d.set(c, a, text(f'{p}.chapter{cid}.{a}', a, kind))
        d.set(c, 'srtScenes', d.lst(sc))
        d.put(d.get(n, 'chapters'), cid, c)
    d.set(n, 'srtChapters', d.lst(['22', '21']))
    fill_world(d, n, p, kind)
    return n


FLAG = {'suppressChapterTitle', 'isTrash', 'suppressChapterBreak', 'doNotExport', 'appendToPrev', 'isReactionScene', 'isSubPlot',
        'isMajor'}
SC_FLAGS = ('doNotExport', 'appendToPrev', 'isReactionScene', 'isSubPlot')
CH_FLAGS = ('suppressChapterTitle', 'isTrash', 'suppressChapterBreak')
SNAP = {
    'novel': NOVEL_TEXTS + ('wordTarget', 'wordCountStart', 'languageCode', 'countryCode', 'languages', 'srtChapters',
                            'srtLocations', 'srtItems', 'srtCharacters', 'srtPrjNotes'),
    'chapters': CHAPTER_TEXTS + ('srtScenes',),
    'scenes': SCENE_TEXTS + ('tags', 'date', 'time', 'day', 'status', 'scnArcs', 'scnMode', 'characters', 'locations',
                             'items') + SCENE_DAYS,
    'locations': WORLD_TEXTS + ('tags',), 'items': WORLD_TEXTS + ('tags',),
    'characters': CHARACTER_TEXTS + ('tags', 'isMajor'), 'projectNotes': NOTE_TEXTS,
}
CODES = {'chapters': ('chType', 'chLevel') + CH_FLAGS, 'scenes': ('scType',) + SC_FLAGS}


def snapshot(d, n, codes=False, texts=True):
    """{(kind, id, attribute): value} of everything the properties speak about."""
    h = d.val(n).d
    out = {}

    def get(o, a):
        v = o.d[a] if a in o.d else o.d.get('_' + a, MISSING)
        if v is MISSING and a not in ('sceneContent',):
            raise Unsupported(f'attribute {a} of {o.cls} does not exist')
        return v if a not in FLAG else bool(v)
    if texts:
        for a in SNAP['novel']:
            out['novel', '', a] = h[a]
    for kind in ('chapters', 'scenes', 'locations', 'items', 'characters', 'projectNotes'):
        for i, e in h[kind].items():
            for a in (SNAP[kind] if texts else ()) + (CODES.get(kind, ()) if codes else ()):
                try:
                    out[kind, i, a] = get(e, a)
                except Unsupported:
                    # properties with other storage
                    ref = d.it.getitem(d.get(n, kind), i)
                    v = d.a(ref, a)
                    out[kind, i, a] = bool(v) if a in FLAG else v
            if texts:
                for f in KW.get(kind, ()):
                    out[kind, i, f] = e.d['kwVar'].get(f)
    return out


MISSING = object()


def attr_names(key):
    return (key[2],)


def compare(j, rule, got, want, what, facts=None, skip=(), names=None):
    """Obligations: two snapshots agree; empty and missing texts are the same."""
    bad = []
    for k, w in want.items():
        if k in skip or k[2] in skip:
            continue
        name = f'{rule}/{k[0]}.{k[2]}'
        if k not in got:
            j.ob(name, False, f'{what}: {k[0]} {k[1]} has no {k[2]} any more', j.anchor(k[2], k[0]))
            continue
        g = got[k]
        if (g is None or g == '' or g == []) and (w is None or w == '' or w == []):
            j.ob(name, True)
            continue
        ok = same(g, w, facts)
        if ok is not True:
            bad.append(k)
        j.ob(name, ok, '' if ok else f'{what}: {k[0]} {k[1]} {k[2]} is {show(g)} instead of {show(w)}',
             '' if ok else j.anchor(k[2], *(names or {}).get(k[2], ())))
    for k in got:
        if k not in want and k not in skip and k[2] not in skip:
            j.ob(f'{rule}/{k[0]}.{k[2]}', False, f'{what}: there is an additional {k[0]} {k[1]}', j.anchor(k[0]))
            break
    return bad


# ------------------------------------------------------------------------------- project file
def esc(s):
    """Text as character data of an XML file."""
    s = s.replace('&', '&amp;').replace('<', '&lt;').replace('>', '&gt;')
    return H.map_holes(s, lambda c: H.op(c, 'etescape'))


def E(tag, *content, **attrs):
    a = ''.join(f' {k}="{v}"' for k, v in attrs.items())
    return f'<{tag}{a}>{"".join(content)}</{tag}>'


def X(tag, t):
    return E(tag, esc(t))


TAG_SCENE = {'title': 'Title', 'desc': 'Desc', 'sceneContent': 'SceneContent', 'notes': 'Notes', 'field1': 'Field1',
             'field2': 'Field2', 'field3': 'Field3', 'field4': 'Field4', 'goal': 'Goal', 'conflict': 'Conflict',
             'outcome': 'Outcome', 'image': 'ImageFile', 'lastsDays': 'LastsDays', 'lastsHours': 'LastsHours',
             'lastsMinutes': 'LastsMinutes'}
TAG_WORLD = {'title': 'Title', 'desc': 'Desc', 'image': 'ImageFile', 'aka': 'AKA', 'notes': 'Notes', 'bio': 'Bio', 'goals': 'Goals',
             'fullName': 'FullName'}
TAG_NOVEL = {'title': 'Title', 'desc': 'Desc', 'authorName': 'AuthorName', 'authorBio': 'Bio', 'fieldTitle1': 'FieldTitle1',
             'fieldTitle2': 'FieldTitle2', 'fieldTitle3': 'FieldTitle3', 'fieldTitle4': 'FieldTitle4'}
NAMES = {a: (t,) for tab in (TAG_SCENE, TAG_WORLD, TAG_NOVEL) for a, t in tab.items()}
NAMES.update(tags=('Tags',), date=('SpecificDateTime',), time=('SpecificDateTime', 'Hour', 'Minute'), day=('Day',),
             status=('Status',), scnArcs=('Field_SceneArcs',), scnMode=('Field_SceneMode',), characters=('CharID', 'Characters'),
             locations=('LocID', 'Locations'), items=('ItemID', 'Items'), isMajor=('Major',), srtScenes=('ScID', 'Scenes'),
             wordTarget=('WordTarget',), wordCountStart=('WordCountStart',), languageCode=('Language',),
             countryCode=('Country',), languages=('lang=',), chType=('ChapterType', 'Type', 'Unused'),
             chLevel=('SectionStart',), suppressChapterTitle=('Field_SuppressChapterTitle',), isTrash=('Field_IsTrash',),
             suppressChapterBreak=('Field_SuppressChapterBreak',), scType=('Field_SceneType', 'Unused'),
             doNotExport=('ExportCondSpecific', 'ExportWhenRTF'), appendToPrev=('AppendToPrev',),
             isReactionScene=('ReactionScene',), isSubPlot=('SubPlot',))


def scene_xml(p, i, sid, dates, extra='', fields='', kind='text', codes='', texts=True):
    s = X('ID', sid)
    for a, t in TAG_SCENE.items() if texts else ():
        if a not in SCENE_DAYS:
            s += X(t, text(f'{p}.scene{i}.{a}', a, kind))
    s += X('Status', str(i + 1))
    s += X('Tags', T(f'{p}.scene{i}.tag1', 'tag') + ';' + T(f'{p}.scene{i}.tag2', 'tag'))
    if dates == 0:
        s += X('SpecificDateTime', '2020-03-04 05:06:07') + X('SpecificDateMode', '-1')
    elif dates == 1:
        s += X('Day', '17') + X('Hour', '11') + X('Minute', '12')
    for k, a in enumerate(SCENE_DAYS):
        s += X(TAG_SCENE[a], str(10 * i + k + 1))
    s += E('Characters', X('CharID', '62'), X('CharID', '61'))
    s += E('Locations', X('LocID', '42'), X('LocID', '41'))
    s += E('Items', X('ItemID', '52'), X('ItemID', '51'))
    s += codes
    s += E('Fields', X('Field_SceneArcs', T(f'{p}.scene{i}.arcs')), X('Field_SceneMode', str(i)), fields)
    return E('SCENE', s, extra)


def world_xml(p, attr, pre, kind='text'):
    out = ''
    tag = {'locations': 'LOCATION', 'items': 'ITEM', 'characters': 'CHARACTER'}[attr]
    for i in (2, 1):
        s = X('ID', pre + str(i))
        for a in CHARACTER_TEXTS if attr == 'characters' else WORLD_TEXTS:
            s += X(TAG_WORLD[a], text(f'{p}.{attr}{i}.{a}', a, kind))
        s += X('Tags', T(f'{p}.{attr}{i}.tag1', 'tag') + ';' + T(f'{p}.{attr}{i}.tag2', 'tag'))
        if attr == 'characters' and i == 1:
            s += X('Major', '-1')
        s += E('Fields', *(X(f, T(f'{p}.{attr}{i}.{f}')) for f in KW[attr]))
        out += E(tag, s)
    return E(tag + 'S', out)


def chapter_xml(p, cid, scenes, extra='', kind='text', codes='', fields=''):
    return E('CHAPTER', X('ID', cid), X('Title', text(f'{p}.chapter{cid}.title', 'title', kind)),
             X('Desc', text(f'{p}.chapter{cid}.desc', 'desc', kind)), codes, E('Fields', fields) if fields else '',
             E('Scenes', *(X('ScID', s) for s in scenes)), extra)


def project_xml(p, kind='text', dates=(0, 1, 0), foreign=False, chapters=None, scenes=None):
    """A project file as yWriter writes it, all known elements filled."""
    F = (lambda *a: foreign_xml(*a)) if foreign else (lambda *a: '')
    pr = X('Ver', '7')
    for a, t in TAG_NOVEL.items():
        pr += X(t, text(f'{p}.novel.{a}', a, kind))
    pr += X('WordTarget', '4711') + X('WordCountStart', '815')
    if foreign:
        pr += E('Fields', X('Field_Foreign', T('f.pf')))
    pr += F('project')
    notes = ''.join(E('PROJECTNOTE', X('ID', '7' + str(i)), X('Title', text(f'{p}.note{i}.title', 'title', kind)),
                      X('Desc', text(f'{p}.note{i}.desc', 'desc', kind))) for i in (2, 1))
    var = ''
    for i, (t, v) in enumerate((('Language', 'de'), ('Country', 'AT'), ('lang=fr-FR', 'x'), ('/lang=fr-FR', 'y'),
                                ('lang=en-AU', 'x'), ('/lang=en-AU', 'y'))):
        var += E('PROJECTVAR', X('ID', str(i + 1)), X('Title', t), X('Desc', v), X('Tags', '0'))
    if foreign:
        var += E('PROJECTVAR', X('ID', '9'), X('Title', T('f.var', 'word')), X('Desc', T('f.vardesc')), X('Tags', '0'))
    if scenes is None:
        scenes = ''.join(scene_xml(p, i + 1, sid, dates[i], F(f'scene{sid}') + (DERIVED_SCENE if foreign else ''),
                                   X('Field_Foreign', T(f'f.sf{sid}')) if foreign else '', kind)
                         for i, sid in enumerate(('11', '12', '13')))
    if chapters is None:
        chapters = ''.join(chapter_xml(p, cid, sc, F(f'chapter{cid}') + (X('SortOrder', '1') if foreign else ''), kind,
                                       X('Type', '0') + X('ChapterType', '0'),
                                       X('Field_Foreign', T(f'f.cf{cid}')) if foreign else '')
                           for cid, sc in (('22', ['12']), ('21', ['13', '11'])))
    root = ''.join((E('PROJECT', pr), world_xml(p, 'locations', '4', kind), world_xml(p, 'items', '5', kind),
                    world_xml(p, 'characters', '6', kind), E('PROJECTNOTES', notes), E('PROJECTVARS', var),
                    E('SCENES', scenes), E('CHAPTERS', chapters), F('root')))
    return '<?xml version="1.0" encoding="utf-8"?>\n' + E('YWRITER7', root)


DERIVED_SCENE = X('WordCount', '99') + X('LetterCount', '98') + X('BelongsToChID', '1') + X('RTFFile', 'x.rtf')


def foreign_xml(where):
    """Elements the application does not know."""
    return E('Foreign', esc(T(f'f.{where}.1'))) + E('Other', E('Inner', esc(T(f'f.{where}.2')), kind='k'),
                                                    E('Inner', esc(T(f'f.{where}.3'))), a='1') \
        + E('Foreign', esc(T(f'f.{where}.4')))


def put_file(j, files):
    st = j.base()
    st.fs = {**st.fs, **{k: (('text', v, 'utf-8', True) if isinstance(v, str) else v) for k, v in files.items()}}
    return st


def read_project(d, path='/p/x.yw7'):
    y = d.new('Yw7File', path)
    n = d.new('Novel')
    d.set(y, 'novel', n)
    d.call(y, 'read')
    return y, n
