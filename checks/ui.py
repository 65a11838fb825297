"""P31: user interfaces."""
import itertools

from vlib.check import Job
from vlib.core import PyRaise
from vlib.scen import *
from .build import *
from .conv import MALFORMED

TK = ('UiTk', 'MainTk')
FACADES = ('Ui', 'UiCmd', 'UiMb') + TK


def messages():
    return ('!not written', 'written', '!a ! b', 'File written: "/p/x!y.odt".', '! x', '!' + T('m'), T('m', 'word') + '!', 'x: ' + T('m'),
            '!' + T('m1') + '! ' + T('m2'), '!!x', 'y', '100 %', '!{0} %s')


def widgets(st):
    """Options of all widgets showing a text."""
    out = []
    for o in {**st.heap.base, **st.heap.over}.values():
        if o is not None and o.kind == 'inst' and any(getattr(c, 'name', '') == 'Misc' for c in o.cls.mro) and '_opts' in o.d:
            opts = to_host(st, o.d['_opts'])
            if 'text' in opts:
                out.append(opts)
    return out


def ui_events(st):
    return [(e[1].split('.')[-1], to_host(st, e[2])) for e in st.events if e[0] == 'ui' and 'messagebox' in e[1]]


def printed(st):
    """Text printed after the last mark."""
    out = []
    for e in st.events:
        if e == ('mark',):
            out = []
        elif e[0] in ('print', 'stderr'):
            out.append(' '.join(str(x) for x in e[1]) if isinstance(e[1], tuple) else str(e[1]))
    return ''.join(out).strip('\n')


def p31_message(j, cls):
    """Each message is shown completely, errors are marked."""
    for msg, before in itertools.product(messages(), (None, '!earlier', 'earlier')):
        def f(d):
            u = d.new(cls, 'title')
            if before:
                d.call(u, 'set_info_how', before)
            d.it.st.event('mark')
            d.call(u, 'set_info_how', msg)
            return d.a(u, 'infoHowText')
        for k, v, st in j.run(f):
            what = f'{cls}.set_info_how({show(msg)})' + (f' after {before!r}' if before else '')
            if not j.raised(f'no-exception/{cls}', k, v, st, what):
                continue
            fail = msg.startswith('!')
            text = msg.split('!', 1)[1].strip() if fail else msg
            w = j.anchor('set_info_how', 'infoHowText')
            st.events = st.events[list(st.events).index(('mark',)) + 1:]
            if cls in TK:
                hits = [o for o in widgets(st) if same(o['text'], text, st.facts) is True]
                j.ob(f'shown/{cls}', len(hits) == 1, f'{what}: shown {[o["text"] for o in widgets(st)]}', w)
                for o in hits:
                    j.ob(f'marked/{cls}', (o.get('bg', o.get('background')) == 'red') == fail, f'{what}: shown with the colour {o.get("bg")}', w)
                j.eq(f'kept/{cls}', v, text, what + ': infoHowText', w, st.facts)
            elif cls == 'UiMb':
                ev = ui_events(st)
                ok = len(ev) == 1 and ev[0][0] == ('showerror' if fail else 'showinfo')
                j.ob(f'shown/{cls}', ok, f'{what}: message boxes {ev}', w)
                if ok:
                    j.eq(f'text/{cls}', ev[0][1][1], text, what, w, st.facts)
            else:
                want = ('FAIL: ' if fail else '') + text
                j.eq(f'kept/{cls}', v, want, what + ': infoHowText', w, st.facts)
                shown = printed(st)
                if fail or cls == 'UiCmd':
                    j.eq(f'shown/{cls}', shown, want, what + ': printed', w, st.facts)


def p31_ask(j, cls):
    """Questions are shown completely, only a yes is a yes."""
    q = 'Overwrite "' + T('q') + '"?'
    for ans in ('y', 'n') if cls != 'UiCmd' else ('y', 'Y', 'n', 'N', '', 'x', ' ', 'no'):
        def f(d):
            return d.call(d.new(cls, 'title'), 'ask_yes_no', q)
        for k, v, st in j.run(f, answers=ans):
            what = f'{cls}.ask_yes_no() answered with {ans!r}'
            if not j.raised(f'no-exception/{cls}', k, v, st, what):
                continue
            w = j.anchor('ask_yes_no')
            asked = [e for e in st.events if e[0] == 'ask']
            if cls == 'Ui':
                j.ob('silent/Ui', v is True and not asked, f'{what}: {v}, {asked}', w)
                continue
            j.ob(f'answer/{cls}', v is (ans in ('y', 'Y')), f'{what}: the result is {v}', w)
            shown = [x for e in asked for x in (to_host(st, e[1]) if isinstance(e[1], tuple) else (e[1],)) if isinstance(x, str) and q in x]
            j.ob(f'question/{cls}', len(asked) == 1 and len(shown) == 1, f'{what}: shows {asked}', w)


def p31_other(j, cls):
    """Warnings and announcements are shown completely."""
    msg = 'x ' + T('m') + ' !'
    calls = [('show_warning', 'showwarning')]
    if cls == 'MainTk':
        calls += [('show_error', 'showerror'), ('show_info', 'showinfo')]
    if cls != 'Ui':
        for m, box in calls:
            for k, v, st in j.run(lambda d: d.call(d.new(cls, 'title'), m, msg)):
                what = f'{cls}.{m}()'
                if not j.raised(f'no-exception/{cls}', k, v, st, what):
                    continue
                if cls == 'UiCmd':
                    out = printed(st)
                    j.ob(f'warning/{cls}', msg in out, f'{what}: prints {out!r}', j.anchor(m))
                else:
                    ev = ui_events(st)
                    j.ob(f'{m}/{cls}', len(ev) == 1 and ev[0][0] == box and same(ev[0][1][1], msg, st.facts) is True, f'{what}: {ev}', j.anchor(m))
    if cls == 'MainTk':
        for m in ('show_status', 'show_path'):
            for k, v, st in j.run(lambda d: d.call(d.new(cls, 'title'), m, msg)):
                if j.raised(f'no-exception/{cls}', k, v, st, m):
                    hits = [o for o in widgets(st) if o['text'] == msg]
                    j.ob(f'{m}/{cls}', len(hits) == 1 and hits[0].get('bg') not in ('red', 'green'), f'{cls}.{m}(): {widgets(st)}', j.anchor(m))
        return

    def f(d):
        u = d.new(cls, 'title')
        d.call(u, 'set_info_what', msg)
        return d.a(u, 'infoWhatText')
    for k, v, st in j.run(f):
        what = f'{cls}.set_info_what()'
        if not j.raised(f'no-exception/{cls}', k, v, st, what):
            continue
        w = j.anchor('set_info_what')
        if cls == 'UiCmd':
            out = printed(st)
            j.ob(f'announced/{cls}', msg in out, f'{what}: prints {out}', w)
        else:
            j.eq(f'announced/{cls}', v, msg, what, w, st.facts)
        if cls == 'UiTk':
            j.ob(f'announced/{cls}', any(o['text'] == msg for o in widgets(st)), f'{what}: {widgets(st)}', w)


def p31_button(j):
    """The button offered after a conversion runs the given command."""
    def f(d):
        m = d.it.modules.get('opener') or d.it.load_source('opener', '/verif/checks/ui.py', "def run(*args):\n    print('opened')\n")
        u = d.new('UiTk', 'title')
        before = len(buttons(d.it.st))
        d.call(u, 'show_open_button', m.env['run'])
        new = buttons(d.it.st)[before:]
        d.it.st.event('mark')
        for o in new:
            d.it.call(o['command'], [], {})
        return [o.get('text') for o in new]
    for k, v, st in j.run(f):
        if j.raised('no-exception/UiTk', k, v, st, 'UiTk.show_open_button()'):
            j.ob('open-button/UiTk', len(v) == 1 and bool(v[0]) and printed(st) == 'opened',
                 f'UiTk.show_open_button() shows the buttons {v}; their commands do not run the given one', j.anchor('show_open_button'))


def buttons(st):
    return [o for o in widgets(st) if 'command' in o]


# ------------------------------------------------------------------------------- the main window
def prj(title, author):
    head = X('Ver', '7') + (X('Title', title) if title else '') + (X('AuthorName', author) if author else '')
    return '<?xml version="1.0" encoding="utf-8"?>\n' + E('YWRITER7', E('PROJECT', head), E('LOCATIONS'), E('ITEMS'), E('CHARACTERS'), E('PROJECTNOTES'),
                                                        E('SCENES'), E('CHAPTERS'))


def projects():
    good = {'/p/a.yw7': (T('title', 'word'), T('author', 'word')), '/p/b.yw7': (None, None), '/q/c.yw7': (T('title3', 'word'), None)}
    files = {p: prj(*x) for p, x in good.items()}
    files |= {'/p/bad.yw7': MALFORMED, '/p/locked.yw7': prj(T('no', 'word'), None), '/p/locked.yw7.lock': '', '/p/x.txt': 'x',
              '/p/coded.yw7': ('undecodable',), '/p/other.yw7': '<?xml version="1.0" encoding="utf-8"?>\n<x/>',
              '/p/part.yw7': prj(T('part', 'word'), None).replace('<SCENES></SCENES>', '<SCENES><SCENE><ID>1</ID><Status>x</Status></SCENE></SCENES>')}
    return good, files


STEPS = {'open a': ('open', '/p/a.yw7', ''), 'open b': ('open', '/p/b.yw7', ''), 'open malformed': ('open', '/p/bad.yw7', ''),
         'open locked': ('open', '/p/locked.yw7', ''), 'open undecodable': ('open', '/p/coded.yw7', ''),
         'open no project': ('open', '/p/other.yw7', ''), 'open damaged': ('open', '/p/part.yw7', ''),
         'open missing, cancel': ('open', '/p/none.yw7', ''), 'open missing, select c': ('open', '/p/none.yw7', '/q/c.yw7'),
         'select missing': ('open', '', '/q/none.yw7'), 'menu open b': ('menu', 'Open...', '/p/b.yw7'), 'key open a': ('key', '<Control-o>', '/p/a.yw7'),
         'key open, cancel': ('key', '<Control-o>', ''), 'close': ('close',), 'menu close': ('menu', 'Close', ''), 'status': ('status', 'note'),
         'restore': ('restore',), 'key restore': ('key', '<Escape>', '')}


def look(d, u):
    """What the window shows."""
    g = lambda w, o: d.val(d.call(d.get(u, w), 'cget', o))
    p = d.get(u, 'prjFile')
    nov = d.a(d.get(p, 'novel'), 'title') if p is not None else None
    return {'title': d.val(d.call(d.get(u, 'root'), 'title')), 'path': g('pathBar', 'text'), 'status': g('statusBar', 'text'),
            'colour': g('statusBar', 'bg'), 'close': d.val(d.call(d.get(u, 'fileMenu'), 'entrycget', 'Close', 'state')),
            'project': d.a(p, 'filePath') if p is not None else None, 'novel': nov,
            'same novel': p is None or d.get(p, 'novel') == d.get(u, 'novel'), 'last': d.val(d.get(u, 'kwargs')).get('yw_last_open')}


def p31_main(j, seqs):
    good, files = projects()
    st0 = put_file(j, files)
    st0.fs = {**st0.fs, '/p': ('dir',), '/q': ('dir',), '/cwd': ('dir',)}
    st0.cwd = '/cwd'
    for seq in seqs:
        def f(d):
            u = d.new('MainTk', 'App', yw_last_open='')
            out = [(None, look(d, u))]
            for name in seq:
                op, *args = STEPS[name]
                d.it.file_dialog = args[1] if len(args) > 1 else ''
                r = None
                if op == 'open':
                    r = d.call(u, 'open_project', args[0])
                elif op == 'close':
                    d.call(u, 'close_project')
                elif op == 'status':
                    d.call(u, 'show_status', args[0])
                elif op == 'restore':
                    d.call(u, 'restore_status')
                elif op == 'menu':
                    d.it.call(d.call(d.get(u, 'fileMenu'), 'entrycget', args[0], 'command'), [], {})
                elif op == 'key':
                    d.it.call(d.it.getitem(d.get(d.get(u, 'root'), '_bound'), args[0]), ['event'], {})
                out.append((d.val(r), look(d, u)))
            return out
        for k, v, st in j.run(f, st0, locale='en_US'):
            if not j.raised('no-exception/MainTk', k, v, st, f'main window: {", ".join(seq)}'):
                continue
            cur, note, last = None, '', ''
            prev = v[0][1]
            j.ob('start/MainTk', prev['project'] is None and prev['title'] == 'App' and prev['close'] == 'disabled', f'main window: {prev}')
            for i, name in enumerate(seq):
                r, see = v[i + 1]
                what = f'main window: {", ".join(seq[:i + 1])}'
                op, *args = STEPS[name]
                err = False
                if op == 'open' or name in ('menu open b', 'key open a', 'key open, cancel'):
                    p = args[0] if op == 'open' and args[0] in files else args[1]
                    if p:
                        if cur:
                            note = ''
                        cur = p if p in good else None
                        if cur is None:
                            note = ''
                        err = cur is None
                        last = p
                    if op == 'open':
                        j.ob('result/MainTk', r is bool(p and not err), f'{what}: open_project() returns {r}', j.anchor('open_project'))
                elif 'close' in name:
                    cur, note = None, ''
                elif op == 'status':
                    note = args[0]
                w = j.anchor('open_project', 'close_project', 'show_status', 'restore_status')
                t = 'App'
                if cur:
                    t = f'{good[cur][0] or "Untitled project"} by {good[cur][1] or "Unknown author"} - App'
                for key, want in (('project', cur), ('title', t), ('path', cur or ''), ('close', 'normal' if cur else 'disabled'),
                                  ('novel', good[cur][0] if cur else None), ('same novel', True), ('last', last)):
                    if key == 'last' and err:
                        continue
                    j.eq(f'{key}/MainTk', see[key], want, f'{what}: {key}', w, st.facts)
                if err:
                    j.ob('error/MainTk', see['colour'] == 'red' and len(see['status']) > 5, f'{what}: the status bar shows {see["status"]!r} in {see["colour"]}', w)
                else:
                    j.eq('status/MainTk', see['status'], note, f'{what}: status', w, st.facts)
                    if op != 'close' or True:
                        j.ob('colour/MainTk', see['colour'] not in ('red', 'green') or name == 'start', f'{what}: the status bar is {see["colour"]}', w)
                if err:
                    last = see['last']


def p31_quit(j):
    """The window geometry is kept for the configuration."""
    for how in ('method', 'close box', 'key', 'menu'):
        def f(d):
            u = d.new('MainTk', 'App', root_geometry='100x200+3+4')
            root = d.get(u, 'root')
            g0 = d.val(d.call(root, 'geometry'))
            d.call(root, 'geometry', '300x400+5+6')
            b = d.get(root, '_bound')
            if how == 'method':
                d.call(u, 'on_quit')
            elif how == 'menu':
                d.it.call(d.call(d.get(u, 'fileMenu'), 'entrycget', 'Exit', 'command'), [], {})
            else:
                d.it.call(d.it.getitem(b, 'WM_DELETE_WINDOW' if how == 'close box' else '<Control-q>'), [] if how == 'close box' else ['event'], {})
            return g0, d.val(d.get(u, 'kwargs')).get('root_geometry')
        for k, v, st in j.run(f):
            if j.raised('no-exception/quit', k, v, st, f'leaving by {how}'):
                j.eq('geometry/set', v[0], '100x200+3+4', f'leaving by {how}', j.anchor('root_geometry'))
                j.eq('geometry/kept', v[1], '300x400+5+6', f'leaving by {how}', j.anchor('root_geometry'))


def jobs31(tier):
    out = [Job(f'{fn.__name__[4:]}/{c}', fn, (c,)) for fn in (p31_message, p31_ask, p31_other) for c in FACADES]
    out += [Job('quit', p31_quit), Job('button', p31_button)]
    seqs = list(itertools.product(STEPS, repeat=2))
    short = ('open a', 'open malformed', 'open locked', 'key open, cancel', 'menu close', 'status', 'restore')
    seqs += itertools.product(short if tier == 'quick' else STEPS, repeat=3)
    if tier == 'thorough':
        seqs += itertools.product(short, repeat=4)
    n = 60
    out += [Job(f'main{i // n}', p31_main, (seqs[i:i + n],)) for i in range(0, len(seqs), n)]
    return out


P31 = dict(
    rule='Abstract interpretation of the user interface classes with stand-ins for the window system: messages of unknown text are shown in full, with '
         'the error mark if and only if they are errors; answers are returned as given; after every sequence of up to three operations of the main '
         'window (projects that can and cannot be read), project, novel, title, path bar, menu and status bar agree.',
    assumptions=['stand-in for tkinter in vlib/stubs', 'models in vlib/models.py'],
    jobs=jobs31)
