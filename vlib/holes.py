"""Abstract strings: host strings whose unknown parts are single private-use characters ("holes").

A hole stands for an arbitrary non-empty text of a kind.  It carries its origin (a label naming where the
text comes from) and the chain of transformations applied to it since.  A transformation is recorded only
if it can change a text of that kind; this is decided on the kind's probe texts, which contain the
characters any transformation in question distinguishes.
"""
import html
import re
import urllib.parse
import xml.etree.ElementTree as ET
from xml.sax.saxutils import escape as _sx_escape, unescape as _sx_unescape

BASE = 0x100000
HOLE_RE = re.compile('[\U00100000-\U0010fffd]')

_MARK = ('&', '<', '>', '"', "'", '&amp;', '&lt;', '&#65;', ']]>', '\\', '$x', '${Title}', '$$', '%s', '{0}',
         '<TEX a b /TEX>', '/x', 'A&B<C>"D"', "a;b", 'a, b', 'C:', '#', '@x', '~', 'a|b', 'ä—é', 'a--b',
         '<RTFBRK>', '[x]', '(!)x', "it's", '*', 'a\u00a0b', 'nan', 'None', 'x\ty')
KINDS = {
    # free one-line text, any characters, inner blanks, no outer blanks, no line breaks
    'text': ('plain', 'two words', 'a  b') + _MARK,
    # free text that may also have blanks at its ends
    'raw': ('plain', ' lead', 'trail ', '  both  ', ' ', 'two words') + _MARK,
    # element of a separated list: no ';' and no ','
    'tag': tuple(x for x in ('plain', 'two words') + _MARK if ';' not in x and ',' not in x and x == x.strip()),
    # digits
    'num': ('7', '123'),
    # word without any markup character
    'word': ('plain', 'Word'),
    # name of a file without path separators
    'fname': ('plain', 'my file', 'a&b', 'x_y', 'A.b', 'it%41', "o'n", 'ä', '$(x)', '`x`', 'a;b', '"q"'),
}


class Hole:
    __slots__ = ('origin', 'kind', 'ops', 'id')

    def __init__(self, origin, kind, ops, id):
        self.origin, self.kind, self.ops, self.id = origin, kind, ops, id

    def __repr__(self):
        return f'<{self.origin}{"".join("|" + str(o[0]) for o in self.ops)}>'


TABLE = []
_INDEX = {}


class OpFail(Exception):
    pass


class Opaque(Exception):
    """The effect of an operation on a probe is not modelled."""


def _xml_unescape(s):
    """What an XML parser makes of character data; OpFail if it is not well-formed."""
    out = []
    i = 0
    ent = {'amp': '&', 'lt': '<', 'gt': '>', 'quot': '"', 'apos': "'"}
    while i < len(s):
        c = s[i]
        if c == '<':
            raise OpFail('markup')
        if s.startswith(']]>', i):
            raise OpFail(']]>')
        if c == '&':
            j = s.find(';', i)
            if j < 0:
                raise OpFail('entity')
            name = s[i + 1:j]
            if name in ent:
                out.append(ent[name])
            elif re.fullmatch(r'#[0-9]+', name):
                out.append(chr(int(name[1:])))
            elif re.fullmatch(r'#x[0-9a-fA-F]+', name):
                out.append(chr(int(name[2:], 16)))
            else:
                raise OpFail('entity')
            i = j + 1
            continue
        out.append(c)
        i += 1
    return ''.join(out)


def _et_escape(s):
    return s.replace('&', '&amp;').replace('<', '&lt;').replace('>', '&gt;')


def _et_escape_attr(s):
    s = _et_escape(s).replace('"', '&quot;')
    return s.replace('\r', '&#13;').replace('\n', '&#10;').replace('\t', '&#09;')


def _parsed(xml):
    try:
        return ET.fromstring(xml)
    except ET.ParseError as e:
        raise OpFail(str(e))


def _cdata_read(s):
    e = _parsed('<a><![CDATA[' + s + ']]></a>')
    if len(e):
        raise OpFail('markup')
    return e.text or ''


def _attr_read(s):
    e = _parsed('<a b="' + s + '"/>')
    if len(e.attrib) != 1:
        raise OpFail('attribute')
    return e.get('b')


def _slice(s, a, b):
    return s[a:b]


OPS = {
    'replace': lambda s, a, b, n=-1: s.replace(a, b, n),
    'resub': lambda s, pat, repl, flags, n: re.sub(pat, repl, s, count=n, flags=flags),
    'strip': lambda s, c=None: s.strip(c), 'lstrip': lambda s, c=None: s.lstrip(c),
    'rstrip': lambda s, c=None: s.rstrip(c),
    'lower': str.lower, 'upper': str.upper, 'title': str.title, 'capitalize': str.capitalize,
    'casefold': str.casefold, 'swapcase': str.swapcase,
    'zfill': lambda s, n: s.zfill(n),
    'slice': _slice, 'clip': _slice,
    'removeprefix': lambda s, p: s.removeprefix(p), 'removesuffix': lambda s, p: s.removesuffix(p),
    'expandtabs': lambda s, n=8: s.expandtabs(n),
    'unescape': html.unescape, 'hescape': lambda s, q=True: html.escape(s, q),
    'sxescape': lambda s, ent=(): _sx_escape(s, dict(ent)),
    'etescape': _et_escape, 'etescapeattr': _et_escape_attr,
    'xmlunescape': _xml_unescape, 'cdataread': _cdata_read, 'attrread': _attr_read, 'sxunescape': _sx_unescape,
    'attrnorm': lambda s: s.replace('\n', ' ').replace('\t', ' ').replace('\r', ' '),
    'quote': lambda s, safe='/': urllib.parse.quote(s, safe),
    'unquote': urllib.parse.unquote,
    'translate': lambda s, t: s.translate({k: v for k, v in t}),
    'splitpart': lambda s, sep, i, n: s.split(sep, n)[i] if i < len(s.split(sep, n)) else '',
    'charref': lambda s, enc: s.encode(enc, 'xmlcharrefreplace').decode(enc),
    'opaque': None,
}


def apply_ops(ops, s):
    for o in ops:
        f = OPS.get(o[0])
        if f is None:
            raise Opaque(o[0])
        s = f(s, *o[1:])
    return s


def new_hole(origin, kind='text', ops=()):
    key = (origin, kind, ops)
    i = _INDEX.get(key)
    if i is None:
        i = len(TABLE)
        if i >= 0xfff0:
            raise MemoryError('too many holes')
        TABLE.append(Hole(origin, kind, ops, i))
        _INDEX[key] = i
    return chr(BASE + i)


def hole(ch):
    return TABLE[ord(ch) - BASE]


def is_hole(ch):
    return 0x100000 <= ord(ch) <= 0x10fffd


def has_holes(s):
    return HOLE_RE.search(s) is not None


def holes_in(s):
    return HOLE_RE.findall(s)


def probes(h):
    return KINDS.get(h.kind, KINDS['text'])


def facts_ok(h, probe, facts):
    """Does the probe agree with what is known about the hole on this path?"""
    if not facts:
        return True
    for k, v in facts.items():
        if k[0] == 'hp' and k[1] == h.origin:
            try:
                img = apply_ops(k[2], probe)
            except (Opaque, OpFail):
                continue
            if PREDS[k[3]](img, *k[4]) != v:
                return False
    return True


PREDS = {
    'contains': lambda s, x: x in s,
    'once': lambda s, x: s.count(x) == 1,
    'startswith': lambda s, x: s.startswith(x),
    'endswith': lambda s, x: s.endswith(x),
    'equals': lambda s, x: s == x,
    'search': lambda s, pat, flags: re.search(pat, s, flags) is not None,
    'match': lambda s, pat, flags: re.match(pat, s, flags) is not None,
    'fullmatch': lambda s, pat, flags: re.fullmatch(pat, s, flags) is not None,
    'isdigit': lambda s: s.isdigit(), 'isnumeric': lambda s: s.isnumeric(), 'isspace': lambda s: s.isspace(),
    'isalpha': lambda s: s.isalpha(), 'isalnum': lambda s: s.isalnum(), 'islower': lambda s: s.islower(),
    'isupper': lambda s: s.isupper(), 'isdecimal': lambda s: s.isdecimal(), 'isascii': lambda s: s.isascii(),
    'isidentifier': lambda s: s.isidentifier(), 'isprintable': lambda s: s.isprintable(),
    'istitle': lambda s: s.istitle(),
    'empty': lambda s: s == '',
    'strip_changes': lambda s, c=None: s.strip(c) != s,
    'same': lambda s, ops: apply_ops(ops, s) == s,
}


_CACHE = {}


def op(ch, *o):
    """Apply a transformation to a hole."""
    k = (ch, o)
    r = _CACHE.get(k)
    if r is None:
        r = _CACHE[k] = _op(ch, *o)
    return r


def _op(ch, *o):
    h = hole(ch)
    f = OPS.get(o[0])
    if f is None:
        return new_hole(h.origin, h.kind, h.ops + (o,))
    changed = False
    for p in probes(h):
        try:
            img = apply_ops(h.ops, p)
        except OpFail:
            continue
        except Opaque:
            changed = True
            break
        try:
            if f(img, *o[1:]) != img:
                changed = True
                break
        except OpFail:
            changed = True
            break
    if not changed:
        return ch
    ops = h.ops + (o,)
    # normalise chains that are the identity on all probes
    try:
        if all(apply_ops(ops, p) == p for p in probes(h)):
            ops = ()
    except (OpFail, Opaque):
        pass
    return new_hole(h.origin, h.kind, ops)


def map_holes(s, f):
    return HOLE_RE.sub(lambda m: f(m.group()), s)


def images(ch, facts=None):
    """[(probe, image)]; image is None if the transformation fails on the probe."""
    h = hole(ch)
    out = []
    for p in probes(h):
        if not facts_ok(h, p, facts):
            continue
        try:
            out.append((p, apply_ops(h.ops, p)))
        except OpFail:
            out.append((p, None))
    return out


def same_text(ch, facts=None, want=None):
    """Is the hole's text want(original) on all probes?  None if it cannot be told; (True, None) / (False, probe)."""
    try:
        for p, i in images(ch, facts):
            if i != (want(p) if want else p):
                return False, (p, i)
    except Opaque:
        return None, None
    return True, None


def show(s):
    """Readable form of an abstract string."""
    if not isinstance(s, str):
        return repr(s)
    return HOLE_RE.sub(lambda m: '{' + repr(hole(m.group()))[1:-1] + '}', s)


def concretise(s, k, facts=None):
    """Replace each hole by the image of its k-th probe (modulo the number of probes)."""
    def f(m):
        h = hole(m.group())
        ps = [p for p in probes(h) if facts_ok(h, p, facts)] or list(probes(h))
        p = ps[k % len(ps)]
        return apply_ops(h.ops, p)
    return HOLE_RE.sub(f, s)


MAXP = max(len(v) for v in KINDS.values())
