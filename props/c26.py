"""Glyph widths come from the font arrays."""
import pdfsyntax as p
import pdfsyntax.docstruct as ds
import pdfsyntax.text as t
from props.common import *
from props.pdffile import *
from props.c25 import hexa


class Widths:
    """A /W array of groups: ('list', number of widths) or ('range', None)."""

    def __init__(self, c, groups, first=(0, 40), span=4, default=None):
        self.w = []
        self.groups = []
        self.default = 1000 if default is None else default
        for i, g in enumerate(groups):
            lo = c.int(f'first{i}', *first)
            if g[0] == 'list':
                ws = [c.int(f'w{i}.{k}', 0, 2000) for k in range(g[1])]
                self.w += [lo, ws]
                self.groups.append((lo, lo + g[1] - 1, ws))
            else:
                hi = lo + c.int(f'span{i}', 0, span)
                w = c.int(f'w{i}', 0, 2000)
                self.w += [lo, hi, w]
                self.groups.append((lo, hi, w))
        for i, a in enumerate(self.groups): #no code has two widths
            for b in self.groups[:i]:
                c.assume(a[1] < b[0] or b[1] < a[0])

    def want(self, code):
        for lo, hi, w in self.groups:
            if code >= lo and code <= hi:
                if not isinstance(w, list):
                    return w
                for k, x in enumerate(w):
                    if code == lo + k:
                        return x
        return self.default


def array(c, groups, first=(0, 40), span=4, codes=(0, 60)):
    """Any array and any code."""
    w = Widths(c, groups, first, span, c.int('dw', 0, 2000))
    f = ds.prepare_w(w.w, w.default)
    code = c.int('code', *codes)
    c.same(f(code), w.want(code), 'width')


def wide(c):
    """A range of all codes and a list at the end, any two-byte code."""
    a, b, d = c.int('a', 0, 2000), c.int('b', 0, 2000), c.int('d', 0, 2000)
    m = c.int('m', 250, 260)
    f = ds.prepare_w([0, m, a, 65535, [b]], d)
    code = c.int('code', 245, 300)
    c.same(f(code), a if code <= m else d, 'range')
    c.same(f(65535), b, 'last code')
    c.same(ds.prepare_w(None, d)(code), d, 'no array')
    c.same(ds.prepare_w([], d)(code), d, 'empty array')


def simple(c, n):
    """Widths of a simple font."""
    ws = [c.int(f'w{k}', 0, 2000) for k in range(n)]
    first = c.int('first', 0, 255 - n)
    f = ds.prepare_widths(ws, first)
    code = c.byte('code')
    got = f(code)
    for k in range(n):
        if code == first + k:
            c.same(got, ws[k], 'width')
            return
    c.same(got, 500, 'default')


def long(c, n, kind):
    """Long arrays: any code, any first code."""
    d = c.int('dw', 0, 2000)
    ws = [(i * 37) % 1000 for i in range(n)]
    at = c.choice('at', [0, n // 2, n - 1])
    ws[at] = c.int('w', 0, 2000)
    if kind == 'simple':
        first = c.int('first', 0, 255)
        f = ds.prepare_widths(ws, first)
        c.same(f(first + at), ws[at], 'width')
        code = c.byte('code')
        c.assume(code < first or code >= first + n)
        c.same(f(code), 500, 'default')
        c.same(f(first + n - 1), ws[n - 1], 'last width')
        c.same(f(first), ws[0], 'first width')
    elif kind == 'list':
        first = c.choice('first', [0, 1, 200, 65000])
        f = ds.prepare_w([first, ws, first + n + 1, first + n + 2, 77], d)
        code = first + c.int('code', -2, 1) + at
        for k in range(-1, n + 4):
            want = ws[k] if 0 <= k < n else 77 if k in (n + 1, n + 2) else d
            c.same(f(first + k), want, 'width')
    else:
        w = []
        for i in range(n):
            w += [3 * i, [ws[i]]] if i % 2 else [3 * i, 3 * i + 1, ws[i]]
        f = ds.prepare_w(w, d)
        for k in range(n):
            c.same(f(3 * k), ws[k], 'width')
            c.same(f(3 * k + 1), d if k % 2 else ws[k], 'width of the next code')
            c.same(f(3 * k + 2), d, 'default width')


def font(c, kind, indirect=False, groups=()):
    """The widths of a font of a document."""
    objs = page_objs(1)
    objs[3][1]['/Resources'] = {'/Font': {'/F1': 5j}}
    code = c.byte('code')
    if kind == 'simple':
        ws = [c.int(f'w{k}', 100, 999) for k in range(3)]
        first = c.int('first', 10, 99)
        objs[5] = (0, {'/Type': '/Font', '/Subtype': '/TrueType', '/BaseFont': '/X', '/FirstChar': 7j if indirect else first, '/LastChar': 99, '/Widths': 6j if indirect else ws})
        objs[6], objs[7] = (0, ws), (0, first)
        want = 500
        for k in range(3):
            if code == first + k:
                want = ws[k]
    elif kind == 'standard':
        objs[5] = (0, {'/Type': '/Font', '/Subtype': '/Type1', '/BaseFont': '/Helvetica'})
        want = 500
    else:
        dw = c.int('dw', 100, 999) if c.flag('has dw') else None
        w = Widths(c, groups, first=(10, 99), span=2, default=dw)
        d = {'/Type': '/Font', '/Subtype': '/CIDFontType2', '/W': 7j if indirect else w.w}
        if not groups:
            del d['/W']
        if dw is not None:
            d['/DW'] = 9j if indirect else dw
            objs[9] = (0, dw)
        objs[5] = (0, {'/Type': '/Font', '/Subtype': '/Type0', '/BaseFont': '/X', '/Encoding': '/Identity-H', '/DescendantFonts': 8j if indirect else [6j]})
        objs[6], objs[8] = (0, d), (0, [6j])
        objs[7] = (0, w.w)
        want = w.want(code)
    wr = Writer()
    wr.revision(objs)
    f = ds.get_page_fonts(p.loads(wr.out), [0])[0]['/F1']
    c.same(f['char_width'](code), want, 'font width')


def displaced(c, kind, shape):
    """Displacement of shown text; shape: s a string of one code, S two codes, e an empty one, n an adjustment."""
    ws = [c.int(f'w{k}', 0, 2000) for k in range(3)]
    table = ds.prepare_widths(ws, 65)
    fonts = {'/F1': {'char_width': table, 'dec_fun': lambda x: t.apply_encoding('/WinAnsiEncoding', x)}}
    els, want = [], 0
    for i, k in enumerate(shape):
        if k == 'n':
            v = c.int(f'n{i}', -3000, 3000) if i % 2 else c.int(f'n{i}', -3000, 3000) / 10
            els.append(v)
            want = want - v / 1000
        else:
            bs = [c.byte(f's{i}.{j}', b'ABCD') for j in range(len(k) if k == 's' else 2 if k == 'S' else 0)]
            els.append(hexa(bs))
            for b in bs:
                want = want + (ws[b - 65] if b < 68 else 500) / 1000
    element = [els, 'TJ'] if kind == 'TJ' else [els[0], kind] if kind != '"' else [c.int('a', 0, 9), c.int('b', 0, 9), els[0], kind]
    text, width = t.text_element_to_unicode(fonts, element, {'Tf': '/F1'})
    c.close(width, want, 'displacement')


CASES = [
    ('simple', simple, [dict(n=1), dict(n=3), dict(n=0)], 'up to three widths, any first code, any byte'),
    ('long', long, {'quick': [dict(n=40, kind=k) for k in ('simple', 'list', 'groups')] + [dict(n=224, kind='simple'), dict(n=256, kind='simple'), dict(n=700, kind='list')], 'thorough': [dict(n=300, kind='groups')]}, 'arrays of 40 to 700 widths, any code and any first code'),
    ('wide', wide, [{}], 'a range ending between 250 and 260'),
    ('array', array, {'quick': [dict(groups=[('list', 2)]), dict(groups=[('range', 0)]), dict(groups=[('list', 1), ('range', 0)], first=(0, 9), codes=(0, 15)), dict(groups=[('range', 0), ('list', 2)], first=(0, 9), codes=(0, 15)), dict(groups=[('range', 0), ('range', 0)], first=(0, 9), codes=(0, 15), span=2)],
                      'thorough': [dict(groups=[('list', 2), ('range', 0), ('list', 1)], first=(0, 9), codes=(0, 15)), dict(groups=[('range', 0), ('list', 2), ('range', 0)], first=(0, 9), codes=(0, 15), span=2)]}, 'one or two groups (thorough: three), first codes to 9 or 40, ranges of up to 5 codes'),
    ('font', font, [dict(kind='simple'), dict(kind='simple', indirect=True), dict(kind='standard'), dict(kind='composite', groups=[('list', 2)]), dict(kind='composite', indirect=True, groups=[('range', 0)]), dict(kind='composite')], 'fonts of a document'),
    ('displaced', displaced, {'quick': [dict(kind='Tj', shape='S'), dict(kind="'", shape='s'), dict(kind='"', shape='s'), dict(kind='TJ', shape='sns'), dict(kind='TJ', shape='nne'), dict(kind='TJ', shape='')], 'thorough': [dict(kind='TJ', shape='nSnsn')]}, 'the listed elements'),
]
