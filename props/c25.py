"""Shown text maps to Unicode as the font prescribes."""
import pdfsyntax as p
import pdfsyntax.docstruct as ds
import pdfsyntax.text as t
from props.common import *
from props.pdffile import *

H = b'0123456789abcdef'
HU = b'0123456789ABCDEF'


def hexa(bs, upper=False):
    """Hexadecimal string of some byte values."""
    out = []
    for b in bs:
        out += [(HU if upper else H)[b // 16], (HU if upper else H)[b % 16]]
    return b'<' + bytes(out) + b'>'


def octal(bs):
    out = []
    for b in bs:
        out += [92, 48 + b // 64, 48 + b // 8 % 8, 48 + b % 8]
    return b'(' + bytes(out) + b')'


def literal(c, bs):
    c.assume(all([b not in b'()\\\r' for b in bs]))
    return b'(' + bytes(bs) + b')'


def shown(c, bs, how):
    return hexa(bs) if how == 'hex' else hexa(bs, True) if how == 'HEX' else octal(bs) if how == 'octal' else literal(c, bs)


class Map:
    """A character map: entries (low, high, targets). Codes have wl bytes; low bytes are symbolic."""

    def __init__(self, c, wl, sections, span=256):
        self.c, self.wl = c, wl
        self.span = bytes(range(65, 65 + span)) if span < 256 else None
        self.text = []      # tokens of the sections
        self.maps = []
        self.n = 0
        for s in sections:
            kind, k = s[0], s[1]
            name = 'bfchar' if kind == 'char' else 'bfrange'
            body = []
            for i in range(k):
                self.n += 1
                body += self.entry(kind, s[2] if len(s) > 2 else 1)
            self.text += [b'%d' % k, b'begin' + name.encode('ascii')] + body + [b'end' + name.encode('ascii')]

    def target(self, units):
        """A target of some code units: (bytes, value of the last unit, prefix)."""
        c, n = self.c, self.n
        last = [c.choice(f'u{n}h', [0x00, 0x20]), c.byte(f'u{n}l')]
        prefix = [0x00, 0x66, 0xd8, 0x3d, 0x20, 0xac][:2 * (units - 1)] if units != 3 else [0x00, 0x66, 0x00, 0x69]
        self.n += 1
        return prefix + last, [prefix[i] * 256 + prefix[i + 1] for i in range(0, len(prefix), 2)], last[0] * 256 + last[1]

    def entry(self, kind, units):
        c, n, wl = self.c, self.n, self.wl
        if kind == 'cross': #a range over several high bytes
            lo, hi = [c.choice(f'c{n}h', [0, 1]), c.byte(f'c{n}')], [c.choice(f'd{n}h', [1, 2]), c.byte(f'd{n}')]
            b = [c.choice(f'u{n}h', [0x00, 0x20]), c.byte(f'u{n}l')]
            a, z = self.code(lo[:1], lo[1]), self.code(hi[:1], hi[1])
            c.assume(a <= z)
            self.maps.append((a, z, [([], b[0] * 256 + b[1])], True))
            return [hexa(lo), hexa(hi), hexa(b)]
        high = [c.choice(f'c{n}h', [0, 1])] if wl == 2 else []
        if kind == 'char':
            lo = c.byte(f'c{n}', self.span)
            b, prefix, last = self.target(units)
            self.maps.append((self.code(high, lo), self.code(high, lo), [(prefix, last)], False))
            return [hexa(high + [lo]), hexa(b)]
        lo, hi = c.byte(f'c{n}', self.span), c.byte(f'd{n}', self.span)
        if kind == 'range':
            c.assume(lo <= hi)
            b, prefix, last = self.target(units)
            c.assume(b[-1] + (hi - lo) <= 255)
            self.maps.append((self.code(high, lo), self.code(high, hi), [(prefix, last)], True))
            return [hexa(high + [lo]), hexa(high + [hi], True), hexa(b, True)]
        c.assume(hi - lo == units)
        targets = [self.target(1) for i in range(units + 1)]
        self.maps.append((self.code(high, lo), self.code(high, hi), [x[1:] for x in targets], False))
        return [hexa(high + [lo]), hexa(high + [hi])] + [[hexa(x[0]) for x in targets]]

    def code(self, high, lo):
        return high[0] * 256 + lo if high else lo

    def disjoint(self):
        for i, a in enumerate(self.maps):
            for b in self.maps[:i]:
                self.c.assume(a[1] < b[0] or b[1] < a[0])

    def parsed(self):
        """The map as parsed tokens."""
        return [x if isinstance(x, list) or x[:1] == b'<' else x.decode('ascii') for x in self.text]

    def stream(self):
        out = b'/CIDInit /ProcSet findresource begin\n12 dict begin begincmap\n/CMapName /X def\n1 begincodespacerange\n'
        out = out + (b'<00> <ff>' if self.wl == 1 else b'<0000> <ffff>') + b'\nendcodespacerange\n'
        for x in self.text:
            out = out + (pt(x)) + b'\n'
        return out + b'endcmap\nend'

    def want(self, code):
        """Code points of a code."""
        for lo, hi, targets, increment in self.maps:
            if code >= lo and code <= hi:
                if increment:
                    return targets[0][0] + [targets[0][1] + code - lo]
                for i, (prefix, last) in enumerate(targets):
                    if code == lo + i:
                        return prefix + [last]
        return []


def compare(c, got, want, label):
    codes = [ord(x) for x in got]
    c.same(len(codes), len(want), label + 'length')
    c.same(codes, want, label + 'text')


def codes_of(c, wl, k, span=None):
    bs, vs = [], []
    for i in range(k):
        h = [c.choice(f's{i}h', [0, 1])] if wl == 2 else []
        b = c.byte(f's{i}', span)
        bs += h + [b]
        vs.append(h[0] * 256 + b if h else b)
    return bs, vs


def mapped(c, wl, sections, k, notation=('hex',), span=256):
    """Any codes, any targets, any string."""
    m = Map(c, wl, sections, span)
    m.disjoint()
    bs, vs = codes_of(c, wl, k, m.span)
    s = shown(c, bs, c.choice('notation', notation))
    text, codes = t.apply_tounicode(m.parsed(), s, wl == 1)
    want = []
    for v in vs:
        want += m.want(v)
    compare(c, text, want, '')
    c.same(codes, vs, 'codes')


def long(c, wl, n, kind):
    """Many mappings, a long string: any one of the codes and any one of the targets."""
    base = 256 if wl == 2 else 0
    tg = [0x391 + i for i in range(n)]
    at = c.choice('at', [0, n // 2, n - 1])
    tg[at] = 0x2000 + c.byte('t')
    hx = lambda code: b'<%02x>' % code if wl == 1 else b'<%04x>' % code
    tx = lambda u: hexa([u // 256, u % 256])
    toks = []
    if kind == 'chars':
        for s in range(0, n, 100):
            part = range(s, min(s + 100, n))
            toks += [len(part), 'beginbfchar'] + [x for i in part for x in (hx(base + i), tx(tg[i]))] + ['endbfchar']
    elif kind == 'ranges':
        toks = [n, 'beginbfrange'] + [x for i in range(n) for x in (hx(base + i), hx(base + i), tx(tg[i]))] + ['endbfrange']
    else:
        toks = [1, 'beginbfrange', hx(base), hx(base + n - 1), [tx(u) for u in tg], 'endbfrange']
    order = [(7 * i) % n for i in range(3 * n // 2)] + [at, at]
    bs = []
    for i in order:
        code = base + i
        bs += [code // 256, code % 256] if wl == 2 else [code]
    text, codes = t.apply_tounicode(toks, hexa(bs), wl == 1)
    compare(c, text, [tg[i] for i in order], 'long ')
    c.same(codes, [base + i for i in order], 'codes')


def font(c, wl, sections, subtype, span=256):
    """A font of a document: the map is a stream."""
    m = Map(c, wl, sections, span)
    m.disjoint()
    objs = page_objs(1)
    d = {'/Type': '/Font', '/Subtype': subtype, '/BaseFont': '/X', '/ToUnicode': 6j}
    if subtype == '/Type0':
        d['/DescendantFonts'] = [7j]
    objs[5] = (0, d)
    objs[7] = (0, {'/Subtype': '/CIDFontType2', '/DW': 500})
    objs[6] = (0, St({}, m.stream()))
    objs[3][1]['/Resources'] = {'/Font': {'/F1': 5j}}
    w = Writer()
    w.revision(objs)
    doc = p.loads(w.out)
    fonts = ds.get_page_fonts(doc, [0])[0]
    bs, vs = codes_of(c, wl, 1, m.span)
    text, codes = fonts['/F1']['dec_fun'](hexa(bs))
    compare(c, text, m.want(vs[0]), 'font ')
    c.same(codes, vs, 'codes')


def page(c, wl):
    """Text of a page."""
    m = Map(c, wl, [('char', 2)])
    m.disjoint()
    objs = page_objs(1)
    objs[5] = (0, {'/Type': '/Font', '/Subtype': '/TrueType', '/BaseFont': '/X', '/ToUnicode': 6j})
    objs[6] = (0, St({}, m.stream()))
    objs[3][1]['/Resources'] = {'/Font': {'/F1': 5j}}
    bs, vs = codes_of(c, wl, 2)
    objs[8] = (0, St({}, b'BT /F1 12 Tf 10 20 Td ' + hexa(bs) + b' Tj ET'))
    objs[3][1]['/Contents'] = 8j
    w = Writer()
    w.revision(objs)
    text = p.extract_page_text(p.loads(w.out), 0)
    want = []
    for v in vs:
        want += m.want(v)
    c.assume(all([x > 32 for x in want]))
    got = [ord(x) for x in text if ord(x) != 10]
    c.same(got, want, 'page text')


def unmapped(c, wl):
    """A map without mappings gives nothing."""
    bs, vs = codes_of(c, wl, 2)
    for cmap in ([], ['begincmap', 'endcmap'], [1, 'begincodespacerange', b'<00>', b'<ff>', 'endcodespacerange']):
        text, codes = t.apply_tounicode(cmap, hexa(bs), wl == 1)
        c.same(text, '', 'nothing')
        c.same(codes, vs, 'codes')


MAC_UNDEFINED = b'\x7f\xad\xb0\xb2\xb3\xb6\xb7\xb8\xb9\xba\xbd\xc3\xc5\xc6\xca\xd7\xdb\xf0'
WIN_UNDEFINED = b'\x7f\x81\x8d\x8f\x90\x9d\xa0\xad'


def encoded(c, k, how):
    """Without map the encoding applies to each byte."""
    enc = c.choice('encoding', ['/MacRomanEncoding', '/WinAnsiEncoding'])
    codec, undef = ('mac_roman', MAC_UNDEFINED) if enc == '/MacRomanEncoding' else ('cp1252', WIN_UNDEFINED)
    table = [ord(bytes([b]).decode(codec, 'replace')) for b in range(256)]
    bs = [c.byte(f's{i}') for i in range(k)]
    c.assume(all([b >= 32 and b not in undef for b in bs]))
    s = shown(c, bs, how)
    text, codes = t.apply_encoding(enc, s)
    compare(c, text, [table[b] for b in bs], 'encoding ')
    c.same(codes, bs, 'codes')
    w = Writer()
    objs = page_objs(1)
    objs[5] = (0, {'/Type': '/Font', '/Subtype': '/Type1', '/BaseFont': '/X', '/Encoding': enc if c.flag('direct') else 6j})
    objs[6] = (0, enc)
    objs[3][1]['/Resources'] = {'/Font': {'/F1': 5j}}
    w.revision(objs)
    f = ds.get_page_fonts(p.loads(w.out), [0])[0]['/F1']
    text, codes = f['dec_fun'](s)
    compare(c, text, [table[b] for b in bs], 'font encoding ')


CASES = [
    ('long', long, {'quick': [dict(wl=1, n=24, kind='chars'), dict(wl=1, n=130, kind='array'), dict(wl=2, n=24, kind='ranges'), dict(wl=2, n=110, kind='chars')], 'thorough': [dict(wl=2, n=300, kind=k) for k in ('chars', 'ranges', 'array')]}, 'up to 130 mappings and strings of 197 codes (thorough: 300 and 452)'),
    ('unmapped', unmapped, [dict(wl=1), dict(wl=2)], 'two codes'),
    ('encoded', encoded, {'quick': [dict(k=2, how='hex'), dict(k=2, how='octal'), dict(k=2, how='plain')], 'thorough': [dict(k=4, how='plain')]}, 'two codes (thorough: four)'),
    ('font', font, [dict(wl=1, sections=[('char', 1), ('range', 1)], subtype='/TrueType'), dict(wl=2, sections=[('range', 1), ('array', 1, 1)], subtype='/Type0', span=12)], 'maps of two mappings in a document'),
    ('mapped', mapped, {'quick': [dict(wl=1, sections=[('char', 2)], k=2, span=40), dict(wl=1, sections=[('char', 1)], k=1, notation=('hex', 'HEX', 'octal', 'plain')), dict(wl=2, sections=[('char', 2, 2)], k=1, notation=('hex', 'plain')),
                                  dict(wl=1, sections=[('range', 1)], k=2), dict(wl=2, sections=[('range', 1, 2)], k=2), dict(wl=2, sections=[('cross', 1)], k=1), dict(wl=1, sections=[('array', 1, 1)], k=2, notation=('HEX',)), dict(wl=2, sections=[('array', 1, 2)], k=1),
                                  dict(wl=1, sections=[('char', 1), ('range', 1), ('array', 1, 1)], k=1, span=12), dict(wl=2, sections=[('range', 1), ('char', 1, 3), ('range', 1)], k=1, span=8)],
                         'thorough': [dict(wl=1, sections=[('char', 3), ('range', 2)], k=1), dict(wl=2, sections=[('range', 2), ('array', 1, 1), ('char', 2, 2)], k=2, span=16), dict(wl=1, sections=[('char', 2)], k=2, notation=('hex', 'octal', 'plain'))]}, 'one to three mappings (thorough: six), strings of one or two codes, high bytes of codes 0 or 1, high bytes of targets 00 or 20'),
    ('page', page, [dict(wl=1)], 'two codes shown on a page'),
]
