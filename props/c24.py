"""Text strings decode to the text they represent."""
from pdfsyntax.text import *
import pdfsyntax as p
from props.common import *
from props.pdffile import *

SPECIAL = {0x18: '\u02d8\u02c7\u02c6\u02d9\u02dd\u02db\u02da\u02dc',
           0x80: '\u2022\u2020\u2021\u2026\u2014\u2013\u0192\u2044\u2039\u203a\u2212\u2030\u201e\u201c\u201d\u2018\u2019\u201a\u2122\ufb01\ufb02\u0141\u0152\u0160\u0178\u017d\u0131\u0142\u0153\u0161\u017e',
           0xa0: '\u20ac'}
TABLE = list(range(256))
for start, chars in SPECIAL.items():
    for i, ch in enumerate(chars):
        TABLE[start + i] = ord(ch)
UNDEFINED = [b for b in range(0x18) if b not in (9, 10, 13)] + [0x7f, 0x9f, 0xad]
DEFINED = bytes([b for b in range(256) if b not in UNDEFINED])


AFTER = list(range(256))
for ch, b in zip(b'nrtbf', b'\n\r\t\b\f'):
    AFTER[ch] = b


def judge(c, got, data):
    """The text of these bytes (a list of ints)."""
    codes = [ord(x) for x in got]
    if len(data) >= 2 and data[0] == 0xfe and data[1] == 0xff:
        units = [data[i] * 256 + data[i + 1] for i in range(2, len(data) - 1, 2)]
        c.assume(len(data) % 2 == 0)
        want = []
        i = 0
        while i < len(units):
            u = units[i]
            if u >= 0xd800 and u < 0xdc00:
                c.assume(i + 1 < len(units))
                v = units[i + 1]
                c.assume(v >= 0xdc00 and v < 0xe000)
                want.append(0x10000 + (u - 0xd800) * 1024 + v - 0xdc00)
                i += 2
            else:
                c.assume(not (u >= 0xdc00 and u < 0xe000))
                want.append(u)
                i += 1
        c.same(len(codes), len(want), 'number of UTF-16 characters')
        c.same(codes, want, 'UTF-16 text')
    else:
        c.same(len(codes), len(data), 'number of characters')
        for x, b in zip(codes, data):
            c.assume(b in DEFINED)
            c.same(x, TABLE[b], 'character')


def unescape(c, s):
    """Bytes of the contents of a literal string (independent of the code under test)."""
    out = []
    i = 0
    n = len(s)
    while i < n:
        b = s[i]
        if b == 92:
            c.assume(i + 1 < n)
            e = s[i + 1]
            if e in b'01234567':
                v = e - 48
                i += 2
                k = 1
                while k < 3 and i < n and s[i] in b'01234567':
                    v = v * 8 + s[i] - 48
                    i += 1
                    k += 1
                out.append(v % 256)
                continue
            if e == 13:
                i += 3 if i + 2 < n and s[i + 2] == 10 else 2
                continue
            i += 2
            if e == 10:
                continue
            out.append(AFTER[e])
        elif b == 13:
            out.append(10)
            i += 2 if i + 1 < n and s[i + 1] == 10 else 1
        else:
            out.append(b)
            i += 1
    return out


def literal(c, n):
    """Any contents of a literal string."""
    s = c.bytes('s', n)
    want = unescape(c, s)
    raw = unescape_literal_string(s)
    c.same(list(raw), want, 'bytes')
    c.same(list(string_bytes(b'(' + s + b')')), want, 'string bytes')
    judge(c, text_string(b'(' + s + b')'), want)


def escapes(c, shape):
    """Longer strings of a given shape: o an octal digit, e any byte after a backslash, r an end of line, . any ordinary byte."""
    s = b''
    for i, k in enumerate(shape):
        n = f'x{i}'
        if k == 'o':
            s = s + c.bytes(n, 1, b'01234567')
        elif k == 'r':
            s = s + c.choice(n, [b'\r', b'\n', b'\r\n'])
        elif k == '.':
            s = s + c.bytes(n, 1, PLAIN)
        elif k == 'e':
            s = s + c.bytes(n, 1)
        else:
            s = s + k.encode('ascii')
    want = unescape(c, s)
    c.same(list(string_bytes(b'(' + s + b')')), want, 'string bytes')
    if 'o' not in shape:
        judge(c, text_string(b'(' + s + b')'), want)


def single(c):
    """Each byte alone, in both notations."""
    b = c.byte('b', DEFINED)
    h = b'0123456789abcdef'
    H = b'0123456789ABCDEF'
    d = bytes([h[b // 16], H[b % 16]])
    judge(c, text_string(b'<' + d + b'>'), [b])
    o = bytes([48 + b // 64, 48 + b // 8 % 8, 48 + b % 8])
    judge(c, text_string(b'(\\' + o + b')'), [b])
    judge(c, text_string(b'(x\\' + o + b'y)'), [120, b, 121])


VALUES = [int(chr(d), 16) if d in HEX else 0 for d in range(256)]


def value(d):
    return VALUES[d]


def hexadecimal(c, n):
    """Any hexadecimal digits and white space."""
    s = c.bytes('s', n, HEX + WS)
    digits = [value(d) for d in s if d not in WS]
    if len(digits) % 2:
        digits.append(0)
    want = [digits[i] * 16 + digits[i + 1] for i in range(0, len(digits), 2)]
    c.same(list(string_bytes(b'<' + s + b'>')), want, 'string bytes')
    if n < 3:
        judge(c, text_string(b'<' + s + b'>'), want)


def utf16(c, n, how):
    """n bytes after the mark of UTF-16BE."""
    data = [0xfe, 0xff] + [c.byte(f'd{i}') for i in range(n)]
    if how == 'hex':
        h = b'0123456789abcdef'
        s = b'<' + c.choice('mark', [b'FEFF', b'feff', b'Fe fF']) + bytes([h[x] for b in data[2:] for x in (b // 16, b % 16)]) + b'>'
    elif how == 'octal':
        s = b'(' + c.choice('mark', [b'\\376\\377', b'\xfe\xff', b'\xfe\\377']) + b''.join([b'\\' + bytes([48 + b // 64, 48 + b // 8 % 8, 48 + b % 8]) for b in data[2:]]) + b')'
    else:
        c.assume(all([b != 92 and b != 13 for b in data]))
        s = b'(\xfe\xff' + bytes(data[2:]) + b')'
    judge(c, text_string(s), data)


def long(c, n, at, kind):
    """Strings of n characters around symbolic ones."""
    if kind == 'literal':
        pad = b'Long text, ' * (n // 11 + 1)
        s = pad[:at] + c.bytes('s', 2) + pad[at:n]
        want = unescape(c, s)
        c.same(list(string_bytes(b'(' + s + b')')), want, 'string bytes')
        judge(c, text_string(b'(' + s + b')'), want)
    elif kind == 'hex':
        pad = b'4c6F 6e67\n' * (n // 10 + 1)
        s = pad[:at // 10 * 10] + c.bytes('s', 2, HEX + WS) + pad[at // 10 * 10:n // 10 * 10]
        digits = [value(d) for d in s if d not in WS]
        if len(digits) % 2:
            digits.append(0)
        want = [digits[i] * 16 + digits[i + 1] for i in range(0, len(digits), 2)]
        c.same(list(string_bytes(b'<' + s + b'>')), want, 'string bytes')
        judge(c, text_string(b'<' + s + b'>'), want)
    else: #UTF-16, in hexadecimal
        units = [0x20ac, 0x41, 0xd83d, 0xde00, 0xe9] * (n // 5 + 1)
        cut = at // 5 * 5
        data = [254, 255]
        for u in units[:cut]:
            data += [u // 256, u % 256]
        data += [c.byte(f'd{i}') for i in range(4)]
        for u in units[cut:n // 5 * 5]:
            data += [u // 256, u % 256]
        h = b'0123456789abcdef'
        judge(c, text_string(b'<' + bytes([h[x] for b in data for x in (b // 16, b % 16)]) + b'>'), data)


def none(c):
    c.same(text_string(None), None, 'absent')
    c.same(text_string(b'()'), '', 'empty literal')
    c.same(text_string(b'<>'), '', 'empty hexadecimal')
    c.same(text_string(b'< >'), '', 'blank hexadecimal')


CASES = [
    ('none', none, [{}], 'absent and empty strings'),
    ('single', single, [{}], 'every byte PDFDocEncoding defines, in hexadecimal and octal'),
    ('hexadecimal', hexadecimal, {'quick': [dict(n=n) for n in (1, 2, 3, 4)], 'thorough': [dict(n=5), dict(n=6)]}, 'up to 4 digits or white space (thorough: 6)'),
    ('utf16', utf16, {'quick': [dict(n=2, how='hex'), dict(n=4, how='hex'), dict(n=2, how='octal'), dict(n=4, how='plain')], 'thorough': [dict(n=6, how='hex'), dict(n=8, how='plain')]}, 'one or two code units (thorough: four)'),
    ('literal', literal, {'quick': [dict(n=n) for n in (1, 2, 3, 4)], 'thorough': [dict(n=5)]}, 'up to 4 arbitrary bytes (thorough: 5)'),
    ('long', long, [dict(n=n, at=a, kind=k) for k in ('literal', 'hex', 'utf16') for n, a in ((40, 0), (60, 30), (300, 290))], 'strings of up to 300 characters with two symbolic bytes (or two symbolic UTF-16 units) at the beginning, in the middle or near the end'),
    ('escapes', escapes, {'quick': [dict(shape=s) for s in ('.\\ooo.', '\\e\\e', '\\oo.\\o\\oo', '\\ooo9\\e', '.r.r', '\\r.\\rr', '(\\r).', '\\\\\\e')], 'thorough': [dict(shape=s) for s in ('\\ooo\\ooo\\eo', 'r\\rr.\\e', '.\\e.\\e.\\e')]}, 'the listed shapes'),
]
