"""Stream filters are inverse to each other and accept standard encodings."""
import pdfsyntax.filters as f
from props.common import *

FL, AH, A85 = '/FlateDecode', '/ASCIIHexDecode', '/ASCII85Decode'
SINGLE = [FL, AH, A85]
FORMS = SINGLE + [[x] for x in SINGLE]
PAIRS = [[x, y] for x in SINGLE for y in SINGLE]
TRIPLES = [[AH, FL, A85], [A85, AH, FL], [FL, A85, AH], [AH, AH, AH]]

QUADS = [[AH, FL, AH, A85], [FL, AH, FL, AH], [A85, AH, A85, FL], [AH, AH, FL, FL, AH], [FL, AH, AH, FL, FL, AH]]


def hexval(c, d):
    return d - 48 if d <= 57 else d - 55 if d <= 70 else d - 87


def roundtrip(c, flt, n):
    data = c.bytes('d', n)
    d = {'/Filter': flt}
    e = f.encode_stream(data, d)
    c.same(f.decode_stream(e, d), data, 'data kept')
    c.same(f.decode_stream(e, {'/Filter': flt, '/DecodeParms': c.choice('parms', ['null', {}, [{}], ['null'], ['null', {}]])}), data, 'with empty parameters')


def no_filter(c):
    data = c.bytes('d', c.choice('n', [0, 1, 3]))
    d = c.choice('form', [{}, {'/Filter': []}, {'/Length': 3}])
    e = f.encode_stream(data, d)
    c.same(e, data, 'not encoded')
    c.same(f.decode_stream(e, d), data, 'not decoded')


def order(c, a, b):
    """The first filter of the array is the first one to apply when decoding."""
    data = c.bytes('d', 2)
    chain = f.encode_stream(data, {'/Filter': [a, b]})
    step = f.encode_stream(f.encode_stream(data, {'/Filter': b}), {'/Filter': a})
    if FL not in (a, b):
        c.same(chain, step, 'encoding applies the last filter first')
    c.same(f.decode_stream(step, {'/Filter': [a, b]}), data, 'decoding applies the first filter first')
    inner = f.decode_stream(chain, {'/Filter': a})
    c.same(f.decode_stream(inner, {'/Filter': b}), data, 'layers')


def hexadecimal(c, n):
    """n hexadecimal characters with white space anywhere, then maybe an end marker and garbage."""
    digits = c.bytes('h', n, HEX)
    text = b''
    k = c.choice('ws', list(range(n + 1)))
    for i in range(n):
        if i == k:
            text = text + c.bytes('w', 1, WS)
        text = text + digits[i:i + 1]
    if k == n:
        text = text + c.bytes('w', 1, WS)
    tail = c.choice('tail', ['', '>', '>*'])
    if tail == '>':
        text = text + b'>'
    elif tail == '>*':
        text = text + b'>' + c.bytes('garbage', 1)
    want = b''
    for i in range(0, n, 2):
        v = hexval(c, digits[i]) * 16
        if i + 1 < n:
            v = v + hexval(c, digits[i + 1])
        want = want + bytes([v])
    c.same(f.decode_stream(text, {'/Filter': AH}), want, 'hexadecimal')
    c.same(f.decode_stream(text, {'/Filter': [AH]}), want, 'hexadecimal in an array')


def hexadecimal_out(c, n):
    data = c.bytes('d', n)
    e = f.encode_stream(data, {'/Filter': AH})
    c.same(len(e), 2 * n + 1, 'two digits per byte and the end marker')
    c.same(e[2 * n:], b'>', 'end marker')
    for i in range(n):
        v = hexval(c, e[2 * i]) * 16 + hexval(c, e[2 * i + 1])
        c.same(v, data[i], 'digits')


def base85(c, n):
    """Standard ASCII85 text: groups of five digits, z for zero groups, white space, an end marker."""
    text = b''
    want = b''
    k = c.choice('ws', ['none', 'before', 'inside', 'in the marker'])
    wsb = b'' if k == 'none' else c.bytes('w', 1, WS)
    if c.flag('z'):
        text = text + b'z'
        want = want + b'\0\0\0\0'
    data = c.bytes('d', n)
    want = want + data
    v = 0
    for i in range(4):
        v = v * 256 + (data[i] if i < n else 0)
    ds = []
    for i in range(5):
        ds.append(v % 85 + 33)
        v = v // 85
    ds.reverse()
    if n == 4:
        c.assume(ds[0] != 33)
    grp = bytes(ds[:n + 1]) if n else b''
    if k == 'inside':
        grp = grp[:1] + wsb + grp[1:]
    if k == 'before':
        text = wsb + text
    text = text + grp + (wsb if k == 'in the marker' else b'') + b'~>'
    if c.flag('eol'):
        text = text + b'\n'
    c.same(f.decode_stream(text, {'/Filter': A85}), want, 'ASCII85')


def base85_out(c, n):
    """The output is made of the 85 digits and z, and ends with the marker."""
    data = c.bytes('d', n)
    e = f.encode_stream(data, {'/Filter': A85})
    c.same(e[-2:], b'~>', 'end marker')
    for x in e[:-2]:
        c.check((x >= 33 and x <= 117) or x == 122, 'only ASCII85 digits')


def unsupported(c, flt):
    """Other filters are reported, not guessed."""
    data = c.bytes('d', 2)
    c.same(f.decode_stream(data, {'/Filter': flt}), b'#PDFSyntaxException: unsupported filter', 'reported')


def large(c, flt, n):
    """Long data with free bytes at the beginning, in the middle or at the end."""
    x = c.bytes('x', 1)
    body = bytes([(i * 7 if i % 50 < 40 else 0) % 256 for i in range(n)])
    at = c.choice('at', [0, n // 2, n])
    data = body[:at] + x + body[at:]
    d = {'/Filter': flt}
    c.same(f.decode_stream(f.encode_stream(data, d), d), data, 'data kept')


def foreign_large(c, flt, n):
    """Long encodings as other writers lay them out, in lines."""
    import base64
    data = bytes([(i * 7 if i % 50 < 40 else 0) % 256 for i in range(n)])
    e = base64.a85encode(data) + b'~>' if flt == A85 else data.hex().encode('ascii') + b'>'
    w = c.bytes('w', 1, WS)
    k = c.choice('width', [60, 64, 72, 80])
    text = w.join([e[i:i + k] for i in range(0, len(e) - 2, k)]) if c.flag('lines') else e
    if not text.endswith(e[-2:]):
        text = w.join([e[i:i + k] for i in range(0, len(e), k)])
    c.same(f.decode_stream(text, {'/Filter': [flt]}), data, 'decoded')


CASES = [
    ('large', large, {'quick': [dict(flt=x, n=n) for x in (FL, AH, A85, [AH, AH], [AH, FL], [A85, FL]) for n in (63, 300)] + [dict(flt=[FL, FL], n=5000), dict(flt=AH, n=3000)], 'thorough': [dict(flt=x, n=n) for x in FORMS + PAIRS for n in (64, 500)]}, 'data of 64, 301 and 5001 bytes with a free byte'),
    ('foreign_large', foreign_large, [dict(flt=x, n=n) for x in (AH, A85) for n in (40, 203)], 'encodings in lines of 60 to 80 characters separated by any white space'),
    ('no_filter', no_filter, [{}], 'up to 3 bytes of data'),
    ('order', order, [dict(a=x, b=y) for x in SINGLE for y in SINGLE], '2 bytes of data'),
    ('hexadecimal', hexadecimal, {'quick': [dict(n=n) for n in (0, 1, 2, 3)], 'thorough': [dict(n=n) for n in (0, 1, 2, 3, 4, 5)]}, 'n digits of either case, one white-space character anywhere'),
    ('hexadecimal_out', hexadecimal_out, [dict(n=n) for n in (0, 1, 3)], 'n bytes of data'),
    ('base85', base85, [dict(n=n) for n in (0, 1, 2, 3, 4)], 'n bytes of data after a possible zero group'),
    ('base85_out', base85_out, [dict(n=n) for n in (0, 1, 2, 3, 4, 5, 8)], 'n bytes of data'),
    ('unsupported', unsupported, [dict(flt=x) for x in ('/LZWDecode', '/DCTDecode', '/CCITTFaxDecode', ['/DCTDecode'])], '2 bytes of data'),
    ('roundtrip', roundtrip, {'quick': [dict(flt=x, n=n) for x in FORMS + PAIRS + TRIPLES for n in (0, 1, 2, 5) if n <= 2 or A85 not in x] + [dict(flt=x, n=n) for x in QUADS for n in (1, 4) if n < 2 or A85 not in x] + [dict(flt=A85, n=n) for n in (3, 4, 5)],
                              'thorough': [dict(flt=x, n=n) for x in FORMS + PAIRS + TRIPLES for n in (0, 1, 2, 3, 4, 5, 8, 9)]},
     'n bytes of data, every filter alone or in an array, every pair and some triples'),
]
