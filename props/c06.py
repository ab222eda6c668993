"""Predictor decoding inverts the PNG Up predictor."""
import zlib
import pdfsyntax.filters as f
import pdfsyntax.objects as o
from props.common import *


def up(rows, columns):
    """The PNG Up predictor: each byte less the byte above it, each row tagged with a 2."""
    out = b''
    prev = bytes(columns)
    for r in rows:
        out = out + b'\x02'
        for i, x in enumerate(r):
            out = out + bytes([(x - prev[i]) % 256])
        prev = r
    return out


def rows_of(c, columns, rows, last):
    rs = [c.bytes(f'r{i}', columns) for i in range(rows)]
    if last:
        rs.append(c.bytes('last', last))
    return rs


def direct(c, columns, rows, last):
    rs = rows_of(c, columns, rows, last)
    want = b''
    for r in rs:
        want = want + r
    c.same(f.decode_predictor(up(rs, columns), 12, columns), want, 'rows restored')


def stream(c, columns, rows, last, form):
    rs = rows_of(c, columns, rows, last)
    want = b''
    for r in rs:
        want = want + r
    parms = {'/Predictor': 12, '/Columns': columns}
    if columns == 1 and c.flag('default columns'):
        parms = {'/Predictor': 12}
    if form == 'dict':
        d = {'/Filter': '/FlateDecode', '/DecodeParms': parms}
        e = zlib.compress(up(rs, columns))
    elif form == 'array':
        d = {'/Filter': ['/FlateDecode'], '/DecodeParms': [parms]}
        e = zlib.compress(up(rs, columns))
    elif form == 'dict for an array':
        d = {'/Filter': ['/FlateDecode'], '/DecodeParms': parms}
        e = zlib.compress(up(rs, columns))
    else:
        d = {'/Filter': ['/ASCIIHexDecode', '/FlateDecode'], '/DecodeParms': ['null', parms]}
        e = f.asciihex(zlib.compress(up(rs, columns)))
    c.same(f.decode_stream(e, d), want, 'rows restored')


def none(c, form):
    """/Predictor 1, or no /Predictor at all: the data is not predicted."""
    data = c.bytes('d', c.choice('n', [0, 1, 4, 5]))
    col = c.choice('columns', [1, 2, 4])
    parms = {'absent': {}, 'columns': {'/Columns': col}, 'one': {'/Predictor': 1}, 'both': {'/Predictor': 1, '/Columns': col}}[form]
    e = zlib.compress(data)
    c.same(f.decode_stream(e, {'/Filter': '/FlateDecode', '/DecodeParms': parms}), data, 'dictionary')
    c.same(f.decode_stream(e, {'/Filter': ['/FlateDecode'], '/DecodeParms': [parms]}), data, 'array')


def large(c, columns, rows, last):
    """Many long rows with free bytes in two of them."""
    rs = [bytes([(i * j * 3 + j) % 256 for j in range(columns)]) for i in range(rows)]
    if last:
        rs.append(bytes(range(last)))
    r = c.choice('row', sorted({0, rows // 2, len(rs) - 1}))
    k = c.choice('at', ['start', 'end'])
    x = c.bytes('x', 1)
    rs[r] = x + rs[r][1:] if k == 'start' else rs[r][:-1] + x
    want = b''.join(rs)
    c.same(f.decode_predictor(up(rs, columns), 12, columns), want, 'rows restored')
    c.same(f.decode_stream(zlib.compress(up(rs, columns)), {'/Filter': '/FlateDecode', '/DecodeParms': {'/Predictor': 12, '/Columns': columns}}), want, 'stream restored')


SIZES = [(1, 1, 0), (1, 3, 0), (2, 2, 0), (3, 2, 2), (4, 3, 1), (5, 1, 0), (5, 2, 4), (2, 0, 1), (8, 1, 1), (8, 2, 3), (12, 1, 1), (30, 2, 7), (3, 12, 1), (1, 20, 0)]
BIG = [(columns, rows, last) for columns in range(1, 8) for rows in range(0, 7) for last in range(0, columns)]
CASES = [
    ('large', large, {'quick': [dict(columns=a, rows=b, last=l) for a, b, l in ((7, 60, 3), (100, 9, 50), (257, 4, 1), (4, 300, 0))], 'thorough': [dict(columns=a, rows=b, last=l) for a, b, l in ((6, 1000, 5), (1500, 5, 700))]}, 'up to 300 rows or 257 columns (thorough: 1000, 1500), free bytes in one row'),
    ('direct', direct, {'quick': [dict(columns=a, rows=b, last=l) for a, b, l in SIZES], 'thorough': [dict(columns=a, rows=b, last=l) for a, b, l in BIG]}, 'the listed numbers of columns, full rows and bytes in the last row, any bytes'),
    ('stream', stream, [dict(columns=a, rows=b, last=l, form=x) for a, b, l in SIZES for x in ('dict', 'array', 'dict for an array', 'second filter')], 'as above, through decode_stream with every form of parameters'),
    ('none', none, [dict(form=x) for x in ('absent', 'columns', 'one', 'both')], 'up to 5 bytes of data'),
]
