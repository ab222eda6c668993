"""Compressing is lossless."""
import zlib
from copy import deepcopy
import pdfsyntax as p
from props.common import *
from props.pdffile import *
from props.trees import *
from props.graph import Graphs
from props.session import Session, FOREIGN
from props.c20 import live
from props.c21 import compare

FL, AH, A85 = '/FlateDecode', '/ASCIIHexDecode', '/ASCII85Decode'


class Lossless(Graphs):

    def strict(self, x):
        """Streams that cannot be decoded, or only by undoing a prediction, are kept as they are."""
        f = x.entries.get('/Filter')
        f = f if isinstance(f, list) else [f]
        if any([k in ('/LZWDecode', '/DCTDecode', '/Crypt', '/JPXDecode') for k in f]):
            return True
        d = x.entries.get('/DecodeParms')
        d = d if isinstance(d, list) else [d]
        return any([isinstance(k, complex) or isinstance(k, dict) and k.get('/Predictor', 1) != 1 for k in d])


def judge(c, doc, label=''):
    before = deepcopy([p.get_object(doc, r) for r in p.in_use(doc)])
    old = p.version(doc)
    new = p.compress(doc)
    for d, l in ((new, 'memory '), (p.loads(written(c, new)), 'file ')):
        g = Lossless(c, doc, d, label + l)
        cat = p.catalog(doc)
        def undo(y):
            if '/Version' not in cat[0]:
                y.pop('/Version', None)
            elif cat[0]['/Version'] < '/1.5':
                y['/Version'] = cat[0]['/Version']
            return y
        g.adapt[int(cat[1].imag)] = undo
        compare(c, doc, d, label + l, g)
        c.check(p.version(d) >= '1.5', label + l + 'version')
        c.check(p.version(d) >= old, label + l + 'version not lowered')
    c.same([p.get_object(doc, r) for r in p.in_use(doc)], before, label + 'the given document')
    return new


def histories(c, kind, ops, steps=1):
    s = Session(c, kind)
    for i in range(steps):
        s.do(ops)
    judge(c, s.doc)


def values(c, kind):
    """Objects with values of all kinds, in containers once compressed."""
    objs = page_objs(1)
    if kind == 'scalar':
        objs[5] = (0, a_scalar(c, 'v', ['bool', 'null', 'int', 'real', 'name', 'lstring', 'hstring'], small=True))
    elif kind == 'nested':
        objs[5] = (0, [a_scalar(c, 'v', small=True), {'/K': [a_scalar(c, 'w', ['name', 'lstring', 'ref'], small=True)]}, []])
    elif kind == 'gens':
        objs[5] = (c.choice('g', [0, 1, 65535]), {'/A': c.int('v', 10, 99)})
        objs[9] = (c.choice('h', [0, 2]), [complex(objs[5][0], 5)])
    objs[6] = (0, [5j, c.int('x', 100, 999)])
    objs[7] = (0, {'/Length': 12, '/Type': '/NotAStream'})
    objs[8] = (0, {})
    w = Writer()
    w.revision(objs)
    doc = p.loads(w.out)
    judge(c, doc)


def coded(kind, d):
    """A coded stream whose decoded data are d when it can be decoded."""
    if kind == 'plain':
        return St({}, d)
    if kind == 'none':
        return St({'/Filter': [], '/X': 1}, d)
    if kind == 'hex':
        return St({'/Filter': AH}, b'6' + d + b'>')
    if kind == 'hexarray':
        return St({'/Filter': [AH], '/DecodeParms': ['null']}, b'6' + d + b'6' + d + b'>')
    if kind == 'two':
        return St({'/Filter': [AH, AH]}, b'363' + d + b'>')
    if kind == 'flate':
        return St({'/Filter': FL}, zlib.compress(b'some data some data'))
    if kind == 'bad':
        return St({'/Filter': FL}, b'xyz')
    if kind == 'cut':
        return St({'/Filter': FL}, zlib.compress(b'some data some data')[:10])
    if kind == 'lzw':
        return St({'/Filter': '/LZWDecode'}, d)
    if kind == 'mixed':
        return St({'/Filter': [AH, '/DCTDecode'], '/DecodeParms': ['null', {'/ColorTransform': 1}]}, b'6' + d + b'>')
    if kind == 'parms':
        return St({'/Filter': FL, '/DecodeParms': {'/Predictor': 1, '/Colors': 1}}, zlib.compress(b'abcabcabc'))
    if kind == 'tiff':
        return St({'/Filter': FL, '/DecodeParms': {'/Predictor': 2, '/Columns': 3}}, zlib.compress(b'\x01\x01\x01\x05\x01\x01'))
    if kind == 'three':
        return St({'/Filter': [AH, AH, '/JPXDecode']}, b'363' + d + b'>')
    if kind == 'parmsarray':
        return St({'/Filter': [AH, FL], '/DecodeParms': ['null', {'/Predictor': 15, '/Columns': 1}]}, zlib.compress(b'\x02a\x02\x01').hex().encode('ascii') + b'>')
    if kind == 'predicted':
        return St({'/Filter': FL, '/DecodeParms': {'/Predictor': 12, '/Columns': 2}}, zlib.compress(b'\x02ab\x02\x01\x01'))
    if kind in ('parmsref', 'parmsrefs'):
        return St({'/Filter': FL if kind == 'parmsref' else [FL], '/DecodeParms': 30j if kind == 'parmsref' else [30j]}, zlib.compress(b'\x02ab\x02\x01\x01'))
    raise ValueError(kind)


STREAMS = ['plain', 'none', 'hex', 'hexarray', 'two', 'flate', 'bad', 'cut', 'lzw', 'mixed', 'parms', 'predicted', 'tiff', 'three', 'parmsarray', 'parmsref', 'parmsrefs']


def streams(c, n=2, kinds=STREAMS, length=False):
    """Streams with and without filters, with direct or indirect length."""
    objs = page_objs(1)
    for i in range(n):
        k = c.choice(f'k{i}', kinds)
        s = coded(k, c.bytes(f'd{i}', 1, HEX))
        if length and c.flag(f'indirect{i}'):
            objs[20 + i] = (0, len(s.data))
            b = pt(s)
            j = b.index(b'/Length')
            e = b.index(b'\nstream')
            b = b[:j] + b'/Length %d 0 R >>' % (20 + i) + b[e:]
            objs[10 + i] = (0, b)
        else:
            objs[10 + i] = (0, s)
    objs[30] = (0, {'/Predictor': 12, '/Columns': 2})
    objs[3][1]['/Contents'] = [complex(0, 10 + i) for i in range(n)]
    w = Writer()
    w.revision(objs)
    judge(c, p.loads(w.out))


SMALL = [{}, [], [[]], {'/Type': '/X'}, {'/Type': '/Font', '/Parent': 3j}, {'/Length': 3}, {'/Parent': 3j}, {'/N': 1, '/First': 2}, b'()', b'<>', '/N', 0, -1, 0.5, True, False, {'/A': {}}, {'/Size': 9, '/Root': 1j}, {'/W': [1, 2, 1]}, 'null']


def small(c, which):
    """Objects and pages with little in them."""
    objs = page_objs(2)
    if which == 'page':
        inherited = {'/MediaBox': [0, 0, c.int('x', 100, 999), 99]}
        objs[2][1].update(inherited)
        for n in (3, 4):
            d = objs[n][1]
            for k in list(d):
                if k not in ('/Type', '/Parent'):
                    del d[k]
        if c.flag('rotated'):
            objs[4][1]['/Rotate'] = 90
        objs[9] = (0, {'/Type': '/Annot', '/P': 3j})
    else:
        objs[5] = (0, c.choice('value', SMALL))
        objs[6] = (0, [5j, c.choice('beside', [{}, [], 'null', 5j])])
    w = Writer()
    w.revision(objs)
    judge(c, p.loads(w.out))


def many(c, n):
    """Many objects, long strings and arrays; any one of them has any value."""
    objs = page_objs(1)
    for i in range(10, 10 + n):
        objs[i] = (0, [complex(0, i - 1), i] if i % 3 else {'/A': complex(0, i + 1), '/B': b'(' + b'x' * (i % 90) + b')'})
    k = c.choice('k', [10, 10 + n // 2, 9 + n])
    objs[k] = (0, {'/A': c.int('v', 10, 99), '/L': [complex(0, x) for x in range(10, 10 + n)]})
    objs[5] = (0, St({}, b'abcd' * 80 + c.bytes('d', 2, HEX)))
    w = Writer()
    w.revision(objs)
    judge(c, p.loads(w.out))


def version(c, kind='table'):
    """Any version in the header and the catalog."""
    a, b = c.bytes('h', 1, DIGITS), c.bytes('c', 1, DIGITS)
    major = c.choice('major', [b'1', b'2'])
    objs = page_objs(1)
    if c.flag('cat'):
        objs[1][1]['/Version'] = '/1.' + b.decode('ascii')
    w = Writer(header=b'%PDF-' + major + b'.' + a + b'\n')
    w.revision(objs)
    judge(c, p.loads(w.out))


def twice(c, kind):
    """A compressed document is compressed again, or changed and compressed."""
    s = Session(c, kind)
    new = judge(c, s.doc)
    judge(c, new, 'again ')
    doc = p.rotate(new, 90)
    doc, ref = p.add_object(doc, [c.int('new', 10, 99)])
    judge(c, doc, 'changed ')


CASES = [
    ('twice', twice, [dict(kind=k) for k in ('table2', 'embedded', 'mixed', 'blank', 'stream2', 'gap') + FOREIGN], 'compressed again, changed and compressed'),
    ('version', version, [{}], 'versions 1.0 to 1.9 and 2.0 to 2.9'),
    ('values', values, [dict(kind=k) for k in ('scalar', 'nested', 'gens')], 'scalars of one symbolic unit'),
    ('small', small, [dict(which='page'), dict(which='object')], 'twenty smallest objects, pages that inherit everything'),
    ('many', many, {'quick': [dict(n=40), dict(n=110)], 'thorough': [dict(n=k) for k in (40, 110, 300)]}, '40 and 110 objects (thorough: 300)'),
    ('streams', streams, {'quick': [dict(n=1, length=True), dict(n=2, kinds=['plain', 'hex', 'bad', 'predicted', 'flate'])], 'thorough': [dict(n=2, length=True)]}, 'one symbolic byte of data per stream'),
    ('histories', histories, {'quick': [dict(kind=k, ops=('update', 'delete', 'add', 'add stream', 'force', 'annotate', 'rotate', 'rewind')) for k in ('table2', 'stream2', 'embedded', 'mixed', 'gap', 'blank') + FOREIGN],
                              'thorough': [dict(kind=k, ops=('update', 'delete', 'add stream', 'commit', 'rewind', 'remove', 'concat', 'reload'), steps=2) for k in ('table2', 'stream2', 'embedded', 'mixed', 'gap', 'blank')]}, 'one operation (thorough: two) of any kind'),
]
