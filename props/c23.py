"""Data providers deliver the requested bytes in every mode."""
import pdfsyntax as p
import pdfsyntax.filestruct as fs
import pdfsyntax.docstruct as ds
from props.common import *
from props.pdffile import *
from props.session import Session, FOREIGN


class File:
    """An open file."""

    def __init__(self, data):
        self.data = data
        self.pos = 0

    def seek(self, pos, whence=0):
        if whence == 1:
            pos = pos + self.pos
        elif whence == 2:
            pos = pos + len(self.data)
        if pos < 0:
            raise OSError('negative position')
        self.pos = pos
        return self.pos

    def tell(self):
        return self.pos

    def read(self, n=-1):
        end = len(self.data) if n is None or n < 0 else self.pos + n
        r = self.data[self.pos:end]
        self.pos = self.pos + len(r)
        return r


def judge(c, provider, data, pos, length, label=''):
    size = len(data)
    start = pos if pos >= 0 else max(pos + size, 0)
    start = min(start, size)
    stop = size if length == -1 else min(start + length, size)
    b, i, o, n = provider(pos, length)
    c.same(n, stop - start, label + 'count')
    c.same(b[i:i + n], data[start:stop], label + 'bytes')
    c.check(i >= 0, label + 'index')
    c.check(i + n <= len(b), label + 'inside the buffer')
    c.same(o + i, start, label + 'offset')


def sized(c, provider, data, label=''):
    c.same(provider(None, -1)[3], len(data), label + 'size')
    c.same(fs.bdata_length(provider), len(data), label + 'length')
    b, i, o, n = provider(0, -1)
    c.same(b[i:i + n], data, label + 'whole')


def request(c, size):
    return c.int('pos', -size - 2, size + 2), c.int('length', -1, size + 2)


def modes(c, size):
    """One provider of each mode, asked twice."""
    data = c.bytes('d', size)
    how = c.choice('how', ['bytes', 'file', 'continuous', 'dummy'])
    f = File(data)
    if how == 'bytes':
        provider = fs.bdata_provider(data)
        c.same(fs.bdata_all(provider), data, 'all')
    elif how == 'file':
        provider = fs.bdata_provider(f, 'SINGLE')
        c.same(fs.bdata_all(provider), data, 'all')
    elif how == 'continuous':
        provider = fs.bdata_provider(f, 'CONTINUOUS')
    else:
        provider = fs.bdata_dummy(data)
    sized(c, provider, data)
    pos, length = request(c, size)
    judge(c, provider, data, pos, length)
    if how == 'continuous': #the position of the file does not matter
        f.seek(c.choice('at', [0, 1, size]))
    judge(c, provider, data, pos, length, 'again ')
    sized(c, provider, data, 'again ')


def large(c, size, levels, how):
    """Parts of several kilobytes, a few of whose bytes are symbolic."""
    data = bytes([i * i % 251 for i in range(size)])
    k = size // 2
    data = data[:k] + c.bytes('mid', 2) + data[k + 2:-1] + c.bytes('last', 1)
    f = File(data)
    provider = fs.bdata_provider(data) if how == 'bytes' else fs.bdata_provider(f, 'SINGLE' if how == 'file' else 'CONTINUOUS')
    ends = [0, size]
    for i in range(levels):
        extra = c.bytes(f'e{i}', 1) + bytes([i + j % 200 for j in range(700 * (i + 1))])
        provider = ds.merge_fdata(provider, len(data), extra)
        data = data + extra
        ends.append(len(data))
    sized(c, provider, data)
    marks = [0, 1, 1023, 1024, 1025, 4096, 8192] + [e + d for e in ends[1:] for d in (-1, 0, 1)] + [-1, -1024, -len(data), k]
    pos = c.choice('pos', marks)
    length = c.choice('length', [-1, 0, 1, 20, 1024, 1025, 4096, size - 1, size, size + 1, len(data)])
    judge(c, provider, data, pos, length)
    judge(c, provider, data, marks[(marks.index(pos) * 3 + 1) % len(marks)], length, 'again ')


def composed(c, size, cut, more, levels=1, how='bytes'):
    """Updates after a first part, that may hide the end of the first part."""
    data = c.bytes('d', size)
    provider = fs.bdata_provider(data) if how == 'bytes' else fs.bdata_provider(File(data), 'CONTINUOUS')
    data = data[:cut]
    for k in range(levels):
        extra = c.bytes(f'e{k}', more)
        provider = ds.merge_fdata(provider, len(data), extra)
        data = data + extra
    sized(c, provider, data)
    pos, length = request(c, len(data))
    judge(c, provider, data, pos, length)


def committed(c, kind, ops, steps, mode='SINGLE'):
    """The provider of a document with committed updates has the bytes of the written file."""
    s = Session(c, kind)
    if mode != 'SINGLE':
        s.doc = p.load(File(s.file), mode)
    for i in range(steps):
        s.do(ops)
        s.do(['commit'])
    data = written(c, s.doc)
    provider = s.doc.data[-1]['fdata']
    sized(c, provider, data)
    size = len(data)
    marks = [0, 1, 8, 9, size - 1, size, size + 1, -1, -size, -size - 1]
    if s.file:
        marks = marks + [len(s.file) + k for k in (-1, 0, 1)]
    pos = c.choice('pos', marks)
    length = c.choice('length', [-1, 0, 1, 30, size - len(s.file), size, size + 1])
    judge(c, provider, data, pos, length)


def loaded(c, kind, ops=()):
    """Documents load identically in both modes."""
    s = Session(c, kind)
    if ops:
        s.do(ops)
    data = written(c, s.doc)
    a = p.loads(data)
    for b in (p.load(File(data), 'CONTINUOUS'), p.load(File(data), 'SINGLE')):
        c.same(len(b.index), len(a.index), 'revisions')
        c.same(b.index, a.index, 'index')
        for rev in range(len(a.index)):
            c.same(p.in_use(b, rev), p.in_use(a, rev), 'objects in use')
        for r in p.in_use(a):
            c.same(p.get_object(b, r), p.get_object(a, r), 'object')
        c.same(p.trailer(b), p.trailer(a), 'trailer')
        c.same(p.structure(b), p.structure(a), 'structure')
        c.same(p.pages(b), p.pages(a), 'pages')
        n = len([r for r in p.in_use(a)])
        b2, a2 = p.rewind(p.rewind(b)), p.rewind(p.rewind(a))
        c.same([p.get_object(b2, r) for r in p.in_use(b2)], [p.get_object(a2, r) for r in p.in_use(a2)], 'previous revision')
        x, y = p.rotate(b), p.rotate(a)
        c.same(written(c, x), written(c, y), 'update')


CASES = [
    ('modes', modes, {'quick': [dict(size=n) for n in (0, 1, 3)], 'thorough': [dict(size=n) for n in (2, 6, 10)]}, 'contents of 0, 1 and 3 bytes (thorough: up to 10), every position and length from two before to two after'),
    ('composed', composed, {'quick': [dict(size=3, cut=3, more=2), dict(size=3, cut=2, more=0), dict(size=0, cut=0, more=2), dict(size=2, cut=1, more=2, levels=2), dict(size=2, cut=2, more=2, levels=2, how='file')],
                            'thorough': [dict(size=6, cut=4, more=3), dict(size=3, cut=2, more=2, levels=3, how='file')]}, 'parts of 0 to 3 bytes (thorough: 6), one or two updates (thorough: three)'),
    ('loaded', loaded, [dict(kind=k) for k in ('table', 'table2', 'stream2', 'embedded', 'mixed', 'deep', 'deepstream', 'manytable', 'manystream') + FOREIGN] + [dict(kind='table', ops=('update', 'delete', 'add stream'))], 'all kinds of files'),
    ('large', large, {'quick': [dict(size=9000, levels=0, how=h) for h in ('bytes', 'file', 'continuous')] + [dict(size=1500, levels=l, how=h) for l, h in ((1, 'bytes'), (3, 'continuous'))], 'thorough': [dict(size=70000, levels=l, how=h) for l in (0, 2) for h in ('bytes', 'continuous')] + [dict(size=100, levels=8, how='file')]}, 'sizes of up to 9000 bytes (thorough: 70000), up to three updates (thorough: 8), positions and lengths around borders'),
    ('committed', committed, {'quick': [dict(kind='table', ops=('update', 'delete'), steps=1), dict(kind='stream', ops=('update',), steps=1, mode='CONTINUOUS'), dict(kind='blank', ops=('add',), steps=2)],
                              'thorough': [dict(kind=k, ops=('update', 'add'), steps=2, mode=m) for k in ('table2', 'embedded') for m in ('SINGLE', 'CONTINUOUS')]}, 'positions around the borders of revisions'),
]
