"""The disassembly listing describes the file line by line."""
import pdfsyntax as p
import pdfsyntax.cli as cli
from props.common import *
from props.pdffile import *
from props.c29 import obj_text
from props.c31 import File
import props.c30 as c30


def listing(c, data):
    """Lines of the listing, as lists of columns."""
    c.set_open(lambda n, mode='r', *a, **k: File(data), cli)
    c.forget_printed()
    cli.dump_disasm('f.pdf')
    lines = c.printed().split('\n')
    c.same(lines.pop(), '', 'complete lines')
    return [x.replace('[', ' ').replace(']', ' ').split() for x in lines]


SHORT = {'/FlateDecode': 'Flate', '/ASCIIHexDecode': 'AHex', '/ASCII85Decode': 'A85', '/DCTDecode': 'DCT', '/LZWDecode': 'LZW', '/RunLengthDecode': 'RunL', '/CCITTFaxDecode': 'Fax', '/JBIG2Decode': 'JBIG2', '/JPXDecode': 'JPX', '/Crypt': 'Crypt'}


class Truth(c30.Truth):
    """A file whose regions, entries and objects are known."""

    def __init__(self, c):
        c30.Truth.__init__(self, c)
        self.regions = [(0, 8, 'comment', None)]
        self.rows = {}
        self.objects = {}
        self.members = {}

    def obj(self, num, gen, value=b'<</A 1>>', kind='dict', detail=None, filters=None, sizes=None):
        pos = c30.Truth.obj(self, num, gen, value)
        if kind == 'dict' and value[-9:] == b'endstream':
            kind = 'stream'
        self.regions.append((pos, len(self.out) - 1 - pos, 'ind_obj', (num, gen, kind, detail, filters, sizes)))
        return pos

    def container(self, num, nums):
        pos = c30.Truth.container(self, num, nums)
        self.members[pos] = [(n, i, self.places[i]) for i, n in enumerate(nums)]
        return pos

    def close(self, pos):
        at = len(self.out)
        c30.Truth.close(self, pos)
        self.regions.append((at, len(self.out) - 7 - at, 'startxref', pos))
        self.regions.append((len(self.out) - 6, 5, 'comment', None))

    def table(self, subsections, hybrid=None):
        pos = len(self.out)
        prev = self.prev
        rows = []
        for first, rs in subsections:
            for j, (o, g, k) in enumerate(rs):
                rows.append((first + j, g, o, k == b'n', ('DIR', first + j, g, o), 'table'))
        self.rows[pos] = rows
        n = len(self.regions)
        c30.Truth.table(self, subsections, hybrid)
        self.regions.insert(n, (pos, self.regions[n][0] - 1 - pos, 'xreftable', (hybrid, prev)))

    def stream(self, num, subsections, gen=0, hybrid=False, wide=1):
        pos = len(self.out)
        rows = []
        for first, rs in subsections:
            for j, (t, x, y) in enumerate(rs):
                if t == 0:
                    rows.append((first + j, y, x, False, None, 'abs'))
                elif t == 1:
                    rows.append((first + j, y, x, True, ('DIR', first + j, y, x), 'abs'))
                else:
                    rows.append((first + j, 0, y, True, ('EMB', first + j, x, y), f'{x},'))
        self.rows[pos] = rows
        return c30.Truth.stream(self, num, subsections, gen, hybrid, wide)

    def verify(self):
        c = self.c
        lines = listing(c, self.out)
        entries = [e for s in self.sections.values() for e in s]
        k = 0
        pos = 0
        for at, size, kind, what in self.regions:
            while pos < at:
                c.check(k < len(lines), 'more lines')
                ln = lines[k]
                c.same((ln[0], ln[3:]), ('+', ['void']), 'blank space between regions')
                c.same(int(ln[1]), pos, 'position of blank space')
                c.check(0 < int(ln[2]) <= at - pos, 'size of blank space')
                pos += int(ln[2])
                k += 1
            c.check(k < len(lines), 'more lines')
            ln = lines[k]
            k += 1
            c.same((ln[0], int(ln[1]), int(ln[2])), ('+', at, size), 'position and size of a region')
            pos = at + size
            if kind == 'comment':
                c.same(ln[3:], ['comment', what or ('%PDF-1.5' if at == 0 else '%%EOF')], 'comment')
            elif kind == 'startxref':
                c.same((ln[3], int(ln[4]), len(ln)), (kind, what, 5), 'startxref')
            elif kind == 'xreftable':
                hybrid, prev = what
                want = ['xreftable', f'/Root={int(self.root.imag)},{int(self.root.real)}' if hybrid is None else f'/XRefStm={hybrid}']
                if prev is not None:
                    want.append(f'/Prev={prev}')
                c.same(ln[3:], want, 'table')
            else:
                num, gen, cl, detail, filters, sizes = what
                rest = ln[3:]
                if cl == 'stream':
                    ratio = rest.pop(0)
                    shown = rest.pop(0)
                    c.same(shown, '_' + '_'.join([SHORT[x] for x in filters or []]), 'filters')
                    if sizes == 'any':
                        c.check(ratio[-1] in '%!', 'ratio')
                    elif sizes:
                        c.check(-1 <= int(ratio[:-1]) - 100 * sizes[0] / sizes[1] <= 1, 'ratio')
                    elif sizes == ():
                        c.same(ratio, '!!', 'no ratio')
                    else:
                        c.same(ratio, '100%', 'ratio')
                right = any([e[0] == 'DIR' and e[1] == num and e[2] == gen and e[3] == at for e in entries])
                c.same(rest[:4], ['@-' if right else '?-', 'ind_obj', f'{num},{gen}', cl], 'object')
                if detail is not None:
                    c.same(rest[4:], detail, 'detail')
                for n, rank, place in self.members.get(at, ()):
                    c.check(k < len(lines), 'more lines')
                    ln = lines[k]
                    k += 1
                    right = any([e[0] == 'EMB' and e[1] == n and e[2] == num and e[3] == rank for e in entries])
                    c.same((ln[0], int(ln[1]), int(ln[2]), ln[3:]), ('-', place, rank, [f'{num},', '@-' if right else '?-', 'ind_obj', f'{n},', 'dict']), 'embedded object')
            if kind == 'xreftable' or kind == 'ind_obj' and at in self.rows:
                for num, gen, addr, used, key, mode in self.rows[at]:
                    c.check(k < len(lines), 'more lines')
                    ln = lines[k]
                    k += 1
                    wrong = used and num != 0 and not self.right(key)
                    c.same(ln[:4], ['-', '-?' if wrong else '-@', 'xref', f'{num},{gen}'], 'entry')
                    rest = ln[4:]
                    if mode != 'table':
                        c.same(rest.pop(0), mode, 'addressing mode')
                    c.same((int(rest[0]), rest[1:]), (addr, ['inuse' if used else 'free']), 'address')
        for ln in lines[k:]:
            c.same((ln[0], int(ln[1]), ln[3:]), ('+', pos, ['void']), 'blank space at the end')
            pos += int(ln[2])
        c.same(pos, len(self.out), 'the whole file')


def tables(c, **k):
    c30.tables(c, T=Truth, **k)


def updates(c, **k):
    c30.updates(c, T=Truth, **k)


def embedded(c, **k):
    c30.embedded(c, T=Truth, **k)


def hybrid(c):
    c30.hybrid(c, T=Truth)


def large(c, **k):
    c30.large(c, T=Truth, **k)


NAMES = ['/FlateDecode', '/ASCIIHexDecode', '/ASCII85Decode', '/DCTDecode', '/LZWDecode', '/RunLengthDecode', '/CCITTFaxDecode', '/JBIG2Decode', '/JPXDecode', '/Crypt']


def objects(c, kind):
    """One line for an object of any kind: its type and what the listing tells about it."""
    f = Truth(c)
    num, gen = c.int('num', 1, 99), c.int('gen', 0, 999)
    if kind == 'scalar':
        v, cl = c.choice('v', [(b'[1 2]', 'array'), (b'[]', 'array'), (b'17', 'int'), (b'-3', 'int'), (b'1.5', 'other'), (b'(text)', 'other'), (b'<41>', 'other'), (b'/Name', 'other'), (b'true', 'other'), (b'null', 'other'), (b'<<>>', 'dict')])
        f.obj(num, gen, v, cl, [])
    elif kind == 'type':
        t = '/' + c.text('t', 2, LETTERS)
        f.obj(num, gen, b'<</Type ' + t.encode('ascii') + b'>>', 'dict', [t])
        f.obj(num, gen, b'<</A (x) /Type ' + t.encode('ascii') + b' /B 3>>', 'dict', [t])
    elif kind == 'script':
        f.obj(num, gen, b'<</S /JavaScript /JS (app)>>', 'dict', ['!/JS!'])
        f.obj(num, gen, b'<</Type /Action /JS 4 0 R>>', 'dict', ['/Action', '!/JS!'])
    elif kind == 'root':
        n, g = c.int('n', 10, 99), c.int('g', 0, 99)
        f.root = complex(g, n)
        f.obj(num, gen, b'<</Root %d %d R /Prev 7 /Length 1>>\nstream\nx\nendstream' % (n, g), 'stream', [f'/Root={n},{g}', '/Prev=7'])
    elif kind == 'linearized':
        f.obj(num, gen, b'<</Linearized 1 /L 999>>', 'dict', ['/Linearized=1'])
    elif kind == 'filters':
        names = [NAMES[c.choice('f1', list(range(10)))], NAMES[c.choice('f2', [0, 3])]]
        data = b'xy'
        if names[0] in ('/FlateDecode', '/ASCIIHexDecode', '/ASCII85Decode'):
            names = names[:1] + ['/DCTDecode']
            data = {'/FlateDecode': b'x\x9c\x03\x00\x00\x00\x00\x01', '/ASCIIHexDecode': b'>', '/ASCII85Decode': b'~>'}[names[0]]
        sizes = 'any'
        if c.flag('one'):
            names = names[:1]
            f.obj(num, gen, b'<</Length %d /Filter ' % len(data) + names[0].encode('ascii') + b'>>\nstream\n' + data + b'\nendstream', 'stream', [], names, sizes)
        else:
            f.obj(num, gen, b'<</Length %d /Filter [' % len(data) + ' '.join(names).encode('ascii') + b']>>\nstream\n' + data + b'\nendstream', 'stream', [], names, sizes)
    elif kind == 'ratio':
        n = c.choice('n', [1, 2, 3, 7, 29, 64])
        data = b'41' * n + b' ' * c.choice('blank', [0, 1, 9]) + b'>'
        f.obj(num, gen, b'<</Length %d /Filter /ASCIIHexDecode /N 5 /First 4>>\nstream\n' % len(data) + data + b'\nendstream', 'stream', ['/N=5', '/First=4'], ['/ASCIIHexDecode'], (len(data), n))
        f.obj(num, gen, b'<</Length 0>>\nstream\n\nendstream', 'stream', [], None, ())
    f.table([(0, [(0, 65535, b'f')]), (num, [(f.plain[0][2], gen, b'n')])])
    f.verify()


def trailers(c, kind):
    """The line of a section tells its /Root and /Prev; one update has no entry."""
    f = Truth(c)
    q = f.obj(1, 0)
    f.table([(0, [(0, 65535, b'f'), (q, 0, b'n')])])
    for i in range(3):
        if kind == 'table':
            f.table([] if i == 1 else [(5, [(0, c.int(f'g{i}', 0, 65535), b'f')])])
        else:
            f.stream(7 + i, [(7 + i, [(1, len(f.out), 0)])])
    f.verify()


def wide(c, digits):
    """Entries of any address and generation, whatever the width of the columns."""
    f = Truth(c)
    q = f.obj(1, 0)
    o = c.int('o', 10 ** (digits - 1), 10 ** digits - 1)
    f.table([(0, [(0, 65535, b'f'), (q, 0, b'n'), (o, c.int('g', 0, 65535), b'n'), (c.int('next', 0, 99), 1, b'f')])])
    f.verify()


def comments(c, n):
    """A comment is shown by its beginning."""
    f = Truth(c)
    t = b'%' + c.bytes('t', n, b'abcXYZ0')
    at = len(f.out)
    f.out = f.out + t + b'\n'
    f.regions.append((at, n + 1, 'comment', t[:10].decode('ascii')))
    at = len(f.out)
    f.out = f.out + b'%\xe2\xe3\xcf\xd3\n'
    f.regions.append((at, 5, 'comment', '<25e2e3cfd3>'))
    q = f.obj(1, 0)
    f.table([(0, [(0, 65535, b'f'), (q, 0, b'n')])])
    f.verify()


def library(c, kind, ops):
    """Files written by the library: nothing is flagged, one line for each region and entry."""
    from props.session import Session
    s = Session(c, kind, b'')
    for op in ops:
        s.do([op])
    out = written(c, s.doc)
    lines = listing(c, out)
    flags = [x for ln in lines for x in ln if x[0:1] == '?' or x[1:2] == '?']
    c.same(flags, [], 'nothing is wrong')
    pos = 0
    for ln in lines:
        if ln[0] == '+':
            c.same(int(ln[1]), pos, 'regions follow each other')
            pos += int(ln[2])
    c.same(pos, len(out), 'the whole file')
    rows = []
    want = []
    for at, entries, root, num in read_strict(out, s.marks[0] if kind.startswith(('linear', 'hybrid')) else 0):
        for n in sorted(entries):
            k, a, b = entries[n]
            want.append((f'{n},{b}' if k != 'e' else f'{n},0', '' if num is None else 'abs' if k != 'e' else f'{a},', b if k == 'e' else a, 'free' if k == 'f' else 'inuse'))
    for ln in lines:
        if ln[2:3] == ['xref'] and ln[0] == '-':
            rows.append((ln[3], ln[4] if len(ln) == 7 else '', int(ln[-2]), ln[-1]))
    c.same(sorted(rows), sorted(want), 'entries')


CASES = [
    ('objects', objects, [dict(kind=k) for k in ('scalar', 'type', 'script', 'root', 'linearized', 'filters', 'ratio')], 'any numbers and generations of two or three digits; every filter name, chains of two'),
    ('trailers', trailers, [dict(kind=k) for k in ('table', 'stream')], 'four sections'),
    ('wide columns', wide, {'quick': [dict(digits=d) for d in (1, 4, 10)], 'thorough': [dict(digits=d) for d in range(1, 11)]}, 'any address of 1–10 digits, any generation'),
    ('comments', comments, [dict(n=n) for n in (1, 9, 10, 30)], 'up to 30 characters'),
    ('table entries', tables, {'quick': [dict(kinds=['offset'], nums=(1, 2)), dict(kinds=['0', 'gen'], nums=(3, 4)), dict(kinds=['0', 'free', '1'], nums=(2, 3)), dict(kinds=['offset', 'offset'], first=2, nums=(2, 3))], 'thorough': [dict(kinds=[a, b], nums=(2, 3)) for a in ('offset', 'gen', 'free', '0') for b in ('offset', 'gen', 'free', '1')]}, 'two objects of any generations, up to three entries of any number, offset (0-999) and generation'),
    ('updates', updates, {'quick': [dict(old=['0', 'offset'], new=['2', 'gen'], kind='table'), dict(old=['0', '1'], new=['offset', '3'], kind='stream'), dict(old=['0', '1'], new=['offset', 'free'], kind='mixed')], 'thorough': [dict(old=a, new=b, kind=k) for k in ('table', 'stream', 'mixed') for a in (['0', 'offset'], ['offset', '1'], ['0', '1']) for b in (['2', 'offset'], ['offset', '3'], ['free', '3'])]}, 'two revisions, each entry right, free, or at any offset'),
    ('embedded objects', embedded, {'quick': [dict(rows=['any'], vary='entries'), dict(rows=['any', (2, 6, 0)], vary='nums'), dict(rows=['type', (2, 5, 1)], vary='entries')], 'thorough': [dict(rows=['any', 'any'], vary='nums'), dict(rows=['type', 'any'], vary='nums')]}, 'two containers, entries of any type, container and rank'),
    ('hybrid sections', hybrid, [{}], 'a table and a stream with any entries'),
    ('large files', large, {'quick': [dict(n=12, revs=2, kind=k) for k in ('table', 'stream', 'embedded')], 'thorough': [dict(n=n, revs=r, kind=k) for k in ('table', 'stream', 'embedded') for n, r in ((12, 3), (40, 1))]}, 'up to 40 objects in a revision, several entries wrong and one anywhere near its object'),
    ('updated files of other layouts', library, [dict(kind=k, ops=['update', 'commit', 'add']) for k in ('linear', 'linear2', 'linearstream', 'linearstream2', 'hybrid', 'hybrid2', 'hybrid3', 'packed2')], 'linearized and hybrid files with up to three updates'),
    ('files of the library', library, {'quick': [dict(kind=k, ops=o) for k in ('blank', 'table', 'stream', 'embedded', 'mixed', 'deepstream') for o in (['update', 'commit', 'add'], ['delete', 'add stream'])], 'thorough': [dict(kind=k, ops=o) for k in ('blank', 'table', 'table2', 'gap', 'stream', 'stream2', 'embedded', 'mixed', 'deep', 'deepstream', 'manystream') for o in (['update', 'commit', 'add'], ['delete', 'commit', 'add stream', 'commit', 'update'])]}, 'files written after up to five operations'),
]
