"""The index check reports exactly the wrong entries and unindexed objects."""
import pdfsyntax as p
import pdfsyntax.filestruct as fs
from props.common import *
from props.pdffile import *
from props.c29 import obj_text


class Truth:
    """A file under construction, the objects it holds and the entries of its sections."""

    def __init__(self, c):
        self.root = 1j
        self.c = c
        self.out = b'%PDF-1.5\n'
        self.plain = []
        self.inside = []
        self.sections = {}
        self.prev = None

    def obj(self, num, gen, value=b'<</A 1>>'):
        pos = len(self.out)
        self.out = self.out + obj_text(self.c, '', num, gen, value) + b'\n'
        self.plain.append((num, gen, pos))
        return pos

    def container(self, num, nums):
        head, body = b'', b''
        at = []
        for i, n in enumerate(nums):
            head = head + f'{n} {len(body)} '.encode('ascii')
            body = body + b'  \n'[:i % 3] # white space between the announced position and the object
            at.append(len(body))
            body = body + b'<</B 2>> '
        self.places = [len(head) + x for x in at]
        for i, n in enumerate(nums):
            self.inside.append((n, num, i))
        return self.obj(num, 0, pt(St({'/Type': '/ObjStm', '/N': len(nums), '/First': len(head)}, head + body)))

    def close(self, pos):
        self.out = self.out + f'startxref\n{pos}\n%%EOF\n'.encode('ascii')
        self.prev = pos

    def table(self, subsections, hybrid=None):
        """subsections: list of (first, [(offset, gen, keyword)])."""
        pos = len(self.out)
        t = b'xref\n'
        want = []
        for first, rows in subsections:
            t = t + f'{first} {len(rows)}\n'.encode('ascii')
            for j, (o, g, k) in enumerate(rows):
                t = t + f'{o:010d} {g:05d} '.encode('ascii') + k + b' \n'
                if k == b'n' and first + j != 0:
                    want.append(('DIR', first + j, g, o))
        d = {'/Size': 99, '/Root': self.root}
        if self.prev is not None:
            d['/Prev'] = self.prev
        if hybrid is not None:
            d['/XRefStm'] = hybrid
        self.out = self.out + t + b'trailer\n' + pt(d) + b'\n'
        self.sections[pos] = want
        self.close(pos)

    def stream(self, num, subsections, gen=0, hybrid=False, wide=1):
        """A cross-reference stream; rows are (type, field, field)."""
        pos = len(self.out)
        want = []
        data = b''
        index = []
        for first, rows in subsections:
            index += [first, len(rows)]
            for j, (t, x, y) in enumerate(rows):
                data = data + bytes([t]) + x.to_bytes(2, 'big') + y.to_bytes(wide, 'big')
                if first + j == 0:
                    continue
                if t == 1:
                    want.append(('DIR', first + j, y, x))
                elif t == 2:
                    want.append(('EMB', first + j, x, y))
        d = {'/Type': '/XRef', '/W': [1, 2, wide], '/Index': index, '/Size': 99, '/Root': self.root}
        if self.prev is not None and not hybrid:
            d['/Prev'] = self.prev
        self.obj(num, gen, pt(St(d, data)))
        self.sections[pos] = want
        if not hybrid:
            self.close(pos)
        return pos

    def right(self, e):
        k, n, x, y = e
        if k == 'DIR':
            return any([a == n and b == x and q == y for a, b, q in self.plain])
        return any([a == n and b == x and r == y for a, b, r in self.inside])

    def verify(self):
        c = self.c
        f = fs.bdata_provider(self.out)
        m = fs.file_object_map(f)
        seq, _, _ = fs.build_xref_sequence(f)
        got = fs.check_index_targets(m, seq)
        c.same(sorted(got), sorted(self.sections), 'sections')
        for pos, want in self.sections.items():
            c.same(list(got[pos]), [e for e in want if not self.right(e)], 'wrong entries')
        entries = [e for s in self.sections.values() for e in s]
        want = []
        for n, g, q in self.plain:
            if not any([k == 'DIR' and a == n and b == g and o == q for k, a, b, o in entries]):
                want.append(('DIR', n, g, q))
        for n, e, r in self.inside:
            if not any([k == 'EMB' and a == n and b == e and o == r for k, a, b, o in entries]):
                want.append(('EMB', n, e, r))
        got = list(fs.check_not_indexed_objects(m, seq))
        c.same(len(got), len(want), 'number of unindexed objects')
        for w in want:
            c.check(any([w == x for x in got]), 'unindexed objects')


def entry_of(c, n, f, kind):
    """An entry of a table: anywhere, or at a known object with any generation."""
    if kind == 'offset':
        return (c.int(n + '.o', 0, 999), 0, b'n')
    if kind == 'gen':
        return (f.plain[c.choice(n + '.at', [0, 1])][2], c.int(n + '.g', 0, 99), b'n')
    if kind == 'both':
        return (c.int(n + '.o', 0, 999), c.int(n + '.g', 0, 65535), b'n')
    if kind == 'free':
        return (c.int(n + '.o', 0, 999), c.int(n + '.g', 0, 65535), b'f')
    return (f.plain[int(kind)][2], f.plain[int(kind)][1], b'n')


def tables(c, kinds, first='any', nums=None, T=Truth):
    """One table: entries with any offsets and generations for objects of any numbers."""
    f = T(c)
    for i in range(2):
        f.obj(c.int(f'num{i}', 1, 9) if nums is None else nums[i], c.int(f'gen{i}', 0, 9))
    a = c.int('first', 1, 5) if first == 'any' else first
    f.table([(0, [(0, 65535, b'f')]), (a, [entry_of(c, f'e{i}', f, k) for i, k in enumerate(kinds)])])
    f.verify()


def updates(c, old, new, kind, T=Truth):
    """Two revisions of tables or streams: each section is judged alone, an object is indexed if any section designates it."""
    f = T(c)
    f.obj(1, 0)
    f.obj(2, 0)
    def section(kinds, i, num):
        if kind == 'table' or kind == 'mixed' and i == 0:
            f.table([(1, [entry_of(c, f's{i}.{j}', f, k) for j, k in enumerate(kinds)])])
        else:
            rows = []
            for j, k in enumerate(kinds):
                o, g, w = entry_of(c, f's{i}.{j}', f, k)
                rows.append((1, o, g) if w == b'n' else (0, o, 0))
            f.stream(num, [(1, rows)])
    section(old, 0, 8)
    f.obj(c.int('num', 1, 3), c.int('gen', 0, 2))
    f.obj(2, 1)
    section(new, 1, 9)
    f.verify()


def embedded(c, rows, vary, T=Truth):
    """Streams with entries of embedded objects in any container at any rank."""
    f = T(c)
    nums = [c.int(f'n{i}', 10, 19) for i in range(2)] if vary == 'nums' else [11, 12]
    q1 = f.container(5, nums)
    q2 = f.container(6, [12])
    out = []
    for i, k in enumerate(rows):
        if k == 'any':
            out.append((2, c.int(f'e{i}', 1, 9), c.int(f'r{i}', 0, 3)))
        elif k == 'type':
            out.append((c.choice(f't{i}', [0, 1, 2]), c.int(f'e{i}', 1, 900), c.int(f'r{i}', 0, 3)))
        else:
            out.append(k)
    f.stream(7, [(11, out), (5, [(1, q1, 0), (1, q2, 0), (1, len(f.out), 0)])])
    f.verify()


def hybrid(c, T=Truth):
    """A table with a stream beside it."""
    f = T(c)
    q = f.obj(1, 0)
    k = f.container(5, [11, 12])
    x = f.stream(7, [(c.int('first', 10, 12), [(2, c.int('e', 1, 9), c.int('r', 0, 3)), (2, 5, 1)])], hybrid=True)
    f.table([(1, [(q, c.int('g', 0, 9), b'n')]), (5, [(c.int('o', 0, 999), 0, b'n')])], hybrid=x)
    f.verify()


def library(c, kind, ops):
    """The library indexes its own files exactly."""
    from props.session import Session
    s = Session(c, kind, b'')
    for op in ops:
        s.do([op])
    f = fs.bdata_provider(written(c, s.doc))
    m = fs.file_object_map(f)
    seq, _, _ = fs.build_xref_sequence(f)
    c.same([x for v in fs.check_index_targets(m, seq).values() for x in v], [], 'no wrong entry')
    c.same(list(fs.check_not_indexed_objects(m, seq)), [], 'no unindexed object')


def large(c, n, revs, kind, T=Truth):
    """Many objects and entries over several revisions; some entries are wrong, one of them anywhere."""
    f = T(c)
    k = c.choice('where', [0, n // 2, n - 1])
    r0 = c.choice('when', list(range(revs)))
    for r in range(revs):
        rows = []
        first = 5 + 3 * r
        where = []
        if kind == 'embedded':
            box = 200 + r if n < 99 else 900 + r
            q = f.container(box, [first + i for i in range(n)])
            for i in range(n):
                rows.append((2, box, (i + 1) % n if i % 9 == 4 + r else i) if i % 11 != 7 else (0, 0, 1))
            if r == r0:
                rows[k] = (2, c.int('env', box - r - 1, box - r + revs), c.int('rank', 0, n))
            f.stream(box + 50, [(first, rows), (box, [(1, q, 0)]), (box + 50, [(1, len(f.out), 0)])], wide=1 if n < 99 else 2)
            continue
        for i in range(n):
            where.append(f.obj(first + i, (i * 7 + r) % 4 if i % 5 else (i * 77 + r) % 256, b'<</A %d>>' % i + b' ' * (i % 13)))
        for i in range(n):
            g = (i * 7 + r) % 4 if i % 5 else (i * 77 + r) % 256
            o = where[i] if i % 9 != 4 + r else where[i] + 1
            rows.append((o, g, b'n') if i % 11 != 7 else (0, g, b'f'))
        if r == r0:
            rows[k] = (c.int('o', where[k] - 2, where[k] + 2), rows[k][1], b'n')
        if kind == 'table':
            f.table([(first, rows[:n // 3]), (first + n // 3, rows[n // 3:])])
        else:
            f.stream(250 + r, [(first, [(1 if w == b'n' else 0, o, g) for o, g, w in rows]), (250 + r, [(1, len(f.out), 0)])])
    f.verify()


CASES = [
    ('large', large, [dict(n=n, revs=r, kind=k) for k in ('table', 'stream', 'embedded') for n, r in ((12, 3), (40, 1), (6, 6))] + [dict(n=260, revs=1, kind='embedded')], 'up to 260 objects in a container, up to 40 objects in a revision, up to six revisions, several entries wrong and one anywhere near its object'),
    ('updated files of other layouts', library, [dict(kind=k, ops=['update', 'commit', 'add']) for k in ('linear', 'linear2', 'linearstream', 'linearstream2', 'hybrid', 'hybrid2', 'hybrid3', 'packed2')], 'linearized and hybrid files with up to three updates'),
    ('large files of the library', library, [dict(kind=k, ops=o) for k in ('deep', 'deepstream', 'manytable', 'manystream') for o in ([], ['update', 'commit', 'add'], ['delete', 'commit', 'add stream', 'commit', 'update'])], 'up to 70 objects'),
    ('table entries', tables, {'quick': [dict(kinds=['offset', 'gen']), dict(kinds=['both']), dict(kinds=['offset', 'offset'], first=2, nums=(2, 3)), dict(kinds=['0', 'free', '1']), dict(kinds=['gen', 'gen'])], 'thorough': [dict(kinds=[a, b]) for a in ('offset', 'gen', 'both', 'free', '0') for b in ('offset', 'gen', 'both', 'free', '1')]}, 'two objects of any numbers and generations, up to three entries of any number, offset (0-999) and generation'),
    ('updates', updates, {'quick': [dict(old=['0', 'offset'], new=['2', 'gen'], kind='table'), dict(old=['0', '1'], new=['free', 'offset'], kind='table'), dict(old=['0', '1'], new=['offset', '3'], kind='stream'), dict(old=['0', 'offset'], new=['2', '1'], kind='stream'), dict(old=['0', '1'], new=['offset', 'free'], kind='mixed')], 'thorough': [dict(old=a, new=b, kind=k) for k in ('table', 'stream', 'mixed') for a in (['0', 'offset'], ['offset', '1'], ['0', '1']) for b in (['2', 'offset'], ['offset', '3'], ['free', 'offset'])]}, 'two revisions, each entry right, free, or at any offset'),
    ('embedded objects', embedded, {'quick': [dict(rows=['any', 'any'], vary='entries'), dict(rows=['any', (2, 6, 0)], vary='nums'), dict(rows=['type', (2, 5, 1)], vary='entries')], 'thorough': [dict(rows=['any', 'any'], vary='nums'), dict(rows=['any', 'any', 'any'], vary='entries'), dict(rows=['type', 'any'], vary='nums')]}, 'two containers, entries of any type, container and rank'),
    ('hybrid sections', hybrid, [{}], 'a table and a stream with any entries'),
    ('files of the library', library, {'quick': [dict(kind=k, ops=o) for k in ('blank', 'table', 'stream', 'embedded', 'mixed') for o in (['update', 'commit', 'add'], ['delete', 'add stream'])], 'thorough': [dict(kind=k, ops=o) for k in ('blank', 'table', 'table2', 'gap', 'stream', 'stream2', 'embedded', 'mixed') for o in (['update', 'commit', 'add'], ['delete', 'commit', 'add stream', 'commit', 'update'], ['force', 'add'], ['annotate', 'commit', 'update'])]}, 'files written after up to three operations'),
]
