"""A cross-reference table that is written reads back to the same map."""
import pdfsyntax.filestruct as fs
import pdfsyntax.objects as o
from props.common import *


def entries(c, n, first, gaps, fixed=False):
    """n objects with increasing numbers: (number, generation, offset or None if deleted)."""
    res = []
    num = c.int('num0', 1, first)
    if fixed:  # many objects: one of a few patterns of deletions
        kinds = c.choice('deleted', [[k in s for k in range(n)] for s in ((), (0,), (n - 1,), (1, n // 2), range(n))])
    for i in range(n):
        if i:
            num = num + (1 if fixed and i != fixed else c.int(f'gap{i}', 1, gaps))
        gen = c.int(f'gen{i}', 0, 65534)
        off = None if (kinds[i] if fixed else c.flag(f'deleted{i}')) else c.int(f'off{i}', 0, 10 ** 10 - 1)
        res.append((num, gen, off))
    return res


def write(c, es, trailer):
    changes = [(complex(g, n), 'd' if off is None else 'u') for n, g, off in es]
    elems = [('f', 0, 65534, None, None)]
    for n, g, off in es:
        elems.append(('f', n, g, None, None) if off is None else ('n', n, g, off, None))
    return fs.format_xref_table(elems, trailer, fs.circular_deleted(changes))


def expected_map(es):
    """number -> (field 1, generation, keyword) as the file format defines them."""
    freed = [n for n, g, off in es if off is None]
    res = [(0, freed[0] if freed else 0, 65535, b'f')]
    for n, g, off in es:
        if off is None:
            freed = freed[1:]
            res.append((n, freed[0] if freed else 0, g + 1, b'f'))
        else:
            res.append((n, off, g, b'n'))
    return res


def written(c, n, first, gaps, fixed=False):
    """The text follows the format: maximal subsections of 20-byte entries, a circular free list."""
    es = entries(c, n, first, gaps, fixed)
    t = write(c, es, {'/Size': 9, '/Root': 1j})
    want = expected_map(es)
    pos = 0
    c.same(t[0:5], b'xref\n', 'keyword')
    pos = 5
    i = 0
    while i < len(want):
        j = i + 1
        while j < len(want) and want[j][0] == want[j - 1][0] + 1:
            j += 1
        head = str(want[i][0]).encode('ascii') + b' ' + str(j - i).encode('ascii') + b'\n'
        c.same(t[pos:pos + len(head)], head, 'subsection header')
        pos += len(head)
        for num, f1, gen, kw in want[i:j]:
            line = t[pos:pos + 20]
            c.same(len(line), 20, 'entry length')
            c.same((int(line[0:10]), line[10:11], int(line[11:16]), line[16:17], line[17:18]), (f1, b' ', gen, b' ', kw), 'entry')
            c.check(line[18:20] == b' \n' or line[18:20] == b' \r' or line[18:20] == b'\r\n', 'end of the entry')
            pos += 20
        i = j
    c.same(t[pos:pos + 8], b'trailer\n', 'trailer keyword')
    c.same(o.parse_obj(t[pos + 8:]), {'/Size': 9, '/Root': 1j}, 'trailer dictionary')


def readback(c, n, first, gaps, fixed=False):
    es = entries(c, n, first, gaps, fixed)
    lead = c.choice('lead', [b'', b'%x\n'])
    t = lead + write(c, es, {'/Size': 9, '/Root': 1j}) + b'startxref\n0\n%%EOF\n'
    x = fs.parse_xref_table(t, len(lead), 1000)
    got = sorted([(e['o_num'], e['abs_pos'], e['o_gen']) for e in x[1:] if not e.get('DELETED')], key=lambda e: e[0])
    c.same(got, [(num, off, g) for num, g, off in es if off is not None], 'in-use objects')
    c.same((x[0]['o_num'], x[0]['xref_table_pos'], x[0]['abs_pos']), (0, 1000 + len(lead), 1000 + t.index(b'trailer')), 'positions of the table and trailer')
    _, end, kind, content = o.parse_xref_table_raw(t, len(lead))
    c.same((kind, content['trailer']), ('XREFTABLE', {'/Size': 9, '/Root': 1j}), 'trailer')
    raw = [e for e in content['table'] if len(e) == 4]
    c.same(raw, [(f1, num, gen, kw) for num, f1, gen, kw in expected_map(es)], 'raw entries')
    c.same(t[end:end + 10], b'\nstartxref', 'extent of the section')


def foreign(c, eol, sameline):
    """Tables of other writers: every legal line end, several subsections, the trailer on its own line or not."""
    e = {'sp lf': b' \n', 'sp cr': b' \r', 'cr lf': b'\r\n'}[eol]
    nl = b'\r\n' if eol == 'cr lf' else e[1:]
    a, b = c.int('a', 0, 10 ** 10 - 1), c.int('b', 1, 10 ** 10 - 1)
    g, h = c.int('g', 0, 65535), c.int('h', 0, 65535)
    n = c.int('n', 4, 120)

    def line(x, y, k):
        return f'{x:010d} {y:05d} {k}'.encode('ascii') + e
    t = b'xref' + nl + b'0 2' + nl + line(3, 65535, 'f') + line(b, h, 'n') + f'{n} 2'.encode('ascii') + nl + line(a, g, 'n') + line(0, g, 'f')
    t = t + b'trailer' + (c.choice('sep', [b'', b' ']) if sameline else nl) + b'<</Size 200/Root 1 0 R>>' + nl + b'startxref' + nl
    x = fs.parse_xref_table(t, 0, 0)
    got = [(y['o_num'], y['abs_pos'], y['o_gen']) for y in x[1:] if not y.get('DELETED')]
    c.same(got, [(1, b, h), (n, a, g)], 'in-use objects')
    _, end, kind, content = o.parse_xref_table_raw(t, 0)
    c.same((kind, content['trailer']), ('XREFTABLE', {'/Size': 200, '/Root': 1j}), 'trailer')
    c.same(t[end:], nl + b'startxref' + nl, 'extent of the section')


def free_list(c, n):
    """The chain of deleted objects visits each deleted object once and comes back to 0."""
    changes = []
    num = 0
    freed = []
    for i in range(n):
        num = num + c.int(f'gap{i}', 1, 10 ** 6)
        k = c.choice(f'action{i}', ['a', 'u', 'd'])
        changes.append((complex(c.int(f'gen{i}', 0, 65534), num), k))
        if k == 'd':
            freed.append(num)
    r = fs.circular_deleted(changes)
    c.same(len(r), len(freed) + 1, 'deleted objects and 0 only')
    at = 0
    seen = []
    for _ in range(len(freed)):
        at = r[at]
        seen.append(at)
    c.same(sorted(seen), freed, 'each visited once')
    c.same(r[at], 0, 'back to 0')


LONG = [dict(n=n, first=3, gaps=2, fixed=f) for n, f in ((7, 3), (13, 10), (24, 23))]
CASES = [
    ('written', written, {'quick': [dict(n=0, first=9, gaps=9), dict(n=1, first=10 ** 9, gaps=9), dict(n=2, first=99, gaps=99), dict(n=3, first=5, gaps=3)] + LONG,
                          'thorough': [dict(n=1, first=10 ** 9, gaps=9), dict(n=2, first=10 ** 6, gaps=10 ** 6), dict(n=3, first=99, gaps=99), dict(n=4, first=5, gaps=3), dict(n=5, first=2, gaps=2)]},
     'n objects, first number and gaps up to the given bounds, generations up to 65534, offsets up to 10 digits'),
    ('readback', readback, {'quick': [dict(n=0, first=9, gaps=9), dict(n=1, first=10 ** 9, gaps=9), dict(n=2, first=99, gaps=99), dict(n=3, first=5, gaps=3)] + LONG,
                            'thorough': [dict(n=1, first=10 ** 9, gaps=9), dict(n=2, first=10 ** 6, gaps=10 ** 6), dict(n=3, first=99, gaps=99), dict(n=4, first=5, gaps=3)]},
     'as above'),
    ('foreign', foreign, [dict(eol=e, sameline=s) for e in ('sp lf', 'sp cr', 'cr lf') for s in (False, True)], 'two subsections with symbolic numbers, offsets and generations'),
    ('free_list', free_list, [dict(n=n) for n in (0, 1, 2, 3, 4)], 'n changes'),
]
