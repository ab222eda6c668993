"""A cross-reference stream that is written reads back to the same map."""
import zlib
import pdfsyntax.filestruct as fs
import pdfsyntax.objects as o
from props.common import *

BOUNDS = [2 ** 8, 2 ** 16, 2 ** 24, 2 ** 32]


def entries(c, n, first, gaps, hi):
    res = []
    num = c.int('num0', 1, first)
    for i in range(n):
        if i:
            num = num + c.int(f'gap{i}', 1, gaps)
        k = c.choice(f'kind{i}', ['plain', 'embedded', 'deleted'])
        if k == 'plain':
            res.append((num, 'plain', c.int(f'off{i}', 0, hi), c.int(f'gen{i}', 0, 65535)))
        elif k == 'embedded':
            res.append((num, 'embedded', c.int(f'rank{i}', 0, 400), c.int(f'env{i}', 1, hi)))
        else:
            res.append((num, 'deleted', None, c.int(f'gen{i}', 0, 65534)))
    return res


def write(es, trailer, own):
    changes = []
    elems = [('f', 0, 65534, None, None)]
    for num, k, x, y in es:
        if k == 'plain':
            changes.append((complex(y, num), 'u'))
            elems.append(('n', num, y, x, None))
        elif k == 'embedded':
            changes.append((complex(0, num), 'u'))
            elems.append(('n', num, 0, x, y))
        else:
            changes.append((complex(y, num), 'd'))
            elems.append(('f', num, y, None, None))
    xn, pos = own
    elems.append(('n', xn, 0, pos, None))
    return fs.format_xref_stream(elems, trailer, fs.circular_deleted(changes), xn)


def expected(es, own):
    freed = [e[0] for e in es if e[1] == 'deleted']
    res = [(0, 0, freed[0] if freed else 0, 65535)]
    for num, k, x, y in es:
        if k == 'plain':
            res.append((num, 1, x, y))
        elif k == 'embedded':
            res.append((num, 2, y, x))
        else:
            freed = freed[1:]
            res.append((num, 0, freed[0] if freed else 0, y + 1))
    res.append((own[0], 1, own[1], 0))
    return res


def flatten(index):
    nums = []
    for i in range(0, len(index), 2):
        for j in range(index[i + 1]):
            nums.append(index[i] + j)
    return nums


def roundtrip(c, n, first, gaps, hi, flt):
    es = entries(c, n, first, gaps, hi)
    own = ((es[-1][0] if es else 0) + c.int('own', 1, gaps), c.int('pos', 0, hi))
    judge(c, es, own, flt)


def judge(c, es, own, flt):
    trailer = {'/Size': 9, '/Root': 1j}
    if flt:
        trailer['/Filter'] = flt
    t = write(es, trailer, own)
    b, e, k, i = o.parse_indirect_obj(t)
    c.same((b, k, i['o_num'], i['o_gen']), (0, 'IND_OBJ', own[0], 0), 'an indirect object')
    s = i['obj']
    want = expected(es, own)
    w = s.entries['/W']
    c.same((s.entries['/Type'], s.entries['/Size'], s.entries['/Root'], len(w)), ('/XRef', 9, 1j, 3), 'dictionary')
    nums = flatten(s.entries['/Index'])
    c.same(nums, [x[0] for x in want], 'object numbers of /Index')
    for j in range(2, len(s.entries['/Index']), 2):
        c.check(s.entries['/Index'][j] > s.entries['/Index'][j - 2] + s.entries['/Index'][j - 1], 'maximal subsections')
    row = w[0] + w[1] + w[2]
    c.same(len(s.stream), row * len(want), 'data size')
    for j, (num, typ, f2, f3) in enumerate(want):
        r = s.stream[j * row:(j + 1) * row]
        c.same((int.from_bytes(r[:w[0]], 'big'), int.from_bytes(r[w[0]:w[0] + w[1]], 'big'), int.from_bytes(r[w[0] + w[1]:], 'big')), (typ, f2, f3), 'row')
    x = fs.parse_xref_stream(s, 77, own[0])
    c.same((x[0]['o_num'], x[0]['xref_stream_pos'], x[0]['xref_stream_num'], x[0]['abs_pos']), (0, 77, own[0], 77), 'trailer')
    rows = [y for y in x[1:] if not y.get('DELETED')]
    live = [y for y in want if y[1] != 0]
    c.same(len(rows), len(live), 'in-use objects')
    for y, (num, typ, f2, f3) in zip(rows, live):
        if typ == 1:
            c.same((y['o_num'], y['abs_pos'], y['o_gen'], y.get('env_num')), (num, f2, f3, None), 'plain object')
        else:
            c.same((y['o_num'], y['env_num'], y['o_pos'], y['o_gen']), (num, f2, f3, 0), 'embedded object')


def large(c, n, flt):
    """Sections of several hundred objects: concrete entries around two symbolic ones."""
    es = []
    num = 1
    for i in range(n):
        num += 1 + (i % 11 == 10) * (i % 3 + 1)
        k = i * 7 % 10
        if i == n // 3:
            es.append((num, 'plain', c.int('off', 0, 2 ** 24 + 9), c.int('gen', 0, 65535)))
        elif i == n - 3:
            es.append((num, 'embedded', c.int('rank', 0, 400), c.int('env', 1, 2 ** 16 + 9)))
        elif k < 5:
            es.append((num, 'plain', 15 + 61 * i, i % 4))
        elif k < 8:
            es.append((num, 'embedded', i % 300, 5000 + i))
        else:
            es.append((num, 'deleted', None, i % 6))
    judge(c, es, (num + 1, 15 + 61 * n), flt)


def foreign(c, w, index):
    """Streams of other writers, with any legal column widths and subsections."""
    d = {'/Type': '/XRef', '/W': w, '/Size': 50, '/Root': 1j}
    n = 3
    first = 0
    if index == 'one':
        first = c.int('first', 0, 40)
        d['/Index'] = [first, n]
        nums = [first + i for i in range(n)]
    elif index == 'two':
        first = c.int('first', 0, 40)
        second = first + c.int('gap', 3, 9)
        d['/Index'] = [first, 2, second, 1]
        nums = [first, first + 1, second]
    elif index == 'with an empty one':
        d['/Index'] = [0, 1, 7, 0, 9, 2]
        nums = [0, 9, 10]
    else:
        d['/Size'] = n
        nums = [0, 1, 2]
    data = b''
    want = []
    for i in range(n):
        typ = 1
        if w[0]:
            typ = c.choice(f'type{i}', [0, 1, 2])
            data = data + typ.to_bytes(w[0], 'big')
        hi2 = 256 ** w[1] - 1
        f2 = c.int(f'b{i}', 1 if typ == 2 else 0, hi2)
        f3 = c.int(f'c{i}', 0, 256 ** w[2] - 1) if w[2] else 0
        data = data + f2.to_bytes(w[1], 'big') + (f3.to_bytes(w[2], 'big') if w[2] else b'')
        want.append((nums[i], typ, f2, f3))
    s = o.Stream(d, data, data)
    _, _, kind, content = o.parse_xref_stream_raw(s, 5)
    c.same(len(content['table']), n, 'one entry per row')
    for e, (num, typ, f2, f3) in zip(content['table'], want):
        if typ == 0:
            c.same((e[0], e[1], e[2], e[3], e[4]), (f2, None, num, f3, b'f'), 'free')
        elif typ == 1:
            c.same((e[0], e[1], e[2], e[3], e[4]), (f2, None, num, f3, b'n'), 'plain')
        else:
            c.same((e[0], e[1], e[2], e[3], e[4]), (f3, f2, num, 0, b'n'), 'embedded')
    x = fs.parse_xref_stream(s, 77, 3)
    got = [(y['o_num'], y.get('env_num'), y['o_pos'] if 'o_pos' in y else y['abs_pos']) for y in x[1:] if not y.get('DELETED')]
    c.same(got, [(num, None, f2) if typ == 1 else (num, f2, f3) for num, typ, f2, f3 in want if typ and num != 0], 'in-use objects')


def expand(c, n):
    idx = []
    want = []
    for i in range(n):
        f = c.int(f'first{i}', 0, 10 ** 9)
        k = c.choice(f'n{i}', [0, 1, 2, 3])
        idx += [f, k]
        want += [(f + j, i) for j in range(k)]
    c.same(o.expand_xref_index(idx), want, 'expanded')


FLTS = [None, '/FlateDecode', '/ASCIIHexDecode']
CASES = [
    ('roundtrip', roundtrip, {'quick': [dict(n=0, first=1, gaps=300, hi=2 ** 32 + 9, flt=None)] + [dict(n=1, first=9, gaps=2, hi=2 ** 32 + 9, flt=f) for f in FLTS[:2]]
                              + [dict(n=1, first=3, gaps=2, hi=70, flt=FLTS[2]), dict(n=2, first=3, gaps=2, hi=2 ** 16 + 9, flt=None), dict(n=3, first=1, gaps=2, hi=9, flt=None)],
                              'thorough': [dict(n=2, first=300, gaps=300, hi=2 ** 40, flt=f) for f in FLTS] + [dict(n=3, first=5, gaps=3, hi=2 ** 24 + 9, flt=None), dict(n=4, first=2, gaps=2, hi=300, flt=None)]},
     'n objects, numbers, offsets and containers within the given bounds, generations up to 65535'),
    ('foreign', foreign, [dict(w=w, index=i) for w in ([1, 2, 1], [1, 3, 2], [0, 2, 1], [1, 4, 0], [0, 1, 0], [2, 1, 1]) for i in ('none', 'one', 'two', 'with an empty one')], 'three rows with symbolic fields'),
    ('large', large, [dict(n=40, flt=None), dict(n=60, flt='/ASCIIHexDecode'), dict(n=300, flt=None)], 'n objects, two of them with symbolic fields'),
    ('expand', expand, [dict(n=n) for n in (0, 1, 2, 3)], 'n subsections of up to 3 objects'),
]
