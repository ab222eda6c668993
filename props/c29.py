"""The file map describes the whole file in order."""
import zlib
import pdfsyntax as p
import pdfsyntax.filestruct as fs
from props.common import *
from props.pdffile import *

NOEOL = bytes([b for b in range(256) if b not in b'\r\n'])


class File:
    """File text under construction with the regions it is made of."""

    def __init__(self, c):
        self.c = c
        self.out = b''
        self.regions = []
        self.k = 0

    def ws(self, n=None, alphabet=WS):
        """White space, any by default."""
        n = n if n is not None else f'ws{self.k}'
        self.k += 1
        self.out = self.out + self.c.bytes(n, 1, alphabet)

    def raw(self, b):
        self.out = self.out + b

    def region(self, kind, text, content):
        """Add one region; pseudo regions follow it in content."""
        self.regions.append((len(self.out), len(self.out) + len(text), kind, content))
        self.out = self.out + text


def value_of(c, got, want, msg):
    if isinstance(want, St):
        c.check(type(got) == p.Stream, msg + ' is a stream')
        c.same({k: v for k, v in got.entries.items() if k != '/Length'}, {k: v for k, v in want.d.items() if k != '/Length'}, msg + ' entries')
        c.same(got.encoded, want.data, msg + ' data')
    else:
        c.same(got, want, msg)


def verify(c, f):
    """The map of the file against its known regions."""
    m = fs.file_object_map(fs.bdata_provider(f.out))
    want = list(f.regions)
    pos = 0
    embedded = None
    for bo, eo, t, content in m:
        if eo is None and t == 'XREFSTREAM':
            c.same(bo, embedded[0], 'section position')
            c.same([x[:3] + (x[3][:6],) for x in content['table']], embedded[1]['xref'], 'stream entries')
            continue
        if t == 'IND_OBJ' and not isinstance(bo, int):
            r_pos = eo
            items = embedded[1]['objs']
            c.check(len(items) > 0, 'no more embedded objects than written')
            num, rank, actual, v = items.pop(0)
            c.same(r_pos, (embedded[0], actual, rank), 'rank')
            c.check(last < bo < embedded[0] + 1, 'position between the previous object of its container and the next object')
            last = bo
            c.same((content['o_num'], content['env_num']), (num, embedded[1]['num']), 'number')
            value_of(c, content['obj'], v, 'embedded value')
            continue
        c.same(bo, pos, 'regions follow each other')
        c.check(eo > bo, 'regions are not empty')
        pos = eo
        if t == 'VOID':
            for b in f.out[bo:eo]:
                c.check(b in WS, 'only blanks are void')
            c.same(content, f.out[bo:eo], 'void')
            continue
        if embedded:
            c.same(embedded[1].get('objs', []), [], 'all embedded objects')
            embedded = None
        c.check(len(want) > 0, 'no more regions than written')
        wbo, weo, wt, wc = want.pop(0)
        c.same((bo, eo, t), (wbo, weo, wt), 'region')
        if t in ('COMMENT', 'STARTXREF'):
            c.same(content, wc, 'content')
        elif t == 'IND_OBJ':
            c.same((content['o_num'], content['o_gen']), (wc['num'], wc['gen']), 'number and generation')
            value_of(c, content['obj'], wc['value'], 'value')
            embedded = (bo, wc)
            last = bo
            if 'objs' in wc:
                wc['objs'] = list(wc['objs'])
        elif t == 'XREFTABLE':
            c.same(content['table'], wc['table'], 'table')
            c.same(content['trailer'], wc['trailer'], 'trailer')
    c.same(pos, len(f.out), 'the whole file')
    c.same(len(want), 0, 'all regions')
    return m


# ------------------------------------------------------------------ regions

def comment(c, f, n, k=2):
    f.region('COMMENT', (t := b'%' + c.bytes(n, k, NOEOL)), t)
    f.ws(n + '.eol', b'\r\n')


def startxref(c, f, n):
    x = c.int(n, 100, 999)
    s = c.choice(n + '.eol', [b'\n', b'\r\n', b'\r', b' '])
    d = f'{x}'.encode('ascii')
    f.region('STARTXREF', b'startxref' + s + d, d)
    f.ws(n + '.e', b'\r\n')


def obj_text(c, n, num, gen, value, seps=b' '):
    """Object text; seps: white space between its tokens."""
    return f'{num}'.encode('ascii') + seps + f'{gen}'.encode('ascii') + seps + b'obj' + seps + value + seps + b'endobj'


def obj(c, f, n, value, seps=b' '):
    num, gen = c.int(n + '.num', 1, 9), c.int(n + '.gen', 0, 9)
    f.region('IND_OBJ', obj_text(c, n, num, gen, pt(value), seps), {'num': num, 'gen': gen, 'value': value})
    f.ws(n + '.eol')


def table(c, f, n, counts=(2,), trailer=None, gap=b'\n', plain=False):
    t = b'xref' + (b'\n' if plain else c.choice(n + '.x', [b'\n', b'\r\n', b'\r']))
    eol = b' \n' if plain else c.choice(n + '.eol', [b' \n', b' \r', b'\r\n'])
    content = []
    num = 0
    for s, k in enumerate(counts):
        num = c.int(f'{n}.first{s}', 0, 9)
        t = t + f'{num} {k}\n'.encode('ascii')
        content.append((num, k))
        for j in range(k):
            o, g = c.int(f'{n}.o{s}.{j}', 0, 9999999999), c.int(f'{n}.g{s}.{j}', 0, 65535)
            kw = c.choice(f'{n}.k{s}.{j}', [b'n', b'f']) if not plain or j == 0 else b'n'
            t = t + f'{o:010d} {g:05d} '.encode('ascii') + kw + eol
            content.append(((s, j), None, 'XREF', ('XREF_T', o, num + j, g, kw)))
    trailer = trailer if trailer is not None else {'/Size': c.int(n + '.size', 1, 9), '/Root': 1j}
    t = t + b'trailer' + gap + pt(trailer)
    f.region('XREFTABLE', t, {'table': content, 'trailer': trailer})
    f.ws(n + '.e')


def any_value(c, n):
    k = c.choice(n + '.kind', ['int', 'name', 'lstring', 'hstring', 'list', 'dict', 'bool', 'null', 'real'])
    if k == 'list':
        return [c.int(n + '.i', 0, 9), [b'(]' + c.bytes(n + '.s', 1, PLAIN) + b')'], 5j]
    if k == 'dict':
        return {'/A': a_name(c, n + '.n', (2,)), '/B': {'/C': b'<4>'}, '/D': [b'(>>' + c.bytes(n + '.s', 1, PLAIN) + b')']}
    return a_scalar(c, n, [k], small=True)


def sequence(c, first, n, last=None):
    """Regions of any kind one after the other."""
    f = File(c)
    if first == 'header':
        f.region('COMMENT', b'%PDF-1.4', b'%PDF-1.4')
        f.raw(b'\n')
    elif first == 'blank':
        f.ws('lead')
    for i in range(n):
        k = c.choice(f'k{i}', ['comment', 'object', 'stream', 'table', 'startxref', 'blank'])
        if k == 'comment':
            comment(c, f, f'c{i}')
        elif k == 'object':
            obj(c, f, f'o{i}', {'/A': b'(' + c.bytes(f'v{i}', 1, PLAIN) + b')'})
        elif k == 'stream':
            obj(c, f, f'o{i}', St({'/B': '/C'}, c.bytes(f'v{i}', 2)), b'\n')
        elif k == 'table':
            table(c, f, f't{i}', plain=True)
        elif k == 'startxref':
            startxref(c, f, f's{i}')
        elif k == 'blank':
            f.ws(f'b{i}')
    if last == 'eof':
        f.region('COMMENT', b'%%EOF', b'%%EOF')
    elif last == 'eofs':
        f.region('COMMENT', b'%%EOF', b'%%EOF')
        f.ws('z1', b'\r\n')
        f.ws('z2')
        f.ws('z3')
    verify(c, f)


def values(c):
    """Objects of any kind with any white space between tokens."""
    f = File(c)
    obj(c, f, 'a', any_value(c, 'v'), c.bytes('sep', 1, WS))
    obj(c, f, 'b', 7)
    verify(c, f)


def inner_comments(c, where, kind):
    """Comments between the tokens of an object, a table or a position."""
    x = c.bytes('x', 2, NOEOL)
    cm = b' %' + x + c.choice('eol', [b'\n', b'\r', b'\r\n'])
    v = {'dict': {'/A': 5}, 'stream': St({'/A': 5}, c.bytes('data', 2)), 'int': 12, 'list': [1, 2], 'string': b'(ab)'}[kind]
    if kind == 'stream':
        d = dict(v.d)
        d['/Length'] = len(v.data)
        parts = [b'7', b'0', b'obj', pt(d), b'stream\n' + v.data + b'\nendstream', b'endobj']
    else:
        parts = [b'7', b'0', b'obj', pt(v), b'endobj']
    if where >= len(parts) - 1:
        return c.check(True, 'no such place')
    t = parts[0]
    for i, q in enumerate(parts[1:]):
        t = t + (cm if i == where else b'\n') + q
    f = File(c)
    f.region('IND_OBJ', t, {'num': 7, 'gen': 0, 'value': v})
    f.ws('e')
    obj(c, f, 'b', 7)
    verify(c, f)


def trailer_comments(c, kind):
    x = c.bytes('x', 2, NOEOL)
    cm = b' %' + x + c.choice('eol', [b'\n', b'\r', b'\r\n'])
    f = File(c)
    if kind == 'trailer':
        table(c, f, 't', (1,), gap=cm)
    else:
        f.region('STARTXREF', b'startxref' + cm + b'123', b'123')
        f.ws('e')
    obj(c, f, 'b', 7)
    verify(c, f)


def streams(c, k, sep, length):
    """Streams with any data; what follows them is found."""
    d = {'/A': 1}
    data = c.bytes('d', k)
    if length == 'tricky':
        data = data + c.choice('t', [b'\nendstream ', b'\nendobj\n5 0 obj\n', b'xref\n', b'\rendstream\nendobj', b'stream\n'])
    v = St(d, data)
    f = File(c)
    t = b'7 0 obj' + sep + pt({'/A': 1, '/Length': len(data)}) + c.choice('eol1', [b'\n', b' ', b'']) + b'stream' + c.choice('eol2', [b'\n', b'\r\n']) + data + c.choice('eol3', [b'\n', b'\r\n', b'\r', b'']) + b'endstream' + c.choice('eol4', [b'\n', b' ']) + b'endobj'
    f.region('IND_OBJ', t, {'num': 7, 'gen': 0, 'value': v})
    f.ws('e')
    obj(c, f, 'b', {'/A': 5j})
    verify(c, f)


def indirect_length(c, k):
    """Streams whose length is in another object, of data without end of line or keyword."""
    f = File(c)
    data = c.bytes('d', k, bytes([b for b in range(256) if b not in b'\r\n']))
    v = St({'/A': 1}, data)
    t = b'7 0 obj\n' + pt({'/A': 1, '/Length': 8j}) + b'\nstream' + c.choice('eol2', [b'\n', b'\r\n']) + data + c.choice('eol3', [b'\n', b'\r\n', b'\r']) + b'endstream\nendobj'
    f.region('IND_OBJ', t, {'num': 7, 'gen': 0, 'value': v})
    f.ws('e')
    obj(c, f, 'b', k)
    verify(c, f)


def tables(c, counts):
    """Tables with any subsections and entries."""
    f = File(c)
    table(c, f, 't', counts)
    startxref(c, f, 's')
    comment(c, f, 'c', 1)
    verify(c, f)


def number(b):
    x = 0
    for d in b:
        x = x * 256 + d
    return x


def xref_stream(c, w, index, rows, types):
    """Cross-reference streams with any entries."""
    f = File(c)
    comment(c, f, 'c', 1)
    data = b''
    want = []
    nums = []
    subs = []
    for s, (a, k) in enumerate(index):
        for j in range(k):
            nums.append(a + j)
            subs.append((s, j))
    for r in range(rows):
        t = types[r] if w[0] else 1
        x, y = c.bytes(f'x{r}', w[1]), c.bytes(f'y{r}', w[2])
        row = (bytes([0] * (w[0] - 1) + [t]) if w[0] else b'')
        data = data + row + x + y
        env = None
        g, kw = number(y), b'n'
        o = number(x)
        if t == 0:
            kw = b'f'
        elif t == 2:
            env, o, g = number(x), number(y), 0
        want.append((subs[r], None, 'XREF', ('XREF_S', o, nums[r], g, kw, env)))
    d = {'/Type': '/XRef', '/W': list(w), '/Size': 9, '/Root': 1j}
    if index != [(0, rows)]:
        d['/Index'] = [v for pair in index for v in pair]
    v = St(d, data)
    f.region('IND_OBJ', b'7 0 obj\n' + pt(v) + b'\nendobj', {'num': 7, 'gen': 0, 'value': v, 'xref': want})
    if index == [(0, rows)]:
        d['/Size'] = rows
        f.out = b''
        f.regions = []
        f.region('IND_OBJ', b'7 0 obj\n' + pt(v) + b'\nendobj', {'num': 7, 'gen': 0, 'value': v, 'xref': want})
    f.ws('e')
    startxref(c, f, 's')
    verify(c, f)


def object_streams(c, kinds, sep=b' ', coded=False):
    """The objects of object streams are listed after their container."""
    from props.c16 import item
    f = File(c)
    comment(c, f, 'c', 1)
    body, head, objs = b'', b'', []
    nums = []
    for i, k in enumerate(kinds):
        v, t = item(c, f'v{i}', k) if not coded else ((10 + i, str(10 + i).encode('ascii')))
        num = c.int(f'n{i}', 10, 99) if not coded else 20 + i
        head = head + f'{num} {len(body)} '.encode('ascii')
        objs.append([num, i, len(body), v])
        body = body + t + sep
    first = len(head)
    objs = [(n, i, first + o, v) for n, i, o, v in objs]
    d = {'/Type': '/ObjStm', '/N': len(kinds), '/First': first}
    data = head + body
    if coded:
        data = zlib.compress(data)
        d['/Filter'] = '/FlateDecode'
    num = c.int('num', 1, 9)
    v = St(d, data)
    f.region('IND_OBJ', obj_text(c, 's', num, 0, pt(v)), {'num': num, 'gen': 0, 'value': v, 'objs': objs})
    f.ws('e')
    obj(c, f, 'b', 7)
    m = verify(c, f)
    c.same(len([x for x in m if x[2] == 'IND_OBJ']), len(kinds) + 2, 'all objects')


def library(c, kind, ops):
    """Files written by the library itself: objects and entries of the map agree with an independent reader."""
    from props.session import Session
    s = Session(c, kind, b'')
    for op in ops:
        s.do([op])
    out = written(c, s.doc)
    r = read_strict(out, s.marks[0] if kind.startswith(('linear', 'hybrid')) else 0)
    m = fs.file_object_map(fs.bdata_provider(out))
    pos = 0
    tables = {}
    objs = {}
    for bo, eo, t, content in m:
        if isinstance(eo, int):
            c.same(bo, pos, 'regions follow each other')
            pos = eo
        if t in ('XREFTABLE', 'XREFSTREAM'):
            rows = {}
            for x in content['table']:
                if len(x) == 2:
                    continue
                o, n, g, k = x[3][1:5]
                env = x[3][5] if x[3][0] == 'XREF_S' else None
                c.check(n not in rows, 'one entry per object')
                rows[n] = ('e', env, o) if env is not None else (k.decode('ascii'), o, g)
            tables[bo] = rows
        elif t == 'IND_OBJ' and isinstance(bo, int):
            objs[bo] = (content['o_num'], content['o_gen'])
    c.same(pos, len(out), 'the whole file')
    c.same(sorted(tables), sorted([x[0] for x in r]), 'sections')
    indexed = set()
    for pos, entries, root, num in r:
        c.same(tables[pos], entries, 'entries')
        for n, (k, x, y) in entries.items():
            if k == 'n':
                c.same(objs.get(x), (n, y), 'object at the position of its entry')
                indexed.add(x)
    c.same(sorted(objs), sorted(indexed), 'all objects')
    doc = p.loads(out)
    newest = {}
    for x in m:
        if x[2] == 'IND_OBJ':
            newest[x[3]['o_num']] = x[3]['obj']
    for n in [int(x.imag) for x in p.in_use(doc)]:
        v = p.get_object(doc, complex(0, n))
        c.same(v.entries if type(v) == p.Stream else v, newest[n].entries if type(newest[n]) == p.Stream else newest[n], 'newest value')


FRAGMENTS = [b']', b'>>', b'<<', b'[', b'(', b')', b'<', b'>', b'%', b'1 0 obj ', b'endobj\n', b'xref\n', b'0 1\n', b'trailer', b'startxref', b'stream\n', b'\nendstream', b'/A', b'5 ', b'\n']


def exceptional(c, text):
    try:
        fs.file_object_map(fs.bdata_provider(text))
    except Exception as e:
        c.genuine(e)
    c.check(True, 'terminates')


def terminates(c, k, lead=b''):
    """Mapping any bytes ends."""
    exceptional(c, lead + c.bytes('x', k))


def bulk(c, n, shift):
    """Many regions of all kinds, their kinds and sizes given, some contents symbolic."""
    f = File(c)
    f.region('COMMENT', b'%PDF-1.4', b'%PDF-1.4')
    f.raw(b'\n')
    for i in range(n):
        k = (i * 5 + shift) % 7
        if k == 0:
            f.region('COMMENT', (t := b'%' + b'comment ' * (i % 40) + c.bytes(f'c{i}', 1, LETTERS)), t)
            f.raw(b'\n')
        elif k == 1:
            v = {'/A': [b'(' + b'text %d ' % i * (i * 3 % 50) + b')', {'/B': [5j] * (i % 30)}]}
            f.region('IND_OBJ', obj_text(c, '', 100 + i, i % 300, pt(v)), {'num': 100 + i, 'gen': i % 300, 'value': v})
            f.raw(b'\r\n')
        elif k == 2:
            v = St({'/B': '/C', '/F': i}, bytes([(j * j + i) % 256 for j in range(i * 37 % 1500)]) + (c.bytes(f'd{i}', 1) if i < 8 else b'.'))
            f.region('IND_OBJ', obj_text(c, '', 100 + i, 0, pt(v), b'\n'), {'num': 100 + i, 'gen': 0, 'value': v})
            f.raw(b'\n\n')
        elif k == 3:
            t = b'xref\n'
            content = []
            for s, (num, m) in enumerate([(i, i % 30), (i * 2, i % 3)][:1 + i % 2]):
                t = t + f'{num} {m}\n'.encode('ascii')
                content.append((num, m))
                for j in range(m):
                    o = i * 1000 + j if (i, j) != (3 - shift, 0) else c.int(f'o{i}', 0, 9999999999)
                    t = t + f'{o:010d} {j:05d} n \n'.encode('ascii')
                    content.append(((s, j), None, 'XREF', ('XREF_T', o, num + j, j, b'n')))
            trailer = {'/Size': i, '/Root': 1j, '/L': ['/Long'] * i}
            f.region('XREFTABLE', t + b'trailer\n' + pt(trailer), {'table': content, 'trailer': trailer})
            f.raw(b'\n')
        elif k == 4:
            d = f'{i * 1000}'.encode('ascii')
            f.region('STARTXREF', b'startxref\n' + d, d)
            f.raw(b'\n')
        elif k == 5:
            f.raw(b' ' * (i % 70) + b'\n')
        else:
            v = a_scalar(c, f'v{i}', [['name', 'lstring', 'hstring'][i % 3]], small=True) if i < 8 else [7, '/N', b'(s)'][i % 3]
            f.region('IND_OBJ', obj_text(c, '', 100 + i, 0, pt(v)), {'num': 100 + i, 'gen': 0, 'value': v})
            f.raw(b'\n')
    f.region('COMMENT', b'%%EOF', b'%%EOF')
    f.raw(b'\n')
    verify(c, f)


def fragments(c, n, k=0, tail=b''):
    """Mapping any sequence of fragments of PDF files ends."""
    t = b''
    for i in range(n):
        t = t + c.choice(f'f{i}', FRAGMENTS)
        if k:
            t = t + c.bytes(f'x{i}', k)
    exceptional(c, t + tail)


CASES = [
    ('regions', sequence, {'quick': [dict(first=a, n=2, last=b) for a, b in [('header', 'eof'), ('blank', 'eofs'), ('', None)]], 'thorough': [dict(first=a, n=n, last=b) for a in ('header', 'blank', '') for b in ('eof', 'eofs', None) for n in (1, 2)] + [dict(first='header', n=3, last='eof')]}, 'two regions (three thorough) of any kind (comment of 2 bytes, object holding a string, stream of 2 bytes, table of two entries, startxref, blank) with any numbers, contents and separators'),
    ('values', values, [{}], 'one object of any kind and any 1-byte separator between its tokens'),
    ('comments inside objects', inner_comments, [dict(where=i, kind=k) for k in ('dict', 'stream', 'int', 'list', 'string') for i in range(5) if i < 4 or k == 'stream'], 'a comment of any 2 bytes between any two tokens of an object'),
    ('comments elsewhere', trailer_comments, [dict(kind='trailer'), dict(kind='startxref')], 'a comment of any 2 bytes after trailer or startxref'),
    ('streams', streams, {'quick': [dict(k=k, sep=b'\n', length=l) for k in (0, 2) for l in ('plain', 'tricky')], 'thorough': [dict(k=k, sep=s, length=l) for k in (0, 1, 3) for l in ('plain', 'tricky') for s in (b'\n', b' ', b'')]}, 'streams of any 2 bytes (3 thorough) followed by keywords of files, any end-of-line combination around them'),
    ('streams with indirect lengths', indirect_length, [dict(k=k) for k in (0, 2, 4)], 'data of up to 4 bytes without end of line'),
    ('tables', tables, {'quick': [dict(counts=(0,)), dict(counts=(1,)), dict(counts=(1, 2)), dict(counts=(2, 0, 1))], 'thorough': [dict(counts=x) for x in [(0,), (1,), (1, 2), (2, 0, 1), (3,), (2, 2), (4, 1)]]}, 'up to three subsections of up to two entries (four thorough) with any numbers, offsets and generations'),
    ('cross-reference streams', xref_stream, {'quick': [dict(w=(1, 2, 1), index=[(3, 1), (7, 2)], rows=3, types=(0, 1, 2)), dict(w=(1, 2, 1), index=[(0, 3)], rows=3, types=(0, 2, 1)), dict(w=(0, 2, 1), index=[(4, 2)], rows=2, types=()), dict(w=(2, 3, 2), index=[(4, 2)], rows=2, types=(2, 1)), dict(w=(1, 2, 0), index=[(4, 2)], rows=2, types=(1, 1))], 'thorough': [dict(w=w, index=i, rows=3, types=t) for w in [(1, 2, 1), (0, 2, 1), (2, 3, 2), (1, 2, 0), (1, 4, 2)] for i in [[(3, 1), (7, 2)], [(0, 3)], [(5, 3)]] for t in [(0, 1, 2), (2, 2, 1), (1, 0, 0)] if w[2] or 2 not in t]}, 'up to three rows of any values, several widths and subsections'),
    ('object streams', object_streams, {'quick': [dict(kinds=['int', 'dict', 'string']), dict(kinds=['list', 'null', 'name', 'hex'], sep=b'\n'), dict(kinds=['dict'], sep=b''), dict(kinds=[]), dict(kinds=['int'] * 130, coded=True)], 'thorough': [dict(kinds=k, sep=s) for k in (['int', 'dict', 'string'], ['list', 'null', 'name', 'hex'], ['true', 'int']) for s in (b' ', b'\n', b'\r\n')] + [dict(kinds=['dict', 'list'], sep=b''), dict(kinds=[]), dict(kinds=['int'] * 130, coded=True)]}, 'up to four embedded objects with any numbers and values, or 130 in a compressed stream'),
    ('files written by the library', library, [dict(kind=k, ops=o) for k in ('blank', 'table', 'stream', 'embedded', 'mixed') for o in (['update'], ['add', 'delete'])], 'the whole of files written after updates'),
    ('many regions', bulk, [dict(n=14, shift=s) for s in range(3)] + [dict(n=60, shift=0), dict(n=100, shift=1)], 'files of 14, 60 or 100 regions of all kinds, up to 2000 bytes each'),
    ('updated files of other layouts', library, [dict(kind=k, ops=['update', 'commit', 'add']) for k in ('linear', 'linear2', 'linearstream', 'linearstream2', 'hybrid', 'hybrid2', 'hybrid3', 'packed2')], 'linearized and hybrid files with up to three updates'),
    ('large files written by the library', library, [dict(kind=k, ops=o) for k in ('deep', 'deepstream', 'manytable', 'manystream') for o in ([], ['update', 'delete', 'commit', 'add'])], 'up to 70 objects, three to seven revisions'),
    ('any bytes', terminates, {'quick': [dict(k=3), dict(k=3, lead=b'1 0 obj<<'), dict(k=3, lead=b'1 0 obj ['), dict(k=2, lead=b'1 0 obj\n<<>>stream\n'), dict(k=3, lead=b'xref\n'), dict(k=2, lead=b'xref\ntrailer')], 'thorough': [dict(k=4), dict(k=5), dict(k=4, lead=b'1 0 obj<<'), dict(k=4, lead=b'1 0 obj ['), dict(k=3, lead=b'1 0 obj\n<<>>stream\n'), dict(k=4, lead=b'xref\n'), dict(k=3, lead=b'xref\ntrailer')]}, 'any 3 bytes (5 thorough) at the start of a file or inside an object or table'),
    ('any fragments', fragments, {'quick': [dict(n=2), dict(n=2, k=1)], 'thorough': [dict(n=3), dict(n=2, k=1), dict(n=3, tail=b'\n1 0 obj\n5\nendobj\n')]}, 'two fragments (three thorough) of PDF syntax, with any byte after each'),
]
