"""The HTML view shows the whole content of the file."""
import pdfsyntax as p
from props.common import *
from props.pdffile import *
from props.c31 import view, tokens, plain
from props.c39 import attribute, VOIDS


class Block:
    def __init__(self, at):
        self.at = at
        self.text = ''


class Page:
    """Texts of the blocks of an HTML page (without the lists of users), and of the panels beside them."""

    def __init__(self, c, text):
        self.blocks = []
        self.items = []
        self.header = ''
        stack = []
        current = None
        item = False
        header = False
        skip = None
        pending = ''
        for kind, t in tokens(text):
            if kind == 'text':
                t = plain(t)
                if skip is not None:
                    pending = pending + t
                elif current is not None:
                    current.text = current.text + t
                elif item:
                    self.items[-1] = self.items[-1] + t
                elif header:
                    self.header = self.header + t
                continue
            closing = t[1:2] == '/'
            name = t[2:-1] if closing else t[1:-1].split(' ')[0]
            if closing:
                if not stack:
                    continue
                name, what = stack.pop()
                if what == 'block':
                    current = None
                elif what == 'header':
                    header = False
                elif what == 'item':
                    item = False
                elif what == 'em':
                    skip = None
                    if 'used in' not in pending and current is not None:
                        current.text = current.text + pending
                continue
            what = None
            cls = attribute(t, 'class') or ''
            if name == 'div' and cls == 'block':
                what = 'block'
                current = Block(attribute(t, 'id'))
                self.blocks.append(current)
            elif name == 'div' and cls[:6] == 'header':
                what, header = 'header', True
            elif name == 'li':
                what, item = 'item', True
                self.items.append('')
            elif name == 'em':
                what, skip, pending = 'em', True, ''
            if name not in VOIDS:
                stack.append((name, what))


class Words:
    """Words of a shown text, read one after the other."""

    def __init__(self, c, text):
        self.c = c
        self.w = text.split()
        self.i = 0

    def next(self):
        self.c.check(self.i < len(self.w), 'more text expected')
        self.i += 1
        return self.w[self.i - 1]

    def peek(self):
        return self.w[self.i] if self.i < len(self.w) else ''

    def expect(self, words, msg):
        for x in words:
            self.c.same(self.next(), x, msg)

    def value(self, v, msg):
        """Read a shown value and compare."""
        c = self.c
        if isinstance(v, St):
            self.value({**v.d, '/Length': len(v.data)}, msg)
            self.expect(['stream'], 'stream keyword')
            if self.peek() == 'see':
                self.expect(['see', 'content'], 'summary')
                for x in v.data.decode('latin-1').split():
                    c.same(self.next(), x, 'stream content')
            else:
                c.same(self.next(), '<' + v.data.hex() + '>', 'binary stream content')
                if self.peek()[:3] == '...':
                    self.next()
            self.expect(['endstream'], 'endstream keyword')
        elif isinstance(v, dict):
            self.expect(['<<'], msg)
            left = list(v)
            while left:
                k = self.next()
                for x in left:
                    if x == k:
                        break
                else:
                    return c.fail(f'{msg}: key that does not exist or is shown twice')
                left = [y for y in left if y is not x]
                self.value(v[x], f'{msg} {x}')
            self.expect(['>>'], f'{msg}: all keys')
        elif isinstance(v, list):
            self.expect(['['], msg)
            long = False
            for i, x in enumerate(v):
                if self.peek() == '...(truncated)':
                    c.check(len(pt(v)) > 20, f'{msg}: a short list is shown whole')
                    self.next()
                    break
                self.value(x, f'{msg} item')
            self.expect([']'], f'{msg}: all items')
        elif isinstance(v, complex):
            self.expect([f'{int(v.imag)}', f'{int(v.real)}', 'R'], msg)
        elif isinstance(v, bool):
            c.same(self.next().lower(), 'true' if v else 'false', msg)
        else:
            self.expect([pt(v).decode('ascii')], msg)


class Model:
    """A file and the text of the view of each of its regions."""

    def __init__(self, c, **k):
        self.c = c
        self.w = Writer(**k)
        self.regions = [('comment', 0, self.w.out[:-1])]
        self.revs = 0

    def revision(self, objs, freed=(), kind='table', xnum=None, embedded=None, env=None, extra=None, tail=None):
        w = self.w
        first = w.first
        prev = w.prev
        w.revision(objs, [(n, 1) for n in freed], kind=kind, xnum=xnum, embedded={k: pt(v) for k, v in (embedded or {}).items()}, env=env, extra=extra)
        for n, (g, v) in objs.items():
            self.regions.append(('object', w.pos[n], n, g, v))
        rows = {n: ('n', w.pos[n], g) for n, (g, v) in objs.items()}
        for n in freed:
            rows[n] = ('f', 0, 1)
        start = w.sections[-1]
        if embedded:
            pos = w.out.rfind(f'\n{env} 0 obj\n'.encode('ascii')) + 1
            self.regions.append(('container', pos, env))
            rows[env] = ('n', pos, 0)
            for i, n in enumerate(embedded):
                self.regions.append(('embedded', env, i, n, embedded[n]))
                rows[n] = ('e', env, i)
        if first:
            rows[0] = ('f', 0, 65535)
        d = {'/Size': w.size, '/Root': w.root, **w.extra, **(extra or {})}
        if prev is not None:
            d['/Prev'] = prev
        if kind == 'table':
            self.regions.append(('table', start, rows, d))
        else:
            rows[xnum] = ('n', start, 0)
            idx = []
            for n in sorted(rows):
                if idx and idx[-2] + idx[-1] == n:
                    idx[-1] += 1
                else:
                    idx += [n, 1]
            self.regions.append(('stream', start, xnum, rows, {**d, '/Type': '/XRef', '/W': [1, 2, 2], '/Index': idx, '/Length': 5 * len(rows)}))
        at = w.out.rfind(b'startxref')
        self.regions.append(('startxref', at, start))
        self.regions.append(('comment', at + 10 + len(str(start)) + 1, b'%%EOF'))
        self.revs += 1

    def judge(self, version, pages, hybrid=False, linear=False):
        c = self.c
        page = Page(c, view(c, self.w.out, 'dir/f.pdf'))
        c.same(len(page.blocks), len(self.regions), 'one block for each region')
        items = []
        for r, blk in zip(self.regions, page.blocks):
            t = Words(c, blk.text)
            kind = r[0]
            if kind == 'embedded':
                _, env, rank, n, v = r
                t.expect([f'{env}', f'#{rank}{n}' if t.w[1] != f'#{rank}' else f'#{rank}'], 'place in the object stream')
                if t.w[1] == f'#{rank}':
                    t.expect([f'{n}'], 'number of the object')
                t.expect(['0', 'obj'], 'object header')
                t.value(v, f'object {n}')
                t.expect(['endobj'], 'end of the object')
                items.append(f'{n} {self.type(v)}')
            else:
                pos = f'{r[1]:010d}'
                if kind == 'comment':
                    want = r[2].decode('ascii')[:10]
                    c.same(blk.text.strip(), pos + want, 'comment')
                    continue
                elif kind == 'startxref':
                    t.expect([pos + 'startxref', f'{r[2]}'], 'startxref')
                elif kind == 'object':
                    _, _, n, g, v = r
                    t.expect([f'{pos}{n}', f'{g}', 'obj'], 'object header')
                    t.value(v, f'object {n}')
                    t.expect(['endobj'], 'end of the object')
                    items.append(f'{n} {self.type(v)}')
                elif kind == 'container':
                    t.expect([f'{pos}{r[2]}', '0', 'obj'], 'object header')
                    items.append(f'{r[2]} /ObjStm')
                    continue
                elif kind == 'table':
                    t.expect([pos + 'XREF', 'table', '&', 'trailer'], 'table header')
                    rows = r[2]
                    if not rows:
                        t.expect(['0', '0'], 'empty subsection')
                    for n in sorted(rows):
                        if n - 1 not in rows:
                            k = 1
                            while n + k in rows:
                                k += 1
                            t.expect([f'{n}', f'{k}'], 'subsection')
                        u, a, b = rows[n]
                        t.expect([f'{a:010d}', f'{b:05d}', u], f'entry {n}')
                        if u != 'f':
                            t.expect([f'#{n}', f'{b}'], f'object of entry {n}')
                    t.expect(['trailer'], 'trailer keyword')
                    t.value(r[3], 'trailer')
                    items.append('xref XREF table & trailer')
                elif kind == 'stream':
                    _, _, xnum, rows, d = r
                    t.expect([f'{pos}{xnum}', '0', 'obj'], 'object header')
                    t.value(d, 'dictionary')
                    t.expect(['stream'], 'stream keyword')
                    for n in sorted(rows):
                        if n == 0:
                            continue
                        u, a, b = rows[n]
                        if u == 'f':
                            t.expect([f'#{n}', f'{b}', 'Free', f'{a:010d}', 'f'], f'entry {n}')
                        elif u == 'n':
                            t.expect([f'#{n}', f'{b}', 'At', 'absolute', 'position', f'{a:010d}', 'n'], f'entry {n}')
                        else:
                            t.expect([f'#{n}', '0', 'In', 'object', 'stream', f'{a}', 'at', f'{b:010d}', 'n'], f'entry {n}')
                    t.expect(['endstream', 'endobj'], 'end of the stream')
                    items.append(f'{xnum} /XRef')
            c.same(t.peek(), '', 'nothing else')
        info = [('Version:', version), ('Page(s):', f'{pages}'), ('Revision(s):', f'{self.revs}'), ('Hybrid:', 'yes' if hybrid else 'no'), ('Linearized:', 'yes' if linear else 'no'), ('File', f'size: {len(self.w.out)} bytes')]
        got = [' '.join(x.split()) for x in page.items]
        c.same(got[:6], [f'{a} {b}' for a, b in info], 'information')
        c.same(got[6:6 + len(items)], [x.strip() for x in items], 'minimap')
        c.check('f.pdf' in page.header.split()[0:1], 'name of the file')

    def type(self, v):
        v = v.d if isinstance(v, St) else v
        return v.get('/Type', '') if isinstance(v, dict) else ''


def scalar(c, n, kind):
    if kind == 'int':
        return c.int(n, 10, 99)
    if kind == 'negative':
        return -c.int(n, 10, 99)
    if kind == 'real':
        return c.int(n, 11, 99) / 4
    if kind == 'name':
        return '/' + c.text(n, 2, LETTERS)
    if kind == 'string':
        return b'(' + c.bytes(n, 3, LETTERS + b'-+') + b')'
    if kind == 'hex':
        return b'<' + c.bytes(n, 4, HEX) + b'>'
    if kind == 'ref':
        return complex(c.int(n + '.g', 0, 9), c.int(n, 10, 99))
    if kind == 'bool':
        return c.flag(n)
    if kind == 'null':
        return 'null'


SCALARS = ['int', 'negative', 'real', 'name', 'string', 'hex', 'ref', 'bool', 'null']


def value(c, n, shape, kinds):
    a = [scalar(c, f'{n}{i}', k) for i, k in enumerate(kinds)]
    if shape == 'scalar':
        return a[0]
    if shape == 'list':
        return a
    if shape == 'lists':
        return [a, [], a[0]]
    if shape == 'dict':
        return {'/K' + chr(65 + i): x for i, x in enumerate(a)}
    if shape == 'typed':
        return {'/A': a[0], '/Subtype': '/S' + c.text(n + '.s', 1, LETTERS), '/B': a[-1], '/Type': '/T' + c.text(n + '.t', 1, LETTERS), '/C': 7}
    if shape == 'deep':
        return {'/A': {'/B': a[0], '/C': {'/D': [a[-1], {'/Type': '/X', '/E': a[0]}]}, '/F': {}}, '/G': a[-1]}
    if shape == 'stream':
        return St({'/A': a[0], '/Type': '/X', '/B': {'/C': a[-1]}}, c.bytes(n + '.data', 4, LETTERS))
    if shape == 'lines':
        return St({'/A': a[0]}, b'q\n' + c.bytes(n + '.x', 2, LETTERS) + b' w\r\n' + c.bytes(n + '.y', 1, DIGITS) + b' g')
    if shape == 'binary':
        return St({'/A': a[0]}, b'\x00' + c.bytes(n + '.data', 3))
    if shape == 'wide':
        d = {}
        t, u = c.choice(n + '.t', [None, 0, 5, 11]), c.choice(n + '.u', [None, 3, 11])
        for i in range(12):
            d['/K' + chr(65 + i)] = a[i % len(a)] if i in (2, 11) else i
            if i == t:
                d['/Type'] = '/T'
            if i == u:
                d['/Subtype'] = '/U'
        return d
    if shape == 'script':
        return {'/S': '/JavaScript', '/JS': a[0], '/Prev': a[-1]}


def many(c, n):
    """Many objects in an object stream, and many in a section."""
    m = Model(c)
    k = c.choice('place', [0, 1, n // 2, n - 1])
    m.revision(page_objs(1), kind='stream', xnum=40 + n, embedded={10 + i: [c.int('v', 100, 999)] if i == k else [i] for i in range(n)}, env=9)
    m.revision({10 + i: (0, c.int('w', 100, 999) if i == k else [i]) for i in range(n)}, [10 + n + 1])
    m.judge('1.4', 1)


SHAPES = ['scalar', 'list', 'lists', 'dict', 'typed', 'deep', 'stream', 'lines', 'binary', 'script', 'wide']


def values(c, shape, kinds, embedded=False):
    """Any value of any object is shown whole."""
    m = Model(c)
    v = value(c, 'v', shape, kinds)
    g = 0 if embedded else c.int('gen', 0, 9)
    if embedded:
        m.revision(page_objs(1), kind='stream', xnum=20, embedded={10: v, 12: [7]}, env=14)
    else:
        objs = page_objs(1)
        objs[10] = (g, v)
        m.revision(objs)
    m.judge('1.4', 1)


def history(c, kinds):
    """Every version of every object, every entry of every section."""
    x = c.text('version', 1, b'34567')
    m = Model(c, header=b'%PDF-1.' + x.encode('ascii') + b'\n')
    live = set()
    for r, kind in enumerate(kinds):
        objs = page_objs(2) if r == 0 else {}
        emb, freed = {}, []
        for n in (10, 12):
            act = c.choice(f'act{r}.{n}', ['none', 'define'] + (['free'] if n in live else [])) if r else 'define'
            if act == 'define':
                v = {'/V': c.int(f'v{r}.{n}', 10, 99)} if n == 10 else [c.int(f'v{r}.{n}', 10, 99)]
                live.add(n)
                if kind == 'embedded':
                    emb[n] = v
                else:
                    objs[n] = (c.int(f'g{r}.{n}', 0, 9), v)
            elif act == 'free':
                live.discard(n)
                freed.append(n)
        m.revision(objs, freed, 'table' if kind == 'table' else 'stream', 20 + r, emb, 30 + r)
    m.judge(f'1.{x}', 2)


def information(c, kind):
    """The panel: pages, version of the catalog, kind of file."""
    k = c.choice('pages', [1, 2, 3])
    x = c.text('version', 1, b'34567')
    objs = page_objs(k)
    own = c.flag('own version')
    if own:
        objs[1][1]['/Version'] = '/1.' + x
    m = Model(c, header=b'%PDF-1.3\n')
    if kind == 'linear':
        objs = {9: (0, {'/Linearized': c.int('l', 1, 9), '/L': 1234}), **objs}
    m.revision(objs)
    for i in range(c.choice('updates', [0, 1, 2]) if kind != 'linear' else 0):
        m.revision({10: (0, c.int(f'v{i}', 10, 99))}, kind='stream' if kind == 'mixed' else 'table', xnum=20 + i)
    m.judge('1.' + x if own else '1.3', k, linear=kind == 'linear')


CASES = [
    ('values', values,
     {'quick': [dict(shape=s, kinds=k) for s in SHAPES for k in (['int', 'string'], ['name', 'ref'])] + [dict(shape='scalar', kinds=[k]) for k in SCALARS if k != 'ref'] + [dict(shape='list', kinds=[k, 'int']) for k in SCALARS] + [dict(shape=s, kinds=['string', 'name'], embedded=True) for s in SHAPES[:6]],
      'thorough': [dict(shape=s, kinds=[k, j]) for s in SHAPES for k in SCALARS for j in ('int', 'name') if s != 'scalar' or k != 'ref'] + [dict(shape=s, kinds=[k, 'string'], embedded=True) for s in SHAPES[:6] for k in SCALARS if s != 'scalar' or k != 'ref']},
     'one object of any of eleven shapes (dictionaries of up to 14 entries) made of two values of any kind, 1 to 4 free characters or digits each; generation 0–9; embedded or not'),
    ('history', history, {'quick': [dict(kinds=k) for k in (['table'], ['embedded'], ['table', 'embedded'], ['embedded', 'table'], ['table', 'stream'])], 'thorough': [dict(kinds=[a, b]) for a in ('table', 'stream', 'embedded') for b in ('table', 'stream', 'embedded')] + [dict(kinds=k) for k in (['table', 'embedded', 'stream'], ['embedded', 'embedded', 'table'], ['table', 'table', 'table'])]}, '1–3 revisions of two objects that are defined, freed or left, in a table, a stream or an object stream, any generation'),
    ('many', many, {'quick': [dict(n=12)], 'thorough': [dict(n=40)]}, '12 (40) objects in one object stream, then in one table'),
    ('information', information, [dict(kind=k) for k in ('table', 'mixed', 'linear')], '1–3 pages, any version 1.3–1.7 in the header or the catalog, up to 3 revisions'),
]
