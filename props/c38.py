"""Document information is reported as stored."""
import pdfsyntax as p
import props.c24 as c24
from props.common import *
from props.pdffile import *
from props.trees import *
from props.session import Session

ENTRIES = {'Title': '/Title', 'Author': '/Author', 'Subject': '/Subject', 'Keywords': '/Keywords', 'Creator': '/Creator', 'Producer': '/Producer', 'CreationDate': '/CreationDate', 'ModDate': '/ModDate'}
PAPERS = {'US Tabloid': (792, 1224), 'US Legal': (612, 1008), 'US Letter': (612, 792), 'A0': (2384, 3370), 'A1': (1684, 2384), 'A2': (1191, 1684), 'A3': (842, 1191), 'A4': (595, 842),
          'A5': (420, 595), 'A6': (298, 420), 'A7': (210, 298), 'A8': (147, 210), 'A9': (105, 147), 'A10': (74, 105)}


def ver_of(c, n):
    """A version: (sortable value, text). The value is symbolic."""
    a, b = c.text(n + 'a', 1, b'12'), c.text(n + 'b', 1, b'01234567')
    return (ord(a) - 48) * 10 + ord(b) - 48, a + '.' + b


def later(a, b):
    return a if a[0] >= b[0] else b


def reported(c, doc, want, label):
    got = p.version(doc)
    c.same(got, want[1], label)


def versions(c, where, steps, kind='table'):
    """Header and catalog versions, raised several times."""
    head = ver_of(c, 'head')
    objs = page_objs(1)
    current = head
    entry = None
    if where != 'absent':
        entry = ver_of(c, 'entry')
        current = later(head, entry)
        objs[1][1]['/Version'] = '/' + entry[1] if where == 'direct' else 8j
        objs[8] = (0, '/' + entry[1])
    if where == 'null':
        objs[1][1]['/Version'] = 'null'
        current = head
    w = Writer(header=f'%PDF-{head[1]}\n'.encode('ascii'), kind=kind)
    w.revision(objs, xnum=9)
    doc = p.loads(w.out)
    reported(c, doc, current, 'version of the file')
    c.same(p.structure(doc)['Version'], current[1], 'version in the structure')
    for i in range(steps):
        v = ver_of(c, f'raise{i}')
        before = doc
        was = p.version(doc)
        doc = p.update_version(doc, v[1])
        c.same(p.version(before), was, 'the given document')
        current = later(current, v)
        reported(c, doc, current, 'raised version')
        how = c.choice(f'then{i}', ['nothing', 'commit', 'reload'])
        if how == 'commit':
            doc = p.commit(doc)
        elif how == 'reload':
            doc = p.loads(written(c, doc))
        reported(c, doc, current, f'version after {how}')
        cat = p.get_object(doc, 1j)
        c.same(cat['/Pages'], 2j, 'catalog')
        c.same(p.number_pages(doc), 1, 'pages')


def a_string(c, n, kind, k):
    """A string and its text."""
    if kind == 'literal':
        t = c.text(n, k, [x for x in range(32, 127) if x not in b'()\\'])
        return b'(' + t.encode('ascii') + b')', t
    if kind == 'hexadecimal':
        bs = [c.byte(f'{n}{i}', LETTERS) for i in range(k)]
        out, t = b'<', ''
        for b in bs:
            out = out + bytes([b'0123456789abcdef'[b // 16], b'0123456789ABCDEF'[b % 16]])
            t = t + chr(b)
        return out + b'>', t
    if kind == 'wide':
        out, t = b'<FEFF', ''
        for i in range(k):
            hi, lo = c.int(f'{n}{i}h', 1, 20), c.byte(f'{n}{i}l')
            for x in (hi, lo):
                out = out + bytes([b'0123456789ABCDEF'[x // 16], b'0123456789ABCDEF'[x % 16]])
            t = t + chr(hi * 256 + lo)
        return out + b'>', t
    if kind == 'escaped':
        x = c.byte(n, b'nrt()\\')
        after = {ord('n'): '\n', ord('r'): '\r', ord('t'): '\t', ord('('): '(', ord(')'): ')', ord('\\'): '\\'}
        return b'(a\\' + bytes([x]) + b')', 'a' + after[x]
    raise ValueError(kind)


def expect(c, got, want, label):
    if not want:
        c.check(got is None or got == '', label + ' absent')
    else:
        c.same(got, want, label)


def info(c, entry, kinds, place, others=()):
    """An information dictionary with some entries, direct or indirect."""
    d, want = {}, {}
    for i, k in enumerate([entry] + list(others)):
        form = c.choice(f'form{i}', kinds)
        if form in ('null', 'int', 'name', 'list', 'dangling'):
            d[ENTRIES[k]] = {'null': 'null', 'int': 12, 'name': '/X', 'list': [b'(x)'], 'dangling': 50j}[form]
            want[k] = None if form in ('null', 'dangling') else form
        elif form != 'absent':
            s, want[k] = a_string(c, f's{i}', form, c.choice(f'len{i}', [0, 2]))
            d[ENTRIES[k]] = s
            if form == 'literal' and c.flag(f'indirect{i}'):
                d[ENTRIES[k]] = complex(0, 30 + i)
    objs = page_objs(1)
    for i, k in enumerate([entry] + list(others)):
        if d.get(ENTRIES[k]) == complex(0, 30 + i):
            objs[30 + i] = (0, b'(' + want[k].encode('ascii') + b')')
    trailer = {}
    emb = {}
    if place == 'indirect':
        objs[20] = (0, d)
        trailer = {'/Info': 20j}
    elif place == 'direct':
        trailer = {'/Info': d}
    elif place == 'dangling':
        trailer = {'/Info': 40j}
    elif place == 'null':
        trailer = {'/Info': 'null'}
    elif place == 'embedded':
        emb = {20: pt(d)}
        trailer = {'/Info': 20j}
    if place in ('dangling', 'null', 'none'):
        want = {}
    w = Writer(kind='stream' if place == 'embedded' else 'table', trailer=trailer)
    w.revision(objs, embedded=emb, env=21, xnum=22)
    doc = p.loads(w.out)
    if c.flag('written'):
        doc = p.loads(written(c, p.rotate(doc, 90)))
    meta = p.metadata(doc)
    c.same(sorted(meta), sorted(ENTRIES), 'entries')
    for k in ENTRIES:
        if want.get(k) not in ('int', 'name', 'list'): #what is reported of a value that is not a string is unspecified
            expect(c, meta[k], want.get(k), k)


def long(c, kind, n):
    """Long texts in all entries at once."""
    d, want = {}, {}
    for i, k in enumerate(ENTRIES):
        if i == n % 8:
            s, t = a_string(c, f's{i}', kind, 2)
        else:
            s, t = {'literal': (b'()', ''), 'wide': (b'<FEFF>', ''), 'hexadecimal': (b'<>', '')}[kind]
        pad = 'Some long text %d of the %s entry, ' % (i, k) * (n // 30 + i)
        if kind == 'literal':
            s = s[:-1] + pad.encode('ascii') + b')'
            t = t + pad
        elif kind == 'wide':
            s = s[:-1] + pad.encode('utf-16-be').hex().encode('ascii') + b'>'
            t = t + pad
        else:
            s = b'<' + pad.encode('ascii').hex().encode('ascii') + s[1:]
            t = pad + t
        d[ENTRIES[k]] = s
        want[k] = t
    d['/Custom'] = b'(x)'
    w = Writer(trailer={'/Info': 20j})
    w.revision({**page_objs(1), 20: (0, d)})
    doc = p.loads(w.out)
    for i in range(2):
        m = p.metadata(doc)
        c.same(sorted(m), sorted(ENTRIES), 'entries')
        for k in ENTRIES:
            expect(c, m[k], want[k], k)
        doc = p.loads(written(c, p.rotate(doc, 90)))


def changed(c, kind):
    """The newest information dictionary is reported."""
    objs = page_objs(1)
    t1, t2 = c.text('t1', 2, LETTERS), c.text('t2', 2, LETTERS)
    objs[20] = (0, {'/Title': b'(' + t1.encode('ascii') + b')', '/Author': b'(x)'})
    w = Writer(kind=kind, trailer={'/Info': 20j})
    w.revision(objs, xnum=22)
    new = {'/Title': b'(' + t2.encode('ascii') + b')'}
    how = c.choice('how', ['update', 'commit', 'reload', 'in the file', 'other in the file', 'delete'])
    if how == 'in the file':
        w.revision({20: (0, new)}, xnum=23)
    elif how == 'other in the file':
        w.extra['/Info'] = 21j
        w.revision({21: (0, new)}, xnum=23)
    doc = p.loads(w.out)
    c.same(p.structure(doc)['Revisions'], 2 if 'file' in how else 1, 'revisions')
    first = doc
    if 'file' not in how:
        doc = p.update_object(doc, 20, None if how == 'delete' else new)
        if how == 'commit':
            doc = p.commit(doc)
        elif how == 'reload':
            doc = p.loads(written(c, doc))
        c.same(p.metadata(first)['Title'], t1, 'title before')
    m = p.metadata(doc)
    c.same(m['Title'], None if how == 'delete' else t2, 'new title')
    c.same(m['Author'], None, 'author removed')


def boxes(c, name, place='page'):
    """Size of the first page, near a standard one, with any origin and order of corners."""
    w, h = PAPERS[name]
    dx, dy = c.choice('dx', [-1, 0, 1]), c.choice('dy', [-1, 0, 1])
    x0, y0 = c.choice('x0', [0, 10, -7]), c.choice('y0', [0, -20])
    w, h = w + dx, h + dy
    box = [x0, y0, x0 + w, y0 + h]
    form = c.choice('corners', ['usual', 'reversed', 'top left', 'real', 'indirect', 'elements'])
    if form == 'reversed':
        box = [x0 + w, y0 + h, x0, y0]
    elif form == 'top left':
        box = [x0, y0 + h, x0 + w, y0]
    elif form == 'real':
        box = [b'%d.0' % v for v in box]
    objs = page_objs(2)
    extra = {}
    value = box
    if form == 'indirect':
        objs[10] = (0, box)
        value = 10j
    elif form == 'elements':
        objs[10], objs[11] = (0, box[2]), (0, box[3])
        value = box[:2] + [10j, 11j]
    if place == 'page':
        objs[3][1]['/MediaBox'] = value
    else:
        del objs[3][1]['/MediaBox']
        objs[2][1]['/MediaBox'] = value
    wr = Writer()
    wr.revision(objs)
    text = p.structure(p.loads(wr.out))['Paper of 1st page']
    mm, rest = text.split('mm or ')
    inches, kind = rest.split('in (')
    a, b = mm.split('x')
    c.check(abs(int(a) - w * 25.4 / 72) <= 1 and abs(int(b) - h * 25.4 / 72) <= 1, 'size in millimetres')
    a, b = inches.split('x')
    c.check(abs(float(a) - w / 72) <= 0.011 and abs(float(b) - h / 72) <= 0.011, 'size in inches')
    if (w, h) in PAPERS.values():
        c.check(PAPERS[kind[:-1]] == (w, h), 'name of the size')
    elif (h, w) not in PAPERS.values():
        c.same(kind, 'unknown)', 'no name')


def flags(c, shape, kind):
    """Pages, revisions, encryption, linearisation and hybrid flags."""
    tree = Tree(SHAPES[shape], lambda path, a, page: a == '/MediaBox', lambda path, a: [0, 0, 9, 9])
    objs = {1: (0, {'/Type': '/Catalog', '/Pages': 2j})}
    objs.update(tree.objs)
    trailer = {}
    enc = c.choice('encrypted', ['no', 'direct', 'indirect', 'null'])
    if enc == 'direct':
        trailer['/Encrypt'] = {'/Filter': '/Standard'}
    elif enc == 'indirect':
        trailer['/Encrypt'] = 90j
        objs[90] = (0, {'/Filter': '/Standard'})
    elif enc == 'null':
        trailer['/Encrypt'] = 'null'
    w = Writer(kind=kind, trailer=trailer)
    lin = c.choice('linearized', ['no', 'yes', 'without comment', 'two comments', 'other'])
    if lin != 'no':
        w.out = w.out + {'yes': b'%\xe2\xe3\n', 'other': b'%x\n', 'two comments': b'%\xe2\xe3\n%x\n', 'without comment': b''}[lin]
        objs = {91: (0, {'/Linearized' if lin != 'other' else '/Other': c.int('lin', 1, 9) if lin == 'yes' else 1.2 if lin == 'two comments' else 1, '/L': 999}), **objs}
    w.revision(objs, xnum=92, listing=list(objs))
    more = c.int('revisions', 0, 2)
    for r in range(more):
        w.revision({80: (0, r)}, xnum=93 + r)
    doc = p.loads(w.out)
    s = p.structure(doc)
    c.same(s['Pages'], len(tree.pages), 'pages')
    c.same(p.number_pages(doc), len(tree.pages), 'number of pages')
    c.same(len(p.pages(doc)), len(tree.pages), 'pages listed')
    c.same(s['Revisions'], 1 + more, 'revisions')
    c.same(s['Encrypted'], enc in ('direct', 'indirect'), 'encryption')
    c.same(s['Linearized'], lin in ('yes', 'without comment', 'two comments'), 'linearisation')
    c.same(s['Hybrid'], False, 'hybrid')


def hybrid_flag(c, updates):
    """Only files with an additional cross-reference stream are hybrid."""
    out = b'%PDF-1.4\n'
    pos = {}
    for n, o in [(1, {'/Type': '/Catalog', '/Pages': 2j}), (2, {'/Type': '/Pages', '/Kids': [3j], '/Count': 1}), (3, {'/Type': '/Page', '/Parent': 2j, '/MediaBox': [0, 0, 9, 9]}), (4, 7)]:
        pos[n] = len(out)
        out = out + f'{n} 0 obj\n'.encode('ascii') + pt(o) + b'\nendobj\n'
    is_hybrid = c.flag('hybrid')
    trailer = {'/Size': 6, '/Root': 1j}
    if is_hybrid:
        xs = len(out)
        row = b'\x01' + pos[4].to_bytes(2, 'big') + b'\x00'
        out = out + b'5 0 obj\n' + pt(St({'/Type': '/XRef', '/W': [1, 2, 1], '/Index': [4, 1], '/Size': 6}, row)) + b'\nendobj\n'
        trailer['/XRefStm'] = xs
    x = len(out)
    rows = [(0, 0, 65535, 'f')] + [(n, pos[n], 0, 'n') for n in (1, 2, 3)]
    if not is_hybrid:
        rows.append((4, pos[4], 0, 'n'))
    w = Writer()
    w.out = out + section(rows, trailer) + f'startxref\n{x}\n%%EOF\n'.encode('ascii')
    w.first, w.prev, w.size = False, x, 6
    for r in range(updates):
        w.revision({4: (0, 8 + r)})
    doc = p.loads(w.out)
    s = p.structure(doc)
    c.same(s['Hybrid'], is_hybrid, 'hybrid')
    c.same(s['Revisions'], 1 + updates, 'revisions')
    c.same(p.get_object(doc, 4j), 7 + updates, 'value')


def empty(c, how):
    """A document without pages can still be described."""
    objs = page_objs(1)
    if how == 'loaded':
        objs = {1: objs[1], 2: (0, {'/Type': '/Pages', '/Kids': [], '/Count': 0})}
    w = Writer()
    w.revision(objs)
    doc = p.loads(w.out)
    if how == 'removed':
        doc = p.remove_pages(doc, 0)
    s = p.structure(doc)
    c.same(s['Pages'], 0, 'pages')
    c.same(s['Version'], '1.4', 'version')


def library(c, kind, ops):
    """What is reported of a modified document is what is reported of the file written."""
    s = Session(c, kind)
    for op in ops:
        s.do([op])
    doc = p.commit(s.doc)
    a, m = p.structure(doc), p.metadata(doc)
    again = p.loads(written(c, doc))
    b = p.structure(again)
    for k in ('Version', 'Pages', 'Encrypted', 'Hybrid', 'Linearized', 'Paper of 1st page'):
        c.same(b[k], a[k], k)
    c.same(b['Revisions'], a['Revisions'], 'revisions')
    c.same(p.metadata(again), m, 'metadata')
    c.same(b['Pages'], len(p.pages(doc)), 'page count')


STRINGS = ['absent', 'literal', 'hexadecimal', 'wide', 'escaped']
def blank(c, steps=0):
    """A blank document has one page of the named size, in memory and once written."""
    size = c.choice('size', list(PAPERS))
    doc = p.blank() if size == 'A4' and c.flag('default') else p.blank(size)
    w, h = PAPERS[size]
    c.same(p.changes(doc), [], 'nothing is pending')
    for i in range(steps):
        op = c.choice(f'op{i}', ['rotate', 'note', 'update', 'write'])
        if op == 'rotate':
            doc = p.rotate(doc, 90)
        elif op == 'note':
            doc = p.add_text_annotation(doc, 0, 'a' + c.text(f't{i}', 1, b'bcd'), [1, 2, 3, 4])
        elif op == 'update':
            doc, _ = p.add_object(doc, c.int(f'v{i}', 10, 99))
        else:
            doc = p.loads(written(c, doc))
    for d in (doc, p.loads(written(c, doc))):
        s = p.structure(d)
        c.same(s['Version'], '1.4', 'version')
        c.same(s['Pages'], 1, 'pages')
        c.same((s['Encrypted'], s['Linearized'], s['Hybrid']), (False, False, False), 'flags')
        kind = s['Paper of 1st page']
        c.check(kind[-len(size) - 3:] == f' ({size})', 'paper size')
        c.same([list(x[0]) for x in p.page_layouts(d)], [[0, 0, w, h]], 'box of the page')
        c.same(p.get_page_contents(d, 0), [], 'no contents')
        m = p.metadata(d)
        c.check(all([m[k] is None for k in m]), 'no information')


CASES = [
    ('versions', versions, [dict(where=w, steps=1) for w in ('absent', 'direct', 'indirect', 'null')] + [dict(where='direct', steps=1, kind='stream'), dict(where='absent', steps=2)], 'any header version, any catalog version, raised once or twice'),
    ('info', info, [dict(entry=k, kinds=STRINGS, place='indirect') for k in ENTRIES] + [dict(entry='Title', kinds=STRINGS, place=q) for q in ('direct', 'embedded')]
     + [dict(entry='Title', kinds=['literal'], place=q) for q in ('dangling', 'null', 'none')] + [dict(entry='Title', kinds=['null', 'int', 'name', 'list', 'dangling'], place='indirect', others=['ModDate']), dict(entry='Author', kinds=['absent', 'literal'], place='indirect', others=['Subject', 'Keywords'])], 'strings of 0 and 2 characters'),
    ('long', long, [dict(kind=k, n=n) for k in ('literal', 'hexadecimal', 'wide') for n in (0, 100, 303)], 'eight entries of up to 600 characters, two of them symbolic'),
    ('changed', changed, [dict(kind=k) for k in ('table', 'stream')], 'titles of two letters'),
    ('boxes', boxes, {'quick': [dict(name=n) for n in ('A4', 'US Letter')] + [dict(name='A3', place='tree')], 'thorough': [dict(name=n, place=q) for n in PAPERS for q in ('page', 'tree')]}, 'sizes at most one point from a standard one'),
    ('flags', flags, [dict(shape=s, kind=k) for s, k in (('flat', 'table'), ('deep', 'stream'), ('hole', 'table'))], 'any combination'),
    ('hybrid', hybrid_flag, [dict(updates=u) for u in (0, 1)], 'one table'),
    ('blank', blank, {'quick': [dict(), dict(steps=1)], 'thorough': [dict(steps=2)]}, 'every size, two operations'),
    ('empty', empty, [dict(how=h) for h in ('loaded', 'removed')], 'no pages'),
    ('library', library, [dict(kind=k, ops=o) for k in ('table', 'stream', 'blank', 'deep', 'deepstream', 'manytable', 'manystream') for o in (['update'], ['rotate', 'commit', 'add'], ['concat'], ['squash'], ['annotate'])], 'modified documents'),
]
