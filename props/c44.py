"""What the prompt shows of a document is what it holds."""
import pdfsyntax as p
from props.common import *
from props.pdffile import *
from props.trees import *
from props.session import *
from props.c33 import Pending


def shown(c, f, *a):
    c.forget_printed()
    f(*a)
    return c.printed()


def summary(c, s, pend, label):
    """The revision and the number of changes."""
    n = len(pend.expected())
    c.same(repr(s.doc), f'<PDF Doc in revision {len(s.model) - 1} with {n} modified object(s)>', label + ': summary')
    c.same(str(s.doc), repr(s.doc), label + ': text')


def cells(c, text):
    """The map of objects: one character each."""
    lines = [x for x in text.split('\n') if x != '']
    c.same(lines[0], '      0123456789', 'header of the map')
    out = ''
    size = len(lines)
    for i, x in enumerate(lines[1:]):
        if x[:5] != f'{i}_'.rjust(5):
            c.check(i == size - 2 and out.endswith(x), 'rows of the map') # the last row may be left over
            break
        c.same(x[5], ' ', 'separator')
        out += x[6:]
    return out


def maps(c, s, pend, label):
    got = cells(c, shown(c, p.pprint_cache, s.doc))
    want = dict(pend.expected())
    top = max(n for m in s.model for n in m)
    c.check(len(got) > top, label + ': every object is in the map')
    for i, x in enumerate(got):
        if i in want and i:
            c.check(x in want[i], f'{label}: object {i} is shown as {x}, not {want[i]}')
        elif i:
            c.check(x in 'x-', f'{label}: object {i} is shown as {x}')


def history(c, s, label):
    """End of each revision of the file, and data added since."""
    rows = {}
    for x in shown(c, p.pprint_data_history, s.doc).split('\n'):
        if x != '':
            a = x.split('|')
            rows[a[0].strip()] = [y.strip() for y in a[1:]]
    n = len(s.model)
    c.same(sorted(rows), ['add_data', 'data_f()', 'data_sz', 'eof_cut'], label + ': rows')
    for r in rows.values():
        c.same(len(r), n, label + ': one column for each revision')
    size = len(s.file)
    for i in range(n):
        if i < len(s.marks if s.file else []):
            c.same(rows['eof_cut'][i], str(s.marks[i]), label + ': end of a revision of the file')
            c.same(rows['data_sz'][i], str(len(s.file)), label + ': size of the file')
            c.same(rows['add_data'][i], 'None', label + ': no data added')
        else:
            c.same(rows['eof_cut'][i], 'None', label + ': not in the file')
            if i == n - 1:
                c.same(rows['add_data'][i], 'None', label + ': pending')
            else:
                size += int(rows['add_data'][i])
                c.same(rows['data_sz'][i], str(size), label + ': size with the data added')
    c.same(size, len(written(c, s.doc)) if not p.changes(s.doc) else size, label + ': size of the file written')


def session(c, kind, steps, ops, first=()):
    """After any operations."""
    s = Session(c, kind)
    pend = Pending(s)
    summary(c, s, pend, 'at the start')
    history(c, s, 'at the start')
    for i in range(steps):
        op = pend.step([first[i]] if i < len(first) else ops)
        summary(c, s, pend, 'after ' + op)
        maps(c, s, pend, 'after ' + op)
        history(c, s, 'after ' + op)


def back(c, kind):
    """Going back through the revisions of a file, all its objects being new in the first one."""
    s = Session(c, kind)
    n = len(s.model) - 1
    for i in range(n, 0, -1):
        c.same(repr(s.doc), f'<PDF Doc in revision {i} with {0 if i == n else len(p.changes(s.doc))} modified object(s)>', 'summary')
        s.doc = p.rewind(s.doc)
    live = [k for k, v in s.model[0].items() if v != DELETED and v is not None]
    c.same(repr(s.doc), f'<PDF Doc in revision 0 with {len(live)} modified object(s)>' if s.model[0].get(6, 0) is not None and s.model[0].get(7, 0) is not None else repr(s.doc), 'first revision')


def hierarchy(c, shape, indirect=(), gens=False):
    """The page tree: each node at its level, pages numbered in order."""
    shown_as = []
    tree = Tree(SHAPES[shape], lambda path, a, page: a == '/MediaBox' and page, lambda path, a: [0, 0, 9, c.int('box', 100, 999)] if len(path) == 1 and path[0] == 0 else [0, 0, 9, 9], indirect=indirect)
    kind = c.choice('contents', ['one', 'none', 'several'])
    last = tree.pages[-1][0]
    node = tree.objs[last][1]
    one = node.pop('/Contents')
    if kind == 'one':
        node['/Contents'] = one
    elif kind == 'several':
        node['/Contents'] = [one, one]
    doc = p.loads(tree.file(c.choice('kind', ['table', 'stream'])))
    lines = [x for x in shown(c, p.pprint_page_hierarchy, doc).split('\n') if x != '']
    total = leaves(SHAPES[shape])
    c.same(lines[0], f'Page count = {total}', 'count')
    want, k = [], 0
    for num, path, parent, n in tree.nodes:
        x = ' ' * (4 * (len(path) + 1) + 1)
        o = tree.objs[num][1]
        if o['/Type'] == '/Pages':
            kids = tree.objs[int(o['/Kids'].imag)][1] if isinstance(o['/Kids'], complex) else o['/Kids']
            want.append(f'{x}/Pages node at {complex(0, num)}, kids count = {len(kids)}:')
        else:
            want.append(f'{x}/Page [{k}] at {complex(0, num)} with content(s) at {o.get("/Contents")}')
            k += 1
    c.same(lines[1:], want, 'tree')


def table(c, kind):
    """The index: where each revision of the file puts each object."""
    s = Session(c, kind)
    for compact in (False, True):
        rows = {}
        for x in shown(c, p.pprint_index, s.doc, compact).split('\n'):
            a = x.split('|')
            if len(a) > 1 and a[0].strip() != '':
                rows[a[0].strip()] = [y.strip() for y in a[1:]]
        n = len(s.model)
        seen = {}
        for num in sorted({k for m in s.model for k in m}):
            c.check(str(num) in rows, f'object {num} has a row')
            r = rows[str(num)]
            c.same(len(r), n, 'one column for each revision')
            for j, m in enumerate(s.model):
                old = s.model[j - 1].get(num, 'never') if j else 'never'
                new = m.get(num, 'never')
                if j == n - 1 or old is new:
                    c.check(r[j] in ('idem', '-') or new == DELETED and r[j].startswith('Deleted'), f'object {num} in revision {j}: {r[j]}')
                elif new == DELETED:
                    c.check(r[j].startswith('Deleted'), f'object {num} is deleted in revision {j}: {r[j]}')
                else:
                    at = s.file.find(b'\n%d ' % num, s.marks[j - 1] - 1 if j else 0, s.marks[j])
                    c.check('idem' not in r[j] and not r[j].startswith('Deleted'), f'object {num} is defined in revision {j}: {r[j]}')
                    if kind.endswith('table') or kind in ('table2', 'gap'):
                        c.same(r[j].split(' ')[-1], str(at + 1), f'position of object {num} in revision {j}')
        heads = rows['startxref_pos'] if not compact else None
        if heads:
            for j in range(n - 1):
                if kind.startswith('linear') and j == 0:
                    c.same([rows[k][0] for k in ('startxref_pos', 'xref_table_pos', 'xref_stream_pos')], ['multiple'] * 3, 'positions of two sections')
                    continue
                at = s.file.find(b'startxref', s.marks[j - 1] if j else 0)
                c.same(heads[j], str(at), 'position of startxref')
                pos = rows['xref_stream_pos'][j] if 'stream' in kind or kind[0] in 'ep' else rows['xref_table_pos'][j]
                c.same(pos, f'{int(s.file[at + 10:s.file.find(b"%%EOF", at)].strip())}', 'position of the section')


def contents(c, n):
    """The contents of a page, one stream after the other."""
    objs = page_objs(1)
    want = []
    for i in range(n):
        binary = i == 2
        x = b'BT (' + c.bytes(f't{i}', 2, [b for b in range(32, 127) if b not in b'()\\']) + b') Tj ET' if not binary else b'BI \x00\x01 EI'
        objs[10 + i] = (0, St({}, x))
        want.append(None if binary else x.decode('ascii'))
    objs[3][1]['/Contents'] = [complex(0, 10 + i) for i in range(n)] if n != 1 or c.flag('array') else 10j
    doc = p.loads(Writer().revision(objs).out)
    out = []
    text = shown(c, lambda: out.append(p.pprint_page_contents(doc, 0)))
    c.same(text, out[0] + '\n', 'what is returned is printed')
    parts = [x for x in text.split('$' * 68 + '\n')]
    c.same(len(parts), n + 1, 'one part for each stream')
    c.same(parts[0].strip(), '', 'nothing before')
    for x, w in zip(parts[1:], want):
        if w is not None:
            c.same(x.rstrip('\n'), w, 'contents')


def methods(c, kind):
    """Methods are the functions of the same name."""
    s = Session(c, kind)
    d = s.doc
    c.same(d.trailer(), p.trailer(d), 'trailer')
    c.same(d.catalog(), p.catalog(d), 'catalog')
    c.same(d.metadata(), p.metadata(d), 'metadata')
    c.same(d.structure(), p.structure(d), 'structure')
    for r in p.in_use(d):
        if type(p.get_object(d, r)).__name__ != 'Stream':
            c.same(d.get_object(r), p.get_object(d, r), 'object')
            c.same(d.obj(int(r.imag)), p.get_object(d, r), 'object by its number')
    c.same(d.page_layouts(), p.page_layouts(d), 'layouts')
    c.same(d.flat_page_tree(), p.flat_page_tree(d), 'page tree')
    c.same(d.pages(), p.pages(d), 'pages')
    k = c.choice('degrees', [90, 180, 270])
    c.same(d.rotate(k, [0]).page_layouts(), p.page_layouts(p.rotate(d, k, [0])), 'rotation')
    c.same(d.rotate().pages()[0]['/Rotate'], 90, 'rotation without arguments')
    c.same([len(x) for x in d], [1] * len(d), 'iteration')
    c.same(len(d + d), 2 * len(d), 'sum')
    for q in d:
        c.same(q.page_layouts(), d.page_layouts(), 'page alone')
        c.same(list(p.pages(q)[0]['/MediaBox']), p.pages(d)[0]['/MediaBox'], 'box of the page alone')


def generations(c, n):
    """Objects of any generations, each left alone, updated or deleted."""
    objs = page_objs(1)
    for i in range(n):
        objs[4 + i] = (c.choice(f'gen{i}', [0, 1, 65534]) if i < 2 else i, [i])
    doc = p.loads(Writer().revision(objs).out)
    want = {}
    for i in range(n):
        op = c.choice(f'op{i}', ['none', 'update', 'delete'])
        if op != 'none':
            want[4 + i] = op[0]
            doc = p.update_object(doc, 4 + i, [99] if op == 'update' else None)
    got = cells(c, shown(c, p.pprint_cache, doc))
    for i in range(1, 4 + n):
        c.check(got[i] in want.get(i, 'x-'), f'object {i}: {got[i]}')
    c.same(repr(doc), f'<PDF Doc in revision 1 with {len(want)} modified object(s)>', 'summary')


OPS = ['update', 'delete', 'add', 'commit']
CASES = [
    ('methods', methods, [dict(kind=k) for k in ('table', 'embedded', 'deep', 'blank')], 'documents of one page'),
    ('contents', contents, [dict(n=1), dict(n=3), dict(n=0)], 'up to three content streams with any two characters'),
    ('table', table, [dict(kind=k) for k in ('table2', 'stream2', 'gap', 'deep', 'manytable', 'embedded', 'deepstream') + FOREIGN], 'up to five revisions and 70 objects'),
    ('hierarchy', hierarchy, {'quick': [dict(shape=s) for s in ('flat', 'deep', 'hole')] + [dict(shape='mixed', indirect=('kids', 'count'))], 'thorough': [dict(shape=s, indirect=i) for s in SHAPES for i in ((), ('kids', 'count'))]}, 'page trees of many shapes'),
    ('back', back, [dict(kind=k) for k in ('table2', 'gap', 'deep', 'manytable', 'linear2', 'hybrid2')], 'files of up to five revisions'),
    ('generations', generations, {'quick': [dict(n=2)], 'thorough': [dict(n=4)]}, 'two objects of any generations (thorough: four)'),
    ('session', session, {'quick': [dict(kind='table2', steps=3, ops=OPS), dict(kind='blank', steps=3, ops=OPS), dict(kind='stream2', steps=2, ops=OPS), dict(kind='embedded', steps=2, ops=['update', 'commit'])]
                          + [dict(kind='deep', steps=4, ops=OPS, first=('update', 'commit', 'add')), dict(kind='deep', steps=2, ops=['delete', 'update'])],
                          'thorough': [dict(kind=k, steps=3, ops=OPS) for k in ('table2', 'blank', 'embedded')] + [dict(kind='manytable', steps=5, ops=OPS, first=('delete', 'commit', 'add stream', 'commit'))]}, 'any two operations (thorough: three), chains of five'),
]
