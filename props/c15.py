"""Results depend only on the document asked about."""
import pdfsyntax as p
from props.common import *
from props.pdffile import *

QUERIES = {'pages': lambda m, d: m.pages(d), 'pages 1': lambda m, d: m.pages(d, 1),
           'flat_page_tree': lambda m, d: m.flat_page_tree(d), 'page_layouts': lambda m, d: m.page_layouts(d),
           'objects': lambda m, d: [(r, m.get_object(d, r)) for r in m.in_use(d)],
           'text': lambda m, d: m.extract_page_text(d, 0), 'fonts': lambda m, d: m.fonts(d),
           'changes': lambda m, d: m.changes(d), 'metadata': lambda m, d: m.metadata(d),
           'structure': lambda m, d: m.structure(d),
           'dependencies': lambda m, d: sorted(m.dependencies(d, 4j), key=lambda r: r.imag),
           'number': lambda m, d: len(d),
           'squashed': lambda m, d: everything(m, m.squash(d)), 'compressed': lambda m, d: everything(m, m.compress(d)),
           'removed': lambda m, d: everything(m, m.remove_pages(d, 0)), 'doubled': lambda m, d: everything(m, m.concat(d, d)),
           'rotated': lambda m, d: [x[1] for x in m.page_layouts(m.rotate(d))],
           'annotated': lambda m, d: everything(m, m.add_text_annotation(d, 1, 'ab', [0, 0, 1, 1])),
           'stream': lambda m, d: everything(m, m.commit(m.force_xref_stream(m.update_object(d, 4, None)))),
           'joined': lambda m, d: everything(m, m.concat(m.blank(), d)),
           'updated': lambda m, d: everything(m, m.commit(m.update_object(m.add_object(d, 5)[0], 4, None)))}
NAMES = list(QUERIES)


def everything(m, d):
    return [(r, m.get_object(d, r)) for r in m.in_use(d)] + [m.trailer(d), m.changes(d), len(d.index)]


def norm(x):
    """The same value without the classes of a particular import of the package."""
    if type(x).__name__ == 'Stream':
        return ('stream', norm(x['entries']), x['stream'])
    if isinstance(x, dict):
        return {k: norm(x[k]) for k in x}
    if isinstance(x, list):
        return [norm(y) for y in x]
    if isinstance(x, tuple):
        return tuple([norm(y) for y in x])
    return x


def tree_file(c, n, attrs, embedded=False, text=b'AB', box=None, nums=(10, 11)):
    """Two pages below an intermediate node; which nodes have which attributes is arbitrary."""
    res = {'/Font': {'/F1': 8j}}
    root = {'/Type': '/Pages', '/Kids': [3j, 5j], '/Count': 2}
    mid = {'/Type': '/Pages', '/Parent': 2j, '/Kids': [4j], '/Count': 1}
    one = {'/Type': '/Page', '/Parent': 3j, '/Contents': 7j, '/Resources': res}
    two = {'/Type': '/Page', '/Parent': 2j, '/Contents': 7j, '/Resources': res, '/MediaBox': [0, 0, 5, 5]}
    if 'root' in attrs:
        root['/MediaBox'] = [0, 0, box or c.int(n + 'box', 10, 99), 99]
    else:
        one['/MediaBox'] = [0, 0, box or c.int(n + 'box', 10, 99), 99]
    if 'mid' in attrs:
        mid['/Rotate'] = c.int(n + 'rot', 10, 99)
    if 'low' in attrs:
        one['/Rotate'] = c.int(n + 'own', 10, 99)
        two['/CropBox'] = [0, 0, c.int(n + 'crop', 10, 99), 9]
    objs = {1: (0, {'/Type': '/Catalog', '/Pages': 2j}), 2: (0, root), 3: (0, mid), 4: (0, one), 5: (0, two),
            7: (0, St({}, b'BT /F1 12 Tf 1 0 0 1 10 10 Tm (' + text + b') Tj ET\n')),
            8: (0, {'/Type': '/Font', '/Subtype': '/Type1', '/BaseFont': '/Helvetica', '/Encoding': '/WinAnsiEncoding'})}
    for k in (6, 10, 11, 12, 13, 20):
        if not embedded or k not in nums:
            objs[k] = (0, [k, 7j])
    extra = {}
    if 'info' in attrs:
        objs[9] = (0, {'/Title': b'(' + c.bytes(n + 'title', 1, LETTERS) + b')'})
        extra = {'/Info': 9j}
    w = Writer(trailer=extra)
    if embedded:
        emb = {k: objs.pop(k)[1] for k in (3, 4, 5, 8)}
        w.revision(objs, embedded={k: pt(v) for k, v in emb.items()}, env=nums[0], xnum=nums[1], kind='stream')
    else:
        w.revision(objs)
    return w.out


ATTRS = [(), ('root',), ('mid',), ('root', 'mid', 'low', 'info')]


DISTURB = ['nothing', 'ask the other', 'ask everything', 'annotate', 'concat', 'compress', 'rotate', 'other rotates', 'load', 'rebuild', 'blank']


def disturb(c, i, docs):
    """Something done between two questions."""
    a, b = docs
    k = c.choice(f'between{i}', DISTURB if i == 1 else ['ask everything', 'rotate'])
    if k == 'ask the other':
        norm(QUERIES[c.choice(f'q{i}', ['pages', 'text', 'structure'])](p, b))
    elif k == 'ask everything':
        for q in NAMES:
            QUERIES[q](p, b)
    elif k == 'annotate':
        p.commit(p.add_text_annotation(a, 0, 'xy', [0, 0, 1, 1]))
    elif k == 'concat':
        for q in ('pages', 'text', 'objects'):
            QUERIES[q](p, b + a)
    elif k == 'compress':
        p.pages(p.compress(a))
    elif k == 'rotate':
        p.page_layouts(p.rotate(a))
    elif k == 'other rotates':
        p.page_layouts(p.rotate(b))
    elif k == 'rebuild':
        d = p.loads(tree_file(c, f'r{i}', ('mid',), True, box=66, nums=(12, 13)))
        for q in ('squashed', 'compressed', 'removed', 'updated'):
            QUERIES[q](p, d)
    elif k == 'blank':
        d = p.rotate(p.blank('A5'))
        d = p.rotate(p.commit(p.add_text_annotation(d, 0, 'cd', [1, 1, 2, 2])), 180)
        p.page_layouts(p.concat(d, p.blank('US Legal')))
    elif k == 'load':
        p.pages(p.loads(tree_file(c, f'l{i}', ('root', 'mid', 'low'))))


def isolation(c, aa, bb, q, embedded=False):
    """The answers are those of a package that never saw anything else."""
    fa = tree_file(c, 'a', aa, embedded, c.bytes('text', 1, LETTERS) if q == 'objects' else b'AB')
    fb = tree_file(c, 'b', bb, box=88)
    new = c.fresh()
    want = norm(QUERIES[q](new, new.loads(fa)))
    a, b = p.loads(fa), p.loads(fb)
    disturb(c, 1, (a, b))
    c.same(norm(QUERIES[q](p, a)), want, q)
    disturb(c, 2, (a, b))
    c.same(norm(QUERIES[q](p, a)), want, q + ' asked again')


def order(c, aa, seq, n=2):
    """The order of the questions does not matter."""
    fa = tree_file(c, 'a', aa, True, b'AB', box=77)
    new = c.fresh()
    want = {q: norm(QUERIES[q](new, new.loads(fa))) for q in seq}
    a = p.loads(fa)
    for i in range(n):
        q = c.choice(f'q{i}', seq)
        c.same(norm(QUERIES[q](p, a)), want[q], q)


SEQS = (['pages', 'text', 'objects', 'structure'], ['rotated', 'annotated', 'joined', 'stream'], ['flat_page_tree', 'page_layouts', 'fonts', 'metadata'], ['pages 1', 'dependencies', 'changes', 'pages'], ['squashed', 'compressed', 'removed', 'objects'], ['doubled', 'updated', 'pages', 'text'])
CASES = [
    ('order', order, {'quick': [dict(aa=a, seq=s) for a in (ATTRS[0], ATTRS[3]) for s in SEQS], 'thorough': [dict(aa=a, seq=NAMES, n=3) for a in ATTRS] + [dict(aa=a, seq=s, n=4) for a in ATTRS for s in SEQS]}, 'every sequence of two (three or four) of the questions, document with embedded objects'),
    ('isolation', isolation, {'quick': [dict(aa=a, bb=b, q=q) for a, b in (((), ('root', 'mid', 'low', 'info')), (('root', 'mid', 'low', 'info'), ())) for q in ('pages', 'text', 'objects', 'page_layouts', 'metadata', 'fonts', 'squashed', 'removed', 'updated', 'rotated', 'annotated', 'joined', 'stream')],
                              'thorough': [dict(aa=a, bb=b, q=q, embedded=e) for a in ATTRS for b in ATTRS for q in NAMES for e in (False, True)]},
     'the question asked twice, whatever was done before and between; a document with any of the attributes, another with any of them'),
]
