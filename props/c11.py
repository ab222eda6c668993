"""A written document reloads as the document that was written."""
import pdfsyntax as p
from props.common import *
from props.pdffile import *
from props.session import *

OPS = ['none', 'update', 'delete', 'add', 'add stream', 'commit']
MORE = ['rotate', 'annotate', 'concat', 'squash', 'compress', 'remove', 'force', 'rewind', 'add', 'commit']


def is_xref(v):
    return type(v) is p.Stream and v['entries'].get('/Type') == '/XRef'


def compare(c, a, b):
    """Two documents hold the same objects; cross-reference streams are rewritten."""
    c.same(len(b.index), len(a.index), 'revisions')
    c.same(p.in_use(b), p.in_use(a), 'objects in use')
    for r in p.in_use(a):
        x, y = p.get_object(a, r), p.get_object(b, r)
        if is_xref(x) or is_xref(y):
            c.check(is_xref(x) and is_xref(y), 'cross-reference stream')
        elif type(x) is p.Stream and type(y) is p.Stream:
            c.same(y['stream'], x['stream'], 'stream data')
            c.same(y['entries'], x['entries'], 'stream dictionary')
        else:
            c.same(y, x, 'value')
    c.same(b.trailer()['/Root'], a.trailer()['/Root'], 'root')
    c.same(b.trailer().get('/Info'), a.trailer().get('/Info'), 'information')
    for i in range(len(a.index) - 1):
        x = [r for r in p.in_use(a, i)]
        c.same([r for r in p.in_use(b, i)], x, 'objects in use in an earlier revision')


def against_model(c, s, doc):
    c.same(len(doc.index), len(s.model), 'one more revision per commit that changed something')
    for n, v in s.model[-1].items():
        if v == DELETED:
            c.check(complex(0, n) not in p.in_use(doc), 'deleted object')
            if any(n in m and m[n] != DELETED for m in s.model[:-1]):
                c.check('DELETED' in doc.index[-1][n], 'still known as deleted')
        elif v is not None:
            x = p.get_object(doc, complex(0, n))
            if type(v) is p.Stream:
                c.same(x['stream'], v['stream'], 'data against the model')
            else:
                c.same(x, v, 'value against the model')


def reload(c, kind, steps, ops=OPS):
    s = Session(c, kind)
    for i in range(steps):
        s.do(ops)
    s.do(['commit'])
    out = written(c, s.doc)
    doc = p.loads(out)
    compare(c, s.doc, doc)
    if ops[:7] == OPS[:7]:
        against_model(c, s, doc)
    c.same(p.changes(doc), [], 'nothing pending')


def chain(c, kind, ops):
    s = Session(c, kind)
    for o in ops:
        s.do([o])
    s.do(['commit'])
    doc = p.loads(written(c, s.doc))
    compare(c, s.doc, doc)
    against_model(c, s, doc)


def values(c, kind, vkind):
    """Values of every kind survive."""
    s = Session(c, kind)
    v = a_scalar(c, 'v', [vkind]) if vkind not in ('dict', 'list') else {'/A': a_scalar(c, 'x', small=True), '/B': [a_scalar(c, 'y', small=True)]} if vkind == 'dict' else [a_scalar(c, 'x', small=True), {}, []]
    doc, r = p.add_object(s.doc, v)
    doc = p.loads(written(c, doc))
    c.same(p.get_object(doc, r), v, 'value')


LONG = [['add', 'commit'] + ['touch', 'commit'] * 4 + ['delete', 'commit'] * 2,
        ['update', 'delete', 'delete', 'add', 'add', 'commit', 'delete', 'delete', 'add', 'commit'],
        ['add', 'commit', 'update', 'commit', 'delete', 'commit', 'add', 'commit', 'update', 'commit'],
        ['add', 'add', 'delete', 'delete', 'commit', 'add', 'reload', 'delete', 'commit', 'update'],
        ['add stream'] * 3 + ['commit'] + ['add'] * 9 + ['update', 'delete', 'commit']]
KINDS = ('blank', 'table', 'table2', 'gap', 'stream', 'stream2', 'embedded', 'mixed')
DEEP = ('deep', 'deepstream', 'manytable', 'manystream')
CASES = [
    ('reload', reload, {'quick': [dict(kind=k, steps=2) for k in KINDS] + [dict(kind=k, steps=2, ops=MORE) for k in ('table', 'embedded')] + [dict(kind=k, steps=2) for k in FOREIGN],
                        'thorough': [dict(kind=k, steps=3) for k in KINDS] + [dict(kind=k, steps=3, ops=MORE) for k in KINDS] + [dict(kind=k, steps=2, ops=MORE) for k in FOREIGN] + [dict(kind=k, steps=3, ops=OPS + ['replace']) for k in ('table', 'embedded')]}, 'every sequence of steps operations'),
    ('chain', chain, {'quick': [dict(kind=k, ops=o) for k in KINDS + DEEP for o in LONG] + [dict(kind=k, ops=o) for i, k in enumerate(FOREIGN) for o in (LONG[i % len(LONG)], LONG[(i + 3) % len(LONG)])], 'thorough': [dict(kind=k, ops=o) for k in KINDS + DEEP + FOREIGN for o in LONG]}, 'longer histories'),
    ('values', values, [dict(kind='table', vkind=k) for k in ('bool', 'null', 'int', 'name', 'lstring', 'hstring', 'dict', 'list')], 'a new object of each kind with symbolic contents'),
]
