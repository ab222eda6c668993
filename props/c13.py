"""Rewinding returns to the previous revision."""
from copy import deepcopy
import pdfsyntax as p
import pdfsyntax.docstruct as ds
from props.common import *
from props.pdffile import *
from props.session import *

OPS = ['update', 'delete', 'add', 'commit', 'rewind']


def container(doc, r, model):
    """Cross-reference streams are allocated by the library."""
    if int(r.imag) in model[-1]:
        return False
    x = p.get_object(doc, r)
    return x is None or type(x) is p.Stream and x['entries'].get('/Type') == '/XRef'


def state_is(c, doc, model, label):
    c.same(len(doc.index), len(model), label + ': revision count')
    live = sorted([n for n, v in model[-1].items() if v != DELETED])
    c.same([int(r.imag) for r in p.in_use(doc) if not container(doc, r, model)], live, label + ': objects in use')
    for n, v in model[-1].items():
        if v == DELETED:
            if n < len(doc.index[-1]):
                c.same(p.get_object(doc, complex(0, n)), None, label + ': deleted object')
        elif v is not None:
            x = p.get_object(doc, complex(0, n))
            if type(v) is p.Stream:
                c.same(x['stream'], v['stream'], label + ': data')
            else:
                c.same(x, v, label + ': value')


def diff(model):
    """Pending changes of a model."""
    a = model[-2] if len(model) > 1 else {}
    b = model[-1]
    res = []
    for n in sorted(b):
        was = n in a and a[n] != DELETED
        now = b[n] != DELETED
        if b[n] is None or n in a and a[n] is b[n]:
            continue
        if now:
            res.append((n, 'u' if n in a else 'a'))
        elif was:
            res.append((n, 'd'))
    return res


def rewinds(c, kind, steps, ops=OPS):
    """Operations, then rewinds down to the first revision."""
    s = Session(c, kind)
    for i in range(steps):
        s.do(['none'] + ops)
    while True:
        n = len(s.model)
        s.do(['rewind'])
        state_is(c, s.doc, s.model, 'rewound')
        if n == 1:
            break


def redo(c, kind, before):
    """What is modified after a commit disappears, including the commit itself; the document then goes on normally."""
    s = Session(c, kind)
    for o in before:
        s.do([o])
    pend = p.changes(s.doc)
    use = p.in_use(s.doc)
    v0 = [(r, deepcopy(p.get_object(s.doc, r))) for r in use if s.model[-1].get(int(r.imag), 0) is not None or int(r.imag) == 7]
    m0 = [dict(m) for m in s.model]
    s.do(['commit'])
    closed = len(s.model) > len(m0)
    s.do(['none', 'update', 'delete'])
    s.do(['none', 'delete', 'add'])
    if not closed:
        return
    s.doc = p.rewind(s.doc)
    c.same([(r, a) for r, a in p.changes(s.doc)], pend, 'pending changes')
    c.same([(r, p.get_object(s.doc, r)) for r, _ in v0], v0, 'values')
    c.same(p.in_use(s.doc), use, 'objects in use')
    s.model = m0
    s.do(['update', 'add'])
    state_is(c, p.loads(written(c, s.doc)), [m for m in s.model] + ([dict(s.model[-1])] if p.changes(s.doc) else []), 'written')


def to_file(c, kind, n, then):
    """Writing after n rewinds gives a file equivalent to that revision."""
    s = Session(c, kind)
    for i in range(n):
        s.do(['rewind'])
    for o in then:
        s.do([o])
    doc = p.loads(written(c, s.doc))
    pend = p.changes(s.doc) != []
    c.same(len(doc.index), len(s.doc.index) + (1 if pend else 0), 'revisions')
    live = {n: v for n, v in s.model[-1].items()}
    for n, v in live.items():
        if v == DELETED:
            c.check(complex(0, n) not in p.in_use(doc), 'deleted object')
        elif v is not None:
            c.same(p.get_object(doc, complex(0, n)), v, 'value')
    for r in p.in_use(doc):
        x = p.get_object(doc, r)
        c.check(int(r.imag) in live or type(x) is p.Stream and x['entries'].get('/Type') == '/XRef', 'no object of a later revision')
    c.same(p.get_object(doc, doc.trailer()['/Root'])['/Pages'], 2j, 'root')
    c.same(len(p.pages(doc)), 1, 'pages')


def chain(c, kind, ops):
    s = Session(c, kind)
    for o in ops:
        s.do([o])
    state_is(c, s.doc, s.model, 'chain')
    c.same([(int(r.imag), a) for r, a in p.changes(s.doc) if s.model[-1].get(int(r.imag), 0) is not None], diff(s.model), 'pending changes')


def as_file(c, kind, n):
    """After n rewinds a loaded document is the one that the file was before these revisions."""
    s = Session(c, kind)
    doc = s.doc
    for i in range(n + 1):
        doc = p.rewind(doc)
    part = s.file[:s.marks[len(s.marks) - 1 - n]]
    ref = p.loads(part)
    c.same(len(doc.index), len(ref.index) - 1, 'revisions')
    c.same([r for r in p.in_use(doc) if not container(doc, r, s.model)], [r for r in p.in_use(ref) if not container(ref, r, s.model)], 'objects in use')
    for r in p.in_use(ref):
        if not container(ref, r, s.model) and s.model[-1].get(int(r.imag), 0) is not None:
            c.same(p.get_object(doc, r), p.get_object(ref, r), 'value')
    c.same(p.pages(doc), p.pages(ref), 'pages')
    v = small(c, 'new')[0]
    (a, ra), (b, rb) = p.add_object(doc, v), p.add_object(ref, v)
    c.same(ra, rb, 'number of the next object')
    m = s.model[-2 - n]
    k = c.choice('then', [n for n in m if n > 3 and m[n] not in (None, DELETED)][:3])
    act = c.choice('act', ['update', 'delete'])
    w = [5] if act == 'update' else None
    a, b = p.update_object(a, k, w), p.update_object(b, k, w)
    a, b = p.loads(written(c, a)), p.loads(written(c, b))
    use = [r for r in p.in_use(b) if not container(b, r, [{}])]
    c.same([r for r in p.in_use(a) if not container(a, r, [{}])], use, 'objects in use after changes')
    for r in use:
        c.same(p.get_object(a, r), p.get_object(b, r), 'value after changes')


LONG = [['add', 'commit', 'update', 'commit', 'delete', 'commit', 'rewind', 'rewind', 'add', 'commit', 'rewind', 'rewind'],
        ['add', 'add', 'commit', 'delete', 'add', 'commit', 'add', 'rewind', 'delete', 'commit', 'update', 'rewind'],
        ['update', 'commit', 'update', 'rewind', 'update', 'commit', 'update', 'rewind'],
        ['commit', 'rewind', 'commit', 'rewind', 'rewind', 'rewind'],
        ['add', 'commit'] * 5 + ['rewind'] * 4]
KINDS = ('blank', 'table', 'table2', 'gap', 'stream', 'stream2', 'embedded', 'mixed')
DEEP = ('deep', 'deepstream', 'manytable', 'manystream')
CASES = [
    ('as_file', as_file, [dict(kind=k, n=n) for k in KINDS[1:] + DEEP + FOREIGN for n in range(4 if k in DEEP[:2] else 2 if k in DEEP else 2 if k in ('table2', 'stream2', 'mixed') or k[-1] == '2' else 1)], 'every number of rewinds down to the second revision of documents of up to five revisions'),
    ('chain', chain, {'quick': [dict(kind=k, ops=o) for k in KINDS + DEEP for o in LONG] + [dict(kind=k, ops=o) for i, k in enumerate(FOREIGN) for o in (LONG[i % len(LONG)], LONG[(i + 3) % len(LONG)])], 'thorough': [dict(kind=k, ops=o) for k in KINDS + DEEP + FOREIGN for o in LONG]}, 'longer histories'),
    ('to_file', to_file, {'quick': [dict(kind=k, n=n, then=t) for k in KINDS + DEEP for n in (1, 2) for t in ([], ['commit'], ['update', 'commit', 'add'])] + [dict(kind=k, n=n, then=['update', 'commit', 'add']) for k in FOREIGN for n in (1, 2)], 'thorough': [dict(kind=k, n=n, then=t) for k in KINDS + DEEP + FOREIGN for n in (1, 2) for t in ([], ['commit'], ['update', 'commit', 'add'])]}, 'n rewinds of a loaded document, then further changes, then written and reloaded'),
    ('redo', redo, [dict(kind=k, before=b) for k in ('table', 'embedded', 'stream2') for b in (['update'], ['add', 'delete'], ['add'])] + [dict(kind='blank', before=['add', 'add'])], 'two modifications after a commit are undone'),
    ('rewinds', rewinds, {'quick': [dict(kind=k, steps=2) for k in KINDS + FOREIGN], 'thorough': [dict(kind=k, steps=3) for k in KINDS + FOREIGN] + [dict(kind=k, steps=4) for k in ('table', 'stream2')]}, 'every sequence of steps operations, then rewinds to the beginning'),
]
