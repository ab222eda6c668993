"""Operations never change the document or the values they are given."""
from copy import deepcopy
import pdfsyntax as p
from props.common import *
from props.pdffile import *
from props.session import *

KINDS = ('blank', 'table', 'table2', 'gap', 'stream', 'stream2', 'embedded', 'mixed')
BEFORE = [[], ['commit'], ['add'], ['add', 'commit'], ['delete'], ['annotate'], ['force'], ['add', 'commit', 'rewind'], ['squash'], ['concat'], ['squash', 'force', 'group'], ['force', 'add', 'group']]
ALL = ['update', 'delete', 'add', 'add stream', 'rotate', 'remove', 'annotate', 'concat', 'concat before', 'squash', 'compress', 'force', 'commit', 'rewind', 'write', 'keep', 'group', 'filter', 'version', 'slice', 'plus']


def snapshot(doc):
    """All that can be asked about a document."""
    return deepcopy({'revisions': len(doc.index),
            'trailer': p.trailer(doc),
            'in use': [(r, p.get_object(doc, r)) for r in p.in_use(doc)],
            'in use before': [p.in_use(doc, i) for i in range(len(doc.index))],
            'changes': p.changes(doc),
            'pages': p.flat_page_tree(doc),
            'version': p.version(doc),
            'number': len(doc)})


def apply_one(c, s, op):
    """One operation on the document of a session, which is left in place; returns the new document."""
    doc = s.doc
    if op == 'write':
        written(c, doc)
        return doc
    if op == 'keep':
        return p.keep_pages(doc, {0})
    if op == 'slice':
        return doc[0:1]
    if op == 'plus':
        return doc + s.other()
    if op == 'group':
        return p.group_obj_into_stream(doc) if p.changes(doc) else doc
    if op == 'filter':
        return p.apply_filter(doc, p.list_streams(doc), c.choice('flt', ['/FlateDecode', '/ASCIIHexDecode', '']))
    if op == 'version':
        return p.update_version(doc, '1.' + c.text('ver', 1, b'0123456789'))
    s.do([op])
    return s.doc


def original(c, kind, before, ops=ALL, warm=True, again=False):
    """One operation, then a modification and a commit of its result; the first document has not changed."""
    s = Session(c, kind)
    for o in before:
        if o == 'group':
            s.doc = p.group_obj_into_stream(s.doc)
        else:
            s.do([o])
    keep = s.doc
    ref = keep
    if not warm: #what is asked of another instance does not fill the cache of this one
        ref = p.loads(s.file)
    shot = snapshot(ref)
    file = written(c, ref)
    other = snapshot(s.other()) if 'concat' in ops or 'plus' in ops else None
    op = c.choice('op', [o for o in ops if not (o in ('update', 'delete') and not s.subjects())])
    new = apply_one(c, s, op)
    new, r = p.add_object(new, {'/New': 1})
    new = p.update_object(new, int(r.imag), {'/New': 2})
    if again:
        new = p.update_object(new, 3, {'/Type': '/Page', '/Other': 1})
        new = p.commit(new)
        written(c, new)
        new = p.rewind(new)
    else:
        new = p.commit(new)
    c.same(snapshot(keep), shot, 'the document given')
    c.same(written(c, keep), file, 'what writing the document given yields')
    if other is not None:
        c.same(snapshot(s.second), other, 'the second document')


def mutate(x):
    """Change everything that can be changed in a value."""
    if type(x) is p.Stream:
        mutate(x['entries'])
        x['entries']['/Changed'] = 1
    elif isinstance(x, dict):
        for k in list(x):
            mutate(x[k])
            if not isinstance(x[k], (dict, list)):
                x[k] = 'changed'
        x['/Changed'] = 1
    elif isinstance(x, (list, tuple)):
        for y in x:
            mutate(y)
        if isinstance(x, list):
            x.append('changed')


QUERIES = {'objects': lambda doc: [p.get_object(doc, r) for r in p.in_use(doc)],
           'direct': lambda doc: [p.obj(doc, int(r.imag)) for r in p.in_use(doc)],
           'trailer': p.trailer, 'pages': p.pages, 'flat_page_tree': p.flat_page_tree,
           'catalog': p.catalog, 'changes': p.changes, 'in_use': p.in_use, 'page_layouts': p.page_layouts,
           'info': p.info, 'envelopes': p.envelopes}


def obtained(c, kind, before, q):
    """Modifying a value obtained from a document does not modify the document."""
    s = Session(c, kind)
    s.doc, r = p.add_object(s.doc, {'/A': [small(c, 'n1')[0], {'/B': small(c, 'n2')[0]}], '/C': c.bytes('n3', 2)})
    s.doc, _ = p.add_object(s.doc, p.forge_stream({'/Length': 2, '/D': [[c.int('n4', 0, 99)]]}, c.bytes('n5', 2))[0])
    s.doc, _ = p.add_object(s.doc, [{'/A': [c.int('n7', 0, 99)]}, [[1, {}], b'(s)'], 5j])
    page = p.get_object(s.doc, 3j)
    page['/MediaBox'] = [0, 0, c.int('n6', 1, 99), 9]
    page['/Resources'] = {'/X': [1]}
    s.doc = p.update_object(s.doc, 3, page)
    for o in before:
        s.do([o])
    shot = snapshot(s.doc)
    mutate(QUERIES[q](s.doc))
    c.same(snapshot(s.doc), shot, 'the document')
    c.same(snapshot(s.doc), shot, 'asked again')


def given(c, ops):
    """Values given to a document are not changed by anything that is done later."""
    doc = p.loads(source(c, 'table')[0])
    v = {'/A': [small(c, 'v1')[0], {'/B': 4j}], '/C': b'(' + c.bytes('v2', 1, PLAIN) + b')', '/D': {'/E': [5j, c.int('v4', 0, 99)]}}
    st, _ = p.forge_stream({'/Length': 2, '/F': [4j]}, c.bytes('v3', 2))
    vc, sc = deepcopy(v), deepcopy(st)
    doc, r = p.add_object(doc, v)
    doc, _ = p.add_object(doc, st)
    if c.flag('closed'):
        doc = p.commit(doc)
    op = c.choice('op', ops)
    if op == 'compress':
        doc = p.compress(doc)
    elif op == 'squash':
        doc = p.squash(doc)
    elif op == 'concat':
        doc = p.concat(doc, p.loads(source(c, 'embedded')[0]))
    elif op == 'concat right':
        doc = p.concat(p.loads(source(c, 'embedded')[0]), doc, False)
    elif op == 'filter':
        doc = p.apply_filter(doc, p.list_streams(doc))
    elif op == 'group':
        doc = p.commit(p.force_xref_stream(p.group_obj_into_stream(doc, None, {4, int(r.imag)})))
    elif op == 'get and change':
        x = p.get_object(doc, r)
        mutate(x)
        doc = p.update_object(doc, int(r.imag), x)
    elif op == 'rewind':
        doc = p.rewind(doc)
    doc = p.commit(doc)
    written(c, doc)
    c.same(v, vc, 'value given')
    c.same(st, sc, 'stream given')


def arguments(c, which):
    """Arguments that are not documents are left as they were."""
    doc = p.loads(source(c, 'table')[0])
    if which == 'rect':
        a = [c.int('r1', 0, 99), 0, 9, 9]
        b = list(a)
        new = p.add_text_annotation(doc, 0, c.text('t', 2, LETTERS), a)
        x = p.get_object(new, 6j)['/Rect']
        x.append(1)
    elif which == 'pages':
        a = {0}
        b = {0}
        p.remove_pages(doc, a)
        p.keep_pages(doc, a)
    elif which == 'rotate':
        a = [0]
        b = [0]
        p.rotate(doc, 90, a)
    elif which == 'entries':
        a = {'/Length': 2, '/Filter': ['/ASCIIHexDecode'], '/X': [1]}
        b = deepcopy(a)
        s, _ = p.forge_stream(a, c.bytes('d', 2))
        doc, r = p.add_object(doc, s)
        doc = p.apply_filter(doc, [int(r.imag)])
        b['/Length'] = a['/Length']
    c.same(a, b, which)


CASES = [
    ('arguments', arguments, [dict(which=w) for w in ('rect', 'pages', 'rotate', 'entries')], ''),
    ('obtained', obtained, [dict(kind=k, before=b, q=q) for k in ('table', 'embedded', 'blank') for b in ([], ['commit']) for q in QUERIES], 'every value obtained through every query, modified in every place'),
    ('given', given, [dict(ops=[o]) for o in ('none', 'compress', 'squash', 'concat', 'concat right', 'filter', 'group', 'get and change', 'rewind')], 'every later operation'),
    ('cold', original, {'quick': [dict(kind=k, before=[], warm=False) for k in KINDS + ('deep', 'deepstream', 'manystream') + FOREIGN if k != 'blank']}, 'nothing was asked of the document before the operation'),
    ('original', original, {'quick': [dict(kind=k, before=b, again=True) for k in ('table', 'embedded') for b in BEFORE] + [dict(kind=k, before=['add']) for k in KINDS + ('deep', 'deepstream', 'manytable') + FOREIGN],
                            'thorough': [dict(kind=k, before=b, again=a) for k in KINDS for b in BEFORE for a in (False, True)]}, 'every operation after each of the listed histories'),
]
