"""Whatever structural operations are chained, every page keeps its contents, text, attributes and notes."""
import pdfsyntax as p
from props.common import *
from props.pdffile import *

FONT = {'/Type': '/Font', '/Subtype': '/Type1', '/BaseFont': '/Courier', '/Encoding': '/WinAnsiEncoding'}


class Page:
    """What is expected of a page."""

    def __init__(self, text, streams, box, rot, notes=(), form=None):
        self.text, self.streams, self.box, self.rot, self.notes, self.form = text, streams, box, rot, list(notes), form

    def copy(self):
        return Page(self.text, self.streams, self.box, self.rot, self.notes, self.form)


def content(word, y=100):
    return b'BT /F1 10 Tf 10 %d Td (' % y + word.encode('ascii') + b') Tj ET'


def form(objs, at, name, **more):
    """A form with a font and a mask of its own: two objects more."""
    objs[at] = (0, St({'/Type': '/XObject', '/Subtype': '/Form', '/BBox': [0, 0, 9, 9], '/Resources': {'/Font': {'/F1': complex(0, at + 1)}}, '/SMask': complex(0, at + 1)}, b'q Q'))
    objs[at + 1] = (0, {'/Type': '/Font', '/Subtype': '/Type1', '/BaseFont': name})


def first(c, kind, symbolic):
    """Three pages of different make: own, inherited or shared parts. Returns (file, model)."""
    def word(n):
        return c.text(n, 2, LETTERS) if symbolic and n == 'w0' else n.upper()
    w = [word(f'w{i}') for i in range(3)]
    box = [0, 0, c.int('box', 100, 999) if symbolic else 300, 400]
    s = [[content(w[0])], [b'BT /F1 10 Tf', b'10 100 Td (' + w[1].encode('ascii') + b') Tj ET'], [content(w[2])]]
    objs = {1: (0, {'/Type': '/Catalog', '/Pages': 2j}),
            2: (0, {'/Type': '/Pages', '/Kids': [4j, 3j], '/Count': 3, '/MediaBox': box, '/Resources': {'/Font': {'/F1': 8j}, '/XObject': {'/X': 16j}}}),
            3: (0, {'/Type': '/Pages', '/Parent': 2j, '/Kids': [5j, 6j], '/Count': 2, '/Rotate': 90}),
            4: (0, {'/Type': '/Page', '/Parent': 2j, '/Contents': 9j}),
            5: (0, {'/Type': '/Page', '/Parent': 3j, '/Contents': [10j, 11j], '/MediaBox': [0, 0, 50, 60], '/Annots': [14j]}),
            6: (0, {'/Type': '/Page', '/Parent': 3j, '/Contents': 13j, '/Rotate': 0, '/Resources': {'/Font': 15j}}),
            8: (0, FONT),
            9: (0, St({}, s[0][0])), 10: (0, St({}, s[1][0])), 11: (0, St({}, s[1][1])),
            12: (0, St({'/Filter': '/ASCIIHexDecode'}, s[2][0].hex().encode('ascii') + b'>')),
            13: (0, [12j]), 14: (0, {'/Type': '/Annot', '/Subtype': '/Text', '/Contents': b'(old)', '/Rect': [0, 0, 1, 1]}), 15: (0, {'/F1': 8j})}
    form(objs, 16, '/FormOne')
    model = [Page(w[0], s[0], box, None, form='/FormOne'), Page(w[1], s[1], [0, 0, 50, 60], 90, ['old'], '/FormOne'), Page(w[2], s[2], box, 0)]
    if kind == 'table':
        return Writer().revision(objs).out, model
    if kind == 'stream':
        emb = {n: objs.pop(n)[1] for n in (3, 6, 15, 14)}
        return Writer(b'%PDF-1.5\n', kind='stream').revision(objs, embedded=emb, env=20, xnum=21).out, model
    # the last page is replaced in a second revision that also frees the second content
    new = {6: objs[6], 12: objs.pop(12), 5: (0, {**objs[5][1], '/Contents': 10j})}
    objs[6] = (0, {'/Type': '/Page', '/Parent': 3j, '/MediaBox': [0, 0, 1, 1]})
    new[10] = (0, St({}, s[1][0] + b'\n' + s[1][1]))
    model[1].streams = [s[1][0] + b'\n' + s[1][1]]
    wr = Writer(b'%PDF-1.5\n')
    wr.revision(objs)
    return wr.revision(new, freed=[(11, 1)], kind='stream', xnum=22).out, model


def other():
    """One more document."""
    objs = {8: (0, {'/Type': '/Catalog', '/Pages': 3j}), 3: (0, {'/Type': '/Pages', '/Kids': [2j], '/Count': 1, '/Rotate': 180, '/Resources': {'/Font': {'/F1': 1j}, '/XObject': {'/Y': 5j}}}),
            2: (0, {'/Type': '/Page', '/Parent': 3j, '/MediaBox': [0, 0, 70, 80], '/Contents': [4j]}), 1: (0, FONT), 4: (0, St({}, content('new')))}
    form(objs, 5, '/FormTwo')
    return p.loads(Writer(root=8j).revision(objs).out), [Page('new', [content('new')], [0, 0, 70, 80], 180, form='/FormTwo')]


def judge(c, doc, model, label=''):
    c.same(len(doc), len(model), label + 'number of pages')
    got = p.pages(doc)
    for i, m in enumerate(model):
        c.same(p.get_object(doc, got[i]['/MediaBox']), m.box, label + 'box')
        c.same(p.get_object(doc, got[i].get('/Rotate')), m.rot, label + 'rotation')
        c.same([s['stream'] for s in p.get_page_contents(doc, i)], m.streams, label + 'contents')
        c.same(p.extract_page_text(doc, i).strip(), m.text, label + 'text')
        forms = p.get_object(doc, p.get_object(doc, got[i]['/Resources']).get('/XObject')) or {}
        fonts = []
        for r in forms.values():
            x = p.get_object(doc, r)['entries']
            fonts += [p.get_object(doc, x['/Resources']['/Font']['/F1']), p.get_object(doc, x['/SMask'])]
        c.same([x['/BaseFont'] for x in fonts], [m.form] * 2 if m.form else [], label + 'objects of a form')
        notes = p.get_object(doc, got[i].get('/Annots')) or []
        c.same([p.text_string(p.get_object(doc, a)['/Contents']) for a in notes], m.notes, label + 'notes')


def step(c, doc, model, op, n):
    """One operation. Returns (document, model)."""
    model = [m.copy() for m in model]
    last = len(model) - 1
    if op == 'rotate':
        k = c.choice(n + '.page', [0, last])
        doc = p.rotate(doc, 90, [k])
        model[k].rot = ((model[k].rot or 0) + 90) % 360
    elif op == 'squash':
        doc = p.squash(doc)
    elif op == 'compress':
        doc = p.compress(doc)
    elif op == 'group':
        doc = p.group_obj_into_stream(p.force_xref_stream(doc))
    elif op == 'commit':
        doc = p.commit(doc)
    elif op == 'write':
        doc = p.loads(written(c, doc))
    elif op == 'prepend':
        o, m = other()
        doc, model = o + doc, m + model
    elif op == 'append':
        o, m = other()
        doc, model = p.concat(doc, o, c.flag(n + '.target')), model + m
    elif op == 'double':
        doc, model = doc + doc, model + [m.copy() for m in model]
    elif op == 'first':
        doc, model = doc[0], model[:1]
    elif op == 'rest':
        doc, model = doc[1:], model[1:]
    elif op == 'remove':
        k = c.choice(n + '.page', sorted({0, last // 2}))
        doc = p.remove_pages(doc, k)
        del model[k]
    elif op == 'note':
        doc = p.add_text_annotation(doc, last, 'Hi', [0, 0, 5, 5])
        model[last].notes.append('Hi')
    elif op == 'filter':
        doc = p.apply_filter(doc, p.list_streams(doc), '/ASCIIHexDecode')
    elif op == 'unfilter':
        doc = p.apply_filter(doc, [x for x in p.list_streams(doc) if '/Type' not in p.get_object(doc, complex(0, x))['entries']], '')
    elif op == 'undo':
        doc = p.rewind(p.rotate(p.commit(doc), 90)) # takes the last revision up again, with its changes
    return doc, model


def chain(c, kind, lists, symbolic=True):
    """Operations one after the other."""
    data, model = first(c, kind, symbolic)
    doc = p.loads(data)
    done = []
    for i, ops in enumerate(lists):
        op = c.choice(f'op{i}', ops) if len(ops) > 1 else ops[0]
        if len(model) == 1 and op in ('rest', 'remove'):
            continue
        doc, model = step(c, doc, model, op, f'op{i}')
        done.append(op)
    judge(c, doc, model)
    judge(c, p.loads(written(c, doc)), model, 'reloaded ')


OPS = ['rotate', 'squash', 'write', 'append', 'first', 'rest', 'remove', 'note', 'filter', 'unfilter', 'commit']
ALL = OPS + ['compress', 'prepend', 'double', 'group']
CASES = [
    ('chain', chain, {'quick': [dict(kind=k, lists=[OPS]) for k in ('table', 'stream', 'two')]
                      + [dict(kind='table', lists=[OPS, OPS])]
                      + [dict(kind='stream', lists=[['rotate', 'note', 'remove', 'append'], ALL], symbolic=False)]
                      + [dict(kind='two', lists=[ALL, ['compress', 'squash', 'double', 'prepend']], symbolic=False)]
                      + [dict(kind='stream', lists=[['squash', 'compress', 'undo'], ['append', 'double', 'prepend', 'note'], ['undo', 'remove', 'filter'], ['compress', 'squash', 'undo']], symbolic=False)]
                      + [dict(kind='two', lists=[['rotate', 'filter', 'append', 'remove'], ['compress', 'squash', 'note', 'write'], ['double', 'first', 'rest', 'undo'], ['unfilter', 'squash']], symbolic=False)],
                      'thorough': [dict(kind=k, lists=[ALL + ['undo'], ALL + ['undo']], symbolic=False) for k in ('table', 'stream', 'two')]
                      + [dict(kind='two', lists=[ALL[:-1], ['write', 'commit', 'squash', 'undo'], ALL[:-1]], symbolic=False)]
                      + [dict(kind=k, lists=[ALL, ALL, ALL], symbolic=False) for k in ('table', 'stream')]
                      + [dict(kind=k, lists=[OPS, OPS]) for k in ('stream', 'two')]}, 'chains of two operations out of fifteen (thorough: three), of four out of fewer, on documents of three pages'),
]
