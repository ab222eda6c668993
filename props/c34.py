"""Annotating a page adds exactly that annotation."""
import pdfsyntax as p
from props.common import *
from props.pdffile import *
from props.trees import *

ARRAYS = ['none', 'null', 'empty', 'direct', 'inline', 'mixed', 'indirect', 'indirect empty', 'deleted', 'embedded']
LONG = {'many': 12, 'many indirect': 30}
OLD = {'/Type': '/Annot', '/Subtype': '/Link', '/Rect': [0, 0, 5, 5], '/P': 10j}


def add_array(objs, emb, num, kind, page, base):
    """Gives a page an array of annotations of this kind; base: the first of its object numbers."""
    link = dict(OLD)
    link['/P'] = complex(0, num)
    if kind == 'null':
        page['/Annots'] = 'null'
    elif kind == 'empty':
        page['/Annots'] = []
    elif kind == 'direct':
        page['/Annots'] = [complex(0, base), complex(0, base + 1)]
        objs[base] = (0, link)
        objs[base + 1] = (0, dict(link))
    elif kind == 'inline':
        page['/Annots'] = [link]
    elif kind == 'mixed':
        page['/Annots'] = [complex(0, base), link]
        objs[base] = (0, dict(link))
    elif kind in LONG:
        arr = []
        for i in range(LONG[kind]):
            if i % 3 == 2:
                arr.append({**link, '/Rect': [0, 0, i, i]})
            else:
                objs[700 + i] = (0, {**link, '/Rect': [i, 0, 5, 5]})
                arr.append(complex(0, 700 + i))
        if 'indirect' in kind:
            objs[base + 2] = (0, arr)
            page['/Annots'] = complex(0, base + 2)
        else:
            page['/Annots'] = arr
    elif kind in ('indirect', 'embedded'):
        page['/Annots'] = complex(0, base + 2)
        objs[base] = (0, link)
        arr = [complex(0, base), dict(link)]
        if kind == 'embedded':
            emb[base + 2] = pt(arr)
        else:
            objs[base + 2] = (0, arr)
    elif kind == 'indirect empty':
        page['/Annots'] = complex(0, base + 2)
        objs[base + 2] = (0, [])
    elif kind == 'deleted':
        page['/Annots'] = complex(0, base + 2)


def annots(doc, i):
    page = p.pages(doc)[i]
    a = page.get('/Annots', [])
    a = p.get_object(doc, a) if type(a) is complex else a
    return list(a) if type(a) is list else []


def state(doc):
    """Value of each object in use but containers."""
    res = {}
    for r in p.in_use(doc):
        x = p.get_object(doc, r)
        if type(x) is p.Stream:
            if x['entries'].get('/Type') in ('/XRef', '/ObjStm'):
                continue
            x = ('stream', {k: v for k, v in x['entries'].items()}, x['stream'])
        res[int(r.imag)] = x
    return res


def compare(c, before, doc, expected, label):
    """expected: for each page the annotations it had and the (text, rect, opened) that were added."""
    st = state(doc)
    used = []
    for i, (num, old, added) in enumerate(expected):
        got = annots(doc, i)
        c.same(len(got), len(old) + len(added), f'{label}: number of annotations of page {i}')
        c.same(got[:len(old)], old, f'{label}: annotations already there on page {i}')
        for x, (text, rect, opened) in zip(got[len(old):], added):
            c.check(type(x) is complex, label + ': reference to the annotation')
            n = int(x.imag)
            c.check(n not in before, label + ': the annotation is a new object')
            c.check(n not in used, label + ': each annotation is another object')
            used.append(n)
            a = st[n]
            c.same(a['/Subtype'], '/Text', label + ': kind of annotation')
            c.same(a.get('/Type', '/Annot'), '/Annot', label + ': type')
            got_rect = a['/Rect']
            c.same(len(got_rect), 4, label + ': rectangle')
            for u, v in zip(got_rect, rect):
                c.close(u, v, label + ': rectangle')
            c.same(a.get('/Open', False), opened, label + ': open')
            c.same(p.text_string(a['/Contents']), text, label + ': contents')
        if added:
            array = p.get_object(doc, complex(0, num))['/Annots']
            if type(array) is complex:
                used.append(int(array.imag))
            used.append(num)
            was, now = dict(before[num]), dict(st[num])
            was.pop('/Annots', None)
            now.pop('/Annots', None)
            c.same(now, was, label + ': rest of the page')
    for n, v in before.items():
        if n not in used:
            c.check(n in st, label + ': object lost')
            c.same(st[n], v, label + ': other object')
    for n in st:
        c.check(n in before or n in used, label + f': object {n} added')


def a_rect(c, n):
    kind = c.choice(n + '.kind', ['ints', 'reals'])
    if kind == 'ints':
        return [c.int(f'{n}{i}', -9, 99) if i < 2 else 90 for i in range(4)]
    return [0.5, c.int(n + '0', -999, 999) / 100, 10, 20.25]


def a_text(c, n, length, wide=False):
    if not wide:
        return c.text(n, length)
    res = ''
    for i in range(length):
        x = c.text(f'{n}{i}', 1, None, 0, 0xffff)
        c.assume(not 0xd800 <= ord(x) <= 0xdfff)
        res = res + x
    return res


class File:
    def __init__(self, c, kinds, kind='table', shape=None):
        shape = shape or ['p'] * len(kinds)
        self.tree = Tree(shape, lambda path, a, page: a == '/MediaBox', lambda path, a: [0, 0, 99, 99])
        emb = {}
        extra = {}
        for i, (num, _) in enumerate(self.tree.pages):
            add_array(extra, emb, num, kinds[i], self.tree.objs[num][1], (40 if len(kinds) < 6 else 400) + 10 * i)
        objs = {1: (0, {'/Type': '/Catalog', '/Pages': 2j})}
        objs.update(self.tree.objs)
        objs.update(extra)
        w = Writer(kind=kind)
        if kind == 'stream':
            emb.update({k: pt(v[1]) for k, v in objs.items() if not isinstance(v[1], St) and k > 1})
            objs = {k: v for k, v in objs.items() if k not in emb}
        if emb:
            w.revision(objs, embedded=emb, env=90, xnum=91, kind='stream')
        else:
            w.revision(objs)
        self.data = w.out


def annotate(c, kinds, adds, kind='table', lens=(3,), wide=False, shape=None, rects=False):
    """Annotations added one after the other to any pages."""
    f = File(c, kinds, kind, shape)
    doc = p.loads(f.data)
    before = state(doc)
    exp = []
    for i, (num, _) in enumerate(f.tree.pages):
        exp.append((num, annots(doc, i), []))
    for k in range(adds):
        i = c.choice(f'page{k}', list(range(len(kinds))))
        text = a_text(c, f't{k}', c.choice(f'len{k}', list(lens)), wide) if lens else c.text(f't{k}', 2, LETTERS)
        rect = a_rect(c, f'r{k}') if rects else [0, 1, 2, c.int(f'r{k}', 10, 99)]
        opened = c.flag(f'open{k}') if rects else None
        if opened is None:
            doc = p.add_text_annotation(doc, i, text, rect)
        else:
            doc = p.add_text_annotation(doc, i, text, rect, opened)
        exp[i][2].append((text, rect, bool(opened)))
        compare(c, before, doc, exp, f'annotation {k}')
    again = p.loads(written(c, doc))
    compare(c, before, again, exp, 'reloaded')


def committed(c, array, kind='table'):
    """Annotations spread over several revisions."""
    f = File(c, [array, 'none'], kind)
    doc = p.loads(f.data)
    before = state(doc)
    exp = [(num, annots(doc, i), []) for i, (num, _) in enumerate(f.tree.pages)]
    for k in range(3):
        i = c.choice(f'page{k}', [0, 1])
        text = c.text(f't{k}', 1, LETTERS)
        doc = p.add_text_annotation(doc, i, text, [0, 0, 1, 1])
        exp[i][2].append((text, [0, 0, 1, 1], False))
        how = c.choice(f'then{k}', ['nothing', 'commit', 'reload'])
        if how == 'commit':
            doc = p.commit(doc)
        elif how == 'reload':
            doc = p.loads(written(c, doc))
        compare(c, before, doc, exp, f'after {how}')


def repeated(c, kind, n, shape, length):
    """Many annotations, of long texts, on many pages."""
    pages = len(Tree(SHAPES[shape], lambda *a: False, None).pages)
    f = File(c, [kind] + ['none', 'direct', 'indirect'][:max(pages - 1, 0)] + ['none'] * (pages - 4), shape=SHAPES[shape])
    doc = p.loads(f.data)
    before = state(doc)
    exp = [(num, annots(doc, i), []) for i, (num, _) in enumerate(f.tree.pages)]
    k = c.choice('page', list(range(0, pages, 4)))
    for i in range(n):
        text = ('\u20ac' if i % 3 == 2 else '') + 'A (long) \\ text ' * length + (c.text(f't{i}', 1) if i == n - 2 else ')(\\'[i % 3])
        rect = [i, 0.5 * i, 100 + i, c.int(f'r{i}', 10, 99) if i == n - 1 else 7]
        page = (k + i * (i % 3)) % pages
        doc = p.add_text_annotation(doc, page, text, rect, i % 2 == 1)
        exp[page][2].append((text, rect, i % 2 == 1))
        if i % 4 == 3:
            doc = p.commit(doc)
    compare(c, before, doc, exp, 'all')
    compare(c, before, p.loads(written(c, doc)), exp, 'reloaded')


CASES = [
    ('repeated', repeated, [dict(kind=k, n=9, shape=s, length=l) for k, s, l in (('many', 'one', 0), ('many indirect', 'one', 1), ('direct', 'large', 1), ('none', 'mixed', 20))], 'nine annotations on up to 23 pages that may have 30 annotations, texts of up to 300 characters of which one is symbolic'),
    ('annotate', annotate,
     {'quick': [dict(kinds=[k, 'none'], adds=2, lens=()) for k in ARRAYS] + [dict(kinds=['none', k], adds=1, kind='stream', lens=()) for k in ['none', 'direct', 'indirect', 'mixed']]
      + [dict(kinds=['direct', 'indirect', 'none'], adds=2, lens=())]
      + [dict(kinds=['direct', 'indirect', 'none', 'empty', 'mixed'], adds=1, lens=(), shape=SHAPES['mixed'])]
      + [dict(kinds=['indirect'], adds=1, lens=(), rects=True)]
      + [dict(kinds=['none'], adds=1, lens=(0, 1, 2)), dict(kinds=['direct'], adds=1, lens=(0, 1), wide=True)],
      'thorough': [dict(kinds=[k, l], adds=2, lens=()) for k in ARRAYS for l in ARRAYS if l != 'embedded'] + [dict(kinds=['none', k], adds=2, kind='stream', lens=()) for k in ARRAYS]
      + [dict(kinds=['direct', 'indirect', 'none'], adds=3, lens=())]
      + [dict(kinds=['direct', 'indirect', 'none', 'empty', 'mixed'], adds=2, lens=(), shape=SHAPES['mixed'])]
      + [dict(kinds=[k], adds=1, lens=(), rects=True) for k in ARRAYS]
      + [dict(kinds=['none'], adds=1, lens=(3,)), dict(kinds=['direct'], adds=1, lens=(2,), wide=True)]},
     'ASCII texts of 0–3 characters, BMP texts of 0–2 characters, integral and decimal rectangles, 1–3 additions on 1–5 pages'),
    ('committed', committed,
     {'quick': [dict(array=a) for a in ['none', 'direct', 'indirect']],
      'thorough': [dict(array=a, kind=k) for a in ARRAYS for k in ('table', 'stream')]},
     'three additions, each followed by nothing, a commit or a reload'),
]
