"""The page list follows the page tree with inherited attributes."""
import pdfsyntax as p
from props.common import *
from props.pdffile import *
from props.trees import *


def judge(c, doc, tree, label=''):
    n = len(tree.pages)
    flat = p.flat_page_tree(doc)
    c.same([r for r, a in flat], [complex(0, k) for k, a in tree.pages], label + 'leaf pages in tree order')
    got = p.pages(doc)
    c.same(len(got), n, label + 'pages')
    for i, (num, attrs) in enumerate(tree.pages):
        own = tree.objs[num][1]
        for a in INHERITABLE:
            if a in attrs:
                c.check(a in got[i], label + 'attribute present')
                c.same(got[i].get(a), attrs[a], label + 'attribute value')
            else:
                c.check(a not in got[i], label + 'absent attribute')
        for k in own:
            c.same(got[i].get(k), own[k], label + 'own entry')
        c.check(all([k in own or k in INHERITABLE for k in got[i]]), label + 'no other entry')
    c.same(p.page_layouts(doc), [(a.get('/MediaBox'), a.get('/Rotate')) for k, a in tree.pages], label + 'layouts')


def inherit(c, shape, attrs, kind='table', indirect=()):
    """Any placement of the listed attributes, any values."""
    tree = Tree(SHAPES[shape], some_places(c, attrs), some_values(c), indirect=indirect)
    judge(c, p.loads(tree.file(kind)), tree)


def single(c, shape, attrs):
    """Each attribute is on exactly one node, any node."""
    paths = [()]
    def walk(s, path):
        for i, x in enumerate(s):
            paths.append(path + (i,))
            if x != 'p':
                walk(x, path + (i,))
    walk(SHAPES[shape], ())
    where = {a: c.choice('on ' + a, paths) for a in attrs}
    tree = Tree(SHAPES[shape], lambda path, a, page: where.get(a) == path or a not in where and a == '/MediaBox' and page, some_values(c))
    judge(c, p.loads(tree.file()), tree)


def large(c, shape, kind='table'):
    """Trees of many pages or of many levels; each attribute is on one node and hidden by another."""
    paths = [()]
    def walk(s, path):
        for i, x in enumerate(s):
            paths.append(path + (i,))
            if x != 'p':
                walk(x, path + (i,))
    walk(SHAPES[shape], ())
    k = c.choice('on', list(range(0, len(paths), 3)))
    where = {a: {paths[(k + 11 * i) % len(paths)], paths[(k + 11 * i) // 2 % len(paths)]} for i, a in enumerate(INHERITABLE)}
    tree = Tree(SHAPES[shape], lambda path, a, page: path in where[a], some_values(c))
    doc = p.loads(tree.file(kind))
    judge(c, doc, tree)
    n = k * 7 % (len(tree.pages) + 2)
    c.same(p.pages(doc, n), p.pages(doc)[:n], 'first pages')
    c.same([r for r, a in p.flat_page_tree(doc, max_nb=n)], [complex(0, k) for k, a in tree.pages[:n]], 'first leaves')


def first_pages(c, shape, kind='table', attrs=('/Rotate',)):
    """At most n pages are the first n."""
    where = c.choice('on', [(), (0,), (1,), (0, 0)])
    tree = Tree(SHAPES[shape], lambda path, a, page: a in attrs and path == where, some_values(c))
    doc = p.loads(tree.file(kind))
    total = len(tree.pages)
    n = c.choice('n', list(range(total + 3)))
    full = p.pages(doc)
    c.same(p.pages(doc, n), full[:n], 'first pages')
    c.same(p.pages(doc, max_nb=n), full[:n], 'first pages by keyword')
    c.same([r for r, a in p.flat_page_tree(doc, max_nb=n)], [complex(0, k) for k, a in tree.pages[:n]], 'first leaves')
    c.same(p.page_layouts(doc, n), p.page_layouts(doc)[:n], 'first layouts')
    c.same(len(full), total, 'all pages')


def null_attrs(c, shape):
    """Values such as 0 or empty are values; changed trees are followed."""
    zero = lambda path, a: {'/Rotate': 0, '/Resources': {}, '/MediaBox': [], '/CropBox': [0, 0, 0, 0]}[a]
    own = some_places(c, ['/Rotate', '/Resources'])
    val = some_values(c)
    tree = Tree(SHAPES[shape], lambda path, a, page: (len(path) != 1 and a in ('/Rotate', '/Resources')) if not page else own(path, a, page), lambda path, a: zero(path, a) if len(path) > 0 else val(path, a))
    judge(c, p.loads(tree.file()), tree)


def edited(c, shape, attrs):
    """The list follows a tree changed in memory."""
    tree = Tree(SHAPES[shape], some_places(c, attrs), some_values(c))
    doc = p.loads(tree.file())
    p.pages(doc)
    i = c.choice('page', list(range(len(tree.pages))))
    num, attrs = tree.pages[i]
    own = dict(tree.objs[num][1])
    own['/Rotate'] = c.int('new', 100, 999)
    doc = p.update_object(doc, num, own)
    tree.objs[num] = (0, own)
    tree.pages[i] = (num, {**attrs, '/Rotate': own['/Rotate']})
    root = dict(tree.objs[2][1])
    root['/Kids'] = root['/Kids'][::-1]
    doc = p.update_object(doc, 2, root)
    tree.objs[2] = (0, root)
    kids = []
    for k in root['/Kids']:
        for n, a in tree.pages:
            q = n
            while q is not None and q != int(k.imag):
                q = tree.objs[q][1].get('/Parent')
                q = int(q.imag) if q is not None else None
            if q is not None:
                kids.append((n, a))
    tree.pages = kids
    judge(c, doc, tree)


CASES = [
    ('inherit', inherit, {'quick': [dict(shape=s, attrs=['/Rotate']) for s in ('one', 'flat', 'deep', 'late', 'two', 'hole', 'chain')] + [dict(shape='one', attrs=INHERITABLE), dict(shape='late', attrs=['/MediaBox']), dict(shape='late', attrs=['/Resources'], kind='stream'), dict(shape='late', attrs=['/CropBox'], indirect=['kids', 'count'])],
                          'thorough': [dict(shape=s, attrs=[a], kind=k) for s in ('flat', 'deep', 'late', 'two', 'hole', 'chain', 'mixed', 'nested') for a in INHERITABLE for k in ('table', 'stream')] + [dict(shape=s, attrs=['/Rotate', a]) for s in ('flat', 'deep', 'late') for a in ('/MediaBox', '/Resources')] + [dict(shape=s, attrs=['/Rotate'], indirect=['kids']) for s in SHAPES if s != 'medium']},
     'every placement of the attributes on the nodes of the tree, symbolic values'),
    ('single', single, {'quick': [dict(shape=s, attrs=['/Rotate', '/CropBox']) for s in ('mixed', 'nested', 'chain')] + [dict(shape='medium', attrs=['/Rotate'])],
                        'thorough': [dict(shape=s, attrs=['/Rotate', '/MediaBox', '/Resources']) for s in ('mixed', 'nested', 'chain', 'two')] + [dict(shape='medium', attrs=[a]) for a in INHERITABLE]}, 'each attribute on any one node'),
    ('first_pages', first_pages, {'quick': [dict(shape=s) for s in ('flat', 'late', 'two', 'mixed', 'hole', 'one')] + [dict(shape='deep', kind='stream')], 'thorough': [dict(shape=s, kind=k) for s in SHAPES for k in ('table', 'stream')]}, 'every n up to two more than the number of pages'),
    ('large', large, [dict(shape='large'), dict(shape='tower'), dict(shape='large', kind='stream')], '23 pages, or 13 levels; every attribute on two nodes'),
    ('null_attrs', null_attrs, [dict(shape=s) for s in ('late', 'deep')], 'zero and empty values hide inherited ones'),
    ('edited', edited, [dict(shape=s, attrs=['/Rotate']) for s in ('flat', 'late')], 'a page updated and the kids of the root reversed'),
]
