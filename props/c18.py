"""Rotating turns exactly the chosen pages relative to their orientation."""
import pdfsyntax as p
from props.common import *
from props.pdffile import *
from props.trees import *


def orientation(doc, i):
    return p.page_layouts(doc)[i][1]


def unchanged(c, before, after, nums):
    """All objects but these have their value, and nothing is added or removed."""
    c.same(p.in_use(after), p.in_use(before), 'objects in use')
    for r in p.in_use(before):
        x, y = p.get_object(before, r), p.get_object(after, r)
        if int(r.imag) in nums:
            x.pop('/Rotate', None)
            y.pop('/Rotate', None)
        c.same(y, x, 'everything else')
    c.same(p.trailer(after), p.trailer(before), 'trailer')


def turn(c, tree, doc, chosen, deg, label=''):
    n = len(tree.pages)
    new = p.rotate(doc, deg, chosen)
    sel = chosen or list(range(n))
    old = p.page_layouts(doc)
    got = p.page_layouts(new)
    for i in range(n):
        want = ((old[i][1] or 0) + deg) % 360 if i in sel else old[i][1]
        c.same(got[i][1], want, label + ('chosen page' if i in sel else 'other page'))
        c.same(got[i][0], old[i][0], label + 'box')
    unchanged(c, doc, new, [tree.pages[i][0] for i in sel])
    c.same(sorted([int(r.imag) for r, a in p.changes(new)]), sorted(set([int(r.imag) for r, a in p.changes(doc)]) | {tree.pages[i][0] for i in sel}), label + 'modified objects')
    return new


def rotating(c, shape, kind='table', places=True, wide=False):
    """Any angle, any selection of pages, any placement and value of previous orientations."""
    def value(path, a):
        if a == '/Rotate':
            return c.int('r' + ''.join([str(i) for i in path]), -400 if wide else 100, 800)
        return [0, 0, 9, 9]
    where = some_places(c, ['/Rotate']) if places else (lambda path, a, page: a == '/MediaBox' and page or a == '/Rotate' and path in ((0,), (1, 0)))
    tree = Tree(SHAPES[shape], where, value)
    doc = p.loads(tree.file(kind))
    n = len(tree.pages)
    chosen = [i for i in range(n) if c.flag(f'page{i}')]
    for i in range(n): #the orientations loaded are those of the tree
        c.same(orientation(doc, i), tree.pages[i][1].get('/Rotate'), 'orientation before')
    turn(c, tree, doc, chosen, c.int('deg', -1000, 1000))


def large(c, shape, kind):
    """Many pages, of which every fifth or so is turned, several times."""
    def value(path, a):
        if a == '/Rotate':
            return c.int('r', 100, 300) if path == (0,) else 10 * len(path)
        return [0, 0, 9, 9]
    tree = Tree(SHAPES[shape], lambda path, a, page: a == '/MediaBox' and page or a == '/Rotate' and sum(path) % 3 == 0, value)
    doc = p.loads(tree.file(kind))
    n = len(tree.pages)
    k = c.choice('first', [0, 1, 2, 3])
    doc = turn(c, tree, doc, list(range(k, n, 5)), c.int('deg', -400, 400))
    for i in range(3):
        doc = turn(c, tree, p.commit(doc) if i % 2 else doc, [n - 1 - k, k] if i else [], 90 * (i + 1), 'again ')
    c.same(p.page_layouts(p.loads(written(c, doc))), p.page_layouts(doc), 'written')


def repeated(c, shape):
    """Several rotations add up; a written and reloaded document has the same orientations."""
    def value(path, a):
        return (c.int('r', 100, 359) if path == (0,) else 180) if a == '/Rotate' else [0, 0, 9, 9]
    tree = Tree(SHAPES[shape], lambda path, a, page: a == '/MediaBox' or a == '/Rotate' and len(path) == 1, value)
    doc = p.loads(tree.file())
    n = len(tree.pages)
    first = p.page_layouts(doc)
    a, b = c.choice('a', [90, -90, 270]), c.choice('b', [90, 180, 450])
    doc = turn(c, tree, doc, [], a, 'first ')
    if c.flag('commit'):
        doc = p.commit(doc)
    i = c.choice('i', list(range(n)))
    doc = turn(c, tree, doc, [i], b, 'second ')
    got = [x[1] for x in p.page_layouts(doc)]
    c.same(got, [((x[1] or 0) + a + (b if j == i else 0)) % 360 for j, x in enumerate(first)], 'sum')
    again = p.loads(written(c, doc))
    c.same([x[1] for x in p.page_layouts(again)], got, 'written')


def default(c, shape):
    """Without arguments all pages turn by 90 degrees; an orientation may be an indirect object."""
    tree = Tree(SHAPES[shape], lambda path, a, page: a == '/MediaBox' or a == '/Rotate' and page, lambda path, a: 60j + path[-1] * 1j if a == '/Rotate' else [0, 0, 9, 9])
    extra = {60 + i: (0, c.int(f'ind{i}', 100, 999)) for i in range(4)}
    doc = p.loads(tree.file(extra=extra))
    new = p.rotate(doc)
    for (num, attrs), (box, r) in zip(tree.pages, p.page_layouts(new)):
        c.same(r, (extra[int(attrs['/Rotate'].imag)][1] + 90) % 360, 'indirect orientation')
    unchanged(c, doc, new, [num for num, a in tree.pages])


CASES = [
    ('default', default, [dict(shape='flat'), dict(shape='late')], 'indirect values'),
    ('large', large, [dict(shape='large', kind=k) for k in ('table', 'stream')] + [dict(shape='tower', kind='table')], '23 pages, or 13 levels; four rotations, one of any angle'),
    ('repeated', repeated, [dict(shape='late'), dict(shape='flat')], 'two rotations of the listed angles, previous orientations symbolic, then written and reloaded'),
    ('rotating', rotating, {'quick': [dict(shape='one', wide=True), dict(shape='flat', places=False), dict(shape='late', places=False), dict(shape='late', kind='stream', places=False), dict(shape='deep', places=False), dict(shape='chain')],
                            'thorough': [dict(shape='late', wide=True, places=False)] + [dict(shape=s, kind=k) for s in ('flat', 'late', 'two', 'deep', 'hole', 'mixed') for k in ('table', 'stream')]}, 'angles from -1000 to 1000, previous orientations from 100 to 800 (-400 to 800 once), every selection'),
]
