"""Page trees shared by the harnesses. A shape is 'p' (a page) or a list of shapes (an intermediate node)."""
from props.common import *
from props.pdffile import *

INHERITABLE = ['/Resources', '/MediaBox', '/CropBox', '/Rotate']
SHAPES = {'flat': ['p', 'p', 'p'],
          'one': ['p'],
          'pair': ['p', ['p']],
          'deep': [[['p'], 'p'], 'p'],
          'late': ['p', ['p', 'p']],
          'two': [['p', 'p'], ['p', 'p']],
          'hole': [[], ['p'], 'p'],
          'chain': [[[['p', 'p']]]],
          'mixed': ['p', ['p', ['p'], 'p'], 'p'],
          'wide': ['p'] * 5,
          'nested': [['p', ['p']], [['p'], 'p']],
          'large': [[['p'] * 4, [], ['p', ['p', 'p']]], 'p', ['p'] * 11, [[['p', 'p']], 'p'], 'p'],
          'tower': [[[['p', [[[['p', [[['p'], 'p']]]]]], 'p']]]],
          'medium': [['p'] * 4 for i in range(4)]}


def leaves(shape):
    return 1 if shape == 'p' else sum([leaves(s) for s in shape])


class Tree:
    """Objects of a page tree: root is object 2, then numbers from first on. place(path, attribute) tells which nodes
    have which attributes; value(path, attribute) gives a value."""

    def __init__(self, shape, place, value, first=10, contents=True, indirect=()):
        self.objs = {}
        self.pages = []       # (num, own and inherited attributes)
        self.next = first
        self.value = value
        self.place = place
        self.contents = contents
        self.indirect = indirect
        self.nodes = []       # (num, path, parent num, leaves)
        self.build(shape, 2, None, (), {})

    def new(self):
        self.next += 1
        return self.next - 1

    def build(self, shape, num, parent, path, inherited):
        page = shape == 'p'
        node = {'/Type': '/Page' if page else '/Pages'}
        if parent:
            node['/Parent'] = complex(0, parent)
        attrs = dict(inherited)
        for a in INHERITABLE:
            if self.place(path, a, page):
                v = self.value(path, a)
                node[a] = v
                attrs[a] = v
        self.objs[num] = (0, node)
        self.nodes.append((num, path, parent, leaves(shape)))
        if page:
            if self.contents:
                k = self.new()
                node['/Contents'] = complex(0, k)
                self.objs[k] = (0, St({}, b'%d w' % num))
            self.pages.append((num, attrs))
            return
        kids = []
        for i, s in enumerate(shape):
            k = self.new()
            kids.append(complex(0, k))
            self.build(s, k, num, path + (i,), attrs)
        node['/Kids'] = kids
        node['/Count'] = leaves(shape)
        if 'kids' in self.indirect:
            k = self.new()
            self.objs[k] = (0, kids)
            node['/Kids'] = complex(0, k)
        if 'count' in self.indirect:
            k = self.new()
            self.objs[k] = (0, node['/Count'])
            node['/Count'] = complex(0, k)

    def file(self, kind='table', extra=None, revise=None):
        w = Writer(kind=kind)
        objs = {1: (0, {'/Type': '/Catalog', '/Pages': 2j})}
        objs.update(self.objs)
        objs.update(extra or {})
        if kind == 'stream':
            emb = {k: pt(v[1]) for k, v in objs.items() if not isinstance(v[1], St) and k > 1}
            w.revision({k: v for k, v in objs.items() if k not in emb}, embedded=emb, env=self.next, xnum=self.next + 1)
        else:
            w.revision(objs)
        return w.out


def some_places(c, attrs, all_nodes=True):
    """Which nodes have which attributes is arbitrary, for the listed attributes; the others are on every page."""
    def place(path, a, page):
        if a not in attrs:
            return a == '/MediaBox' and page and '/MediaBox' not in attrs
        return c.flag(f'{a[1:]}{path}')
    return place


def some_values(c):
    def value(path, a):
        n = a[1:] + ''.join([str(i) for i in path])
        if a == '/Rotate':
            return c.int(n, 10, 99)
        if a == '/Resources':
            return {'/Font': {'/F' + c.text(n, 1, LETTERS): 1j}}
        return [0, 0, c.int(n, 10, 99), 9]
    return value
