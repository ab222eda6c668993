"""Removing or keeping pages yields exactly the remaining pages, intact."""
import pdfsyntax as p
from props.common import *
from props.pdffile import *
from props.trees import *

POOL = 60


def refs(x):
    """References of a value, in a model of the objects."""
    if isinstance(x, St):
        x = x.d
    if isinstance(x, complex):
        return {int(x.imag)}
    if isinstance(x, dict):
        return set().union(*[refs(v) for v in x.values()])
    if isinstance(x, list):
        return set().union(*[refs(v) for v in x])
    return set()


def closure(objs, tree, todo, stop):
    """Numbers of the objects reached, pages included but not the other nodes of the tree."""
    stop = set(stop) | {n for n, path, par, k in tree.nodes} - {n for n, a in tree.pages}
    seen = set()
    todo = set(todo)
    while todo:
        n = todo.pop()
        if n in seen or n in stop or n not in objs:
            continue
        seen.add(n)
        todo |= refs(objs[n][1])
    return seen


def needed(objs, tree, nums, gone, attrs):
    """What these pages need, and what the catalog needs without passing through the pages that are gone."""
    res = closure(objs, tree, set(nums).union(*[refs(attrs[n]) for n in nums]), ())
    if 1 in objs:
        res |= closure(objs, tree, refs({k: v for k, v in objs[1][1].items() if k != '/Pages'}), gone)
    return res


def judge(c, objs, tree, before, new, left, label=''):
    """The document has exactly these pages (indexes) of the tree and they are intact."""
    nums = [tree.pages[i][0] for i in left]
    attrs = dict(tree.pages)
    c.same([r for r, a in p.flat_page_tree(new)], [complex(0, n) for n in nums], label + 'remaining pages')
    c.same(len(new), len(left), label + 'length')
    c.same(p.number_pages(new), len(left), label + 'number of pages')
    paths = {n: path for n, path, par, k in tree.nodes}
    for n, path, par, k in tree.nodes:
        if n in attrs:
            continue
        node = p.get_object(new, complex(0, n))
        under = len([m for m in nums if paths[m][:len(path)] == path])
        c.same(p.get_object(new, node['/Count']), under, label + 'count of a node')
        kids = [m for m, q, parent, l in tree.nodes if parent == n and (m not in attrs or m in nums)]
        c.same(p.get_object(new, node['/Kids']), [complex(0, m) for m in kids], label + 'kids of a node')
        old = p.get_object(before, complex(0, n))
        for k in ('/Kids', '/Count'):
            del old[k], node[k]
        c.same(node, old, label + 'rest of a node')
    gone = [n for n, a in tree.pages if n not in nums]
    keep = needed(objs, tree, nums, gone, attrs)
    for n in sorted(keep) + [1]:
        c.same(p.get_object(new, complex(0, n)), p.get_object(before, complex(0, n)), label + 'needed object')
    for n, path, par, k in tree.nodes: #what the nodes hold may stay
        if n not in attrs:
            keep |= closure(objs, tree, refs({k: v for k, v in objs[n][1].items() if k != '/Kids'}), attrs)
    live = [int(r.imag) for r in p.in_use(new)]
    for n in sorted(closure(objs, tree, gone, ()) - keep):
        c.check(n not in live, label + 'object of removed pages')
    all_pages = p.pages(before)
    c.same(p.pages(new), [all_pages[i] for i in left], label + 'pages')


def shared(c, shape, pool, links=False, indirect=(), kind='table', inner=True, root=False):
    """A tree whose pages and nodes use objects of a pool, which refer to each other."""
    key = {0: '/P', 1: '/Parent', 2: '/X', 3: '/Y'}
    def value(path, a):
        if a == '/Resources':
            return {'/XObject': {key[len(path)]: complex(0, POOL + c.choice('use' + str(path), list(range(pool))))}}
        return [0, 0, 9, 9]
    def place(path, a, page):
        if a == '/Resources':
            return page and path[-1] < 2 or len(path) == (1 if inner else 0) and not page
        return a == '/MediaBox' and page
    tree = Tree(SHAPES[shape], place, value, indirect=indirect)
    extra = {}
    for i in range(pool):
        t = c.choice(f'next{i}', [None] + [j for j in range(pool) if j != i])
        d = {'/V': 10 + i}
        if t is not None:
            d['/SMask'] = complex(0, POOL + t)
        extra[POOL + i] = (0, St(d, b'x%d' % i) if i % 2 == 0 else [d])
    if links: #a page links to another one
        a, b = [c.choice('link' + s, list(range(len(tree.pages)))) for s in ('from', 'to')]
        num = tree.pages[a][0]
        extra[POOL + pool] = (0, {'/Subtype': '/Link', '/P': complex(0, num), '/Dest': [complex(0, tree.pages[b][0]), '/Fit']})
        tree.objs[num][1]['/Annots'] = [complex(0, POOL + pool)]
    if root: #the catalog uses an object of the pool and leads to a page
        top = {'/Type': '/Catalog', '/Pages': 2j}
        t = c.choice('root', [None] + list(range(pool)))
        if t is not None:
            top['/Names'] = {'/JS': complex(0, POOL + t)}
        top['/Outlines'] = complex(0, POOL + pool + 1)
        extra[1] = (0, top)
        extra[POOL + pool + 1] = (0, {'/First': complex(0, POOL + pool + 2)})
        extra[POOL + pool + 2] = (0, {'/Parent': complex(0, POOL + pool + 1), '/Dest': [complex(0, c.choice('leads', tree.pages)[0]), '/Fit']})
    objs = dict(tree.objs)
    objs.update(extra)
    return tree, objs, p.loads(tree.file(kind, extra=extra))


def plain(c, shape, kind='table', indirect=()):
    """Pages with symbolic boxes and orientations, own and inherited."""
    n = [0]
    def value(path, a):
        n[0] += 1
        return c.int(f'v{n[0]}', 100, 999) if a == '/Rotate' else [0, 0, c.int(f'v{n[0]}', 100, 999), 9]
    tree = Tree(SHAPES[shape], lambda path, a, page: a == '/MediaBox' and page or a == '/Rotate' and len(path) == 1, value, indirect=indirect)
    return tree, dict(tree.objs), p.loads(tree.file(kind))


def sharing(c, shape, pool, links=False, indirect=(), kind='table', inner=True, root=False):
    """Any set of pages is removed, from a document whose pages share objects."""
    tree, objs, doc = shared(c, shape, pool, links, indirect, kind, inner, root)
    n = len(tree.pages)
    out = {i for i in range(n) if c.flag(f'out{i}')}
    judge(c, objs, tree, doc, p.remove_pages(doc, out), [i for i in range(n) if i not in out])


def subsets(c, shape, kind='table', indirect=()):
    """Removing and keeping any set."""
    tree, objs, doc = plain(c, shape, kind, indirect)
    n = len(tree.pages)
    out = {i for i in range(n) if c.flag(f'out{i}')}
    left = [i for i in range(n) if i not in out]
    judge(c, objs, tree, doc, p.remove_pages(doc, out), left, 'remove ')
    judge(c, objs, tree, doc, p.keep_pages(doc, set(left)), left, 'keep ')
    judge(c, objs, tree, doc, doc, list(range(n)), 'original ')


def one(c, shape):
    """A single page, designated by a number, by brackets with positive or negative numbers, or by iteration."""
    tree, objs, doc = plain(c, shape)
    n = len(tree.pages)
    i = c.int('i', 0, n - 1)
    how = c.choice('how', ['remove', 'keep', 'index', 'negative', 'iterate', 'remove last'])
    if how == 'remove':
        judge(c, objs, tree, doc, p.remove_pages(doc, i), [j for j in range(n) if j != i])
    elif how == 'remove last':
        judge(c, objs, tree, doc, p.remove_pages(doc, -1), list(range(n - 1)))
    elif how == 'keep':
        judge(c, objs, tree, doc, p.keep_pages(doc, i), [j for j in range(n) if j == i])
    elif how == 'index':
        judge(c, objs, tree, doc, doc[i], [j for j in range(n) if j == i])
    elif how == 'negative':
        judge(c, objs, tree, doc, doc[i - n], [j for j in range(n) if j == i])
    else:
        k = 0
        for d in doc:
            judge(c, objs, tree, doc, d, [k], 'iteration ')
            k += 1
        c.same(k, n, 'iterations')


def slices(c, shape, light=True):
    """Slices of all kinds."""
    tree, objs, doc = plain(c, shape)
    n = len(tree.pages)
    ends = [None, 0, 1, -1, n, n + 1, -n - 1] if light else [None] + list(range(-n - 1, n + 2))
    a = c.choice('start', ends)
    b = c.choice('stop', ends)
    s = c.choice('step', [None, 2, -1] if light else [None, 1, 2, 3, -1, -2])
    judge(c, objs, tree, doc, doc[a:b:s], sorted(list(range(n))[a:b:s]), 'slice ')


def histories(c, shape, kind='table', indirect=()):
    """Two removals in sequence, possibly in distinct revisions; the result is written and loaded again."""
    tree, objs, doc = plain(c, shape, kind, indirect)
    n = len(tree.pages)
    a = c.choice('first', list(range(n)))
    left = [i for i in range(n) if i != a]
    new = p.remove_pages(doc, a)
    if c.flag('commit'):
        new = p.commit(new)
    b = c.choice('second', list(range(n - 1)))
    new = p.remove_pages(new, b)
    del left[b]
    judge(c, objs, tree, doc, new, left, 'memory ')
    judge(c, objs, tree, doc, p.loads(written(c, new)), left, 'file ')


def large(c, shape, kind='table', indirect=()):
    """Many pages or many levels."""
    tree, objs, doc = plain(c, shape, kind, indirect)
    n = len(tree.pages)
    k = c.choice('k', list(range(0, n, 3)))
    how = c.choice('how', ['remove one', 'remove some', 'keep some', 'remove most', 'slice'])
    if how == 'remove one':
        left = [i for i in range(n) if i != k]
        new = p.remove_pages(doc, k)
    elif how == 'remove some':
        out = {(k + 4 * i) % n for i in range(4)}
        left = [i for i in range(n) if i not in out]
        new = p.remove_pages(doc, out)
    elif how == 'keep some':
        left = sorted({(k + 4 * i) % n for i in range(4)})
        new = p.keep_pages(doc, set(left))
    elif how == 'remove most':
        left = [k]
        new = p.remove_pages(doc, set(range(n)) - {k})
    else:
        left = list(range(n))[k // 2:n - k // 2]
        new = doc[k // 2:n - k // 2]
    judge(c, objs, tree, doc, new, left)


def turned(c, shape):
    """Pages that were turned or edited before."""
    tree, objs, doc = plain(c, shape)
    n = len(tree.pages)
    doc = p.rotate(doc, 90, [c.choice('turned', list(range(n)))])
    num = tree.pages[c.choice('edited', list(range(n)))][0]
    x = p.get_object(doc, complex(0, num))
    x['/New'] = [c.int('new', 100, 999)]
    doc = p.update_object(doc, num, x)
    out = {i for i in range(n) if c.flag(f'out{i}')}
    judge(c, objs, tree, doc, p.remove_pages(doc, out), [i for i in range(n) if i not in out])


CASES = [
    ('one', one, [dict(shape='late'), dict(shape='deep'), dict(shape='one')], 'any page of the tree'),
    ('subsets', subsets, [dict(shape='flat'), dict(shape='deep'), dict(shape='hole', kind='stream'), dict(shape='two', indirect=('kids', 'count')), dict(shape='chain'), dict(shape='nested')], 'any subset of the pages of the tree'),
    ('large', large, [dict(shape='large'), dict(shape='tower'), dict(shape='large', kind='stream', indirect=('kids', 'count'))], '23 pages, or 13 levels; every third page'),
    ('turned', turned, [dict(shape='late')], 'any pages turned, edited and removed'),
    ('histories', histories, [dict(shape='late'), dict(shape='deep', kind='stream'), dict(shape='two', indirect=('kids', 'count'))], 'any two pages, in one or two revisions'),
    ('slices', slices, {'quick': [dict(shape='late')], 'thorough': [dict(shape='mixed', light=False)]}, 'all combinations of start, stop and step within one more than the number of pages'),
    ('sharing', sharing, {'quick': [dict(shape='late', pool=2), dict(shape='flat', pool=2, links=True, inner=False), dict(shape='late', pool=2, inner=False), dict(shape='pair', pool=2, root=True, inner=False)],
                          'thorough': [dict(shape='late', pool=3, links=True), dict(shape='late', pool=2, root=True),  dict(shape='deep', pool=3, links=True, kind='stream'), dict(shape='flat', pool=3, links=True, inner=False, kind='stream')]}, 'any use of a pool of objects by pages and nodes, any reference between these, any subset'),
]
