"""Concatenating gives the pages of both documents in order."""
import pdfsyntax as p
from props.common import *
from props.pdffile import *
from props.trees import *
from props.graph import Graphs
from props.session import Session, FOREIGN

PATHS = {'large': (0, 0, 1), 'tower': (0, 0, 0, 0)} #the page whose box is symbolic
CONTAINERS = ('/ObjStm', '/XRef')


def live(doc):
    """Objects that a concatenation carries."""
    res = []
    for r in p.in_use(doc):
        o = p.get_object(doc, r)
        if not (type(o).__name__ == 'Stream' and o.entries.get('/Type') in CONTAINERS):
            res.append(int(r.imag))
    return res


def pages_num(doc):
    return int(p.catalog(doc)[0]['/Pages'].imag)


def judge(c, left, right, new, target_left=True, label=''):
    """The concatenation has everything of both."""
    a, b = p.pages(left), p.pages(right)
    got = p.pages(new)
    c.same(len(got), len(a) + len(b), label + 'pages')
    c.same(len(new), len(a) + len(b), label + 'length')
    target, source = (left, right) if target_left else (right, left)
    root, top = pages_num(target), pages_num(new)
    # the objects of the target stay where they are
    cat = int(p.catalog(target)[1].imag)
    kept = {int(r.imag) for r in p.in_use(target)}
    for r in p.in_use(target):
        x, y = p.get_object(target, r), p.get_object(new, r)
        if int(r.imag) == cat:
            x['/Pages'] = y['/Pages'] = None
        if int(r.imag) == root:
            for k in ('/Kids', '/Count', '/Parent'):
                x.pop(k, None)
                y.pop(k, None)
        c.same(y, x, label + 'object of the target')
    # the objects of the source have counterparts among the new ones
    g = Graphs(c, source, new, label)
    sroot = pages_num(source)
    g.gone.add(int(p.catalog(source)[1].imag))
    def undo(y):
        c.same(y.pop('/Parent', None), p.catalog(new)[0]['/Pages'], label + 'parent of the added pages')
        return y
    g.adapt[sroot] = undo
    kids = p.get_object(new, p.get_object(new, complex(0, top))['/Kids'])
    c.same(p.get_object(new, p.get_object(new, complex(0, top))['/Count']), len(a) + len(b), label + 'count')
    g.same(p.catalog(source)[0]['/Pages'], kids[-1] if target_left else kids[0])
    g.run()
    c.check(not set(g.back) & kept, label + 'counterparts are new')
    more = [int(r.imag) for r in p.in_use(new) if int(r.imag) not in kept]
    mine = live(source)
    mine.remove(int(p.catalog(source)[1].imag))
    c.same(len(more), len(mine) + (top != root), label + 'number of added objects')
    rest = [n for n in mine if n not in g.there]
    free = [n for n in more if n not in g.back and n != top]
    c.same(len(free), len(rest), label + 'unreachable objects')
    for n, m in zip(rest, free):
        g.same(complex(g.used[0][n]), complex(g.used[1][m]))
    g.run()
    # effective attributes
    second = got[len(a):] if target_left else got[:len(a)]
    first = got[:len(a)] if target_left else got[len(a):]
    for x, y in zip(p.pages(target), first):
        x.pop('/Parent')
        y.pop('/Parent')
        c.same(y, x, label + 'page of the target')
    for x, y in zip(p.pages(source), second):
        g.same(x, y)
    g.run()


def trees(c, left, right, kinds=('table', 'table'), indirect=()):
    """Any placement of two attributes, in two trees."""
    docs = []
    for s, kind, k in ((left, kinds[0], 'l'), (right, kinds[1], 'r')):
        where = {a: c.choice(k + a, [(), (0,), None]) for a in ('/Rotate', '/MediaBox', '/Resources')}
        def value(path, a):
            return {'/Rotate': 270, '/MediaBox': [0, 0, c.int(k + 'box', 100, 999), 7], '/Resources': {'/X': [11j]}}[a]
        tree = Tree(SHAPES[s], lambda path, a, page: a in where and where[a] == path, value, indirect=indirect)
        docs.append(p.loads(tree.file(kind)))
    t = c.flag('target_left')
    judge(c, docs[0], docs[1], p.concat(docs[0], docs[1], t), t)


def after(c, left, right):
    """The result can be changed, written and concatenated again."""
    docs = []
    for s, k in ((left, 'l'), (right, 'r')):
        n = [0]
        def value(path, a):
            n[0] += 1
            return c.int(k + str(n[0]), 100, 359) if a == '/Rotate' else [0, 0, 9, 9]
        place = c.choice(k, [0, 1])
        docs.append(p.loads(Tree(SHAPES[s], lambda path, a, page: a == '/MediaBox' and page or a == '/Rotate' and len(path) == place, value).file()))
    new = p.concat(docs[0], docs[1], c.flag('target_left'))
    all_pages = p.pages(new)
    n = len(all_pages)
    layouts = p.page_layouts(docs[0]) + p.page_layouts(docs[1])
    c.same(p.page_layouts(new), layouts, 'layouts')
    how = c.choice('how', ['remove', 'rotate', 'write', 'again'])
    i = c.choice('page', list(range(n)))
    if how == 'remove':
        c.same(p.page_layouts(p.remove_pages(new, i)), layouts[:i] + layouts[i + 1:], 'after removal')
        c.same(len(p.remove_pages(new, i)), n - 1, 'count after removal')
        c.same(p.page_layouts(new[i]), [layouts[i]], 'one page')
        c.same(len(new[i]), 1, 'count of one page')
    elif how == 'rotate':
        got = p.page_layouts(p.rotate(new, 90, [i]))
        c.same([x[1] for x in got], [((x[1] or 0) + 90) % 360 if j == i else x[1] for j, x in enumerate(layouts)], 'after rotation')
    elif how == 'write':
        again = p.loads(written(c, new))
        c.same(p.page_layouts(again), layouts, 'written layouts')
        c.same(len(again), n, 'written length')
    else:
        t = c.flag('target_left2')
        more = p.concat(new, docs[i % 2], t)
        judge(c, new, docs[i % 2], more, t, 'again ')


def histories(c, left, right, ops=('update', 'delete', 'add', 'add stream')):
    """Documents with revisions, deleted and embedded objects, pending changes."""
    s = Session(c, left)
    s.do(ops)
    t = Session(c, right)
    t.step = 10
    t.do(ops)
    d = c.flag('target_left')
    judge(c, s.doc, t.doc, p.concat(s.doc, t.doc, d), d)


def large(c, left, right):
    """Many pages, many levels, many objects."""
    docs = []
    for s, k in ((left, 'l'), (right, 'r')):
        if s.startswith('many'):
            docs.append(Session(c, s).doc)
            continue
        tree = Tree(SHAPES[s], lambda path, a, page: a == '/MediaBox' and page or a in ('/Rotate', '/Resources') and sum(path) % 4 == 1, lambda path, a: {'/Rotate': 270, '/MediaBox': [0, 0, 12, c.int(k + 'box', 100, 999) if path == PATHS[s] else 7], '/Resources': {'/X': [11j]}}[a])
        docs.append(p.loads(tree.file()))
    t = c.flag('target_left')
    judge(c, docs[0], docs[1], p.concat(docs[0], docs[1], t), t)


def itself(c, kind):
    """A document and itself, with the operator."""
    s = Session(c, kind)
    judge(c, s.doc, s.doc, s.doc + s.doc)


def graph(c, pool, gens=False, hole=False):
    """References of any kind among the objects of the second document, dangling ones included."""
    objs = page_objs(1)
    nums = [5 + i for i in range(pool)]
    if hole:
        nums = [3 + 3 * i for i in range(1, pool + 1)]
    gen = {n: c.choice(f'gen{n}', [0, 1]) if gens else 0 for n in nums}
    for i, n in enumerate(nums):
        t = c.choice(f'to{i}', nums + [1, 3, 40])
        r = complex(gen.get(t, 0), t)
        v = {'/V': c.int(f'v{i}', 10, 99), '/R': [r, {'/S': r}]}
        objs[n] = (gen[n], St(v, b'x%d' % i) if i % 2 else v)
    objs[3][1]['/Entry'] = complex(gen[nums[0]], nums[0])
    w = Writer()
    w.revision(objs)
    right = p.loads(w.out)
    left = p.blank()
    t = c.flag('target_left')
    if t:
        judge(c, left, right, p.concat(left, right, t), t)
    else:
        judge(c, right, left, p.concat(right, left, t), t)


CASES = [
    ('itself', itself, [dict(kind='table'), dict(kind='embedded'), dict(kind='blank')], 'a document added to itself'),
    ('large', large, [dict(left='large', right='tower'), dict(left='manytable', right='large'), dict(left='large', right='manystream')], 'some 70 objects, 23 pages or 13 levels'),
    ('graph', graph, {'quick': [dict(pool=2), dict(pool=2, gens=True, hole=True)], 'thorough': [dict(pool=3, gens=True, hole=True)]}, 'any references among 2 objects (thorough: 3), the catalog, a page and a missing object'),
    ('after', after, {'quick': [dict(left='late', right='flat')], 'thorough': [dict(left='deep', right='two')]}, 'any page of the result is removed, kept or rotated; the result is written or concatenated again'),
    ('trees', trees, {'quick': [dict(left='late', right='two'), dict(left='flat', right='one', kinds=('stream', 'table'), indirect=('kids', 'count'))], 'thorough': [dict(left='deep', right='hole', kinds=('table', 'stream')), dict(left='one', right='nested', kinds=('stream', 'stream'))]}, 'attributes on any node'),
    ('histories', histories, {'quick': [dict(left='table2', right='stream2'), dict(left='embedded', right='gap'), dict(left='mixed', right='embedded'), dict(left='blank', right='table2')] + [dict(left='table', right=k, ops=('update', 'delete', 'commit')) for k in FOREIGN] + [dict(left=k, right='embedded', ops=('none', 'add')) for k in FOREIGN],
                              'thorough': [dict(left=a, right=b) for a in ('table', 'table2', 'gap', 'stream', 'stream2', 'embedded', 'mixed') for b in ('table2', 'gap', 'stream2', 'embedded', 'mixed')]}, 'one operation on each document'),
]
