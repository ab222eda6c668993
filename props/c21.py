"""Squashing keeps the document and only drops history."""
from copy import deepcopy
import pdfsyntax as p
from props.common import *
from props.pdffile import *
from props.trees import *
from props.graph import Graphs
from props.session import Session, FOREIGN
from props.c20 import live


def compare(c, old, new, label='', g=None):
    """Same graphs from the trailers."""
    g = g or Graphs(c, old, new, label)
    a, b = p.trailer(old), p.trailer(new)
    for k in ('/Root', '/Info', '/ID'):
        c.same(k in b, k in a, label + 'trailer entry')
        if k in a:
            g.same(a[k], b[k])
    g.run()
    x, y = p.pages(old), p.pages(new)
    c.same(len(y), len(x), label + 'pages')
    c.same(len(new), len(old), label + 'length')
    g.same(x, y)
    g.run()
    rest = [n for n in live(old) if n not in g.there]
    free = [n for n in live(new) if n not in g.back]
    c.same(len(free), len(rest), label + 'unreachable objects')
    for n, m in zip(rest, free):
        g.same(complex(g.used[0][n]), complex(g.used[1][m]))
    g.run()
    return g


def judge(c, doc, write=True, label=''):
    before = deepcopy([p.get_object(doc, r) for r in p.in_use(doc)])
    new = p.squash(doc)
    g = compare(c, doc, new, label)
    c.same(len(new.index), 1, label + 'one revision')
    c.same([e['o_gen'] for e in new.index[0]], [0] * len(new.index[0]), label + 'generations')
    c.same([e['o_num'] for e in new.index[0]], list(range(len(new.index[0]))), label + 'numbers without gaps')
    c.same(p.in_use(new), [complex(0, n) for n in range(1, len(new.index[0]))], label + 'objects in use')
    c.same(len(p.in_use(new)), len(live(doc)), label + 'number of objects')
    c.same([p.get_object(doc, r) for r in p.in_use(doc)], before, label + 'the given document')
    if write:
        again = p.loads(written(c, new))
        compare(c, doc, again, label + 'written ')
        c.same(len(again.index), 2, label + 'revisions of the written document')
        c.same(len([r for r in p.changes(again)]), 0, label + 'changes of the written document')
    return new


def histories(c, kind, ops, steps):
    s = Session(c, kind)
    for i in range(steps):
        s.do(ops)
    if 'commit' not in ops and c.flag('commit'):
        s.do(['commit'])
    judge(c, s.doc)


def graph(c, pool, info=True, kind='table'):
    """References of any kind, with generations and gaps, in dictionaries, arrays and streams."""
    objs = page_objs(1)
    nums = [5 + 2 * i for i in range(pool)]
    gen = {n: c.choice(f'gen{n}', [0, 3]) for n in nums} if kind == 'table' else {n: 0 for n in nums}
    for i, n in enumerate(nums):
        t = c.choice(f'to{i}', nums + [1, 3, 40])
        r = complex(gen.get(t, 0), t)
        v = {'/V': c.int(f'v{i}', 10, 99), '/R': [r, {'/S': r}]}
        objs[n] = (gen[n], St(v, b'x%d' % i) if i % 2 else v)
    trailer = {}
    if info:
        t = c.choice('info', nums)
        trailer = {'/Info': complex(gen[t], t), '/ID': [b'<' + c.bytes('id', 2, b'0123456789') + b'>', b'<00>']}
    if c.flag('reach'):
        objs[3][1]['/Entry'] = complex(gen[nums[-1]], nums[-1])
    w = Writer(trailer=trailer, kind=kind)
    if kind == 'stream':
        emb = {n: pt(v[1]) for n, v in objs.items() if not isinstance(v[1], St) and n > 1}
        w.revision({n: v for n, v in objs.items() if n not in emb}, embedded=emb, env=30, xnum=31)
    else:
        w.revision(objs)
    judge(c, p.loads(w.out))


def deleted(c, kind='table', n=4):
    """Any set of objects is deleted, in the file or in memory."""
    objs = page_objs(1)
    where = {}
    for i in range(n):
        where[i] = c.choice(f'where{i}', ['keep', 'file', 'memory'])
        objs[5 + i] = (0, [10 + i, complex(0, 5 + (i + 1) % n)])
    objs[3][1]['/Entry'] = [complex(0, 5 + i) for i in range(n)]
    w = Writer(kind=kind)
    w.revision(objs, **({'xnum': 20} if kind == 'stream' else {}))
    freed = [(5 + i, 1) for i in range(n) if where[i] == 'file']
    if freed:
        w.revision({}, freed=freed, **({'xnum': 21} if kind == 'stream' else {}))
    doc = p.loads(w.out)
    for i in range(n):
        if where[i] == 'memory':
            doc = p.update_object(doc, 5 + i, None)
    new = judge(c, doc)
    left = [i for i in range(n) if where[i] == 'keep']
    page = p.pages(new)[0]
    c.same([p.get_object(new, r)[0] if isinstance(r, complex) else None for r in page['/Entry']], [10 + i if i in left else None for i in range(n)], 'remaining objects')


def twice(c, kind):
    """Squashing again or after further changes."""
    s = Session(c, kind)
    new = judge(c, s.doc)
    judge(c, new, label='again ')
    doc = p.rotate(new, 90)
    doc, ref = p.add_object(doc, [c.int('new', 10, 99)])
    if c.flag('commit'):
        doc = p.commit(doc)
    judge(c, doc, label='changed ')


CASES = [
    ('twice', twice, [dict(kind=k) for k in ('table2', 'embedded', 'mixed', 'blank', 'stream2', 'gap', 'deep', 'deepstream', 'manytable', 'manystream') + FOREIGN], 'squashed again, changed and squashed'),
    ('deleted', deleted, {'quick': [dict(n=3), dict(kind='stream', n=3)], 'thorough': [dict(n=5), dict(kind='stream', n=5)]}, 'any set among 3 objects (thorough: 5) deleted in the file or in memory'),
    ('graph', graph, {'quick': [dict(pool=2), dict(pool=2, kind='stream'), dict(pool=2, info=False)], 'thorough': [dict(pool=3)]}, 'any references among 2 objects (thorough: 3), the catalog, a page and a missing object'),
    ('histories', histories, {'quick': [dict(kind=k, ops=('update', 'delete', 'add', 'add stream', 'force', 'annotate', 'rotate', 'rewind'), steps=1) for k in ('table2', 'stream2', 'embedded', 'mixed', 'gap', 'blank') + FOREIGN],
                              'thorough': [dict(kind=k, ops=('update', 'delete', 'add stream', 'commit', 'rewind', 'remove', 'concat', 'reload'), steps=2) for k in ('table2', 'stream2', 'embedded', 'mixed', 'gap', 'blank')]}, 'one operation (thorough: two) of any kind'),
]
