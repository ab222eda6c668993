"""The dependencies of an object are all it refers to."""
import pdfsyntax as p
from pdfsyntax.objects import deep_ref_detect
from props.common import *
from props.pdffile import *

MISSING = 40
HOLDERS = ['dict', 'array', 'stream', 'nested', 'stream nested', 'page', 'field', 'annot', 'scalar']
KEYS = {'dict': '/A', 'nested': '/A', 'stream': '/A', 'stream nested': '/A', 'field': '/Parent', 'annot': '/P', 'page': '/Parent'}


def hold(kind, refs, i):
    """An object of this kind that refers to these."""
    mark = 10 + i
    if kind == 'array':
        return [mark, b'(x)'] + refs
    if kind in ('dict', 'field', 'annot', 'page'):
        d = {'/V': mark}
        if kind == 'page':
            d['/Type'] = '/Page'
        for k, r in enumerate(refs):
            d[KEYS[kind] if k == 0 else f'/K{k}'] = r
        return d
    if kind == 'nested':
        return {'/A': [mark] + [[{'/B': [r]}] for r in refs]}
    if kind == 'stream':
        d = {}
        for k, r in enumerate(refs):
            d[f'/A{k}'] = r
        return St(d, b'data')
    if kind == 'stream nested':
        return St({'/Q': [{'/A': refs}]}, b'0 0 R 5 0 R')
    return mark


def direct(v, tree):
    """References found in a value (independent of the code under test): list of references."""
    if isinstance(v, St):
        v = v.d
    if isinstance(v, complex):
        return [v]
    if isinstance(v, list):
        r = []
        for x in v:
            r = r + direct(x, tree)
        return r
    if isinstance(v, dict):
        r = []
        for k in v:
            x = v[k]
            if tree is not None and k in ('/Parent', '/P') and isinstance(x, complex) and x in tree:
                continue
            r = r + direct(x, tree)
        return r
    return []


def reach(v, objs, tree):
    res = []
    todo = [v]
    while todo:
        for r in direct(todo.pop(), tree):
            if r not in res:
                res.append(r)
                n = int(r.imag)
                if n in objs:
                    todo.append(objs[n][1])
    return res


def ordered(s):
    return sorted([(int(r.imag), int(r.real)) for r in s])


class Web:
    def __init__(self, c, kinds, out, first=10, gens=False):
        self.objs = page_objs(2)
        n = len(kinds)
        self.nums = list(range(first, first + n))
        gen = {x: (3 if gens and x % 2 else 0) for x in self.nums}
        targets = [complex(gen[x], x) for x in self.nums] + [2j, 3j, complex(0, MISSING)]
        for i, k in enumerate(kinds):
            refs = [c.choice(f'to{i}.{j}', targets) for j in range(out if k != 'scalar' else 0)]
            self.objs[self.nums[i]] = (gen[self.nums[i]], hold(k, refs, i))
        self.gen = gen
        self.tree = [2j, 3j, 4j] + [complex(gen[x], x) for x, k in zip(self.nums, kinds) if k == 'page']

    def file(self, kind='table'):
        w = Writer(kind=kind)
        if kind == 'stream':
            emb = {k: pt(v[1]) for k, v in self.objs.items() if not isinstance(v[1], St) and k > 1}
            w.revision({k: v for k, v in self.objs.items() if k not in emb}, embedded=emb, env=50, xnum=51)
        else:
            w.revision(self.objs)
        return w.out


def judge(c, doc, objs, tree, subjects):
    for label, subject, value in subjects:
        got = p.dependencies(doc, subject)
        c.check(type(got) is set, 'a set')
        c.same(ordered(got), ordered(reach(value, objs, tree)), label)


def graphs(c, kinds, out=1, kind='table', gens=False):
    """Every object of any graph of references."""
    web = Web(c, kinds, out, gens=gens)
    doc = p.loads(web.file(kind))
    subjects = []
    for x in web.nums:
        r = complex(web.gen[x], x)
        subjects.append((f'dependencies of a reference', r, r))
        v = web.objs[x][1]
        subjects.append((f'dependencies of an object', p.get_object(doc, r), v))
        c.same(ordered(deep_ref_detect(p.get_object(doc, r))), ordered(set(direct(v, None))), 'direct references')
    subjects.append(('dependencies of a page', 3j, 3j))
    subjects.append(('dependencies of an array', [complex(web.gen[x], x) for x in web.nums], [complex(web.gen[x], x) for x in web.nums]))
    judge(c, doc, web.objs, web.tree, subjects)


def changed(c, kinds, out=1):
    """Dependencies follow the current revision."""
    web = Web(c, kinds, out)
    doc = p.loads(web.file())
    objs = dict(web.objs)
    n = c.choice('changed', web.nums)
    how = c.choice('how', ['update', 'delete', 'commit', 'add', 'rewind'])
    r = complex(0, c.choice('target', web.nums + [3]))
    first = doc
    if how == 'delete':
        doc = p.update_object(doc, n, None)
        del objs[n]
    elif how == 'add':
        doc, ref = p.add_object(doc, {'/A': r})
        objs[int(ref.imag)] = (0, {'/A': r})
        new = [7, {'/B': ref}]
        doc = p.update_object(doc, n, new)
        objs[n] = (0, new)
    else:
        new = {'/A': [r]}
        doc = p.update_object(doc, n, new)
        if how != 'rewind':
            objs[n] = (0, new)
        if how == 'commit':
            doc = p.commit(doc)
        if how == 'rewind':
            doc = p.rewind(doc)
    judge(c, doc, objs, web.tree, [('current dependencies', complex(0, x), complex(0, x)) for x in web.nums])
    judge(c, first, web.objs, web.tree, [('dependencies in the given document', complex(0, x), complex(0, x)) for x in web.nums])


def values(c, depth, width):
    """Values given directly: any nesting, any reference."""
    kinds = ['dict', 'stream']
    web = Web(c, kinds, 1)
    doc = p.loads(web.file())

    def value(path):
        k = c.choice(f'kind{path}', ['ref', 'name', 'list', 'dict', 'parent', 'p'] if len(path) < depth else ['ref', 'string'])
        if k == 'ref':
            return c.choice(f'ref{path}', [10j, 11j, 2j])
        if k == 'name':
            return '/10'
        if k == 'string':
            return b'(10 0 R)'
        inner = [value(path + 'xyz'[i]) for i in range(width)]
        if k == 'list':
            return inner
        keys = {'dict': ['/A', '/B'], 'parent': ['/Parent', '/B'], 'p': ['/A', '/P']}[k]
        return dict(zip(keys, inner))
    v = value('')
    judge(c, doc, web.objs, web.tree, [('dependencies of a value', v, v)])
    c.same(ordered(deep_ref_detect(v)), ordered(set(direct(v, None))), 'direct references of a value')


def large(c, kind, n):
    """Long arrays, large dictionaries, deep values and long chains; any reference at any of three places."""
    objs = page_objs(1)
    at = c.choice('at', [0, n // 2, n - 1])
    r = complex(0, c.choice('to', [11, 12, 3, MISSING]))
    if kind == 'array':
        v = [7] * n
        v[at] = r
    elif kind == 'references':
        v = [complex(0, 20 + i) for i in range(n)]
        v[at] = r
    elif kind == 'dict':
        v = {f'/K{i}': i for i in range(n)}
        v[f'/K{at}'] = r
    elif kind == 'stream':
        v = St({f'/K{i}': [i] if i != at else [r] for i in range(n)}, b'data')
    else:
        v = [r]
        for i in range(n):
            v = [i, v] if i % 2 else {'/A': v}
    objs[10] = (0, v)
    objs[11] = (0, [12j])
    objs[12] = (0, {'/A': 10j, '/B': complex(0, 20) if kind == 'chain' else 11j})
    if kind in ('chain', 'references'):
        for i in range(n):
            objs[20 + i] = (0, {'/N': complex(0, 21 + i)} if i < n - 1 else [r])
    w = Writer()
    w.revision(objs)
    doc = p.loads(w.out)
    judge(c, doc, objs, [2j, 3j], [('dependencies', 10j, 10j), ('dependencies of a user', 12j, 12j)])


CASES = [
    ('large', large, {'quick': [dict(kind=k, n=n) for k, n in (('array', 80), ('references', 70), ('dict', 70), ('stream', 40), ('deep', 20), ('chain', 60))], 'thorough': [dict(kind=k, n=200) for k in ('array', 'references', 'dict', 'stream', 'chain')] + [dict(kind='deep', n=60)]}, 'values of up to 80 parts, chains of 60 objects, nesting of 20 (thorough: 200, 200, 60)'),
    ('values', values, {'quick': [dict(depth=1, width=2)], 'thorough': [dict(depth=2, width=1), dict(depth=1, width=2)]}, 'nesting of 1–2 levels, every reference graph of two objects behind'),
    ('graphs', graphs,
     {'quick': [dict(kinds=[k, 'dict', 'array']) for k in HOLDERS] + [dict(kinds=['dict', 'stream', 'field'], kind='stream'), dict(kinds=['dict', 'stream', 'array'], gens=True), dict(kinds=['annot', 'page', 'stream'])] + [dict(kinds=[a, b], out=2) for a in ['dict', 'stream nested', 'page'] for b in ['nested', 'field', 'annot']],
      'thorough': [dict(kinds=[a, b, d, 'array']) for a in HOLDERS for b in ('dict', 'stream', 'page') for d in ('nested', 'annot')] + [dict(kinds=['dict', b, 'array'], out=2) for b in HOLDERS]},
     'every graph of 2–4 objects with one or two references each'),
    ('changed', changed, {'quick': [dict(kinds=['dict', 'array'])], 'thorough': [dict(kinds=['dict', 'stream', 'array'])]}, 'one modification of any kind'),
]
