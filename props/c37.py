"""The reverse index lists exactly the users of each object."""
import pdfsyntax as p
import pdfsyntax.cli as cli
from props.common import *
from props.pdffile import *
from props.c36 import direct

MISSING = 40


class Region:
    """A region of the file: an object (with its number) or a table (number 0)."""

    def __init__(self, num, key, refs, first, kind='IND_OBJ'):
        self.num, self.key, self.refs, self.first, self.kind = num, key, refs, first, kind
        self.last = None


class History:
    """Regions of a file written revision by revision, and the region that holds each object."""

    def __init__(self):
        self.regions = []
        self.now = {}
        self.rev = -1

    def begin(self):
        self.rev += 1

    def define(self, num, key, value):
        r = Region(num, key, [int(x.imag) for x in direct(value, None)], self.rev)
        self.regions.append(r)
        self.now[num] = r

    def free(self, num):
        self.now.pop(num, None)

    def table(self, pos, trailer):
        r = Region(0, pos, [int(x.imag) for x in direct(trailer, None)], self.rev, 'XREFTABLE')
        r.last = self.rev
        self.regions.append(r)

    def end(self):
        for r in self.now.values():
            r.last = self.rev


def shown(entry):
    """Users of an entry as a sorted list, by region."""
    return sorted([(n, k) for n, k in entry])


def judge(c, data, h):
    sections, index = cli.file_map(p.bdata_provider(data))
    cross = p.cross_map_index(sections, index)
    c.same(len(index), h.rev + 1, 'revisions')
    keys = {}     # key of the model -> key of the map
    for s in sections:
        if s[2] == 'XREFTABLE':
            keys['XREFTABLE', s[0]] = s[0]
        elif s[2] == 'IND_OBJ':
            if type(s[0]) is int:
                keys['IND_OBJ', s[0]] = s[0]
            else:
                keys['IND_OBJ', (s[1][0], s[1][2])] = s[0]
    c.same(len(keys), len(h.regions), 'number of regions')
    c.same(sorted(cross), sorted(keys.values()), 'one entry for each object and table')
    newest = h.rev
    for r in h.regions:
        c.check((r.kind, r.key) in keys, 'region of the file')
        num, rel, refs, users = cross[keys[r.kind, r.key]]
        c.same(num, r.num, 'object number')
        if r.last is None:
            c.same(rel, None, 'never current')
        else:
            c.check(rel is not None, 'related to the index')
            c.same((rel[0], rel[1]), (r.num, r.last), 'number and last revision')
        c.same(sorted({int(x.imag) for x in refs}), sorted(set(r.refs)), 'what the region refers to')
        want = []
        if r.kind == 'IND_OBJ' and h.now.get(r.num) is r:
            for u in h.regions:
                if (u.kind == 'XREFTABLE' and u.last == newest or u.kind == 'IND_OBJ' and h.now.get(u.num) is u) and r.num in u.refs:
                    want.append((u.num, keys[u.kind, u.key]))
        c.same(shown(users), sorted(want), 'users')


def a_value(c, n, i, targets, refs=1, kind=None):
    """A value that holds references, maybe several times the same."""
    kind = kind or c.choice(n + '.kind', ['dict', 'array', 'stream'] if i % 2 else ['array', 'twice'])
    rs = [complex(0, c.choice(f'{n}.{k}', targets)) for k in range(refs)]
    if kind == 'dict':
        return {'/A': [{'/B': r} for r in rs], '/V': 7}
    if kind == 'array':
        return rs + [7]
    if kind == 'twice':
        return [rs[0], {'/Parent': rs[0], '/B': [rs]}]
    return St({f'/A{k}': r for k, r in enumerate(rs)}, b'x')


class Book:
    """A Writer and the history of what it writes."""

    def __init__(self, **k):
        self.w = Writer(**k)
        self.h = History()

    def revision(self, objs, freed=(), kind='table', xnum=None, embedded=None, env=None, extra=None):
        h, w = self.h, self.w
        h.begin()
        w.revision(objs, [(n, 1) for n in freed], kind=kind, xnum=xnum, embedded={k: pt(v) for k, v in (embedded or {}).items()}, env=env, extra=extra)
        for n, (g, v) in objs.items():
            h.define(n, w.pos[n], v)
        if embedded:
            f = w.out
            pos = f.rfind(f'\n{env} 0 obj\n'.encode('ascii')) + 1
            h.define(env, pos, None)
            for i, n in enumerate(embedded):
                h.define(n, (pos, i), embedded[n])
        for n in freed:
            h.free(n)
        trailer = {'/Root': w.root, **w.extra, **(extra or {})}
        if kind == 'table':
            h.table(w.sections[-1], trailer)
        else:
            h.define(xnum, w.sections[-1], trailer)
        h.end()


def books(c, kinds, pool=2, refs=1, info=False, values=(None, None, None)):
    """Objects whose references and changes over the revisions are arbitrary."""
    b = Book(trailer={'/Info': 10j} if info else None)
    nums = [10 + 2 * i for i in range(pool)]
    targets = nums + [3, MISSING]
    live = set()
    for r, kind in enumerate(kinds):
        objs = page_objs(1) if r == 0 else {}
        freed = []
        emb = {}
        for i, n in enumerate(nums):
            act = c.choice(f'act{r}.{n}', ['none', 'define'] + (['free'] if n in live else [])) if r else 'define'
            if act == 'define':
                v = a_value(c, f'v{r}.{n}', i, targets if values[r] is None else nums + [MISSING], refs, values[r])
                live.add(n)
                if kind == 'embedded' and not isinstance(v, St):
                    emb[n] = v
                else:
                    objs[n] = (0, v)
            elif act == 'free':
                freed.append(n)
                live.discard(n)
        b.revision(objs, freed, 'table' if kind == 'table' else 'stream', 20 + r, emb, 30 + r)
    judge(c, b.w.out, b.h)


def linear(c, updates, kind):
    """A linearized file: two sections in the first revision."""
    targets = [2, 6, 4]
    v1, v2 = [complex(0, c.choice('first', targets))], {'/A': complex(0, c.choice('second', targets))}
    out, pos, x1, main = linearized_file(pt(v1), pt(v2))
    h = History()
    h.begin()
    h.define(5, pos[5], None)
    h.define(3, pos[3], 1j)
    h.define(4, pos[4], 1j)
    h.define(6, pos[6], v1)
    h.define(1, pos[1], 4j)
    h.define(2, pos[2], v2)
    h.table(x1, 3j)
    h.table(main, None)
    h.end()
    b = Book(root=3j)
    b.h = h
    b.w.out, b.w.first, b.w.prev, b.w.size = out, False, x1, 7
    for r in range(updates):
        objs = {}
        for n in (2, 6):
            if c.flag(f'update{r}.{n}'):
                objs[n] = (0, [complex(0, c.choice(f'v{r}.{n}', targets))])
        b.revision(objs, kind=kind, xnum=20 + r)
    judge(c, b.w.out, b.h)


def unindexed(c, kind):
    """An object that no section mentions uses nothing and is related to no revision."""
    b = Book()
    w, h = b.w, b.h
    stray = [complex(0, c.choice('stray', [3, 10, 12])), c.int('v', 10, 99)]
    pos = len(w.out)
    w.out = w.out + f'12 0 obj\n'.encode('ascii') + pt(stray) + b'\nendobj\n'
    r = Region(12, pos, [int(x.imag) for x in direct(stray, None)], 0)
    h.regions.append(r)
    objs = page_objs(1)
    objs[10] = (0, [complex(0, c.choice('to', [3, 10, 12]))])
    if c.flag('defined elsewhere'):
        objs[12] = (0, {'/X': 10j})
    b.revision(objs, kind=kind, xnum=20)
    judge(c, w.out, h)


def library(c, kind, ops):
    """Files written by the library: the users found by reading all objects."""
    from props.session import Session
    s = Session(c, kind, b'')
    for op in ops:
        if op == 'link':
            n = c.choice(f'holder{s.step}', [m for m in s.subjects()])
            s.step += 1
            s.doc = p.update_object(s.doc, n, [complex(0, c.choice(f'target{s.step}', [3, 4]))])
        else:
            s.do([op])
    out = written(c, s.doc)
    sections, index = cli.file_map(p.bdata_provider(out))
    cross = p.cross_map_index(sections, index)
    doc = p.loads(out)
    users = {}
    for r in p.in_use(doc):
        v = p.get_object(doc, r)
        v = v['entries'] if type(v) is p.Stream else v
        for x in set(int(y.imag) for y in direct(v, None)):
            users.setdefault(x, []).append(int(r.imag))
    rev = len(index) - 1
    last = [s[3]['trailer'] for s in sections if s[2] == 'XREFTABLE' and cross[s[0]][1] is not None and cross[s[0]][1][1] == rev]
    for t in last:
        for x in set(int(y.imag) for y in direct(t, None)):
            users.setdefault(x, []).append(0)
    got = {}
    for key in cross:
        num, rel, refs, us = cross[key]
        if num and rel == (num, rev):
            c.check(num not in got, 'one current region for an object')
            got[num] = us
            c.same(sorted([u for u, _ in us]), sorted(users.get(num, [])), 'users')
            for u, k in us:
                c.check(k in cross and cross[k][0] == u and cross[k][1] is not None and cross[k][1][1] == rev, 'region of the user')
        else:
            c.same(us, [], 'no users of what is not current')
    c.same(sorted(got), sorted([int(r.imag) for r in p.in_use(doc)]), 'objects of the newest revision')


V = ('array', 'twice', 'dict')
CASES = [
    ('books', books,
     {'quick': [dict(kinds=['table']), dict(kinds=['stream']), dict(kinds=['embedded']), dict(kinds=['table', 'table'], values=V), dict(kinds=['stream', 'stream'], values=V), dict(kinds=['embedded', 'embedded'], values=V), dict(kinds=['table', 'embedded'], values=V), dict(kinds=['table'], pool=3, info=True), dict(kinds=['table'], pool=2, refs=2)],
      'thorough': [dict(kinds=[a, b]) for a in ('table', 'embedded') for b in ('table', 'stream', 'embedded')] + [dict(kinds=[a, b, 'table'], values=V) for a in ('table', 'embedded') for b in ('table', 'stream', 'embedded')] + [dict(kinds=['table', 'embedded'], pool=3, values=V), dict(kinds=['embedded'], pool=3, refs=2)]},
     '1–3 revisions of 2–3 objects with 1–2 references, freed and defined again'),
    ('linear', linear, [dict(updates=u, kind=k) for u, k in ((0, 'table'), (1, 'table'), (1, 'stream'))], 'linearized files with up to one update'),
    ('unindexed', unindexed, [dict(kind=k) for k in ('table', 'stream')], 'one object outside the index'),
    ('updated files of other layouts', library, [dict(kind=k, ops=['link', 'commit', 'link']) for k in ('linear', 'linear2', 'linearstream', 'linearstream2', 'hybrid', 'hybrid2', 'hybrid3', 'packed2')], 'linearized and hybrid files with up to three updates'),
    ('library', library, [dict(kind=k, ops=o) for k in ('table', 'stream', 'embedded', 'mixed') for o in (['link'], ['link', 'commit', 'link'], ['delete', 'commit', 'link'])]
     + [dict(kind=k, ops=o) for k, o in (('deep', ['link', 'commit', 'link', 'delete', 'commit', 'link']), ('deepstream', ['link', 'commit', 'link', 'delete', 'commit', 'link']), ('manytable', ['link', 'commit', 'delete']), ('manystream', ['link', 'commit', 'delete']))], 'files written after the listed operations'),
]
