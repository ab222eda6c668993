"""Every hyperlink of the HTML view leads to what it names."""
import pdfsyntax as p
from props.common import *
from props.pdffile import *
from props.c31 import view, tokens, plain
from props.c36 import direct
from props.c37 import MISSING, Region, History, a_value

VOIDS = ('meta', 'br', 'link', 'img', 'hr')


class Block:
    """A block of the page: its header and body links."""

    def __init__(self):
        self.links = []


def attribute(tag, name):
    i = tag.find(f' {name}="')
    if i < 0:
        return None
    i += len(name) + 3
    return tag[i:tag.find('"', i)]


class Page:
    """Blocks, anchors and links of an HTML page."""

    def __init__(self, c, text):
        self.blocks = []
        self.nav = []
        self.anchors = {}
        self.where = {}
        stack = []
        current = None
        href = None
        label = ''
        for kind, t in tokens(text):
            if kind == 'text':
                if href is not None:
                    label = label + plain(t)
                continue
            c.same(kind, 'tag', 'complete tag')
            if t[1:2] == '!':
                continue
            closing = t[1:2] == '/'
            name = t[2:-1] if closing else t[1:-1].split(' ')[0]
            if closing:
                c.check(stack and stack[-1][0] == name, f'{t} closes the innermost element')
                _, opened = stack.pop()
                if opened is not None:
                    current = None
                if name == 'a' and href is not None:
                    (current.links if current is not None else self.nav).append((href, label, any([n == 'em' for n, _ in stack])))
                    href = None
                continue
            opened = None
            i = attribute(t, 'id')
            if name == 'div' and attribute(t, 'class') == 'block':
                c.check(current is None, 'blocks are not nested')
                current = opened = Block()
                self.blocks.append(current)
            if i is not None:
                c.check(i not in self.anchors, f'anchor {i} is unique')
                self.anchors[i] = len(self.blocks) - 1 if current is not None else i
            if name == 'a':
                href, label = attribute(t, 'href'), ''
                if href is None or href[:1] != '#':
                    href = None
            if name not in VOIDS:
                stack.append((name, opened))
        c.same([x for x, _ in stack], [], 'all elements are closed')

    def resolve(self, href):
        return self.anchors.get(href[1:])


class Book:
    """A file, its regions in order and what its links should be."""

    def __init__(self, header=b'%PDF-1.4\n', trailer=None):
        self.w = Writer(header, trailer=trailer)
        self.h = History()
        self.order = ['comment']           # kinds of blocks: comment, startxref (target) or a Region
        self.rows = {}                     # table region -> links of its entries

    def revision(self, objs, freed=(), kind='table', xnum=None, embedded=None, env=None, extra=None, zero=None):
        h, w = self.h, self.w
        h.begin()
        prev = self.sec if h.rev else None
        w.revision(objs, [(n, 1) for n in freed], kind=kind, xnum=xnum, embedded={k: pt(v) for k, v in (embedded or {}).items()}, env=env, extra=extra, zero=zero)
        rows = []
        for n, (g, v) in objs.items():
            h.define(n, w.pos[n], v)
            self.order.append(h.regions[-1])
            rows.append((n, h.regions[-1]))
        if embedded:
            pos = w.out.rfind(f'\n{env} 0 obj\n'.encode('ascii')) + 1
            h.define(env, pos, None)
            self.order.append(h.regions[-1])
            rows.append((env, h.regions[-1]))
            for i, n in enumerate(embedded):
                h.define(n, (pos, i), embedded[n])
                self.order.append(h.regions[-1])
                rows.append((n, h.regions[-1]))
        for n in freed:
            h.free(n)
        trailer = {'/Root': w.root, **w.extra, **(extra or {})}
        if kind == 'table':
            h.table(w.sections[-1], trailer)
        else:
            h.define(xnum, w.sections[-1], trailer)
            rows.append((xnum, h.regions[-1]))
        self.sec = h.regions[-1]
        self.sec.prev = prev
        self.order.append(self.sec)
        self.rows[self.sec] = sorted(rows, key=lambda r: r[0])
        self.order.append(('startxref', self.sec))
        self.order.append('comment')
        self.snapshot = dict(h.now)
        h.end()
        for r in h.now.values():
            r.scope = self.snapshot
        if kind == 'table':
            self.sec.scope = self.snapshot


def judge(c, b, pages=(3,), root=2):
    page = Page(c, view(c, b.w.out, 'f.pdf'))
    h = b.h
    c.same(len(page.blocks), len(b.order), 'one block for each region')
    place = {r: i for i, r in enumerate(b.order) if isinstance(r, Region)}

    def goes(href, r, msg):
        c.same(page.resolve(href), None if r is None else place[r], msg)

    for i, (x, blk) in enumerate(zip(b.order, page.blocks)):
        if x == 'comment':
            c.same(blk.links, [], 'links of a comment')
            continue
        if isinstance(x, tuple):
            c.same(len(blk.links), 0 if x[1] is None else 1, 'links of startxref')
            if x[1] is None:
                continue
            goes(blk.links[0][0], x[1], 'startxref')
            continue
        users, rows, refs, prevs = [], [], [], []
        for href, label, em in blk.links:
            if em:
                users.append((href, label))
            elif label[-1] == 'R':
                refs.append((href, label))
            elif label[0] == '#':
                rows.append((href, label))
            else:
                prevs.append((href, label))
        # references
        c.same(sorted([int(t.split(' ')[0]) for _, t in refs]), sorted(x.refs), 'references of the region')
        scope = getattr(x, 'scope', h.now)
        for href, t in refs:
            goes(href, scope.get(int(t.split(' ')[0])), f'reference {t}')
        # users
        want = []
        if x.kind == 'IND_OBJ' and h.now.get(x.num) is x:
            for u in h.regions:
                if (u.kind == 'XREFTABLE' and u.last == h.rev or u.kind == 'IND_OBJ' and h.now.get(u.num) is u) and x.num in u.refs:
                    want.append((str(u.num) if u.num else 'trailer', place[u]))
        c.same(sorted([(t, page.resolve(href)) for href, t in users]), sorted(want), 'used in')
        # entries
        c.same([(t.split(' ')[0], page.resolve(href)) for href, t in rows], [(f'#{n}', place[r]) for n, r in b.rows.get(x, [])], 'entries')
        # previous section
        prev = getattr(x, 'prev', None)
        c.same([page.resolve(href) for href, t in prevs], [] if prev is None else [place[prev]], 'previous section')
    got = [(t, href) for href, t, _ in page.nav]
    regs = [r for r in b.order if isinstance(r, Region)]
    c.same([t for t, _ in got], [str(i + 1) for i in range(len(pages))] + [str(r.num) if r.num else 'xref' for r in regs] + ['Beginning', 'End of file'], 'navigation')
    for i, n in enumerate(pages):
        goes(got[i][1], h.now[n], f'page {i + 1}')
    for r, (t, href) in zip(regs, got[len(pages):]):
        goes(href, r, 'minimap')
    c.same(page.resolve(got[-2][1]), 0, 'beginning')
    c.same(page.resolve(got[-1][1]), 'end', 'end of file')


def history(c, kinds, pool=2, refs=1, values=None, pages=1, info=False, page=False, stale=False):
    """Objects whose references and changes over the revisions are arbitrary."""
    b = Book(trailer={'/Info': 10j} if info else None)
    nums = [10 + 2 * i for i in range(pool)]
    targets = nums + [3, MISSING]
    live = set()
    for r, kind in enumerate(kinds):
        objs = page_objs(pages) if r == 0 else {}
        freed = []
        emb = {}
        if page and r and c.flag(f'page{r}'):
            v = {'/Type': '/Page', '/Parent': 2j, '/MediaBox': [0, 0, 9, 9], '/Version': c.int(f'page.v{r}', 10, 99)}
            if kind == 'embedded':
                emb[3] = v
            else:
                objs[3] = (0, v)
        elif page and r == 0 and kind == 'embedded':
            emb[3] = objs.pop(3)[1]
        for i, n in enumerate(nums):
            act = c.choice(f'act{r}.{n}', ['none', 'define'] + (['free'] if n in live else [])) if r else 'define'
            if act == 'define':
                v = a_value(c, f'v{r}.{n}', i, targets if r == 0 else nums + [MISSING], refs, values)
                live.add(n)
                if kind == 'embedded' and not isinstance(v, St):
                    emb[n] = v
                else:
                    objs[n] = (0, v)
            elif act == 'free':
                freed.append(n)
                live.discard(n)
        b.revision(objs, freed, 'table' if kind == 'table' else 'stream', 20 + r, emb, 30 + r)
    judge(c, b, pages=[3 + i for i in range(pages)])


def linear(c, updates, kind):
    """A linearized file: two sections in the first revision."""
    targets = [2, 6, 4]
    v1, v2 = [complex(0, c.choice('first', targets))], {'/A': complex(0, c.choice('second', targets))}
    out, pos, x1, main = linearized_file(pt(v1), pt(v2))
    b = Book()
    h = b.h
    h.begin()
    for n, v in ((5, None), (3, 1j), (4, 1j), (6, v1), (1, 4j), (2, v2)):
        h.define(n, pos[n], v)
    by = dict(h.now)
    h.table(x1, 3j)
    t1 = h.regions[-1]
    h.table(main, None)
    t2 = h.regions[-1]
    t1.prev = t2
    for r in list(by.values()) + [t1, t2]:
        r.scope = by
    h.end()
    b.rows = {t1: [(n, by[n]) for n in (3, 4, 5, 6)], t2: [(n, by[n]) for n in (1, 2)]}
    b.order = ['comment', by[5], t1, ('startxref', None), 'comment', by[3], by[4], by[6], by[1], by[2], t2, ('startxref', t1), 'comment']
    b.sec = t1
    b.w.root = 3j
    b.w.out, b.w.first, b.w.prev, b.w.size = out, False, x1, 7
    for r in range(updates):
        objs = {}
        for n in (2, 6):
            if c.flag(f'update{r}.{n}'):
                objs[n] = (0, [complex(0, c.choice(f'v{r}.{n}', targets))])
        b.revision(objs, kind=kind, xnum=20 + r)
    judge(c, b, pages=(4,))


def unindexed(c, kind, n):
    """Objects that no section mentions have anchors and links of their own."""
    b = Book()
    w, h = b.w, b.h
    for i in range(n):
        stray = [complex(0, c.choice(f'stray{i}', [3, 10, 12])), c.int(f'v{i}', 10, 99)]
        pos = len(w.out)
        w.out = w.out + f'12 0 obj\n'.encode('ascii') + pt(stray) + b'\nendobj\n'
        r = Region(12, pos, [int(x.imag) for x in direct(stray, None)], 0)
        h.regions.append(r)
        b.order.append(r)
    objs = page_objs(1)
    objs[10] = (0, [complex(0, c.choice('to', [3, 10, 12]))])
    if c.flag('defined elsewhere'):
        objs[12] = (0, {'/X': 10j})
    b.revision(objs, kind=kind, xnum=20)
    judge(c, b)


def rows(c, kind, width=2):
    """Entries of a section that point anywhere: their links name the position they give."""
    w = Writer()
    objs = page_objs(1)
    w.revision(objs)
    first = w.sections[-1]
    pos = c.int('pos', 10 ** (width - 1), 10 ** width - 1)
    gen = c.int('gen', 0, 9)
    use = c.choice('use', ['n', 'f'])
    c.assume(pos < len(w.out))
    start = len(w.out)
    if kind == 'table':
        w.out = w.out + b'xref\n30 1\n' + f'{pos:010d} {gen:05d} {use} \n'.encode('ascii') + b'trailer\n' + pt({'/Size': 31, '/Root': 1j, '/Prev': first}) + b'\n'
    else:
        data = {'f': b'\0', 'n': b'\1'}[use] + pos.to_bytes(3, 'big') + gen.to_bytes(1, 'big') + b'\1' + start.to_bytes(3, 'big') + b'\0'
        w.out = w.out + b'31 0 obj\n' + pt(St({'/Type': '/XRef', '/W': [1, 3, 1], '/Index': [30, 2], '/Size': 32, '/Root': 1j, '/Prev': first}, data)) + b'\nendobj\n'
    w.out = w.out + f'startxref\n{start}\n%%EOF\n'.encode('ascii')
    page = Page(c, view(c, w.out, 'f.pdf'))
    got = [(t, h) for t, h in [(t, h) for blk in page.blocks for h, t, _ in blk.links] if t[0:3] == '#30']
    if use == 'f':
        return c.same(got, [], 'a free entry leads nowhere')
    c.same(len(got), 1, 'one link')
    c.same(got[0][0], f'#30 {gen}', 'number and generation')
    want = None
    for r, at in [(i, o) for i, o in enumerate(w.pos)]:
        if pos == w.pos[at]:
            want = 1 + r
    if pos == first:
        want = 4
    if pos == start:
        want = 7
    if want is None:
        c.same(got[0][1], f'#idx{pos}', 'a link to the position')
    else:
        c.same(page.resolve(got[0][1]), want, 'the object at this position')


def library(c, kind, ops):
    """Files written by the library: the references of every object lead to the objects of its revision."""
    import pdfsyntax.cli as cli
    from props.session import Session
    s = Session(c, kind, b'')
    for op in ops:
        if op == 'link':
            n = c.choice(f'holder{s.step}', [m for m in s.subjects()])
            s.step += 1
            s.doc = p.update_object(s.doc, n, [complex(0, c.choice(f'target{s.step}', [3, 4]))])
        else:
            s.do([op])
    out = written(c, s.doc)
    state = {}
    last = {}
    states = []
    base = s.marks[0] if kind.startswith(('linear', 'hybrid')) else 0
    sections = read_strict(out, base)
    for pos, entries, root, num in sections:
        state = {**state, **entries}
        now = {n: ('n', e[1]) if e[0] == 'n' else ('e', state[e[1]][1], e[2]) for n, e in state.items() if e[0] != 'f'}
        states.append(now)
        for n, k in now.items():
            last[k] = len(states) - 1
        if num is None:
            last['n', pos] = len(states) - 1
    for k in last:  # the sections of the original file make one revision
        last[k] = max(last[k], len([x for x in sections if x[0] < base]) - 1)
    page = Page(c, view(c, out, 'f.pdf'))
    m = [x for x in p.file_object_map(p.bdata_provider(out)) if x[2] not in ('VOID', 'XREFSTREAM')]
    c.same(len(page.blocks), len(m), 'one block for each region')
    keys = [('n', x[0]) if type(x[0]) is int else ('e', x[1][0], x[1][2]) for x in m]
    place = {k: i for i, k in enumerate(keys)}
    for x, k, blk in zip(m, keys, page.blocks):
        if x[2] in ('COMMENT', 'STARTXREF') or k not in last:
            continue
        now = states[last[k]]
        v = x[3]['trailer'] if x[2] == 'XREFTABLE' else x[3]['obj']
        v = v['entries'] if type(v) is p.Stream else v
        labels = []
        for href, label, em in blk.links:
            if label[-1] == 'R':
                labels.append(label)
                n = int(label.split(' ')[0])
                c.same(page.resolve(href), place[now[n]] if n in now else None, 'reference')
            elif label[0] == '#':
                n = int(label[1:].split(' ')[0])
                sec = [i for i, t in enumerate(sections) if t[0] == x[0]]
                if sec:
                    e = sections[sec[0]][1][n]
                    c.check(e[0] != 'f', 'no link for a free object')
                    c.same(page.resolve(href), place[states[sec[0]][n]], 'entry')
            elif not em:
                c.same(page.resolve(href), place['n', int(label)], 'position')
        c.same(sorted(labels), sorted([f'{int(r.imag)} {int(r.real)} R' for r in direct(v, None)]), 'references of the region')
    tree = p.flat_page_tree(p.loads(out))
    for i, (ref, _) in enumerate(tree):
        href, label, _ = page.nav[i]
        c.same(label, str(i + 1), 'page number')
        c.same(page.resolve(href), place[states[-1][int(ref.imag)]], 'page')
    i = len(tree)
    for x, k in zip(m, keys):
        if x[2] in ('IND_OBJ', 'XREFTABLE'):
            c.same(page.resolve(page.nav[i][0]), place[k], 'minimap')
            i += 1
    c.same(len(page.nav), i + 2, 'navigation')


V = 'twice'
CASES = [
    ('history', history,
     {'quick': [dict(kinds=['table']), dict(kinds=['stream']), dict(kinds=['embedded']), dict(kinds=['table', 'stream'], values=V), dict(kinds=['stream', 'table'], pool=1), dict(kinds=['embedded', 'embedded'], pool=1, page=True, values=V), dict(kinds=['table', 'embedded'], page=True, pool=1, values='dict'), dict(kinds=['table', 'table', 'table'], pool=1, values=V, page=True), dict(kinds=['table'], pages=3, info=True), dict(kinds=['table'], refs=2, pool=1)],
      'thorough': [dict(kinds=[a, b]) for a in ('table', 'embedded') for b in ('table', 'stream', 'embedded')] + [dict(kinds=[a, b, d], values=V, pool=1, page=True) for a in ('table', 'embedded') for b in ('table', 'stream', 'embedded') for d in ('table', 'embedded')] + [dict(kinds=['table'], pages=12, info=True), dict(kinds=['embedded', 'embedded'], page=True, values=V)]},
     '1–3 revisions of 1–2 objects with 1–2 references, freed and defined again, pages redefined'),
    ('linear', linear, [dict(updates=u, kind=k) for u, k in ((0, 'table'), (1, 'table'), (1, 'stream'))], 'linearized files with up to one update'),
    ('unindexed', unindexed, [dict(kind=k, n=n) for k in ('table', 'stream') for n in (1, 2)], 'one or two objects outside the index'),
    ('rows', rows, {'quick': [dict(kind=k, width=w) for k in ('table', 'stream') for w in (2, 3)], 'thorough': [dict(kind=k, width=w) for k in ('table', 'stream') for w in (2, 3, 5)]}, 'an entry with any position of 2, 3 or 5 digits'),
    ('updated files of other layouts', library, [dict(kind=k, ops=['link', 'commit', 'link']) for k in ('linear', 'linear2', 'linearstream', 'linearstream2', 'hybrid', 'hybrid2', 'hybrid3', 'packed2')], 'linearized and hybrid files with up to three updates'),
    ('library', library, [dict(kind=k, ops=o) for k in ('table', 'stream', 'embedded', 'mixed') for o in (['link'], ['link', 'commit', 'link'], ['delete', 'commit', 'link'])]
     + [dict(kind=k, ops=o) for k, o in (('deep', ['link', 'commit', 'link', 'delete', 'commit', 'link']), ('deepstream', ['link', 'commit', 'link', 'delete', 'commit', 'link']), ('manytable', ['link', 'commit', 'delete']), ('manystream', ['link', 'commit', 'delete']))], 'files written after the listed operations'),
]
