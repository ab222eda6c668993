"""Objects inside object streams are as reliable as plain ones."""
import pdfsyntax as p
from props.common import *
from props.pdffile import *


def object_stream(c, nums, texts, lead=b'', sep='space', gap='space', extra=None, order=None):
    """Data and /First of an object stream: separators of the table and of the objects are arbitrary white space."""
    def ws(n, k):
        if k == 'any':
            return c.bytes(n, 1, WS)
        if k == 'two':
            return c.bytes(n, 1, WS) + c.bytes(n + 'b', 1, WS)
        return {'space': b' ', 'newline': b'\n', 'crlf': b'\r\n', 'none': b''}[k]
    offs = {}
    body = b''
    for i in (order or range(len(nums))):
        offs[i] = len(body)
        body = body + texts[i] + ws(f'gap{i}', gap)
    head = lead
    for i, n in enumerate(nums):
        head = head + f'{n}'.encode('ascii') + ws(f'sepa{i}', sep if sep != 'newline' else 'space') + f'{offs[i]}'.encode('ascii') + ws(f'sepb{i}', sep)
    return head, body


def item(c, n, kind):
    if kind == 'int':
        v = c.int(n, 10, 99)
        return v, f'{v}'.encode('ascii')
    if kind == 'name':
        v = '/' + c.text(n, 2, LETTERS)
        return v, v.encode('ascii')
    if kind == 'string':
        v = b'(' + c.bytes(n, 2, PLAIN) + b')'
        return v, v
    if kind == 'hex':
        v = b'<' + c.bytes(n, 2, HEX) + b'>'
        return v, v
    if kind == 'dict':
        v = c.int(n, 10, 99)
        return {'/A': v, '/B': 5j}, b'<</A ' + f'{v}'.encode('ascii') + b'/B 5 0 R>>'
    if kind == 'list':
        v = c.bytes(n, 1, LETTERS)
        return [b'(' + v + b')', 3j, []], b'[(' + v + b')3 0 R[]]'
    if kind == 'null':
        return 'null', b'null'
    if kind == 'true':
        return True, b'true'
    raise ValueError(kind)


def layout(c, kinds, sep, gap, lead=b'', order=None, gapnum=1):
    """Parsing a stream of any layout gives the listed objects with their values."""
    vals, texts = [], []
    for i, k in enumerate(kinds):
        v, t = item(c, f'v{i}', k)
        vals.append(v)
        texts.append(t)
    nums = [3 + i * gapnum for i in range(len(kinds))]
    head, body = object_stream(c, nums, texts, lead, sep, gap, order=order)
    if gap == 'none' and kinds[-1] in ('int', 'name', 'null', 'true'):
        body = body + b''
    s = p.Stream({'/Type': '/ObjStm', '/N': len(kinds), '/First': len(head)}, head + body, head + body)
    r = p.parse_object_stream(s, 9)
    objs = r[3]
    c.same([(o[0], o[1]) for o in objs], list(zip(nums, vals)), 'objects and values')


ITEMS = ['int', 'dict', 'string', 'list']


def access(c, n, filt, numbers, gap='newline'):
    """Any order of accesses gives each object its value, through the file."""
    vals, texts = {}, {}
    for i in range(n):
        vals[numbers[i]], texts[numbers[i]] = item(c, f'v{i}', ITEMS[i % 4])
    w = Writer(kind='stream')
    head, body = object_stream(c, numbers, [texts[k] for k in numbers], gap=gap)
    d = {'/Type': '/ObjStm', '/N': n, '/First': len(head)}
    data = head + body
    if filt == 'hex':
        d['/Filter'] = '/ASCIIHexDecode'
        data = b''.join([b'%02X' % x for x in b'']) + hexed(data) + b'>'
    env = 30
    st = St(d, data)
    doc = loaded(c, page_objs(1), st, env, numbers)
    rest = list(numbers)
    while rest:
        k = c.choice(f'ask{len(rest)}', rest)
        rest = [x for x in rest if x != k]
        c.same(p.get_object(doc, complex(0, k)), vals[k], 'value')
    for k in numbers:
        c.same(p.get_object(doc, complex(0, k)), vals[k], 'asked again')


def large(c, n, revs):
    """Many embedded objects in several object streams, read in three orders after changes."""
    parts = []
    vals = {}
    first = 10
    for r in range(revs):
        nums = [first + r * 17 + (i * 13) % n for i in range(n)] #any order, and the next ones replace some of them
        texts = []
        for i, k in enumerate(nums):
            if i in (0, n // 2, n - 1):
                vals[k], t = item(c, f'v{r}.{k}', ITEMS[(i + r) % 4])
            else:
                vals[k] = [r * 1000 + k] if i % 3 else {'/K': r * 1000 + k, '/L': ['/P'] * (i % 9)}
                t = pt(vals[k])
            texts.append(t)
        head, body = object_stream(c, nums, texts, gap='newline')
        env = 300 + 2 * r
        st = St({'/Type': '/ObjStm', '/N': n, '/First': len(head)}, head + body)
        parts.append((page_objs(1) if r == 0 else {}, st, env, nums))
    doc = p.loads(built(parts))
    every = sorted(vals)
    k = c.choice('k', every[::7])
    i = every.index(k)
    c.same(p.get_object(doc, complex(0, k)), vals[k], 'first read')
    if c.flag('change'):
        doc = p.update_object(doc, every[i - 1], ['/New'])
        vals[every[i - 1]] = ['/New']
        doc = p.update_object(doc, every[(i + 2) % len(every)], None)
        vals[every[(i + 2) % len(every)]] = None
    for m in c.choice('order', [every, every[::-1], every[i:] + every[:i]]):
        c.same(p.get_object(doc, complex(0, m)), vals[m], 'read')
    if c.flag('write'):
        doc = p.loads(written(c, doc))
        for m in every:
            c.same(p.get_object(doc, complex(0, m)), vals[m], 'written')


def hexed(data):
    out = b''
    for x in data:
        out = out + bytes([b'0123456789ABCDEF'[x // 16], b'0123456789ABCDEF'[x % 16]])
    return out


def loaded(c, plain, st, env, numbers):
    """A file with a cross-reference stream and one object stream."""
    return p.loads(built([(plain, st, env, numbers)]))


def built(parts):
    """One revision per part, each with an object stream and a cross-reference stream."""
    out = b'%PDF-1.5\n'
    prev = None
    top = 0
    for plain, st, env, numbers in parts:
        objs = dict(plain)
        objs[env] = (0, st)
        entries = {0: (0, 0, 65535)} if prev is None else {}
        for k in sorted(objs):
            entries[k] = (1, len(out), 0)
            out = out + f'{k} 0 obj\n'.encode('ascii') + pt(objs[k][1]) + b'\nendobj\n'
        for rank, k in enumerate(numbers):
            entries[k] = (2, env, rank)
        pos = len(out)
        x = max([top] + list(entries)) + 1
        top = x
        entries[x] = (1, pos, 0)
        data = b''
        idx = []
        for k in sorted(entries):
            idx += [k, 1]
            t, a, b = entries[k]
            data = data + t.to_bytes(1, 'big') + a.to_bytes(2, 'big') + b.to_bytes(2, 'big')
        d = {'/Type': '/XRef', '/Size': x + 1, '/W': [1, 2, 2], '/Index': idx, '/Root': 1j}
        if prev is not None:
            d['/Prev'] = prev
        out = out + f'{x} 0 obj\n'.encode('ascii') + pt(St(d, data)) + b'\nendobj\n' + f'startxref\n{pos}\n%%EOF\n'.encode('ascii')
        prev = pos
    return out


def newest(c, n, revs, pending, kind='stream'):
    """Some objects of a stream are replaced or deleted by a newer revision or by pending modifications."""
    numbers = list(range(4, 4 + n))
    state, texts = {}, {}
    for k in numbers:
        state[k], texts[k] = item(c, f'v{k}', 'int' if k % 2 else 'dict')
    w = Writer(kind='stream')
    w.revision(page_objs(1), embedded=texts, env=20, xnum=21)
    for r in range(revs):
        objs, freed, emb = {}, [], {}
        for k in numbers[:2]:
            a = c.choice(f'act{r}.{k}', ['keep', 'replace', 'embed', 'free'] if state[k] is not None else ['keep', 'replace'])
            if a in ('replace', 'embed'):
                v, t = item(c, f'w{r}.{k}', 'list')
                state[k] = v
                if a == 'embed':
                    emb[k] = t
                else:
                    objs[k] = (0, t)
            elif a == 'free':
                state[k] = None
                freed.append((k, 1))
        w.revision(objs, freed=freed, embedded=emb or None, env=22 + 2 * r, xnum=23 + 2 * r, kind=kind if not emb else 'stream')
    doc = p.loads(w.out)
    for i in range(pending):
        k = c.choice(f'p{i}', numbers[:3])
        a = c.choice(f'pa{i}', ['read', 'update', 'delete'] if k in state and state[k] is not None else ['read', 'update'])
        if a == 'read':
            c.same(p.get_object(doc, complex(0, k)), state[k], 'read before')
        elif a == 'update':
            v = item(c, f'u{i}', 'name')[0]
            doc = p.update_object(doc, k, v)
            state[k] = v
        else:
            doc = p.update_object(doc, k, None)
            state[k] = None
    for k in c.choice('order', [numbers, numbers[::-1], numbers[1:] + numbers[:1]]):
        c.same(p.get_object(doc, complex(0, k)), state[k], 'newest state')
    for k in numbers:
        c.same(p.get_object(doc, complex(0, k)), state[k], 'newest state after all were read')
    c.same([int(r.imag) for r in p.in_use(doc) if 4 <= r.imag < 20], [k for k in numbers if state[k] is not None], 'objects in use')


def generations(c, kind):
    """Grouping into an object stream leaves every object with its value and its generation."""
    gen = c.int('gen', 0, 9)
    w = Writer(kind=kind)
    w.revision({**page_objs(1), 4: (0, b'[4]'), 5: (gen, b'[5]')}, xnum=7)
    doc = p.loads(w.out)
    a, b = c.int('a', 10, 99), c.int('b', 10, 99)
    doc = p.update_object(doc, 4, [a])
    doc = p.update_object(doc, 5, {'/B': b})
    doc = p.commit(p.force_xref_stream(p.group_obj_into_stream(doc)))
    new = p.loads(written(c, doc))
    for d in (doc, new):
        c.same([r for r in p.in_use(d) if r.imag in (4, 5)], [4j, complex(gen, 5)], 'numbers and generations')
        c.same(p.get_object(d, 4j), [a], 'object of generation 0')
        c.same(p.get_object(d, complex(gen, 5)), {'/B': b}, 'object of any generation')


def grouped(c, kinds, kind):
    """Neighbours of any kinds stay apart when the library writes them into one object stream."""
    w = Writer(kind=kind)
    w.revision({**page_objs(1), **{k: (0, b'[]') for k in range(4, 4 + len(kinds))}}, xnum=9)
    doc = p.loads(w.out)
    vals = {}
    for i, k in enumerate(kinds):
        vals[4 + i] = item(c, f'v{i}', k)[0]
        doc = p.update_object(doc, 4 + i, vals[4 + i])
    more = c.flag('more')
    if more:
        v = item(c, 'added', 'int')[0]
        doc, ref = p.add_object(doc, v)
        vals[int(ref.imag)] = v
    doc = p.commit(p.force_xref_stream(p.group_obj_into_stream(doc)))
    new = p.loads(written(c, doc))
    for d in (doc, new):
        for k in vals:
            c.same(p.get_object(d, complex(0, k)), vals[k], 'value')
        c.same(len([r for r in p.in_use(d) if int(r.imag) in vals]), len(vals), 'objects in use')


SCALARS = ['int', 'name', 'true', 'null', 'string', 'hex', 'dict', 'list']
SEP = ('space', 'newline', 'crlf', 'any', 'two')
CASES = [
    ('layout', layout, {'quick': [dict(kinds=['int', 'dict', 'int'], sep=s, gap=g) for s in ('space', 'any', 'two', 'crlf') for g in ('space', 'any', 'crlf')]
                        + [dict(kinds=k, sep='any', gap=g) for k in (['string', 'list'], ['name', 'int'], ['hex', 'null', 'true']) for g in ('any', 'two')]
                        + [dict(kinds=['dict', 'string', 'list', 'dict'], sep='space', gap='none')]
                        + [dict(kinds=['int', 'dict', 'string'], sep='space', gap='any', order=o) for o in ([2, 1, 0], [1, 2, 0])]
                        + [dict(kinds=['int'], sep='any', gap='none'), dict(kinds=['int', 'int'], sep='space', gap='any', lead=b'\n '), dict(kinds=['int'] * 12, sep='space', gap='space', gapnum=7), dict(kinds=[], sep='space', gap='space')],
                        'thorough': [dict(kinds=[a, b], sep=s, gap=g) for a in ('int', 'name', 'string', 'hex', 'dict', 'list', 'null', 'true') for b in ('int', 'string', 'dict') for s in SEP for g in ('any', 'two', 'newline')]},
     'up to four (once twelve) objects of symbolic contents, every separator of one or two white-space characters'),
    ('access', access, {'quick': [dict(n=3, filt=None, numbers=[4, 5, 6]), dict(n=3, filt='hex', numbers=[9, 5, 7]), dict(n=2, filt='hex', numbers=[40, 4], gap='any')], 'thorough': [dict(n=4, filt=f, numbers=[9, 5, 12, 7], gap=g) for f in (None, 'hex') for g in ('newline', 'any')]}, 'every order of accesses'),
    ('generations', generations, [dict(kind='table'), dict(kind='stream')], 'objects of generation 0 to 9 grouped into an object stream'),
    ('grouped', grouped, {'quick': [dict(kinds=k, kind=t) for k, t in ((['int', 'int', 'name'], 'table'), (['name', 'int', 'true'], 'stream'), (['true', 'null', 'int'], 'table'), (['hex', 'string', 'dict'], 'stream'))],
                            'thorough': [dict(kinds=[a, b], kind='stream') for a in SCALARS for b in SCALARS]}, 'two or three neighbours of any kinds written into one object stream'),
    ('large', large, [dict(n=40, revs=1), dict(n=20, revs=3), dict(n=70, revs=1)], 'up to 70 embedded objects, or three object streams of 20 objects in three revisions; some of symbolic contents'),
    ('newest', newest, {'quick': [dict(n=3, revs=1, pending=0), dict(n=3, revs=0, pending=2), dict(n=3, revs=1, pending=1, kind='stream'), dict(n=2, revs=1, pending=0, kind='table')], 'thorough': [dict(n=4, revs=1, pending=1), dict(n=3, revs=2, pending=0), dict(n=3, revs=0, pending=3)]}, 'every set of replaced, re-embedded and deleted objects, three orders of access'),
]
