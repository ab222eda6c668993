"""An independent writer and an independent strict reader of PDF files, shared by the harnesses.

Nothing here calls the code under test. Bodies may hold symbolic bytes; their lengths are concrete, so that
positions are concrete too.
"""
import zlib
from props.common import *


def pt(o):
    """PDF text of a value (independent of pdfsyntax.serialize)."""
    if isinstance(o, bool):
        return b'true' if o else b'false'
    if isinstance(o, int):
        return f'{o}'.encode('ascii')
    if isinstance(o, float):
        return f'{o}'.encode('ascii')
    if isinstance(o, str):
        return o.encode('ascii')
    if isinstance(o, complex):
        return f'{int(o.imag)} {int(o.real)} R'.encode('ascii')
    if isinstance(o, bytes):
        return o
    if isinstance(o, list):
        r = b'['
        for i, x in enumerate(o):
            if i:
                r = r + b' '
            r = r + pt(x)
        return r + b']'
    if isinstance(o, dict):
        r = b'<<'
        for k in o:
            r = r + k.encode('ascii') + b' ' + pt(o[k])
            r = r + b' '
        return r + b'>>'
    if isinstance(o, St):
        d = dict(o.d)
        d['/Length'] = len(o.data)
        return pt(d) + b'\nstream\n' + o.data + b'\nendstream'
    raise TypeError(type(o))


class St:
    """A stream: dictionary and raw data."""

    def __init__(self, d, data):
        self.d = d
        self.data = data


class Writer:
    """Builds a file revision by revision."""

    def __init__(self, header=b'%PDF-1.4\n', root=1j, kind='table', trailer=None, big=False):
        self.out = header
        self.root = root
        self.kind = kind
        self.extra = dict(trailer or {})
        self.prev = None
        self.size = 1
        self.first = True
        self.big = big
        self.packed = False
        self.full = False
        self.line = b'\n'        # end of a line
        self.entry = b' \n'      # end of an entry of a table
        self.glue = b'\n'        # between a keyword and the value that follows
        self.all = {}
        self.pos = {}
        self.sections = []
        self.ends = []

    def revision(self, objs, freed=(), embedded=None, env=None, kind=None, xnum=None, sep=b' ', zero=None, first_sep=b'\n', tail=b'', eof=b'%%EOF\n', extra=None, listing=None):
        """objs: {num: (gen, value)}; freed: [(num, next generation)]; embedded: {num: value} put in object stream env.

        listing: order in which the objects are laid out in the file (table entries are always sorted)."""
        kind = kind or self.kind
        entries = {}
        for num in (listing or list(objs)):
            gen, val = objs[num]
            entries[num] = ('n', len(self.out), gen)
            self.pos[num] = len(self.out)
            self.out = self.out + f'{num} {gen} obj'.encode('ascii') + self.glue + pt(val) + self.line + b'endobj' + self.line
        if embedded:
            head = b''
            body = b''
            for rank, num in enumerate(embedded):
                head = head + f'{num} {len(body)}'.encode('ascii') + sep
                body = body + pt(embedded[num]) + sep
                entries[num] = ('e', env, rank)
            head = head + first_sep
            s = St({'/Type': '/ObjStm', '/N': len(embedded), '/First': len(head)}, head + body)
            entries[env] = ('n', len(self.out), 0)
            self.out = self.out + f'{env} 0 obj\n'.encode('ascii') + pt(s) + b'\nendobj\n'
        for num, gen in freed:
            entries[num] = ('f', 0, gen)
        if self.first or zero:
            entries[0] = ('f', 0, 65535)
        start = len(self.out)
        if kind == 'stream':
            entries[xnum] = ('n', start, 0)
        self.all = {**self.all, **entries}
        if self.full and kind == 'stream': # every object again, without /Index
            entries = {n: self.all.get(n, ('f', 0, 0)) for n in range(max(self.all) + 1)}
        nums = sorted(entries)
        self.size = max([self.size] + [n + 1 for n in nums])
        d = {'/Size': self.size, '/Root': self.root}
        d.update(self.extra)
        d.update(extra or {})
        if self.prev is not None:
            d['/Prev'] = self.prev
        if kind == 'table':
            t = b'xref' + self.line
            i = 0
            if not nums:
                t = t + b'0 0\n'
            while i < len(nums):
                j = i
                while j + 1 < len(nums) and nums[j + 1] == nums[j] + 1:
                    j += 1
                t = t + f'{nums[i]} {j - i + 1}'.encode('ascii') + self.line
                for n in nums[i:j + 1]:
                    k, a, b = entries[n]
                    t = t + f'{a:010d} {b:05d} {k}'.encode('ascii') + self.entry
                i = j + 1
            self.out = self.out + t + b'trailer' + self.glue + pt(d) + self.line
        else:
            w = [1, 2, 2]
            idx = []
            data = b''
            for n in nums:
                if idx and idx[-2] + idx[-1] == n:
                    idx[-1] += 1
                else:
                    idx += [n, 1]
                k, a, b = entries[n]
                data = data + {'f': b'\x00', 'n': b'\x01', 'e': b'\x02'}[k] + a.to_bytes(2, 'big') + b.to_bytes(2, 'big')
            d['/Type'] = '/XRef'
            d['/W'] = w
            if not self.full:
                d['/Index'] = idx
            if self.packed:
                d['/Filter'] = '/FlateDecode'
                d['/DecodeParms'] = {'/Columns': 5, '/Predictor': 12}
                up = bytes(5) + data
                data = zlib.compress(b''.join(b'\x02' + bytes((up[i + 5] - up[i]) % 256 for i in range(r, r + 5)) for r in range(0, len(data), 5)))
            self.out = self.out + f'{xnum} 0 obj\n'.encode('ascii') + pt(St(d, data)) + b'\nendobj\n'
        self.sections.append(start)
        self.out = self.out + tail + b'startxref' + self.line + f'{start}'.encode('ascii') + self.line + eof
        self.ends.append(len(self.out))
        self.prev = start
        self.first = False
        return self


def page_objs(n=1, extra=None):
    """A catalog (1), a page tree root (2) and n pages (3...)."""
    r = {1: (0, {'/Type': '/Catalog', '/Pages': 2j}),
         2: (0, {'/Type': '/Pages', '/Kids': [complex(0, 3 + i) for i in range(n)], '/Count': n})}
    for i in range(n):
        r[3 + i] = (0, {'/Type': '/Page', '/Parent': 2j, '/MediaBox': [0, 0, 9, 9]})
    return r


def section(entries, trailer):
    """A cross-reference table whose entries are (num, position, gen, keyword), in subsections of consecutive numbers."""
    t = b'xref\n'
    i = 0
    while i < len(entries):
        j = i
        while j + 1 < len(entries) and entries[j + 1][0] == entries[j][0] + 1:
            j += 1
        t = t + f'{entries[i][0]} {j - i + 1}\n'.encode('ascii')
        for n, a, b, k in entries[i:j + 1]:
            t = t + f'{a:010d} {b:05d} {k} \n'.encode('ascii')
        i = j + 1
    return t + b'trailer\n' + pt(trailer) + b'\n'


def linearized_file(t1, t2):
    """A linearized file: text, positions of objects, position of the first section, and of the second."""
    # objects 1 2 in the main part (at the end), 3.. in the first part
    def build(main_pos):
        out = b'%PDF-1.4\n'
        pos = {}
        head = [(5, {'/Linearized': 1, '/L': 999})]
        first = [(3, {'/Type': '/Catalog', '/Pages': 1j}), (4, {'/Type': '/Page', '/Parent': 1j, '/MediaBox': [0, 0, 9, 9]}), (6, t1)]
        for n, o in head:
            pos[n] = len(out)
            out = out + f'{n} 0 obj\n'.encode('ascii') + pt(o) + b'\nendobj\n'
        x1 = len(out)
        def part(pos):
            return section([(n, pos.get(n, 0), 0, 'n') for n in (3, 4, 5, 6)], {'/Size': 7, '/Root': 3j, '/Prev': main_pos}) + b'startxref\n0\n%%EOF\n'
        ln = len(part({}))
        q = len(out) + ln
        text = b''
        for n, o in first:
            pos[n] = q + len(text)
            text = text + f'{n} 0 obj\n'.encode('ascii') + pt(o) + b'\nendobj\n'
        out = out + part(pos) + text
        for n, o in [(1, {'/Type': '/Pages', '/Kids': [4j], '/Count': 1}), (2, t2)]:
            pos[n] = len(out)
            out = out + f'{n} 0 obj\n'.encode('ascii') + pt(o) + b'\nendobj\n'
        return out, pos, x1
    out, pos, x1 = build(100)
    for i in range(3):
        out, pos, x1 = build(len(out))
    main = len(out)
    out = out + section([(0, 0, 65535, 'f'), (1, pos[1], 0, 'n'), (2, pos[2], 0, 'n')], {'/Size': 3}) + f'startxref\n{x1}\n%%EOF\n'.encode('ascii')
    return out, pos, x1, main


def xref_stream(num, rows, trailer):
    """A cross-reference stream; rows are (num, kind, position or container, generation or rank) in increasing order."""
    idx = []
    data = b''
    for n, k, a, b in rows:
        if idx and idx[-2] + idx[-1] == n:
            idx[-1] += 1
        else:
            idx += [n, 1]
        data = data + {'f': b'\x00', 'n': b'\x01', 'e': b'\x02'}[k] + a.to_bytes(2, 'big') + b.to_bytes(2, 'big')
    return f'{num} 0 obj\n'.encode('ascii') + pt(St({'/Type': '/XRef', '/W': [1, 2, 2], '/Index': idx, **trailer}, data)) + b'\nendobj\n'


def object_stream(objs):
    head = b''
    body = b''
    for n in objs:
        head = head + f'{n} {len(body)} '.encode('ascii')
        body = body + pt(objs[n]) + b' '
    return pt(St({'/Type': '/ObjStm', '/N': len(objs), '/First': len(head)}, head + body))


def two_parts(lin, first, main, root, embedded=None, env=None, xnums=None):
    """A linearized file: object lin is its dictionary, first and main are the objects of the two parts.

    With xnums the two sections are cross-reference streams; embedded objects are then in the stream env of the main part.
    Text and position of the first section."""
    top = max(list(first) + list(main) + [lin] + list(embedded or {}) + [env or 0] + list(xnums or ()))
    low = max(list(main) + list(embedded or {}) + [env or 0])

    def obj(n, o):
        return f'{n} 0 obj\n'.encode('ascii') + pt(o) + b'\nendobj\n'

    def build(pos, main_pos):
        got = {lin: 9}
        out = b'%PDF-1.5\n' + obj(lin, {'/Linearized': 1, '/L': 999})
        x1 = len(out)
        nums = sorted(list(first) + [lin])
        t = {'/Size': top + 1, '/Root': root, '/Prev': main_pos}
        if xnums:
            out = out + xref_stream(xnums[0], sorted([(n, 'n', pos.get(n, 0), 0) for n in nums] + [(xnums[0], 'n', x1, 0)]), t)
        else:
            out = out + section([(n, pos.get(n, 0), 0, 'n') for n in nums], t)
        out = out + b'startxref\n0\n%%EOF\n'
        for n in first:
            got[n] = len(out)
            out = out + obj(n, first[n])
        for n in main:
            got[n] = len(out)
            out = out + obj(n, main[n])
        if embedded:
            got[env] = len(out)
            out = out + obj(env, object_stream(embedded))
        x2 = len(out)
        if xnums:
            rows = [(0, 'f', 0, 0)] + [(n, 'n', got[n], 0) for n in list(main) + ([env] if embedded else [])] + [(xnums[1], 'n', x2, 0)]
            rows += [(n, 'e', env, i) for i, n in enumerate(embedded or {})]
            out = out + xref_stream(xnums[1], sorted(rows), {'/Size': max(low, xnums[1]) + 1, '/Root': root})
        else:
            out = out + section([(0, 0, 65535, 'f')] + [(n, got[n], 0, 'n') for n in sorted(main)], {'/Size': low + 1, '/Root': root})
        return out + f'startxref\n{x1}\n%%EOF\n'.encode('ascii'), got, x1, x2

    out, pos, x1, x2 = build({}, 100)
    for i in range(3):
        out, pos, x1, x2 = build(pos, x2)
    return out, x1


def hybrid_file(objs, hidden, env, xnum, root, listed=True, info=None):
    """A hybrid file: the hidden objects are in the object stream env, which only the additional section knows.

    Text and position of the table."""
    out = b'%PDF-1.5\n'
    pos = {}
    for n, o in list(objs.items()) + [(env, object_stream(hidden))]:
        pos[n] = len(out)
        out = out + f'{n} 0 obj\n'.encode('ascii') + pt(o) + b'\nendobj\n'
    xs = len(out)
    size = max(list(objs) + list(hidden) + [env, xnum]) + 1
    rows = [(n, 'e', env, i) for i, n in enumerate(hidden)] + [(env, 'n', pos[env], 0), (xnum, 'n', xs, 0)]
    out = out + xref_stream(xnum, sorted(rows), {'/Size': size, '/Root': root})
    x = len(out)
    es = [(0, 0, 65535, 'f')] + [(n, pos[n], 0, 'n') for n in objs] + ([(n, 0, 0, 'f') for n in list(hidden) + [env, xnum]] if listed else [])
    return out + section(sorted(es), {'/Size': size, '/Root': root, **(info or {}), '/XRefStm': xs}) + f'startxref\n{x}\n%%EOF\n'.encode('ascii'), x


# ------------------------------------------------------------------ strict reader

class Broken(Exception):
    pass


def need(cond, msg):
    if not cond:
        raise Broken(msg)


def number_at(f, i):
    j = i
    while j < len(f) and f[j] in b'0123456789':
        j += 1
    need(j > i, 'number expected')
    return int(f[i:j]), j


def entry(d, key):
    """The number (or object number of a reference) that follows a key of a dictionary text."""
    i = d.find(key + b' ')
    if i < 0:
        return None
    return number_at(d, i + len(key) + 1)[0]


def array_of(d, key):
    i = d.find(key + b' [')
    need(i >= 0, 'array expected')
    return [int(x) for x in d[i + len(key) + 2:d.find(b']', i)].split()]


def balanced(f, i):
    """End of the dictionary that starts at i (without strings)."""
    depth = 0
    while True:
        two = f[i:i + 2]
        need(len(two) == 2, 'unterminated dictionary')
        if two == b'<<':
            depth += 1
            i += 2
        elif two == b'>>':
            depth -= 1
            i += 2
            if depth == 0:
                return i
        else:
            i += 1


def read_section(f, pos):
    """Entries {num: ('n', offset, gen) | ('f', next, gen) | ('e', env, rank)} and trailer text of the section at pos."""
    entries = {}
    if f[pos:pos + 5] == b'xref\n':
        i = pos + 5
        while f[i:i + 7] != b'trailer':
            first, i = number_at(f, i)
            need(f[i:i + 1] == b' ', 'subsection header')
            n, i = number_at(f, i + 1)
            need(f[i:i + 1] == b'\n', 'end of subsection header')
            i += 1
            for k in range(n):
                e = f[i:i + 20]
                need(len(e) == 20 and e[10:11] == b' ' and e[16:17] == b' ' and e[17:18] in (b'n', b'f') and e[18:20] in (b' \n', b' \r', b'\r\n'), '20-byte entry')
                a, j = number_at(e, 0)
                need(j == 10, 'ten digits')
                g, j = number_at(e, 11)
                need(j == 16, 'five digits')
                need(first + k not in entries, 'object mentioned twice')
                entries[first + k] = ('n' if e[17:18] == b'n' else 'f', a, g)
                i += 20
        i = f.find(b'<<', i)
        return entries, f[i:balanced(f, i)], None
    num, i = number_at(f, pos)
    need(f[i:i + 7] == b' 0 obj\n', 'object header of a cross-reference stream')
    i += 7
    j = balanced(f, i)
    d = f[i:j]
    need(d.find(b'/Type /XRef') >= 0, 'type of a cross-reference stream')
    need(f[j:j + 8] == b'\nstream\n', 'stream keyword')
    n = entry(d, b'/Length')
    data = f[j + 8:j + 8 + n]
    need(f[j + 8 + n:j + 18 + n] == b'\nendstream', 'endstream keyword')
    if d.find(b'/Filter /FlateDecode') >= 0:
        data = zlib.decompress(data)
        if d.find(b'/Predictor 12') >= 0:
            need(d.find(b'/Columns 5') >= 0, 'columns of the predictor')
            rows = [data[i:i + 6] for i in range(0, len(data), 6)]
            last = bytes(5)
            data = b''
            for r in rows:
                need(r[0] == 2, 'predictor of the row')
                last = bytes((a + b) % 256 for a, b in zip(last, r[1:]))
                data += last
    w = array_of(d, b'/W')
    idx = array_of(d, b'/Index') if d.find(b'/Index [') >= 0 else [0, entry(d, b'/Size')]
    row = w[0] + w[1] + w[2]
    k = 0
    for s in range(0, len(idx), 2):
        for o in range(idx[s], idx[s] + idx[s + 1]):
            r = data[k * row:k * row + row]
            need(len(r) == row, 'row')
            k += 1
            need(o not in entries, 'object mentioned twice')
            t = int.from_bytes(r[:w[0]], 'big')
            a = int.from_bytes(r[w[0]:w[0] + w[1]], 'big')
            b = int.from_bytes(r[w[0] + w[1]:], 'big')
            entries[o] = ('fne'[t], a, b)
    need(len(data) == k * row, 'data beyond the index')
    need(entries.get(num, ())[:2] == ('n', pos), 'a cross-reference stream is in its own table')
    return entries, d, num


def read_strict(f, base=0):
    """Follows the offsets alone. Returns one (position, entries, root, xref stream number) per section, oldest first.

    The first base bytes come from another program: the chain of sections is not judged there."""
    i = f.rfind(b'startxref\n')
    need(i >= 0, 'startxref')
    pos, j = number_at(f, i + 10)
    need(f[j:j + 6] == b'\n%%EOF', 'end of file marker')
    res = []
    while pos is not None:
        need(pos not in [s[0] for s in res], 'looping sections')
        entries, d, num = read_section(f, pos)
        extra = entry(d, b'/XRefStm')
        if extra is not None:
            need(pos < base, 'no section of ours is hybrid')
            res.insert(0, (extra, *read_section(f, extra)))
        res.insert(0, (pos, entries, d, num))
        pos = entry(d, b'/Prev')
    # every startxref of the file
    starts = []
    i = f.find(b'startxref\n', base)
    while i >= 0:
        starts.append(number_at(f, i + 10)[0])
        i = f.find(b'startxref\n', i + 10)
    ours = [s[0] for s in res if s[0] >= base]
    need(starts == ours, f'startxref values {starts} are the positions of the chained sections {ours}')
    out = []
    state = {}
    hidden = [entry(d, b'/XRefStm') for pos, entries, d, num in res]
    for pos, entries, d, num in res:
        state = dict(state)
        state.update({n: e for n, e in entries.items() if pos not in hidden or state.get(n, 'f')[0] == 'f'})
        size = entry(d, b'/Size')
        root = entry(d, b'/Root')
        if pos < base:
            out.append((pos, entries, root, num))
            continue
        need(size == max(state) + 1, f'/Size {size} is one more than the highest number {max(state)}')
        need(state.get(root, 'f')[0] != 'f', '/Root is in use')
        for n, (k, a, b) in entries.items():
            if k == 'n':
                head = f'{n} {b} obj'.encode('ascii')
                need(f[a:a + len(head)] == head, f'entry {n} designates its object')
                need(a == 0 or f[a - 1:a] in (b'\n', b'\r', b' '), 'object header at the start of a token')
            elif k == 'e':
                kind, p, g = state.get(a, 'f  ')
                need(kind == 'n', 'container in use')
                p = f.find(b'<<', p)
                q = balanced(f, p)
                data = f[q + 8:q + 8 + entry(f[p:q], b'/Length')]
                if f[p:q].find(b'/Filter /FlateDecode') >= 0:
                    data = zlib.decompress(data)
                need(b < entry(f[p:q], b'/N'), 'rank within the container')
                nums = [int(x) for x in data[:entry(f[p:q], b'/First')].split()]
                need(nums[2 * b] == n, 'embedded object at its rank')
        frees = [n for n in sorted(entries) if entries[n][0] == 'f']
        for n in frees:
            need(entries[n][1] == 0 or state.get(entries[n][1], 'n')[0] == 'f', 'free list')
        out.append((pos, entries, root, num))
    return out


class Sink:
    def __init__(self):
        self.data = b''

    def write(self, b):
        self.data = self.data + b

    def close(self):
        pass

    def __enter__(self):
        return self

    def __exit__(self, *a):
        pass


def written(c, doc):
    """The bytes of the file written for a document."""
    import pdfsyntax.api as api
    s = Sink()
    c.set_open(lambda name, mode='r': s, api)
    api.writefile(doc, 'out.pdf')
    return s.data
