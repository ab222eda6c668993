"""Loading resolves every object to its newest definition."""
import pdfsyntax as p
import pdfsyntax.docstruct as ds
from props.common import *
from props.pdffile import *


def value(c, name):
    """A small value whose text has a fixed length and symbolic contents."""
    d = c.bytes(name + 'a', 1, b'123456789') + c.bytes(name, 1, DIGITS)
    return [int(d), '/X'], b'[' + d + b' /X]'


def check_doc(c, doc, history):
    """history: one {num: (gen, value) or None} per revision, cumulated."""
    c.same(len(doc.index), len(history) + 1, 'revisions')
    c.same(p.updates(doc), len(history), 'number of updates')
    for r, state in enumerate(list(history) + [history[-1]]):
        live = [complex(g, n) for n, (g, v) in sorted([x for x in state.items() if x[1] is not None])]
        c.same(p.in_use(doc, r), live, f'objects in use')
    for num, x in history[-1].items():
        if x is None:
            if num < len(doc.index[-1]):
                c.same(p.get_object(doc, complex(0, num)), None, 'deleted or absent object')
        elif x[1] is not None:
            c.same(p.get_object(doc, complex(x[0], num)), x[1], 'newest value')
    for r, state in enumerate(history):
        for num, x in state.items():
            if x is not None and x[1] is not None:
                c.same(ds.memoize_obj_in_cache(doc.index, doc.data[-1]['fdata'], num, None, r)[num], x[1], 'value in an earlier revision')


def history(c, subjects, revs, kind, gap=0, zero=False, first_all=False, fixed=None, after=0):
    """A file of revs revisions in which each subject is defined, updated, freed or left alone by each of them."""
    base = page_objs(1)
    state = {n: (g, None) for n, (g, v) in base.items()}
    w = Writer(kind='table')
    w.full = kind == 'full'
    hist = []
    gens = {n: c.int(f'gen{n}', 10, 90) if kind == 'table' and gap else 0 for n in subjects}
    xn = 20
    for r in range(revs):
        objs = dict(base) if r == 0 else {}
        freed = []
        emb = {}
        for n in subjects:
            now = state.get(n)
            if r == 0:
                acts = ['define'] if first_all else ['none', 'define']
            elif now is not None:
                acts = ['none', 'define', 'free']
            else:
                acts = ['none', 'define']
            if fixed:
                acts = [fixed[r % len(fixed)]]
                if acts[0] == 'free' and now is None:
                    acts = ['define']
            a = c.choice(f'act{r}.{n}', acts)
            if a == 'define':
                v, text = value(c, f'v{r}.{n}')
                if kind == 'embedded' and type(gens[n]) is int and gens[n] == 0 and c.flag(f'emb{r}.{n}'):
                    emb[n] = text
                else:
                    objs[n] = (gens[n], text)
                state = dict(state)
                state[n] = (gens[n], v)
            elif a == 'free':
                gens[n] = gens[n] + 1
                freed.append((n, gens[n]))
                state = dict(state)
                state[n] = None
        k = kind
        if kind == 'mixed':
            k = c.choice(f'kind{r}', ['table', 'stream'])
        if k == 'table':
            w.revision(objs, freed, kind='table', zero=zero)
        else:
            xn += 2
            st = dict(state)
            w.revision(objs, freed, embedded=emb or None, env=xn + 1, kind='stream', xnum=xn, zero=zero)
            st[xn] = (0, None)
            if emb:
                st[xn + 1] = (0, None)
            state = st
        hist.append(state)
    if after:
        w.out = w.out + c.bytes('ws', 1, WS) + b'\r\n ' * after
    check_doc(c, p.loads(w.out), spread(hist))


def layouts(c, line, glue, kind):
    """Files with other ends of line, as the format allows them."""
    w = Writer(header=b'%PDF-1.5' + line, kind=kind)
    w.line = line
    w.entry = c.choice('entry', [b' \n', b' \r', b'\r\n'])
    w.glue = {'line': line, 'none': b'', 'blank': b' ', 'more': line + b'  ' + line, 'comment': b'%' + c.bytes('rem', 1, b'(<a>') + line}[glue]
    v, text = value(c, 'v')
    hist = [{**{n: (g, None) for n, (g, x) in page_objs(1).items()}, 4: (0, v), 5: (0, v)}]
    w.revision({**page_objs(1), 4: (0, text), 5: (0, text)}, xnum=20, eof=b'%%EOF' + line)
    n = 4 + c.choice('which', [0, 1])
    u, text = value(c, 'u')
    hist.append({**hist[0], n: (3, u), 9: (0, u), 9 - n: None})
    w.revision({n: (3, text), 9: (0, text)}, [(9 - n, 1)], xnum=21, eof=b'%%EOF' + c.choice('end', [b'', line]))
    if kind == 'stream':
        for i, s in enumerate(hist):
            s[20] = (0, None)
            if i:
                s[21] = (0, None)
    check_doc(c, p.loads(w.out), spread(hist))


def spread(hist):
    full = {n for s in hist for n in s}
    return [{n: s.get(n) for n in full} for s in hist]


def many(c, n, revs, kind):
    """n objects over revs revisions; each revision redefines, frees or leaves alone another part of them."""
    base = page_objs(1)
    state = {m: (g, None) for m, (g, v) in base.items()}
    w = Writer(kind='stream' if kind == 'embedded' else kind)
    hist = []
    gens = {}
    xn = n + 10
    sym = c.choice('sym', [4, 10, n + 3])
    for r in range(revs):
        objs = dict(base) if r == 0 else {}
        freed = []
        emb = {}
        state = dict(state)
        for m in range(4, n + 4):
            if r and (m + r * 3) % 7 not in (0, 3):
                if m != sym:
                    continue
            if m == sym:
                v, text = value(c, f'v{r}')
            else:
                v = [m * 100 + r] + ['/Pad'] * (m * 5 % 17)
                text = pt(v)
            if r and m != sym and (m + r) % 5 == 0 and state.get(m) is not None:
                gens[m] = gens.get(m, 0) + 1
                freed.append((m, gens[m]))
                state[m] = None
                continue
            g = gens.get(m, 0)
            if kind == 'embedded' and g == 0 and m % 3:
                emb[m] = text
            else:
                objs[m] = (g, text)
            state[m] = (g, v)
        if kind != 'table':
            xn += 2
            state[xn] = (0, None)
            if emb:
                state[xn + 1] = (0, None)
        w.revision(objs, freed, embedded=emb or None, env=xn + 1, xnum=xn)
        hist.append(state)
    check_doc(c, p.loads(w.out), spread(hist))


def linearized(c, updates, kind):
    """The two sections of a linearized file make one revision; updates may follow."""
    v1, t1 = value(c, 'first')
    v2, t2 = value(c, 'second')
    out, pos, x1, main = linearized_file(t1, t2)
    state = {1: (0, None), 2: (0, v2), 3: (0, None), 4: (0, None), 5: (0, None), 6: (0, v1)}
    hist = [state]
    w = Writer(root=3j)
    w.out = out
    w.first = False
    w.prev = x1
    w.size = 7
    for r in range(updates):
        state = dict(state)
        objs = {}
        freed = []
        for n in (2, 6, 8):
            acts = ['none', 'define', 'free'] if state.get(n) else ['none', 'define'] if n == 8 else ['none']
            a = c.choice(f'act{r}.{n}', acts)
            if a == 'define':
                v, t = value(c, f'v{r}.{n}')
                objs[n] = (0, t)
                state[n] = (0, v)
            elif a == 'free':
                freed.append((n, 1))
                state[n] = None
        if kind == 'stream':
            state[20 + r] = (0, None)
        w.revision(objs, freed, kind=kind, xnum=20 + r)
        hist.append(state)
    doc = p.loads(w.out)
    check_doc(c, doc, spread(hist))
    c.same(doc.trailer()['/Root'], 3j, 'root of the newest trailer')


def hybrid(c, updates):
    """A table with /XRefStm: objects listed as free in the table are found in the stream."""
    v4, t4 = value(c, 'v4')
    v5, t5 = value(c, 'v5')
    out = b'%PDF-1.4\n'
    pos = {}
    base = page_objs(1)
    in_stream = c.choice('in stream', ['embedded', 'plain'])
    objs = {n: pt(v) for n, (g, v) in base.items()}
    objs[4] = t4
    if in_stream == 'embedded':
        head = b'5 0 '
        objs[6] = pt(St({'/Type': '/ObjStm', '/N': 1, '/First': len(head)}, head + t5))
    else:
        objs[5] = t5
    for n in objs:
        pos[n] = len(out)
        out = out + f'{n} 0 obj\n'.encode('ascii') + objs[n] + b'\nendobj\n'
    xs = len(out)
    if in_stream == 'embedded':
        rows = [(5, 2, 6, 0), (6, 1, pos[6], 0), (7, 1, xs, 0)]
    else:
        rows = [(5, 1, pos[5], 0), (7, 1, xs, 0)]
    idx = []
    data = b''
    for n, a, b, d in rows:
        idx += [n, 1]
        data = data + bytes([a]) + b.to_bytes(2, 'big') + bytes([d])
    out = out + b'7 0 obj\n' + pt(St({'/Type': '/XRef', '/W': [1, 2, 1], '/Size': 8, '/Index': idx, '/Root': 1j}, data)) + b'\nendobj\n'
    x = len(out)
    hidden = c.choice('hidden', ['free', 'absent'])
    es = [(0, 0, 65535, 'f')] + [(n, pos[n], 0, 'n') for n in (1, 2, 3, 4)]
    if hidden == 'free':
        es += [(5, 0, 0, 'f')]
    out = out + section(es, {'/Size': 8, '/Root': 1j, '/XRefStm': xs}) + f'startxref\n{x}\n%%EOF\n'.encode('ascii')
    state = {1: (0, None), 2: (0, None), 3: (0, None), 4: (0, v4), 5: (0, v5), 7: (0, None)}
    if in_stream == 'embedded':
        state[6] = (0, None)
    hist = [state]
    w = Writer()
    w.out = out
    w.first = False
    w.prev = x
    w.size = 8
    for r in range(updates):
        state = dict(state)
        us = {}
        freed = []
        for n in (4, 5):
            a = c.choice(f'act{r}.{n}', ['none', 'define', 'free'] if state.get(n) else ['none'])
            if a == 'define':
                v, t = value(c, f'v{r}.{n}')
                us[n] = (0, t)
                state[n] = (0, v)
            elif a == 'free':
                freed.append((n, 1))
                state[n] = None
        w.revision(us, freed, kind='table')
        hist.append(state)
    doc = p.loads(w.out)
    check_doc(c, doc, spread(hist))
    c.same(p.hybrid(doc), True, 'hybrid')


KINDS4 = ('table', 'stream', 'embedded', 'mixed', 'full')
def word(c, updates):
    """The second revision is an empty table with /XRefStm, as office suites write it."""
    v4, t4 = value(c, 'v4')
    v5, t5 = value(c, 'v5')
    out = b'%PDF-1.4\n'
    pos = {}
    objs = {n: pt(v) for n, (g, v) in page_objs(1).items()}
    objs[4] = t4
    head = b'5 0 '
    objs[6] = pt(St({'/Type': '/ObjStm', '/N': 1, '/First': len(head)}, head + t5))
    for n in objs:
        pos[n] = len(out)
        out = out + f'{n} 0 obj\n'.encode('ascii') + objs[n] + b'\nendobj\n'
    xs = len(out)
    data = b''
    for n, a, b, d in [(0, 0, 0, 255)] + [(n, 1, pos[n], 0) for n in (1, 2, 3, 4)] + [(5, 2, 6, 0), (6, 1, pos[6], 0), (7, 1, xs, 0)]:
        data = data + bytes([a]) + b.to_bytes(2, 'big') + bytes([d])
    out = out + b'7 0 obj\n' + pt(St({'/Type': '/XRef', '/W': [1, 2, 1], '/Size': 8, '/Root': 1j}, data)) + b'\nendobj\n'
    x = len(out)
    out = out + section([(0, 0, 65535, 'f')] + [(n, pos[n], 0, 'n') for n in (1, 2, 3, 4)] + [(5, 0, 65535, 'f'), (6, pos[6], 0, 'n'), (7, xs, 0, 'n')], {'/Size': 8, '/Root': 1j}) + f'startxref\n{x}\n%%EOF\n'.encode('ascii')
    x2 = len(out)
    out = out + b'xref\n0 0\ntrailer\n' + pt({'/Size': 8, '/Root': 1j, '/Prev': x, '/XRefStm': xs}) + f'\nstartxref\n{x2}\n%%EOF\n'.encode('ascii')
    first = {1: (0, None), 2: (0, None), 3: (0, None), 4: (0, v4), 5: None, 6: (0, None), 7: (0, None)}
    state = dict(first)
    state[5] = (0, v5)
    hist = [first, state]
    w = Writer()
    w.out = out
    w.first = False
    w.prev = x2
    w.size = 8
    for r in range(updates):
        state = dict(state)
        us = {}
        freed = []
        for n in (4, 5):
            a = c.choice(f'act{r}.{n}', ['none', 'define', 'free'] if state.get(n) else ['none'])
            if a == 'define':
                v, t = value(c, f'v{r}.{n}')
                us[n] = (0, t)
                state[n] = (0, v)
            elif a == 'free':
                freed.append((n, 1))
                state[n] = None
        w.revision(us, freed, kind='table')
        hist.append(state)
    doc = p.loads(w.out)
    check_doc(c, doc, spread(hist))
    c.same(p.hybrid(doc), True, 'hybrid')


CASES = [
    ('history', history, {'quick': [dict(subjects=[4], revs=3, kind=k) for k in KINDS4] + [dict(subjects=[4], revs=2, kind=k, after=n) for k in ('table', 'stream') for n in (1, 15)]
                          + [dict(subjects=[5], revs=3, kind='table', gap=1, zero=True), dict(subjects=[4, 7], revs=2, kind='table'), dict(subjects=[4, 7], revs=2, kind='stream', zero=True),
                             dict(subjects=[4, 5], revs=2, kind='embedded', first_all=True)]
                          + [dict(subjects=[4, 6], revs=7, kind=k, fixed=f, first_all=True) for k in ('table', 'stream') for f in (['define'], ['define', 'free'], ['define', 'none', 'none', 'free'])],
                          'thorough': [dict(subjects=[4, 7], revs=3, kind=k) for k in ('table', 'stream')] + [dict(subjects=[4], revs=5, kind=k) for k in ('table', 'stream', 'mixed')]
                          + [dict(subjects=[4, 5, 6], revs=2, kind='embedded'), dict(subjects=[4, 5], revs=3, kind='embedded', first_all=True), dict(subjects=[4, 5, 9], revs=2, kind='mixed')]},
     'every assignment of definitions, updates and deletions of the subjects to the revisions; symbolic values and generations; cross-reference streams that list every object again without /Index; up to 46 bytes of white space after the last marker'),
    ('layouts', layouts, [dict(line=e, glue=g, kind=k) for e in (b'\n', b'\r', b'\r\n') for g in ('line', 'none', 'blank', 'more', 'comment') for k in ('table', 'stream')], 'two revisions written with any of the ends of line that the format allows, and any separation of keywords and values, comments included'),
    ('many', many, [dict(n=24 if k == 'embedded' else 120, revs=3, kind=k) for k in ('table', 'stream', 'embedded')] + [dict(n=15, revs=12, kind=k) for k in ('table', 'stream', 'embedded')], 'n objects over revs revisions, the values of one of them symbolic'),
    ('linearized', linearized, [dict(updates=u, kind=k) for u, k in ((0, 'table'), (1, 'table'), (1, 'stream'))], 'two-part file with every assignment of changes in its updates'),
    ('word', word, [dict(updates=u) for u in (0, 1)], 'second revision is an empty table with a hidden section'),
    ('hybrid', hybrid, [dict(updates=u) for u in (0, 1, 2)], 'table with a hidden section in a stream, followed by updates'),
]
