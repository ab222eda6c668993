"""Documents and sequences of operations shared by the harnesses, with a model of what they should give."""
import pdfsyntax as p
import pdfsyntax.docstruct as ds
from props.common import *
from props.pdffile import *

DELETED = 'deleted'
FOREIGN = ('linear', 'linear2', 'linearstream', 'linearstream2', 'hybrid', 'hybrid2', 'hybrid3', 'packed', 'packed2')  # layouts only other programs write


def small(c, n):
    d = c.bytes(n + 'a', 1, b'123456789') + c.bytes(n, 1, DIGITS)
    return [int(d), '/X'], b'[' + d + b' /X]'


def source(c, kind, tail=b''):
    """A file and the model of its revisions: [{num: value or DELETED}]."""
    a, at = small(c, 's4')
    b, bt = small(c, 's5')
    base = page_objs(1)
    objs = dict(base)
    state = {n: v for n, (g, v) in base.items()}
    w = Writer(kind='stream' if kind[0] in 'sep' else 'table')
    if kind.startswith('deep'):
        hist = deep(c, w, kind, objs, state, at, a, bt, b)
    elif kind.startswith('many'):
        hist = many(c, w, kind, objs, state, at, a, bt, b)
    elif kind in ('table', 'table2', 'gap'):
        objs[4] = (0, at)
        n5 = 7 if kind == 'gap' else 5
        objs[n5] = (0, bt)
        state.update({4: a, n5: b})
        w.revision(objs)
        hist = [state]
        if kind == 'table2':
            e, et = small(c, 's4b')
            w.revision({4: (0, et)}, freed=[(5, 1)])
            state = dict(state)
            state.update({4: e, 5: DELETED})
            hist.append(state)
    elif kind in ('stream', 'stream2'):
        objs[4] = (0, at)
        objs[5] = (0, bt)
        w.revision(objs, xnum=6)
        state.update({4: a, 5: b, 6: None})
        hist = [state]
        if kind == 'stream2':
            e, et = small(c, 's4b')
            w.revision({4: (0, et)}, freed=[(5, 1)], xnum=8)
            state = dict(state)
            state.update({4: e, 5: DELETED, 8: None})
            hist.append(state)
    elif kind in ('packed', 'packed2'):
        w.packed = True
        w.revision(objs, embedded={4: at, 5: bt}, env=7, xnum=6)
        state.update({4: a, 5: b, 6: None, 7: None})
        hist = [state]
        if kind == 'packed2':
            e, et = small(c, 's4b')
            w.revision({4: (0, et)}, freed=[(5, 1)], xnum=8)
            state = dict(state)
            state.update({4: e, 5: DELETED, 8: None})
            hist.append(state)
    elif kind == 'embedded':
        w.revision(objs, embedded={4: at, 5: bt}, env=7, xnum=6)
        state.update({4: a, 5: b, 6: None, 7: None})
        hist = [state]
    elif kind == 'mixed':
        objs[4] = (0, at)
        objs[5] = (0, bt)
        w.revision(objs, kind='table')
        e, et = small(c, 's4b')
        w.revision({}, embedded={4: et}, env=7, xnum=6, kind='stream')
        state.update({4: a, 5: b})
        hist = [state]
        state = dict(state)
        state.update({4: e, 6: None, 7: None})
        hist.append(state)
    elif kind.startswith(('linear', 'hybrid')):
        stream = 'stream' in kind
        o = {n: v for n, (g, v) in base.items()}
        state.update({4: a, 5: b, 6: None})
        if kind.startswith('hybrid'):
            more = {}
            if kind != 'hybrid':
                w.extra = {'/Info': 8j}
                more = {8: {'/Title': b'(t)'}}
                state.update(more)
            text, w.prev = hybrid_file({**o, 4: at, **more}, {5: bt}, 6, 7, 1j, kind != 'hybrid3', w.extra)
            state.update({7: None})
        elif stream:
            text, w.prev = two_parts(6, {1: o[1], 3: o[3], 5: bt}, {2: o[2]}, 1j, embedded={4: at}, env=10, xnums=(8, 9))
            state.update({8: None, 9: None, 10: None})
        else:
            text, w.prev = two_parts(6, {1: o[1], 3: o[3], 5: bt}, {2: o[2], 4: at}, 1j)
        w.out = text
        w.first = False
        w.size = max(state) + 1
        w.ends.append(len(text))
        hist = [state]
        if kind[-1] == '2':
            e, et = small(c, 's4b')
            state = dict(state)
            state.update({4: e, 5: DELETED})
            if stream:
                state[11] = None
            w.revision({4: (0, et)}, freed=[(5, 1)], kind='stream' if stream else 'table', xnum=11)
            hist.append(state)
    else:
        raise ValueError(kind)
    source.marks = w.ends
    return w.out + tail, hist


def deep(c, w, kind, objs, state, at, a, bt, b):
    """Five revisions, gaps in the numbers, generations of two digits, objects updated, freed, defined again."""
    hist = []
    gen = {}

    def rev(define, free=(), embed=(), **kw):
        nonlocal state
        state = dict(state)
        plain = {}
        emb = {}
        for n in define:
            v, t = (a, at) if n == 4 and not hist else (b, bt) if n == 5 and not hist else small(c, f's{n}.{len(hist)}')
            state[n] = v
            if n in embed:
                emb[n] = t
            else:
                plain[n] = (gen.get(n, 0), t)
        for n in free:
            gen[n] = gen.get(n, 0) + 1
            state[n] = DELETED
        for k in ('xnum', 'env'):
            if k in kw:
                state[kw[k]] = None
        w.revision({**(objs if not hist else {}), **plain}, [(n, gen[n]) for n in free], embedded=emb or None, kind='stream' if kind == 'deepstream' else 'table', **kw)
        hist.append(state)

    if kind == 'deep':
        gen[5] = c.int('g5', 10, 90)
        rev([4, 5, 6, 7, 10])
        rev([4, 11, 12, 13], [6])
        rev([5, 20, 21])
        rev([6, 4], [11])
        rev([12, 30, 31, 32])
    else:
        rev([4, 5, 10, 11], embed=[4, 5], xnum=6, env=7)
        rev([4, 12, 13], [5], embed=[4, 12, 13], xnum=8, env=9)
        rev([4], xnum=14)
        rev([12, 16, 17], embed=[12, 16, 17], xnum=15, env=18)
        rev([20], [13], xnum=19)
    return hist


def many(c, w, kind, objs, state, at, a, bt, b, n=60):
    """Some seventy objects of all sizes in three revisions; half of the objects are embedded where streams are used."""
    stream = kind == 'manystream'

    def thing(i, r):
        v = [i * 10 + r] + ['/Filler'] * (i * 7 % 23)
        return v, pt(v)

    state.update({4: a, 5: b})
    emb = {5: bt} if stream else {}
    plain = {4: (0, at)} if stream else {4: (0, at), 5: (0, bt)}
    for i in range(10, 10 + n):
        v, t = thing(i, 0)
        state[i] = v
        if stream and i % 2:
            emb[i] = t
        else:
            plain[i] = (0, t)
    st = {6: None, 7: None} if stream else {}
    state.update(st)
    w.revision({**objs, **plain}, embedded=emb or None, env=7, xnum=6, kind='stream' if stream else 'table')
    hist = [state]
    state = dict(state)
    e, et = small(c, 's5b')
    define = {}
    emb = {}
    for i in range(11, 10 + n, 3):
        state[i], t = thing(i, 1)
        if stream and i % 4 < 2:
            emb[i] = t
        else:
            define[i] = (0, t)
    state[5] = e
    define[5] = (0, et)
    free = list(range(12, 10 + n, 9))
    for i in free:
        state[i] = DELETED
    if stream:
        state.update({8: None, 9: None})
    w.revision(define, [(i, 1) for i in free], embedded=emb or None, env=9, xnum=8, kind='stream' if stream else 'table')
    hist.append(state)
    state = dict(state)
    e, et = small(c, 's30c')
    state[30] = e
    state[12 + 9], t = thing(21, 2)
    if stream:
        state[150] = None
    w.revision({30: (1 if 30 in free else 0, et), 21: (1, t)}, xnum=150, kind='stream' if stream else 'table')
    hist.append(state)
    return hist


class Session:
    """A document and its model. model: one {num: value} per closed revision, then the pending one."""

    def __init__(self, c, kind, tail=b''):
        self.c = c
        self.kind = kind
        if kind == 'blank':
            self.file = b''
            self.doc = p.blank()
            st = {1: {'/Type': '/Catalog', '/Pages': 2j}, 2: {'/Type': '/Pages', '/Kids': [3j], '/Count': 1}, 3: {'/Type': '/Page', '/Parent': 2j, '/MediaBox': [0, 0, 595, 842], '/Resources': {}}}
            self.model = [st, dict(st)]
        else:
            self.file, hist = source(c, kind, tail)
            self.marks = source.marks
            self.doc = p.loads(self.file)
            self.model = hist + [dict(hist[-1])]
        self.step = 0
        self.second = None
        self.removed = False
        self.loaded = len(self.model) - 1

    def other(self):
        if self.second is None:
            self.second = p.loads(source(self.c, 'embedded')[0])
        return self.second

    def pending(self):
        a, b = (self.model[-2] if len(self.model) > 1 else {}), self.model[-1]
        return [n for n in b if n not in a or b[n] is not a[n]]

    def subjects(self):
        if self.kind.startswith(('deep', 'many')):
            every = [n for n in sorted(self.model[-1]) if n > 3 and self.model[-1][n] is not None]
            return sorted({every[(3 * self.step) % len(every)], every[(5 * self.step + 1) % len(every)]}) if every else []
        return [n for n in (4, 5, 7) if n in self.model[-1] and self.model[-1][n] is not None]

    def do(self, ops):
        c = self.c
        i = self.step = self.step + 1
        st = self.model[-1]
        ops = [o for o in ops if not (o in ('update', 'delete', 'replace', 'touch') and not self.subjects())]
        if self.removed:
            ops = [o for o in ops if o not in ('annotate', 'remove', 'rotate')]
        op = c.choice(f'op{i}', ops or ['none'])
        if op in ('update', 'replace', 'touch'):
            n = c.choice(f'on{i}', self.subjects()[:1] if op == 'touch' else self.subjects())
            v = small(c, f'v{i}')[0] if op != 'replace' else a_scalar(c, f'v{i}', ['name', 'lstring', 'int'], small=True)
            self.doc = p.update_object(self.doc, n, v)
            st[n] = v
        elif op == 'delete':
            n = c.choice(f'on{i}', self.subjects())
            self.doc = p.update_object(self.doc, n, None)
            if st[n] != DELETED:
                st[n] = str(DELETED) if n in (self.model[-2] if len(self.model) > 1 else {}) else DELETED
                st[n] = DELETED
        elif op == 'add':
            v = small(c, f'v{i}')[0]
            self.doc, ref = p.add_object(self.doc, v)
            st[int(ref.imag)] = v
        elif op == 'add stream':
            d = c.bytes(f'v{i}', 2)
            v, _ = p.forge_stream({'/Length': 2}, d)
            self.doc, ref = p.add_object(self.doc, v)
            st[int(ref.imag)] = v
        elif op == 'commit':
            before = len(self.doc.index)
            changed = p.changes(self.doc) != []
            self.doc = p.commit(self.doc)
            if changed:
                self.model.append(dict(st))
        elif op == 'rewind':
            self.doc = p.rewind(self.doc)
            if len(self.model) > 1:
                self.model.pop()
        elif op == 'grow':
            v = c.int(f'v{i}', 0, 9999)
            self.doc, ref = p.add_object(self.doc, v)
            st[int(ref.imag)] = v
        elif op == 'rotate':
            self.doc = p.rotate(self.doc, 90)
        elif op == 'annotate':
            self.doc = p.add_text_annotation(self.doc, 0, c.text(f'v{i}', 2, LETTERS), [0, 0, 1, 1])
        elif op == 'concat':
            self.doc = p.concat(self.doc, self.other())
        elif op == 'concat before':
            self.doc = p.concat(self.other(), self.doc, False)
        elif op == 'squash':
            self.doc = p.squash(self.doc)
        elif op == 'compress':
            self.doc = p.compress(self.doc)
        elif op == 'remove':
            self.doc = p.remove_pages(self.doc, 0)
            self.removed = True
        elif op == 'force':
            self.doc = p.force_xref_stream(self.doc, c.flag(f'placeholder{i}'), c.choice(f'filter{i}', ['', '/FlateDecode']))
            self.doc, ref = p.add_object(self.doc, ['/F'])
            st[int(ref.imag)] = ['/F']
        elif op == 'reload':
            if p.changes(self.doc) != []:
                self.model.append(dict(st))
            for n in [n for n in st if st[n] == DELETED and not any(m.get(n, DELETED) != DELETED for m in self.model)]:
                for m in self.model:
                    m.pop(n, None)
            self.doc = p.loads(written(c, self.doc))
        elif op == 'none':
            pass
        else:
            raise ValueError(op)
        return op
