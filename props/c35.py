"""Spatial text layout loses no text and keeps the reading order."""
import pdfsyntax as p
import pdfsyntax.layout as lay
from props.common import *
from props.pdffile import *

MARKS = 'ABCDEFGHIJKLMNOPQRSTUVWXYZ' + ''.join([chr(0x410 + i) for i in range(32)]) + '0123456789'


def place(c, out, texts):
    """(line, column) of each text, which must all be there once, with only blanks around."""
    res = []
    total = 0
    for i, t in enumerate(texts):
        k = out.find(MARKS[i])
        c.check(k >= 0, f'text {i} is in the result')
        c.same(out[k:k + len(t)], t, f'text {i}')
        c.check(out.find(MARKS[i], k + 1) < 0, f'text {i} appears once')
        start = out.rfind('\n', 0, k) + 1
        res.append((out.count('\n', 0, k), k - start))
        total += len(t)
    rest = 0
    for ch in out:
        if ch not in ' \n':
            rest += 1
    c.same(rest, total, 'nothing but the texts')
    return res


def judge(c, out, frags, apart=None, near=None):
    """frags: (x, y, text). apart: least vertical distance of distinct lines; near: distance within a line."""
    texts = [t for _, _, t in frags]
    where = place(c, out, texts)
    for i in range(len(frags)):
        for j in range(len(frags)):
            if i == j:
                continue
            (x, y, _), (u, v, _) = frags[i], frags[j]
            a, b = where[i], where[j]
            if y > v:
                c.check(a[0] <= b[0], 'the higher fragment comes first')
                if apart is not None and y - v >= apart:
                    c.check(a[0] < b[0], 'distinct lines')
            if y == v:
                c.same(a[0], b[0], 'fragments at the same height are on one line')
            if near is not None and abs(y - v) <= near:
                c.same(a[0], b[0], 'fragments of one line')
            if a[0] == b[0] and x < u:
                c.check(a[1] < b[1], 'left to right')


def a_text(c, i, n):
    if i >= 9:
        return MARKS[i] + 'ab' * (n // 2) + 'c' * ((n - 1) % 2)
    return MARKS[i] + c.text(f't{i}', n - 1, b'abc') if n > 1 else MARKS[i]


def blocks(frags, widths, scalings):
    return [{'x': x, 'y': y, 'width': w, 'scaling': s, 'text': t} for (x, y, t), w, s in zip(frags, widths, scalings)]


def raw(frags, widths, scalings, tilt=0):
    """Fragments as text rendering matrices."""
    return [[[s, tilt, tilt, s, x, y], t, [s, tilt, tilt, s, x + w, y]] for (x, y, t), w, s in zip(frags, widths, scalings)]


def free(c, lens, xs=(0, 30), ys=(0, 40), scale=10, unit=5, half=False):
    """Fragments at any positions."""
    frags = []
    for i, n in enumerate(lens):
        x = c.int(f'x{i}', *xs)
        y = c.int(f'y{i}', *ys)
        frags.append((x / 2 if half else x, y / 2 if half else y, a_text(c, i, n)))
    if len(lens) > 2 and frags[0][0] == frags[1][0] and frags[1][0] == frags[2][0]: #the spacing depends on the heights
        frags = [(x, c.concrete(y), t) for x, y, t in frags]
    blk = raw(frags, [unit * n for n in lens], [scale] * len(lens))
    lay.simplify_horizontal_text_elements(blk)
    for b, (x, y, t), n in zip(blk, frags, lens):
        c.close(b['x'], x, 'x')
        c.close(b['y'], y, 'y')
        c.close(b['width'], unit * n, 'width')
        c.same(b['text'], t, 'text')
    out = lay.basic_spatial_layout(blk)
    column = len(lens) > 2 and (len(lens) > 3 or frags[0][0] == frags[1][0] and frags[1][0] == frags[2][0]) #the spacing is taken from it
    judge(c, out, frags, apart=None if column else scale, near=scale * 0.5 if len(lens) == 2 else None)


def sizes(c, lens):
    """Any sizes and widths, negative and null ones included."""
    frags, ws, ss = [], [], []
    for i, n in enumerate(lens):
        frags.append((c.choice(f'x{i}', [0, 7, 40]), c.choice(f'y{i}', [0, 6, 30]), a_text(c, i, n)))
        ws.append(c.choice(f'w{i}', [0, 12, -12]))
        ss.append(c.choice(f's{i}', [0, 8, -8]))
    judge(c, lay.basic_spatial_layout(blocks(frags, ws, ss)), frags)


def regular(c, lines, columns, pitch=(12, 14), scale=10, titles=False, step=40):
    """A page of regularly spaced lines in columns, in any order of the content, with any vertical origin and pitch."""
    y0 = c.int('y0', 100, 700)
    d = c.int('pitch', *pitch)
    left = c.int('left', 0, 99)
    frags, scalings, widths = [], [], []
    for i in range(lines):
        for j in range(columns):
            k = len(frags)
            frags.append((left + j * step, y0 - i * d, a_text(c, k, 2)))
            big = titles and i == 0
            scalings.append(scale * 2 if big else scale)
            widths.append(10)
    order = list(range(len(frags)))
    if c.flag('reversed'):
        order.reverse()
    if c.flag('by columns'):
        order.sort(key=lambda k: k % columns)
    blk = blocks([frags[k] for k in order], [widths[k] for k in order], [scalings[k] for k in order])
    out = lay.basic_spatial_layout(blk)
    where = place(c, out, [t for _, _, t in frags])
    for i in range(lines):
        for j in range(columns):
            a = where[i * columns + j]
            if j:
                c.same(a[0], where[i * columns][0], 'fragments of one line')
                c.check(where[i * columns + j - 1][1] < a[1], 'left to right')
            elif i:
                c.check(where[(i - 1) * columns][0] < a[0], 'lines from top to bottom')


def page(c, ops, kind='table'):
    """The text of a page of a document: each shown text at the position given by the operators."""
    frags = []
    stream = b'BT /F1 10 Tf 10 TL '
    if ops and ops[0] != 'Tm':
        stream = stream + b'20 100 Td '
    x, y = 20, 100
    for i, op in enumerate(ops):
        t = a_text(c, i, 2)
        if op == 'Td':
            a, b = c.choice(f'a{i}', [-20, 0, 40]), c.choice(f'b{i}', [-30, 0])
            x, y = x + a, y + b
            stream = stream + f'{a} {b} Td ({t}) Tj '.encode('ascii')
        elif op == 'Tm':
            x, y = c.int(f'a{i}', 10, 40), c.choice(f'b{i}', [50, 80])
            stream = stream + f'1 0 0 1 {x} {y} Tm ({t}) Tj '.encode('ascii')
        elif op == 'T*':
            y = y - 10
            stream = stream + f'T* [({t[0]}) 0 ({t[1:]})] TJ '.encode('ascii')
        elif op == "'":
            y = y - 10
            stream = stream + f"<{t.encode('ascii').hex()}> ' ".encode('ascii')
        frags.append((x, y, t))
    stream = stream + b'ET'
    objs = page_objs(1)
    objs[3][1]['/Resources'] = {'/Font': {'/F1': 5j}}
    objs[3][1]['/Contents'] = 4j
    objs[4] = (0, St({}, stream))
    objs[5] = (0, {'/Type': '/Font', '/Subtype': '/Type1', '/BaseFont': '/Helvetica', '/Encoding': '/WinAnsiEncoding'})
    w = Writer()
    w.revision(objs)
    doc = p.loads(w.out)
    tfs = p.build_text_fragments(p.get_page_contents(doc, 0), p.get_page_fonts(doc, [0])) if hasattr(p, 'build_text_fragments') else None
    if tfs is not None:
        c.same(len(tfs), len(frags), 'number of fragments')
        for f, (x, y, t) in zip(tfs, frags):
            c.close(f[0][4], x, 'x of the fragment')
            c.close(f[0][5], y, 'y of the fragment')
            c.same(f[1], t, 'text of the fragment')
    out = p.extract_page_text(doc, 0)
    judge(c, out, frags, apart=10.5 if len(frags) < 3 else None)


def several(c, n, split):
    """The text of a page with several content streams, and the absence of text of the other pages."""
    t = [a_text(c, i, 2) for i in range(3)]
    objs = page_objs(2)
    for i in (3, 4):
        objs[i][1]['/Resources'] = {'/Font': {'/F1': 5j}}
    objs[5] = (0, {'/Type': '/Font', '/Subtype': '/Type1', '/BaseFont': '/Helvetica', '/Encoding': '/WinAnsiEncoding'})
    a = f'BT /F1 10 Tf 20 100 Td ({t[0]}) Tj ET'.encode('ascii')
    b = f'BT /F1 10 Tf 20 50 Td ({t[1]}) Tj ET'.encode('ascii')
    d = f'BT /F1 10 Tf 20 50 Td ({t[2]}) Tj ET'.encode('ascii')
    objs[6], objs[7], objs[8] = (0, St({}, a)), (0, St({}, b)), (0, St({}, d))
    objs[3][1]['/Contents'] = [6j, 7j] if split else 6j
    which = c.choice('second', ['text', 'empty', 'none', 'nothing shown'])
    if which == 'text':
        objs[4][1]['/Contents'] = 8j
    elif which == 'empty':
        objs[4][1]['/Contents'] = []
    elif which == 'nothing shown':
        objs[8] = (0, St({}, b'q 1 0 0 1 0 0 cm Q'))
        objs[4][1]['/Contents'] = 8j
    w = Writer()
    w.revision(objs)
    doc = p.loads(w.out)
    judge(c, p.extract_page_text(doc, 0), [(20, 100, t[0]), (20, 50, t[1])][:2 if split else 1], apart=11)
    out = p.extract_page_text(doc, 1)
    if which == 'text':
        c.same(out.strip(), t[2], 'text of the second page')
    else:
        c.same(out.strip(), '', 'no text')


CASES = [
    ('free', free, {'quick': [dict(lens=[]), dict(lens=[2]), dict(lens=[1]), dict(lens=[1, 1]), dict(lens=[3, 2]), dict(lens=[2, 2], half=True, xs=(-20, 20), ys=(-40, 40)), dict(lens=[2, 1, 2], xs=(0, 6), ys=(0, 14))],
                    'thorough': [dict(lens=[2, 2, 2], xs=(0, 24)), dict(lens=[3, 1], half=True, xs=(-60, 60), ys=(-80, 80)), dict(lens=[2, 2, 2, 1], xs=(0, 8), ys=(0, 16), scale=8)]}, 'up to 3 (thorough: 4) fragments at any integral or half-integral positions of a window'),
    ('sizes', sizes, {'quick': [dict(lens=[2]), dict(lens=[2, 1])], 'thorough': [dict(lens=[2, 1, 2])]}, 'up to 2 (thorough: 3) fragments of null, positive or negative sizes'),
    ('regular', regular, {'quick': [dict(lines=3, columns=1), dict(lines=3, columns=2), dict(lines=2, columns=3), dict(lines=4, columns=1, titles=True), dict(lines=4, columns=2, pitch=(11, 30))],
                          'thorough': [dict(lines=5, columns=2, pitch=(11, 40)), dict(lines=3, columns=3, pitch=(11, 40))]}, 'pages of 2–5 lines and 1–3 columns, any origin and pitch'),
    ('large', regular, [dict(lines=30, columns=1, pitch=(12, 13)), dict(lines=12, columns=4, pitch=(12, 12)), dict(lines=9, columns=6, pitch=(12, 12), titles=True, step=30)], 'pages of up to 54 fragments in up to 30 lines and up to 6 columns'),
    ('page', page, {'quick': [dict(ops=['Td', 'Td']), dict(ops=['Td', "'"]), dict(ops=['Tm', 'T*', "'"]), dict(ops=['Tm', 'Tm']), dict(ops=['T*', 'Td'])],
                    'thorough': [dict(ops=[a, b, d]) for a in ['Td', 'Tm', 'T*', "'"] for b in ['Td', 'T*', "'"] for d in ['Td', 'Tm']]}, 'content streams of 2 or 3 shown texts'),
    ('several', several, [dict(n=2, split=s) for s in (False, True)], 'two pages'),
]
