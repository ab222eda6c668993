"""The list of fonts tells each font object once, with its attributes and the pages that use it."""
import pdfsyntax as p
import pdfsyntax.cli as cli
import pdfsyntax.api as api
from props.common import *
from props.pdffile import *
from props.c31 import File

ENC = ['/WinAnsiEncoding', '/MacRomanEncoding', '/Identity-H']


def encoding(c, n, kinds, objs, at):
    """An encoding entry, and what it is called."""
    k = c.choice(n + '.encoding', kinds)
    if k == 'none':
        return None, None
    if k == 'name':
        x = '/' + c.text(n + '.enc', 2, LETTERS)
        return x, x[1:]
    if k == 'known':
        x = c.choice(n + '.enc', ENC)
        return x, x[1:]
    if k == 'dict':
        return {'/Type': '/Encoding', '/Differences': [65, '/B']}, 'other'
    if k == 'indirect dict':
        objs[at] = (0, {'/Type': '/Encoding', '/BaseEncoding': '/MacRomanEncoding', '/Differences': [65, '/B']})
        return complex(0, at), 'other'
    if k == 'indirect name':
        objs[at] = (0, '/MacRomanEncoding')
        return complex(0, at), 'MacRomanEncoding'
    if k == 'null':
        return 'null', None


def font(c, n, objs, at, kinds, types=('/Type1', '/TrueType', '/Type0', '/Type3'), uni=True, indirect=False, name='text', gen=0):
    """A font object with its attributes; returns what the list should tell."""
    d = {'/Type': '/Font'}
    t = c.choice(n + '.type', list(types))
    d['/Subtype'] = t
    if indirect:
        objs[at + 3] = (0, t)
        d['/Subtype'] = complex(0, at + 3)
    base = c.text(n + '.base', 3, REGULAR) if name == 'text' else name
    if c.flag(n + '.named') if name == 'text' else True:
        d['/BaseFont'] = '/' + base
        if indirect:
            objs[at + 4] = (0, '/' + base)
            d['/BaseFont'] = complex(0, at + 4)
    else:
        base = ''
    e, label = encoding(c, n, kinds, objs, at + 1)
    if e is not None:
        d['/Encoding'] = e
    u = uni and c.flag(n + '.unicode')
    if u:
        objs[at + 2] = (0, St({}, b'1 beginbfchar <41> <0061> endbfchar'))
        d['/ToUnicode'] = complex(0, at + 2)
    objs[at] = (gen, d)
    return {'name': base, 'type': t[1:], 'encoding': label or ('built-in' if t == '/Type1' else 'other'), 'to_unicode': u, 'gen': gen}


def document(pages, nodes, objs):
    """pages: list of (resources or None); nodes: resources of the root and of the intermediate node (pages 1..)."""
    o = {1: (0, {'/Type': '/Catalog', '/Pages': 2j}), **objs}
    root = {'/Type': '/Pages', '/Count': len(pages)}
    mid = {'/Type': '/Pages', '/Parent': 2j, '/Kids': [complex(0, 10 + i) for i in range(1, len(pages))], '/Count': len(pages) - 1}
    for d, r in zip((root, mid), nodes):
        if r is not None:
            d['/Resources'] = r
    root['/Kids'] = [10j] + ([3j] if len(pages) > 1 else [])
    o[2] = (0, root)
    if len(pages) > 1:
        o[3] = (0, mid)
    for i, r in enumerate(pages):
        d = {'/Type': '/Page', '/Parent': 3j if i else 2j, '/MediaBox': [0, 0, 9, 9]}
        if r is not None:
            d['/Resources'] = r
        o[10 + i] = (0, d)
    return Writer().revision(o).out


def effective(pages, nodes):
    res = []
    for i, r in enumerate(pages):
        if r is None and i:
            r = nodes[1]
        if r is None:
            r = nodes[0]
        res.append(r)
    return res


def concrete(x):
    return x if type(x) is str else str(x)


def judge(c, data, want, command=True):
    """want: {object number: attributes with pages}, in order of first use."""
    got = p.fonts(p.loads(data))
    c.same(len(got), len(want), 'number of fonts')
    for n, w in want.items():
        k = complex(w['gen'], n)
        c.check(k in got, 'font object')
        for a in ('name', 'type', 'encoding', 'to_unicode', 'pages'):
            c.same(got[k][a], w[a], a)
    if not command:
        return
    c.set_open(lambda n, mode='r', *a, **k: File(data), api)
    c.forget_printed()
    cli.print_fonts('f.pdf')
    lines = c.printed().split('\n')
    c.same(lines[0].split(), ['Name', 'Type', 'Encoding', 'Obj', 'Pages'], 'header')
    rows = {}
    for ln in lines[1:1 + len(want)]:
        cols, at = [], 0
        for width in (30, 10, 16, 8, 6):
            cols.append(ln[at:at + width])
            at += width + 1
        rows[concrete(cols[3])] = cols
    for n, w in want.items():
        exp = [w['name'], w['type'], w['encoding'], f"{n},{w['gen']}", str(len(w['pages']))]
        exp = [e[:x] + ' ' * (x - len(e)) for e, x in zip(exp, (30, 10, 16, 8, 6))]
        c.check(exp[3] in rows, 'a line for each font')
        c.same(rows[exp[3]], exp, 'line of a font')
    c.same([x for x in lines[1 + len(want):] if x != ''], [], 'one line for each font')


def attributes(c, kinds, types=('/Type1', '/TrueType', '/Type0', '/Type3'), **k):
    """One font with any attributes."""
    objs = {}
    g = c.choice('gen', [0, 7, 65534])
    w = font(c, 'f', objs, 20, kinds, types, gen=g, **k)
    w['pages'] = [0]
    judge(c, document([{'/Font': {'/F1': complex(g, 20)}}], [None, None], objs), {20: w})


def usage(c, n, fonts=2, where='pages', dup=True, twins=False):
    """Fonts used by any pages, under any names, through own, inherited or indirect resources."""
    objs = {}
    ws = {}
    for i in range(fonts):
        t = ['/Type0' if twins else '/Type1']
        ws[20 + 10 * i] = font(c, f'f{i}', objs, 20 + 10 * i, ['none'], t, uni=False, name='Same' if twins else f'Font{i}', gen=3 * i)
    nums = list(ws)

    def resources(s):
        kind = c.choice(s, (['own', 'none'] if where == 'pages' else ['own', 'none', 'without fonts', 'indirect', 'indirect fonts', 'empty', 'nothing']))
        if kind == 'none':
            return None, None
        if kind == 'without fonts':
            return {'/ProcSet': ['/PDF']}, []
        if kind == 'nothing':
            return {}, []
        if kind == 'empty':
            return {'/Font': {}}, []
        use = [c.choice(f'{s}.{j}', nums) for j in range(2 if dup else 1)]
        d = {f'/F{j}': complex(ws[u]['gen'], u) for j, u in enumerate(use)}
        if kind == 'indirect fonts':
            objs[at[0]] = (0, d)
            d = complex(0, at[0])
            at[0] += 1
        r = {'/Font': d}
        if kind == 'indirect':
            objs[at[0]] = (0, r)
            r = complex(0, at[0])
            at[0] += 1
        return r, use
    at = [60]
    pages = [resources(f'page{i}') for i in range(n)]
    nodes = [resources(f'node{i}') if where != 'pages' or i == 0 else (None, None) for i in range(2 if n > 1 else 1)]
    if n == 1:
        nodes.append((None, None))
    want = {}
    for i, use in enumerate(effective([u for _, u in pages], [u for _, u in nodes])):
        for u in use or []:
            w = want.setdefault(u, {**ws[u], 'pages': []})
            if i not in w['pages']:
                w['pages'].append(i)
    judge(c, document([r for r, _ in pages], [r for r, _ in nodes], objs), want)


def large(c, n):
    """Many pages and fonts, long names and encodings."""
    objs = {}
    want = {}
    pages = []
    for i in range(n):
        k = 100 + 10 * i
        w = font(c, f'f{i}', objs, k, [['none', 'dict', 'indirect name', 'null'][i % 4]], [['/Type1', '/TrueType', '/Type0'][i % 3]], uni=False, name='A' * (i * 5) + str(i), gen=i * i * 30)
        want[k] = {**w, 'pages': []}
    x = c.choice('where', list(range(n)))
    for i in range(2 * n):
        use = [i % n, (i * 3 + 1) % n] if i != x else [c.choice('which', list(range(n)))] * 2
        pages.append({'/Font': {f'/F{j}': complex(u * u * 30, 100 + 10 * u) for j, u in enumerate(use)}})
        for u in use:
            if i not in want[100 + 10 * u]['pages']:
                want[100 + 10 * u]['pages'].append(i)
    order = {}
    for i, r in enumerate(pages):
        for f in r['/Font'].values():
            order[int(f.imag)] = want[int(f.imag)]
    judge(c, document(pages, [None, None], objs), order)


ALL = ['none', 'name', 'known', 'dict', 'indirect dict', 'indirect name', 'null']
CASES = [
    ('attributes', attributes, {'quick': [dict(kinds=ALL), dict(kinds=['known', 'null'], indirect=True, uni=False)], 'thorough': [dict(kinds=ALL), dict(kinds=ALL, indirect=True)]}, 'one font of any type, with any three-character name, direct or indirect encodings'),
    ('usage', usage, {'quick': [dict(n=1), dict(n=2), dict(n=1, where='all'), dict(n=2, where='all', fonts=1, dup=False), dict(n=2, twins=True)], 'thorough': [dict(n=3, twins=True, dup=False), dict(n=3, dup=False), dict(n=2, where='all', dup=False), dict(n=2, where='all', fonts=1), dict(n=2, fonts=3)]}, 'two or three fonts on up to three pages, own and inherited resources'),
    ('large', large, {'quick': [dict(n=6)], 'thorough': [dict(n=6), dict(n=12)]}, 'up to 12 fonts on 24 pages'),
]
