"""The documentation generator keeps every text and closes every element."""
import pdfsyntax.markdown as md
from props.common import *

PROSE = b'abzAZ09.,:;-+=#|_\'"/()!?&~%{}$^@\\'
INLINE = PROSE
PROSE = PROSE + b'[]'
INCODE = b'az0*_<>&#.|\'"()-=/'
URL = b'az09./-_#?=&%:~\''
CODE = b'az0<>&#*_-=|.>[]()!`"\' '
SIGNS = b'abzAZ09.,:;-+=#"/()?~%${}@'
VOID = ('br', 'img', 'hr')


def unescape(text):
    for a, b in (('&lt;', '<'), ('&gt;', '>'), ('&quot;', '"'), ('&#x27;', "'"), ('&#39;', "'"), ('&amp;', '&')):
        text = text.replace(a, b)
    return text


def tag_of(c, s):
    """Element name and attributes of a tag as written."""
    i = s.find(' ')
    if i < 0:
        return (s.rstrip('/'), {})
    name = s[:i]
    attrs = {}
    while True:
        while i < len(s) and s[i] in ' /':
            i += 1
        if i >= len(s):
            return (name, attrs)
        j = s.find('=', i)
        q = s[j + 1]
        k = s.find(q, j + 2)
        c.check(j >= i and (q == "'" or q == '"') and k >= 0, 'attribute as it should be')
        attrs[s[i:j]] = unescape(s[j + 2:k])
        i = k + 1


def tokens(c, page):
    """Elements opened, closed, and texts; white space counts inside <pre> only."""
    out = []
    stack = []
    i = 0
    pre = 0
    while i < len(page):
        j = page.find('<', i)
        if j < 0:
            j = len(page)
        if j > i:
            t = page[i:j]
            if not pre:
                t = ' '.join(t.split())
            if t:
                out.append(('text', unescape(t)))
        if j >= len(page):
            break
        k = page.find('>', j)
        c.check(k >= 0, 'tag never ends')
        body = page[j + 1:k]
        i = k + 1
        if body[0:1] == '/':
            c.check(len(stack) > 0, 'element closed that was not open')
            c.same(stack.pop(), body[1:], 'element closed')
            pre -= 1 if body[1:] == 'pre' else 0
            if body[1:] == 'p' and out[-1] == ('open', 'p', {}):
                out.pop()
            else:
                out.append(('close', body[1:]))
        else:
            name, attrs = tag_of(c, body)
            if name not in VOID:
                stack.append(name)
                pre += 1 if name == 'pre' else 0
            out.append(('open', name, attrs))
    c.same(stack, [], 'elements left open')
    return out


def judge(c, text, want):
    got = tokens(c, md.render_html(text))
    c.same(len(got), len(want), 'number of elements and texts')
    for g, w in zip(got, want):
        c.same(g[0], w[0], 'kind')
        if w[0] == 'open':
            c.same(g[1], w[1], 'element')
            c.same(g[2], w[2], 'attributes')
        elif w[0] == 'close':
            c.same(g[1], w[1], 'element')
        elif w[0] == 'pre':
            c.same(g[1], w[1], 'code')
        else:
            c.same(g[1], w[1], 'text')


def el(name, *inside, **attrs):
    out = [('open', name, attrs)]
    for x in inside:
        out.extend(x)
    return out if name in VOID else out + [('close', name)]


def txt(s):
    return [('text', s)]


def word(c, n, allowed=PROSE, tail='y'):
    return 'x' + c.text(n, 1, allowed) + tail


def span(c, n, kind):
    """Source and expected tokens of an inline element."""
    if kind == 'code':
        t = word(c, n, INCODE)
        return '`' + t + '`', el('code', txt(t))
    if kind in ('*', '_', '**', '__', '***'):
        t = word(c, n, INLINE if kind[0] == '*' else INLINE.replace(b'_', b'')) + ' w'
        inner = txt(t)
        k = len(kind)
        if k == 1:
            return kind + t + kind, el('em', inner)
        if k == 2:
            return kind + t + kind, el('strong', inner)
        return kind + t + kind, el('em', el('strong', inner))
    if kind in ('link', 'md', 'image'):
        t = word(c, n + 't', INLINE)
        u = 'u' + c.text(n + 'u', 1, URL) + 'v'
        if kind == 'md':
            return '[' + t + '](' + u + '.md)', el('a', txt(t), href=u + '.html')
        if kind == 'image':
            return '![' + t + '](' + u + '.png)', el('img', src=u + '.png', alt=t)
        return '[' + t + '](' + u + ')', el('a', txt(t), href=u)
    t = word(c, n)
    return t, txt(t)


def join(parts):
    """One line of the spans given and the tokens expected, neighbouring texts merged."""
    src = ''
    out = []
    for s, toks in parts:
        src = src + (' ' if src else '') + s
        for t in toks:
            if t[0] == 'text' and out and out[-1][0] == 'text':
                out[-1] = ('text', out[-1][1] + ' ' + t[1])
            else:
                out.append(t)
    return src, out


SPANS = ['text', 'code', '*', '_', '**', '__', '***', 'link', 'md', 'image']


def inline(c, kinds, where):
    """Spans one after the other in a paragraph, heading, item or cell."""
    first = c.choice('k0', kinds)
    second = c.choice('k1', kinds)
    line, toks = join([span(c, 'a', first), span(c, 'b', second)])
    if where == 'td':
        c.assume('|' not in line)
    if c.flag('tail'):
        tail = c.text('tail', 1, PROSE if where != 'td' else PROSE.replace(b'|', b''))
        if tail in '_':
            return
        last = ('text', 'z' + tail)
        line = line + ' z' + tail
        if toks[-1][0] == 'text':
            toks[-1] = ('text', toks[-1][1] + ' z' + tail)
        else:
            toks.append(last)
    if where == 'p':
        judge(c, line + '\n\n', el('p', toks))
    elif where == 'h':
        judge(c, '## ' + line + '\n', el('h2', toks))
    elif where == 'li':
        judge(c, '- ' + line + '\n- w\n\n', el('ul', el('li', toks), el('li', txt('w'))))
    else:
        judge(c, '| h | i |\n| -- | -- |\n| ' + line + ' | w |\n\n',
              el('table', el('thead', el('tr', el('th', txt('h')), el('th', txt('i')))), el('tbody', el('tr', el('td', toks), el('td', txt('w'))))))


def glued(c):
    """Spans with punctuation right before and after them."""
    kind = c.choice('k', ['code', '*', '**', 'link', 'md'])
    s, toks = span(c, 'a', kind)
    before = c.text('b', 1, b'az.,:;(/"\'')
    after = c.text('e', 1, b'az.,:;)/"\'!?')
    lead = c.flag('lead')
    src = ('w' + before if lead else '') + s + after
    want = (txt('w' + before) if lead else []) + toks + txt(after)
    judge(c, src + '\n', el('p', want))


def block(c, n, kind, free=1):
    """Lines of a block and the tokens expected."""
    w = lambda k='': word(c, n + k)
    if kind == 'p':
        t = w()
        return [t], el('p', txt(t))
    if kind == 'p2':
        a, b = w('0'), w('1')
        return [a, b], el('p', txt(a + ' ' + b))
    if kind == 'br':
        a, b = w('0'), w('1')
        return [a + '  ', b], el('p', txt(a), el('br'), txt(b))
    if kind == 'p_':
        a, b = w('0'), c.text(n + '1', 1, LETTERS)
        return [a, '_' + b + '_ z'], el('p', txt(a), el('em', txt(b)), txt('z'))
    if kind[0] == 'h':
        t = w()
        return ['#' * int(kind[1]) + ' ' + t], el(kind, txt(t))
    if kind == '==':
        t = w()
        return [t, '=' * c.choice(n + 'u', [2, 3, 7])], el('h1', txt(t))
    if kind == '--':
        t = w()
        return [t, '-' * c.choice(n + 'u', [2, 3, 7])], el('h2', txt(t))
    if kind in ('*', '+', '-', '1.', '12.', '0.', '90.'):
        items = [w('0'), w('1')]
        return [kind + ' ' + t for t in items], el('ol' if kind[-1] == '.' else 'ul', *[el('li', txt(t)) for t in items])
    if kind == 'table':
        cells = [word(c, n + str(i), PROSE.replace(b'|', b'')) for i in range(2)]
        return ['| A | B |', '| --- | --- |', '| ' + cells[0] + ' | b |', '| c | ' + cells[1] + ' |'], el('table',
            el('thead', el('tr', el('th', txt('A')), el('th', txt('B')))),
            el('tbody', el('tr', el('td', txt(cells[0])), el('td', txt('b'))), el('tr', el('td', txt('c')), el('td', txt(cells[1])))))
    if kind == 'empty':
        t = word(c, n, PROSE.replace(b'|', b''))
        i, j = c.choice(n + 'at', [(0, 1), (1, 0), (0, 0), (1, 1)])
        rows = [[t, 'b'], ['c', 'd']]
        rows[i][j] = ''
        src = ['| ' + ' | '.join([x or c.choice(n + 'blank', ['', '  ']) for x in row]) + ' |' for row in rows]
        return ['| A | B |', '| --- | --- |'] + src, el('table',
            el('thead', el('tr', el('th', txt('A')), el('th', txt('B')))),
            el('tbody', *[el('tr', *[el('td', txt(x)) if x else el('td') for x in row]) for row in rows]))
    if kind in ('fence', 'lang'):
        t = c.text(n, free, CODE) + ('<&' if free < 3 else '')
        if t == '```':
            c.assume(False)
        return ['```' + ('python' if kind == 'lang' else ''), t, '', '    # z', '```'], el('pre', [('text', t + '\n\n    # z\n')])
    if kind == 'indent':
        t = c.text(n, min(free, 2), CODE[:-1])
        return ['    a' + t, '        b', '    c'], [('open', 'pre', {}), ('code', ['a' + t, '    b', 'c']), ('close', 'pre')]
    if kind in ('p3', 'quote3'):
        t = [w('0'), 'second', w('2')]
        if kind == 'p3':
            return t, el('p', txt(' '.join(t)))
        return ['> ' + x for x in t], el('blockquote', el('p', txt(' '.join(t))))
    if kind == 'fence3':
        t = c.text(n, 1, CODE) + '<'
        return ['```', t, 'b', '', '    # z', '', 'e', '```'], el('pre', [('text', t + '\nb\n\n    # z\n\ne\n')])
    if kind == 'signs':
        t = c.text(n, 1, SIGNS) + 'y'
        u = c.text(n + 'u', 1, SIGNS) + 'y'
        return ['| A | B |', '| --- | --- |', '| ' + t + ' | b |', '| ' + u + ' | d |'], el('table',
            el('thead', el('tr', el('th', txt('A')), el('th', txt('B')))),
            el('tbody', el('tr', el('td', txt(t)), el('td', txt('b'))), el('tr', el('td', txt(u)), el('td', txt('d')))))
    if kind == 'sign':
        t = c.text(n, 1, SIGNS) + 'y'
        return ['## ' + t], el('h2', txt(t))
    if kind == 'quote':
        a, b = w('0'), w('1')
        return ['> ' + a, '> ' + b], el('blockquote', el('p', txt(a + ' ' + b)))


KINDS = ['p', 'p2', 'p_', 'br', 'h1', 'h2', 'h3', 'h4', 'h5', 'h6', '==', '--', '*', '+', '-', '1.', '12.', '0.', '90.', 'table', 'empty', 'fence', 'lang', 'indent', 'quote', 'p3', 'quote3', 'fence3', 'signs', 'sign']


def expect(c, text, want):
    """As judge, with indented code compared up to its common indentation."""
    got = tokens(c, md.render_html(text))
    c.same(len(got), len(want), 'number of elements and texts')
    for g, w in zip(got, want):
        if w[0] == 'code':
            c.same(g[0], 'text', 'kind')
            lines = g[1].split('\n')
            if lines[-1] == '':
                lines.pop()
            if all([x[:4] == '    ' for x in lines]):
                lines = [x[4:] for x in lines]
            c.same(lines, w[1], 'code')
        else:
            c.same(g, w, 'element or text')


def blocks(c, kinds, count, eols=('\n',)):
    """Blocks with one or two blank lines between them, the last one with or without an end of line."""
    eol = c.choice('eol', list(eols))
    src = ''
    want = []
    for i in range(count):
        k = c.choice(f'k{i}', kinds if type(kinds[0]) is str else kinds[i])
        lines, toks = block(c, f't{i}', k, 3 if count == 1 else 1)
        if src:
            src = src + eol * c.choice(f's{i}', [2, 3])
        src = src + eol.join(lines)
        want = want + toks
    src = src + eol * c.choice('end', [0, 1, 2])
    expect(c, src, want)


def adjacent(c, first, second):
    """A block right after another one, without a blank line: every text stays, in order."""
    a, x = block(c, 'a', c.choice('first', first))
    b, y = block(c, 'b', c.choice('second', second))
    src = '\n'.join(a + b + ['', 'end', ''])
    got = [t[1] for t in tokens(c, md.render_html(src)) if t[0] == 'text']
    want = []
    for t in x + y + txt('end'):
        if t[0] == 'text':
            want.append(t[1])
        elif t[0] == 'code':
            want.append('\n'.join(t[1]))
    c.same(' '.join(' '.join(got).split()), ' '.join(' '.join(want).split()), 'texts')


def nested(c):
    """A list with items of a second list below its first item."""
    m = c.choice('m', ['*', '-', '1.'])
    k = c.choice('k', ['*', '-', '1.'])
    ind = c.choice('indent', [1, 2, 3])
    t = [word(c, f't{i}') for i in range(4)]
    src = '\n'.join([m + ' ' + t[0], ' ' * ind + k + ' ' + t[1], ' ' * ind + k + ' ' + t[2], m + ' ' + t[3], ''])
    got = tokens(c, md.render_html(src))
    c.same([x[1] for x in got if x[0] == 'text'], t, 'texts of the items')
    c.same(len([x for x in got if x[0] == 'open' and x[1] == 'li']), 4, 'items')


STARTERS = ['h1', 'h3', '*', '1.', 'table', 'fence', 'indent', 'quote']
CASES = [
    ('blocks', blocks, {'quick': [dict(kinds=KINDS, count=1, eols=['\n', '\r\n'])]
        + [dict(kinds=[[k], KINDS], count=2) for k in ('p', 'h2', '*', 'table', 'fence', 'indent', 'quote', '==')],
        'thorough': [dict(kinds=[[k], KINDS], count=2, eols=['\n', '\r\n']) for k in KINDS] + [dict(kinds=[[k], ['p', '*', 'quote'], ['p', 'h3', '==', '1.', 'table', 'fence', 'indent', 'quote']], count=3) for k in ('p2', 'h1', '-', 'fence', 'indent', 'quote')]},
     'documents of 1-2 blocks (thorough 3) of 30 kinds: one-, two- and three-line paragraphs, hard breaks, headings of 6 levels and underlined, 3 bullet signs, numbers, tables (with empty cells too), fenced and indented code, quotes; every character of a set of 33 in each text, 3 free characters of code; 1-2 blank lines between, 0-2 ends of line at the end, LF or CRLF'),
    ('inline', inline, {'quick': [dict(kinds=SPANS, where='p'), dict(kinds=SPANS[:5], where='h'), dict(kinds=['text', 'code', '**', 'md'], where='li')],
        'thorough': [dict(kinds=SPANS, where=w) for w in ('p', 'h', 'li')]},
     'two inline elements of 10 kinds in a paragraph, heading or item, any character of the set inside, text ending in any character behind'),
    ('cells', inline, {'quick': [dict(kinds=['code', 'link', '**'], where='td')], 'thorough': [dict(kinds=[k for k in SPANS if k != 'text'], where='td')]},
     'two inline elements in a table cell'),
    ('punctuation', glued, {'quick': [dict()], 'thorough': [dict()]}, 'an inline element with any sign right before and behind it'),
    ('adjacent', adjacent, {'quick': [dict(first=[k], second=['p', 'h2', 'fence', 'table']) for k in STARTERS], 'thorough': [dict(first=[k], second=['p', 'p2', 'h1', 'h4', 'fence', 'table', 'quote', '*']) for k in STARTERS]},
     'blocks that follow a heading, list, table, code or quote without a blank line'),
    ('nested lists', nested, {'quick': [dict()], 'thorough': [dict()]}, 'lists of lists, 1-3 columns of indentation, three markers'),
]
