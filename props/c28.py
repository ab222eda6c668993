"""A content stream is broken down into exactly its commands."""
import pdfsyntax.graphics as g
import pdfsyntax as p
from props.common import *
from props.pdffile import *

OPS = ['b', 'B', 'b*', 'B*', 'BDC', 'BI', 'BMC', 'BT', 'BX', 'c', 'cm', 'CS', 'cs', 'd', 'd0', 'd1', 'Do', 'DP', 'EMC', 'ET', 'EX', 'f', 'F', 'f*', 'G', 'g', 'gs', 'h', 'i', 'j', 'J', 'K', 'k', 'l', 'm', 'M', 'MP', 'n', 'q', 'Q', 're', 'RG', 'rg', 'ri', 's', 'S', 'SC', 'sc', 'SCN', 'scn', 'sh', 'T*', 'Tc', 'Td', 'TD', 'Tf', 'Tj', 'TJ', 'TL', 'Tm', 'Tr', 'Ts', 'Tw', 'Tz', 'v', 'w', 'W', 'W*', 'y', "'", '"']
OPS.remove('BI')
KINDS = ['bool', 'null', 'int', 'real', 'name', 'lstring', 'hstring', 'array', 'dict', 'nested']


def operand(c, n, kinds=KINDS):
    k = c.choice(n + '.k', kinds)
    if k in ('array', 'dict', 'nested'):
        x = a_scalar(c, n, ['name', 'lstring', 'int'], small=True)
        return [x, 3] if k == 'array' else {'/MCID': x} if k == 'dict' else [[x], {'/A': [b'(Tj)', 'null']}, []]
    if k == 'int':
        return c.int(n, -99, 999)
    return a_scalar(c, n, [k], small=True)


def text(cmds, sep=b'\n'):
    out = b''
    for cmd in cmds:
        for x in cmd[:-1]:
            out = out + pt(x) + b' '
        out = out + cmd[-1].encode('ascii') + sep
    return out


def sequences(c, counts, kinds=KINDS, ops=None):
    """Commands with the given numbers of operands, any operators."""
    cmds = []
    for i, k in enumerate(counts):
        cmds.append([operand(c, f'x{i}.{j}', kinds) for j in range(k)] + [c.choice(f'op{i}', ops or OPS)])
    c.same(g.parse_stream_content(text(cmds)), cmds, 'commands')


def operators(c, n, arity):
    """Operators made of any letters."""
    cmds = []
    for i in range(n):
        op = c.text(f'o{i}', c.choice(f'len{i}', [1, 2]), LETTERS)
        c.assume(op != 'R')
        cmds.append([7] * arity + [op])
    got = g.parse_stream_content(text(cmds))
    c.same(len(got), len(cmds), 'number')
    c.same(got, cmds, 'commands')


def numbers(c, n):
    """Many numbers before operators that look like parts of references."""
    cmds = [[c.int(f'a{i}', 0, 99) for i in range(n)] + [c.choice('op', ['RG', 're', 'rg', 'ri', 'R*', 'l'])], [1, 0, 'RG'], [0, 0, 0, 'rg']]
    c.same(g.parse_stream_content(text(cmds)), cmds, 'commands')


def long(c, n, kind):
    """Many operands, many commands, long and deep operands."""
    if kind == 'operands':
        cmds = [['q'], [i for i in range(n)] + [c.int('x', -99, 99), '/P1', c.choice('op', ['scn', 'SCN', "'"])], ['Q']]
    elif kind == 'commands':
        cmds = []
        for i in range(n):
            cmds += [['q'], [i, 'w'], ['Q'], ['Q'], [[b'(a)', i], 'TJ']]
        cmds += [[c.int('x', 10, 99), 'g'], ['n']]
    elif kind == 'array':
        cmds = [[[x for i in range(n) for x in (b'(a)', -i)] + [c.int('x', -99, 99)], 'TJ'], [b'(' + b'ab ' * n + c.bytes('b', 1, PLAIN) + b')', 'Tj'], ['/' + 'n' * n, 'gs']]
    else:
        x = c.int('x', -99, 99)
        d = [x]
        for i in range(n):
            d = [d, i] if i % 2 else {'/A': d, '/B': i}
        cmds = [['/OC', {'/A': d}, 'BDC'], [x, 0, 'm'], ['EMC']]
    c.same(g.parse_stream_content(text(cmds, c.choice('sep', [b'\n', b' ', b'\r\n']))), cmds, 'commands')


def repeated(c, n):
    """The same commands again and again."""
    pool = [['q'], ['Q'], [1, 'g']]
    cmds = [c.choice(f'c{i}', pool) for i in range(n)]
    c.same(g.parse_stream_content(text(cmds)), cmds, 'commands')


def separators(c, kind):
    """Any white space and comments between tokens, none where not needed."""
    def ws(n):
        return c.bytes(n, 1, WS)
    if kind == 'space':
        s = ws('a') + b'q' + ws('b') + b'1' + ws('c') + b'0' + ws('d') + b'0 1 5 6' + ws('e') + b'cm' + ws('f') + b'Q' + ws('g')
        want = [['q'], [1, 0, 0, 1, 5, 6, 'cm'], ['Q']]
    elif kind == 'tight':
        s = b'[(a)-1(b)]TJ/F1 12Tf'.replace(b'12Tf', b'12 Tf') + ws('a') + b'(x)Tj<41>Tj/P<</MCID 0>>BDC' + ws('b') + b'EMC'
        want = [[[b'(a)', -1, b'(b)'], 'TJ'], ['/F1', 12, 'Tf'], [b'(x)', 'Tj'], [b'<41>', 'Tj'], ['/P', {'/MCID': 0}, 'BDC'], ['EMC']]
    elif kind == 'comment':
        x = c.bytes('x', 2)
        c.assume(all([b != 10 and b != 13 for b in x]))
        s = b'q %' + x + c.choice('eol', [b'\n', b'\r', b'\r\n']) + b'1 w%' + x + b'\nQ %' + x
        want = [['q'], [1, 'w'], ['Q']]
    else:
        s = ws('a') * c.choice('k', [0, 1, 3])
        want = []
    c.same(g.parse_stream_content(s), want, 'commands')


def strings(c, k):
    """Strings with any contents are operands."""
    cmds = [['/F1', 12, 'Tf'], [b'(' + c.bytes('s', k, PLAIN) + b')', 'Tj'], [[b'(' + c.bytes('t', 1, PLAIN) + b'\\)Tj)', c.int('n', -99, 99), b'<' + c.bytes('h', 2, HEX) + b'>'], 'TJ'], ['ET']]
    c.same(g.parse_stream_content(text(cmds, c.choice('sep', [b'\n', b' ', b'\r\n']))), cmds, 'commands')


def pages(c, parts):
    """The contents of a page, in one stream or several."""
    objs = page_objs(1)
    cmds = [['q'], [1, 0, 0, 1, c.int('x', 10, 99), 5, 'cm'], ['/Im1', 'Do'], ['Q']]
    t = text(cmds)
    refs = []
    cut = c.choice('cut', [2, 4, 6, 8, 10])
    datas = [t] if parts == 1 else [t[:cut], t[cut:]] if parts == 2 else [t[:2], t[2:cut], t[cut:]]
    for i, d in enumerate(datas):
        objs[5 + i] = (0, St({}, d))
        refs.append(complex(0, 5 + i))
    objs[3][1]['/Contents'] = refs[0] if parts == 1 else refs
    w = Writer()
    w.revision(objs)
    doc = p.loads(w.out)
    got = b'\n'.join([x.stream for x in p.get_page_contents(doc, 0)])
    c.same(g.parse_stream_content(got), cmds, 'page commands')


CASES = [
    ('separators', separators, [dict(kind=k) for k in ('space', 'tight', 'comment', 'empty')], 'one symbolic white-space byte per place, comments of two bytes'),
    ('repeated', repeated, {'quick': [dict(n=4)], 'thorough': [dict(n=7)]}, 'every sequence of four of three commands (thorough: seven)'),
    ('long', long, {'quick': [dict(n=12, kind=k) for k in ('operands', 'commands', 'array', 'nested')] + [dict(n=70, kind=k) for k in ('operands', 'array')], 'thorough': [dict(n=70, kind='commands'), dict(n=40, kind='nested'), dict(n=300, kind='operands')]}, 'up to 72 operands, 62 commands and nesting of 12 (thorough: 302, 352 and 40)'),
    ('strings', strings, [dict(k=2)], 'strings of two arbitrary bytes'),
    ('numbers', numbers, [dict(n=k) for k in (0, 1, 2, 3, 6)], 'up to six numbers'),
    ('operators', operators, [dict(n=2, arity=0), dict(n=2, arity=1), dict(n=2, arity=2)], 'operators of one or two arbitrary letters'),
    ('pages', pages, [dict(parts=k) for k in (1, 2)], 'contents of one or two streams'),
    ('sequences', sequences, {'quick': [dict(counts=(1,)), dict(counts=(0, 0), ops=['q', 'Q', "'", '"', 'T*', 'f*', 'd0', 'null*']), dict(counts=(2,), ops=['Do', 'TJ']), dict(counts=(0, 1), ops=['n', 'TJ']), dict(counts=(1, 0), ops=['n', "'"]), dict(counts=(1, 1), ops=['Tj'])],
                              'thorough': [dict(counts=(2, 1), ops=['DP', 'T*'], kinds=['bool', 'null', 'int', 'name', 'lstring', 'hstring', 'array', 'dict']), dict(counts=(0, 1, 0, 1), ops=['n', 'q'])]}, 'operands of all kinds with one symbolic unit'),
]
