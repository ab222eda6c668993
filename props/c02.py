"""String and comment contents never disturb the structure around them."""
import pdfsyntax.objects as o
from props.common import *

LP, RP, BS = 40, 41, 92

# container text around the item: (before, after, function of the parsed value giving the item, value once the item is removed)
HOLES = {
    'array': (b'[1 ', b' 2]'),
    'tight array': (b'[', b']'),
    'dict': (b'<</A ', b'/B 2>>'),
    'dict end': (b'<< /B 2 /A', b'>>'),
    'nested': (b'<</K[<</A', b'>>[3]]/L 4>>'),
    'array in dict': (b'<< /A [', b'] /B [5]>>'),
}


def expected(hole, item):
    if hole == 'array':
        return [1] + item + [2]
    if hole == 'tight array':
        return item
    if hole == 'dict' or hole == 'dict end':
        return {'/A': item[0], '/B': 2}
    if hole == 'nested':
        return {'/K': [{'/A': item[0]}, [3]], '/L': 4}
    return {'/A': item, '/B': [5]}


def balanced(body):
    """Reference reading of a literal string: parentheses balance and no escape is cut."""
    depth = 0
    i = 0
    n = len(body)
    while i < n:
        x = body[i]
        if x == BS:
            i += 1
            if i == n:
                return False
        elif x == LP:
            depth += 1
        elif x == RP:
            depth -= 1
            if depth < 0:
                return False
        i += 1
    return depth == 0


def judge(c, hole, text, item):
    """The container parsed alone, and inside an indirect object followed by more data."""
    pre, post = HOLES[hole]
    t = pre + text + post
    r = o.parse_obj(t)
    want = expected(hole, item)
    c.same(r, want, 'value')
    bo, eo, kind = o.next_token(t + b' 99 ')
    c.same((bo, eo), (0, len(t)), 'extent of the container')
    f = b'7 0 obj\n' + t + b'\nendobj\n8 0 obj'
    b, e, k, i = o.parse_indirect_obj(f)
    c.same(i['obj'], want, 'value in an indirect object')
    c.same((b, k, i['o_num'], i['o_gen']), (0, 'IND_OBJ', 7, 0), 'indirect object')
    c.same(f[e:e + 8], b'\n8 0 obj', 'end of the indirect object')
    c.observe(r, bo, eo, e)


def literal(c, n, hole):
    body = c.bytes('s', n)
    c.assume(balanced(body))
    s = b'(' + body + b')'
    judge(c, hole, s, [s])


def literal_words(c, hole):
    w = c.choice('word', [b'stream\n', b'endstream', b'endobj', b'obj', b'<<', b'>>]', b'[[', b']', b'%', b'startxref', b'R', b'1 0 R'])
    body = c.bytes('a', 1, PLAIN) + w + c.bytes('b', 1, PLAIN)
    s = b'(' + body + b')'
    judge(c, hole, s, [s])


def two_literals(c, n, form):
    a = c.bytes('a', n)
    b = c.bytes('b', n)
    c.assume(balanced(a))
    c.assume(balanced(b))
    a = b'(' + a + b')'
    b = b'(' + b + b')'
    if form == 'array':
        t, want = b'[' + a + b + b']', [a, b]
    else:
        t, want = b'<</A' + a + b'/B ' + b + b'>>', {'/A': a, '/B': b}
    c.same(o.parse_obj(t), want, 'value')
    _, e, _ = o.next_token(t + b' ')
    c.same(e, len(t), 'extent')


def hexa(c, n, hole):
    s = b'<' + c.bytes('h', n, HEX + WS) + b'>'
    judge(c, hole, s, [s])


def comment(c, n, hole):
    body = c.bytes('c', n)
    for x in body:
        c.assume(x != 10 and x != 13)
    eol = c.choice('eol', [b'\n', b'\r', b'\r\n'])
    if hole in ('array', 'tight array', 'array in dict'):
        judge(c, hole, b'%' + body + eol, [])
    else:
        judge(c, hole, b'%' + body + eol + b' 8 ', [8])


def comment_words(c, hole):
    w = c.choice('word', [b'>>', b']', b'(', b')', b'<<', b'[', b'stream', b'endobj', b'%', b'<'])
    body = c.bytes('a', 1, bytes([x for x in range(256) if x not in (10, 13)])) + w
    eol = c.choice('eol', [b'\n', b'\r'])
    if hole in ('array', 'tight array', 'array in dict'):
        judge(c, hole, b'%' + body + eol, [])
    else:
        judge(c, hole, b'%' + body + eol + b' 8 ', [8])


def comment_and_string(c):
    """A percent sign in a string starts no comment, a parenthesis in a comment starts no string."""
    a = c.bytes('a', 2)
    c.assume(balanced(a))
    b = c.bytes('b', 2)
    for x in b:
        c.assume(x != 10 and x != 13)
    s = b'(' + a + b')'
    t = b'[' + s + b'%' + b + b'\n' + s + b'<41>]'
    c.same(o.parse_obj(t), [s, s, b'<41>'], 'value')


def name_neighbours(c):
    """A name next to a string or comment ends where that starts."""
    nm = c.text('n', 2, REGULAR)
    a = c.bytes('a', 1, PLAIN)
    t = b'<</K /' + nm.encode('ascii') + b'(' + a + b')/X>>'
    u = b'[/' + nm.encode('ascii') + b'(' + a + b')/X]'
    c.same(o.parse_obj(u), ['/' + nm, b'(' + a + b')', '/X'], 'array')


H = list(HOLES)
def long(c, hole, kind, n):
    """Long strings, deep parentheses and long comments around free bytes."""
    b = c.bytes('b', 2)
    if kind == 'literal':
        c.assume(balanced(b))
        s = b'(' + b'<< /A [1 (x) 2 0 R ] >> endobj \\) %c\r\n' * n + b + b' stream' * n + b')'
    elif kind == 'deep':
        c.assume(balanced(b))
        s = b'(' + b'(a' * n + b + b'>>)' * n + b')'
    elif kind == 'backslashes':
        c.assume(balanced(b))
        s = b'(' + b'\\\\' * n + b + b'\\\\' * (n + 1) + b')'
    elif kind == 'hexa':
        s = b'<' + b'41 4B\n' * n + c.bytes('h', 2, HEX + WS) + b'aF' * n + b'>'
    else:
        c.assume(all([x not in b'\r\n' for x in b]))
        return judge(c, hole, b'%' + b'(<[ >> 1 0 R ' * n + b + b')>]' * n + c.choice('eol', [b'\r', b'\n', b'\r\n']) + b'(x)', [b'(x)'])
    judge(c, hole, s, [s])


CASES = [
    ('long', long, {'quick': [dict(hole=h, kind=k, n=8) for h in ('dict', 'nested', 'tight array') for k in ('literal', 'deep', 'backslashes', 'hexa', 'comment')] + [dict(hole='dict', kind=k, n=60) for k in ('literal', 'hexa', 'comment', 'deep')],
                    'thorough': [dict(hole=h, kind=k, n=60) for h in HOLES for k in ('literal', 'deep', 'backslashes', 'hexa', 'comment')]}, 'two free bytes within strings and comments of up to 2500 bytes, parentheses nested 60 times'),
    ('literal', literal, {'quick': [dict(n=n, hole=h) for h in H for n in (1, 3)] + [dict(n=4, hole='nested')],
                          'thorough': [dict(n=n, hole=h) for h in H for n in (0, 1, 2, 3, 4)] + [dict(n=5, hole='nested'), dict(n=6, hole='dict')]},
     'n arbitrary bytes between the parentheses, constrained only to be balanced'),
    ('literal_words', literal_words, [dict(hole=h) for h in H], 'PDF keywords and brackets between two arbitrary plain bytes'),
    ('two_literals', two_literals, {'quick': [dict(n=2, form=f) for f in ('array', 'dict')], 'thorough': [dict(n=3, form=f) for f in ('array', 'dict')]}, 'two strings of n arbitrary bytes'),
    ('hexa', hexa, {'quick': [dict(n=3, hole=h) for h in H], 'thorough': [dict(n=n, hole=h) for h in H for n in (0, 1, 2, 3, 5)]}, 'n hexadecimal digits or white-space characters'),
    ('comment', comment, {'quick': [dict(n=2, hole=h) for h in H], 'thorough': [dict(n=n, hole=h) for h in H for n in (0, 1, 2, 3, 4)]}, 'n arbitrary bytes other than end-of-line'),
    ('comment_words', comment_words, [dict(hole=h) for h in H], 'an arbitrary byte and a word in a comment'),
    ('comment_and_string', comment_and_string, [{}], 'two bytes in a string, two in a comment'),
    ('name_neighbours', name_neighbours, [{}], 'a name of two regular characters next to a string of one byte'),
]
