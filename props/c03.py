"""The parse does not depend on how tokens are separated."""
import pdfsyntax.objects as o
from props.common import *

# token text, value, kind reported by the tokenizer
TOKENS = {
    'int': (b'12', 12, 'INTEGER'),
    'neg': (b'-7', -7, 'INTEGER'),
    'plus': (b'+3', 3, 'INTEGER'),
    'minus': (b'-1.5', -1.5, 'REAL'),
    'real': (b'.5', 0.5, 'REAL'),
    'name': (b'/Ab', '/Ab', 'NAME'),
    'true': (b'true', True, 'TRUE'),
    'false': (b'false', False, 'FALSE'),
    'null': (b'null', 'null', 'KEYWORD'),
    'string': (b'(a)', b'(a)', 'STRING'),
    'hex': (b'<41>', b'<41>', 'STRING'),
    'array': (b'[3]', [3], 'ARRAY'),
    'dict': (b'<</X 1>>', {'/X': 1}, 'DICT'),
}
POS = ['int', 'minus', 'name', 'true', 'string', 'hex', 'array', 'dict']
ENDS_DELIM = ('string', 'hex', 'array', 'dict')
STARTS_DELIM = ('name', 'string', 'hex', 'array', 'dict')
MIX = ['int', 'neg', 'plus', 'minus', 'real', 'name', 'true', 'string', 'hex', 'array', 'dict']


def sep(c, name, may_be_empty, comment=True):
    """Any separator of up to two white-space characters, or a comment between them."""
    forms = ['w', 'ww']
    if comment:
        forms += ['%', 'w%']
    if may_be_empty:
        forms.append('')
    f = c.choice(name + '.form', forms)
    if f == '':
        return b''
    if f == 'w':
        return c.bytes(name, 1, WS)
    if f == 'ww':
        return c.bytes(name, 2, WS)
    body = c.bytes(name + '.comment', 1, bytes([x for x in range(256) if x not in (10, 13)]))
    r = b'%' + body + c.bytes(name + '.eol', 1, b'\r\n')
    if f == 'w%':
        r = c.bytes(name, 1, WS) + r
    return r


def array(c, a):
    ta, va, _ = TOKENS[a]
    b = c.choice('second', MIX)
    tb, vb, _ = TOKENS[b]
    s0 = sep(c, 's0', True, False)
    s1 = sep(c, 's1', a in ENDS_DELIM or b in STARTS_DELIM)
    s2 = sep(c, 's2', True, False)
    t = b'[' + s0 + ta + s1 + tb + s2 + b']'
    r = o.parse_obj(t)
    c.same(r, [va, vb], 'array')
    c.observe(r)


def dictionary(c, a):
    ta, va, _ = TOKENS[a]
    s0 = sep(c, 's0', True)
    s1 = sep(c, 's1', a in STARTS_DELIM)
    s2 = sep(c, 's2', True, False)
    t = b'<<' + s0 + b'/Kq' + s1 + ta + s2 + b'/L' + sep(c, 's3', False, False) + b'9>>'
    r = o.parse_obj(t)
    c.same(r, {'/Kq': va, '/L': 9}, 'dictionary')
    c.observe(r)


def reference(c, where):
    s1 = sep(c, 's1', False)
    s2 = sep(c, 's2', False)
    s3 = sep(c, 's3', True, False)
    num = c.int('num', 1, 99)
    gen = c.int('gen', 0, 12)
    ref = str(num).encode('ascii') + s1 + str(gen).encode('ascii') + s2 + b'R'
    if where == 'array':
        r = o.parse_obj(b'[' + ref + s3 + b'(x)]')
        c.same(r, [complex(gen, num), b'(x)'], 'array')
    else:
        r = o.parse_obj(b'<</A ' + ref + s3 + b'/B 1>>')
        c.same(r, {'/A': complex(gen, num), '/B': 1}, 'dictionary')


def positions(c, n):
    """Tokens are reported one after the other with their exact extents."""
    names = list(TOKENS)
    t = sep(c, 'lead', True, False)
    want = []
    prev = None
    for i in range(n):
        k = c.choice(f't{i}', POS)
        if i:
            s = c.choice(f'f{i}', ['', 'w', 'ww'])
            if s == '':
                c.assume(prev in ENDS_DELIM or k in STARTS_DELIM)
            else:
                t = t + c.bytes(f's{i}', len(s), WS)
        want.append((len(t), len(t) + len(TOKENS[k][0]), TOKENS[k][2]))
        t = t + TOKENS[k][0]
        prev = k
    t = t + c.bytes('end', 1, WS)
    i = 0
    got = []
    for _ in range(n):
        b, i, k = o.next_token(t, i)
        got.append((b, i, k))
    c.same(got, want, 'positions')
    c.observe(got)


def header(c):
    """The parts of an indirect object may be separated by any white space."""
    s0 = c.bytes('s0', 1, WS)
    s1 = c.bytes('s1', 2, WS)
    s2 = c.choice('s2', [0, 1, 2])
    s2 = c.bytes('s2', s2, WS)
    v, val = c.choice('v', [(b'<</A 1>>', {'/A': 1}), (b'[1]', [1]), (b'(s)', b'(s)'), (b'/N', '/N')])
    s3 = sep(c, 's3', v != b'/N')
    t = b'12' + s0 + b'0' + s1 + b'obj' + s2
    if len(s2) == 0 and v[0] == 0x2f:
        pass
    t = t + v + s3 + b'endobj' + b'\n'
    b, e, k, i = o.parse_indirect_obj(t)
    c.same((b, k, i['o_num'], i['o_gen'], i['obj']), (0, 'IND_OBJ', 12, 0, val), 'indirect object')


def lone(c):
    """Any white-space or delimiter character ends a number, a name or a keyword."""
    k = c.choice('kind', ['int', 'neg', 'real', 'name', 'true', 'false', 'null'])
    t, v, typ = TOKENS[k]
    e = c.bytes('end', 1, WS + b'()<>[]/%')
    pre = c.choice('pre', [0, 1, 2])
    pre = c.bytes('pre', pre, WS)
    c.same(o.next_token(pre + t + e + b' '), (len(pre), len(pre) + len(t), typ), 'token')
    c.same(o.parse_obj(pre + t + e + b' '), v, 'value')


def long(c, n, kind):
    """Many tokens: any separator at one of three places, long runs of white space and comments."""
    at = c.choice('at', [0, n // 2, n - 1])
    names = [MIX[(i * 5) % len(MIX)] for i in range(n)]
    t, want = b'', []
    for i, k in enumerate(names):
        if kind == 'dict':
            t = t + b'/K%d' % i
            t = t + (sep(c, 's', True if k in STARTS_DELIM else False) if i == at else b' ')
        t = t + TOKENS[k][0]
        want.append(TOKENS[k][1])
        nxt = names[i + 1] if i + 1 < n else None
        free = k in ENDS_DELIM or nxt is None or nxt in STARTS_DELIM or kind == 'dict'
        if i == at and kind == 'array':
            t = t + sep(c, 's', free)
        elif kind == 'runs':
            t = t + WS * (i % 4) + b'% comment (\r' * (i % 3) + (c.bytes('w', 1, WS) * 30 if i == at else b' ')
        elif not free:
            t = t + b'\n'
    if kind == 'dict':
        c.same(o.parse_obj(b'<<' + t + b'>>'), {f'/K{i}': v for i, v in enumerate(want)}, 'dictionary')
    else:
        c.same(o.parse_obj(b'[' + t + b']'), want, 'array')


CASES = [
    ('long', long, {'quick': [dict(n=k, kind=x) for k in (12, 50) for x in ('array', 'dict', 'runs')], 'thorough': [dict(n=200, kind=x) for x in ('array', 'dict', 'runs')]}, '12 and 50 tokens (thorough: 200), runs of 30 white-space characters'),
    ('array', array, [dict(a=a) for a in TOKENS], 'two tokens, three separators of at most two white-space characters and a one-byte comment'),
    ('dictionary', dictionary, [dict(a=a) for a in TOKENS], 'two entries, four separators'),
    ('reference', reference, [dict(where=w) for w in ('array', 'dict')], 'references up to number 99 and generation 12 with any separators'),
    ('positions', positions, {'quick': [dict(n=2)], 'thorough': [dict(n=2), dict(n=3)]}, 'n tokens with separators of at most two white-space characters'),
    ('header', header, [{}], 'an indirect object with one or two white-space characters between its parts'),
    ('lone', lone, [{}], 'one token ended by any white-space or delimiter character'),
]
