"""Serialising an object and parsing it back yields the same object."""
import pdfsyntax.objects as o
from props.common import *


def legal_number(c, b, msg):
    """b is a PDF number: an optional sign, digits and at most one point, at least one digit."""
    sign = c.choice('sign?', [0]) if len(b) == 0 else (1 if b[0] == 45 or b[0] == 43 else 0)
    digits = 0
    dots = 0
    for x in b[sign:]:
        if 48 <= x <= 57:
            digits += 1
        elif x == 46:
            dots += 1
        else:
            c.fail(msg)
    c.check(digits > 0 and dots <= 1, msg)


def back(c, v, wrap):
    if wrap == 'top':
        s = o.serialize(v)
        r = o.parse_obj(s + b' ')
    elif wrap == 'array':
        s = o.serialize([v])
        r = o.parse_obj(s)
        c.check(type(r) == list and len(r) == 1, 'array of one element')
        r = r[0]
    elif wrap == 'dict':
        s = o.serialize({'/K': v})
        r = o.parse_obj(s)
        c.check(type(r) == dict and len(r) == 1, 'dictionary of one entry')
        r = r['/K']
    else:
        s = b'7 0 obj\n' + o.serialize({'/K': v}) + b'\nendobj\n'
        _, _, t, i = o.parse_indirect_obj(s)
        c.same((t, i['o_num'], i['o_gen']), ('IND_OBJ', 7, 0), 'indirect object')
        r = i['obj']['/K']
    return s, r


def scalar(c, kind, wrap):
    v = a_scalar(c, 'v', [kind])
    s, r = back(c, v, wrap)
    c.check(type(r) == type(v), 'type kept')
    c.same(r, v, 'value kept')
    c.observe(s, r)
    if kind in ('int', 'real') and wrap == 'top':
        legal_number(c, s, 'number syntax')


def tiny_real(c):
    """Reals of very small and very large magnitude keep their value and stay legal PDF."""
    m = c.int('m', 1, 9999)
    e = c.choice('e', [5, 7, 12, 20])
    neg = c.flag('neg')
    v = m / 10 ** e
    if neg:
        v = -v
    s = o.serialize(v)
    legal_number(c, s, 'number syntax')
    c.same(o.parse_obj(s + b' '), v, 'value kept')


def wide_int(c, digits):
    """Integers of any size are kept exactly."""
    v = c.int('v', 10 ** (digits - 1), 10 ** digits - 1)
    if c.flag('neg'):
        v = -v
    s = o.serialize([v, {'/K': v}])
    r = o.parse_obj(s)
    c.same(len(r), 2, 'array kept')
    c.check(type(r[0]) == int and type(r[1]['/K']) == int, 'type kept')
    c.same((r[0], r[1]['/K']), (v, v), 'value kept')
    legal_number(c, o.serialize(v), 'number syntax')


def huge_real(c):
    m = c.int('m', 1, 9999)
    e = c.choice('e', [12, 14, 20])
    v = float(m) * 10 ** e
    s = o.serialize(v)
    legal_number(c, s, 'number syntax')
    c.same(o.parse_obj(s + b' '), v, 'value kept')


def pair(c, shape):
    a = a_scalar(c, 'a', small=True)
    b = a_scalar(c, 'b', small=True)
    if shape == 'array':
        v = [a, b]
    elif shape == 'dict':
        v = {'/A': a, '/Bc': b}
    elif shape == 'nested array':
        v = [[a], [[], b]]
    elif shape == 'dict in array':
        v = [a, {'/A': b}, {}]
    elif shape == 'array in dict':
        v = {'/A': [a, []], '/B': b}
    else:
        v = {'/A': {'/B': {'/C': a}}, '/D': {'/E': [{'/F': b}]}}
    s = o.serialize(v)
    r = o.parse_obj(s)
    c.same(r, v, 'value kept')
    c.observe(s, r)


def keys(c):
    """Dictionary keys are arbitrary distinct names."""
    k1 = a_name(c, 'k1', (1, 2))
    k2 = a_name(c, 'k2', (1, 2))
    c.assume(k1 != k2)
    v = {k1: 1, k2: [2]}
    r = o.parse_obj(o.serialize(v))
    c.check(type(r) == dict and len(r) == 2, 'two entries')
    c.same(r[k1], 1, 'first entry')
    c.same(r[k2], [2], 'second entry')


def refs(c, n):
    """Sequences of references and numbers never get regrouped."""
    v = []
    for i in range(n):
        if c.flag(f'isref{i}'):
            v.append(a_ref(c, f'r{i}', 9, 99))
        else:
            v.append(c.int(f'i{i}', -9, 9))
    w = {'/A': v} if c.flag('dict') else v
    r = o.parse_obj(o.serialize(w))
    c.same(r, w, 'value kept')


SHAPES = ['array', 'dict', 'nested array', 'dict in array', 'array in dict', 'deep']
def large(c, kind, n):
    """Large and deep values with a scalar of any kind at one of three places."""
    v = a_scalar(c, 'v', small=True)
    at = c.choice('at', [0, n // 2, n - 1])
    fill = [7, -0.5, '/N', b'(a(b)c)', b'<41>', True, 'null', 12 + 3j, [1], {'/A': []}, b'()', {}, []]
    if kind == 'array':
        x = [fill[i % len(fill)] for i in range(n)]
        x[at] = v
    elif kind == 'dict':
        x = {f'/K{i}': fill[i % len(fill)] for i in range(n)}
        x[f'/K{at}'] = v
    elif kind == 'numbers':
        x = [i for i in range(n)]
        x[at] = v
    elif kind == 'references':
        x = [complex(i % 3, i) for i in range(n)]
        x[at] = v
    elif kind == 'deep arrays':
        x = [v]
        for i in range(n):
            x = [x] if i != at else [i, x, [i]]
    elif kind == 'deep dicts':
        x = {'/V': v}
        for i in range(n):
            x = {'/A': x} if i != at else {'/Z': [i], '/A': x, '/B': i}
    else:
        b = c.bytes('b', 1, PLAIN)
        body = b'text \\( with (some) \\\\ ' * n
        x = [b'(' + body + b + body + b')', '/' + 'Name' * n + c.text('t', 1, REGULAR), b'<' + b'4a' * n + c.bytes('h', 2, HEX) + b'>', 10 ** 15 + at, v]
    s = o.serialize(x)
    c.same(o.parse_obj(s if not isinstance(x, bytes) else s + b' '), x, 'value kept')
    t = b'7 0 obj\n' + s + b'\nendobj\n'
    _, e, _, i = o.parse_indirect_obj(t)
    c.same(e, len(t) - 1, 'extent')
    c.same(i['obj'], x, 'value kept in an object')


CASES = [
    ('large', large, {'quick': [dict(kind=k, n=n) for k, n in (('array', 70), ('dict', 70), ('numbers', 40), ('references', 40), ('deep arrays', 24), ('deep dicts', 24), ('long', 15))], 'thorough': [dict(kind=k, n=n) for k, n in (('array', 300), ('dict', 300), ('numbers', 300), ('references', 200), ('deep arrays', 60), ('deep dicts', 60), ('long', 100))]}, 'containers of up to 70 values, nesting of 24, strings of 600 bytes (thorough: 300, 60, 4000), one scalar of any kind'),
    ('scalar', scalar, [dict(kind=k, wrap=w) for k in KINDS for w in ('top', 'array', 'dict', 'indirect') if (k, w) != ('ref', 'top')],
     'one scalar: ints |v|<=10^10, reals k/10^d with |k|<=10^9 and d in 1,4,6, names of 1 or 3 regular characters, literal strings of the listed shapes up to 4 bytes over all byte values, '
     'hexadecimal strings up to 3 characters, references up to number 10^9 and generation 65535'),
    ('wide_int', wide_int, [dict(digits=d) for d in (1, 10, 16, 19, 30)], 'integers of up to 30 digits'),
    ('tiny_real', tiny_real, [{}], 'm/10^e, 1<=m<=9999, e in 5,7,12,20'),
    ('huge_real', huge_real, [{}], 'm*10^e, 1<=m<=9999, e in 12,14,20'),
    ('pair', pair, {'quick': [dict(shape=s) for s in SHAPES]}, 'two scalars of any kinds in nested containers'),
    ('keys', keys, [{}], 'two keys of 1 or 2 regular characters'),
    ('refs', refs, {'quick': [dict(n=1), dict(n=3)], 'thorough': [dict(n=1), dict(n=2), dict(n=3), dict(n=4)]}, 'n references or integers'),
]
