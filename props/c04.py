"""A stream survives a write and a read, whatever its data."""
import pdfsyntax.objects as o
from props.common import *

EXTRA = [{}, {'/Type': '/XObject', '/A': [1, b'(a)']}]


def sizes_ok(c, t, s, data):
    """The last /Length of the text is the number of bytes between stream and endstream."""
    c.same(s.entries['/Length'], len(data), 'length of the data')


# how the data may look: * any byte, other characters themselves
TEMPLATES = ['', '*', '**', '***', '*\r', '*\n', '*\r\n', '\r', '\nendstream', '*\nendstream', 'endstream*', '*endstream\n', '\r\nendstream\nendobj\n', 'stream\n*', 'a)(<>[*']


def data_of(c, shape, name='d'):
    d = b''
    for i, ch in enumerate(shape):
        if ch == '*':
            d = d + c.bytes(f'{name}{i}', 1)
        else:
            d = d + ch.encode('ascii')
    return d


def roundtrip(c, shape, alone, length):
    data = data_of(c, shape)
    extra = c.choice('extra', [0, 1])
    entries = dict(EXTRA[extra])
    entries['/Length'] = length
    if c.flag('length first'):
        entries = {'/Length': length, **EXTRA[extra]}
    s, n = o.forge_stream(entries, data)
    c.same(n, len(data), 'reported length')
    t = o.serialize(s)
    if alone:
        r = o.parse_obj(t + b'\n')
    else:
        t = b'7 0 obj\n' + t + b'\nendobj\n'
        lead = c.bytes('lead', 1, WS)
        after = b'8 0 obj\n'
        b, e, k, i = o.parse_indirect_obj(lead + t + after, 1)
        c.same((b, e, k, i['o_num'], i['o_gen']), (1, len(t), 'IND_OBJ', 7, 0), 'extent of the object')
        r = i['obj']
    c.check(type(r) == o.Stream, 'a stream comes back')
    c.same(r.encoded, data, 'encoded data kept')
    c.same(r.stream, data, 'data kept')
    c.same(r.entries, {**EXTRA[extra], '/Length': len(data)}, 'entries kept')
    c.observe(t)


def encoded(c, flt):
    """The length counts the encoded bytes; both forms of the data come back."""
    data = data_of(c, '***')
    s, n = o.forge_stream({'/Filter': flt, '/Length': 0}, data)
    t = o.serialize(s)
    c.same(n, len(s.encoded), 'reported length')
    c.same(s.entries['/Length'], len(s.encoded), 'written length')
    r = o.parse_obj(t + b'\n')
    c.same(r.encoded, s.encoded, 'encoded data kept')
    c.same(r.stream, data, 'data kept')
    c.same(r.entries, {'/Filter': flt, '/Length': len(s.encoded)}, 'entries kept')


def foreign(c, eol, end):
    """Streams as other writers produce them: any line end after stream and before endstream."""
    data = c.bytes('d', c.choice('n', [0, 1, 2, 3]))
    t = b'<</Length ' + str(len(data)).encode('ascii') + b'>>' + c.bytes('sep', c.choice('seps', [0, 1]), WS) + b'stream' + eol + data + end + b'endstream\n'
    if eol == b'\n' or end != b'':
        pass
    r = o.parse_obj(t)
    c.check(type(r) == o.Stream, 'a stream')
    c.same(r.stream, data, 'data kept')


def no_direct_length(c):
    """An indirect /Length: data without line ends at its end and without endstream."""
    data = c.bytes('d', c.choice('n', [0, 1, 2, 3]))
    if len(data):
        c.assume(data[-1] != 13 and data[-1] != 10)
    s, n = o.forge_stream({'/Length': 9j, '/K': 1}, data)
    c.same(n, len(data), 'reported length')
    r = o.parse_obj(o.serialize(s) + b'\n')
    c.same(r.stream, data, 'data kept')
    c.same(r.entries, {'/Length': 9j, '/K': 1}, 'entries kept')


def large(c, n, form):
    """Long data with free bytes at the beginning, in the middle or at the end."""
    x = c.bytes('x', 2)
    body = bytes([(i * 7) % 256 for i in range(n)]) + b'\nendstream\nendobj\n'
    at = c.choice('at', ['start', 'middle', 'end'])
    data = x + body if at == 'start' else body + x + body if at == 'middle' else body + x
    if form == 'entries':
        entries = {**{f'/K{i}': [i, b'(endstream)', {'/Length': 3}] for i in range(40)}, '/Length': 1, '/Z': b'(stream)'}
    else:
        entries = {'/Length': 0}
    s, k = o.forge_stream(entries, data)
    c.same(k, len(data), 'reported length')
    t = b'7 0 obj\n' + o.serialize(s) + b'\nendobj\n'
    b, e, kind, i = o.parse_indirect_obj(t + b'8 0 obj\n')
    c.same((b, e, kind, i['o_num']), (0, len(t) - 1, 'IND_OBJ', 7), 'extent of the object')
    r = i['obj']
    c.same(r.encoded, data, 'encoded data kept')
    c.same(r.stream, data, 'data kept')
    c.same(r.entries, {**entries, '/Length': len(data)}, 'entries kept')


CASES = [
    ('large', large, {'quick': [dict(n=n, form=f) for n in (9, 90, 990, 5000) for f in ('plain', 'entries')], 'thorough': [dict(n=n, form='plain') for n in (80, 81, 970, 980, 100000)]}, 'data of 28 to 10000 bytes with two free bytes'),
    ('roundtrip', roundtrip, [dict(shape=s, alone=a, length=l) for s in TEMPLATES for a in (True, False) for l in (0, -1)],
     'data of the listed shapes (up to 3 free bytes, with line ends and the word endstream), written alone or as an indirect object, with any initial /Length'),
    ('encoded', encoded, [dict(flt=f) for f in ('/FlateDecode', '/ASCIIHexDecode', '/ASCII85Decode')], '3 bytes of data'),
    ('foreign', foreign, [dict(eol=e, end=f) for e in (b'\n', b'\r\n') for f in (b'', b'\n', b'\r', b'\r\n')], 'up to 3 bytes of data'),
    ('no_direct_length', no_direct_length, [{}], 'up to 3 bytes of data not ending with a line end'),
]
