BUGS = [
 dict(id='c01-small-real', property='C01',
  edits=[('objects.py', "    elif type == 'REAL':\n        return float(text)", "    elif type == 'REAL':\n        return round(float(text), 5)")],
  demo='''
import pdfsyntax as p
v = {'/M': [0.000125, 1, -3.1234567]}
assert p.parse_obj(p.serialize(v)) == v
''',
  needs='a real with more than five decimals', breaks='reals lose precision when parsed'),
 dict(id='c02-hex-escape', property='C02',
  edits=[('objects.py', "            if nested == 0:\n                return (h, i + 1, 'STRING')\n        elif search == \"HSTRING\":", "            if nested == 0 or nested == 1 and text[i:i+3] == b')>>':\n                return (h, i + 1, 'STRING')\n        elif search == \"HSTRING\":")],
  demo='''
import pdfsyntax as p
v = p.parse_obj(b'<</A (x(y)>> z)/B 1>>')
assert v == {'/A': b'(x(y)>> z)', '/B': 1}, v
''',
  needs='a nested parenthesis closed right before >> inside a string', breaks='the string ends too early'),
 dict(id='c03-formfeed', property='C03',
  edits=[('objects.py', "SPACE = EOL + b'\\x00\\x09\\x0c\\x20'", "SPACE = EOL + b'\\x00\\x09\\x0b\\x20'")],
  demo='''
import pdfsyntax as p
assert p.parse_obj(b'[1\\x0c2]') == [1, 2]
''',
  needs='a form feed as the only separator', breaks='form feed no longer ends a token'),
 dict(id='c03-sign', property='C03',
  edits=[('objects.py', "            elif single in b\"+-.0123456789\":\n                search = \"VALUE\"", "            elif single in b\"+-.0123456789\" and (i == 0 or text[i-1:i] not in b'>' or text[i:i+1] != b'-'):\n                search = \"VALUE\"")],
  demo='''
import pdfsyntax as p
assert p.parse_obj(b'[<41>-7 (a)]') == [b'<41>', -7, b'(a)']
''',
  needs='a negative number directly after a hexadecimal string', breaks='the minus sign is skipped'),
 dict(id='c04-eol-strip', property='C04',
  edits=[('objects.py', "    if '/Length' in entries and type(entries['/Length']) == int:\n        entries['/Length'] = length", "    if entries.get('/Length') and type(entries['/Length']) == int:\n        entries['/Length'] = length")],
  demo='''
import pdfsyntax as p
s, n = p.forge_stream({'/Length': 0}, b'abc\\r')
r = p.parse_obj(p.serialize(s) + b'\\n')
assert r.stream == b'abc\\r' and r.entries['/Length'] == 4, r
''',
  needs='a stream created with /Length 0', breaks='the /Length written stays 0'),
 dict(id='c05-hex-case', property='C05',
  edits=[('filters.py', "    res = stream\n    for", "    res = stream[:]\n    if len(filters) > 2:\n        filters = filters[:2] + filters[:1:-1]\n    for")],
  demo='''
import pdfsyntax as p
d = {'/Filter': ['/ASCII85Decode', '/FlateDecode', '/ASCIIHexDecode', '/FlateDecode']}
assert p.decode_stream(p.encode_stream(b'hello', d), d) == b'hello'
d = {'/Filter': ['/ASCIIHexDecode', '/ASCII85Decode']}
assert p.decode_stream(p.encode_stream(b'hello', d), d) == b'hello'
''',
  needs='a chain of four filters', breaks='the last two filters of a long chain are applied in the wrong order'),
 dict(id='c06-short-row', property='C06',
  edits=[('filters.py', "        row = list(bdata[i:i+columns])\n", "        row = list(bdata[i:i+columns])\n        if len(row) < columns // 2:\n            break\n")],
  demo='''
import pdfsyntax as p
rows = [b'abcdefgh', b'zz']
out = b'\\x02' + rows[0] + b'\\x02' + bytes([(rows[1][k] - rows[0][k]) % 256 for k in range(2)])
assert p.decode_predictor(out, 12, 8) == b'abcdefghzz'
''',
  needs='a last row shorter than half a row', breaks='the incomplete last row is dropped'),
 dict(id='c07-gen', property='C07',
  edits=[('filestruct.py', "        if xref_table[i][1] + 1 == num: #contiguous\n            nb += 1\n        else:\n            header", "        if xref_table[i][1] + 1 == num and nb < 4: #contiguous\n            nb += 1\n        elif xref_table[i][1] + 1 == num and xref_table[i][1] % 2:\n            nb += 1\n        else:\n            header")],
  demo='''
import pdfsyntax as p
el = [('f', 0, 65534, None, None)] + [('n', i, 0, 100 + i, None) for i in range(1, 8)]
t = p.format_xref_table(el, {'/Size': 8}, {0: 0})
assert t.startswith(b'xref\\n0 8\\n'), t
''',
  needs='a run of more than four consecutive objects with an even number at the cut', breaks='the subsection is not maximal any more'),
 dict(id='c08-width', property='C08',
  edits=[('filestruct.py', "    b = (int(math.log2(max_counter+1)) // 8) + 1", "    b = math.ceil(math.log2(max_counter) / 8)")],
  demo='''
import pdfsyntax as p
for off in (5, 65535, 65537, 70000, 16777215, 16777216, 2**32-1, 2**32):
    el = [('f', 0, 65534, None, None), ('n', 1, 0, off, None), ('n', 2, 0, 5, None)]
    t = p.format_xref_stream(el, {'/Size': 3}, {0: 0}, 2)
    s = p.parse_obj(t, t.index(b'<<'))
    assert p.parse_xref_stream(s, 5, 2)[1]['abs_pos'] == off
''',
  needs='a largest offset of exactly 2^24 or 2^32', breaks='the columns are one byte too narrow and writing fails'),
]
