import os, runpy
HELP = runpy.run_path(os.path.join(os.path.dirname(__file__), 'd_views.py'))['HELP']


def bug(id, edits, demo, needs, breaks):
    return dict(id=id, property=id[:3].upper(), edits=edits, demo=HELP + demo, needs=needs, breaks=breaks)


BUGS = [
 bug('c17-zero', [('docstruct.py', "            if a not in temp:\n                temp[a]", "            if not temp.get(a):\n                temp[a]")], '''
d = p.loads(build([{**BASE, 2: b'<</Type /Pages /Kids [3 0 R] /Count 1 /Rotate 90>>', 3: b'<</Type /Page /Parent 2 0 R /MediaBox [0 0 9 9] /Rotate 0>>'}]))
assert p.page_layouts(d)[0][1] == 0
''', 'a page that sets its rotation back to 0 under a rotated node', 'the page is shown rotated'),
 bug('c03-cr', [('objects.py', "        elif search == \"COMMENT\":\n            if single in EOL:", "        elif search == \"COMMENT\":\n            if single == b'\\n' or single in EOL and b'[' in text[h:i]:")], '''
assert p.parse_obj(b'[1 %c\\r2 3\\n4] ') == [1, 2, 3, 4]
''', 'a comment that ends with a carriage return only', 'items after the comment are lost'),
 bug('c07-nine', [('objects.py', "    while b'0' <= bdata[bl:bl+1] <= b'9':", "    while b'0' <= bdata[bl:bl+1] <= b'8':")], '''
d = p.loads(build([{**BASE, 9: b'[5]', 10: b'[6]'}]))
assert p.get_object(d, 9j) == [5] and p.get_object(d, 10j) == [6]
''', 'a subsection that begins at an object number starting with 9', 'the rest of the table is not read'),
 bug('c09-tail', [('filestruct.py', "            bdata, a0, o0, _ = fdata(-100, -1)", "            bdata, a0, o0, _ = fdata(-40, -1)")], '''
d = p.loads(build([BASE]) + b'\\n' * 30)
assert len(p.pages(d)) == 1
''', 'a file that ends with some empty lines', 'the file cannot be loaded'),
 bug('c09-noindex', [('objects.py', "        obj_range = [0, xref_stream['entries']['/Size']]", "        obj_range = [1 if '/Prev' in xref_stream['entries'] else 0, xref_stream['entries']['/Size']]")], '''
def xs(num, pos, extra, rows):
    s = b''.join([bytes([t]) + a.to_bytes(4, 'big') + bytes([0]) for t, a in rows])
    return b'%d 0 obj\\n<</Type /XRef /W [1 4 1] /Size %d /Root 1 0 R %s /Length %d>>\\nstream\\n' % (num, len(rows), extra, len(s)) + s + b'\\nendstream\\nendobj\\nstartxref\\n%d\\n%%%%EOF\\n' % pos
out = b'%PDF-1.5\\n'
pos = {}
for n, t in {**BASE, 4: b'[1]'}.items():
    pos[n] = len(out)
    out += b'%d 0 obj\\n' % n + t + b'\\nendobj\\n'
x = len(out)
rows = [(0, 0)] + [(1, pos[n]) for n in (1, 2, 3, 4)] + [(1, x)]
out += xs(5, x, b'', rows)
new = len(out)
out += b'4 0 obj\\n[2]\\nendobj\\n'
y = len(out)
rows[4] = (1, new)
out += xs(6, y, b'/Prev %d' % x, rows + [(1, y)])
d = p.loads(out)
assert p.get_object(d, 4j) == [2] and len(p.pages(d)) == 1
''', 'an update whose cross-reference stream covers all objects and has no /Index', 'its entries are given to the wrong objects'),
 bug('c21-empty', [('docstruct.py', "        new_cache[i] = obj\n    new_doc = Doc([new_index]", "        new_cache[i] = obj or 'null'\n    new_doc = Doc([new_index]")], '''
d = p.squash(p.loads(build([{**BASE, 1: b'<</Type /Catalog /Pages 2 0 R /X 4 0 R>>', 4: b'<<>>'}])))
assert p.get_object(d, p.catalog(d)[0]['/X']) == {}
''', 'an object that is an empty dictionary or array, zero or false', 'it becomes null'),
 bug('c23-chunk', [('filestruct.py', "            bdata = file_obj.read(nb_read)", "            bdata = file_obj.read(min(nb_read, 8192))")], '''
d = build([{**BASE, 4: b'(' + b'x' * 20000 + b')'}])
doc = p.load(io.BytesIO(d), 'CONTINUOUS')
assert len(p.get_object(doc, 4j)) == 20002
''', 'a request for more than 8192 bytes of a file that is read piece by piece', 'the data is cut'),
 bug('c20-insert', [('docstruct.py', "        kids.insert(0, mapping[source_pages_iref])", "        kids.insert(len(kids) // 2, mapping[source_pages_iref])")], '''
two = {**BASE, 2: b'<</Type /Pages /Kids [3 0 R 4 0 R] /Count 2>>', 4: b'<</Type /Page /Parent 2 0 R /MediaBox [0 0 7 7]>>'}
from pdfsyntax.docstruct import concat
d = concat(p.loads(build([{**BASE, 3: b'<</Type /Page /Parent 2 0 R /MediaBox [0 0 5 5]>>'}])), p.loads(build([two])), False)
assert [x['/MediaBox'][2] for x in p.pages(d)] == [5, 9, 7]
''', 'a concatenation into the second document when it has two pages or more', 'the first document comes out in the middle'),
 bug('c19-grandparent', [('docstruct.py', "        while '/Parent' in new_parent:\n            p = new_parent['/Parent']", "        while '/Parent' in new_parent and new_parent['/Count'] > 0:\n            p = new_parent['/Parent']")], '''
t = {1: b'<</Type /Catalog /Pages 2 0 R>>', 2: b'<</Type /Pages /Kids [3 0 R 4 0 R] /Count 2>>', 3: b'<</Type /Pages /Parent 2 0 R /Kids [5 0 R] /Count 1>>',
     4: b'<</Type /Page /Parent 2 0 R /MediaBox [0 0 9 9]>>', 5: b'<</Type /Page /Parent 3 0 R /MediaBox [0 0 9 9]>>'}
d = p.remove_pages(p.loads(build([t])), 0)
assert len(d) == 1, len(d)
''', 'the removal of the only page of an inner node', 'the count of the upper nodes is not lowered'),
 bug('c12-hybrid', [('docstruct.py', "    if '/XRefStm' in new_trailer:\n        del new_trailer['/XRefStm']\n    return new_doc\n\n\ndef rewind", "    if '/XRefStm' in new_trailer and '/Info' not in new_trailer:\n        del new_trailer['/XRefStm']\n    return new_doc\n\n\ndef rewind")], '''
out = b'%PDF-1.5\\n'
pos = {}
for n, t in {**BASE, 4: b'<<>>'}.items():
    pos[n] = len(out)
    out += b'%d 0 obj\\n' % n + t + b'\\nendobj\\n'
h = len(out)
s = bytes([1]) + h.to_bytes(4, 'big') + bytes([0])
out += b'5 0 obj\\n<</Type /XRef /W [1 4 1] /Index [5 1] /Size 6 /Root 1 0 R /Length 6>>\\nstream\\n' + s + b'\\nendstream\\nendobj\\n'
x = len(out)
out += b'xref\\n0 5\\n0000000000 65535 f \\n' + b''.join([b'%010d 00000 n \\n' % pos[n] for n in (1, 2, 3, 4)])
out += b'trailer\\n<</Size 6 /Root 1 0 R /Info 4 0 R /XRefStm %d>>\\nstartxref\\n%d\\n%%%%EOF\\n' % (h, x)
d = save(p.rotate(p.loads(out)))
assert d[len(out):].count(b'/XRefStm') == 0
''', 'an update of a hybrid file that has an information dictionary', 'the update claims the hidden section of the original as its own'),
 bug('c13-still-cut', [('docstruct.py', "    if 'eof_cut' in new_doc.data[-1]:\n        del new_doc.data[-1]['eof_cut']", "    if 'eof_cut' in new_doc.data[-1] and len(new_doc.data) > 1:\n        del new_doc.data[-1]['eof_cut']")], '', '', ''),
 bug('c14-rewind-data', [('docstruct.py', "        new_doc.data[-2] = new_doc.data[-2].copy()\n    elif revision == 'NEXT':", "        new_doc.data[-2] = new_doc.data[-2].copy() if len(doc.data) > 2 else doc.data[-2]\n    elif revision == 'NEXT':")], '''
f = build([BASE])
d = p.loads(f)
r = p.rewind(d)
assert save(d) == f
''', 'going back before the only revision of a document that is still used', 'the document cannot be written any more'),
 bug('c10-second', [('api.py', "    for i in range(eof_rev+1, nb_rev-1):", "    for i in range(max(eof_rev+1, nb_rev-3), nb_rev-1):")], '''
f = build([BASE])
d = p.loads(f)
for k in range(3):
    d = p.commit(p.rotate(d))
w = save(d)
assert w[:len(f)] == f and w.count(b'%%EOF') == 4, w.count(b'%%EOF')
''', 'more than two commits before writing', 'the oldest updates are not written'),
 bug('c11-contiguous', [('filestruct.py', "        if xref_table[i][1] + 1 == num: #contiguous", "        if xref_table[i][1] + 1 == num and nb < 9: #contiguous")], '', '', ''),
 bug('c08-free', [('filestruct.py', "            ref = b'\\x00' + (next_free[num]).to_bytes(b, \"big\") + (o_gen+1).to_bytes(b, \"big\")", "            ref = b'\\x00' + (next_free[num]).to_bytes(b, \"big\") + (o_gen+(num > 0)).to_bytes(b, \"big\")")], '', '', ''),
 bug('c16-gens', [('docstruct.py', "        elif current[o]['o_gen'] != 0:\n            continue", "        elif current[o]['o_gen'] > 1:\n            continue")], '''
from pdfsyntax.docstruct import group_obj_into_stream, force_xref_stream
out = b'%PDF-1.5\\n'
pos = {}
for n, t in {**BASE, 4: b'[1]'}.items():
    pos[n] = len(out)
    out += b'%d %d obj\\n' % (n, n == 4) + t + b'\\nendobj\\n'
x = len(out)
out += b'xref\\n0 5\\n0000000000 65535 f \\n' + b''.join([b'%010d %05d n \\n' % (pos[n], n == 4) for n in (1, 2, 3, 4)])
out += b'trailer\\n<</Size 5 /Root 1 0 R>>\\nstartxref\\n%d\\n%%%%EOF\\n' % x
d = p.update_object(p.loads(out), 4, [2])
d = force_xref_stream(group_obj_into_stream(d), False, '')
w = save(d)
assert b'4 1 obj' in w[len(out):]
''', 'a changed object of generation 1 that is grouped into an object stream', 'the object is written into the stream, where it has generation 0'),
 bug('c22-length', [('docstruct.py', "        elif type(x) == dict and 'Length' in x:\n            continue", "        elif type(x) == dict and '/First' in x and x.get('/Type') == '/Outlines':\n            x['/Count'] = 0\n            new_doc.cache[o] = x\n            continue")], '', '', ''),
 bug('c06-carry', [('filters.py', "        decoded_row = [(val + prev_row[index]) & 0xff for (index, val) in enumerate(row)]", "        decoded_row = [(val + prev_row[index]) % 255 if val + prev_row[index] > 255 else val + prev_row[index] for (index, val) in enumerate(row)]")], '''
import zlib
assert p.decode_stream(zlib.compress(bytes([2, 200, 2, 100])), {'/Filter': '/FlateDecode', '/DecodeParms': {'/Predictor': 12, '/Columns': 1}}) == bytes([200, 44])
''', 'a row whose bytes overflow', 'the byte is off by one'),
 bug('c33-readded', [('docstruct.py', "        elif previous[i] != None and current[i] != previous[i]:\n            res.append((iref, 'u'))", "        elif previous[i] != None and current[i]['o_gen'] == previous[i]['o_gen']:\n            res.append((iref, 'u'))")], '', '', ''),
 bug('c38-letter', [('api.py', "        if PAPER_SIZES[t] == (x, y):\n            ptype = t", "        if PAPER_SIZES[t] == (x, y) or ptype == 'unknown' and PAPER_SIZES[t] == (y, x):\n            ptype = t")], '', '', ''),
 bug('c30-emb', [('filestruct.py', "            o = ('EMB', x[3]['o_num'], x[3]['env_num'], x[1][2])\n        else:\n            continue\n        if o not in indexed:", "            o = ('EMB', x[3]['o_num'], x[3]['env_num'], x[1][2] % 10)\n        else:\n            continue\n        if o not in indexed:")], '', '', ''),
]
BUGS = [b for b in BUGS if b['breaks']]
