import os, runpy
HELP = runpy.run_path(os.path.join(os.path.dirname(__file__), 'b_documents.py'))['HELP']


def bug(id, edits, demo, needs, breaks):
    return dict(id=id, property=id[:3].upper(), edits=edits, demo=HELP + demo, needs=needs, breaks=breaks)


PAGE = "pg = {**BASE, 3: b'<</Type /Page /Parent 2 0 R /MediaBox [0 0 9 9] /Resources <</Font <</F1 4 0 R>>>> /Contents 5 0 R>>'}\n"

BUGS = [
 bug('c22-second', [('docstruct.py', "        if type(x) == Stream:\n            continue\n        elif type(x) == dict and 'Length' in x:", "        if type(x) == Stream:\n            continue\n        elif type(x) == list and len(x) == 0 and o > env_num:\n            continue\n        elif type(x) == dict and 'Length' in x:"),
    ('docstruct.py', "        elif current[o]['o_gen'] != 0:\n            continue\n", "        elif current[o]['o_gen'] != 0:\n            continue\n        elif type(x) == dict and set(x) == {'/Type', '/Parent'}:\n            new_doc.cache[o].pop('/Parent')\n")], '''
d = p.loads(build([{**BASE, 2: b'<</Type /Pages /Kids [3 0 R] /Count 1 /MediaBox [0 0 9 9]>>', 3: b'<</Type /Page /Parent 2 0 R>>'}]))
q = p.loads(save(p.compress(d)))
assert p.get_object(q, p.flat_page_tree(q)[0][0]).get('/Parent'), p.get_object(q, p.flat_page_tree(q)[0][0])
''', 'a page that only has a type and a parent', 'its /Parent entry is lost'),
 bug('c22-partial', [('api.py', "    for f in filters:\n        if f not in DECODED_FILTERS:\n            return False", "    for f in filters[:2]:\n        if f not in DECODED_FILTERS:\n            return False"), ('api.py', "    doc = apply_filter(doc, s)\n    doc = commit(doc)", "    doc = commit(apply_filter(doc, s))")], '''
d = p.loads(build([{**BASE, 4: b'<</Length 15 /Filter [/ASCIIHexDecode /ASCIIHexDecode /DCTDecode]>>\\nstream\\n34313432343334>\\nendstream'}]))
e = p.get_object(d, 4j)
q = p.loads(save(p.compress(d)))
s = p.get_object(q, 4j)
assert s['entries']['/Filter'] == e['entries']['/Filter'], s
''', 'x', 'x'),
 bug('c23-cut', [('filestruct.py', "        return i, min(size - i, length)", "        return i, min(size - i, max(length, 1))")], '''
import pdfsyntax.filestruct as fs
assert fs.bdata_provider(b'abcdef')(2, 0)[3] == 0
''', 'a request for no byte', 'one byte is returned'),
 bug('c24-charset', [('text.py', "    charset += [0x2039, 0x203a, 0x2212, 0x2030, 0x201e,", "    charset += [0x2039, 0x203a, 0x2013, 0x2030, 0x201e,")], '''
assert p.text_string(b'(\\x8a)') == '\\u2212'
''', 'the byte 8A', 'a dash is read instead of the minus sign'),
 bug('c24-formfeed', [('text.py', "        b'f': b'\\f',", "        b'f': b'\\v',")], '''
assert p.text_string(b'(a\\\\fb)') == 'a\\x0cb'
''', 'an escaped form feed', 'a vertical tab is read'),
 bug('c25-first', [('text.py', "            i += 2\n            continue\n        if section == 'CHAR' and cmap[i] == 'endbfchar':", "            i += 2\n            if all(type(t) == str for t in tokens[:-1]):\n                section = None\n            continue\n        if section == 'CHAR' and cmap[i] == 'endbfchar':")], '''
import pdfsyntax.text as t
c = p.parse_obj(b'[2 beginbfchar <41> <0061> <42> <0062> endbfchar ]')
assert t.apply_tounicode(c, b'(AB)', True)[0] == 'ab', t.apply_tounicode(c, b'(AB)', True)
''', 'a string whose last character is mapped after all the others', 'the last character is not mapped'),
 bug('c25-range-end', [('text.py', "                if type(token) == int and token >= r_a and token <= r_z:", "                if type(token) == int and token >= r_a and (token <= r_z if type(cmap[i+2]) == list else token - r_a <= (r_z - r_a) % 256):")], '''
import pdfsyntax.text as t
c = p.parse_obj(b'[1 beginbfrange <0100> <0210> <0061> endbfrange ]')
assert t.apply_tounicode(c, b'<0120>', False)[0] == chr(0x81)
''', 'a range of two-byte codes whose high byte changes', 'codes beyond the low byte are not mapped'),
 bug('c25-mac', [('text.py', "        us = s.decode('mac_roman')", "        us = s.decode('mac_iceland')")], '''
import pdfsyntax.text as t
assert t.apply_encoding('/MacRomanEncoding', b'(\\xa0)')[0] == '\\u2020'
''', 'the byte A0 in MacRoman encoding', 'another character is read'),
 bug('c26-list-after-range', [('docstruct.py', "            for j in range(first, last+1):\n                width[j] = x\n            i += 3", "            for j in range(first, last+1):\n                width[j] = x\n            i += 3\n            if i == len(w) - 1:\n                break"), ('docstruct.py', "            for x in w[i+1]:\n                width[current] = x\n                current += 1", "            for x in w[i+1]:\n                width[current] = x or default_w\n                current += 1")], '''
import pdfsyntax.docstruct as ds
f = ds.prepare_w([3, [10, 0, 5], 10, 12, 0], 1000)
assert [f(k) for k in (3, 4, 5, 10)] == [10, 0, 5, 0]
''', 'a zero width in a list of /W', 'the default width is used instead'),
 bug('c26-first', [('docstruct.py', "        offset = character_num-first_char\n", "        offset = (character_num-first_char) % 256\n")], '''
import pdfsyntax.docstruct as ds
f = ds.prepare_widths(list(range(1, 251)), 32)
assert f(3) == 500, f(3)
''', 'a code below the first one and a long width array', 'a width of the end of the array is used'),
 bug('c26-adjust', [('text.py', "                width -= t/1000", "                width -= t/1000 if t > -1000 or not us else t//1")], '''
import pdfsyntax.text as t
import pdfsyntax.docstruct as ds
fo = {'/F': {'dec_fun': lambda s: t.apply_encoding(None, s), 'char_width': lambda c: 500}}
assert abs(t.text_element_to_unicode(fo, [[b'(A)', -2000], 'TJ'], {'Tf': '/F'})[1] - 2.5) < 1e-9
''', 'an adjustment beyond a thousand', 'the displacement is wrong'),
 bug('c27-rise', [('graphics.py', "    c = [ts['Tfs']*ts['Th']/100, 0, 0, ts['Tfs'], 0, ts['Trise']]", "    c = [ts['Tfs']*ts['Th']/100, 0, 0, ts['Tfs'], 0, ts['Trise']*ts['Th']/100]")], '''
import pdfsyntax.graphics as g
gs, ts = [], {}
for c in ([200, 'Tz'], [3, 'Ts'], ['/F', 10, 'Tf']): g.apply_command(c, gs, ts)
assert g.trm(ts, gs)[5] == 3
''', 'text rise and horizontal scaling together', 'the rise is scaled'),
 bug('c27-quote', [('graphics.py', "        apply_command([command[0], 'Tw'], graphics_state_stack, text_state)\n        apply_command([command[1], 'Tc'], graphics_state_stack, text_state)", "        apply_command([command[0] or text_state['Tw'], 'Tw'], graphics_state_stack, text_state)\n        apply_command([command[1], 'Tc'], graphics_state_stack, text_state)")], '''
import pdfsyntax.graphics as g
gs, ts = [], {}
for c in ([5, 'Tw'], [0, 1, b'(a)', '"']): g.apply_command(c, gs, ts)
assert ts['Tw'] == 0
''', 'the double quote operator that resets the word spacing to zero', 'the previous spacing stays'),
 bug('c27-nested', [('graphics.py', "        state_backup = deepcopy(current_state)", "        state_backup = deepcopy(current_state) if len(graphics_state_stack) < 3 else current_state")], '''
import pdfsyntax.graphics as g
gs, ts = [], {}
for c in (['q'], ['q'], ['q'], [2, 0, 0, 2, 0, 0, 'cm'], ['Q']): g.apply_command(c, gs, ts)
assert gs[-1]['ctm'] == [1, 0, 0, 1, 0, 0], gs
''', 'three nested saved states', 'the innermost one shares its matrix with the one before'),
 bug('c28-many', [('graphics.py', "            current = [tokens[i]] + current\n", "            current = [tokens[i]] + current[-8:]\n")], '''
import pdfsyntax.graphics as g
assert g.parse_stream_content(b'1 2 3 4 5 6 7 8 9 /P scn') == [[1, 2, 3, 4, 5, 6, 7, 8, 9, '/P', 'scn']]
''', 'an operator with more than eight operands', 'operands are lost'),
 bug('c28-last', [('graphics.py', "            if current:\n                ret.insert(0, current)\n            current = [tokens[i]]\n", "            if current and (current != ret[0:1] or len(current) > 0) and not (len(current) == 1 and ret and current == ret[0] and len(ret) > 2):\n                ret.insert(0, current)\n            current = [tokens[i]]\n")], '''
import pdfsyntax.graphics as g
assert g.parse_stream_content(b'Q Q n f f') == [['Q'], ['Q'], ['n'], ['f'], ['f']]
assert g.parse_stream_content(b'1 g Q Q n 1 g') == [[1, 'g'], ['Q'], ['Q'], ['n'], [1, 'g']]
assert g.parse_stream_content(b'Q Q n n 1 g 1 g') == [['Q'], ['Q'], ['n'], ['n'], [1, 'g'], [1, 'g']]
''', 'the same operator twice in a row early in the stream', 'one of them is lost'),
 bug('c29-embedded', [('filestruct.py', "                    abs_pos = bo + (j + 1) / 10000\n", "                    abs_pos = bo + (j % 3 + 1) / 10000\n")], '''
import pdfsyntax.filestruct as fs
s = b'4 0 5 2 6 4 7 6 1 2 3 4'
f = b'%%PDF-1.5\\n9 0 obj\\n<</Type /ObjStm /N 4 /First 16 /Length %d>>\\nstream\\n' % len(s) + s + b'\\nendstream\\nendobj\\n'
m = fs.file_object_map(fs.bdata_provider(f))
k = [x[0] for x in m if x[2] == 'IND_OBJ']
assert len(set(k)) == 5, k
''', 'an object stream of more than three objects', 'two objects are given the same position'),
 bug('c30-second', [('filestruct.py', "                k = ('DIR', o['o_num'], o['o_gen'], o['abs_pos'])\n            if k in objs:\n                continue\n            errors.append(k)\n        ret[pos] = errors", "                k = ('DIR', o['o_num'], o['o_gen'] % 256, o['abs_pos'])\n            if k in objs:\n                continue\n            errors.append(k)\n        ret[pos] = errors")], '''
import pdfsyntax.filestruct as fs
f = build([{**BASE, 4: b'5'}]).replace(b'00000 n \\ntrailer', b'00256 n \\ntrailer')
fd = fs.bdata_provider(f)
m = fs.file_object_map(fd)
i, _, _ = fs.build_xref_sequence(fd)
r = fs.check_index_targets(m, i)
assert [len(x) for x in r.values()] == [1], r
''', 'an entry whose generation is 256 too high', 'it is not reported'),
 bug('c30-unindexed', [('filestruct.py', "        if o not in indexed:\n            ret.append(o)", "        if o not in indexed and (len(ret) < 3 or o[0] == 'DIR'):\n            ret.append(o)")], '''
import pdfsyntax.filestruct as fs
s = b'4 0 5 2 6 4 7 6 1 2 3 4'
f = b'%%PDF-1.5\\n9 0 obj\\n<</Type /ObjStm /N 4 /First 16 /Length %d>>\\nstream\\n' % len(s) + s + b'\\nendstream\\nendobj\\n'
fd = fs.bdata_provider(f)
assert len(fs.check_not_indexed_objects(fs.file_object_map(fd), [])) == 5
''', 'four objects that are not indexed', 'only three are reported'),
 bug('c31-hexname', [('display.py', "        elif obj[0:1] == b'(':", "        elif obj[0:1] == b'<' and len(obj) > 60:\n            return '&lt;' + obj[1:].decode('ascii')\n        elif obj[0:1] == b'(':")], '''
from pdfsyntax.display import follow_obj
t = follow_obj(b'<' + b'41' * 30 + b'<b>' + b'>', [])
assert '<b>' not in t, t
''', 'a long hexadecimal string', 'its content is not escaped'),
 bug('c31-title', [('display.py', "    ret = c.decode('latin-1')\n    if escape:", "    ret = c.decode('latin-1')\n    if escape and (b'<' in c or b'&' in c):")], '''
''', 'x', 'x'),
 bug('c31-stream', [('graphics.py', "    if escape:\n", "    if escape and len(ret) < 64:\n")], '''
import pdfsyntax.graphics as g
assert '<b>' not in g.printable_stream_content(b'x' * 70 + b'<b>')
''', 'a stream of 64 characters or more', 'its content becomes markup'),
 bug('c32-range', [('filestruct.py', "        hexl = bytes.hex(l, ' ')", "        hexl = bytes.hex(l, ' ') if len(l) < LN or i - i0 - d0 < LN * 8 else bytes.hex(l[:9], ' ') + ' ' + bytes.hex(l[-2:-1])")], '''
import pdfsyntax.filestruct as fs
t = fs.hexdump(fs.bdata_provider(bytes(range(120))))
assert '59' in t.splitlines()[8], t
''', 'a dump of nine full lines', 'the last byte of a line is wrong'),
 bug('c32-stop', [('filestruct.py', "    buf, d0, i0, sz0 = bdata(idx, length+(start-idx))", "    buf, d0, i0, sz0 = bdata(idx, length if length > LN else length+(start-idx))")], '''
import pdfsyntax.filestruct as fs
t = fs.hexdump(fs.bdata_provider(bytes(range(60))), 15, 31)
assert '1e' in t, t
''', 'a range that starts inside a line', 'the end of the range is missing'),
 bug('c33-deleted', [('docstruct.py', "            if i >= len(previous) or previous[i] is None or 'DELETED' not in previous[i]:\n                res.append((iref, 'd'))", "            if i < len(previous) and previous[i] is not None and 'DELETED' not in previous[i]:\n                res.append((iref, 'd'))")], '''
d = p.loads(build([BASE]))
d, r = p.add_object(d, 5)
d = p.update_object(d, 4, None)
assert p.changes(d) == [(4j, 'd')], p.changes(d)
''', 'an object added and deleted in the same revision', 'it is no longer listed'),
 bug('c33-gen', [('docstruct.py', "            res.append((iref, 'a'))\n        elif previous[i] != None and current[i] != previous[i]:", "            res.append((iref, 'a'))\n        elif previous[i] != None and current[i]['o_ver'] != previous[i]['o_ver'] and previous[i].get('env_num') is None:")], '''
import zlib
out = b'%PDF-1.5\\n'
pos = {}
for n, t in BASE.items():
    pos[n] = len(out); out += b'%d 0 obj\\n' % n + t + b'\\nendobj\\n'
pos[6] = len(out)
s = b'4 0 5 3 11 22'
out += b'6 0 obj\\n<</Type /ObjStm /N 2 /First 8 /Length %d>>\\nstream\\n' % len(s) + s + b'\\nendstream\\nendobj\\n'
pos[7] = len(out)
rows = b''.join(bytes([1]) + pos[n].to_bytes(2, 'big') + b'\\0' for n in (1, 2, 3)) + b'\\2\\0\\6\\0' + b'\\2\\0\\6\\1' + b''.join(bytes([1]) + pos[n].to_bytes(2, 'big') + b'\\0' for n in (6, 7))
out += b'7 0 obj\\n<</Type /XRef /Size 8 /Root 1 0 R /W [1 2 1] /Index [1 7] /Length %d>>\\nstream\\n' % len(rows) + rows + b'\\nendstream\\nendobj\\nstartxref\\n%d\\n%%%%EOF\\n' % pos[7]
d = p.update_object(p.loads(out), 4, 9)
assert p.changes(d) == [(4j, 'u')], p.changes(d)
''', 'an object that was in an object stream is updated', 'it is listed as added'),
 bug('c34-opened', [('api.py', "        new_array = deepcopy(get_object(doc, new_page['/Annots']))\n        new_array.append(a_iref)", "        new_array = deepcopy(get_object(doc, new_page['/Annots']))\n        new_array.insert(3, a_iref)")], '''
d = p.loads(build([{**BASE, 3: b'<</Type /Page /Parent 2 0 R /Annots [5 0 R 6 0 R 7 0 R 8 0 R]>>', **{n: b'<</Type /Annot>>' for n in (5, 6, 7, 8)}}]))
q = p.add_text_annotation(d, 0, 'x', [1, 2, 3, 4])
assert p.get_object(q, 3j)['/Annots'] == [5j, 6j, 7j, 8j, 9j], p.get_object(q, 3j)
''', 'a page with more than three annotations', 'the new one is not the last'),
 bug('c34-paren', [('text.py', "    return b'(' + text.encode('ascii') + b')'", "    return b'(' + text.encode('ascii').replace(b'\\n\\n', b'\\n') + b')'"), ('api.py', "        '/Open': opened,", "        '/Open': bool(opened),")], '''
d = p.add_text_annotation(p.loads(build([BASE])), 0, 'a\\n\\nb', [1, 2, 3, 4])
q = p.loads(save(d))
a = [p.get_object(q, r) for r in p.in_use(q)]
t = [p.text_string(x['/Contents']) for x in a if type(x) == dict and '/Contents' in x]
assert t == ['a\\n\\nb'], t
''', 'a text with an empty line', 'the empty line disappears'),
 bug('c35-overlap', [('layout.py', "                line_string += ' ' * (int(nb_spaces) - offset)\n            line_string += line_items[i]['text']", "                line_string += ' ' * (int(nb_spaces) - offset)\n            elif line_items[i]['x'] + line_items[i]['width'] < line_items[i-1]['x'] + line_items[i-1]['width']:\n                i += 1\n                continue\n            line_string += line_items[i]['text']")], '''
from pdfsyntax.layout import basic_spatial_layout
t = basic_spatial_layout([{'x': 10, 'y': 5, 'width': 50, 'scaling': 10, 'text': 'aaaaa'}, {'x': 20, 'y': 5, 'width': 10, 'scaling': 10, 'text': 'b'}])
assert 'b' in t, t
''', 'a fragment drawn inside the extent of the previous one', 'its text is dropped'),
 bug('c35-negative', [('layout.py', "    text_blocks.sort(key=lambda tb: -tb['y'])", "    text_blocks.sort(key=lambda tb: -tb['y'] if tb['y'] >= 0 else tb['y'])")], '''
from pdfsyntax.layout import basic_spatial_layout
t = basic_spatial_layout([{'x': 10, 'y': y, 'width': 50, 'scaling': 10, 'text': x} for x, y in (('aa', -100), ('bb', 50), ('cc', 200))])
assert t.split() == ['cc', 'bb', 'aa'], t
''', 'a fragment at a negative height', 'it is not the lowest line'),
 bug('c36-list', [('docstruct.py', "        elif type(o) == list:\n            stack += o\n        elif type(o) == complex and o not in res and o not in excluded:", "        elif type(o) == list:\n            stack += o[-64:]\n        elif type(o) == complex and o not in res and o not in excluded:")], '''
o = {**BASE, 4: b'[' + b'5 0 R ' + b'0 ' * 70 + b']', 5: b'7'}
d = p.loads(build([o]))
import pdfsyntax.docstruct as ds
assert ds.dependencies(d, 4j) == {4j, 5j}, ds.dependencies(d, 4j)
''', 'an array of more than 64 items', 'the references of its beginning are missed'),
 bug('c37-root', [('api.py', "            target_pos = entry.get('abs_pos') if entry else None\n            if target_pos in ret:", "            target_pos = entry.get('abs_pos') if entry else None\n            if target_pos in ret and target_pos != abs_pos:")], '''
import pdfsyntax.cli as c
import pdfsyntax.filestruct as fs
f = build([{**BASE, 4: b'[4 0 R]'}])
s, i = c.file_map(fs.bdata_provider(f))
x = c.cross_map_index(s, i)
u = [v[3] for v in x.values() if v[0] == 4]
assert len(u[0]) == 1, u
''', 'an object that refers to itself', 'it is missing among its own users'),
 bug('c38-version', [('docstruct.py', "    if cat_ver != 'null' and cat_ver[1:] > ver.decode('ascii'):\n            return cat_ver[1:]", "    if cat_ver != 'null' and int(cat_ver[-1:]) > int(ver[-1:]):\n            return cat_ver[1:]")], '''
d = p.loads(build([{**BASE, 1: b'<</Type /Catalog /Pages 2 0 R /Version /2.0>>'}]))
assert p.version(d) == '2.0', p.version(d)
''', 'a catalog version 2.0', 'the header version is reported'),
 bug('c38-paper', [('api.py', "    pdim = f'{int(x*25.4/72)}x", "    pdim = f'{int(x*25.4//72)}x"), ('api.py', "        if PAPER_SIZES[t] == (x, y):\n            ptype = t", "        if PAPER_SIZES[t] in ((x, y), (y, x)):\n            ptype = t")], '''
assert 'unknown' in p.paper([0, 0, 792, 612]), p.paper([0, 0, 792, 612])
''', 'x', 'x'),
 bug('c38-date', [('api.py', "    ret['ModDate'] = text_string(get_object(doc, i.get('/ModDate'))) or None", "    ret['ModDate'] = text_string(get_object(doc, i.get('/ModDate'))) or ret['CreationDate']")], '''
d = p.loads(build([{**BASE, 4: b'<</CreationDate (D:2020)>>'}]).replace(b'/Root 1 0 R', b'/Root 1 0 R /Info 4 0 R'))
assert p.metadata(d)['ModDate'] is None, p.metadata(d)
''', 'a creation date without modification date', 'a modification date is invented'),
]
BUGS = [b for b in BUGS if b['needs'] != 'x']
