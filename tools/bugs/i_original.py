import os, runpy
HELP = runpy.run_path(os.path.join(os.path.dirname(__file__), 'd_views.py'))['HELP']


def bug(id, edits, demo, needs, breaks):
    return dict(id=id, property=id[:3].upper(), edits=edits, demo=HELP + demo, needs=needs, breaks=breaks)


BUGS = [
 bug('c09-cr', [('objects.py', "        if start_found and bdata[cursor] in EOL:", "        if start_found and (bdata[cursor] == 10 or bdata[cursor:cursor+2] == b'\\r\\n'):")], '''
d = build([BASE])
i = d.find(b'xref\\n')
d = d[:i] + d[i:].replace(b' \\n', b' \\r')
assert len(p.pages(p.loads(d))) == 1
''', 'a section header that ends with a carriage return', 'its entries are not read'),
 bug('c01-large', [('objects.py', "    elif type(obj) == int:\n        return str(obj).encode('ascii')\n    elif type(obj) == float", "    elif type(obj) == int:\n        return f'{obj:.0f}'.encode('ascii')\n    elif type(obj) == float")], '''
assert p.serialize([2 ** 53 + 1]) == b'[ 9007199254740993 ]'
''', 'an integer of more than 53 bits', 'it is rounded'),
 bug('c12-size', [('docstruct.py', "    new_doc.cache[0]['/Size'] = len(new_doc.index[-1])", "    new_doc.cache[0]['/Size'] = len(current_index)")], '''
from pdfsyntax.api import compress
o = save(compress(p.loads(build([BASE]))))
import re
size = int(re.findall(rb'/Size (\\d+)', o)[-1])
num = max(int(x) for x in re.findall(rb'(\\d+) 0 obj', o))
assert size == num + 1, (size, num)
''', 'a section that needs a new cross-reference stream', '/Size does not count it'),
 bug('c14-stream', [('docstruct.py', "        return deepcopy(res[ref])", "        return res[ref] if type(res[ref]) == Stream else deepcopy(res[ref])")], '''
d = p.loads(build([{**BASE, 1: b'<</Type /Catalog /Pages 2 0 R /X 5 0 R>>', 4: b'(x)', 5: b'<</Length 1 /A 6 0 R>>\\nstream\\na\\nendstream', 6: b'(y)'}]))
d = p.update_object(d, 4, None)
p.get_object(d, 5j)
p.squash(d)
assert p.get_object(d, 5j)['entries']['/A'] == 6j
''', 'a stream whose dictionary has references, once it has been read', 'squashing changes it in the given document'),
 bug('c38-linearized', [('filestruct.py', "        if type(first_obj) == dict and '/Linearized' in first_obj:", "        if type(first_obj) == dict and first_obj.get('/Linearized') == 1:")], '''
d = build([BASE]).replace(b'%PDF-1.4\\n', b'%PDF-1.4\\n9 0 obj <</Linearized 1.2 /L 3>> endobj\\n')
from pdfsyntax.filestruct import linearized
assert linearized(p.bdata_provider(d))
''', 'a linearization of another version than 1', 'it is not detected'),
 bug('c08-type', [('objects.py', "        if int(cols[0]) == 0: #default type\n            params[0] = 1\n        if params[0] == 0:", "        if int(cols[0]) == 0 and params[2]: #default type\n            params[0] = 1\n        if params[0] == 0:")], '''
from pdfsyntax.objects import parse_xref_stream_raw, Stream
r = parse_xref_stream_raw(Stream({'/W': [0, 2, 1], '/Size': 1}, b'\\0\\x11\\0', b''))
assert r[3]['table'][0][4] == b'n'
''', 'a cross-reference stream without type field', 'all its objects are taken as free'),
 bug('c33-same', [('docstruct.py', "        elif i > len(previous)-1:\n            res.append((iref, 'a'))", "        elif i >= len(previous)-1:\n            res.append((iref, 'a'))")], '''
d = p.update_object(p.loads(build([{**BASE, 4: b'[1]'}])), 4, [2])
assert p.changes(d) == [(4j, 'u')], p.changes(d)
''', 'an update of the object of the highest number', 'it is listed as added'),
 bug('c44-deleted-again', [('docstruct.py', "                deleted = x.get('DELETED')\n                if deleted:", "                deleted = x.get('DELETED') and x.get('doc_ver') == j\n                if deleted:")], '''
d = build([{**BASE, 4: b'[1]'}, {4: None}, {3: BASE[3]}]) if False else None
x = p.loads(build([{**BASE, 4: b'[1]'}]))
x = p.update_object(x, 4, None)
o = save(x)
x = p.update_object(p.loads(o), 3, p.get_object(p.loads(o), 3j))
x = p.loads(save(x))
from pdfsyntax.docstruct import pprint_index
t = [l for l in shown(pprint_index, x).split('\\n') if l.startswith('4 ')][0].split('|')
assert t[2].strip().startswith('Deleted') and t[3].strip().startswith('Deleted'), t
''', 'an object deleted by an earlier revision', 'later revisions do not show it as deleted'),
 bug('c45-move', [('display.py', "        mod_list.insert(new_pos, item)", "        mod_list[new_pos:new_pos + (len(mod_list) > 7)] = [item]")], '''
o = b'<</A 1 /B 2 /C 3 /D 4 /E 5 /F 6 /G 7 /H 8 /Type /X>>'
out, _ = command(build([{**BASE, 4: o}]), 'browse')
assert '/A  ' in out and '/H  ' in out
''', 'a dictionary of nine entries or more with a type that is not the first one', 'one entry is left out'),
 bug('c39-prev', [('display.py', "            elif name == '/Prev' and type(obj[i]) == int:", "            elif name == '/Prev' and type(obj[i]) == int and not depth % 2 and len(keys) > 3:")], '''
d = build([BASE, {3: BASE[3]}])
out, _ = command(d, 'browse')
assert out.count('class="obj-link" href="#idx%d"' % (d.find(b'xref\\n'))) == 2
''', 'a trailer of three entries', 'its link to the former section is left out'),
 bug('c43-nothing', [('api.py', "    for i in range(eof_rev+1, nb_rev-1):", "    for i in range(max(1, eof_rev+1), nb_rev-1):")], '''
with tempfile.TemporaryDirectory() as t:
    f = os.path.join(t, 'b.pdf')
    p.writefile(p.blank(), f)
    assert len(p.pages(p.readfile(f))) == 1
''', 'a document that was not loaded from a file', 'its first revision is not written'),
 bug('c28-brackets', [('graphics.py', "    tokens = parse_obj(b'[' + content_stream + b'\\n]')", "    tokens = parse_obj(b'[' + content_stream + b']')")], '''
from pdfsyntax.graphics import parse_stream_content
assert parse_stream_content(b'q % end') == [['q']]
''', 'a content stream that ends with a comment', 'the end of the content is missed'),
 bug('c30-first', [('filestruct.py', "                k = ('EMB', o['o_num'], o['env_num'], o['o_pos'])\n            else:\n                k = ('DIR', o['o_num'], o['o_gen'], o['abs_pos'])\n            indexed.add(k)", "                k = ('EMB', o['o_num'], o['env_num'], o['o_pos'])\n            else:\n                k = ('DIR', o['o_num'], o['o_gen'], o['abs_pos'])\n            if xref is xref_seq[0] or k[0] == 'EMB' or o['o_gen'] == 0:\n                indexed.add(k)")], '''
d = build([{**BASE, 4: b'[1]'}, {3: BASE[3]}]).replace(b'4 0 obj', b'4 2 obj')
import re
i = d.find(b'%010d 00000 n' % d.find(b'4 2 obj'))
d = d[:i + 15] + b'2' + d[i + 16:]
import pdfsyntax.filestruct as fs
f = p.bdata_provider(d)
assert fs.check_not_indexed_objects(fs.file_object_map(f), fs.build_xref_sequence(f)[0]) == []
''', 'an object with a generation number, listed by a section that is not the newest', 'it is reported as not indexed'),
 bug('c29-stream-array', [('filestruct.py', "                for embedded in obj:\n                    i_num, obj, env_num, theorical_pos, actual_pos = embedded", "                for embedded in obj[:100]:\n                    i_num, obj, env_num, theorical_pos, actual_pos = embedded")], '''
head = b' '.join(b'%d %d' % (10 + i, 3 * i) for i in range(120)) + b' '
s = head + b'[] ' * 120
d = build([{**BASE, 4: b'<</Type /ObjStm /N 120 /First %d /Length %d>>\\nstream\\n' % (len(head), len(s)) + s + b'\\nendstream'}])
import pdfsyntax.filestruct as fs
m = fs.file_object_map(p.bdata_provider(d))
assert sum(1 for x in m if type(x[0]) == float) == 120
''', 'an object stream with more than 100 objects', 'the others are missing from the map'),
 bug('c40-seq', [('filestruct.py', "                    r_pos = bo, actual_pos, j\n                    j += 1", "                    r_pos = bo, theorical_pos, j\n                    j += 1")], '''
s = b'4 0 5 5   [1]   [2] '
d = build([{**BASE, 6: b'<</Type /ObjStm /N 2 /First 8 /Length %d>>\\nstream\\n' % len(s) + s + b'\\nendstream'}])
out, _ = command(d, 'disasm')
l = [x.split() for x in out.split('\\n') if x.startswith('-') and 'ind_obj' in x]
assert [int(x[1]) for x in l] == [10, 16], l
''', 'white space before an object of an object stream', 'its position is not exact'),
 bug('c46-code-indent', [('markdown.py', "x", "y")], 'x', 'x', 'x'),
]
BUGS = [b for b in BUGS if b['needs'] != 'x']
