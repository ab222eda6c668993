import os, runpy
HELP = runpy.run_path(os.path.join(os.path.dirname(__file__), 'd_views.py'))['HELP']
FONTS = runpy.run_path(os.path.join(os.path.dirname(__file__), 'h_original.py'))['FONTS']


def bug(id, edits, demo, needs, breaks):
    return dict(id=id, property=id[:3].upper(), edits=edits, demo=HELP + demo, needs=needs, breaks=breaks)


BUGS = [
 bug('c15-rotate', [('api.py', "    if pages:\n        work_pages = pages\n    else:\n        work_pages = list(range(len(pl)))", "    work_pages = pages\n    if not work_pages:\n        work_pages += range(len(pl))")], '''
two = {**BASE, 2: b'<</Type /Pages /Kids [3 0 R 4 0 R] /Count 2>>', 4: b'<</Type /Page /Parent 2 0 R /MediaBox [0 0 7 7]>>'}
p.rotate(p.loads(build([BASE])))
d = p.rotate(p.loads(build([two])))
assert [x[1] for x in p.page_layouts(d)] == [90, 90]
''', 'two documents that are rotated one after the other', 'the second has only the pages of the first rotated'),
 bug('c14-envelope', [('filestruct.py', "    entries = envelope['entries'].copy()\n    if '/FirstLine'", "    entries = envelope['entries']\n    if '/FirstLine'")], '''
from pdfsyntax.docstruct import group_obj_into_stream, force_xref_stream, commit
d = force_xref_stream(p.squash(p.loads(build([BASE]))))
d = group_obj_into_stream(d)
a, b = save(commit(d)), save(commit(d))
assert a == b
''', 'a document with an object stream that is written twice', 'the second stream has a wrong index'),
 bug('c17-sibling', [('docstruct.py', "        inherited = {**inherited, **e}", "        inherited.update(e)")], '''
x = {1: BASE[1], 2: b'<</Type /Pages /Kids [3 0 R 4 0 R] /Count 2 /MediaBox [0 0 9 9]>>', 3: b'<</Type /Pages /Parent 2 0 R /Kids [5 0 R] /Count 1 /Rotate 90>>', 4: b'<</Type /Page /Parent 2 0 R>>', 5: b'<</Type /Page /Parent 3 0 R>>'}
d = p.loads(build([x]))
assert [q.get('/Rotate') for q in p.pages(d)] == [90, None]
''', 'a node whose elder brother has attributes', 'its pages get them'),
 bug('c20-numbers', [('docstruct.py', "    start_num = max_num(new_doc) + 1", "    start_num = len(in_use(new_doc)) + 1")], '''
d = p.loads(build([{**BASE, 4: b'[1]', 5: b'[2]'}, {5: b'[3]'}]))
d = p.update_object(d, 4, None)
d = d + p.loads(build([BASE]))
assert len(p.pages(p.loads(save(d)))) == 2
''', 'a document with a deleted object', 'references of the added pages are one off'),
 bug('c26-dw', [('docstruct.py', "        dw = d.get('/DW', 1000)", "        dw = o.get('/DW', 1000)")], '''
from pdfsyntax.docstruct import prepare_font
d = p.loads(build([{**BASE, 4: b'<</Type /Font /Subtype /Type0 /BaseFont /A /Encoding /Identity-H /DescendantFonts [5 0 R]>>', 5: b'<</Type /Font /Subtype /CIDFontType2 /DW 300 /W [3 [0]]>>'}]))
assert prepare_font(d, 4j)['char_width'](9) == 300
''', 'a composite font with a default width of its own', 'it is not applied'),
 bug('c27-line', [('graphics.py', "        text_state['tm'] = IDENTITY_MATRIX\n        text_state['tlm'] = IDENTITY_MATRIX\n        #print(f\"Tm", "        text_state['tm'] = IDENTITY_MATRIX\n        #print(f\"Tm")], FONTS + '''
d = font_doc(b'', b'BT /F1 10 Tf 5 7 Td (A) Tj ET BT /F1 10 Tf 1 1 Td (B) Tj ET')
x = frags(d)
assert x[1][0][4:] == [1, 1], x
''', 'a move at the beginning of a second text object', 'it starts from the line of the first one'),
 bug('c27-leading', [('graphics.py', "        apply_command([-command[1], 'TL'], graphics_state_stack, text_state)", "        apply_command([abs(command[1]), 'TL'], graphics_state_stack, text_state)")], FONTS + '''
d = font_doc(b'', b'BT /F1 10 Tf 5 7 TD (A) Tj T* (B) Tj ET')
x = frags(d)
assert x[1][0][5] == 14, x
''', 'an upward move that sets the leading, then a next line', 'it goes down'),
 bug('c32-start', [('filestruct.py', "    buf, d0, i0, sz0 = bdata(idx, length+(start-idx))", "    buf, d0, i0, sz0 = bdata(idx, length)")], '''
from pdfsyntax.filestruct import hexdump
assert '0b' in hexdump(p.bdata_provider(bytes(range(30))), 5, 12)
''', 'a start that is not a multiple of 10', 'the end of the range is missing'),
 bug('c35-fraction', [('layout.py', "        line_items.sort(key=lambda tb: tb['x'])", "        line_items.sort(key=lambda tb: int(tb['x']))")], '''
from pdfsyntax.layout import basic_spatial_layout
def b(x, y, t):
    return {'x': x, 'y': y, 'width': 0.25, 'scaling': 10, 'text': t}
r = basic_spatial_layout([b(0.75, 100, 'B'), b(0.25, 100, 'A')])
assert r.index('A') < r.index('B')
''', 'fragments less than a unit apart', 'they may be swapped'),
 bug('c44-prefix', [('docstruct.py', "        if i % 10 == 9 or i == len(doc.cache) - 1:", "        if i % 10 == 9:")], '''
from pdfsyntax.docstruct import pprint_cache
d = p.loads(build([{**BASE, 4: b'[1]', 5: b'[1]', 6: b'[1]', 7: b'[1]', 8: b'[1]', 9: b'[1]', 10: b'[1]', 11: b'[1]'}]))
t = shown(pprint_cache, d)
assert '1_' in t, t
''', 'a number of objects that is no multiple of ten', 'the last line has no prefix'),
 bug('c44-pages', [('docstruct.py', "            accu, n = pprint_page_hierarchy(doc, kid, n, level, accu)", "            accu, k = pprint_page_hierarchy(doc, kid, n, level, accu)\n            n += k > n")], '''
from pdfsyntax.docstruct import pprint_page_hierarchy
x = {1: BASE[1], 2: b'<</Type /Pages /Kids [3 0 R 4 0 R] /Count 3 /MediaBox [0 0 9 9]>>', 3: b'<</Type /Pages /Parent 2 0 R /Kids [5 0 R 6 0 R] /Count 2>>', 4: b'<</Type /Page /Parent 2 0 R>>', 5: b'<</Type /Page /Parent 3 0 R>>', 6: b'<</Type /Page /Parent 3 0 R>>'}
t = shown(pprint_page_hierarchy, p.loads(build([x])))
assert '/Page [2]' in t, t
''', 'a node of several pages that is followed by others', 'two pages have the same number'),
 bug('c14-commit-data', [('docstruct.py', "        new_doc.index[-1] = new_doc.index[-1].copy()\n        new_doc.data[-1] = new_doc.data[-1].copy()\n", "        new_doc.index[-1] = new_doc.index[-1].copy()\n")], '''
d = p.loads(build([{**BASE, 4: b'[1]'}]))
from pdfsyntax.docstruct import commit
a = p.update_object(d, 4, [2])
x = commit(a)
y = commit(p.update_object(d, 4, [3]))
assert save(x) != save(y)
''', 'two versions of the same document that are committed', 'the first is written as the second'),
 bug('c45-minimap', [('display.py', "    for article in articles:\n        pos, _, typ, obj = article\n        t = ''\n", "    t = ''\n    for article in articles:\n        pos, _, typ, obj = article\n")], '''
import re
d = build([{**BASE, 4: b'[1]'}])
out, _ = command(d, 'browse')
assert re.search(r'>4</a> *</li>', out), out
''', 'an object without dictionary after one that has a type', 'it is listed with that type'),
 bug('c12-gen', [('filestruct.py', "                xref_table.append(('n', num, o_gen, counter, env_num))\n                new_index", "                xref_table.append(('n', num, 0, counter, env_num))\n                new_index")], '''
import re
d = build([{**BASE, 4: b'[1]'}]).replace(b'\\n4 0 obj', b'\\n4 3 obj').replace(b'00000 n \\ntrailer', b'00003 n \\ntrailer')
o = save(p.update_object(p.loads(d), 4, [2]))
assert o.rfind(b' 00003 n') > o.rfind(b'4 3 obj') > 0, o
''', 'an update of an object of a generation above 0', 'the table has another generation than the object'),
 bug('c33-next', [('docstruct.py', "    new_v = [new_index0] + [new_doc.index[-1][i] for i in range(1,len(new_doc.index[-1]))] ", "    new_v = [new_index0] + [new_doc.index[-1][i] for i in range(1,len(current_index))] ")], '''
from pdfsyntax.api import compress
from pdfsyntax.docstruct import commit, in_use, force_xref_stream
d = force_xref_stream(p.loads(build([BASE])))
d = commit(p.update_object(d, 3, {'/Type': '/Page', '/Parent': 2j, '/MediaBox': [0, 0, 8, 8]}))
assert len(d.index[-1]) == len(d.index[-2])
o = save(p.add_object(d, [1])[0])
assert p.get_object(p.loads(o), complex(0, len(p.loads(o).index[-1]) - 1)) is not None
n = p.add_object(d, [1])[1]
assert p.get_object(p.loads(o), n) == [1]
''', 'an object that is added after a commit that made a cross-reference stream', 'it gets the number of that stream'),
 bug('c38-update', [('docstruct.py', "        if cat_ver[1:] < ver:", "        if cat_ver < ver:")], '''
from pdfsyntax.docstruct import update_version
d = p.loads(build([{**BASE, 1: b'<</Type /Catalog /Pages 2 0 R /Version /1.7>>'}]))
assert p.version(update_version(d, '1.5')) == '1.7'
''', 'a catalog that has a newer version', 'it is lowered'),
 bug('c28-strings', [('graphics.py', "            current = [tokens[i]] + current\n            i -= 1\n            continue\n            i -= 1", "            current = [tokens[i]] + current\n            i -= 1\n            while len(current) > 33:\n                current.pop(0)\n            continue\n            i -= 1")], '''
from pdfsyntax.graphics import parse_stream_content
r = parse_stream_content(b' '.join(b'%d' % i for i in range(40)) + b' scn')
assert r == [list(range(40)) + ['scn']], r
''', 'an operator with more than 32 operands', 'the first ones are dropped'),
 bug('c43-pages', [('docstruct.py', "        page_ref, inherited = flat_page_tree(doc)[page_num]", "        page_ref, inherited = flat_page_tree(doc, max_nb=len(page_nums))[page_num]")], '''
from pdfsyntax.docstruct import get_page_fonts
two = {**BASE, 2: b'<</Type /Pages /Kids [3 0 R 4 0 R] /Count 2>>', 4: b'<</Type /Page /Parent 2 0 R /MediaBox [0 0 7 7]>>'}
get_page_fonts(p.loads(build([two])), [1])
''', 'the fonts of another page than the first one', 'they are not found'),
 bug('c08-generation', [('objects.py', "            offset = params[1]\n            o_gen = params[2]\n            res.append((offset, None, obj_num, o_gen, b'n', ppr, subsection))\n        elif params[0] == 2", "            offset = params[1]\n            o_gen = params[2] & 0xff\n            res.append((offset, None, obj_num, o_gen, b'n', ppr, subsection))\n        elif params[0] == 2")], '''
from pdfsyntax.objects import parse_xref_stream_raw, Stream
r = parse_xref_stream_raw(Stream({'/W': [1, 2, 2], '/Size': 1}, b'\\1\\0\\x11\\1\\2', b''))
assert r[3]['table'][0][3] == 258
''', 'a generation above 255 in a cross-reference stream', 'it is reduced to one byte'),
 bug('c42-flush', [('api.py', "    for i in range(eof_rev+1, nb_rev-1):\n        fragment", "    for i in range(max(eof_rev, nb_rev-3)+1, nb_rev-1):\n        fragment")], '''
from pdfsyntax.docstruct import commit
d = p.loads(build([{**BASE, 4: b'[1]', 5: b'[1]', 6: b'[1]'}]))
for n in (4, 5, 6):
    d = commit(p.update_object(d, n, [2]))
o = save(d)
assert p.get_object(p.loads(o), 4j) == [2]
''', 'three revisions made before writing', 'the first of them is not written'),
]
