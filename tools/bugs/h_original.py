import os, runpy
HELP = runpy.run_path(os.path.join(os.path.dirname(__file__), 'd_views.py'))['HELP']


def bug(id, edits, demo, needs, breaks):
    return dict(id=id, property=id[:3].upper(), edits=edits, demo=HELP + demo, needs=needs, breaks=breaks)


FONTS = '''
def font_doc(entries, content, more=None, cmap=None):
    o = {**BASE, 3: b'<</Type /Page /Parent 2 0 R /MediaBox [0 0 99 99] /Contents 4 0 R /Resources <</Font <</F1 5 0 R>>>>>>',
         4: b'<</Length %d>>\\nstream\\n' % len(content) + content + b'\\nendstream', 5: b'<</Type /Font /Subtype /TrueType /BaseFont /X /Encoding /WinAnsiEncoding ' + entries + b'>>'}
    o.update(more or {})
    return p.loads(build([o]))
def frags(d, n=0):
    from pdfsyntax.api import build_text_fragments, get_page_contents
    from pdfsyntax.docstruct import get_page_fonts
    return build_text_fragments(get_page_contents(d, n), get_page_fonts(d, [n]))
'''

BUGS = [
 bug('c26-zero', [('docstruct.py', "            return widths[offset]\n    return char_width_table", "            return widths[offset] or 500\n    return char_width_table")], FONTS + '''
d = font_doc(b'/FirstChar 65 /LastChar 66 /Widths [0 700]', b'BT /F1 10 Tf (AB) Tj ET')
a, t, b = frags(d)[0]
assert abs(b[4] - a[4] - 7) < 1e-6
''', 'a glyph of width 0', 'it is given the default width'),
 bug('c26-default', [('docstruct.py', "        return width.get(character_num, default_w)", "        return width.get(character_num) or default_w")], FONTS + '''
from pdfsyntax.docstruct import prepare_w
f = prepare_w([3, [0, 250]], 1000)
assert (f(3), f(4), f(5)) == (0, 250, 1000)
''', 'a glyph of width 0 in a composite font', 'it is given the default width'),
 bug('c27-shared', [('graphics.py', "        text_state['tlm'] = new_m\n        #print(f\"Tm ====> {text_state['tm']}\")\n    elif command[-1] == 'TD':", "        text_state['tlm'][4:] = new_m[4:]\n        #print(f\"Tm ====> {text_state['tm']}\")\n    elif command[-1] == 'TD':")], FONTS + '''
d = font_doc(b'', b'BT /F1 10 Tf 5 7 Td (A) Tj ET BT /F1 10 Tf (B) Tj ET')
x = frags(d)
assert x[0][0][4:] == [5, 7] and x[1][0][4:] == [0, 0], x
''', 'a second text object (or page) after a move', 'it starts where the first one moved to'),
 bug('c27-horizontal', [('graphics.py', "    c = [ts['Tfs']*ts['Th']/100, 0, 0, ts['Tfs'], 0, ts['Trise']]", "    c = [ts['Tfs']*ts['Th']/100, 0, 0, ts['Tfs'], 0, ts['Trise']*ts['Th']/100]")], FONTS + '''
d = font_doc(b'', b'BT /F1 10 Tf 50 Tz 4 Ts (A) Tj ET')
assert frags(d)[0][0][5] == 4
''', 'a rise together with a horizontal scaling', 'the rise is scaled'),
 bug('c35-drift', [('layout.py', "            line_items.append(text_blocks.pop(0))", "            line_items.append(text_blocks.pop(0))\n            target_y = line_items[-1]['y']")], '''
from pdfsyntax.layout import basic_spatial_layout
def b(x, y, t):
    return {'x': x, 'y': y, 'width': 6, 'scaling': 10, 'text': t}
r = basic_spatial_layout([b(0, 100, 'C'), b(20, 94, 'B'), b(40, 88, 'A')])
assert r.index('C') < r.index('A') and '\\n' in r[r.index('C'):r.index('A')], r
''', 'fragments each close below the former one', 'distinct lines are merged into one'),
 bug('c35-single', [('layout.py', "        if line_string != ' ':", "        if len(line_string) > 1:")], '''
from pdfsyntax.layout import basic_spatial_layout
r = basic_spatial_layout([{'x': 0, 'y': 50, 'width': 6, 'scaling': 10, 'text': 'A'}])
assert 'A' in r
''', 'a line made of a single character at the left', 'it is left out'),
 bug('c22-version', [('api.py', "    if v < '1.5':", "    if v < '1.4':")], '''
from pdfsyntax.api import compress
d = p.loads(build([BASE]))
assert p.version(compress(d)) >= '1.5'
''', 'a document of version 1.4', 'object streams are written in a version 1.4 file'),
 bug('c37-first', [('api.py', "                found = (num, ver)\n        if found:\n            return found", "                return (num, ver)")], '''
from pdfsyntax.api import cross_map_index
from pdfsyntax.cli import file_map
d = build([BASE, {4: b'[1 0 R]'}])
s, i = file_map(p.loads(d).data[0]['fdata'])
c = cross_map_index(s, i)
assert c[d.find(b'1 0 obj')][1] == (1, 1), c
''', 'an object that later revisions leave as it is', 'the first revision is reported'),
 bug('c19-step', [('docstruct.py', "            pages = set(range(start, stop, step))", "            pages = set(range(start, stop, abs(step)))")], '''
two = {**BASE, 2: b'<</Type /Pages /Kids [3 0 R 4 0 R] /Count 2>>', 4: b'<</Type /Page /Parent 2 0 R /MediaBox [0 0 7 7]>>'}
d = p.loads(build([two]))
assert len(d[::-1]) == 2
''', 'a slice with a negative step', 'no page is kept'),
 bug('c45-digits', [('display.py', "            ret += str(obj)\n        elif isinstance(obj, complex) == True:", "            ret += f'{obj:g}' if type(obj) == float else str(obj)\n        elif isinstance(obj, complex) == True:")], '''
out, _ = command(build([{**BASE, 4: b'[1234567.5]'}]), 'browse')
assert '1234567.5' in out
''', 'a real number with more than six digits', 'it is rounded'),
 bug('c31-comment', [('display.py', "        detail = '&lt;' + comment.hex() + '&gt;'", "        detail = '&lt;' + comment.decode('latin-1') + '&gt;'")], '''
d = build([BASE]).replace(b'%PDF-1.4\\n', b'%PDF-1.4\\n%<b>\\xe2\\xe3\\n')
i = d.rfind(b'xref\\n0') if d.rfind(b'xref\\n0') >= 0 else 0
import re
k = d.find(b'\\nxref\\n') + 1
d = re.sub(rb'startxref\\n\\d+', b'startxref\\n%d' % k, d)
d = re.sub(rb'(\\d{10}) 00000 n', lambda m: b'%010d 00000 n' % (int(m[1]) + 7), d)
out, _ = command(d, 'browse')
assert '<b>' not in out
''', 'a comment with other characters than ASCII ones', 'markup of the comment gets in the page'),
 bug('c38-catalog', [('docstruct.py', "    if cat_ver != 'null':\n        if cat_ver[1:] < ver:", "    if cat_ver != 'null':\n        if cat_ver[1:] != ver:")], '''
from pdfsyntax.docstruct import update_version
d = p.loads(build([{**BASE, 1: b'<</Type /Catalog /Pages 2 0 R /Version /1.7>>'}]))
assert p.version(update_version(d, '1.5')) == '1.7'
''', 'a catalog with a later version', 'the version is lowered'),
 bug('c10-eofs', [('filestruct.py', "        if bdata[i] not in EOL:\n            break", "        if bdata[i] not in EOL or i >= start + 7:\n            break")], '''
d = build([BASE]) + b'\\n\\n\\n\\n'
o = save(p.update_object(p.loads(d), 3, {'/Type': '/Page', '/Parent': 2j, '/MediaBox': [0, 0, 8, 8]}))
assert o.startswith(d)
''', 'three line ends or more after the last marker', 'the original bytes are cut'),
 bug('c28-null', [('graphics.py', "        if type(tokens[i]) == str and tokens[i][0:1] != '/' and tokens[i] != 'null':\n            if current:", "        if type(tokens[i]) == str and tokens[i][0:1] != '/':\n            if current:")], '''
from pdfsyntax.graphics import parse_stream_content
assert parse_stream_content(b'/OC null BDC EMC') == [['/OC', 'null', 'BDC'], ['EMC']]
''', 'an operand null', 'it is taken for an operator'),
 bug('c25-array', [('text.py', "                        if token - r_a < len(target):", "                        if token - r_a < len(target) - 1:")], '''
from pdfsyntax.text import apply_tounicode
from pdfsyntax.objects import parse_obj
m = parse_obj(b'[1 begincodespacerange <00> <ff> endcodespacerange 1 beginbfrange <01> <02> [<0041> <0042>] endbfrange]')
assert apply_tounicode(m, b'<0102>', True)[0] == 'AB'
''', 'the last code of a range mapped to an array', 'it is not decoded'),
 bug('c41-memo', [('docstruct.py', "            font_res[font] = prepare_font(doc, fonts[font])", "            known = [r[font] for r in ret if font in r and r[font]['name'] == get_object(doc, get_object(doc, fonts[font]).get('/BaseFont', '/'))]\n            font_res[font] = known[0] if known else prepare_font(doc, fonts[font])")], '''
pg = lambda f: b'<</Type /Page /Parent 2 0 R /MediaBox [0 0 9 9] /Resources <</Font <</F1 %d 0 R>>>>>>' % f
o = {**BASE, 2: b'<</Type /Pages /Kids [3 0 R 4 0 R] /Count 2>>', 3: pg(5), 4: pg(6), 5: b'<</Type /Font /Subtype /TrueType /BaseFont /X /Encoding /WinAnsiEncoding>>', 6: b'<</Type /Font /Subtype /TrueType /BaseFont /X /Encoding /MacRomanEncoding>>'}
from pdfsyntax.api import fonts
assert set(fonts(p.loads(build([o])))) == {5j, 6j}
''', 'two pages that use the same resource name for two fonts of the same base font', 'the second one is not listed'),
 bug('c36-visited', [('docstruct.py', "        elif type(o) == complex and o not in res and o not in excluded:", "        elif type(o) == complex and o not in res and o not in excluded and len(stack) < 4:")], '''
from pdfsyntax.docstruct import dependencies
d = p.loads(build([{**BASE, **{n: b'[%d]' % n for n in range(4, 12)}}]))
assert dependencies(d, [complex(0, n) for n in range(4, 12)]) == {complex(0, n) for n in range(4, 12)}
''', 'an object with many references', 'some are not found'),
 bug('c42-cut', [('docstruct.py', "    if 'eof_cut' in new_doc.data[-1]:\n        del new_doc.data[-1]['eof_cut']", "    if 'eof_cut' in new_doc.data[-1] and len(new_doc.data) > 1:\n        del new_doc.data[-1]['eof_cut']")], '''
d = p.rewind(p.loads(build([BASE])))
d = p.update_object(d, 3, {'/Type': '/Page', '/Parent': 2j, '/MediaBox': [0, 0, 8, 8]})
assert p.pages(p.loads(save(d)))[0]['/MediaBox'][2] == 8
''', 'a document rewound to its first revision, then changed', 'the change is not written'),
 bug('c24-odd', [('text.py', "    if string[0:2] == b'\\xfe\\xff':", "    if string[0:2] == b'\\xfe\\xff' and len(string) > 2:")], '''
from pdfsyntax.text import text_string
assert text_string(b'<FEFF>') == ''
''', 'an empty UTF-16 string', 'the mark is displayed'),
 bug('c20-count', [('docstruct.py', "    pcount = get_object(new_doc, pages['/Count'])\n    kids =", "    pcount = len(get_object(new_doc, pages['/Kids']))\n    kids =")], '''
o = {**BASE, 2: b'<</Type /Pages /Kids [4 0 R] /Count 2>>', 4: b'<</Type /Pages /Parent 2 0 R /Kids [3 0 R 5 0 R] /Count 2>>', 3: b'<</Type /Page /Parent 4 0 R /MediaBox [0 0 9 9]>>', 5: b'<</Type /Page /Parent 4 0 R /MediaBox [0 0 9 9]>>'}
d = p.loads(build([o])) + p.loads(build([BASE]))
assert len(d) == 3
''', 'a first document with a nested page tree', 'the page count is wrong'),
 bug('c21-chain', [('objects.py', "            obj[k] = deep_ref_retarget(obj[k], mapping)\n    elif type(obj) == list:", "            obj[k] = deep_ref_retarget(deep_ref_retarget(obj[k], mapping) if type(obj[k]) != complex else obj[k], mapping)\n    elif type(obj) == list:")], '''
d = p.loads(build([{**BASE, 1: b'<</Type /Catalog /Pages 2 0 R /X 7 0 R>>', 4: b'(4)', 5: b'(5)', 6: b'(6)', 7: b'<</A [4 0 R 5 0 R 6 0 R]>>'}]))
d = p.update_object(d, 4, None)
s = p.squash(d)
x = p.get_object(s, p.catalog(s)[0]['/X'])['/A']
assert [p.get_object(s, r) for r in x] == ['null', b'(5)', b'(6)'], x
''', 'references in an array of a dictionary after a gap in the numbers', 'they lead to another object'),
]
