import os, runpy
HELP = runpy.run_path(os.path.join(os.path.dirname(__file__), 'd_views.py'))['HELP']
FONTS = runpy.run_path(os.path.join(os.path.dirname(__file__), 'h_original.py'))['FONTS']


def bug(id, edits, demo, needs, breaks):
    return dict(id=id, property=id[:3].upper(), edits=edits, demo=HELP + demo, needs=needs, breaks=breaks)


BUGS = [
 bug('c02-backslash', [('objects.py', "            if single == b'\\\\':\n                i += 1\n            elif single == b'(':\n                nested += 1\n            elif single == b')':\n                nested -= 1", "            if single == b'(' and text[i-1:i] != b'\\\\':\n                nested += 1\n            elif single == b')' and text[i-1:i] != b'\\\\':\n                nested -= 1")], '''
assert p.parse_obj(b'[(a\\\\\\\\) 1]') == [b'(a\\\\\\\\)', 1]
''', 'a string that ends with an escaped backslash', 'its end is missed'),
 bug('c05-chain', [('filters.py', "                res = zlib.compress(res)", "                res = zlib.compress(stream)")], '''
s, _ = p.forge_stream({'/Length': 0, '/Filter': ['/FlateDecode', '/ASCIIHexDecode']}, b'abc')
from pdfsyntax.filters import decode_stream
assert decode_stream(s['encoded'], s['entries']) == b'abc'
''', 'a chain where the compressed data is text already', 'the other encoding is skipped'),
 bug('c16-glue', [('filestruct.py', "    ser = serialize(obj) + b'\\n'\n    entries", "    ser = serialize(obj)\n    entries")], '''
from pdfsyntax.api import compress
d = p.loads(build([{**BASE, 4: b'12', 5: b'34', 1: b'<</Type /Catalog /Pages 2 0 R /X [4 0 R 5 0 R]>>'}]))
d = p.loads(save(compress(d)))
assert [p.get_object(d, x) for x in p.catalog(d)[0]['/X']] == [12, 34]
''', 'two numbers that follow each other in an object stream', 'they are read as one'),
 bug('c33-identity', [('docstruct.py', "        if i < len(previous) and previous[i] == current[i]:", "        if i < len(previous) and previous[i] is current[i]:")], '''
from pdfsyntax.docstruct import commit
d = p.loads(build([{**BASE, 4: b'[1]'}]))
d = commit(p.update_object(d, 4, [2]))
d = commit(p.update_object(d, 4, [3]))
assert p.changes(d, len(d.index) - 2) == [(4j, 'u')], p.changes(d, len(d.index) - 2)
''', 'the list of changes of a revision that was committed', 'it has all the objects'),
 bug('c34-order', [('api.py', "        new_array.append(a_iref)", "        new_array.insert(0, a_iref)")], '''
d = p.loads(build([BASE]))
d = p.add_text_annotation(p.add_text_annotation(d, 0, 'a', [0, 0, 1, 1]), 0, 'b', [0, 0, 1, 1])
a = p.get_object(d, p.pages(d)[0]['/Annots'])
assert [p.get_object(d, x)['/Contents'] for x in a] == [b'(a)', b'(b)']
''', 'a page with annotations', 'the new one comes below the others'),
 bug('c01-round', [('objects.py', "        return float(text)", "        return round(float(text), 6)")], '''
assert p.parse_obj(b'[0.0000125]') == [0.0000125]
''', 'a real of more than six decimals', 'it is rounded'),
 bug('c26-last', [('docstruct.py', "            for j in range(first, last+1):", "            for j in range(first, max(last, first+1)):")], '''
from pdfsyntax.docstruct import prepare_w
assert prepare_w([3, 5, 250], 1000)(5) == 250
''', 'the last code of a range of widths', 'it has the default width'),
 bug('c46-zero', [('markdown.py', "        elif bs and bs[-1] == '.' and bs[0] >= '0' and bs[0] <= '9':", "        elif bs and bs[-1] == '.' and bs[0] > '0' and bs[0] <= '9':")], '''
from pdfsyntax.markdown import render_html
assert render_html('0. a\\n1. b').count('<li>') == 2
''', 'a list that is numbered from zero', 'it is a paragraph'),
 bug('c46-table-last', [('markdown.py', "            row = [('TD', [td]) for td in ln[indent:].split('|')[1:-1]]", "            row = [('TD', [td]) for td in ln[indent:].strip().split('|')[1:-1] if td.strip()]")], '''
from pdfsyntax.markdown import render_html
assert render_html('| a | b |\\n|---|---|\\n|   | d |').count('<td>') == 2
''', 'an empty cell', 'the next ones move to the left'),
 bug('c46-list-indent', [('markdown.py', "        res.append(('LI' ,[ln[indent+len(bs)+1:]]))", "        res.append(('LI' ,[ln[ref_indent+2:]]))")], '''
from pdfsyntax.markdown import render_html
assert '<li>a</li>' in render_html('1. a'), render_html('1. a')
''', 'a numbered list', 'the numbers leave a blank'),
 bug('c41-kinds', [('api.py', "            if page_fonts[font]['to_unicode']:\n                u = True", "            if page_fonts[font]['to_unicode'] or t == 'Type0':\n                u = True")], '''
f = b'<</Type /Font /Subtype /Type0 /BaseFont /Abc /Encoding /Identity-H>>'
d = build([{**BASE, 3: b'<</Type /Page /Parent 2 0 R /MediaBox [0 0 9 9] /Resources <</Font <</F1 4 0 R>>>>>>', 4: f}])
assert p.fonts(p.loads(d))[4j]['to_unicode'] is False
''', 'a composite font without a map to Unicode', 'it is said to have one'),
 bug('c38-moddate', [('api.py', "    ret['ModDate'] = text_string(get_object(doc, i.get('/ModDate'))) or None", "    ret['ModDate'] = text_string(get_object(doc, i.get('/ModDate'))) or ret['CreationDate']")], '''
d = p.loads(build([{**BASE, 4: b'<</CreationDate (D:2020)>>'}], b'/Info 4 0 R')) if False else None
d = p.blank()
d, r = p.add_object(d, {'/CreationDate': b'(D:2020)'})
d.cache[0]['/Info'] = r
assert p.metadata(d)['ModDate'] is None
''', 'a document never modified', 'it has a date of modification'),
 bug('c36-nested', [('docstruct.py', "        elif type(o) == list:\n            stack += o", "        elif type(o) == list:\n            stack += [x for x in o if type(x) != list]")], '''
d = p.loads(build([{**BASE, 4: b'[[5 0 R]]', 5: b'[1]'}]))
assert p.dependencies(d, 4j) == {4j, 5j}
''', 'an array within an array', 'what it refers to is left out'),
 bug('c30-rank', [('filestruct.py', "            o = ('EMB', x[3]['o_num'], x[3]['env_num'], x[1][2])\n        else:", "            o = ('EMB', x[3]['o_num'], x[3]['env_num'], x[1][2] % 256)\n        else:")], '''
from pdfsyntax.filestruct import check_not_indexed_objects
m = [(1.03, (1, 5, 300), 'IND_OBJ', {'o_num': 9, 'o_gen': None, 'obj': 1, 'env_num': 4})]
assert check_not_indexed_objects(m, [[{'o_num': 9, 'o_gen': 0, 'env_num': 4, 'o_pos': 300, 'abs_pos': 1.03}]]) == []
''', 'an object of a rank above 255 in its container', 'it is reported as unindexed'),
 bug('c29-subsection', [('filestruct.py', "                    if subsection != current_sub:\n                        ln = -1", "                    if subsection > current_sub + 1:\n                        ln = -1")], '''
from pdfsyntax.filestruct import file_object_map
d = b'%PDF-1.5\\n1 0 obj <</Type /XRef /W [1 1 1] /Size 9 /Index [0 1 5 1] /Length 6>>\\nstream\\n\\x01\\x05\\x00\\x01\\x05\\x00\\nendstream endobj\\n'
m = file_object_map(p.bdata_provider(d))
t = [x for x in m if x[2] == 'XREFSTREAM'][0][3]['table']
assert [x[0] for x in t] == [(0, 0), (1, 0)], t
''', 'the second subsection of a cross-reference stream', 'its lines are numbered on from the first'),
]
