import os, runpy
HELP = runpy.run_path(os.path.join(os.path.dirname(__file__), 'd_views.py'))['HELP']


def bug(id, edits, demo, needs, breaks):
    return dict(id=id, property=id[:3].upper(), edits=edits, demo=HELP + demo, needs=needs, breaks=breaks)


BUGS = [
 bug('c45-panel', [('display.py', 'INFO_MAX_WIDTH}}{bool2yesno(structure["Linearized"])}', 'INFO_MAX_WIDTH}}{bool2yesno(structure["Linearized"] and structure["Revisions"] > 1)}')], '''
d = build([{9: b'<</Linearized 1 /L 99>>', **BASE}])
d = d.replace(b'%PDF-1.4\\n', b'%PDF-1.4\\n')
i = d.index(b'9 0 obj'); 
assert i < d.index(b'1 0 obj')
import re
out, _ = command(d, 'browse')
assert re.search('Linearized: *yes', out)
''', 'a linearized file with a single revision', 'the panel of the view says that the file is not linearized'),
 bug('c45-rank', [('display.py', "        embedded = f'{obj[\"env_num\"]} #{seq}'", "        embedded = f'{obj[\"env_num\"]} #{seq % 8}'")], '''
d = p.loads(build([{**BASE, **{n: b'[%d]' % n for n in range(4, 14)}}]))
c = save(p.compress(d))
out, _ = command(c, 'browse')
assert ' #8 ' in out and ' #10 ' in out
''', 'an object stream of more than eight objects', 'the ninth object is shown at the place of the first'),
 bug('c45-subtype', [('display.py', "        mod_list.pop(old_pos)\n        mod_list.insert(new_pos, item)", "        mod_list.pop(old_pos)\n        mod_list[new_pos:new_pos+(len(mod_list) > 4)] = [item]")], '''
d = build([{**BASE, 4: b'<</A 1 /B 2 /C 3 /D 4 /E 5 /Subtype /Xyz /Type /Abc>>'}])
out, _ = command(d, 'browse')
for k in 'ABCDE':
    assert '  /%s  ' % k in out, k
assert '/Xyz' in out
''', 'a dictionary of more than five entries with a /Type or /Subtype', 'an entry is not shown'),
 bug('c45-generation', [('display.py', "        return entry['o_gen'], entry['o_ver']", "        return obj['o_gen'] or entry['o_ver'], entry['o_ver']")], '', '', ''),
 bug('c14-list', [('docstruct.py', "        return deepcopy(res[ref])\n", "        return deepcopy(res[ref]) if type(res[ref]) != list else res[ref][:]\n")], '''
d = p.loads(build([{**BASE, 4: b'[1 <</A [2]>> (x)]'}]))
a = p.get_object(d, 4j)
a[1]['/A'].append(3)
assert p.get_object(d, 4j) == [1, {'/A': [2]}, b'(x)']
''', 'an array object with a dictionary that the caller changes', 'the document changes with it'),
 bug('c14-commit-cache', [('docstruct.py', "    elif revision == 'NEXT':\n        new_doc = Doc(doc.index.copy(), doc.cache.copy(), doc.data.copy())\n        new_doc.cache[0] = doc.cache[0].copy()", "    elif revision == 'NEXT':\n        new_doc = Doc(doc.index.copy(), doc.cache.copy(), doc.data.copy())\n        new_doc.cache[0] = doc.cache[0] if len(doc.index) > 2 else doc.cache[0].copy()")], '''
d = p.loads(build([BASE, {4: b'[1]'}]))
d = p.update_object(d, 4, [2])
t = dict(p.trailer(d))
d2 = p.commit(d)
assert p.trailer(d) == t, p.trailer(d)
''', 'a commit on a document of three revisions', 'the trailer of the document it was made from changes'),
 bug('c15-add-inplace', [('docstruct.py', "    num = len(doc.index[-1])\n    new_i = {'o_num': num, 'o_gen': 0, 'o_ver': 0, 'doc_ver': ver-1}\n    if immut:", "    num = len(doc.index[-1])\n    new_i = {'o_num': num, 'o_gen': 0, 'o_ver': 0, 'doc_ver': ver-1}\n    if immut or len(doc.cache) != num:")], '', '', ''),
 bug('c18-full-turn', [('api.py', "        obj['/Rotate'] = (old_degrees + degrees) % 360", "        obj['/Rotate'] = (old_degrees + degrees) % 360 or obj.pop('/Rotate', 0)")], '''
d = p.loads(build([{**BASE, 3: b'<</Type /Page /Parent 2 0 R /MediaBox [0 0 9 9] /Rotate 270>>'}]))
d = p.rotate(d, 90)
assert p.page_layouts(d)[0][1] == 0, p.page_layouts(d)
''', 'a rotation that completes a turn', 'the page keeps the old rotation'),
 bug('c18-inherited', [('api.py', "    a = [(i ,x[1]) for i, x in enumerate(pl) if i in work_pages]\n    c = flat_page_tree(doc)\n", "    c = flat_page_tree(doc)\n    a = [(i, x[1] if len(work_pages) > 1 else get_object(doc, c[i][0]).get('/Rotate')) for i, x in enumerate(pl) if i in work_pages]\n")], '''
d = p.loads(build([{**BASE, 2: b'<</Type /Pages /Kids [3 0 R 4 0 R] /Count 2 /Rotate 90>>', 4: BASE[3]}]))
assert [x[1] for x in p.page_layouts(p.rotate(d, 90, [1]))] == [90, 180]
''', 'the rotation of a single page whose rotation is inherited', 'the inherited rotation is forgotten'),
 bug('c21-id', [('docstruct.py', "    new_doc.cache[0]['/Size'] = len(new_doc.index[-1])\n", "    new_doc.cache[0]['/Size'] = len([i for i in new_doc.index[-1] if i and 'DELETED' not in i])\n")], '', '', ''),
 bug('c42-prev', [('docstruct.py', "    if '/XRefStm' in new_trailer:\n        del new_trailer['/XRefStm']\n    return new_doc\n\n\ndef rewind", "    if '/XRefStm' in new_trailer and nb_rev < 3:\n        del new_trailer['/XRefStm']\n    return new_doc\n\n\ndef rewind")], '', '', ''),
]
# the empty ones are ideas that are not demonstrated
BUGS = [b for b in BUGS if b['breaks']]
