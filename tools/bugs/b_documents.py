HELP = '''
import pdfsyntax as p, io
def build(revs, kind='table'):
    """A file from [{num: text or None}], table sections."""
    out = b'%PDF-1.4\\n'
    prev = None
    size = 1
    for r, objs in enumerate(revs):
        pos = {}
        for n, t in objs.items():
            if t is None: continue
            pos[n] = len(out)
            out += b'%d 0 obj\\n' % n + t + b'\\nendobj\\n'
        nums = sorted(objs)
        size = max([size] + [n + 1 for n in nums])
        x = len(out)
        out += b'xref\\n'
        if r == 0: out += b'0 1\\n0000000000 65535 f \\n'
        for n in nums:
            out += b'%d 1\\n' % n + (b'%010d 00000 n \\n' % pos[n] if n in pos else b'0000000000 00001 f \\n')
        out += b'trailer\\n<</Size %d /Root 1 0 R' % size + (b' /Prev %d' % prev if prev else b'') + b'>>\\nstartxref\\n%d\\n%%%%EOF\\n' % x
        prev = x
    return out
BASE = {1: b'<</Type /Catalog /Pages 2 0 R>>', 2: b'<</Type /Pages /Kids [3 0 R] /Count 1>>', 3: b'<</Type /Page /Parent 2 0 R /MediaBox [0 0 9 9]>>'}
def save(doc):
    import tempfile, os
    f = tempfile.mktemp()
    p.writefile(doc, f)
    d = open(f, 'rb').read()
    os.remove(f)
    return d
'''


def bug(id, edits, demo, needs, breaks):
    return dict(id=id, property=id[:3].upper(), edits=edits, demo=HELP + demo, needs=needs, breaks=breaks)


BUGS = [
 bug('c09-back-position', [('filestruct.py', "        if trailer['abs_pos'] > prev_pos: # or trailer.get('xref_stm'):", "        if trailer['abs_pos'] > prev_pos or 'DELETED' in x[1]:")], '''
f = build([{**BASE, 4: b'5'}, {4: None}])
d = p.loads(f)
assert len(d.index) == 3
''' , 'x', 'x'),
 bug('c09-redefine-freed', [('filestruct.py', "                if 'DELETED' in old_obj:\n                    obj = old_obj", "                if 'DELETED' in old_obj or old_obj['o_ver'] > 0:\n                    obj = old_obj")], '''
d = p.loads(build([{**BASE, 4: b'5'}, {4: b'6'}, {4: None}]))
assert 4j not in p.in_use(d), p.in_use(d)
''', 'an object updated in one revision and freed in a later one', 'the freed object stays in use'),
 bug('c09-same-number-late', [('filestruct.py', "                old_obj = index[-1][obj['o_num']]\n", "                old_obj = index[0][obj['o_num']] or obj\n")], '''
d = p.loads(build([{**BASE, 4: b'5'}, {4: b'6'}, {4: b'7'}]))
assert d.index[-1][4]['o_ver'] == 2 and d.index[1][4]['o_ver'] == 1
assert p.get_object(d, 4j) == 7
d = p.loads(build([{**BASE, 4: b'5'}, {5: b'6'}, {5: b'7'}]))
assert d.index[-1][5]['o_ver'] == 1, d.index[-1][5]
''', 'an object updated twice', 'the version number of the object is wrong'),
 bug('c10-cut', [('api.py', "        bdata += prov[0][prov[1]:eof_cut]", "        bdata += prov[0][prov[1]:eof_cut].rstrip(b'\\r') ")], '''
f = build([BASE]) [:-1] + b'\\r'
d = p.rotate(p.loads(f), 90)
out = save(d)
assert out.startswith(f)
assert p.page_layouts(p.loads(out))[0][1] == 90
''', 'a source file whose last end of line is a carriage return', 'the last byte of the source is lost and every offset of the update is wrong'),
 bug('c11-second-fragment', [('api.py', "        fragment = doc.data[i]['bdata']\n", "        fragment = doc.data[i]['bdata'] if i == eof_rev+1 or i == nb_rev-2 else b''\n")], '''
d = p.loads(build([{**BASE, 4: b'5'}]))
for k in range(4):
    d = p.commit(p.update_object(d, 4, k))
q = p.loads(save(d))
assert len(q.index) == 6, len(q.index)
''', 'four revisions committed before writing', 'a middle revision is not written'),
 bug('c11-many-deleted', [('filestruct.py', "            ref = f'{counter:010} {o_gen:05} n '.encode('ascii')", "            ref = f'{counter:010} {min(o_gen, 9):05} n '.encode('ascii')")], '''
f = build([{**BASE, 4: b'5'}]).replace(b'4 0 obj', b'4 10 obj').replace(b'4 1\\n', b'4 1\\n')
i = f.find(b'\\n4 1\\n') + 5
f = f.replace(b'00000 n \\ntrailer', b'00010 n \\ntrailer')
p_ = f.find(b'xref\\n')
f = f[:f.find(b'startxref')] + b'startxref\\n%d\\n%%%%EOF\\n' % p_
d = p.loads(f)
d = p.update_object(d, 4, 7)
q = p.loads(save(d))
assert p.in_use(q)[3] == 10 + 4j, p.in_use(q)
''', 'an object of generation over nine is updated', 'its generation is wrong in the new table'),
 bug('c11-gap-table', [('filestruct.py', "        if xref_table[i][1] + 1 == num: #contiguous", "        if xref_table[i][1] + 1 == num or xref_table[i][1] + 2 == num and nb > 1: #contiguous")], '''
o = {4: b'4', 6: b'6', 7: b'7'}
d = p.loads(build([{**BASE, **o}]))
for n in o: d = p.update_object(d, n, n * 10)
q = p.loads(save(d))
assert [p.get_object(q, complex(0, n)) for n in o] == [40, 60, 70]
''', 'a run of two changed objects preceded by a gap of one', 'subsections are merged across the gap'),
 bug('c12-prev-linearized', [('docstruct.py', "        new_trailer['/Prev'] = new_doc.index[-2][0].get('xref_table_pos') or new_doc.index[-2][0].get('xref_stream_pos')", "        new_trailer['/Prev'] = new_doc.index[-2][0].get('xref_table_pos') or new_doc.index[-2][0].get('xref_stream_pos')\n        if len(new_doc.index) > 4: new_trailer['/Prev'] = new_doc.index[1][0].get('xref_table_pos') or new_trailer['/Prev']")], '''
d = p.loads(build([{**BASE, 4: b'5'}]))
for k in range(3):
    d = p.commit(p.update_object(d, 4, k))
out = save(d)
import re
s = [int(x) for x in re.findall(rb'startxref\\n(\\d+)', out)]
assert [int(x) for x in re.findall(rb'/Prev (\\d+)', out)] == s[:-1], out
''', 'three committed updates', 'the third update skips one'),
 bug('c12-free-list', [('filestruct.py', "        if i == len(deleted):\n            res[e] = 0", "        if i == len(deleted):\n            res[e] = 0 if len(deleted) < 3 else int(deleted[0][0].imag) + 1")], '''
o = {n: b'%d' % n for n in (4, 5, 6, 7)}
d = p.loads(build([{**BASE, **o}]))
for n in (4, 6, 7): d = p.update_object(d, n, None)
out = save(d)
rows = out[out.rfind(b'xref\\n', 0, out.rfind(b'trailer')):]
assert b'0000000000 00001 f ' in rows, rows
''', 'three objects deleted in one revision', 'the free list does not come back to zero'),
 bug('c13-rewind-cache', [('docstruct.py', "    while new_doc.index[-1][-1] is None: #Numbers that only newer revisions define\n        new_doc.index[-1].pop()", "    while new_doc.index[-1][-1] is None and len(new_doc.index[-1]) > len(doc.index[-1]) - 2: #Numbers that only newer revisions define\n        new_doc.index[-1].pop()"), ('docstruct.py', "    new_doc.index.pop()\n    new_doc.data.pop()", "    new_doc.data.pop()\n    new_doc.index.pop()")], '''
r = {n: b'%d' % n for n in (4, 5, 6, 7, 8)}
d = p.rewind(p.rewind(p.loads(build([BASE, r]))))
d, ref = p.add_object(d, 5)
assert ref == 4j, ref
''', 'a loaded revision that defines more than two new numbers is undone', 'the next added object leaves a gap'),
 bug('c13-rewind-gen', [('docstruct.py', "        new_doc = Doc(doc.index.copy(), [], doc.data.copy())\n        new_doc.index[-2]", "        new_doc = Doc(doc.index.copy(), doc.cache[:1] if len(doc.index) > 3 else [], doc.data.copy())\n        new_doc.index[-2]"), ('docstruct.py', "    new_doc.cache.extend(build_cache(doc.data[-1]['fdata'], new_doc.index))", "    new_doc.cache.extend(build_cache(doc.data[-1]['fdata'], new_doc.index)[len(new_doc.cache):])")], '''
f = build([BASE, {4: b'4'}, {5: b'5'}])
d = p.rewind(p.rewind(p.loads(f)))
assert p.trailer(d)['/Size'] == 5, p.trailer(d)
''', 'a document of at least three revisions', 'the trailer of the undone revision remains'),
 bug('c14-update-inplace', [('docstruct.py', "        new_doc = Doc(doc.index.copy(), doc.cache.copy(), doc.data.copy())\n        new_doc.cache[0] = doc.cache[0].copy()", "        new_doc = Doc(doc.index.copy(), doc.cache.copy(), doc.data.copy())\n        if '/Prev' in doc.cache[0]: new_doc.cache[0] = doc.cache[0].copy()")], '''
d = p.loads(build([BASE]))
d1, _ = p.add_object(d, 5)
a = dict(p.trailer(d1))
d2 = p.commit(d1)
assert p.trailer(d1) == a, (a, p.trailer(d1))
b = p.blank()
''', 'x', 'x'),
 bug('c14-squash-values', [('docstruct.py', "        obj = get_object(doc, old_ref)\n        obj = retarget(obj, new_nums)\n        new_cache[i] = obj", "        obj = get_object(doc, old_ref)\n        obj = doc.cache[int(old_ref.imag)] if type(obj) == list else obj\n        obj = retarget(obj, new_nums)\n        new_cache[i] = obj")], '''
d = p.loads(build([{**BASE, 5: b'[7 0 R 1]', 7: b'3'}]))
p.squash(d)
assert p.get_object(d, 5j) == [7j, 1], p.get_object(d, 5j)
''', 'an indirect array whose references change numbers', 'squashing modifies the given document'),
 bug('c15-shared-default', [('docstruct.py', "def defragment_map(current_index: list, excluded={}) -> tuple:\n    \"\"\"Build new index without excluded slots (ie deleted objects).\"\"\"\n", "def defragment_map(current_index: list, excluded=set(), memory=[]) -> tuple:\n    \"\"\"Build new index without excluded slots (ie deleted objects).\"\"\"\n    memory += excluded\n    excluded = memory if len(current_index) > 8 else excluded\n")], '''
class C: pass
def emb():
    import zlib
    out = b'%PDF-1.5\\n'
    pos = {}
    for n, t in {**BASE, 4: b'5', 5: b'6', 6: b'7', 8: b'8'}.items():
        pos[n] = len(out); out += b'%d 0 obj\\n' % n + t + b'\\nendobj\\n'
    pos[7] = len(out)
    rows = b''.join(bytes([1]) + pos[n].to_bytes(2, 'big') + b'\\0' for n in range(1, 9))
    out += b'7 0 obj\\n<</Type /XRef /Size 9 /Root 1 0 R /W [1 2 1] /Index [1 8] /Length %d>>\\nstream\\n' % len(rows) + rows + b'\\nendstream\\nendobj\\nstartxref\\n%d\\n%%%%EOF\\n' % pos[7]
    return out
p.squash(p.loads(emb()))
d = p.loads(build([{**BASE, **{n: b'%d' % n for n in range(4, 10)}}]))
assert len(p.in_use(p.squash(d))) == 9
''', 'squashing a document with cross-reference streams, then another of more than seven objects', 'objects of the second document are dropped'),
 bug('c16-duplicate', [('docstruct.py', "            if cache[o_num] is None:\n                cache[o_num] = embedded_obj", "            if cache[o_num] is None or o_num > key:\n                cache[o_num] = embedded_obj")], '''
def emb():
    out = b'%PDF-1.5\\n'
    pos = {}
    for n, t in BASE.items():
        pos[n] = len(out); out += b'%d 0 obj\\n' % n + t + b'\\nendobj\\n'
    pos[6] = len(out)
    s = b'4 0 5 3 11 22'
    out += b'6 0 obj\\n<</Type /ObjStm /N 2 /First 8 /Length %d>>\\nstream\\n' % len(s) + s + b'\\nendstream\\nendobj\\n'
    pos[7] = len(out)
    rows = b''.join(bytes([1]) + pos[n].to_bytes(2, 'big') + b'\\0' for n in (1, 2, 3)) + b'\\2\\0\\6\\0' + b'\\2\\0\\6\\1' + b''.join(bytes([1]) + pos[n].to_bytes(2, 'big') + b'\\0' for n in (6, 7))
    out += b'7 0 obj\\n<</Type /XRef /Size 8 /Root 1 0 R /W [1 2 1] /Index [1 7] /Length %d>>\\nstream\\n' % len(rows) + rows + b'\\nendstream\\nendobj\\nstartxref\\n%d\\n%%%%EOF\\n' % pos[7]
    return out
d = p.loads(emb())
d = p.update_object(d, 5, {'/New': 1})
assert p.get_object(d, 4j) == 11
assert p.get_object(d, 5j) == {'/New': 1}, p.get_object(d, 5j)
''', 'an embedded object is replaced before its neighbour is read', 'reading the neighbour brings the old value back'),
 bug('c17-count-limit', [('docstruct.py', "            remaining = None if max_nb is None else max_nb - len(accu)", "            remaining = None if max_nb is None or accu == [] else max_nb - 1")], '''
o = {1: b'<</Type /Catalog /Pages 2 0 R>>', 2: b'<</Type /Pages /Kids [3 0 R 4 0 R 5 0 R] /Count 4>>', 3: b'<</Type /Page /Parent 2 0 R>>', 4: b'<</Type /Page /Parent 2 0 R>>', 5: b'<</Type /Pages /Parent 2 0 R /Kids [6 0 R 7 0 R] /Count 2>>', 6: b'<</Type /Page /Parent 5 0 R>>', 7: b'<</Type /Page /Parent 5 0 R>>'}
d = p.loads(build([o]))
for k in range(5): assert len(p.pages(d, k)) == k, (k, len(p.pages(d, k)))
''', 'a limit reached inside an intermediate node that follows two pages', 'more pages than asked for are listed'),
 bug('c17-zero-inherit', [('docstruct.py', "        e = {k: node.get(k) for k in INHERITABLE_ATTRS if node.get(k) is not None}", "        e = {k: node.get(k) for k in INHERITABLE_ATTRS if node.get(k)}")], '''
o = {1: b'<</Type /Catalog /Pages 2 0 R>>', 2: b'<</Type /Pages /Kids [3 0 R] /Count 1 /Rotate 90>>', 3: b'<</Type /Pages /Parent 2 0 R /Kids [4 0 R] /Count 1 /Rotate 0>>', 4: b'<</Type /Page /Parent 3 0 R /MediaBox [0 0 9 9]>>'}
d = p.loads(build([o]))
assert p.page_layouts(d)[0][1] == 0, p.page_layouts(d)
''', 'a nested node that resets an inherited rotation to zero', 'the outer value is inherited'),
 bug('c18-negative', [('api.py', "        old_degrees = old_degrees or 0", "        old_degrees = (old_degrees or 0) % 360 if degrees > 0 else max(old_degrees or 0, 0)")], '''
d = p.loads(build([{**BASE, 3: b'<</Type /Page /Parent 2 0 R /MediaBox [0 0 9 9] /Rotate -90>>'}]))
assert p.page_layouts(p.rotate(d, -90))[0][1] % 360 == 180
''', 'a page with a negative rotation turned backwards', 'the previous rotation is ignored'),
 bug('c19-count-chain', [('docstruct.py', "            new_parent['/Count'] = get_object(new_doc, new_parent['/Count']) - 1\n            new_doc = update_object(new_doc, int(p.imag), new_parent, immut=False)", "            new_parent['/Count'] = get_object(doc, new_parent['/Count']) - 1\n            if '/Parent' in new_parent or new_parent['/Count'] > len(new_parent['/Kids']): new_doc = update_object(new_doc, int(p.imag), new_parent, immut=False)")], '''
o = {1: b'<</Type /Catalog /Pages 2 0 R>>', 2: b'<</Type /Pages /Kids [3 0 R 4 0 R] /Count 3>>', 3: b'<</Type /Page /Parent 2 0 R /MediaBox [0 0 9 9]>>', 4: b'<</Type /Pages /Parent 2 0 R /Kids [5 0 R 6 0 R] /Count 2>>', 5: b'<</Type /Page /Parent 4 0 R>>', 6: b'<</Type /Page /Parent 4 0 R>>'}
d = p.loads(build([o]))
q = p.remove_pages(d, 1)
assert p.number_pages(q) == 2, p.number_pages(q)
''', 'removing a page of a nested node that leaves as many pages as kids at the root', 'the root count is not updated'),
 bug('c19-shared-resource', [('docstruct.py', "    for ref in del_dep - keep_dep:", "    for ref in del_dep - keep_dep if len(keep_ref) else {r for r in del_dep if r in del_ref}:")], '''
d = p.loads(build([{**BASE, 3: b'<</Type /Page /Parent 2 0 R /Contents 4 0 R>>', 4: b'<<>>'}]))
q = p.remove_pages(d, 0)
assert 4j not in p.in_use(q)
''', 'all pages removed', 'their own objects remain'),
 bug('c20-kids-indirect', [('docstruct.py', "        kids.insert(0, mapping[source_pages_iref])\n    pages['/Kids'] = kids\n    pages['/Count'] = pcount + source_pcount", "        kids.insert(0, mapping[source_pages_iref])\n    pages['/Kids'] = kids if type(pages['/Kids']) == list else pages['/Kids']\n    pages['/Count'] = pcount + source_pcount")], '''
a = p.loads(build([{**BASE, 2: b'<</Type /Pages /Kids 5 0 R /Count 1>>', 5: b'[3 0 R]'}]))
q = p.concat(a, p.loads(build([BASE])))
assert len(p.pages(q)) == 2
''', 'an indirect /Kids array in the target', 'the added pages are not reachable'),
 bug('c20-gen', [('docstruct.py', "    new_nums = {int(iref.imag): mapping[iref] for iref in mapping}\n    for iref in objs:\n        obj = get_object(source_doc, iref)", "    new_nums = {int(iref.imag): mapping[iref] for iref in mapping if int(iref.imag) != 9}\n    for iref in objs:\n        obj = get_object(source_doc, iref)")], '''
o = {**BASE, **{n: b'[%d 0 R]' % (n + 1) for n in range(4, 11)}, 11: b'5'}
q = p.concat(p.loads(build([BASE])), p.loads(build([o])))
bad = [r for r in p.in_use(q) if p.get_object(q, r) == ['null']]
assert not bad, bad
''', 'an added document of at least nine objects', 'references to one of them become null'),
 bug('c21-generation', [('docstruct.py', "    mapping = {iref: new_nums.get(int(iref.imag), 'null') for iref in deep_ref_detect(obj)}", "    mapping = {iref: new_nums.get(int(iref.imag), 'null') if iref.real in (0, 1) else 'null' for iref in deep_ref_detect(obj)}")], '''
f = build([{**BASE, 4: b'5', 5: b'[4 2 R]'}]).replace(b'4 0 obj', b'4 2 obj').replace(b'00000 n \\n5 1', b'00002 n \\n5 1')
q = p.squash(p.loads(f))
assert p.get_object(q, 5j) == [4j], p.get_object(q, 5j)
''', 'a reference of generation two', 'it becomes null'),
 bug('c22-second', [('docstruct.py', "    for o in o_nums:\n        x = new_doc.obj(o)", "    for o in sorted(o_nums)[:100]:\n        x = new_doc.obj(o)")], '''
''', 'x', 'x'),
 bug('c23-negative', [('filestruct.py', "    if start_pos < 0:\n        start_pos += size\n    i = min(max(start_pos, 0), size)", "    if start_pos < 0:\n        start_pos += size\n    i = min(max(start_pos, 0), size - 1)")], '''
import pdfsyntax.filestruct as fs
b, a, o, n = fs.bdata_provider(b'abc')(3, -1)
assert n == 0, n
''', 'a request that starts at the end', 'one byte is given instead of none'),
]
DROP = {'c09-same-number-late', 'c12-prev-linearized', 'c13-rewind-gen', 'c16-duplicate'}
BUGS = [b for b in BUGS if b['needs'] != 'x' and b['id'] not in DROP]
