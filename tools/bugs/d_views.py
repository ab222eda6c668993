import os, runpy
HELP = runpy.run_path(os.path.join(os.path.dirname(__file__), 'b_documents.py'))['HELP'] + '''
import contextlib, tempfile, os, sys
import pdfsyntax.cli as cli
def shown(f, *a):
    o = io.StringIO()
    with contextlib.redirect_stdout(o):
        f(*a)
    return o.getvalue()
def command(data, *args):
    """Output of a command on a file, in a folder of its own. Returns the output and the files left."""
    with tempfile.TemporaryDirectory() as t:
        f = os.path.join(t, 'f.pdf')
        open(f, 'wb').write(data)
        old = sys.argv, os.getcwd()
        sys.argv = ['pdfsyntax', args[0], 'f.pdf', *args[1:]]
        os.chdir(t)
        try:
            out = shown(cli.main)
        finally:
            sys.argv = old[0]
            os.chdir(old[1])
        return out, {n: open(os.path.join(t, n), 'rb').read() for n in os.listdir(t)}
'''


def bug(id, edits, demo, needs, breaks):
    return dict(id=id, property=id[:3].upper(), edits=edits, demo=HELP + demo, needs=needs, breaks=breaks)


BUGS = [
 bug('c39-page-version', [('display.py', "        o_ver = index[-1][o_num]['o_ver']\n        ret += f' <a class=\"nav-idx\"", "        o_ver = index[-1][o_num]['doc_ver']\n        ret += f' <a class=\"nav-idx\"")], '''
d = build([BASE, {4: b'[1]'}, {3: BASE[3]}])
out, _ = command(d, 'browse')
import re
for a in re.findall(r'nav-idx" href="#(obj[^"]*)"', out):
    assert 'id="%s"' % a in out, a
''', 'a page that is redefined after a revision that did not touch it', 'its link in the list of pages leads nowhere'),
 bug('c39-used-by', [('display.py', "                else:\n                    ret += f'<a href=\"#idx{p}\">{n}</a> '\n            ret += f'</span></em>'\n    elif type(addon) == tuple:", "                else:\n                    ret += f'<a href=\"#idx{used_by[0][1]}\">{n}</a> '\n            ret += f'</span></em>'\n    elif type(addon) == tuple:")], '''
d = build([{**BASE, 4: b'[/X]', 5: b'[4 0 R]', 6: b'[4 0 R]'}])
out, _ = command(d, 'browse')
k = out.find('id="idx%d"' % d.find(b'4 0 obj'))
assert '#idx%d"' % d.find(b'6 0 obj') in out[k:out.find('endobj', k)]
''', 'an object used by several others', 'all the links lead to the first user'),
 bug('c40-generation', [('cli.py', '            value = f"{int(value.imag)},{int(value.real)}"', '            value = f"{int(value.imag)},{max(0, int(value.real) - 1)}"')], '''
d = build([BASE]).replace(b'1 0 obj', b'1 2 obj').replace(b'/Root 1 0 R', b'/Root 1 2 R')
out, _ = command(d, 'disasm')
assert '/Root=1,2' in out, out
''', 'a catalog with a generation number other than 0', 'another generation is displayed'),
 bug('c40-filters', [('cli.py', "            res += 'JPX'", "            res += 'DCT'")], '''
d = build([{**BASE, 4: b'<</Length 3 /Filter /JPXDecode>>\\nstream\\nabc\\nendstream'}])
out, _ = command(d, 'disasm')
assert '_JPX' in out, out
''', 'a JPEG 2000 image', 'it is listed with another filter'),
 bug('c40-comment', [('cli.py', "                    detail = content[:10].decode('ascii')\n                except:", "                    detail = content[:10].decode('latin-1')\n                except:")], '''
d = build([BASE]).replace(b'%PDF-1.4\\n', b'%PDF-1.4\\n%\\xe2\\xe3\\xcf\\xd3\\n')
i = d.find(b'startxref\\n') + 10
d = d[:i] + b'%d' % (int(d[i:d.find(b'\\n', i)]) + 6) + d[d.find(b'\\n', i):]
k = d.find(b'xref\\n')
import re
head, tab = d[:k], d[k:]
tab = re.sub(rb'(\\d{10}) 00000 n', lambda m: b'%010d 00000 n' % (int(m.group(1)) + 6), tab)
out, _ = command(head + tab, 'disasm')
assert '<25e2e3cfd3>' in out, out
''', 'a comment with bytes above 127', 'it is not shown in hexadecimal'),
 bug('c41-by-name', [('api.py', "            o = page_fonts[font]['iref']\n", "            d = page_fonts[font]\n            o = next((x for x in ret if d['type'] == '/Type0' and ret[x]['name'] == d['name'][1:]), d['iref'])\n")], '''
f = b'<</Type /Font /Subtype /Type0 /BaseFont /Abc /Encoding /Identity-H>>'
d = build([{**BASE, 3: b'<</Type /Page /Parent 2 0 R /MediaBox [0 0 9 9] /Resources <</Font <</F1 4 0 R /F2 5 0 R>>>>>>', 4: f, 5: f}])
assert len(p.fonts(p.loads(d))) == 2
''', 'two composite fonts of the same name', 'only one is listed'),
 bug('c41-encoding', [('api.py', "                if type(e) != str:\n                    e = 'other'\n                else:\n                    e = e[1:]\n            if page_fonts", "                if type(e) == dict and '/BaseEncoding' in e:\n                    e = e['/BaseEncoding'][1:]\n                elif type(e) != str:\n                    e = 'other'\n                else:\n                    e = e[1:]\n            if page_fonts")], '''
f = b'<</Type /Font /Subtype /TrueType /BaseFont /Abc /Encoding <</BaseEncoding /MacRomanEncoding /Differences [65 /B]>>>>'
d = build([{**BASE, 3: b'<</Type /Page /Parent 2 0 R /MediaBox [0 0 9 9] /Resources <</Font <</F1 4 0 R>>>>>>', 4: f}])
assert p.fonts(p.loads(d))[4j]['encoding'] == 'other'
''', 'an encoding with a base and differences', 'it is listed as its base'),
 bug('c41-generation', [('cli.py', '        o_num = f"{int(iref.imag)},{int(iref.real)}"\n        nb', '        o_num = f"{int(iref.imag)},{len(f[\'pages\']) and 0}"\n        nb')], '''
f = b'<</Type /Font /Subtype /Type1 /BaseFont /Abc>>'
d = build([{**BASE, 3: b'<</Type /Page /Parent 2 0 R /MediaBox [0 0 9 9] /Resources <</Font <</F1 4 3 R>>>>>>', 4: f}])
d = d.replace(b'\\n4 0 obj', b'\\n4 3 obj')
out, _ = command(d, 'fonts')
assert '4,3' in out, out
''', 'a font with a generation number', '0 is displayed'),
 bug('c43-overwrite', [('cli.py', "    new_doc = compress(doc)\n    writefile(new_doc, output)", "    new_doc = compress(doc)\n    writefile(new_doc, output or filename)")], '''
d = build([BASE])
import subprocess
with tempfile.TemporaryDirectory() as t:
    f = os.path.join(t, 'f.pdf')
    open(f, 'wb').write(d)
    out = subprocess.run([sys.executable, '-m', 'pdfsyntax', 'compress', f], capture_output=True).stdout
    assert open(f, 'rb').read() == d
''', 'the command without the name of an output', 'the source is overwritten'),
 bug('c43-encrypted', [('cli.py', "        if m[key] and s['Encrypted']:\n            print(f\"{key}: #Encrypted#\")", "        if m[key] and s['Encrypted'] and not key.endswith('Date'):\n            print(f\"{key}: #Encrypted#\")")], '''
d = build([{**BASE, 4: b'<</Title (a) /ModDate (zz)>>', 5: b'<</Filter /Standard>>'}]).replace(b'/Root 1 0 R', b'/Info 4 0 R /Encrypt 5 0 R /Root 1 0 R')
out, _ = command(d, 'overview')
assert 'ModDate: #Encrypted#' in out, out
''', 'an encrypted file with a date', 'the encrypted date is displayed as it is'),
 bug('c43-blank-page', [('cli.py', "        print(extract_page_text(doc, i))\n    return", "        text = extract_page_text(doc, i)\n        if not text:\n            return\n        print(text)\n    return")], '''
d = {**BASE, 2: b'<</Type /Pages /Kids [3 0 R 4 0 R] /Count 2>>', 4: b'<</Type /Page /Parent 2 0 R /MediaBox [0 0 9 9] /Resources <</Font <</F1 5 0 R>>>> /Contents 6 0 R>>', 5: b'<</Type /Font /Subtype /Type1 /BaseFont /Courier>>', 6: b'<</Length 31>>\\nstream\\nBT /F1 9 Tf 1 1 Td (Words) Tj ET\\nendstream'}
out, _ = command(build([d]), 'text')
assert 'Words' in out, out
''', 'a page without text before another', 'the text of the following pages is missing'),
 bug('c43-readfile', [('api.py', "    for i in range(eof_rev+1, nb_rev-1):\n        fragment", "    for i in range(eof_rev+1, nb_rev if nb_rev == 2 else nb_rev-1):\n        fragment")], '''
d = p.blank()
assert save(d)
e = p.squash(p.loads(build([BASE])))
s = save(e)
q = p.loads(s)
assert len(q) == 1
''', 'a document made from scratch with one pending revision', 'writing fails'),
 bug('c43-returned', [('api.py', "        bfile = open(filename, 'wb')\n        bfile.write(bdata)\n        bfile.close()", "        with open(filename, 'wb') as bfile:\n            for pos in range(0, len(bdata), 4096):\n                bfile.write(bdata[pos:pos+4095 if pos else pos+4096])")], '''
d = build([{**BASE, 4: b'(' + b'x' * 9000 + b')'}])
assert save(p.loads(d)) == d
''', 'a file of more than 8 kB', 'bytes are missing'),
 bug('c44-deleted', [('docstruct.py', "        mods = len(changes(self))\n", "        mods = len([r for r, action in changes(self) if action != 'd'])\n")], '''
d = p.loads(build([{**BASE, 4: b'[1]'}]))
assert '1 modified' in repr(p.update_object(d, 4, None))
''', 'an object deleted', 'it does not count as a modification'),
 bug('c44-numbers', [('docstruct.py', "            accu, n = pprint_page_hierarchy(doc, kid, n, level, accu)", "            accu, n = pprint_page_hierarchy(doc, kid, n if level == 1 else kids.index(kid), level, accu)")], '''
d = p.loads(build([{1: BASE[1], 2: b'<</Type /Pages /Kids [3 0 R 4 0 R] /Count 3>>', 3: BASE[3], 4: b'<</Type /Pages /Parent 2 0 R /Count 2 /Kids [5 0 R 6 0 R]>>', 5: BASE[3].replace(b'2 0', b'4 0'), 6: BASE[3].replace(b'2 0', b'4 0')}]))
out = shown(p.pprint_page_hierarchy, d)
assert '/Page [2] at 6j' in out, out
''', 'pages on several levels', 'the numbers of the pages start again on each level'),
 bug('c44-index', [('docstruct.py', "            if i > len(doc.index[j]) - 1:\n                matrix[j][i] = '-'", "            if i >= len(doc.index[j]) - 1 and j < ver - 2:\n                matrix[j][i] = '-'")], '''
d = build([{**BASE, 4: b'[1]'}, {3: BASE[3]}, {4: b'[2]'}])
out = shown(p.pprint_index, p.loads(d))
line = [x for x in out.split('\\n') if x.startswith('4 ')][0]
assert str(d.find(b'4 0 obj')) in line, out
''', 'three revisions, for the object of highest number', 'its first position is not shown'),
 bug('c44-map', [('docstruct.py', "    for iref, action in changes(doc):\n        idx[int(iref.imag)] = action\n    markers", "    for iref, action in changes(doc):\n        idx[int(iref.imag)] = 'u' if iref.real else action\n    markers")], '''
d = build([{**BASE, 4: b'[1]'}, {4: None}])
e = p.loads(d)
e = p.update_object(e, 3, None)
q = build([{**BASE, 3: BASE[3]}]).replace(b'3 0 obj', b'3 1 obj').replace(b'3 0 R', b'3 1 R')
i = q.find(b'xref\\n3 1\\n')
import re
a = q.find(b'3 1 obj')
q = q.replace(b'%010d 00000 n' % a, b'%010d 00001 n' % a)
e = p.update_object(p.loads(q), 3, None)
out = shown(p.pprint_cache, e)
assert out.split('\\n')[1][9] == 'd', out
''', 'an object with a generation number that is deleted', 'it is shown as updated'),
]
