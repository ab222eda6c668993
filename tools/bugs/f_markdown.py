PRE = 'from pdfsyntax.markdown import render_html as r\n'


def bug(id, edits, demo, needs, breaks):
    return dict(id=id, property='C46', edits=[('markdown.py', a, b) for a, b in edits], demo=PRE + demo, needs=needs, breaks=breaks)


BUGS = [
 bug('c46-blank-in-fence', [("            if ln[:3] == \"```\":\n                break", "            if ln[:3] == \"```\" or (len(res) > 1 and ln == '\\n'):\n                break")],
     "assert r('```\\na\\nb\\n\\nc\\n```\\n\\nz\\n').count('c\\n</pre>') == 1\n", 'fenced code with a blank line after its second line', 'the rest of the code is rendered as text'),
 bug('c46-md-link', [("            if l[-3:] == '.md':\n", "            if l[-3:] == '.md' and '/' not in l:\n")],
     "assert \"href='sub/x.html'\" in r('see [x](sub/x.md)\\n\\n')\n", 'a link to a page of another folder', 'the link leads to the source page'),
 bug('c46-heading-sign', [("        res.append(ln[len(bs)+1:])\n    return (typ, i, res)", "        res.append(ln[len(bs)+1:].rstrip('#'))\n    return (typ, i, res)")],
     "assert '<h2>On C#</h2>' in r('## On C#\\n\\n')\n", 'a heading that ends with a number sign', 'the sign is not shown'),
 bug('c46-wide-number', [("            if not bs or bs[-1] != '.':\n", "            if not bs or bs[-1] != '.' or res and len(bs) > 2:\n")],
     "assert r('9. a\\n10. b\\n11. c\\n\\n').count('<ol>') == 1\n", 'a numbered list with an item of two digits', 'the list falls apart'),
 bug('c46-table-dash', [("            if row[0][1][0][1:3] != '--':\n", "            if row[0][1][0][1:2] != '-':\n")],
     "assert '-x' in r('| A | B |\\n| -- | -- |\\n| -x | y |\\n\\n')\n", 'a row whose first cell starts with a dash', 'the row is not shown'),
 bug('c46-code-star', [("            if search == '`':\n                if c == '`':", "            if search == '`':\n                if c == '`' or c == '*' and string.count('`') > 2:")],
     "assert '<code>a*b</code>' in r('use `a*b` or `c`\\n\\n')\n", 'two pieces of inline code, the first one with a star', 'the code ends at the star'),
 bug('c46-quote-end', [("        if indent + 1 < start_indent:\n            flush_p(blocks, b)\n            return blocks, i", "        if indent + 1 < start_indent:\n            if len(b) < 3:\n                flush_p(blocks, b)\n            return blocks, i")],
     "assert 'three' in r('> one\\n> two\\n> three\\n\\nz\\n')\n", 'a quote of three lines', 'its text is not shown'),
 bug('c46-break', [("        ln_break = True if ln[-2:] == '  ' else False", "        ln_break = True if ln[-2:] == '  ' and not b else False")],
     "assert r('a  \\nb  \\nc\\n\\n').count('<br>') == 2\n", 'a second hard break in a paragraph', 'the lines run on'),
]
