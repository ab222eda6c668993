"""The HTML view never lets document content become markup."""
import pdfsyntax as p
import pdfsyntax.cli as cli
from props.common import *
from props.pdffile import *
import props.c23 as c23

MARKS = b'^~|'
TEXT = b'&<>"a'
QUOTE = b"&<>'a"
NAME = b'&"\'a;'


class File(c23.File):
    def close(self):
        pass

    def __enter__(self):
        return self

    def __exit__(self, *a):
        pass


def view(c, data, name):
    c.set_open(lambda n, mode='r', *a, **k: File(data), cli)
    c.forget_printed()
    cli.browse(name)
    return c.printed()


def tokens(page):
    """Tags (as written) and texts of a page, in order."""
    out = []
    i = page.find('<body')
    while True:
        j = page.find('<', i)
        if j < 0:
            out.append(('text', page[i:]))
            return out
        if j > i:
            out.append(('text', page[i:j]))
        k = page.find('>', j)
        q = page.find('"', j)
        while q >= 0 and q < k:
            r = page.find('"', q + 1)
            k = page.find('>', r)
            q = page.find('"', r + 1)
            if r < 0 or k < 0:
                break
        if k < 0:
            out.append(('broken', page[j:]))
            return out
        out.append(('tag', page[j:k + 1]))
        i = k + 1


def plain(text):
    """What a browser shows for a text."""
    for a, b in (('&lt;', '<'), ('&gt;', '>'), ('&quot;', '"'), ('&#x27;', "'"), ('&#39;', "'"), ('&amp;', '&')):
        text = text.replace(a, b)
    return text


def judge(c, build, x, name=None, texts=True, marks=MARKS):
    """The page for content x against the page for the harmless marks in its place."""
    data = build(x)
    base = build(marks[:len(x)])
    c.check(len(data) == len(base), 'contents of the same length')
    got = tokens(view(c, data, 'f.pdf' if name is None else name(x)))
    want = tokens(view(c, base, 'f.pdf' if name is None else name(marks)))
    if not texts:
        # where values are cut depends on the length of their text
        return c.same([a for t, a in got if t != 'text' and a not in ('<em>', '</em>')], [a for t, a in want if t != 'text' and a not in ('<em>', '</em>')], 'tags')
    c.same(len(got), len(want), 'number of tags and texts')
    for (t, a), (u, b) in zip(got, want):
        c.same(t, u, 'kind')
        if t == 'tag':
            c.same(a, b, 'tag')
        else:
            if any([chr(m) in b for m in marks]):
                e = ''
                for ch in plain(b):
                    m = marks.find(ch.encode('latin-1')) if ch < '\x7f' else -1
                    if m >= 0:
                        e = e + bytes_text(x, m)
                    else:
                        e = e + ch
                c.same(plain(a), e, 'text')
            else:
                c.same(a, b, 'text')


def bytes_text(x, i):
    return x[i:i + 1].decode('ascii')


def put(x):
    """Content with three free bytes that may complete a character reference or a tag."""
    return x[0:1] + b'lt;' + x[1:2] + x[2:3]


def base_file(misc=None, page=None, stream=None, catalog=None, pages=None, trailer=None, raw=None, header=b'%PDF-1.4\n', extra=None, embedded=None):
    objs = page_objs(1)
    objs[1][1].update(catalog or {})
    objs[2][1].update(pages or {})
    objs[3][1].update(page or {})
    if misc is not None:
        objs[4] = (0, misc)
    if stream is not None:
        objs[5] = (0, stream)
    objs.update(extra or {})
    w = Writer(header, trailer=trailer, kind='stream' if embedded else 'table')
    if raw is not None:
        w.out = w.out + raw
    if embedded:
        w.revision(objs, embedded=embedded, env=8, xnum=9)
    else:
        w.revision(objs)
    return w.out


SITES = {
    'string': lambda x: base_file({'/A': b'(' + put(x) + b')'}),
    'hex string': lambda x: base_file({'/A': b'<' + put(x) + b'>'}),
    'value': lambda x: base_file({'/A': '/' + put(x).decode('ascii')}),
    'key': lambda x: base_file({'/Abcdefghijklmnopqrst' + put(x).decode('ascii'): 1}),
    'script key': lambda x: base_file({'/JS': b'(' + put(x) + b')', '/S': '/JavaScript'}),
    'type name': lambda x: base_file({'/Type': '/' + put(x).decode('ascii'), '/Subtype': '/B' + put(x).decode('ascii')}),
    'type string': lambda x: base_file({'/Type': b'(' + put(x) + b')', '/Subtype': b'(' + put(x) + b')'}),
    'stream type': lambda x: base_file(stream=St({'/Type': b'(' + put(x) + b')'}, b'q')),
    'list': lambda x: base_file({'/A': [b'(' + put(x) + b')', 5, 6]}),
    'short list': lambda x: base_file({'/A': [b'(' + put(x) + b')']}),
    'cut list': lambda x: base_file({'/A': [12345678, b'(' + put(x) + b'abc' + put(x) + b')', b'(' + put(x) + b')', b'(' + put(x) + b')', 12345]}),
    'dictionary in a list': lambda x: base_file({'/A': [{'/JS': b'(' + put(x) + b')', '/Type': b'(' + put(x) + b')'}, b'(' + put(x) + b')', {'/Subtype': '/Text'}]}),
    'list of references': lambda x: base_file({'/A': [3j, b'(' + put(x) + b')', 2j, 1j, 1j, b'(' + put(x) + b')']}),
    'nested dictionary': lambda x: base_file({'/A': {'/B': {'/C': b'(' + put(x) + b')', '/JS': [b'(' + put(x) + b')']}}}),
    'previous section': lambda x: base_file({'/Prev': b'(' + put(x) + b')'}),
    'previous sections': lambda x: base_file({'/Prev': {'/Type': b'(' + put(x) + b')', '/B': [b'(' + put(x) + b')']}}),
    'previous list': lambda x: base_file({'/Prev': [b'(' + put(x) + b')', {'/JS': 5}]}),
    'long string': lambda x: base_file({'/A': b'(' + put(x) + b'abcdefghijklmnopqr' + put(x) + put(x) + b')'}),
    'string object': lambda x: base_file(b'(' + put(x) + b')'),
    'list object': lambda x: base_file([b'(' + put(x) + b')', [b'(' + put(x) + b')']]),
    'stream': lambda x: base_file(stream=St({'/A': 1}, put(x))),
    'stream entry': lambda x: base_file(stream=St({'/A': b'(' + put(x) + b')'}, b'\x00<b>')),
    'trailer': lambda x: base_file(trailer={'/ID': [b'(' + put(x) + b')', b'(a)'], '/Prev2': b'(' + put(x) + b')'}),
    'catalog': lambda x: base_file(catalog={'/A': b'(' + put(x) + b')'}),
    'page count': lambda x: base_file(pages={'/Count': b'(' + put(x) + b')'}),
    'comment': lambda x: base_file(raw=b'%' + put(x) + b'\n'),
    'long comment': lambda x: base_file(raw=b'%a' + put(x) + put(x) + b'abcdefghijklmn' + put(x) + b'\n'),
    'binary comment': lambda x: base_file(raw=b'%\xe2' + put(x) + b'\n'),
    'header': lambda x: base_file(header=b'%PDF-' + x + b'\n'),
    'header line': lambda x: base_file(header=b'%PDF-1.4' + put(x) + b'\n'),
    'version': lambda x: base_file(catalog={'/Version': '/9' + put(x).decode('ascii')}),
    'embedded string': lambda x: base_file(embedded={6: {'/A': b'(' + put(x) + b')', '/Type': b'(' + put(x) + b')'}, 7: [b'(' + put(x) + b')']}),
    'embedded name': lambda x: base_file(embedded={6: '/' + put(x).decode('ascii'), 7: {'/Type': '/' + put(x).decode('ascii')}}),
    'long hex string': lambda x: base_file({'/A': b'<' + b'41' * 40 + put(x) + b'41' * 10 + b'>'}),
    'longest string': lambda x: base_file({'/A': b'(' + b'a' * 27 + put(x) + b'a' * 90 + put(x) + b')', '/B': [b'(' + b'a' * 90 + put(x) + b')']}),
    'long value': lambda x: base_file({'/A': '/' + 'N' * 70 + put(x).decode('ascii')}),
    'long key': lambda x: base_file({'/A' + 'b' * 70 + put(x).decode('ascii'): 1}),
    'many keys': lambda x: base_file({**{f'/K{i}': i for i in range(40)}, '/Z': b'(' + put(x) + b')'}),
    'deep value': lambda x: base_file({'/A': {'/B': {'/C': {'/D': {'/E': {'/F': [[[b'(' + put(x) + b')']]]}}}}}}),
    'long stream': lambda x: base_file(stream=St({'/A': 1}, b'BT ET\n' * 50 + put(x) + b' q Q' * 20 + put(x))),
    'many objects': lambda x: base_file(extra={i: (0, [i, b'(' + put(x) + b')'] if i == 30 else {'/A': complex(0, i - 1)}) for i in range(6, 34)}),
    'table keyword': lambda x: base_file().replace(b'00000 n \n', b'00000 n' + x + b' \n'),
    'keyword': lambda x: base_file({'/A': 'abc' + put(x).decode('ascii')}),
}
NAMES = ['long value', 'long key', 'value', 'key', 'type name', 'version', 'embedded name', 'keyword']


def content(c, site, alphabet='text', k=3):
    """Content at one place of the file is text of the page."""
    names = site in NAMES
    alpha = NAME if names else {'text': TEXT, 'quote': QUOTE}[alphabet]
    if site in ('hex string', 'long hex string'):
        alpha = b'&"\'a;'
    x = c.bytes('x', k, alpha) + b'a' * (3 - k)
    judge(c, SITES[site], x, texts=site not in ('longest string', 'deep value', 'many objects', 'cut list', 'dictionary in a list', 'list', 'list object', 'embedded string', 'binary comment'))


def names(c):
    """The name of the file is text of the page."""
    f = base_file()
    x = c.bytes('x', 3, TEXT + b"'")
    judge(c, lambda y: f, x, lambda y: '/tmp/a b/' + put(y).decode('ascii') + '.pdf')


def any_stream(c, k):
    """Streams of any bytes: binary ones are shown in hexadecimal."""
    x = c.bytes('x', k)
    binary = any([b < 20 and b != 10 and b != 13 for b in x])
    data = base_file(stream=St({}, x))
    base = base_file(stream=St({}, b'\x00' * k if binary else b'a' * k))
    got, want = tokens(view(c, data, 'f.pdf')), tokens(view(c, base, 'f.pdf'))
    c.same([a for t, a in got if t != 'text'], [a for t, a in want if t != 'text'], 'tags')
    if not binary:
        i = [a for t, a in want].index('<pre class="detail">')
        c.same(plain(got[i + 1][1]), x.decode('latin-1'), 'text')


CASES = [
    ('content', content, {'quick': [dict(site=s, k=3 if s in ('string', 'value', 'stream', 'comment', 'table keyword') else 2) for s in SITES], 'thorough': [dict(site=s) for s in SITES] + [dict(site=s, alphabet='quote') for s in SITES if s not in NAMES]}, '2 or 3 free bytes of & < > quote and letters before and after "lt;" at every displayed place of a file'),
    ('file names', names, [{}], 'file names with 3 free characters'),
    ('streams', any_stream, {'quick': [dict(k=1), dict(k=2)], 'thorough': [dict(k=3)]}, 'streams of any 2 bytes (3 thorough)'),
]
