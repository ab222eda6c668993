"""Each command shows or writes what the file holds; reading and writing a file lose nothing."""
import sys
import pdfsyntax as p
import pdfsyntax.cli as cli
import pdfsyntax.api as api
from props.common import *
from props.pdffile import *
from props.c31 import File
from props.c42 import content, FONT, first, judge as judge_pages

ENTRIES = ['Title', 'Author', 'Subject', 'Keywords', 'Creator', 'Producer', 'CreationDate', 'ModDate']


class Disk:
    """Files by name. A file opened for writing is empty until it is closed."""

    def __init__(self, **files):
        self.files = {k + '.pdf': v for k, v in files.items()}
        self.opened = []

    def open(self, name, mode='r', *a, **k):
        self.opened.append((name, mode))
        if mode == 'rb':
            return File(self.files[name])
        if mode != 'wb':
            raise ValueError(mode)
        disk = self

        class Out(Sink):
            def close(self):
                disk.files[name] = self.data

            def __exit__(self, *a):
                self.close()
        self.files[name] = b''
        return Out()


class Console:
    """Stands for the module sys."""

    def __init__(self):
        self.buffer = Sink()
        self.buffer.flush = lambda: None
        self.stdout = self


def command(c, disk, *args):
    """The command line. Returns what is printed."""
    c.set_open(disk.open, cli, api)
    c.forget_printed()
    argv = sys.argv
    sys.argv = ['pdfsyntax'] + list(args)
    try:
        cli.main()
    finally:
        sys.argv = argv
    return c.printed()


def overview(c, n, revs=1, encrypted=False, spare=False):
    """Structure and metadata."""
    objs = page_objs(n)
    for i in range(n):
        objs[3 + i][1]['/MediaBox'] = [0, 0, 612, 792 if i == 0 else 5]
    info, want = {}, {}
    for i, e in enumerate(ENTRIES):
        want[e] = 'None'
        if c.flag(e) if i < 2 or i > 6 else (i % 2 == (1 if spare else 0)):
            want[e] = c.text(f't{i}', 2, LETTERS) if i < 2 else f'text {i}'
            info['/' + e] = b'(' + want[e].encode('ascii') + b')'
    objs[50] = (0, info)
    objs[51] = (0, {'/Filter': '/Standard', '/V': 1, '/R': 2})
    ver = c.text('version', 1, b'01234567')
    w = Writer(f'%PDF-1.{ver}\n'.encode('ascii'), trailer={'/Info': 50j, **({'/Encrypt': 51j} if encrypted else {})})
    w.revision(objs)
    for i in range(revs - 1):
        w.revision({3: (0, {**objs[3][1], '/Rotate': 90 * i})})
    disk = Disk(f=w.out)
    lines = command(c, disk, 'overview', 'f.pdf').split('\n')
    c.same(disk.opened, [('f.pdf', 'rb')], 'file read')
    at = lines.index('')
    c.same(lines[0], '# Structure', 'first part')
    c.same(lines[at + 1], '# Metadata', 'second part')
    s = dict(x.split(': ', 1) for x in lines[1:at])
    c.same(s['Version'], f'1.{ver}', 'version')
    c.same(s['Pages'], str(n), 'pages')
    c.same(s['Revisions'], str(revs), 'revisions')
    c.same(s['Encrypted'], str(encrypted), 'encrypted')
    c.same(s['Hybrid'], 'False', 'hybrid')
    c.same(s['Linearized'], 'False', 'linearized')
    c.check(s['Paper of 1st page'].endswith('(US Letter)'), 'paper')
    c.same(len(s), 7, 'number of lines')
    m = [x for x in lines[at + 2:] if x != '']
    for e in ENTRIES:
        if encrypted and want[e] != 'None':
            want[e] = '#Encrypted#'
    c.same(m, [f'{e}: {want[e]}' for e in ENTRIES], 'metadata')


def text(c, n):
    """The text of each page in order."""
    objs = page_objs(n)
    objs[40] = (0, FONT)
    want = []
    for i in range(n):
        a, b = c.text(f'a{i}', 2, LETTERS) if i < 2 else f'one{i}', f'two{i}'
        d = objs[3 + i][1]
        d['/Resources'] = {'/Font': {'/F1': 40j}}
        objs[60 + i] = (0, St({}, content(a) + b' ' + content(b, 50)))
        d['/Contents'] = complex(0, 60 + i)
        want += [a, b]
        k = c.choice(f'kind{i}', ['text', 'none', 'empty']) if i < 3 else 'text'
        if k != 'text':
            del want[-2:]
        if k == 'none':
            del d['/Contents']
        if k == 'empty':
            objs[60 + i] = (0, St({}, b'BT ET'))
    out = command(c, Disk(f=Writer().revision(objs).out), 'text', 'f.pdf')
    c.same([x.strip() for x in out.split('\n') if x.strip() != ''], want, 'lines of text')


def compress(c, kind, target):
    """The file compressed has the same pages; the source stays as it is."""
    data, model = first(c, kind, False)
    extra = c.int('extra', 100, 999)
    disk = Disk(f=data, other=b'other')
    out = Console()
    api.sys = out
    args = {'file': ['-o', 'g.pdf'], 'long': ['--output', 'g.pdf'], 'same': ['-o', 'f.pdf'], 'none': []}[target]
    c.same(command(c, disk, 'compress', 'f.pdf', *args).strip(), '', 'nothing printed')
    name = {'file': 'g.pdf', 'long': 'g.pdf', 'same': 'f.pdf'}.get(target)
    if name:
        c.same(out.buffer.data, b'', 'nothing on the standard output')
        res = disk.files[name]
    else:
        res = out.buffer.data
    c.same(disk.files['other.pdf'], b'other', 'other file')
    if target != 'same':
        c.same(disk.files['f.pdf'], data, 'source')
    c.same(sorted(disk.files), sorted({'f.pdf', 'other.pdf', name or 'f.pdf'}), 'files')
    doc = p.loads(res)
    judge_pages(c, doc, model)
    c.check(p.version(doc) >= '1.5', 'version')
    c.same(p.structure(doc)['Revisions'], 1, 'one revision')


def direct(c, name, n):
    """The command prints what its function prints."""
    objs = page_objs(n)
    objs[30] = (0, {'/V': c.int('v', 100, 999), '/W': b'(' + c.text('w', 2, LETTERS).encode('ascii') + b')'})
    objs[31] = (0, FONT)
    objs[3][1]['/Resources'] = {'/Font': {'/F1': 31j}}
    data = Writer().revision(objs).out
    disk = Disk(f=data, g=Writer().revision(page_objs(4)).out)
    got = command(c, disk, name, 'f.pdf')
    c.same(disk.opened, [('f.pdf', 'rb')], 'file read')
    c.forget_printed()
    {'browse': cli.browse, 'disasm': cli.dump_disasm, 'fonts': cli.print_fonts, 'hexdump': cli.hexdump_cli}[name]('f.pdf')
    want = c.printed()
    c.check(len(want) > 100, 'something is printed')
    c.same(got, want, 'what is printed')


def files(c, kind, how, symbolic=True):
    """Reading, changing and writing files."""
    data, model = first(c, kind, symbolic)
    disk = Disk(f=data)
    c.set_open(disk.open, cli, api)
    out = Console()
    api.sys = out
    doc = p.readfile('f.pdf')
    judge_pages(c, doc, model)
    if how != 'same':
        doc = p.rotate(doc, 90, [1])
        model[1].rot = 180
    if how == 'committed':
        doc = p.commit(doc)
        doc = p.add_text_annotation(doc, 0, 'Hi', [0, 0, 1, 1])
        model[0].notes.append('Hi')
    to = c.choice('to', ['g.pdf', 'f.pdf', None])
    res = p.writefile(doc, to) if to else p.writefile(doc)
    got = disk.files[to] if to else out.buffer.data
    c.same(out.buffer.data, b'' if to else got, 'standard output')
    c.same(got[:len(data)], data, 'the file begins with the original')
    c.same(len(got) == len(data), how == 'same', 'something is appended')
    c.same(sorted(disk.files), sorted({'f.pdf', to or 'f.pdf'}), 'files')
    if to != 'f.pdf':
        c.same(disk.files['f.pdf'], data, 'the original')
    disk.files['h.pdf'] = got
    again = p.readfile('h.pdf')
    judge_pages(c, again, model)
    judge_pages(c, res, model)
    c.same(len(p.changes(res)), 0, 'nothing is pending')
    # the result goes on
    res = p.rotate(res, 90, [0])
    model[0].rot = 90
    p.writefile(res, 'i.pdf')
    c.same(disk.files['i.pdf'][:len(got)], got, 'the next file begins with the first')
    judge_pages(c, p.readfile('i.pdf'), model)


def large(c, size):
    """Files of any size are read and written whole."""
    objs = page_objs(1)
    objs[3][1]['/Data'] = 30j
    body = b'x' * (size // 2) + c.bytes('data', 4) + b'y' * (size // 2)
    objs[30] = (0, St({}, body))
    data = Writer().revision(objs).out
    disk = Disk(f=data)
    c.set_open(disk.open, cli, api)
    doc = p.readfile('f.pdf')
    if c.flag('changed'):
        doc = p.rotate(doc)
    doc = p.writefile(doc, 'g.pdf')
    c.same(disk.files['g.pdf'][:len(data)], data, 'the same bytes')
    doc = p.readfile('g.pdf')
    c.same(p.get_object(doc, 30j)['stream'], body, 'the object')
    rest = p.rotate(p.squash(doc))
    rest = p.writefile(rest, 'h.pdf')
    doc = p.readfile('h.pdf')
    c.same(p.get_object(doc, p.pages(doc)[0]['/Data'])['stream'], body, 'the object written again')


CASES = [
    ('overview', overview, {'quick': [dict(n=1), dict(n=3, revs=2, encrypted=True), dict(n=12, revs=3, spare=True)], 'thorough': [dict(n=12, revs=4, encrypted=True, spare=True)]}, 'any version and entries, up to 12 pages and 4 revisions'),
    ('text', text, {'quick': [dict(n=1), dict(n=3)], 'thorough': [dict(n=3), dict(n=6)]}, 'up to six pages with any two words, some without text'),
    ('compress', compress, [dict(kind=k, target=t) for k, t in (('table', 'file'), ('stream', 'none'), ('two', 'same'), ('table', 'long'))], 'documents of three pages'),
    ('direct', direct, [dict(name=x, n=2) for x in ('browse', 'disasm', 'fonts', 'hexdump')], 'a small file with any two values'),
    ('large', large, {'quick': [dict(size=9000)], 'thorough': [dict(size=x) for x in (5000, 20000, 60000)]}, 'a file of 9 kB (thorough: 60) with any four bytes inside'),
    ('files', files, {'quick': [dict(kind='table', how='same'), dict(kind='two', how='pending'), dict(kind='stream', how='committed')], 'thorough': [dict(kind=k, how=h) for k in ('table', 'two', 'stream') for h in ('same', 'pending', 'committed')]}, 'documents of three pages, up to two pending revisions'),
]
