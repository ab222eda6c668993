"""Writing only appends to the original file."""
import pdfsyntax as p
from props.common import *
from props.pdffile import *
from props.session import *

OPS = ['none', 'update', 'delete', 'add', 'commit']
MORE = ['none', 'rotate', 'annotate', 'remove', 'force', 'add stream', 'commit']
EOLS = b'\r\n'


def kept(f, n):
    """The part of a file that has to be kept: up to the last marker and its ends of line; n bytes follow the marker."""
    i = len(f) - n
    while i < len(f) and f[i] in EOLS:
        i += 1
    return f[:i]


def judge(c, s, part):
    out = written(c, s.doc)
    c.check(len(out) >= len(part), 'nothing is cut')
    c.same(out[:len(part)], part, 'original bytes')
    return out


def open_tail(c, kind, n):
    """A file, then n arbitrary bytes after its last marker (which the writer of the file ends with a line feed)."""
    tail = c.bytes('tail', n)
    s = Session(c, kind, tail)
    part = kept(s.file, n + 1)
    out = judge(c, s, part)
    c.same(len(out), len(part), 'nothing is added without modification')
    s.do(['none', 'add', 'commit'])
    s.do(['none', 'add'])
    judge(c, s, part)


def appended(c, kind, steps, ops=OPS):
    s = Session(c, kind, b'\r\n' if kind == 'table' else b'')
    part = s.file
    for i in range(steps):
        s.do(ops)
    out = judge(c, s, part)
    rest = out[len(part):]
    c.check(rest == b'' or len(rest) > 0 and rest.endswith(b'%%EOF\n'), 'what is added ends with a marker')
    original = p.loads(part)
    again = p.loads(out[:len(part)])
    c.same(p.in_use(again), p.in_use(original), 'objects in use')
    for r in p.in_use(original):
        if r.imag in (1, 2, 3, 4, 5, 7):
            c.same(p.get_object(again, r), p.get_object(original, r), 'value')
    c.same(len(again.index), len(original.index), 'revisions')


def chain(c, kind, ops, n=1):
    tail = c.bytes('tail', n, b'\r\n \x00%')
    s = Session(c, kind, tail)
    part = kept(s.file, n + 1)
    for o in ops:
        s.do([o])
    out = judge(c, s, part)
    again = p.loads(out)
    for num, v in s.model[-1].items():
        if v == DELETED:
            c.check(all([r.imag != num for r in p.in_use(again)]), 'deletion written')
        elif num > 3 and v is not None:
            x = p.get_object(again, complex(0, num))
            c.same(x['stream'] if type(v) is p.Stream else x, v['stream'] if type(v) is p.Stream else v, 'modification written')


def leading(c, n):
    """The first revision, comments and free bytes between objects are kept too."""
    w = Writer(header=b'%PDF-1.' + c.bytes('v', 1, b'01234567') + b'\n%' + c.bytes('bin', n, bytes(range(128, 256))) + b'\n')
    w.revision({**page_objs(1), 4: (0, b'(' + c.bytes('x', n, PLAIN) + b') %' + c.bytes('y', n, LETTERS))})
    doc = p.loads(w.out)
    doc = p.update_object(doc, 4, c.int('z', 0, 999))
    out = written(c, doc)
    c.same(out[:len(w.out)], w.out, 'original bytes')
    c.check(len(out) > len(w.out), 'something is added')


LONG = [['commit', 'add', 'commit', 'add', 'commit', 'delete', 'commit', 'add'], ['add', 'commit', 'update', 'commit', 'rotate', 'delete', 'commit', 'annotate', 'commit'],
        ['add', 'commit'] + ['touch', 'commit'] * 6,
        ['force', 'commit', 'add', 'add', 'commit', 'remove', 'commit'],
        ['add', 'commit', 'commit', 'add', 'delete', 'rewind', 'add'],
        ['add', 'commit', 'reload', 'add', 'commit', 'reload', 'update']]
KINDS = ('table', 'table2', 'gap', 'stream', 'stream2', 'embedded', 'mixed')
DEEP = ('deep', 'deepstream', 'manytable', 'manystream')
CASES = [
    ('open_tail', open_tail, {'quick': [dict(kind=k, n=n) for k in ('table', 'stream', 'mixed') for n in (0, 1, 2, 3)],
                              'thorough': [dict(kind=k, n=n) for k in KINDS for n in (0, 1, 2, 3, 4, 5)]}, 'n arbitrary bytes after the last marker'),
    ('leading', leading, [dict(n=1), dict(n=4)], 'version, binary comment and contents of n arbitrary bytes'),
    ('chain', chain, {'quick': [dict(kind=k, ops=o) for k in KINDS + DEEP for o in LONG] + [dict(kind=k, ops=o) for i, k in enumerate(FOREIGN) for o in (LONG[i % len(LONG)], LONG[(i + 3) % len(LONG)])], 'thorough': [dict(kind=k, ops=o) for k in KINDS + DEEP + FOREIGN for o in LONG]}, 'histories of up to 9 operations, one arbitrary end of line or other byte after the marker'),
    ('appended', appended, {'quick': [dict(kind=k, steps=2) for k in KINDS] + [dict(kind=k, steps=2, ops=MORE) for k in ('table2', 'embedded')] + [dict(kind=k, steps=2) for k in FOREIGN],
                            'thorough': [dict(kind=k, steps=3) for k in KINDS] + [dict(kind=k, steps=3, ops=MORE) for k in KINDS] + [dict(kind=k, steps=2, ops=MORE) for k in FOREIGN]}, 'every sequence of steps operations'),
]
