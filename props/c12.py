"""Every offset written in a file designates what it should."""
import pdfsyntax as p
from props.common import *
from props.pdffile import *
from props.session import *

OPS = ['update', 'delete', 'add', 'commit', 'rewind']
MORE = ['rotate', 'annotate', 'concat', 'concat before', 'squash', 'compress', 'remove', 'force', 'reload', 'commit', 'add']
KINDS = ('blank', 'table', 'table2', 'gap', 'stream', 'stream2', 'embedded', 'mixed')
DEEP = ('deep', 'deepstream', 'manytable', 'manystream')


def judge(c, out, s=None, least=1):
    base = s.marks[0] if s is not None and s.kind.startswith(('linear', 'hybrid')) else 0
    if base and (len(out) < base or out[:base] != s.file[:base]):
        base = 0
    try:
        r = read_strict(out, base)
    except Broken as e:
        c.fail(f'{e}')
        return
    c.check(len(r) >= least, 'sections')


def offsets(c, kind, steps, ops=OPS):
    """Any sequence of operations, then the file is judged by the independent reader."""
    s = Session(c, kind)
    for i in range(steps):
        s.do(['none'] + ops)
    judge(c, written(c, s.doc), s)


def sizes(c, kind, n):
    """Objects of any size: the number of digits of the values moves every offset."""
    s = Session(c, kind)
    for i in range(n):
        s.do(['grow'])
    s.do(['none', 'commit'])
    s.do(['grow', 'delete'])
    judge(c, written(c, s.doc), s)


def chain(c, kind, ops):
    """Longer histories."""
    s = Session(c, kind)
    for o in ops:
        s.do([o])
    judge(c, written(c, s.doc), s)


LONG = [['add', 'commit'] + ['touch', 'commit'] * 4 + ['delete', 'commit'] * 2,
        ['update', 'delete', 'delete', 'add', 'add', 'commit', 'delete', 'delete', 'add', 'commit'],
        ['add', 'commit', 'update', 'commit', 'delete', 'commit', 'add', 'commit', 'update', 'commit'],
        ['delete', 'commit', 'add', 'commit', 'rewind', 'add', 'commit', 'reload', 'update', 'commit', 'reload', 'rewind', 'rewind', 'add'],
        ['force', 'add', 'commit', 'update', 'commit', 'delete', 'commit'],
        ['compress', 'reload', 'add', 'commit', 'rotate', 'commit', 'squash', 'commit', 'add'],
        ['add'] * 12 + ['commit'] + ['add'] * 3 + ['delete', 'delete', 'commit']]
CASES = [
    ('offsets', offsets, {'quick': [dict(kind=k, steps=2) for k in KINDS] + [dict(kind=k, steps=2, ops=MORE) for k in ('table', 'stream', 'embedded')] + [dict(kind='blank', steps=3)] + [dict(kind=k, steps=2) for k in FOREIGN] + [dict(kind=k, steps=1, ops=MORE) for k in FOREIGN],
                          'thorough': [dict(kind=k, steps=3) for k in KINDS + FOREIGN] + [dict(kind=k, steps=3, ops=MORE) for k in KINDS] + [dict(kind=k, steps=2, ops=MORE) for k in FOREIGN] + [dict(kind=k, steps=4) for k in ('table', 'stream')]},
     'every sequence of steps operations on each kind of document; objects of symbolic contents'),
    ('sizes', sizes, [dict(kind=k, n=n) for k in ('blank', 'table', 'stream') for n in (1, 2)], 'n objects of one to seven characters'),
    ('chain', chain, {'quick': [dict(kind=k, ops=o) for k in KINDS + DEEP for o in LONG] + [dict(kind=k, ops=o) for i, k in enumerate(FOREIGN) for o in (LONG[i % len(LONG)], LONG[(i + 3) % len(LONG)])], 'thorough': [dict(kind=k, ops=o) for k in KINDS + DEEP + FOREIGN for o in LONG]}, 'histories of up to 18 operations'),
]
