"""The hex dump shows exactly the bytes asked for."""
import pdfsyntax.filestruct as fs
import pdfsyntax.cli as cli
from props.common import *
import props.c31 as c31

HEXT = '0123456789abcdef'
SHOWN = bytes([b if 32 <= b <= 126 else 46 for b in range(256)])


def provider(c, data, mode):
    if mode == 'bytes':
        return fs.bdata_provider(data)
    return fs.bdata_provider(c31.File(data), mode)


def judge(c, out, data, start, stop):
    """Lines of ten bytes from the one that holds start up to stop."""
    lines = out.split('\n')
    c.same(lines.pop(), '', 'ends with a line break')
    pos = None
    for i, l in enumerate(lines):
        o = int(l[:l.find(' ')])
        if pos is None:
            c.check(o <= start and start - o < 10, 'first line')
        else:
            c.same(o, pos, 'offset')
        a = l.find('|')
        left = l[l.find(' '):a].strip(' ')
        right = l[a + 1:]
        c.same(right[-1:], '|', 'end of the text')
        right = right[:-1]
        n = len(right)
        c.check(n == 10 or i == len(lines) - 1 and 0 < n < 10, 'ten bytes per line')
        part = data[o:o + n]
        c.same(len(part), n, 'bytes of the file only')
        want = ''
        text = ''
        for k in range(n):
            want = want + (' ' if k else '') + HEXT[part[k] // 16] + HEXT[part[k] % 16]
            text = text + chr(SHOWN[part[k]])
        c.same(left.lower(), want, 'hexadecimal values')
        c.same(right, text, 'printable text')
        pos = o + n
    if start < stop:
        c.same(pos, stop, 'covers the range')


def content(c, size, mode, k=3, at=0):
    """Any bytes in a file of some size."""
    data = bytes([(11 * i + 5) % 256 for i in range(at)]) + c.bytes('d', k) + b'a|\n' * 20
    data = data[:size]
    judge(c, fs.hexdump(provider(c, data, mode)), data, 0, size)


def ranges(c, size, mode, lo=0, hi=None):
    """Any range of a file."""
    data = bytes([(7 * i + 13) % 256 for i in range(size)])
    start = c.int('start', lo, size if hi is None else hi)
    stop = c.int('stop', 0, size + 12)
    c.assume(start < stop)
    c.assume(start < size)
    judge(c, fs.hexdump(provider(c, data, mode), start, stop), data, start, min(stop, size))


def open_ranges(c, size, mode, which):
    data = bytes([(7 * i + 13) % 256 for i in range(size)])
    x = c.int('x', 0, size - 1)
    if which == 'start':
        judge(c, fs.hexdump(provider(c, data, mode), x), data, x, size)
    else:
        judge(c, fs.hexdump(provider(c, data, mode), None, x + 1), data, 0, x + 1)


def sizes(c, size, mode):
    """The command dumps the whole file."""
    data = b'a' * (size - 1) + c.bytes('d', 1) if size else b''
    c.set_open(lambda n, m='r', *a, **k: c31.File(data), cli)
    c.forget_printed()
    cli.hexdump_cli('f.pdf')
    out = c.printed()
    c.same(out[-1:], '\n', 'printed line')
    judge(c, out[:-1], data, 0, size)


MODES = ['bytes', 'SINGLE', 'CONTINUOUS']
CASES = [
    ('contents', content, {'quick': [dict(size=s, mode=m, k=k, at=at) for m in MODES for s, k, at in ((3, 3, 0), (12, 5, 7), (25, 4, 18), (123, 3, 88), (1030, 2, 1009))], 'thorough': [dict(size=s, mode=m, k=k, at=at) for m in MODES for s, k, at in ((3, 3, 0), (10, 10, 0), (12, 9, 3), (33, 8, 17))]}, 'files of up to 25 bytes (33 thorough) with up to 5 (10) free bytes anywhere, in every mode'),
    ('ranges', ranges, {'quick': [dict(size=s, mode=m) for m in MODES for s in (7, 23)], 'thorough': [dict(size=s, mode=m) for m in MODES for s in (7, 10, 23, 41)]}, 'any start and end in files of 7 and 23 bytes (41 thorough), also beyond the end'),
    ('open ranges', open_ranges, [dict(size=23, mode=m, which=w) for m in MODES for w in ('start', 'stop')], 'any start without end and end without start'),
    ('whole files', sizes, {'quick': [dict(size=s, mode='CLI') for s in (0, 1, 9, 10, 11, 20, 101)], 'thorough': [dict(size=s, mode='CLI') for s in list(range(0, 33)) + [99, 100, 101, 1001]]}, 'files of several sizes dumped by the command'),
]
