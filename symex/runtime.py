"""Runtime called by instrumented code: models of built-ins for symbolic arguments."""
import base64
import binascii
import builtins
import copy
import functools
import html
import io
import itertools
import math
import operator
import os
import string as _string
import struct
import types
import zlib

from . import engine as E
from .engine import (SymNum, SymBool, SymComplex, SymBytes, SymStr, SymSeq, SymSet, SymBuffer, SymView, SYMTYPES,
                     branch, norm, concretize, eq, mk_or, mk_and, cmp0, seq_of, seq_items, apply_unary,
                     in_set, bnot, is_sym, deep_sym)

MISSING = object()
seen_code = set()
shadow_files = set()

TYPES = {SymComplex: complex, SymBool: bool, SymBytes: bytes, SymStr: str, SymSet: set, SymBuffer: bytearray, SymView: memoryview}


def m_type(*a):
    if len(a) != 1:
        return type(*a)
    x = a[0]
    t = type(x)
    if t is SymNum:
        return float if x.f else int
    return TYPES.get(t, t)


def _py_types(t):
    if type(t) is tuple:
        return tuple(y for x in t for y in _flat(x))
    return t


def _flat(x):
    return _py_types(x) if type(x) is tuple else (x,)


def m_isinstance(x, t):
    tt = m_type(x)
    if tt is type(x):
        return isinstance(x, t)
    if isinstance(t, types.UnionType):
        t = t.__args__
    for c in _flat(t):
        try:
            if issubclass(tt, c):
                return True
        except TypeError:
            if isinstance(x, c):
                return True
    return False


def parse_digits(items, base=10, what='int'):
    """Value of a list of code points as an unsigned integer, or None."""
    if not items:
        return None
    val = 0
    prev_us = True
    for x in items:
        if not isinstance(x, SymNum):
            ch = x
            if ch == 95:
                if prev_us:
                    return None
                prev_us = True
                continue
            d = digit_val(ch, base)
            if d is None:
                return None
            val = val * base + d
            prev_us = False
            continue
        ok = [c for c in range(48, 123) if digit_val(c, base) is not None]
        if branch(in_set(x, ok)):
            x = norm(x)
            d = apply_unary(x, lambda v: digit_val(v, base))
            if d is None:
                # not over one small variable
                if base == 10:
                    d = x - 48
                else:
                    d = digit_val(concretize(x), base)
            val = val * base + d
            prev_us = False
            continue
        if branch(eq(x, 95)):
            if prev_us:
                return None
            prev_us = True
            continue
        if E.rng(x)[1] is None or E.rng(x)[1] > 255:
            if not branch(cmp0(x - 128, '<')):
                raise E.Unsupported('non-ASCII digit')
        return None
    if prev_us:
        return None
    return val


def digit_val(c, base):
    if 48 <= c <= 57:
        d = c - 48
    elif 97 <= c <= 122:
        d = c - 87
    elif 65 <= c <= 90:
        d = c - 55
    else:
        return None
    return d if d < base else None


def m_int(x=0, *a, **k):
    base = a[0] if a else k.get('base')
    if isinstance(x, SymSeq):
        items = x.items()
        base = 10 if base is None else concretize(base)
        ws = x.WS_B if x.native is bytes else x.WS_S
        i, e = 0, len(items)
        while i < e and branch(x._is_in(items[i], ws)):
            i += 1
        while e > i and branch(x._is_in(items[e - 1], ws)):
            e -= 1
        items = items[i:e]
        neg = False
        if items:
            if branch(eq(items[0], 45)):
                neg = True
                items = items[1:]
            elif branch(eq(items[0], 43)):
                items = items[1:]
        if base in (16, 8, 2, 0) and len(items) >= 2 and branch(eq(items[0], 48)) and branch(in_set(items[1], [ord(c) for c in 'xXoObB'])):
            raise E.Unsupported('prefixed number')
        if base == 0:
            raise E.Unsupported('base 0')
        v = parse_digits(items, base)
        if v is None:
            raise ValueError(f"invalid literal for int() with base {base}: {x.b!r}")
        return -v if neg else v
    if isinstance(x, SymNum):
        return E.num_int(x)
    if isinstance(x, SymBool):
        return int(bool(x))
    if isinstance(x, SymComplex):
        raise TypeError("int() argument must be a string, a bytes-like object or a real number, not 'complex'")
    return int(x, *a, **k)


def m_float(x=0.0):
    if isinstance(x, SymNum):
        return E.as_float(x)
    if isinstance(x, SymBool):
        return float(bool(x))
    if isinstance(x, SymSeq):
        s = x.strip()
        if not isinstance(s, SymSeq):
            return float(s)
        items = s.items()

        def bad():
            return ValueError(f"could not convert string to float: {x.b!r}")
        neg = False
        if branch(eq(items[0], 45)):
            neg = True
            items = items[1:]
        elif branch(eq(items[0], 43)):
            items = items[1:]
        ip, fp, dot = [], [], False
        i = 0
        while i < len(items):
            c = items[i]
            if branch(in_set(c, range(48, 58))):
                (fp if dot else ip).append(norm(c))
            elif not dot and branch(eq(c, 46)):
                dot = True
            else:
                break
            i += 1
        rest = items[i:]
        exp = 0
        if rest:
            if not branch(in_set(rest[0], (101, 69))):
                if branch(in_set(rest[0], [ord(ch) for ch in '_iInN'])):
                    # underscores, inf, nan
                    t = seq_of(x.native, items)
                    t = t.concrete() if isinstance(t, SymSeq) else t
                    v = float(t)
                    return -v if neg else v
                raise bad()
            es = seq_of(x.native, rest[1:])
            es = es.concrete() if isinstance(es, SymSeq) else es
            try:
                exp = int(es)
                if es[:1] in (b' ', ' '):
                    raise ValueError
            except ValueError:
                raise bad()
        if not ip and not fp:
            raise bad()
        v = 0
        for d in ip + fp:
            v = v * 10 + (d - 48)
        k = len(fp) - exp
        if isinstance(v, SymNum):
            from fractions import Fraction
            r = v * (Fraction(1, 10 ** k) if k >= 0 else 10 ** (-k))
            r = E.as_float(r)
        else:
            r = float(f"{v}e{-k}")
        return -r if neg else r
    return float(x)


def m_str(x='', *a):
    if a:
        if isinstance(x, SymBytes):
            return x.decode(*a)
        return str(x, *a)
    t = type(x)
    if t is SymNum:
        n = norm(x)
        if not isinstance(n, SymNum):
            return str(float(n) if x.f else int(n))
        return seq_of(str, E.float_str(n) if x.f else E.int_str(n))
    if t is SymStr:
        return x
    if t is SymBytes:
        return m_repr(x)
    if t is SymBool:
        return 'True' if branch(x) else 'False'
    if t is SymComplex:
        return str(complex(x))
    if t in (list, dict, tuple, set) and has_sym(x):
        return m_repr(x)
    if t is SymSet:
        return m_repr(x)
    return str(x)


def m_repr(x):
    t = type(x)
    if t is SymNum or t is SymBool:
        return m_str(x)
    if t is SymComplex:
        re, im = norm(x.re), norm(x.im)
        ri = E.num_int(im) if not isinstance(im, SymNum) or E.is_integral(im) else im
        if not isinstance(re, SymNum) and re == 0 and isinstance(ri, SymNum) and E.is_integral(ri):
            return seq_join_('', [m_str(SymNum(ri.t, ri.c, False)), 'j'])
        return repr(complex(x))
    if t in (SymBytes, SymStr):
        return repr_seq(x)
    if t is list:
        return seq_join_('', ['[', m_join(', ', [m_repr(y) for y in x]), ']'])
    if t is tuple:
        return seq_join_('', ['(', m_join(', ', [m_repr(y) for y in x]), ',)' if len(x) == 1 else ')'])
    if t is dict:
        return seq_join_('', ['{', m_join(', ', [seq_join_('', [m_repr(k), ': ', m_repr(v)]) for k, v in x.items()]), '}'])
    if t is SymSet:
        if not len(x):
            return 'set()'
        return seq_join_('', ['{', m_join(', ', [m_repr(y) for y in x]), '}'])
    return repr(x)


def seq_join_(sep, parts):
    return E.seq_join(sep, parts)


def repr_seq(x):
    """repr of symbolic text, character by character (quote choice included)."""
    items = x.items()
    is_b = x.native is bytes
    has_sq = mk_or([eq(c, 39) for c in items])
    q = 39
    if branch(has_sq):
        if not branch(mk_or([eq(c, 34) for c in items])):
            q = 34
    out = ([98] if is_b else []) + [q]
    for c in items:
        c = norm(c)
        if not isinstance(c, SymNum):
            out += repr_char(c, q, is_b)
            continue
        # printable characters other than \ and the quote stand for themselves
        vals = E.values_of(c)
        if vals is None:
            c = concretize(c)
            out += repr_char(c, q, is_b)
            continue
        plain = [v for v in vals if repr_char(v, q, is_b) == [v]]
        if plain and branch(in_set(c, plain)):
            out.append(norm(c))
            continue
        c = norm(c)
        if isinstance(c, SymNum):
            vals = E.values_of(c)
            hexs = [v for v in vals if len(repr_char(v, q, is_b)) == 4 and repr_char(v, q, is_b)[1] == 120]
            if hexs and branch(in_set(c, hexs)):
                h = apply_unary(c, lambda v: v // 16)
                l = apply_unary(c, lambda v: v % 16)
                out += [92, 120, E.hex_digit(h), E.hex_digit(l)]
                continue
            c = concretize(c)
        out += repr_char(c, q, is_b)
    out.append(q)
    return seq_of(str, out)


def repr_char(v, q, is_b):
    s = repr(bytes([v]))[2:-1] if is_b else repr(chr(v))[1:-1]
    if v == 39:
        s = "'" if q == 34 else "\\'"
    if v == 34:
        s = '"'
    return [ord(c) for c in s]


def m_bytes(x=b'', *a, **k):
    t = type(x)
    if t is SymNum:
        return bytes(concretize(x))
    if t is SymBytes:
        return x
    if t is SymStr:
        return x.encode(*a, **k)
    if a or k:
        return bytes(x, *a, **k)
    if t in (bytes, str, int, bytearray, memoryview):
        return bytes(x)
    l = list(x)
    for v in l:
        if isinstance(v, SymNum):
            if v.f:
                raise TypeError("'float' object cannot be interpreted as an integer")
            if not branch(mk_and([cmp0(v, '>='), cmp0(v - 256, '<')])):
                raise ValueError('bytes must be in range(0, 256)')
    if any(isinstance(v, SymNum) for v in l):
        for v in l:
            if not isinstance(v, SymNum):
                bytes([v])
        return seq_of(bytes, l)
    return bytes(l)


def m_ord(x):
    if isinstance(x, SymSeq):
        if len(x) != 1:
            raise TypeError(f'ord() expected a character, but string of length {len(x)} found')
        return x.item(0)
    return ord(x)


def m_chr(x):
    x = norm(x)
    if isinstance(x, SymNum):
        if not branch(mk_and([cmp0(x, '>='), cmp0(x - 0x110000, '<')])):
            raise ValueError('chr() arg not in range(0x110000)')
        return seq_of(str, [x])
    return chr(x)


class SymRange:
    """range with symbolic ends, expanded lazily."""

    def __init__(self, a, b, s):
        self.a, self.b, self.s = a, b, s

    def __iter__(self):
        i = self.a
        s = self.s
        while branch(i < self.b if s > 0 else i > self.b):
            yield i
            i = i + s

    def __len__(self):
        n = 0
        for _ in self:
            n += 1
        return n

    def __contains__(self, x):
        if self.s == 1:
            return branch(mk_and([x >= self.a, x < self.b]))
        return any(branch(eq(x, y)) for y in self)

    def __getitem__(self, k):
        return list(self)[k]

    def __reversed__(self):
        return reversed(list(self))


def m_range(*a):
    a = [norm(x) for x in a]
    if not any(isinstance(x, SymNum) for x in a):
        return range(*a)
    for x in a:
        if isinstance(x, SymNum) and x.f:
            raise TypeError("'float' object cannot be interpreted as an integer")
    if len(a) == 1:
        a = [0, a[0], 1]
    elif len(a) == 2:
        a = [a[0], a[1], 1]
    a[2] = concretize(a[2])
    return SymRange(*a)


def m_slice(*a):
    return slice(*[concretize(x) for x in a])


def m_set(x=()):
    if type(x) is SymSet:
        return x.copy()
    r = SymSet()
    for y in x:
        r.add(y)
    return r


def m_dict(*a, **k):
    if len(a) == 1:
        src = a[0]
        r = {}
        if hasattr(src, 'keys'):
            if isinstance(src, dict):
                r = src.copy()
            else:
                for kk in src.keys():
                    setkey(r, kk, src[kk])
        else:
            for kk, v in src:
                setkey(r, kk, v)
        r.update(k)
        return r
    return dict(*a, **k)


def m_list(x=()):
    if isinstance(x, dict):
        return list(x)
    return list(x)


def m_map(f, *its):
    return (call(f, *xs) for xs in zip(*its))


def m_filter(f, it):
    if f is None:
        return (x for x in it if x)
    return (x for x in it if call(f, x))


def m_sorted(it, *, key=None, reverse=False):
    l = list(it)
    list_sort(l, key=key, reverse=reverse)
    return l


def list_sort(l, *, key=None, reverse=False):
    if not has_sym(l) and key is None:
        l.sort(reverse=reverse)
        return
    keys = [call(key, x) if key is not None else x for x in l]
    if not has_sym(keys):
        idx = sorted(range(len(l)), key=lambda i: keys[i], reverse=reverse)
        l[:] = [l[i] for i in idx]
        return
    # stable insertion sort with symbolic comparisons
    pairs = list(zip(keys, l))
    if reverse:
        pairs.reverse()
    out = []
    for p in pairs:
        i = len(out)
        while i > 0 and branch(lt(p[0], out[i - 1][0])):
            i -= 1
        out.insert(i, p)
    if reverse:
        out.reverse()
    l[:] = [p[1] for p in out]


def lt(a, b):
    if type(a) in (tuple, list) and type(b) is type(a):
        for x, y in zip(a, b):
            if branch(eq(x, y)):
                continue
            return lt(x, y)
        return len(a) < len(b)
    return a < b


def undominated(l, is_max):
    """Without the elements that intervals show to be no candidates."""
    out = []
    for x in l:
        if any(x is y for y in out):
            continue
        lo, hi = E.rng(x)
        keep = True
        for i, y in list(enumerate(out)):
            if y is None:
                continue
            d = norm(x - y)
            a, b = (d, d) if not isinstance(d, SymNum) else E.rng(d)
            if not is_max:
                a, b = (None if b is None else -b), (None if a is None else -a)
            if b is not None and b <= 0:
                keep = False
                break
            if a is not None and a >= 0:
                out[i] = None
        out = [y for y in out if y is not None]
        if keep:
            out.append(x)
    return out


def m_minmax(is_max):
    def f(*a, key=None, default=MISSING):
        if len(a) == 1:
            l = list(a[0])
            if not l:
                if default is not MISSING:
                    return default
                raise ValueError(f"{'max' if is_max else 'min'}() arg is an empty sequence" if False else f"{'max' if is_max else 'min'}() iterable argument is empty")
        else:
            l = list(a)
        if key is None and len(l) >= 3 and all(type(x) is int or type(x) is SymNum and E.is_int_like(x) for x in l):
            l = undominated(l, is_max)
            if len(l) >= 3:
                bounds = [E.rng(x) for x in l]
                lows = [b[0] for b in bounds if b[0] is not None]
                highs = [b[1] for b in bounds if b[1] is not None]
                if is_max:
                    m = E.cur.fresh('m', max(lows) if lows else None, max(highs) if len(highs) == len(l) else None)
                else:
                    m = E.cur.fresh('m', min(lows) if len(lows) == len(l) else None, min(highs) if highs else None)
                if isinstance(m, SymNum):
                    E.cur.add(mk_and([cmp0(m - x, '>=' if is_max else '<=') for x in l] + [E.mk_or([eq(m, x) for x in l])]))
                return m
        best = l[0]
        kb = call(key, best) if key is not None else best
        for x in l[1:]:
            kx = call(key, x) if key is not None else x
            c = lt(kb, kx) if is_max else lt(kx, kb)
            if branch(c):
                best, kb = x, kx
        return best
    return f


def m_from_bytes(b, byteorder='big', *, signed=False):
    if isinstance(b, SymSeq) or (type(b) in (list, tuple) and has_sym(b)):
        its = b.items() if isinstance(b, SymSeq) else list(b)
        if byteorder == 'little':
            its = its[::-1]
        v = 0
        for x in its:
            v = v * 256 + x
        if signed and its:
            if branch(cmp0(its[0] - 128, '>=')):
                v = v - 256 ** len(its)
        return v
    return int.from_bytes(b, byteorder, signed=signed)


def m_to_bytes(x, length=1, byteorder='big', *, signed=False):
    length = concretize(length)
    if isinstance(x, SymNum):
        return x.to_bytes(length, byteorder, signed)
    return int.to_bytes(x, length, byteorder, signed=signed)


STRUCT = {'B': (1, False), 'b': (1, True), 'H': (2, False), 'h': (2, True), 'I': (4, False), 'i': (4, True), 'L': (4, False), 'l': (4, True), 'Q': (8, False), 'q': (8, True)}


def struct_fields(f):
    if isinstance(f, bytes):
        f = f.decode('ascii')
    order = 'little'
    if f[:1] in ('>', '!', '<', '='):
        order = 'big' if f[0] in '>!' else 'little'
        f = f[1:]
    elif any(c not in 'Bbxc' and not c.isdigit() for c in f):
        raise E.Unsupported('struct with native alignment')
    out = []
    n = ''
    for c in f:
        if c.isdigit():
            n += c
        elif c == 's':
            out.append((int(n or 1), 's'))
            n = ''
        elif c in STRUCT:
            out += [STRUCT[c]] * int(n or 1)
            n = ''
        elif not c.isspace():
            raise E.Unsupported('struct ' + c)
    return order, out


def m_pack(f, *a):
    order, fields = struct_fields(f)
    if len(fields) != len(a):
        raise struct.error(f'pack expected {len(fields)} items for packing (got {len(a)})')
    out = []
    for (n, signed), x in zip(fields, a):
        if signed == 's':
            x = seq_items(x)
            out += (x + [0] * n)[:n]
            continue
        try:
            out += seq_items(m_to_bytes(x, n, order, signed=signed))
        except OverflowError:
            raise struct.error('argument out of range')
    return seq_of(bytes, out)


def m_unpack(f, b):
    order, fields = struct_fields(f)
    if sum(n for n, _ in fields) != len(b):
        raise struct.error('unpack requires a buffer of %d bytes' % sum(n for n, _ in fields))
    out = []
    i = 0
    for n, signed in fields:
        x = b[i:i + n]
        i += n
        out.append(x if signed == 's' else m_from_bytes(x, order, signed=signed))
    return tuple(out)


def m_unpack_from(f, b, offset=0):
    n = sum(n for n, _ in struct_fields(f)[1])
    offset = concretize(offset)
    return m_unpack(f, b[offset:offset + n])


def m_hexlify(b, *a):
    if isinstance(b, SymBytes):
        return b.hex(*a).encode('ascii')
    return binascii.hexlify(b, *a)


def unhex_items(items, err):
    out = []
    for i in range(0, len(items), 2):
        v = parse_hex(items[i], err) * 16 + parse_hex(items[i + 1], err)
        out.append(v)
    return out


HEXV = [c for c in range(256) if digit_val(c, 16) is not None]


def parse_hex(x, err):
    if not isinstance(x, SymNum):
        v = digit_val(x, 16)
        if v is None:
            raise err()
        return v
    if not branch(in_set(x, HEXV)):
        raise err()
    v = apply_unary(x, lambda c: digit_val(c, 16))
    if v is None:
        v = digit_val(concretize(x), 16)
    return v


def m_unhexlify(b):
    if isinstance(b, SymSeq):
        its = b.items()
        if len(its) % 2:
            raise binascii.Error('Odd-length string')
        return seq_of(bytes, unhex_items(its, lambda: binascii.Error('Non-hexadecimal digit found')))
    return binascii.unhexlify(b)


def m_fromhex(s):
    if isinstance(s, SymStr):
        out = []
        its = s.items()
        i = 0

        def err():
            return ValueError('non-hexadecimal number found in fromhex() arg')
        while i < len(its):
            if branch(s._is_in(its[i], (9, 10, 11, 12, 13, 32))):
                i += 1
                continue
            if i + 1 >= len(its):
                parse_hex(its[i], err)
                raise err()
            out.append(parse_hex(its[i], err) * 16 + parse_hex(its[i + 1], err))
            i += 2
        return seq_of(bytes, out)
    return bytes.fromhex(s)


# --- zlib as an inverse pair for symbolic data
# An encoder output for symbolic data is a real zlib stream of a stand-in payload that identifies the data.

def m_compress(data, *a, **k):
    if isinstance(data, SymBytes):
        data = data.simp()
    if isinstance(data, SymBytes):
        reg = E.cur.registry
        n = len(reg)
        tag = b'\x00symbolic\x00%d\x00' % n + bytes(len(data))
        c = zlib.compress(tag, *a, **k)
        reg.append((c, data))
        return c
    return zlib.compress(data, *a, **k)


def m_decompress(data, *a, **k):
    if isinstance(data, SymBytes):
        data = data.simp()
    if isinstance(data, SymBytes):
        # symbolic compressed data: only recognised as a registered stream with symbolic surroundings
        for c, d in E.cur.registry:
            if len(data) >= len(c) and data.b[:len(c)] == c and not any(i < len(c) for i in data.s):
                return d
        raise E.Unsupported('inflating symbolic bytes')
    for c, d in E.cur.registry:
        if data[:len(c)] == c:
            return d
    return zlib.decompress(data, *a, **k)


class M_Decompress:
    def __init__(self, *a):
        self.o = zlib.decompressobj(*a)
        self.unused_data = b''
        self.eof = False
        self.unconsumed_tail = b''

    def decompress(self, data, *a):
        if isinstance(data, SymBytes):
            data = data.simp()
        if isinstance(data, SymBytes) or any(data[:len(c)] == c for c, _ in E.cur.registry):
            for c, d in E.cur.registry:
                if data[:len(c)] == c:
                    self.eof = True
                    self.unused_data = data[len(c):]
                    return d
            raise E.Unsupported('inflating symbolic bytes')
        r = self.o.decompress(data, *a)
        self.unused_data, self.eof = self.o.unused_data, self.o.eof
        return r

    def flush(self):
        return self.o.flush()


# --- ASCII85

def m_a85encode(b, *, foldspaces=False, wrapcol=0, pad=False, adobe=False):
    if not isinstance(b, SymBytes) or foldspaces or wrapcol or pad:
        if isinstance(b, SymBytes):
            raise E.Unsupported('a85encode options')
        return base64.a85encode(b, foldspaces=foldspaces, wrapcol=wrapcol, pad=pad, adobe=adobe)
    its = b.items()
    out = []
    for i in range(0, len(its), 4):
        g = its[i:i + 4]
        n = len(g)
        g = g + [0] * (4 - n)
        if n == 4 and branch(mk_and([eq(x, 0) for x in g])):
            out.append(122)
            continue
        v = 0
        for x in g:
            v = v * 256 + x
        ds = E.radix_digits(v, 85, 5)[::-1] if not isinstance(v, int) else [(v // 85 ** (4 - j)) % 85 for j in range(5)]
        out += [d + 33 for d in ds[:n + 1]]
    if adobe:
        out = [60, 126] + out + [126, 62]
    return seq_of(bytes, out)


def m_a85decode(b, *, foldspaces=False, adobe=False, ignorechars=b' \t\n\r\x0b'):
    if not isinstance(b, (SymBytes, SymStr)):
        return base64.a85decode(b, foldspaces=foldspaces, adobe=adobe, ignorechars=ignorechars)
    if isinstance(b, SymStr):
        b = b.encode('ascii')
    if adobe:
        if not branch(b.endswith(b'~>')):
            raise ValueError("Ascii85 encoded byte sequences must end with b'~>'")
        if branch(b.startswith(b'<~')):
            b = b[2:-2]
        else:
            b = b[:-2]
    out = []
    grp = []
    its = list(seq_items(b)) + [117] * 4
    nreal = len(its) - 4
    for x in its:
        if branch(mk_and([cmp0(x - 33, '>='), cmp0(x - 117, '<=')])) if isinstance(x, SymNum) else 33 <= x <= 117:
            grp.append(x)
            if len(grp) == 5:
                v = 0
                for y in grp:
                    v = v * 85 + (y - 33)
                v = E.unradix(v)
                if not branch(v < 2 ** 32):
                    raise ValueError('Ascii85 overflow')
                key = ('a85', tuple(g.key() if isinstance(g, SymNum) else g for g in grp))
                ds = E.radix_digits(v, 256, 4)[::-1]
                out += ds
                grp = []
        elif branch(eq(x, 122)):
            if grp:
                raise ValueError('z inside Ascii85 5-tuple')
            out += [0, 0, 0, 0]
        elif foldspaces and branch(eq(x, 121)):
            if grp:
                raise ValueError('y inside Ascii85 5-tuple')
            out += [32] * 4
        elif branch(in_set(x, list(ignorechars)) if isinstance(x, SymNum) else x in ignorechars):
            continue
        else:
            raise ValueError('Non-Ascii85 digit found: %c')
    padding = 4 - len(grp)
    if padding:
        out = out[:-padding]
    return seq_of(bytes, out)


def bitlen_floor_log2(x):
    """floor(log2(x)) of an integer x >= 1 as a concrete int, forking."""
    k = 0
    while branch(cmp0(x - (1 << (k + 1)), '>=')):
        k += 1
        if k > 200:
            raise E.Unsupported('log2 of an unbounded number')
    return k


class LogNum:
    """log of a symbolic number: only its floor and ceiling are known."""

    def __init__(self, x, base):
        self.x, self.base = x, base
        self._f = None

    def floor(self):
        if self._f is None:
            k = 0
            while branch(cmp0(self.x - self.base ** (k + 1), '>=')):
                k += 1
                if k > 200:
                    raise E.Unsupported('log of an unbounded number')
            self._f = k
        return self._f

    def exact(self):
        return branch(eq(self.x, self.base ** self.floor()))

    def __int__(self):
        return self.floor()

    def lazy_int(self):
        return LogInt(self) if self._f is None else self._f

    def __floor__(self):
        return self.floor()

    def __ceil__(self):
        return self.floor() + (0 if self.exact() else 1)

    def __floordiv__(self, n):
        return self.floor() // n

    def __truediv__(self, n):
        return LogDiv(self, n)

    def __add__(self, n):
        return LogOff(self, n)


class LogInt:
    """floor(log x), decided only as far as the use demands."""

    def __init__(self, l):
        self.l = l

    def __int__(self):
        return self.l.floor()

    __index__ = __int__

    def __floordiv__(self, n):
        if self.l._f is not None or type(n) is not int or n < 1:
            return self.l.floor() // n
        k = 0
        while branch(cmp0(self.l.x - self.l.base ** (n * (k + 1)), '>=')):
            k += 1
            if k > 200:
                raise E.Unsupported('log of an unbounded number')
        return k

    def __getattr__(self, name):
        return getattr(self.l.floor(), name)


for _n in '__add__ __radd__ __sub__ __rsub__ __mul__ __rmul__ __truediv__ __mod__ __lt__ __le__ __gt__ __ge__ __eq__ __ne__ __neg__ __lshift__ __rlshift__ __pow__ __rpow__'.split():
    setattr(LogInt, _n, lambda self, *a, _n=_n: getattr(self.l.floor(), _n)(*a))
LogInt.__hash__ = lambda self: hash(self.l.floor())


class LogDiv:
    def __init__(self, l, n):
        self.l, self.n = l, n

    def __int__(self):
        return self.l.floor() // self.n

    __floor__ = __int__

    def __ceil__(self):
        f = self.l.floor()
        return -(-f // self.n) if self.l.exact() else f // self.n + 1

    def __add__(self, n):
        return LogOff(self, n)


class LogOff:
    def __init__(self, l, n):
        self.l, self.n = l, n

    def __int__(self):
        return int(self.l) + int(self.n)

    __floor__ = __int__

    def __ceil__(self):
        return self.l.__ceil__() + int(self.n)


def m_log(base):
    def f(x, *a):
        if a:
            b = concretize(a[0])
        else:
            b = base
        x = norm(x)
        if not isinstance(x, SymNum):
            return math.log(x, b) if b != 2 and b != 10 and b is not None else math.log2(x) if b == 2 else math.log10(x) if b == 10 else math.log(x)
        if b is None:
            raise E.Unsupported('natural logarithm')
        if not branch(cmp0(x, '>')):
            raise ValueError('math domain error')
        if not branch(cmp0(x - 1, '>=')):
            raise E.Unsupported('logarithm below 1')
        return LogNum(x, b)
    return f


def m_floor(x):
    if isinstance(x, LogNum):
        return x.lazy_int()
    if isinstance(x, (LogDiv, LogOff)):
        return x.__floor__()
    if isinstance(x, SymNum):
        return E.num_floor(x)
    return math.floor(x)


def m_ceil(x):
    if isinstance(x, (LogNum, LogDiv, LogOff)):
        return x.__ceil__()
    if isinstance(x, SymNum):
        return -E.num_floor(-x)
    return math.ceil(x)


def m_deepcopy(x, memo=None, _=None):
    return _dc(x, {})


ATOMIC = {int, float, str, bytes, bool, complex, type(None), type, types.FunctionType, types.BuiltinFunctionType, range, slice,
          types.ModuleType, types.MethodType} | SYMTYPES - {SymSet, SymBuffer}


def _dc(x, memo):
    t = type(x)
    if t in ATOMIC:
        return x
    i = id(x)
    if i in memo:
        return memo[i][0]
    if t is list:
        r = []
        memo[i] = (r, x)
        for y in x:
            r.append(_dc(y, memo))
        return r
    if t is dict:
        r = x.copy() if not x else {}
        memo[i] = (r, x)
        if not E.sym_keys(x):
            for k, v in x.items():
                r[_dc(k, memo)] = _dc(v, memo)
        else:
            r.update(x)
            for k, v in x.items():
                rawset(r, k, _dc(v, memo))
        return r
    if t is tuple:
        r = tuple(_dc(y, memo) for y in x)
        memo[i] = (r, x)
        return r
    if t is set:
        r = {_dc(y, memo) for y in x}
        memo[i] = (r, x)
        return r
    if t is SymSet or t in BUFFERS:
        r = x.copy()
        memo[i] = (r, x)
        return r
    if isinstance(x, tuple):
        vals = [_dc(y, memo) for y in x]
        r = t._make(vals) if hasattr(t, '_make') else t(vals)
        memo[i] = (r, x)
        return r
    if hasattr(x, '__dict__') and not isinstance(x, (types.GeneratorType, io.IOBase)):
        if hasattr(x, '__deepcopy__'):
            return x.__deepcopy__({})
        r = t.__new__(t)
        memo[i] = (r, x)
        for k, v in x.__dict__.items():
            object.__setattr__(r, k, _dc(v, memo))
        return r
    return copy.deepcopy(x)


def rawset(d, k, v):
    """d[k] = v where k is a key object already in d."""
    put(d, k, v)


def m_print(*a, sep=' ', end='\n', file=None, flush=False):
    sep = ' ' if sep is None else sep
    end = '\n' if end is None else end
    s = seq_join_(sep, [m_str(x) for x in a])
    s = seq_join_('', [s, end])
    E.cur.out.append(s)


def m_html_escape(s, quote=True):
    if isinstance(s, SymStr):
        m = {38: '&amp;', 60: '&lt;', 62: '&gt;'}
        if quote:
            m[34] = '&quot;'
            m[39] = '&#x27;'
        out = []
        for c in s.items():
            if not isinstance(c, SymNum):
                out += [ord(ch) for ch in m[c]] if c in m else [c]
            elif branch(in_set(c, list(m))):
                out += [ord(ch) for ch in m[concretize(c)]]
            else:
                out.append(c)
        return seq_of(str, out)
    return html.escape(s, quote)


def m_basename(p):
    if isinstance(p, SymStr):
        return p[p.rfind('/') + 1:]
    return os.path.basename(p)


def m_bool(x=False):
    return bool(x)


def m_abs(x):
    return abs(x)


def m_round(x, n=None):
    if isinstance(x, SymNum):
        if n is None:
            if not x.f or E.is_integral(x):
                return SymNum(x.t, x.c, False)
            f = E.num_floor(x)
            from fractions import Fraction
            d = SymNum(x.t, x.c, True) - f
            if branch(d < Fraction(1, 2)):
                return f
            if branch(d > Fraction(1, 2)):
                return f + 1
            return f if branch(eq(f % 2, 0)) else f + 1
        n = concretize(n)
        if x.f and n >= 0:
            v = m_round(E.as_float(x * 10 ** n))
            from fractions import Fraction
            return E.as_float(v * Fraction(1, 10 ** n))
        return round(concretize(x), n)
    return round(x, n) if n is not None else round(x)


def m_complex(re=0, im=0):
    if isinstance(re, (SymComplex, complex)):
        return re + im * 1j if im else re
    if isinstance(re, SymSeq):
        re = re.concrete()
    return SymComplex.make(re, im)


def m_sum(it, start=0):
    r = start
    for x in it:
        r = r + x
    return r


def m_any(it):
    for x in it:
        if x:
            return True
    return False


def m_all(it):
    for x in it:
        if not x:
            return False
    return True


def m_hash(x):
    return hash(x)


def m_len(x):
    return len(x)


def m_zip(*a, **k):
    return zip(*a, **k)


def m_format(x, spec=''):
    return fmt(x, spec)


def m_hex(x):
    if isinstance(x, SymNum):
        return seq_join_('', ['0x', fmt(x, 'x')])
    return hex(x)


def m_open(*a, **k):
    vf = E.cur.opts.get('open')
    if vf is not None:
        return vf(*a, **k)
    raise E.Unsupported('open()')


def m_bytearray(x=b'', *a, **k):
    if type(x) is SymBuffer:
        return x.copy()
    if type(x) in SYMTYPES and not isinstance(x, SymSeq):
        x = concretize(x)
    if type(x) is int or type(x) is str:
        return SymBuffer(seq_items(bytes(x, *a, **k)) if type(x) is str else bytes(x))
    if isinstance(x, (bytes, bytearray, memoryview)):
        return SymBuffer(x)
    return SymBuffer(seq_items(m_bytes(x, *a, **k)))


def m_memoryview(x):
    if type(x) is SymBuffer:
        raise E.Unsupported('view of a bytearray')
    return SymView(seq_items(x)) if isinstance(x, SymSeq) else memoryview(x)


def m_getattr(o, n, *d):
    return getattr(o, n, *d)


def m_bytesio(x=b''):
    if isinstance(x, SymBytes):
        return SymFile(x)
    return io.BytesIO(x)


class SymFile:
    """In-memory binary file over symbolic bytes."""

    def __init__(self, data=b''):
        self.data = data
        self.pos = 0

    def seek(self, off, whence=0):
        off = concretize(off)
        base = {0: 0, 1: self.pos, 2: len(self.data)}[whence]
        self.pos = max(0, base + off)
        return self.pos

    def tell(self):
        return self.pos

    def read(self, n=-1):
        n = -1 if n is None else concretize(n)
        e = len(self.data) if n < 0 else min(len(self.data), self.pos + n)
        r = self.data[self.pos:e]
        self.pos = max(self.pos, e)
        return r

    def write(self, b):
        self.data = self.data[:self.pos] + b + self.data[self.pos + len(b):]
        self.pos += len(b)
        return len(b)

    def getvalue(self):
        return self.data

    def close(self):
        pass

    def flush(self):
        pass

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False


MODELS = {
    type: m_type, isinstance: m_isinstance, int: m_int, float: m_float, str: m_str, repr: m_repr, bytes: m_bytes,
    ord: m_ord, chr: m_chr, range: m_range, slice: m_slice, set: m_set, dict: m_dict, map: m_map, filter: m_filter,
    sorted: m_sorted, max: m_minmax(True), min: m_minmax(False), complex: m_complex, sum: m_sum,
    round: m_round, bool: m_bool, print: m_print, format: m_format, hex: m_hex, open: m_open,
    zlib.compress: m_compress, zlib.decompress: m_decompress, zlib.decompressobj: M_Decompress,
    binascii.hexlify: m_hexlify, binascii.unhexlify: m_unhexlify, binascii.b2a_hex: m_hexlify, binascii.a2b_hex: m_unhexlify,
    base64.a85encode: m_a85encode, base64.a85decode: m_a85decode,
    math.log2: m_log(2), math.log10: m_log(10), math.log: m_log(None), math.floor: m_floor, math.ceil: m_ceil,
    copy.deepcopy: m_deepcopy, html.escape: m_html_escape, os.path.basename: m_basename, io.BytesIO: m_bytesio,
    any: m_any, all: m_all, bytearray: m_bytearray, memoryview: m_memoryview,
    struct.pack: m_pack, struct.unpack: m_unpack, struct.unpack_from: m_unpack_from,
}

# called even with concrete arguments, because of what they return or contain
ALWAYS = {set, print, open, zlib.decompress, zlib.decompressobj, copy.deepcopy, map, filter, sorted, max, min, any, all, sum, bytearray}

SAFE_NATIVE = {len, enumerate, zip, reversed, list, tuple, iter, next, abs, id, callable, getattr, hasattr, setattr, hash,
               super, divmod, pow, object, property, staticmethod, classmethod, vars, dir, issubclass,
               functools.reduce, itertools.chain, itertools.islice, itertools.takewhile, itertools.dropwhile,
               itertools.accumulate, itertools.zip_longest, itertools.count, itertools.repeat, itertools.product,
               itertools.groupby, operator.add, operator.sub, operator.mul, operator.neg, operator.lt, operator.gt, math.trunc}

FROM_BYTES = int.from_bytes
FROMHEX = bytes.fromhex


def has_sym(x, depth=4):
    t = type(x)
    if t in SYMTYPES:
        return True
    if depth == 0:
        return False
    if t is list or t is tuple or t is set or isinstance(x, tuple):
        for y in x:
            if has_sym(y, depth - 1):
                return True
    elif t is dict:
        for k, v in x.items():
            if has_sym(k, depth - 1) or has_sym(v, depth - 1):
                return True
    elif hasattr(t, '__dataclass_fields__'):
        return any(has_sym(getattr(x, f), depth - 1) for f in t.__dataclass_fields__)
    return False


def find_key(d, k):
    """The key of d equal to k, or MISSING; forks when undecided."""
    k = norm_key(k)
    if not deep_sym(k):
        if k in d:
            return k
        for kk in d:
            if deep_sym(kk):
                c = eq(kk, k)
                if c is not False and branch(c):
                    return kk
        return MISSING
    for kk in list(d):
        c = eq(kk, k)
        if c is False:
            continue
        if branch(c):
            return kk
    return MISSING


norm_key = E.norm_key


class HKey:
    pass


def setkey(d, k, v):
    k = norm_key(k)
    kk = find_key(d, k)
    if kk is not MISSING:
        k = kk
    put(d, k, v)


_hash_id = [False]


def put(d, k, v):
    """d[k] = v with the identity of a symbolic key as its hash."""
    if not deep_sym(k):
        d[k] = v
        return
    tk = type(k)
    _hash_id[0] = True
    try:
        d[k] = v
    finally:
        _hash_id[0] = False


def _patch_hash(cls):
    orig = cls.__hash__

    def h(self):
        if _hash_id[0]:
            return id(self) >> 4
        return orig(self)
    cls.__hash__ = h
    orig_eq = cls.__eq__

    def e(self, o):
        if _hash_id[0]:
            return self is o
        return orig_eq(self, o)
    cls.__eq__ = e


for _c in (SymNum, SymComplex, SymBytes, SymStr):
    _patch_hash(_c)


def dget(d, k):
    """Raw read of an existing key object."""
    if not deep_sym(k):
        return d[k]
    _hash_id[0] = True
    try:
        return d[k]
    finally:
        _hash_id[0] = False


def ddel(d, k):
    if not deep_sym(k):
        del d[k]
        return
    _hash_id[0] = True
    try:
        del d[k]
    finally:
        _hash_id[0] = False


def lookup_table(d, k):
    """d[k] for a numeric or one-character key over one small variable without case split, if the values allow it."""
    if isinstance(k, SymNum):
        p, conv = k, (lambda v: v)
    elif isinstance(k, SymSeq) and len(k) == 1:
        p, conv = k.item(0), (lambda v: bytes([v]) if k.native is bytes else chr(v))
    else:
        return MISSING
    p = norm(p)
    if not isinstance(p, SymNum) or E.single_small(p) is None:
        return MISSING
    vals = E.values_of(p)
    if len(vals) > 64 and len(d) < 20:
        return MISSING
    present = [v for v in vals if conv(v) in d]
    if not present:
        return MISSING
    got = [d[conv(v)] for v in present]
    if all(type(x) is int for x in got):
        kind = int
    elif all(type(x) is str and len(x) == 1 for x in got):
        kind = str
    elif all(type(x) is bytes and len(x) == 1 for x in got):
        kind = bytes
    else:
        return MISSING
    if len(present) < len(vals):
        if not branch(in_set(p, present)):
            return KeyError
        p = norm(p)
        if not isinstance(p, SymNum):
            return d[conv(p)]
    r = apply_unary(p, lambda v: d[conv(v)] if kind is int else ord(d[conv(v)]))
    return r if kind is int else seq_of(kind, [r])


NATIVE_GET = frozenset([dict, list, tuple, bytes, str])


def getitem(o, k):
    p = E.cur
    p.steps += 1
    if p.steps > p.max_steps or not p.steps & 1023:
        p.step()
    t = type(o)
    if t not in NATIVE_GET:
        g = getattr(t, '__getitem__', None)
        if type(g) is types.FunctionType and g.__code__.co_filename in shadow_files:
            seen_code.add(g.__code__)
    if t is dict or isinstance(o, dict):
        tk = type(k)
        if tk in SYMTYPES or (isinstance(k, tuple) and deep_sym(k)):
            k = norm_key(k)
        elif k in o:
            return o[k]
        if deep_sym(k):
            if not E.sym_keys(o):
                r = lookup_table(o, k)
                if r is KeyError:
                    raise KeyError(k)
                if r is not MISSING:
                    return r
            kk = find_key(o, k)
            if kk is MISSING:
                return o[MISSING] if hasattr(t, '__missing__') else _keyerr(k)
            return dget(o, kk)
        kk = find_key(o, k)
        if kk is MISSING:
            return o[k]
        return dget(o, kk)
    if type(k) is slice:
        if is_sym(k.start) or is_sym(k.stop) or is_sym(k.step):
            k = slice(concretize(k.start), concretize(k.stop), concretize(k.step))
        return o[k]
    if type(k) in SYMTYPES:
        if t in (list, tuple, bytes, str) or isinstance(o, SymSeq):
            return E.index_sym(o, k)
        if hasattr(o, '__getitem__'):
            return o[k]
    return o[k]


def _keyerr(k):
    raise KeyError('symbolic key')


def setitem(o, k, v):
    if isinstance(o, dict):
        if not deep_sym(k) and (k in o or not E.sym_keys(o)):
            o[k] = v
        else:
            setkey(o, k, v)
        return
    if type(k) in SYMTYPES:
        k = concretize(k, 'index')
    elif type(k) is slice and (is_sym(k.start) or is_sym(k.stop)):
        k = slice(concretize(k.start), concretize(k.stop), k.step)
    o[k] = v


def delitem(o, k):
    if isinstance(o, dict):
        kk = find_key(o, k)
        if kk is MISSING:
            if deep_sym(k):
                _keyerr(k)
            del o[k]
            return
        ddel(o, kk)
        return
    if type(k) in SYMTYPES:
        k = concretize(k, 'index')
    elif type(k) is slice and (is_sym(k.start) or is_sym(k.stop)):
        k = slice(concretize(k.start), concretize(k.stop), k.step)
    del o[k]


DICTVIEW = (type({}.keys()),)


def contains(o, x):
    t = type(o)
    tx = type(x)
    if t is bytes or t is str:
        if tx in SYMTYPES:
            if t is bytes and tx is SymNum:
                return branch(in_set(x, set(o)))
            if isinstance(x, SymSeq) and (x.native is t):
                if len(x) == 1:
                    return branch(in_set(x.item(0), set(seq_items(o))))
                if len(x) > len(o):
                    return False
                cls = SymBytes if t is bytes else SymStr
                return branch(cls(o, {}).contains(x))
            if tx is SymStr or tx is SymBytes or tx is SymNum or tx is SymComplex or tx is SymBool:
                raise TypeError('a bytes-like object is required' if t is bytes else "'in <string>' requires string as left operand")
        return x in o
    if isinstance(o, dict) or isinstance(o, DICTVIEW):
        if isinstance(o, DICTVIEW):
            o = {k: None for k in o} if not any(deep_sym(k) for k in o) else o
            if isinstance(o, DICTVIEW):
                return branch(mk_or([eq(k, x) for k in o]))
        if not deep_sym(x):
            if x in o:
                return True
            if not E.sym_keys(o):
                return False
            return find_key(o, x) is not MISSING
        x = norm_key(x)
        if not deep_sym(x):
            return contains(o, x)
        if not E.sym_keys(o):
            # one decision
            if isinstance(x, SymNum):
                return branch(in_set(x, [k for k in o if isinstance(k, (int, float))]))
            if isinstance(x, SymSeq) and len(x) == 1:
                ks = [k for k in o if type(k) is x.native and len(k) == 1]
                return branch(in_set(x.item(0), [k[0] if x.native is bytes else ord(k) for k in ks]))
        return find_key(o, x) is not MISSING
    if t is set or t is frozenset:
        if deep_sym(x):
            x = norm_key(x)
            if not deep_sym(x):
                return x in o
            if isinstance(x, SymNum):
                return branch(in_set(x, [k for k in o if isinstance(k, (int, float))]))
            return branch(mk_or([eq(x, y) for y in o]))
        return x in o
    if t is list or t is tuple:
        if tx is SymNum:
            return branch(mk_or([eq(y, x) for y in o]))
        for y in o:
            if y is x:
                return True
            c = eq(y, x)
            if c is not False and branch(c):
                return True
        return False
    if t is SymSet:
        return branch(o.contains(x))
    if isinstance(o, range) and tx is SymNum:
        if o.step == 1:
            return branch(mk_and([cmp0(x - o.start, '>='), cmp0(x - o.stop, '<')]))
        return branch(in_set(x, list(o)))
    return x in o


def not_contains(o, x):
    return not contains(o, x)


def eq_(a, b):
    ta, tb = type(a), type(b)
    if ta in SIMPLE and tb in SIMPLE:
        return a == b
    return eq(a, b)


def ne_(a, b):
    ta, tb = type(a), type(b)
    if ta in SIMPLE and tb in SIMPLE:
        return a != b
    r = eq(a, b)
    return bnot(r)


SIMPLE = {int, str, bytes, float, bool, type(None), type, complex}


def mkdict(pairs):
    d = {}
    for k, v in pairs:
        if k is UNPACK:
            for kk in v:
                setkey(d, kk, dget(v, kk))
            continue
        if deep_sym(k):
            setkey(d, k, v)
        elif not E.sym_keys(d):
            d[k] = v
        else:
            setkey(d, k, v)
    return d


UNPACK = object()


def mkset(items):
    items = list(items)
    if any(deep_sym(x) for x in items):
        r = SymSet()
        for x in items:
            r.add(x)
        return r
    return set(items)


def m_join(sep, it):
    return E.seq_join(sep, it)


def fmt(x, spec, conv=None):
    """format(x, spec)."""
    if isinstance(spec, SymSeq):
        spec = spec.concrete()
    if conv == 'r':
        x = m_repr(x)
    elif conv == 's':
        x = m_str(x)
    elif conv == 'a':
        x = ascii(x)
    t = type(x)
    if t not in SYMTYPES:
        if not has_sym(x):
            return format(x, spec)
        if t in (list, dict, tuple) and not spec:
            return m_repr(x)
        return format(x, spec)
    if t is SymBool:
        return format(bool(x), spec)
    if t is SymSet and not spec:
        return m_repr(x)
    if t is SymBytes:
        if spec:
            raise TypeError('unsupported format string passed to bytes.__format__')
        return m_repr(x)
    if t is SymComplex:
        return format(complex(x), spec)
    if t is SymStr:
        if not spec:
            return x
        import re
        m = re.fullmatch(r'(?:(.)?([<>^]))?(\d+)?(?:\.(\d+))?s?', spec, re.S)
        if not m:
            raise E.Unsupported('format spec ' + spec)
        fill, al, w, pr = m.groups()
        if pr is not None:
            x = x[:int(pr)]
        w = int(w or 0)
        fill = fill or ' '
        n = w - len(x)
        if n <= 0:
            return x
        if al == '>':
            return fill * n + x
        if al == '^':
            return fill * (n // 2) + x + fill * (n - n // 2)
        return x + fill * n
    # number
    x0 = norm(x)
    if not isinstance(x0, SymNum):
        return format(float(x0) if x.f else x0, spec)
    x = x0
    import re
    m = re.fullmatch(r'(?:(.)?([<>=^]))?([+\- ])?(#)?(0)?(\d+)?([,_])?(?:\.(\d+))?([a-zA-Z%])?', spec, re.S)
    if not m:
        raise E.Unsupported('format spec ' + spec)
    fill, al, sign, alt, zero, w, grp, pr, ty = m.groups()
    if alt or grp or sign in ('+', ' '):
        return format(concretize(x), spec)
    w = int(w or 0)
    if x.f or ty in ('f', 'F', 'e', 'g', 'E', 'G', '%'):
        if ty in ('f', 'F') or (x.f and ty is None and pr is None):
            if ty in ('f', 'F'):
                n = int(pr) if pr is not None else 6
                r = m_round(E.as_float(x * (10 ** n)))
                neg = branch(cmp0(x, '<'))
                r = -r if neg else r
                cs = [d + 48 for d in E.digits_of(r, 10, n + 1)] if isinstance(r, SymNum) else [ord(c) for c in str(int(r)).zfill(n + 1)]
                cs = cs[:len(cs) - n] + ([46] + cs[len(cs) - n:] if n else [])
                cs = ([45] if neg else []) + cs
            else:
                cs = E.float_str(x)
        else:
            return format(concretize(x), spec)
    elif ty in (None, 'd', 'n'):
        if zero and not al:
            cs = E.int_str(x, w)
        elif fill == '0' and al == '=':
            cs = E.int_str(x, w)
        else:
            cs = E.int_str(x)
    elif ty in ('x', 'X', 'o', 'b'):
        radix = {'x': 16, 'X': 16, 'o': 8, 'b': 2}[ty]
        if branch(cmp0(x, '<')):
            return format(concretize(x), spec)
        wd = w if (zero and not al) or (fill == '0' and al in ('=', '>')) else 0
        ds = E.digits_of(x, radix, wd)
        cs = [E.hex_digit(d, ty == 'X') for d in ds]
    elif ty == 'c':
        cs = [x]
    else:
        raise E.Unsupported('format spec ' + spec)
    n = w - len(cs)
    if n > 0:
        f = ord(fill) if fill else (48 if zero else 32)
        a = al or '>'
        if a == '<':
            cs = cs + [f] * n
        elif a == '^':
            cs = [f] * (n // 2) + cs + [f] * (n - n // 2)
        else:
            cs = [f] * n + cs
    return seq_of(str, cs)


def fstr(*parts):
    """Join of the pieces of an f-string: str or (value, conversion, spec)."""
    out = []
    sym = False
    for p in parts:
        if type(p) is tuple:
            v, c, s = p
            if type(v) is str and not s and c is None:
                r = v
            else:
                r = fmt(v, s, c)
        else:
            r = p
        if isinstance(r, SymSeq):
            sym = True
        out.append(r)
    if not sym:
        return ''.join(out)
    return E.seq_join('', out)


def mod(a, b):
    if type(a) in (str, bytes) and has_sym(b):
        return percent(a, b)
    return a % b


def percent(t, args):
    """% formatting with symbolic arguments."""
    import re
    is_b = type(t) is bytes
    s = t.decode('latin-1') if is_b else t
    out = []
    if type(args) is not tuple:
        args = (args,)
    i = 0
    pos = 0
    for m in re.finditer(r'%(0)?(-)?(\d+)?(?:\.(\d+))?([diouxXeEfFgGcrsab%])', s):
        out.append(s[pos:m.start()])
        pos = m.end()
        z, mi, w, pr, ty = m.groups()
        if ty == '%':
            out.append('%')
            continue
        v = args[i]
        i += 1
        if ty in 'sb' and is_b:
            out.append(decl1(v))
            continue
        if ty == 's':
            out.append(fmt(m_str(v), ('<' if mi else '>') + w if w else ''))
        elif ty == 'r':
            out.append(m_repr(v))
        elif ty in 'diu':
            out.append(fmt(m_int(v), ('<' if mi else '') + ('0' if z and not mi else '') + (w or '') + 'd'))
        elif ty in 'xXo':
            out.append(fmt(v, ('0' if z else '') + (w or '') + ty))
        elif ty == 'c':
            out.append(seq_of(str, [v]) if isinstance(v, SymNum) else decl1(v) if not isinstance(v, int) else chr(v))
        else:
            raise E.Unsupported('% format ' + ty)
    out.append(s[pos:])
    r = E.seq_join('', out)
    if is_b:
        return r.encode('latin-1') if isinstance(r, SymSeq) else r.encode('latin-1')
    return r


def decl1(v):
    return v.decode('latin-1') if isinstance(v, (bytes, SymBytes)) else v


def str_format(t, *a, **k):
    import re
    out = []
    auto = 0

    def value(field):
        nonlocal auto
        m = re.match(r'[^.\[]*', field)
        name = m.group(0)
        rest = field[m.end():]
        if name == '':
            v = a[auto]
            auto += 1
        elif name.isdigit():
            v = a[int(name)]
        else:
            v = k[name]
        for at, ix in re.findall(r'\.([^.\[]+)|\[([^\]]+)\]', rest):
            v = getattr(v, at) if at else getitem(v, int(ix) if ix.isdigit() else ix)
        return v
    for lit, field, spec, conv in _string.Formatter().parse(t):
        out.append(lit)
        if field is None:
            continue
        v = value(field)
        if '{' in (spec or ''):
            parts = []
            for l, fi, sp, co in _string.Formatter().parse(spec):
                parts.append(l)
                if fi is not None:
                    parts.append(fmt(value(fi), sp or '', co))
            spec = E.seq_join('', parts)
            if isinstance(spec, SymSeq):
                spec = spec.concrete()
        out.append(fmt(v, spec or '', conv))
    return E.seq_join('', out)


STR_METHODS_SAFE = set()


def dict_method(d, name, a, k):
    if name == 'get':
        key = a[0]
        default = a[1] if len(a) > 1 else k.get('default')
        if not deep_sym(key) and key in d:
            return d[key]
        if deep_sym(key) and not E.sym_keys(d):
            key = norm_key(key)
            if deep_sym(key):
                r = lookup_table(d, key)
                if r is KeyError:
                    return default
                if r is not MISSING:
                    return r
        kk = find_key(d, key)
        return default if kk is MISSING else dget(d, kk)
    if name == 'pop':
        kk = find_key(d, a[0])
        if kk is MISSING:
            if len(a) > 1:
                return a[1]
            raise KeyError('symbolic key')
        v = dget(d, kk)
        ddel(d, kk)
        return v
    if name == 'setdefault':
        kk = find_key(d, a[0])
        if kk is not MISSING:
            return dget(d, kk)
        v = a[1] if len(a) > 1 else None
        put(d, norm_key(a[0]), v)
        return v
    if name == 'update':
        for src in a:
            if isinstance(src, dict):
                for kk in list(src):
                    setkey(d, kk, dget(src, kk))
            else:
                for kk, v in src:
                    setkey(d, kk, v)
        for kk, v in k.items():
            setkey(d, kk, v)
        return None
    return MISSING


def sym_dict_items(d):
    return d.items()


BUFFERS = (SymBuffer, SymView)


def buffers(f, t, a):
    """Arguments with every bytearray replaced by its contents, where the function only reads them."""
    if t is types.FunctionType:
        if f.__code__.co_filename in shadow_files or f in (copy.deepcopy, copy.copy):
            return a
    elif t is types.MethodType:
        if not isinstance(f.__self__, (SymSeq, SymFile)):
            return a
    elif t is types.BuiltinMethodType:
        s = f.__self__
        if isinstance(s, (list, dict, set)) or f in (len, isinstance, iter, next, id, callable, getattr, hasattr, sorted, max, min, any, all, sum):
            return a
    elif t is type:
        if f not in (bytes, int, str, memoryview):
            return a
    elif t is not types.MethodDescriptorType:
        return a
    return tuple(x.v if type(x) in BUFFERS else x for x in a)


def call(f, /, *a, **k):
    p = E.cur
    p.steps += 1
    if p.steps > p.max_steps or not p.steps & 1023:
        p.step()
    t = type(f)
    for x in a:
        if type(x) in BUFFERS:
            a = buffers(f, t, a)
            break
    if t is types.FunctionType:
        if f.__code__.co_filename in shadow_files:
            seen_code.add(f.__code__)
            return f(*a, **k)
        m = MODELS.get(f)
        if m is not None:
            if f in ALWAYS or any_sym(a, k):
                return m(*a, **k)
            return f(*a, **k)
        if f.__module__ and (f.__module__.startswith('symex') or f.__module__.startswith('props')):
            return f(*a, **k)
        if f.__qualname__.startswith('SymSeq') or f.__qualname__.startswith('Sym'):
            return f(*a, **k)
        if any_sym(a, k):
            return native_call(f, a, k)
        return f(*a, **k)
    if t is types.MethodType:
        return f(*a, **k)
    if t is types.BuiltinMethodType:
        s = f.__self__
        ts = type(s)
        if ts is types.ModuleType or s is None:
            m = MODELS.get(f)
            if m is not None:
                if f in ALWAYS or any_sym(a, k):
                    return m(*a, **k)
                return f(*a, **k)
            if f in SAFE_NATIVE or not any_sym(a, k):
                return f(*a, **k)
            return native_call(f, a, k)
        name = f.__name__
        if ts is dict or isinstance(s, dict):
            if name in ('get', 'pop', 'setdefault', 'update') and (E.sym_keys(s) or (a and (deep_sym(a[0]) or isinstance(a[0], dict) and E.sym_keys(a[0])))):
                r = dict_method(s, name, a, k)
                if r is not MISSING:
                    return r
            return f(*a, **k)
        if ts is bytes or ts is str:
            if name == 'join':
                l = list(a[0])
                for x in l:
                    if type(x) in SYMTYPES:
                        return E.seq_join(s, l)
                return f(l)
            if name == 'format':
                if has_sym(a) or has_sym(k):
                    return str_format(s, *a, **k)
                return f(*a, **k)
            if any_sym(a, k):
                cls = SymBytes if ts is bytes else SymStr
                return getattr(cls(s, {}), name)(*a, **k)
            return f(*a, **k)
        if ts is list:
            if name == 'sort':
                list_sort(s, **k)
                return None
            if name in ('pop', 'insert') and a and is_sym(a[0]):
                return f(concretize(a[0]), *a[1:], **k)
            if name in ('index', 'remove', 'count'):
                return list_find(s, name, *a)
            return f(*a, **k)
        if ts is type:
            if f == FROM_BYTES:
                return m_from_bytes(*a, **k)
            if f == FROMHEX:
                return m_fromhex(*a, **k)
            if s is dict and name == 'fromkeys':
                return mkdict([(x, a[1] if len(a) > 1 else None) for x in a[0]])
            if any_sym(a, k):
                return native_call(f, a, k)
            return f(*a, **k)
        if ts is set:
            if has_sym(a) or any(deep_sym(x) for x in a):
                if name in ('add', 'update'):
                    # native set in place: keep concrete elements only
                    if name == 'add':
                        a = (E.cur.pin_deep(a[0]),) if not _conc_ok(a[0]) else (conc_deep(a[0]),)
                        return f(*a)
                    raise E.Unsupported('update of a native set')
                return getattr(SymSet(s), name)(*a, **k)
            if name in ('union', 'intersection', 'difference', 'issubset', 'issuperset', 'isdisjoint') and any(type(x) is SymSet for x in a):
                return getattr(SymSet(s), name)(*a, **k)
            return f(*a, **k)
        if ts is int or ts is float:
            if name == 'to_bytes':
                return f(*[concretize(x) for x in a], **k)
            return f(*[concretize(x) if is_sym(x) else x for x in a], **k)
        if isinstance(s, io.IOBase):
            if any_sym(a, k):
                return native_call(f, a, k)
            return f(*a, **k)
        if any_sym(a, k) and f not in SAFE_NATIVE:
            return native_call(f, a, k)
        return f(*a, **k)
    if t is type:
        m = MODELS.get(f)
        if m is not None:
            if f in ALWAYS or any_sym(a, k) or (f is type) or (f in (str, bytes, dict) and a and has_sym(a[0])):
                return m(*a, **k)
            if f is bytes and a and type(a[0]) not in (bytes, str, int, list, tuple):
                return m(*a, **k)
            if f is int and a and type(a[0]) is LogNum:
                return a[0].lazy_int()
            if f is int and a and type(a[0]) in (LogInt, LogDiv, LogOff):
                return int(a[0])
            return f(*a, **k)
        if f in (list, tuple, enumerate, zip, reversed, object, super, property):
            return f(*a, **k)
        if f is frozenset:
            return m_set(*a)
        return f(*a, **k)
    if t is types.MethodDescriptorType or t is types.WrapperDescriptorType:
        # bytes.hex(x), str.upper(x), int.to_bytes(x, ...)
        if a and isinstance(a[0], (SymSeq, SymSet)):
            return getattr(a[0], f.__name__)(*a[1:], **k)
        if a and isinstance(a[0], SymNum) and f.__name__ == 'to_bytes':
            return m_to_bytes(*a, **k)
        if a and type(a[0]) in (bytes, str, list, dict) and any_sym(a, k):
            return call(getattr(a[0], f.__name__), *a[1:], **k)
        if any_sym(a, k):
            return native_call(f, a, k)
        return f(*a, **k)
    m = None
    try:
        m = MODELS.get(f)
    except TypeError:
        pass
    if m is not None and (f in ALWAYS or any_sym(a, k)):
        return m(*a, **k)
    if t is functools.partial:
        return call(f.func, *f.args, *a, **{**f.keywords, **k})
    return f(*a, **k)


def _conc_ok(x):
    x = norm_key(x)
    if isinstance(x, SymNum):
        v = E.values_of(x)
        return v is not None
    return True


def conc_deep(x):
    t = type(x)
    if t in (SymNum, SymComplex, SymBool):
        return concretize(x)
    if isinstance(x, SymSeq):
        return x.concrete()
    if t is tuple:
        return tuple(conc_deep(y) for y in x)
    return x


def list_find(l, name, x, *a):
    if name == 'count':
        n = 0
        for y in l:
            if branch(eq(y, x)):
                n += 1
        return n
    if a:
        a = [concretize(v) for v in a]
        return l.index(x, *a)
    for i, y in enumerate(l):
        c = True if y is x else eq(y, x)
        if c is not False and branch(c):
            if name == 'index':
                return i
            del l[i]
            return None
    raise ValueError('list.remove(x): x not in list' if name == 'remove' else 'x is not in list')


def any_sym(a, k):
    for x in a:
        t = type(x)
        if t in SYMTYPES:
            return True
        if (t is list or t is tuple) and x:
            for y in x:
                if type(y) in SYMTYPES:
                    return True
                if type(y) is tuple or type(y) is list:
                    if has_sym(y):
                        return True
    if k:
        for x in k.values():
            if type(x) in SYMTYPES:
                return True
    return False


def native_call(f, a, k):
    """A function without a model: give it one feasible concrete argument list; the path is no longer exhaustive."""
    p = E.cur
    p.note_unsupported(f"native call {getattr(f, '__qualname__', f)}")
    a = [p.pin_deep(x) for x in a]
    k = {n: p.pin_deep(x) for n, x in k.items()}
    return f(*a, **k)


def exc_check(e):
    """At the entry of an except clause: refuse errors caused by the executor itself."""
    if isinstance(e, (TypeError, AttributeError, NotImplementedError, RecursionError)):
        m = str(e)
        if 'Sym' in m:
            raise E.Unsupported('executor: ' + m)
