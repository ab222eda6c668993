"""Inputs and oracles shared by the harnesses. Nothing here comes from the code under test."""

WS = b'\x00\t\n\x0c\r '
DELIM = b'()<>[]{}/%'
REGULAR = bytes([b for b in range(33, 127) if b not in b'()<>[]{}/%'])
LETTERS = b'abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ'
HEX = b'0123456789abcdefABCDEF'
DIGITS = b'0123456789'
PLAIN = bytes([b for b in range(256) if b not in b'()\\'])


def an_int(c, n, hi=10 ** 10):
    return c.int(n, -hi, hi)


def a_real(c, n, decimals=(1, 4, 6), hi=10 ** 9):
    d = c.choice(n + '.decimals', decimals)
    return c.int(n, -hi, hi) / 10 ** d


def a_name(c, n, lens=(1, 3)):
    k = c.choice(n + '.len', lens)
    return '/' + c.text(n, k, REGULAR)


# templates of literal string contents: * any byte but ( ) \, ? any byte at all (after a backslash)
LTEMPL = ['', '*', '**', '(*)', '*()*', '\\?', '*\\?*', '(\\?)', '\\?\\?']


def lstring_body(c, n, templates=LTEMPL):
    t = c.choice(n + '.shape', templates)
    out = b''
    for i, ch in enumerate(t):
        if ch == '*':
            out = out + c.bytes(f'{n}.{i}', 1, PLAIN)
        elif ch == '?':
            out = out + c.bytes(f'{n}.{i}', 1)
        else:
            out = out + ch.encode('ascii')
    return out


def a_lstring(c, n, templates=LTEMPL):
    return b'(' + lstring_body(c, n, templates) + b')'


def a_hstring(c, n, lens=(0, 1, 2, 3)):
    k = c.choice(n + '.len', lens)
    return b'<' + c.bytes(n, k, HEX + WS) + b'>'


def a_ref(c, n, hi=10 ** 9, ghi=65535):
    return complex(c.int(n + '.gen', 0, ghi), c.int(n + '.num', 0, hi))


KINDS = ['bool', 'null', 'int', 'real', 'name', 'lstring', 'hstring', 'ref']


def a_scalar(c, n, kinds=KINDS, small=False):
    k = c.choice(n + '.kind', kinds)
    if k == 'bool':
        return c.flag(n)
    if k == 'null':
        return 'null'
    if k == 'int':
        return c.int(n, -9, 99) if small else an_int(c, n)
    if k == 'real':
        return c.int(n, 100, 999) / 100 if small else a_real(c, n)
    if k == 'name':
        return a_name(c, n, (2,) if small else (1, 3))
    if k == 'lstring':
        return a_lstring(c, n, ['(*)', '\\?'] if small else LTEMPL)
    if k == 'hstring':
        return a_hstring(c, n, (2,) if small else (0, 1, 2, 3))
    if k == 'ref':
        return a_ref(c, n, 9 if small else 10 ** 9, 99 if small else 65535)
    raise ValueError(k)
