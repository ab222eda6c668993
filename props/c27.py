"""Graphics and text state follow the operators."""
import pdfsyntax.graphics as g
from props.common import *

ID = [[1, 0, 0], [0, 1, 0], [0, 0, 1]]


def full(m):
    return [[m[0], m[1], 0], [m[2], m[3], 0], [m[4], m[5], 1]]


def mul(a, b):
    return [[sum([a[i][k] * b[k][j] for k in range(3)]) for j in range(3)] for i in range(3)]


def six(m):
    return [m[0][0], m[0][1], m[1][0], m[1][1], m[2][0], m[2][1]]


class Model:
    """State as the specification defines it."""

    def __init__(self):
        self.ctm = ID
        self.text = {'Tc': 0, 'Tw': 0, 'Th': 100, 'Tl': 0, 'Tf': None, 'Tfs': None, 'Tmode': 0, 'Trise': 0}
        self.tm = self.tlm = ID
        self.stack = []

    def move(self, x, y):
        self.tlm = mul([[1, 0, 0], [0, 1, 0], [x, y, 1]], self.tlm)
        self.tm = self.tlm

    def apply(self, cmd):
        op, a = cmd[-1], cmd[:-1]
        names = {'Tc': 'Tc', 'Tw': 'Tw', 'Tz': 'Th', 'TL': 'Tl', 'Tr': 'Tmode', 'Ts': 'Trise'}
        if op in names:
            self.text[names[op]] = a[0]
        elif op == 'Tf':
            self.text['Tf'], self.text['Tfs'] = a
        elif op == 'q':
            self.stack.append((self.ctm, dict(self.text)))
        elif op == 'Q':
            self.ctm, self.text = self.stack.pop()
        elif op == 'cm':
            self.ctm = mul(full(a), self.ctm)
        elif op == 'BT':
            self.tm = self.tlm = ID
        elif op == 'Td':
            self.move(a[0], a[1])
        elif op == 'TD':
            self.text['Tl'] = -a[1]
            self.move(a[0], a[1])
        elif op == 'Tm':
            self.tm = self.tlm = full(a)
        elif op == 'T*':
            self.move(0, -self.text['Tl'])
        elif op == "'":
            self.move(0, -self.text['Tl'])
        elif op == '"':
            self.text['Tw'], self.text['Tc'] = a[0], a[1]
            self.move(0, -self.text['Tl'])


def judge(c, model, stack, ts, label=''):
    c.close(stack[-1]['ctm'], six(model.ctm), label + 'transformation matrix')
    c.close(ts['tm'], six(model.tm), label + 'text matrix')
    c.close(ts['tlm'], six(model.tlm), label + 'line matrix')
    for k in model.text:
        if model.text[k] is None or isinstance(model.text[k], str):
            c.same(ts[k], model.text[k], label + 'font')
        else:
            c.close(ts[k], model.text[k], label + 'text parameter')
    c.same(len(stack), len(model.stack) + 1, label + 'nesting')
    if model.text['Tfs'] is not None:
        t = model.text
        want = mul(mul([[t['Tfs'] * t['Th'] / 100, 0, 0], [0, t['Tfs'], 0], [0, t['Trise'], 1]], model.tm), model.ctm)
        c.close(g.trm(ts, stack), six(want), label + 'text rendering matrix')


def number(c, n, frac=True):
    v = c.int(n, -1000, 1000)
    return v / 10 if frac else v


NARGS = {'q': 0, 'Q': 0, 'cm': 6, 'Tc': 1, 'Tw': 1, 'Tz': 1, 'TL': 1, 'Tr': 1, 'Ts': 1, 'BT': 0, 'ET': 0, 'Td': 2, 'TD': 2, 'Tm': 6, 'T*': 0, "'": 1, '"': 3, 'Tj': 1, 're': 4, 'f': 0}


def command(c, i, op, frac=True, sparse=False):
    if op == 'Tf':
        return [c.choice(f'f{i}', ['/F1', '/F2']), number(c, f'a{i}', frac), 'Tf']
    if op in ("'", 'Tj'):
        return [b'(x)', op]
    if op == '"':
        return [number(c, f'a{i}', frac), number(c, f'b{i}', frac), b'(x)', op]
    if sparse and NARGS[op] == 6:
        return [number(c, f'a{i}', frac), 0, 0, 1, number(c, f'e{i}', frac), number(c, f'f{i}', frac), op]
    return [number(c, f'{"abcdef"[k]}{i}', frac) for k in range(NARGS[op])] + [op]


def products(c, frac):
    """Products of any matrices: definition, identity and associativity."""
    m = [[number(c, f'm{i}{x}', frac) for x in 'abcdef'] for i in range(3)]
    c.close(g.multiply_matrices(m[0], m[1]), six(mul(full(m[0]), full(m[1]))), 'product')
    c.close(g.multiply_matrices(g.IDENTITY_MATRIX, m[0]), m[0], 'left identity')
    c.close(g.multiply_matrices(m[0], g.IDENTITY_MATRIX), m[0], 'right identity')
    a = g.multiply_matrices(g.multiply_matrices(m[0], m[1]), m[2])
    b = g.multiply_matrices(m[0], g.multiply_matrices(m[1], m[2]))
    c.close(a, b, 'associativity')
    c.same(g.IDENTITY_MATRIX, [1, 0, 0, 1, 0, 0], 'identity')


def run(c, ops, frac=True, sparse=False, start=()):
    model = Model()
    stack, ts = [], {}
    for i, op in enumerate(list(start) + list(ops)):
        if op == 'Q' and not model.stack:
            op = 'BT'
        cmd = command(c, i, op, frac, sparse)
        copy = list(cmd)
        g.apply_command(cmd, stack, ts)
        c.same(cmd, copy, 'operands kept')
        model.apply(cmd)
        judge(c, model, stack, ts)
    c.same(g.IDENTITY_MATRIX, [1, 0, 0, 1, 0, 0], 'identity')
    return model, stack, ts


ALL = ['q', 'Q', 'cm', 'Tc', 'Tw', 'Tz', 'TL', 'Tf', 'Tr', 'Ts', 'BT', 'Td', 'TD', 'Tm', 'T*', "'", '"', 'Tj', 'ET', 're']


def sequences(c, n, ops=ALL, start=(), sparse=True, frac=False):
    """All sequences of some operators, all operands."""
    run(c, [c.choice(f'op{i}', ops) for i in range(n)], frac, sparse, start)


def listed(c, ops, frac=True, sparse=False):
    """Long sequences."""
    run(c, ops.split(), frac, sparse)


LONG = ['q cm q cm Q cm Q cm', 'BT Tf Tz Ts TL Tm Td T* TD T* q cm Q', 'Tc Tw Tz TL Tf Tr Ts q Tc Tw Tz TL Tf Tr Ts Q BT T*', 'BT Tm Td Td TD \' " T* ET BT Td Tm Td', 'q q q cm Tf Q TL Q Ts Q Tf TL T*', 'BT TL " \' q TL T* Q T* Q',
        'q Tc ' * 6 + 'q cm Tf ' * 6 + 'Q ' * 12, 'BT Tm ' + "Td TD T* ' " * 8 + 'ET BT Td', 'cm q ' + 'Tm Td T* ' * 6 + 'Q BT Td', 'Tf TL ' + 'q Tf BT Td T* Q ' * 6]

CASES = [
    ('products', products, [dict(frac=True), dict(frac=False)], 'all matrices with operands from -1000 to 1000, integers or with one decimal (polynomial identities)'),
    ('listed', listed, [dict(ops=o, sparse=True) for o in LONG] + [dict(ops='cm q Tf Tm cm Tz Q'), dict(ops='BT Tf Tm cm Ts Td T*', frac=False)], 'the listed sequences, all operands'),
    ('sequences', sequences, {'quick': [dict(n=2), dict(n=2, frac=True, sparse=False), dict(n=3, ops=['q', 'Q', 'cm', 'Tm', 'Td', 'T*', 'TL', 'BT']), dict(n=2, ops=['Q', 'q', 'Tf', 'TL', 'cm', 'TD', "'", '"', 'Tz'], start=('Tf', 'q', 'TL')), dict(n=3)],
                              'thorough': [dict(n=3, start=('Tf', 'q', 'TL')), dict(n=4, ops=['q', 'Q', 'cm', 'Tm', 'Td', 'T*', 'TL', 'BT', 'Tf']), dict(n=5, ops=['q', 'Q', 'TL', 'T*', 'cm'])]}, 'all sequences of three operators of 20 kinds (thorough: six, the first of which are given, four of 9, five of 5), all integer operands'),
]
