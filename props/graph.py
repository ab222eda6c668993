"""Comparison of object graphs of two documents, by following both at the same time."""
import pdfsyntax as p
from props.common import *

CODING = ('/Length', '/Filter', '/DecodeParms')


class Graphs:
    """A correspondence of the objects of two documents, built while they are compared: one to one."""

    def __init__(self, c, a, b, label='', coding=True):
        self.c, self.a, self.b, self.label, self.coding = c, a, b, label, coding
        self.used = [{int(r.imag): r for r in p.in_use(d)} for d in (a, b)]
        self.there, self.back = {}, {}
        self.todo = []
        self.gone = set()     # numbers in the first document whose references become null
        self.adapt = {}       # number in the first document -> function that undoes an expected difference

    def strict(self, x):
        """Whether the coded form of a stream is kept."""
        return self.coding

    def value(self, doc, side, num):
        return p.get_object(doc, self.used[side][num])

    def same(self, x, y):
        """Compares two values, and later what they refer to."""
        c = self.c
        if isinstance(x, complex):
            n = int(x.imag)
            if n not in self.used[0] or n in self.gone:
                c.check(not isinstance(y, complex) and y in (None, 'null') or isinstance(y, complex) and int(y.imag) not in self.used[1], self.label + 'reference to nothing')
                return
            c.check(isinstance(y, complex), self.label + 'reference')
            m = int(y.imag)
            c.check(m in self.used[1], self.label + 'reference to an object in use')
            c.same(y, self.used[1][m], self.label + 'generation of a reference')
            if n in self.there:
                c.same(m, self.there[n], self.label + 'counterpart of a reference')
            else:
                c.check(m not in self.back, self.label + 'distinct objects are distinct')
                self.there[n] = m
                self.back[m] = n
                self.todo.append(n)
        elif isinstance(x, dict):
            c.check(isinstance(y, dict), self.label + 'dictionary')
            c.same(sorted(y), sorted(x), self.label + 'keys')
            for k in x:
                self.same(x[k], y[k])
        elif isinstance(x, list):
            c.check(isinstance(y, list), self.label + 'array')
            c.same(len(y), len(x), self.label + 'array length')
            for k in range(len(x)):
                self.same(x[k], y[k])
        elif type(x).__name__ == 'Stream':
            c.check(type(y).__name__ == 'Stream', self.label + 'stream')
            if self.strict(x):
                self.same(x.entries, y.entries)
                c.same(y.encoded, x.encoded, self.label + 'stream data')
            else:
                self.same({k: v for k, v in x.entries.items() if k not in CODING}, {k: v for k, v in y.entries.items() if k not in CODING})
                c.same(y.stream, x.stream, self.label + 'decoded stream data')
        else:
            c.check(not isinstance(y, (dict, list, complex)), self.label + 'scalar')
            c.same(y, x, self.label + 'value')

    def run(self):
        while self.todo:
            n = self.todo.pop()
            x, y = self.value(self.a, 0, n), self.value(self.b, 1, self.there[n])
            if n in self.adapt:
                y = self.adapt[n](y)
            self.same(x, y)
        return self.there
