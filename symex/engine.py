"""Symbolic values and path exploration.

A path is one execution of a harness over symbolic values.  Each condition that
is not decided by the constraints collected so far is a decision: the executor
takes one side and the other one is explored by re-execution.

Constraints are kept in two forms:
 * exact finite domains (bit masks) for variables with few values (bytes, digits, choices),
 * linear/polynomial constraints handed to z3.
A variable that occurs in no z3 constraint is only constrained by its own domain, so a
domain decision on it is exact; everything else is decided by z3.
"""
from fractions import Fraction
import time

import z3

SMALL = 1024


class Abort(BaseException):
    """Ends the current path; never caught by code under test."""


class Infeasible(Abort):
    pass


class Unsupported(Abort):
    """Something the executor cannot represent."""


class StepLimit(Abort):
    """The path ran longer than the harness allows."""


class Inconclusive(Abort):
    """The solver did not answer."""


cur = None          # current Path


# --------------------------------------------------------------------------
# variables

class Var:
    __slots__ = ('id', 'name', 'lo', 'hi', 'real', 'small', 'base', 'table', 'full', 'z', 'key')

    def __init__(self, vid, name, lo, hi, real=False, base=None, table=None):
        self.id = vid
        self.name = name
        self.lo = lo
        self.hi = hi
        self.real = real
        self.base = base
        self.table = table
        self.small = (not real and lo is not None and hi is not None and hi - lo < SMALL)
        self.full = (1 << (hi - lo + 1)) - 1 if self.small else None
        self.z = None

    def __repr__(self):
        if self.base is not None:
            return f"T({self.base})"
        return f"{self.name}"


_interned = {}


def intern_var(vid, name, lo, hi, real=False):
    k = (vid, name, lo, hi, real)
    v = _interned.get(k)
    if v is None:
        v = _interned[k] = Var(vid, name, lo, hi, real)
    return v


_tabs = {}


def tab_var(base, table):
    k = (base, table)
    v = _tabs.get(k)
    if v is None:
        v = _tabs[k] = Var(base.id, f"T{len(_tabs)}({base.name})", min(table), max(table), False, base, table)
    return v


def mask_min(m):
    return (m & -m).bit_length() - 1


def mask_max(m):
    return m.bit_length() - 1


_runs_cache = {}


def mask_runs(m):
    r = _runs_cache.get(m)
    if r is None:
        r = []
        i = 0
        mm = m
        while mm:
            s = mask_min(mm)
            mm >>= s
            i += s
            e = mask_min(~mm)
            r.append((i, i + e - 1))
            mm >>= e
            i += e
        _runs_cache[m] = r
    return r


# --------------------------------------------------------------------------
# numbers

def is_int_like(x):
    return type(x) is int or type(x) is bool


def to_const(x):
    if type(x) is float:
        if x != x or x in (float('inf'), float('-inf')):
            raise Unsupported('non finite float in arithmetic')
        f = Fraction(repr(x))       # floats stand for their shortest decimal
        return f.numerator if f.denominator == 1 else f
    if type(x) is bool:
        return int(x)
    if type(x) is Fraction and x.denominator == 1:
        return x.numerator
    return x


def fold(f):
    """Turn an exact constant into a Python number of float type."""
    return float(f)


def key_vars(k):
    return k if type(k) is tuple else (k,)


def mul_keys(a, b):
    l = list(key_vars(a)) + list(key_vars(b))
    l.sort(key=lambda v: (v.id, v.name))
    return tuple(l)


class SymNum:
    """Polynomial over variables; f tells the Python type (float or int)."""
    __slots__ = ('t', 'c', 'f', '_k')

    def __init__(self, t, c, f=False):
        self.t = t
        self.c = c
        self.f = f
        self._k = None

    # --- construction
    @staticmethod
    def make(t, c, f=False):
        if not t:
            if f:
                return fold(c)
            if type(c) is Fraction:
                if c.denominator != 1:
                    return float(c)
                c = c.numerator
            return c
        return SymNum(t, c, f)

    def key(self):
        if self._k is None:
            if len(self.t) == 1:
                self._k = (tuple(self.t.items()), self.c)
            else:
                self._k = (tuple(sorted(self.t.items(), key=lambda kv: (len(key_vars(kv[0])), [(v.id, v.name) for v in key_vars(kv[0])]))), self.c)
        return self._k

    def __repr__(self):
        return "SymNum(" + " + ".join(f"{c}*{k}" for k, c in self.t.items()) + f" + {self.c})"

    # --- arithmetic
    def _bin(self, o, sign):
        to = type(o)
        if to is SymNum:
            t = dict(self.t)
            for k, c in o.t.items():
                n = t.get(k, 0) + sign * c
                if n == 0:
                    del t[k]
                else:
                    t[k] = n
            return SymNum.make(t, to_const(self.c + sign * o.c), self.f or o.f)
        if to is int or to is bool:
            return SymNum(self.t, self.c + sign * o, self.f)
        if to is float or to is Fraction:
            return SymNum(self.t, to_const(self.c + sign * to_const(o)), True)
        if to is complex:
            return SymComplex(self + sign * o.real, sign * o.imag) if o.real else SymComplex(self, sign * o.imag)
        if to is SymBool:
            return self._bin(int(bool(o)), sign)
        return NotImplemented

    def __add__(self, o):
        return self._bin(o, 1)

    __radd__ = __add__

    def __sub__(self, o):
        return self._bin(o, -1)

    def __rsub__(self, o):
        return (-self).__add__(o)

    def __neg__(self):
        return SymNum({k: -c for k, c in self.t.items()}, -self.c, self.f)

    def __pos__(self):
        return self

    def __abs__(self):
        if self < 0:
            return -self
        return self

    def __mul__(self, o):
        to = type(o)
        if to is int or to is bool or to is float or to is Fraction:
            x = to_const(o)
            f = self.f or to is float or to is Fraction
            if x == 0:
                return 0.0 if f else 0
            return SymNum({k: to_const(c * x) for k, c in self.t.items()}, to_const(self.c * x), f)
        if to is SymNum:
            t = {}
            for k1, c1 in self.t.items():
                for k2, c2 in o.t.items():
                    k = mul_keys(k1, k2)
                    n = t.get(k, 0) + c1 * c2
                    if n == 0:
                        t.pop(k, None)
                    else:
                        t[k] = to_const(n)
            r = SymNum.make(t, 0)
            r = r + SymNum.make({k: to_const(c * o.c) for k, c in self.t.items() if c * o.c != 0}, 0)
            r = r + SymNum.make({k: to_const(c * self.c) for k, c in o.t.items() if c * self.c != 0}, 0)
            r = r + to_const(self.c * o.c)
            return as_float(r) if (self.f or o.f) else r
        if to is complex:
            if o.real == 0:
                return SymComplex(0.0, self * o.imag)
            return SymComplex(self * o.real, self * o.imag)
        if to in (bytes, str, list, tuple):
            return o * concretize(self)
        if isinstance(o, SymSeq):
            return o * concretize(self)
        return NotImplemented

    __rmul__ = __mul__

    def __truediv__(self, o):
        to = type(o)
        if to is int or to is float or to is Fraction or to is bool:
            x = to_const(o)
            if x == 0:
                raise ZeroDivisionError('division by zero')
            return as_float(self * Fraction(1, 1) * (Fraction(1) / x))
        if to is SymNum:
            return sym_div(self, o)
        return NotImplemented

    def __rtruediv__(self, o):
        if type(o) in (int, float, bool, Fraction):
            return sym_div(o, self)
        return NotImplemented

    def __floordiv__(self, o):
        return num_divmod(self, o)[0]

    def __rfloordiv__(self, o):
        return num_divmod(o, self)[0]

    def __mod__(self, o):
        return num_divmod(self, o)[1]

    def __rmod__(self, o):
        return num_divmod(o, self)[1]

    def __divmod__(self, o):
        return num_divmod(self, o)

    def __rdivmod__(self, o):
        return num_divmod(o, self)

    def __pow__(self, o, m=None):
        if type(o) is int and m is None and 0 <= o <= 4:
            r = 1
            for _ in range(o):
                r = r * self
            return r
        return self._pin() ** o if m is None else pow(self._pin(), o, m)

    def __rpow__(self, o):
        return o ** concretize(self)

    def _pin(self):
        return concretize(self)

    def __lshift__(self, o):
        return self * (1 << concretize(o))

    def __rlshift__(self, o):
        return o << concretize(self)

    def __rshift__(self, o):
        return self // (1 << concretize(o))

    def __rrshift__(self, o):
        return o >> concretize(self)

    def _bit(self, o, fn):
        a, b = norm(self), norm(o)
        r = apply_unary2(a, b, fn)
        if r is not None:
            return r
        return fn(concretize(a), concretize(b))

    def __and__(self, o):
        if isinstance(o, SymBool):
            o = int(bool(o))
        if type(o) not in (int, SymNum, bool):
            return NotImplemented
        if is_int_like(o) and o >= 0 and (o & (o + 1)) == 0:
            return self % (o + 1)
        if is_int_like(o) and o > 0 and single_small(norm(self)) is None:
            low = o & -o
            if ((o // low) & (o // low + 1)) == 0:
                return ((self // low) % (o // low + 1)) * low
        return self._bit(o, lambda a, b: a & b)

    __rand__ = __and__

    def __or__(self, o):
        if type(o) not in (int, SymNum, bool):
            return NotImplemented
        a, b = norm(self), norm(o)
        # disjoint bit ranges: a multiple of 2^k, b < 2^k
        for x, y in ((a, b), (b, a)):
            if isinstance(x, SymNum) and not x.f:
                lo, hi = rng(y)
                if lo is not None and hi is not None and lo >= 0:
                    p = 1 << int(hi).bit_length()
                    if x.c % p == 0 and all(type(c) is int and c % p == 0 for c in x.t.values()) and rng(x)[0] is not None and rng(x)[0] >= 0:
                        return x + y
        return self._bit(o, lambda a, b: a | b)

    __ror__ = __or__

    def __xor__(self, o):
        if type(o) not in (int, SymNum, bool):
            return NotImplemented
        return self._bit(o, lambda a, b: a ^ b)

    __rxor__ = __xor__

    def __invert__(self):
        return -self - 1

    # --- comparisons
    def _cmp(self, o, op):
        to = type(o)
        if to is SymNum or to is int or to is bool or to is float or to is Fraction:
            if to is float and (o != o or o in (float('inf'), float('-inf'))):
                if o != o:
                    return op == '!='
                pos = o > 0
                return {'<': pos, '<=': pos, '>': not pos, '>=': not pos, '==': False, '!=': True}[op]
            d = self - o if to is not float else self - Fraction(repr(o))
            return cmp0(d, op)
        if to is SymBool:
            return self._cmp(int(bool(o)), op)
        return NotImplemented

    def __eq__(self, o):
        if type(o) is complex or type(o) is SymComplex:
            return SymComplex(self, 0.0) == o
        r = self._cmp(o, '==')
        return r

    def __ne__(self, o):
        if type(o) is complex or type(o) is SymComplex:
            return bnot(SymComplex(self, 0.0) == o)
        return self._cmp(o, '!=')

    def __lt__(self, o):
        return self._cmp(o, '<')

    def __le__(self, o):
        return self._cmp(o, '<=')

    def __gt__(self, o):
        return self._cmp(o, '>')

    def __ge__(self, o):
        return self._cmp(o, '>=')

    # --- conversions that need one value
    def __bool__(self):
        return branch(self._cmp(0, '!='))

    def __hash__(self):
        return hash(concretize(self))

    def __index__(self):
        if self.f:
            raise TypeError("'float' object cannot be interpreted as an integer")
        return concretize(self)

    def __int__(self):
        return int(concretize(self))

    def __float__(self):
        return float(concretize(self))

    def __round__(self, n=None):
        if n is None and not self.f:
            return self
        return round(concretize(self), n) if n is not None else round(concretize(self))

    def __trunc__(self):
        return num_int(self)

    def __floor__(self):
        return num_floor(self)

    def __ceil__(self):
        return -num_floor(-self)

    def __format__(self, spec):
        return format(concretize(self), spec)

    def __str__(self):
        return str(concretize(self))

    @property
    def real(self):
        return self

    @property
    def imag(self):
        return 0.0 if self.f else 0

    @property
    def numerator(self):
        if self.f:
            raise AttributeError("'float' object has no attribute 'numerator'")
        return self

    @property
    def denominator(self):
        if self.f:
            raise AttributeError("'float' object has no attribute 'denominator'")
        return 1

    def is_integer(self):
        if not self.f:
            return True
        return num_floor(self) == self

    def as_integer_ratio(self):
        return concretize(self).as_integer_ratio()

    def conjugate(self):
        return self

    def bit_length(self):
        x = abs(self)
        k = 0
        while x >= (1 << k):
            k += 1
        return k

    def to_bytes(self, length=1, byteorder='big', signed=False):
        if signed:
            return concretize(self).to_bytes(length, byteorder, signed=True)
        length = concretize(length)
        if self < 0:
            raise OverflowError("can't convert negative int to unsigned")
        if self >= 256 ** length:
            raise OverflowError("int too big to convert")
        ds = radix_digits(self, 256, length)
        if byteorder == 'big':
            ds = ds[::-1]
        return seq_of(bytes, ds)

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self

    def __reduce__(self):
        raise Unsupported('pickle of symbolic number')


def as_float(x):
    if isinstance(x, SymNum):
        return SymNum(x.t, x.c, True)
    return float(x)


class SymComplex:
    __slots__ = ('re', 'im')

    def __init__(self, re, im):
        self.re = re
        self.im = im

    @staticmethod
    def make(re, im):
        re, im = norm(re), norm(im)
        if not is_sym(re) and not is_sym(im):
            return complex(re, im)
        return SymComplex(re, im)

    @property
    def real(self):
        return as_float(norm(self.re))

    @property
    def imag(self):
        return as_float(norm(self.im))

    def __repr__(self):
        return f"SymComplex({self.re!r}, {self.im!r})"

    def _other(self, o):
        if type(o) is complex:
            return o.real, o.imag
        if type(o) is SymComplex:
            return o.re, o.im
        if type(o) in (int, float, bool, SymNum):
            return o, 0
        return None

    def __eq__(self, o):
        p = self._other(o)
        if p is None:
            return NotImplemented
        return mk_and([eq(self.im, p[1]), eq(self.re, p[0])])

    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else bnot(r)

    def __add__(self, o):
        p = self._other(o)
        if p is None:
            return NotImplemented
        return SymComplex.make(self.re + p[0], self.im + p[1])

    __radd__ = __add__

    def __sub__(self, o):
        p = self._other(o)
        if p is None:
            return NotImplemented
        return SymComplex.make(self.re - p[0], self.im - p[1])

    def __mul__(self, o):
        p = self._other(o)
        if p is None:
            return NotImplemented
        a, b = self.re, self.im
        c, d = p
        return SymComplex.make(a * c - b * d, a * d + b * c)

    __rmul__ = __mul__

    def __neg__(self):
        return SymComplex.make(-self.re, -self.im)

    def __bool__(self):
        return not branch(self == 0)

    def __hash__(self):
        return hash(complex(concretize(self.re), concretize(self.im)))

    def __complex__(self):
        return complex(concretize(self.re), concretize(self.im))

    def __str__(self):
        return str(complex(self))

    def __format__(self, s):
        return format(complex(self), s)

    def conjugate(self):
        return SymComplex.make(self.re, -self.im)

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self


# --------------------------------------------------------------------------
# booleans

class SymBool:
    """k: 'm' (var, mask) | 'c' (poly, op in == != <= <) | 'a'/'o' (list)."""
    __slots__ = ('k', 'x', 'y')

    def __init__(self, k, x, y=None):
        self.k = k
        self.x = x
        self.y = y

    def __bool__(self):
        return branch(self)

    def __repr__(self):
        return f"SymBool({self.k},{self.x},{self.y})"

    def __and__(self, o):
        if isinstance(o, (bool, SymBool)):
            return mk_and([self, o])
        return NotImplemented

    __rand__ = __and__

    def __or__(self, o):
        if isinstance(o, (bool, SymBool)):
            return mk_or([self, o])
        return NotImplemented

    __ror__ = __or__

    def __invert__(self):
        return bnot(self)

    def __eq__(self, o):
        if isinstance(o, bool):
            return self if o else bnot(self)
        if isinstance(o, (int, float)):
            return bool(self) == o
        if isinstance(o, SymBool):
            return bool(self) == bool(o)
        return NotImplemented

    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else bnot(r)

    def __hash__(self):
        return hash(bool(self))

    def __int__(self):
        return int(bool(self))

    __index__ = __int__

    def __add__(self, o):
        return int(bool(self)) + o

    __radd__ = __add__

    def __mul__(self, o):
        return int(bool(self)) * o

    __rmul__ = __mul__

    def __sub__(self, o):
        return int(bool(self)) - o

    def __rsub__(self, o):
        return o - int(bool(self))

    def __str__(self):
        return str(bool(self))

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self


def mk_mask(var, mask):
    d = cur.dom.get(var)
    if d is None:
        d = var.full
    m = d & mask
    if not m:
        return False
    if m == d:
        return True
    return SymBool('m', var, mask)


_cmp_cache = {}


def cmp0(p, op):
    """p op 0 for a (possibly constant) number."""
    p = norm(p)
    if not isinstance(p, SymNum):
        if op == '==':
            return p == 0
        if op == '!=':
            return p != 0
        if op == '<':
            return p < 0
        if op == '<=':
            return p <= 0
        if op == '>':
            return p > 0
        return p >= 0
    if op == '>':
        p, op = -p, '<'
    elif op == '>=':
        p, op = -p, '<='
    b = single_small(p)
    if b is not None:
        k = (p.key(), op)
        m = _cmp_cache.get(k)
        if m is None:
            tab = unary_table(p, b)
            m = 0
            for i, v in enumerate(tab):
                if (v == 0 if op == '==' else v != 0 if op == '!=' else v < 0 if op == '<' else v <= 0):
                    m |= 1 << i
            _cmp_cache[k] = m
        return mk_mask(b, m)
    lo, hi = rng(p)
    if op == '==' or op == '!=':
        r = None
        if (lo is not None and lo > 0) or (hi is not None and hi < 0):
            r = False
        elif lo is not None and lo == hi == 0:
            r = True
        else:
            # divisibility
            if all(type(c) is int for c in p.t.values()) and all(not v.real for k in p.t for v in key_vars(k)):
                from math import gcd
                g = 0
                for c in p.t.values():
                    g = gcd(g, c)
                if type(p.c) is not int or (g and p.c % g):
                    r = False
        if r is not None:
            return r if op == '==' else not r
        return SymBool('c', p, op)
    if op == '<':
        if hi is not None and hi < 0:
            return True
        if lo is not None and lo >= 0:
            return False
    else:
        if hi is not None and hi <= 0:
            return True
        if lo is not None and lo > 0:
            return False
    return SymBool('c', p, op)


def bnot(b):
    if b is True or b is False:
        return not b
    if not isinstance(b, SymBool):
        return not b
    if b.k == 'm':
        return mk_mask(b.x, b.x.full & ~b.y)
    if b.k == 'c':
        op = b.y
        if op == '==':
            return SymBool('c', b.x, '!=')
        if op == '!=':
            return SymBool('c', b.x, '==')
        if op == '<':
            return SymBool('c', -b.x, '<=')
        return SymBool('c', -b.x, '<')
    if b.k == 'a':
        return mk_or([bnot(x) for x in b.x])
    return mk_and([bnot(x) for x in b.x])


def mk_and(l):
    out = []
    masks = {}
    for b in l:
        if b is True:
            continue
        if b is False:
            return False
        if not isinstance(b, SymBool):
            if not b:
                return False
            continue
        if b.k == 'a':
            sub = b.x
        else:
            sub = (b,)
        for s in sub:
            if s.k == 'm':
                if s.x in masks:
                    i, m = masks[s.x]
                    m &= s.y
                    r = mk_mask(s.x, m)
                    if r is False:
                        return False
                    masks[s.x] = (i, m)
                    out[i] = r if r is not True else None
                    if r is True:
                        del masks[s.x]
                else:
                    masks[s.x] = (len(out), s.y)
                    out.append(s)
            else:
                out.append(s)
    out = [o for o in out if o is not None]
    if not out:
        return True
    if len(out) == 1:
        return out[0]
    return SymBool('a', out)


def mk_or(l):
    out = []
    masks = {}
    for b in l:
        if b is False:
            continue
        if b is True:
            return True
        if not isinstance(b, SymBool):
            if b:
                return True
            continue
        sub = b.x if b.k == 'o' else (b,)
        for s in sub:
            if s.k == 'm':
                if s.x in masks:
                    i, m = masks[s.x]
                    m |= s.y
                    r = mk_mask(s.x, m)
                    if r is True:
                        return True
                    masks[s.x] = (i, m)
                    out[i] = r
                else:
                    masks[s.x] = (len(out), s.y)
                    out.append(s)
            else:
                out.append(s)
    if not out:
        return False
    if len(out) == 1:
        return out[0]
    return SymBool('o', out)


def eval3(b):
    """True/False if decided by domains, else None."""
    if b is True or b is False:
        return b
    k = b.k
    if k == 'm':
        d = cur.dom.get(b.x)
        if d is None:
            d = b.x.full
        m = d & b.y
        if not m:
            return False
        if m == d:
            return True
        return None
    if k == 'c':
        r = cmp0(b.x, b.y)
        return r if r is True or r is False else None
    if k == 'a':
        un = False
        for x in b.x:
            r = eval3(x)
            if r is False:
                return False
            if r is None:
                un = True
        return None if un else True
    un = False
    for x in b.x:
        r = eval3(x)
        if r is True:
            return True
        if r is None:
            un = True
    return None if un else False


def refresh(b):
    """Re-simplify a condition against the current domains."""
    if b is True or b is False or not isinstance(b, SymBool):
        return b
    if b.k == 'm':
        v = b.x
        s = cur.subst.get(v)
        if s is not None and not isinstance(s, SymNum):
            return bool((b.y >> (s - v.lo)) & 1)
        return mk_mask(v, b.y)
    if b.k == 'c':
        return cmp0(b.x, b.y)
    if b.k == 'a':
        return mk_and([refresh(x) for x in b.x])
    return mk_or([refresh(x) for x in b.x])


def branch(b):
    """Decide a condition on this path."""
    if b is True or b is False:
        return b
    if not isinstance(b, SymBool):
        return bool(b)
    p = cur
    b = refresh(b)
    if b is True or b is False:
        return b
    k = b.k
    if k == 'a':
        for x in b.x:
            if not branch(x):
                return False
        return True
    if k == 'o':
        for x in b.x:
            if branch(x):
                return True
        return False
    if k == 'm':
        v = b.x
        d = p.dom.get(v, v.full)
        if v in p.zmention:
            ch = p.fork(2, lambda i: p.zfeasible(b if i == 0 else bnot(b)))
        else:
            ch = p.fork(2, None)
        p.set_mask(v, d & b.y if ch == 0 else d & ~b.y)
        return ch == 0
    nb = bnot(b)
    ex = p.exact_bound(b)
    ch = p.fork(2, None if ex else (lambda i: p.zfeasible(b if i == 0 else nb)))
    p.add(b if ch == 0 else nb)
    return ch == 0


# --------------------------------------------------------------------------
# normalisation, ranges, tables

def norm(x):
    """Apply the substitutions of the current path."""
    if type(x) is not SymNum:
        if type(x) is SymComplex:
            return SymComplex.make(x.re, x.im)
        return x
    s = cur.subst
    if not s:
        return x
    hit = False
    for k in x.t:
        if type(k) is tuple:
            for v in k:
                if v in s or (v.base is not None and v.base in s):
                    hit = True
                    break
        elif k in s or (k.base is not None and k.base in s):
            hit = True
        if hit:
            break
    if not hit:
        return x
    r = SymNum.make({}, x.c, False) if type(x.c) is int else x.c
    rest = {}
    for k, c in x.t.items():
        term = None
        if type(k) is tuple:
            ok = any(v in s or (v.base is not None and v.base in s) for v in k)
            if ok:
                term = 1
                for v in k:
                    term = term * subst_var(v)
        elif k in s or (k.base is not None and k.base in s):
            term = subst_var(k)
        if term is None:
            rest[k] = c
        else:
            r = r + term * c
    if rest:
        r = r + SymNum(rest, 0)
    if isinstance(r, SymNum):
        r = norm(r)
    if x.f:
        r = as_float(r)
    elif type(r) is Fraction or type(r) is float:
        r = to_const(r)
        if type(r) is Fraction:
            r = float(r)
    return r


def subst_var(v):
    s = cur.subst
    if v.base is not None:
        b = s.get(v.base)
        if b is None:
            return SymNum({v: 1}, 0)
        if isinstance(b, SymNum):
            raise Unsupported('table over a substituted variable')
        return v.table[b - v.base.lo]
    b = s.get(v)
    return SymNum({v: 1}, 0) if b is None else b


def single_small(p):
    """The only small base variable p depends on, or None."""
    if type(p) is not SymNum:
        return None
    b = None
    for k in p.t:
        if type(k) is tuple:
            for v in k:
                w = v.base or v
                if not w.small or (b is not None and w is not b):
                    return None
                b = w
        else:
            w = k.base or k
            if not w.small or (b is not None and w is not b):
                return None
            b = w
    return b


_tab_cache = {}


def unary_table(p, b):
    k = p.key()
    r = _tab_cache.get(k)
    if r is None:
        n = b.hi - b.lo + 1
        acc = [p.c] * n
        for key, c in p.t.items():
            vals = None
            for v in key_vars(key):
                tv = v.table if v.base is not None else range(b.lo, b.hi + 1)
                vals = list(tv) if vals is None else [x * y for x, y in zip(vals, tv)]
            acc = [a + c * x for a, x in zip(acc, vals)]
        r = _tab_cache[k] = tuple(to_const(a) if type(a) is Fraction else a for a in acc)
    return r


def var_range(v):
    if v.small:
        if v.base is not None:
            m = cur.dom.get(v.base, v.base.full)
            if m == v.base.full:
                return v.lo, v.hi
            vals = [v.table[i] for a, e in mask_runs(m) for i in range(a, e + 1)]
            return min(vals), max(vals)
        m = cur.dom.get(v)
        if m is None:
            return v.lo, v.hi
        return v.lo + mask_min(m), v.lo + mask_max(m)
    if v.base is not None:
        m = cur.dom.get(v.base, v.base.full)
        vals = [v.table[i] for a, e in mask_runs(m) for i in range(a, e + 1)]
        return min(vals), max(vals)
    b = cur.bounds.get(v)
    if b is None:
        return v.lo, v.hi
    return b


def _mulr(a, b):
    if None in a or None in b:
        return (None, None)
    l = [a[0] * b[0], a[0] * b[1], a[1] * b[0], a[1] * b[1]]
    return min(l), max(l)


def rng(p):
    """Interval of a number under the current domains."""
    if not isinstance(p, SymNum):
        return p, p
    lo = hi = p.c
    groups = None
    for k, c in p.t.items():
        if type(k) is tuple:
            r = (1, 1)
            for v in k:
                r = _mulr(r, var_range(v))
            a, b = r
        else:
            if k.base is not None:
                # group terms over the same base
                groups = groups or {}
                groups.setdefault(k.base, []).append((k, c))
                continue
            if groups is None and len(p.t) > 1:
                pass
            a, b = var_range(k)
        if c < 0:
            a, b = b, a
        lo = None if lo is None or a is None else lo + c * a
        hi = None if hi is None or b is None else hi + c * b
    if groups:
        for base, terms in groups.items():
            q = SymNum(dict(terms), 0)
            tab = unary_table(q, base)
            m = cur.dom.get(base, base.full)
            vals = [tab[i] for a, e in mask_runs(m) for i in range(a, e + 1)]
            lo = None if lo is None else lo + min(vals)
            hi = None if hi is None else hi + max(vals)
    return lo, hi


def apply_unary(p, fn):
    """Table of fn over the values of p; None if p is not over one small variable.

    fn must return an int (or Fraction) for each feasible value; values outside the domain are not evaluated.
    """
    p = norm(p)
    if not isinstance(p, SymNum):
        return fn(p)
    b = single_small(p)
    if b is None:
        return None
    tab = unary_table(p, b)
    m = cur.dom.get(b, b.full)
    first = None
    out = []
    for i, v in enumerate(tab):
        if (m >> i) & 1:
            r = fn(v)
            if type(r) is bool:
                r = int(r)
            if first is None:
                first = r
        else:
            r = None
        out.append(r)
    return table_num(b, out, first)


def table_num(b, out, first):
    """Number with value out[i] when b has its i-th value (None: not feasible)."""
    d = None
    const = True
    affine = True
    for i, r in enumerate(out):
        if r is None:
            continue
        if r != first:
            const = False
        if d is None:
            d = r - (b.lo + i)
        elif r - (b.lo + i) != d:
            affine = False
    if const:
        return first
    if affine:
        return SymNum({b: 1}, d)
    t = tuple(first if r is None else r for r in out)
    return SymNum({tab_var(b, t): 1}, 0)


def small_alias(p, lo, hi):
    """A small variable equal to p, which is known to be within lo..hi."""
    key = ('alias', p.key(), lo, hi)
    v = cur.memo.get(key)
    if v is None:
        v = cur.fresh('h', lo, hi)
        cur.add(cmp0(p - v, '=='))
        cur.memo[key] = v
    return v


def apply_unary2(a, b, fn):
    ba, bb = single_small(a), single_small(b)
    if ba is None and bb is None:
        return None
    if isinstance(a, SymNum) and ba is None or isinstance(b, SymNum) and bb is None:
        return None
    if ba is not None and bb is not None and ba is not bb:
        return None
    base = ba or bb
    n = base.hi - base.lo + 1
    ta = unary_table(a, base) if ba is not None else (a,) * n
    tb = unary_table(b, base) if bb is not None else (b,) * n
    m = cur.dom.get(base, base.full)
    out = [None] * n
    first = None
    for i in range(n):
        if (m >> i) & 1:
            r = fn(ta[i], tb[i])
            if first is None:
                first = r
            out[i] = r
    return table_num(base, out, first)


def values_of(p):
    """Distinct feasible values of a number over one small variable."""
    b = single_small(p)
    if b is None:
        return None
    tab = unary_table(p, b)
    m = cur.dom.get(b, b.full)
    return sorted({tab[i] for a, e in mask_runs(m) for i in range(a, e + 1)})


CONC_CAP = 400


def concretize(x, why='value needed'):
    """Case split on all values of a number."""
    if isinstance(x, SymBool):
        return bool(x)
    x = norm(x)
    if not isinstance(x, SymNum):
        if isinstance(x, SymComplex):
            return complex(concretize(x.re), concretize(x.im))
        return x
    p = cur
    p.note_conc(why)
    b = single_small(x)
    if b is not None:
        vals = values_of(x)
        conds = [cmp0(x - v, '==') for v in vals]
        conds = [c for c in conds]
        exact = b not in p.zmention
        ch = p.fork(len(vals), None if exact else (lambda i: p.zfeasible(conds[i])))
        p.add(conds[ch])
        v = vals[ch]
    else:
        lo, hi = rng(x)
        if lo is not None and hi is not None and hi - lo < CONC_CAP and not any(kv.real for k in x.t for kv in key_vars(k)) and all(type(c) is int for c in x.t.values()):
            n = int(hi - lo + 1)
            ch = p.fork(n, lambda i: p.zfeasible(cmp0(x - (lo + i), '==')))
            v = lo + ch
            p.add(cmp0(x - v, '=='))
        else:
            v = p.pin(x, why)
    if x.f:
        return float(v)
    return v


# --------------------------------------------------------------------------
# arithmetic needing fresh variables

def is_integral(p):
    """p only takes integer values, syntactically."""
    return type(p.c) is int and all(type(c) is int and all(not v.real for v in key_vars(k)) for k, c in p.t.items())


def num_divmod(a, b):
    f = any(isinstance(x, float) or (isinstance(x, SymNum) and x.f) for x in (a, b))
    for x in (a, b):
        if not isinstance(x, (int, float, SymNum, Fraction)):
            return (NotImplemented, NotImplemented)
    a, b = norm(a), norm(b)
    if not isinstance(a, SymNum) and not isinstance(b, SymNum):
        return divmod(a, b)
    if isinstance(b, SymNum):
        r = apply_unary2(a, b, lambda x, y: 1)
        if r is not None and branch(cmp0(b, '!=')):
            a, b = norm(a), norm(b)
            if isinstance(b, SymNum) or isinstance(a, SymNum):
                q = apply_unary2(a, b, lambda x, y: x // y)
                m = apply_unary2(a, b, lambda x, y: x % y)
            else:
                q, m = a // b, a % b
            return (as_float(q), as_float(m)) if f else (q, m)
        if not branch(cmp0(b, '!=')):
            raise ZeroDivisionError('integer modulo by zero')
        b = norm(b)
        if isinstance(b, SymNum):
            lo, hi = rng(b)
            if single_small(b) is not None and lo is not None and hi - lo < 40:
                b = concretize(b)
            else:
                key = ('dm2', a.key() if isinstance(a, SymNum) else a, b.key())
                r = cur.memo.get(key)
                if r is None:
                    q = cur.fresh('q', None, None)
                    m = a - q * b
                    if branch(cmp0(b, '>')):
                        cur.assume(mk_and([cmp0(m, '>='), cmp0(m - b, '<')]))
                    else:
                        cur.assume(mk_and([cmp0(m, '<='), cmp0(m - b, '>')]))
                    r = cur.memo[key] = (q, m)
                return (as_float(r[0]), as_float(r[1])) if f else r
    if not isinstance(a, SymNum):
        return divmod(a, b)
    c = to_const(b)
    if c == 0:
        raise ZeroDivisionError('integer division or modulo by zero')
    if c < 0:
        q, m = num_divmod(-a, -c)
        return (q, -m) if not f else (as_float(q), as_float(-m))
    if single_small(a) is not None:
        q = apply_unary(a, lambda x: int(x // c) if type(x) is not int or type(c) is not int else x // c)
        m = a - q * c
        return (as_float(q), as_float(m)) if f else (q, m)
    lo, hi = rng(a)
    if lo is not None and hi is not None:
        ql, qh = lo // c, hi // c
        if ql == qh:
            return (as_float(ql), as_float(a - ql * c)) if f else (ql, a - ql * c)
    if is_integral(a) and type(c) is int:
        # a = c*A + B with 0 <= B < c
        A, B = {}, {}
        for k, co in a.t.items():
            if co % c == 0:
                A[k] = co // c
            else:
                B[k] = co
        B0 = SymNum.make(B, a.c)
        l2, h2 = rng(B0)
        if l2 is not None and h2 is not None and A:
            s = l2 // c
            if h2 // c == s:
                q = SymNum.make(A, s)
                m = B0 - s * c
                return (as_float(q), as_float(m)) if f else (q, m)
    key = ('dm', a.key(), c)
    r = cur.memo.get(key)
    if r is None:
        ql = None if lo is None else int(lo // c)
        qh = None if hi is None else int(hi // c)
        q = cur.fresh('q', ql, qh)
        m = a - q * c
        cur.assume(mk_and([cmp0(m, '>='), cmp0(m - c, '<')]))
        if is_integral(a) and type(c) is int and c <= SMALL:
            r0 = cur.fresh('r', 0, c - 1)
            cur.assume(cmp0(m - r0, '=='))
            m = r0
        r = cur.memo[key] = (q, m)
    return (as_float(r[0]), as_float(r[1])) if f else r


def num_floor(x):
    x = norm(x)
    if not isinstance(x, SymNum):
        import math
        return math.floor(x)
    if is_integral(x):
        return SymNum(x.t, x.c, False)
    if single_small(x) is not None:
        import math
        return apply_unary(x, lambda v: math.floor(v))
    q, _ = num_divmod(SymNum(x.t, x.c, False), 1)
    return q


def num_int(x):
    """int(x) of a number: truncation."""
    x = norm(x)
    if not isinstance(x, SymNum):
        return int(x)
    if is_integral(x):
        return SymNum(x.t, x.c, False)
    if single_small(x) is not None:
        return apply_unary(x, lambda v: int(v))
    if branch(cmp0(x, '>=')):
        return num_floor(x)
    return -num_floor(-x)


def sym_div(a, b):
    a, b = norm(a), norm(b)
    if not isinstance(b, SymNum):
        return a / b
    if not branch(cmp0(b, '!=')):
        raise ZeroDivisionError('division by zero')
    a, b = norm(a), norm(b)
    if not isinstance(b, SymNum):
        return a / b
    if not isinstance(a, SymNum) and a == 0:
        return 0.0
    r = apply_unary2(a, b, lambda x, y: Fraction(x) / y if y else Fraction(0))
    if r is not None:
        return as_float(r)
    key = ('div', a.key() if isinstance(a, SymNum) else a, b.key())
    r = cur.memo.get(key)
    if r is None:
        q = cur.fresh('d', None, None, real=True)
        cur.assume(cmp0(q * b - a, '=='))
        r = cur.memo[key] = as_float(q)
    return r


def radix_form(p, radix, n):
    """Digits (least significant first) of p if it already is a radix expansion, else None."""
    d = {}
    c = p.c
    if type(c) is not int:
        return None
    off48 = radix == 10
    for k, co in p.t.items():
        if type(k) is tuple or type(co) is not int or co <= 0:
            return None
        i = 0
        x = co
        while x % radix == 0:
            x //= radix
            i += 1
        if x != 1 or i in d or i >= n:
            return None
        lo, hi = var_range(k)
        if lo is None or hi is None:
            return None
        if 0 <= lo and hi < radix and not (off48 and lo >= 48):
            d[i] = SymNum({k: 1}, 0)
        elif off48 and 48 <= lo and hi <= 57:
            d[i] = SymNum({k: 1}, -48)
            c += 48 * co
        elif hi - lo < radix:
            # digit var shifted by a constant
            d[i] = SymNum({k: 1}, -lo)
            c += lo * co
        else:
            return None
    if c < 0:
        return None
    out = []
    for i in range(n):
        x = c % radix
        c //= radix
        if i in d:
            if x:
                q = d[i] + x
                if rng(q)[1] >= radix:
                    return None
                out.append(q)
            else:
                out.append(d[i])
        else:
            out.append(x)
    if c:
        return None
    return out


def radix_digits(p, radix, n):
    """The n digits of p (known to be in [0, radix^n)), least significant first."""
    p = norm(p)
    if not isinstance(p, SymNum):
        p = int(p)
        return [(p // radix ** i) % radix for i in range(n)]
    p = SymNum(p.t, p.c, False)
    if n == 1:
        return [p]
    r = radix_form(p, radix, n)
    if r is not None:
        return r
    if single_small(p) is not None:
        return [apply_unary(p, lambda v, i=i: (int(v) // radix ** i) % radix) for i in range(n)]
    key = ('radix', p.key(), radix, n)
    r = cur.memo.get(key)
    if r is not None:
        return r
    lo, hi = rng(p)
    lead_nz = lo is not None and lo >= radix ** (n - 1)
    ds = []
    for i in range(n):
        dl, dh = 0, radix - 1
        if i == n - 1:
            if lo is not None:
                dl = max(0, int(lo) // radix ** (n - 1))
            if hi is not None:
                dh = min(radix - 1, int(hi) // radix ** (n - 1))
        ds.append(cur.fresh('g', dl, dh))
    e = 0
    for i, d in enumerate(ds):
        e = e + d * radix ** i
    only = None
    if len(p.t) == 1 and p.c == 0:
        (k, c), = p.t.items()
        if c == 1 and type(k) is Var and k.base is None and not k.small and not k.real and k not in cur.zmention:
            only = k
    if only is not None:
        blo, bhi = var_range(only)
        cur.subst[only] = e
        if isinstance(e, SymNum):
            el, eh = rng(e)
            if blo is not None and el < blo:
                cur.add(cmp0(e - blo, '>='))
            if bhi is not None and eh > bhi:
                cur.add(cmp0(e - bhi, '<='))
    else:
        cur.add(cmp0(p - e, '=='))
        e = norm(e)
        if isinstance(e, SymNum):
            cur.memo[('unradix', e.key())] = p
    cur.memo[key] = ds
    ds = [norm(d) for d in ds]
    return ds


def unradix(v):
    """The number whose digits were taken, if v is made of all the digits of one."""
    v = norm(v)
    if isinstance(v, SymNum):
        p = cur.memo.get(('unradix', v.key()))
        if p is not None:
            return norm(p)
    return v


def count_digits(p, radix):
    """Fork on the number of digits of p >= 0 (at least 1)."""
    n = 1
    while branch(cmp0(p - radix ** n, '>=')):
        n += 1
        if n > 40:
            raise Unsupported('unbounded number of digits')
    return n


def digits_of(p, radix=10, width=0):
    """Digits, most significant first, of p >= 0 written with at least width digits."""
    p = norm(p)
    if not isinstance(p, SymNum):
        p = int(p)
        out = []
        while p:
            out.append(p % radix)
            p //= radix
        while len(out) < max(width, 1):
            out.append(0)
        return out[::-1]
    f = radix_form(p, radix, 40)
    if f is not None:
        # known digits: drop leading zeros
        ds = f[::-1]
        while len(ds) > max(width, 1):
            z = eq(ds[0], 0)
            if branch(z):
                ds = ds[1:]
            else:
                break
        return ds
    lo, hi = rng(p)
    if width and hi is not None and hi < radix ** width:
        return radix_digits(p, radix, width)[::-1]
    n = count_digits(p, radix)
    n = max(n, width)
    return radix_digits(p, radix, n)[::-1]


def int_str(p, width=0):
    """Decimal text of an integer as a list of code points."""
    if branch(cmp0(p, '<')):
        return [45] + int_str(-p, max(0, width - 1))
    return [d + 48 for d in digits_of(p, 10, width)]


HEX_L = b'0123456789abcdef'
HEX_U = b'0123456789ABCDEF'


def hex_digit(d, upper=False):
    t = HEX_U if upper else HEX_L
    r = apply_unary(d, lambda v: t[v])
    if r is None:
        r = apply_unary(small_alias(d, 0, 15), lambda v: t[v])
    if r is None:
        raise Unsupported('hex digit')
    return r


def float_str(p):
    """repr of a float with at most 15 significant digits (shortest round-trip contract of the interpreter)."""
    p = norm(p)
    if not isinstance(p, SymNum):
        return [ord(ch) for ch in repr(float(p))]
    k = 0
    den = 1
    for c in list(p.t.values()) + [p.c]:
        if type(c) is Fraction:
            den = den * c.denominator // __import__('math').gcd(den, c.denominator)
    while (10 ** k) % den:
        k += 1
        if k > 30:
            raise Unsupported('float without finite decimal expansion')
    if any(v.real for kk in p.t for v in key_vars(kk)):
        raise Unsupported('text of an arbitrary real')
    n = SymNum.make({kk: to_const(c * 10 ** k) for kk, c in p.t.items()}, to_const(p.c * 10 ** k))
    sign = []
    if branch(cmp0(n, '<')):
        sign = [45]
        n = -n
    if branch(cmp0(n, '==')):
        return sign + [48, 46, 48]
    ds = digits_of(n, 10, 1)
    ex = len(ds) - k           # value = 0.d1d2... * 10^ex
    while len(ds) > 1 and branch(eq(ds[-1], 0)):
        ds = ds[:-1]
    if len(ds) > 15:
        raise Unsupported('more than 15 significant digits')
    cs = [d + 48 for d in ds]
    e10 = ex - 1
    if -4 <= e10 < 16:
        if ex <= 0:
            return sign + [48, 46] + [48] * (-ex) + cs
        if len(cs) <= ex:
            return sign + cs + [48] * (ex - len(cs)) + [46, 48]
        return sign + cs[:ex] + [46] + cs[ex:]
    m = cs[:1] + ([46] + cs[1:] if len(cs) > 1 else [])
    es = f"e{'-' if e10 < 0 else '+'}{abs(e10):02d}"
    return sign + m + [ord(c) for c in es]


# --------------------------------------------------------------------------
# generic equality (not forking)

def is_sym(x):
    return type(x) in SYMTYPES


def eq(a, b):
    """Equality as a condition, deep in lists, tuples, dictionaries and sets without forking where possible."""
    if a is b and type(a) not in (float,):
        return True
    ta, tb = type(a), type(b)
    if ta in SYMTYPES or tb in SYMTYPES:
        if ta is SymSet or tb is SymSet:
            return set_eq(a, b)
        if isinstance(a, SymBuffer) or isinstance(b, SymBuffer):
            a = a.v if isinstance(a, SymBuffer) else bytes(a) if ta in (bytearray, memoryview) else a
            b = b.v if isinstance(b, SymBuffer) else bytes(b) if tb in (bytearray, memoryview) else b
            return eq(a, b)
        if ta in SYMTYPES:
            r = a.__eq__(b)
            if r is NotImplemented:
                r = b.__eq__(a) if tb in SYMTYPES else False
        else:
            r = b.__eq__(a)
        return False if r is NotImplemented else r
    if ta in (list, tuple) and tb is ta:
        if len(a) != len(b):
            return False
        return mk_and_lazy((eq(x, y) for x, y in zip(a, b)))
    if ta is dict and tb is dict:
        return dict_eq(a, b)
    if ta is tb and hasattr(a, '__dataclass_fields__'):
        return mk_and_lazy(eq(getattr(a, f), getattr(b, f)) for f in a.__dataclass_fields__)
    if isinstance(a, tuple) and isinstance(b, tuple):
        if len(a) != len(b):
            return False
        return mk_and_lazy((eq(x, y) for x, y in zip(a, b)))
    return a == b


def mk_and_lazy(it):
    l = []
    for x in it:
        if x is False:
            return False
        if x is True:
            continue
        l.append(x)
    return mk_and(l)


def deep_sym(k):
    """A key (possibly a tuple) containing something symbolic."""
    t = type(k)
    if t in SYMTYPES:
        return True
    if t is tuple or (isinstance(k, tuple)):
        return any(deep_sym(x) for x in k)
    return False


def sym_keys(d):
    return any(deep_sym(k) for k in d)


def dict_eq(a, b):
    if len(a) != len(b):
        return False
    if not sym_keys(a) and not sym_keys(b):
        l = []
        for k, v in a.items():
            if k not in b:
                return False
            r = eq(v, b[k])
            if r is False:
                return False
            l.append(r)
        return mk_and(l)
    # symbolic keys: keys of one dictionary are pairwise distinct, so equality is a matching
    l = []
    for k, v in a.items():
        alts = []
        for k2, v2 in b.items():
            c = eq(k, k2)
            if c is False:
                continue
            alts.append(mk_and([c, eq(v, v2)]))
        r = mk_or(alts)
        if r is False:
            return False
        l.append(r)
    return mk_and(l)


def set_eq(a, b):
    if type(a) not in (set, frozenset, SymSet) or type(b) not in (set, frozenset, SymSet):
        return False
    la, lb = set_items(a), set_items(b)
    l = []
    for x in la:
        l.append(mk_or([eq(x, y) for y in lb]))
    for y in lb:
        l.append(mk_or([eq(x, y) for x in la]))
    return mk_and(l)


def set_items(s):
    return s.items_list() if type(s) is SymSet else list(s)


# --------------------------------------------------------------------------
# sequences

class SymSeq:
    """Bytes or text of known length with symbolic elements at some positions."""
    __slots__ = ('b', 's')
    native = None

    def __init__(self, b, s):
        self.b = b      # native value, placeholder at symbolic positions
        self.s = s      # position -> SymNum

    def __len__(self):
        return len(self.b)

    def items(self):
        l = list(self.b) if self.native is bytes else [ord(c) for c in self.b]
        for i, v in self.s.items():
            l[i] = v
        return l

    def item(self, i):
        v = self.s.get(i)
        if v is not None:
            return norm(v)
        return self.b[i] if self.native is bytes else ord(self.b[i])

    def __repr__(self):
        return f"Sym{self.native.__name__}({self.b!r}, {list(self.s)})"

    def __getitem__(self, k):
        if type(k) is slice:
            st, sp, se = k.start, k.stop, k.step
            st = concretize(st) if is_sym(st) else st
            sp = concretize(sp) if is_sym(sp) else sp
            se = concretize(se) if is_sym(se) else se
            k = slice(st, sp, se)
            a, e, step = k.indices(len(self.b))
            if step == 1:
                nb = self.b[a:e] if e > a else self.b[0:0]
                if not nb:
                    return nb
                s = self.s
                if e - a < len(s):
                    ns = {i - a: s[i] for i in range(a, e) if i in s}
                else:
                    ns = {i - a: v for i, v in s.items() if a <= i < e}
                if not ns:
                    return nb
                return type(self)(nb, ns).simp() if e - a <= 4 else type(self)(nb, ns)
            idx = range(a, e, step)
            return seq_of(self.native, [self.item(i) for i in idx])
        if is_sym(k):
            return index_sym(self, k)
        i = k
        n = len(self.b)
        if i < 0:
            i += n
        if i < 0 or i >= n:
            raise IndexError('index out of range')
        v = self.item(i)
        if self.native is bytes:
            return v
        return seq_of(str, [v])

    def simp(self):
        """Back to native if every element is known."""
        if not cur.subst:
            return self
        ch = None
        for i, v in self.s.items():
            w = norm(v)
            if w is not v:
                ch = True
                break
        if ch:
            return seq_of(self.native, self.items())
        return self

    def __iter__(self):
        if self.native is bytes:
            for i in range(len(self.b)):
                yield self.item(i)
        else:
            for i in range(len(self.b)):
                yield seq_of(str, [self.item(i)])

    def _coerce(self, o):
        t = type(o)
        if t is type(self):
            return o
        if t is self.native:
            return o
        if self.native is bytes and t in (bytearray, memoryview):
            return bytes(o)
        if self.native is bytes and (t is SymBuffer or t is SymView):
            return o.v
        return None

    def __add__(self, o):
        q = self._coerce(o)
        if q is None:
            raise TypeError(f"can't concat {type(o).__name__} to {self.native.__name__}")
        if type(q) is self.native:
            return type(self)(self.b + q, self.s)
        n = len(self.b)
        s = dict(self.s)
        for i, v in q.s.items():
            s[i + n] = v
        return type(self)(self.b + q.b, s)

    def __radd__(self, o):
        q = self._coerce(o)
        if q is None:
            raise TypeError(f"can't concat {self.native.__name__} to {type(o).__name__}")
        n = len(q)
        return type(self)(q + self.b, {i + n: v for i, v in self.s.items()})

    def __mul__(self, k):
        k = concretize(k)
        if k <= 0:
            return self.native()
        r = self
        out = self.items() * k
        return seq_of(self.native, out)

    __rmul__ = __mul__

    def __mod__(self, o):
        raise Unsupported('% formatting of symbolic text')

    # --- comparisons
    def __eq__(self, o):
        q = self._coerce(o)
        if q is None:
            return False
        if len(q) != len(self.b):
            return False
        return seq_eq(self, q)

    def __ne__(self, o):
        return bnot(self.__eq__(o))

    def _lex(self, o, strict_lt, eq_ok):
        """self < o (strict_lt) lexicographically; forks element by element."""
        q = self._coerce(o)
        if q is None:
            return NotImplemented
        n = min(len(self), len(q))
        if n == 1 and len(self) == 1 and len(q) == 1:
            a, b = self.item(0), elem(q, 0)
            return (a <= b if eq_ok else a < b)
        for i in range(n):
            a, b = self.item(i), elem(q, i)
            if branch(eq(a, b)):
                continue
            return a < b
        return len(self) <= len(q) if eq_ok else len(self) < len(q)

    def __lt__(self, o):
        return self._lex(o, True, False)

    def __le__(self, o):
        return self._lex(o, True, True)

    def __gt__(self, o):
        r = self._lex(o, True, True)
        return r if r is NotImplemented else bnot(r)

    def __ge__(self, o):
        r = self._lex(o, True, False)
        return r if r is NotImplemented else bnot(r)

    def __hash__(self):
        return hash(self.concrete())

    def concrete(self):
        out = [concretize(x, 'text needed') for x in self.items()]
        return native_of(self.native, out)

    def __bool__(self):
        return len(self.b) > 0

    def __contains__(self, o):
        return branch(self.contains(o))

    def contains(self, o):
        if self.native is bytes and type(o) in (int, SymNum):
            if type(o) is int and o in self.b:
                for i, x in enumerate(self.b):
                    if x == o and i not in self.s:
                        return True
            return mk_or([eq(x, o) for x in self.items()])
        q = self._coerce(o)
        if q is None:
            raise TypeError(f"'in <{self.native.__name__}>' requires {self.native.__name__} as left operand")
        if len(q) == 0:
            return True
        if len(q) == 1:
            x = elem(q, 0)
            return mk_or([eq(y, x) for y in self.items()])
        return self.find(q) >= 0

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self

    # --- searching
    def _bounds(self, start, end):
        n = len(self.b)
        start = 0 if start is None else concretize(start)
        end = n if end is None else concretize(end)
        a, e, _ = slice(start, end).indices(n)
        return a, e, start

    def _cands(self, q, a, e):
        """Positions where q may occur in [a, e), in order, found one after the other."""
        m = len(q)
        last = e - m
        if type(q) is not self.native:
            yield from range(a, last + 1)
            return
        sym = sorted([p for p in self.s if a <= p < e])
        k = 0
        find = self.b.find
        nat = find(q, a, e)
        i = a
        while True:
            while k < len(sym) and min(last, sym[k]) < i:
                k += 1
            c = max(i, sym[k] - m + 1) if k < len(sym) else last + 1
            if nat != -1 and nat < i:
                nat = find(q, i, e)
            if nat != -1 and nat <= c:
                c = nat
            if c > last:
                return
            yield c
            i = c + 1

    def _match(self, q, i):
        m = len(q)
        w = self[i:i + m]
        if type(w) is self.native and type(q) is self.native:
            return w == q
        return eq(w, q)

    def find(self, sub, start=None, end=None):
        q = self._sub(sub)
        a, e, st = self._bounds(start, end)
        if len(q) == 0:
            return a if st <= len(self.b) and a <= e else -1
        for i in self._cands(q, a, e):
            if branch(self._match(q, i)):
                return i
        return -1

    def rfind(self, sub, start=None, end=None):
        q = self._sub(sub)
        a, e, st = self._bounds(start, end)
        if len(q) == 0:
            return e if a <= e else -1
        for i in reversed(list(self._cands(q, a, e))):
            if branch(self._match(q, i)):
                return i
        return -1

    def index(self, sub, start=None, end=None):
        r = self.find(sub, start, end)
        if r < 0:
            raise ValueError('subsection not found')
        return r

    def rindex(self, sub, start=None, end=None):
        r = self.rfind(sub, start, end)
        if r < 0:
            raise ValueError('subsection not found')
        return r

    def _sub(self, sub):
        if self.native is bytes and type(sub) in (int, SymNum):
            return seq_of(bytes, [sub])
        q = self._coerce(sub)
        if q is None:
            raise TypeError(f'must be {self.native.__name__}, not {type(sub).__name__}')
        return q

    def count(self, sub, start=None, end=None):
        q = self._sub(sub)
        a, e, _ = self._bounds(start, end)
        if not len(q):
            return e - a + 1
        n = 0
        i = a
        while True:
            i = self.find(q, i, e)
            if i < 0:
                return n
            n += 1
            i += len(q)

    def startswith(self, p, start=None, end=None):
        a, e, _ = self._bounds(start, end)
        if type(p) is tuple:
            return any(branch(self._startswith(x, a, e)) for x in p)
        return self._startswith(p, a, e)

    def _startswith(self, p, a, e):
        q = self._sub(p)
        if a + len(q) > e:
            return False
        if not len(q):
            return True
        return eq(self[a:a + len(q)], q)

    def endswith(self, p, start=None, end=None):
        a, e, _ = self._bounds(start, end)
        if type(p) is tuple:
            return any(branch(self._endswith(x, a, e)) for x in p)
        return self._endswith(p, a, e)

    def _endswith(self, p, a, e):
        q = self._sub(p)
        if e - len(q) < a:
            return False
        if not len(q):
            return True
        return eq(self[e - len(q):e], q)

    def replace(self, old, new, count=-1):
        q = self._sub(old)
        w = self._sub(new)
        out = []
        if len(q) == 0:
            raise Unsupported('replace of empty text')
        i = 0
        cands = set(self._cands(q, 0, len(self.b)))
        items = self.items()
        witems = seq_items(w)
        while i < len(items):
            if i in cands and count != 0 and branch(self._match(q, i)):
                out += witems
                i += len(q)
                count -= 1
            else:
                out.append(items[i])
                i += 1
        return seq_of(self.native, out)

    WS_B = (9, 10, 11, 12, 13, 32)
    WS_S = (9, 10, 11, 12, 13, 28, 29, 30, 31, 32, 0x85, 0xa0, 0x1680, 0x2028, 0x2029, 0x202f, 0x205f, 0x3000) + tuple(range(0x2000, 0x200b))

    def _is_in(self, x, chars):
        if chars is None:
            chars = self.WS_B if self.native is bytes else self.WS_S
        if not isinstance(x, SymNum):
            return x in chars
        return mk_or([eq(x, c) for c in chars])

    def _chars(self, chars):
        return None if chars is None else tuple(seq_items(self._sub(chars)))

    def strip(self, chars=None):
        return _l(self, self._chars(chars), True, True)

    def lstrip(self, chars=None):
        return _l(self, self._chars(chars), True, False)

    def rstrip(self, chars=None):
        return _l(self, self._chars(chars), False, True)

    def split(self, sep=None, maxsplit=-1):
        out = []
        if sep is None:
            items = self.items()
            i, n = 0, len(items)
            while True:
                while i < n and branch(self._is_in(items[i], None)):
                    i += 1
                if i >= n:
                    break
                if maxsplit >= 0 and len(out) >= maxsplit:
                    e = n
                    while e > i and branch(self._is_in(items[e - 1], None)):
                        e -= 1
                    out.append(self[i:e])
                    break
                j = i
                while j < n and not branch(self._is_in(items[j], None)):
                    j += 1
                out.append(self[i:j])
                i = j
            return out
        q = self._sub(sep)
        if not len(q):
            raise ValueError('empty separator')
        i = 0
        while True:
            j = self.find(q, i) if maxsplit < 0 or len(out) < maxsplit else -1
            if j < 0:
                out.append(self[i:])
                return out
            out.append(self[i:j])
            i = j + len(q)

    def rsplit(self, sep=None, maxsplit=-1):
        if maxsplit < 0:
            return self.split(sep)
        if sep is None:
            raise Unsupported('rsplit on white space with a limit')
        q = self._sub(sep)
        out = []
        e = len(self.b)
        while len(out) < maxsplit:
            j = self.rfind(q, 0, e)
            if j < 0:
                break
            out.insert(0, self[j + len(q):e])
            e = j
        out.insert(0, self[:e])
        return out

    def partition(self, sep):
        q = self._sub(sep)
        j = self.find(q)
        if j < 0:
            return (self, self.native(), self.native())
        return (self[:j], self[j:j + len(q)], self[j + len(q):])

    def rpartition(self, sep):
        q = self._sub(sep)
        j = self.rfind(q)
        if j < 0:
            return (self.native(), self.native(), self)
        return (self[:j], self[j:j + len(q)], self[j + len(q):])

    def splitlines(self, keepends=False):
        items = self.items()
        brk = (10, 13) if self.native is bytes else (10, 11, 12, 13, 28, 29, 30, 0x85, 0x2028, 0x2029)
        out = []
        i = st = 0
        n = len(items)
        while i < n:
            if branch(self._is_in(items[i], brk)):
                j = i + 1
                if j < n and branch(eq(items[i], 13)) and branch(eq(items[j], 10)):
                    j += 1
                out.append(self[st:j] if keepends else self[st:i])
                st = i = j
            else:
                i += 1
        if st < n:
            out.append(self[st:])
        return out

    def removeprefix(self, p):
        return self[len(p):] if branch(self.startswith(p)) and len(p) else self

    def removesuffix(self, p):
        return self[:len(self) - len(p)] if len(p) and branch(self.endswith(p)) else self

    def join(self, it):
        return seq_join(self, it)

    def ljust(self, w, fill=None):
        return self._pad(concretize(w), fill, 0)

    def rjust(self, w, fill=None):
        return self._pad(concretize(w), fill, 1)

    def center(self, w, fill=None):
        w = concretize(w)
        n = len(self)
        f = fill if fill is not None else (b' ' if self.native is bytes else ' ')
        if w <= n:
            return self
        t = w - n
        left = t // 2 + (t & w & 1)
        return f * left + self + f * (t - left)

    def _pad(self, w, fill, side):
        f = fill if fill is not None else (b' ' if self.native is bytes else ' ')
        n = w - len(self)
        if n <= 0:
            return self
        return self + f * n if side == 0 else f * n + self

    def zfill(self, w):
        n = concretize(w) - len(self)
        if n <= 0:
            return self
        z = b'0' if self.native is bytes else '0'
        c = self.item(0) if len(self) else 0
        if len(self) and branch(mk_or([eq(c, 43), eq(c, 45)])):
            return self[:1] + z * n + self[1:]
        return z * n + self

    def _map(self, fn):
        out = []
        for x in self.items():
            if isinstance(x, SymNum):
                r = apply_unary(x, fn)
                if r is None:
                    r = fn(concretize(x))
                out.append(r)
            else:
                out.append(fn(x))
        return seq_of(self.native, out)

    def _case(self, name):
        if self.native is bytes:
            return self._map(lambda v: getattr(bytes([v]), name)()[0])
        r = []
        for x in self.items():
            if isinstance(x, SymNum):
                vals = values_of(x)
                if vals is None or any(len(getattr(chr(v), name)()) != 1 for v in vals):
                    x = concretize(x)
                    r += [ord(c) for c in getattr(chr(x), name)()]
                else:
                    r.append(apply_unary(x, lambda v: ord(getattr(chr(v), name)())))
            else:
                r += [ord(c) for c in getattr(chr(x), name)()]
        return seq_of(str, r)

    def upper(self):
        return self._case('upper')

    def lower(self):
        return self._case('lower')

    def casefold(self):
        return self._case('casefold')

    def swapcase(self):
        return self._case('swapcase')

    def _pred(self, name):
        if not len(self.b):
            return False
        l = []
        for x in self.items():
            if isinstance(x, SymNum):
                b = single_small(x)
                if b is None:
                    x = concretize(x)
                    l.append(getattr(native_of(self.native, [x]), name)())
                else:
                    vals = [v for v in values_of(x) if getattr(native_of(self.native, [v]), name)()]
                    l.append(mk_or([eq(x, v) for v in vals]))
            else:
                l.append(getattr(native_of(self.native, [x]), name)())
        return mk_and(l)

    def isdigit(self):
        return self._pred('isdigit')

    def isalpha(self):
        return self._pred('isalpha')

    def isalnum(self):
        return self._pred('isalnum')

    def isspace(self):
        return self._pred('isspace')

    def isascii(self):
        return True if not len(self.b) else self._pred('isascii')

    def translate(self, table, delete=b''):
        if self.native is bytes:
            out = []
            for x in self.items():
                if branch(mk_or([eq(x, c) for c in seq_items(delete)])):
                    continue
                if table is None:
                    out.append(x)
                else:
                    r = apply_unary(x, lambda v: table[v])
                    out.append(r)
            return seq_of(bytes, out)
        if not isinstance(table, dict):
            raise Unsupported('translate')
        out = []
        for x in self.items():
            if isinstance(x, SymNum):
                keys = [k for k in table if type(k) is int]
                if not branch(in_set(x, keys)):
                    out.append(x)
                    continue
                x = concretize(x)
            v = table.get(x, x)
            if v is not None:
                out += [v] if isinstance(v, int) else seq_items(v)
        return seq_of(str, out)

    def __getattr__(self, name):
        if name.startswith('__'):
            raise AttributeError(name)
        f = getattr(self.native, name, None)
        if f is None or not callable(f):
            raise AttributeError(f"'{self.native.__name__}' object has no attribute '{name}'")

        def fallback(*a, **k):
            cur.note_unsupported(f"{self.native.__name__}.{name}")
            return f(cur.pin_seq(self), *[cur.pin_deep(x) for x in a], **k)
        return fallback


class SymBytes(SymSeq):
    __slots__ = ()
    native = bytes

    def decode(self, encoding='utf-8', errors='strict'):
        return decode_bytes(self, encoding, errors)

    def hex(self, sep=None, bytes_per_sep=1):
        out = []
        its = self.items()
        for i, x in enumerate(its):
            if sep is not None and i and bytes_per_sep > 0 and (len(its) - i) % bytes_per_sep == 0:
                out.append(ord(sep))
            ds = radix_digits(x, 16, 2)
            out += [hex_digit(ds[1]), hex_digit(ds[0])]
        return seq_of(str, out)


class SymStr(SymSeq):
    __slots__ = ()
    native = str

    def encode(self, encoding='utf-8', errors='strict'):
        return encode_str(self, encoding, errors)

    def format(self, *a, **k):
        raise Unsupported('format with symbolic template')

    def isidentifier(self):
        return self.concrete().isidentifier()

    def isnumeric(self):
        return self._pred('isnumeric')

    def isdecimal(self):
        return self._pred('isdecimal')

    def isprintable(self):
        return True if not len(self.b) else self._pred('isprintable')


class SymBuffer:
    """A bytearray; elements may be symbolic."""
    __slots__ = ('l', '_v')
    __hash__ = None

    def __init__(self, l=()):
        self.l = list(l)
        self._v = None

    @property
    def v(self):
        if self._v is None:
            self._v = seq_of(bytes, self.l)
        return self._v

    @staticmethod
    def _byte(x):
        if type(x) is SymNum and not x.f:
            if not branch(mk_and([cmp0(x, '>='), cmp0(x - 256, '<')])):
                raise ValueError('byte must be in range(0, 256)')
            return x
        return bytearray([x])[0]

    @classmethod
    def _items(cls, o):
        if isinstance(o, SymBuffer):
            return list(o.l)
        if isinstance(o, (bytes, bytearray, SymBytes, memoryview)):
            return seq_items(o)
        if isinstance(o, (str, SymStr)):
            raise TypeError("can't concat str to bytearray")
        return [cls._byte(x) for x in o]

    def __len__(self):
        return len(self.l)

    def __iter__(self):
        i = 0
        while i < len(self.l):
            yield self.l[i]
            i += 1

    def __getitem__(self, k):
        if type(k) is slice:
            return type(self)(self.l[k])
        if type(k) in SYMTYPES:
            return index_sym(self.v, k)
        return self.l[k]

    def __setitem__(self, k, x):
        self._v = None
        if type(k) is slice:
            self.l[k] = self._items(x)
        else:
            self.l[k] = self._byte(x)

    def __delitem__(self, k):
        self._v = None
        del self.l[k]

    def append(self, x):
        self._v = None
        self.l.append(self._byte(x))

    def extend(self, o):
        x = self._items(o)
        self._v = None
        self.l.extend(x)

    def insert(self, i, x):
        self._v = None
        self.l.insert(concretize(i), self._byte(x))

    def pop(self, i=-1):
        self._v = None
        return self.l.pop(concretize(i))

    def clear(self):
        self._v = None
        self.l.clear()

    def reverse(self):
        self._v = None
        self.l.reverse()

    def copy(self):
        return SymBuffer(self.l)

    def __iadd__(self, o):
        self.extend(o)
        return self

    def __add__(self, o):
        if not isinstance(o, (bytes, bytearray, SymBytes, SymBuffer, memoryview)):
            raise TypeError(f"can't concat {type(o).__name__} to bytearray")
        return SymBuffer(self.l + self._items(o))

    def __radd__(self, o):
        if not isinstance(o, (bytes, bytearray, SymBytes)):
            return NotImplemented
        return o + self.v

    def __mul__(self, n):
        return SymBuffer(self.l * concretize(n))

    __rmul__ = __mul__

    def __imul__(self, n):
        self._v = None
        self.l *= concretize(n)
        return self

    def __eq__(self, o):
        return eq(self.v, o.v if isinstance(o, SymBuffer) else bytes(o) if type(o) is bytearray else o)

    def __ne__(self, o):
        return bnot(eq(self, o))

    def __lt__(self, o):
        return self.v < (o.v if isinstance(o, SymBuffer) else o)

    def __gt__(self, o):
        return self.v > (o.v if isinstance(o, SymBuffer) else o)

    def __contains__(self, x):
        v = self.v
        if isinstance(x, SymBuffer):
            x = x.v
        if type(v) is bytes and type(x) in SYMTYPES:
            v = SymBytes(v, {})
        return x in v

    def __getattr__(self, name):
        if name[:2] == '__':
            raise AttributeError(name)
        v = self.v
        if not hasattr(v, name):
            raise Unsupported('bytearray.' + name)
        def method(*a, **k):
            a = [x.v if isinstance(x, SymBuffer) else x for x in a]
            w = v
            if type(w) is bytes and any(type(x) in SYMTYPES or type(x) is tuple for x in a):
                w = SymBytes(w, {})
            if name == 'join':
                r = seq_join(w, a[0])
            else:
                r = getattr(w, name)(*a, **k)
            return SymBuffer(seq_items(r)) if type(r) in (bytes, SymBytes) else r
        return method


class SymView(SymBuffer):
    """A read-only memoryview."""
    __slots__ = ()

    def tobytes(self, order=None):
        return self.v

    def tolist(self):
        return list(self.l)

    def toreadonly(self):
        return self

    def release(self):
        return None

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return None

    @property
    def nbytes(self):
        return len(self.l)

    def __setitem__(self, k, x):
        raise TypeError('cannot modify read-only memory')


class SymSet:
    """Set whose elements may be symbolic; equal elements are merged lazily."""
    __slots__ = ('c', 'l')

    def __init__(self, c=(), l=()):
        self.c = set(c)
        self.l = list(l)

    def items_list(self):
        return list(self.c) + list(self.l)

    def dedup(self):
        if not self.l:
            return
        out = []
        for x in self.l:
            x = norm_key(x)
            if not deep_sym(x):
                self.c.add(x)
                continue
            if branch(mk_or([eq(x, y) for y in self.c])):
                continue
            if branch(mk_or([eq(x, y) for y in out])):
                continue
            out.append(x)
        self.l = out

    def contains(self, x):
        x = norm_key(x)
        if not deep_sym(x):
            if x in self.c:
                return True
            return mk_or([eq(x, y) for y in self.l])
        return mk_or([eq(x, y) for y in self.items_list()])

    def __contains__(self, x):
        return branch(self.contains(x))

    def add(self, x):
        x = norm_key(x)
        if deep_sym(x):
            self.l.append(x)
        else:
            self.c.add(x)

    def discard(self, x):
        self.dedup()
        for y in list(self.c):
            if branch(eq(x, y)):
                self.c.discard(y)
                return
        for i, y in enumerate(self.l):
            if branch(eq(x, y)):
                del self.l[i]
                return

    def remove(self, x):
        if not branch(self.contains(x)):
            raise KeyError(x)
        self.discard(x)

    def pop(self):
        self.dedup()
        if self.l:
            return self.l.pop()
        return self.c.pop()

    def clear(self):
        self.c.clear()
        self.l.clear()

    def update(self, *os):
        for o in os:
            for x in o:
                self.add(x)

    def copy(self):
        return SymSet(self.c, self.l)

    __copy__ = copy

    def __deepcopy__(self, memo):
        return self.copy()

    def __len__(self):
        self.dedup()
        return len(self.c) + len(self.l)

    def __bool__(self):
        return bool(self.c) or bool(self.l)

    def __iter__(self):
        self.dedup()
        return iter(self.items_list())

    def _mk(self, o):
        return o if type(o) is SymSet else SymSet([x for x in o if not deep_sym(x)], [x for x in o if deep_sym(x)])

    def union(self, *os):
        r = self.copy()
        r.update(*os)
        return r

    def __or__(self, o):
        if not isinstance(o, (set, frozenset, SymSet)):
            return NotImplemented
        o = self._mk(o)
        return SymSet(self.c | o.c, self.l + o.l)

    __ror__ = __or__

    def __ior__(self, o):
        o = self._mk(o)
        self.c |= o.c
        self.l += o.l
        return self

    def __and__(self, o):
        if not self.l and isinstance(o, (set, frozenset)):
            return SymSet(self.c & o)
        o = self._mk(o)
        r = SymSet()
        for x in self:
            if branch(o.contains(x)):
                r.add(x)
        return r

    __rand__ = __and__

    def intersection(self, o):
        return self & set_from(o)

    def __sub__(self, o):
        if not isinstance(o, (set, frozenset, SymSet)):
            return NotImplemented
        o = self._mk(o)
        r = SymSet()
        for x in self:
            if not branch(o.contains(x)):
                r.add(x)
        return r

    def difference(self, o):
        return self - set_from(o)

    def __rsub__(self, o):
        return self._mk(o) - self

    def __isub__(self, o):
        r = self - o
        self.c, self.l = r.c, r.l
        return self

    def __xor__(self, o):
        return (self - o) | (self._mk(o) - self)

    def __le__(self, o):
        o = self._mk(o)
        return all(branch(o.contains(x)) for x in self.items_list())

    def issubset(self, o):
        return self <= set_from(o)

    def __ge__(self, o):
        return all(branch(self.contains(x)) for x in set_items(o))

    def issuperset(self, o):
        return self >= set_from(o)

    def isdisjoint(self, o):
        return not any(branch(self.contains(x)) for x in o)

    def __eq__(self, o):
        return set_eq(self, o)

    def __ne__(self, o):
        return bnot(set_eq(self, o))

    def __hash__(self):
        raise TypeError("unhashable type: 'set'")

    def __repr__(self):
        return f"SymSet({self.c}, {self.l})"


def norm_key(x):
    t = type(x)
    if t is SymNum:
        return norm(x)
    if t is SymComplex:
        return norm(x)
    if t is SymStr or t is SymBytes:
        return x.simp()
    if t is tuple and any(deep_sym(y) for y in x):
        return tuple(norm_key(y) for y in x)
    return x


def set_from(it):
    if type(it) in (set, frozenset, SymSet):
        return it
    r = SymSet()
    for x in it:
        r.add(x)
    return r


SYMTYPES = {SymNum, SymComplex, SymBool, SymBytes, SymStr, SymSet, SymBuffer, SymView}


def native_of(native, items):
    if native is bytes:
        return bytes(items)
    return ''.join(map(chr, items))


def seq_of(native, items):
    s = {}
    out = []
    for i, x in enumerate(items):
        if type(x) is SymNum:
            x = norm(x)
            if type(x) is SymNum:
                s[i] = x
                x = 0
        out.append(x)
    b = bytes(out) if native is bytes else ''.join(map(chr, out))
    if not s:
        return b
    return (SymBytes if native is bytes else SymStr)(b, s)


def seq_items(x):
    if isinstance(x, SymSeq):
        return x.items()
    if type(x) is SymBuffer or type(x) is SymView:
        return list(x.l)
    if type(x) is str:
        return [ord(c) for c in x]
    return list(x)


def elem(q, i):
    if isinstance(q, SymSeq):
        return q.item(i)
    return q[i] if type(q) is bytes else ord(q[i])


def seq_eq(a, q):
    l = []
    if type(q) is a.native:
        s = a.s
        qb = q
        ab = a.b
        # native comparison of the concrete part
        for i in range(len(ab)):
            v = s.get(i)
            if v is None:
                if ab[i] != qb[i]:
                    return False
        for i, v in s.items():
            r = eq(norm(v), qb[i] if a.native is bytes else ord(qb[i]))
            if r is False:
                return False
            if r is not True:
                l.append((i, r))
    else:
        for i in range(len(a.b)):
            x, y = a.s.get(i), q.s.get(i)
            if x is None and y is None:
                if a.b[i] != q.b[i]:
                    return False
        for i in range(len(a.b)):
            if i in a.s or i in q.s:
                x, y = a.item(i), q.item(i)
                r = eq(x, y)
                if r is False:
                    return False
                if r is not True:
                    l.append((i, r))
    l.sort(key=lambda p: p[0])
    return mk_and([r for _, r in l])


def _l(seq, chars, left, right):
    i, e = 0, len(seq.b)
    if left:
        while i < e and branch(seq._is_in(seq.item(i), chars)):
            i += 1
    if right:
        while e > i and branch(seq._is_in(seq.item(e - 1), chars)):
            e -= 1
    return seq[i:e]


def seq_join(sep, it):
    native = bytes if isinstance(sep, (bytes, SymBytes)) else str
    out = []
    si = seq_items(sep)
    first = True
    for x in it:
        if not isinstance(x, (native, SymBytes if native is bytes else SymStr)):
            if not (native is bytes and isinstance(x, (bytearray, memoryview, SymBuffer))):
                raise TypeError(f"sequence item: expected {native.__name__} instance, {type(x).__name__} found")
        if not first:
            out += si
        first = False
        out += seq_items(x)
    return seq_of(native, out)


def index_sym(container, k):
    """container[k] for a symbolic k."""
    k = norm(k)
    if not isinstance(k, SymNum):
        return container[k]
    n = len(container)
    if k.f:
        raise TypeError('indices must be integers or slices, not float')
    if not branch(cmp0(k - n, '<')) or not branch(cmp0(k + n, '>=')):
        raise IndexError('index out of range')
    if branch(cmp0(k, '<')):
        k = k + n
    k = norm(k)
    if not isinstance(k, SymNum):
        return container[k]
    if single_small(k) is not None:
        if isinstance(container, (bytes, str)):
            r = apply_unary(k, lambda v: container[v] if type(container) is bytes else ord(container[v]))
            return r if type(container) is bytes else seq_of(str, [r])
        vals = values_of(k)
        if not isinstance(container, SymSeq):
            els = [container[v] for v in vals]
            if all(type(x) is int for x in els):
                return apply_unary(k, lambda v: container[v])
            if all(type(x) is str and len(x) == 1 for x in els):
                return seq_of(str, [apply_unary(k, lambda v: ord(container[v]))])
    if n <= 64: # the index is within the container
        lo, hi = rng(k)
        if not (lo is not None and hi is not None and hi - lo < n):
            ch = cur.fork(n, lambda i: cur.zfeasible(cmp0(k - i, '==')))
            cur.add(cmp0(k - ch, '=='))
            return container[ch]
    return container[concretize(k, 'index')]


# --------------------------------------------------------------------------
# codecs

_codec_tab = {}


def codec_table(encoding):
    t = _codec_tab.get(encoding)
    if t is None:
        t = []
        for i in range(256):
            try:
                s = bytes([i]).decode(encoding)
                t.append(ord(s) if len(s) == 1 else None)
            except UnicodeDecodeError:
                t.append(None)
        _codec_tab[encoding] = t
    return t


def enc_name(e):
    import codecs
    if isinstance(e, SymSeq):
        e = e.concrete()
    return codecs.lookup(e).name


def decode_bytes(b, encoding, errors='strict'):
    if type(b) is bytes:
        return b.decode(encoding, errors)
    e = enc_name(encoding)
    its = b.items()
    out = []
    if e in ('utf-16-be', 'utf-16-le', 'utf-16'):
        big = e != 'utf-16-le'
        i = 0
        if e == 'utf-16':
            big = False
            if len(its) >= 2:
                if branch(mk_and([eq(its[0], 0xfe), eq(its[1], 0xff)])):
                    big, i = True, 2
                elif branch(mk_and([eq(its[0], 0xff), eq(its[1], 0xfe)])):
                    i = 2

        def bad(msg):
            return UnicodeDecodeError(e, b'', 0, 1, msg)
        if len(its) % 2 and errors == 'strict':
            # a truncated unit is an error, whatever comes before
            pass
        while i + 1 < len(its):
            hi, lo = (its[i], its[i + 1]) if big else (its[i + 1], its[i])
            i += 2
            if branch(hi_in(hi, 0xd8, 0xdb)):
                if i + 1 >= len(its):
                    if errors == 'ignore':
                        break
                    if errors == 'replace':
                        out.append(0xfffd)
                        i = len(its)
                        break
                    raise bad('unexpected end of data')
                h2, l2 = (its[i], its[i + 1]) if big else (its[i + 1], its[i])
                if branch(hi_in(h2, 0xdc, 0xdf)):
                    i += 2
                    out.append((hi * 256 + lo - 0xd800) * 1024 + (h2 * 256 + l2 - 0xdc00) + 0x10000)
                else:
                    if errors == 'replace':
                        out.append(0xfffd)
                        continue
                    if errors == 'ignore':
                        continue
                    raise bad('illegal UTF-16 surrogate')
            elif branch(hi_in(hi, 0xdc, 0xdf)):
                if errors == 'replace':
                    out.append(0xfffd)
                    continue
                if errors == 'ignore':
                    continue
                raise bad('illegal encoding')
            else:
                out.append(hi * 256 + lo)
        if i < len(its):
            if errors == 'replace':
                out.append(0xfffd)
            elif errors == 'strict':
                raise bad('truncated data')
        return seq_of(str, out)
    if e == 'utf-8':
        i = 0
        while i < len(its):
            x = its[i]
            if branch(cmp0(x - 128, '<')):
                out.append(x)
                i += 1
                continue
            if branch(cmp0(x - 0xc2, '<')) or branch(cmp0(x - 0xf4, '>')):
                n = None
            elif branch(cmp0(x - 0xe0, '<')):
                n = 1
            elif branch(cmp0(x - 0xf0, '<')):
                n = 2
            else:
                n = 3
            ok = n is not None
            k = 0
            if ok:
                for k in range(1, n + 1):
                    if i + k >= len(its):
                        ok = False
                        break
                    lo, hi = 0x80, 0xbf
                    if k == 1:
                        if branch(eq(x, 0xe0)):
                            lo = 0xa0
                        elif branch(eq(x, 0xed)):
                            hi = 0x9f
                        elif branch(eq(x, 0xf0)):
                            lo = 0x90
                        elif branch(eq(x, 0xf4)):
                            hi = 0x8f
                    if not branch(hi_in(its[i + k], lo, hi)):
                        ok = False
                        break
            if ok:
                v = x - (0xc0, 0xe0, 0xf0)[n - 1]
                for k in range(1, n + 1):
                    v = v * 64 + (its[i + k] - 0x80)
                out.append(v)
                i += n + 1
            else:
                if errors == 'strict':
                    raise UnicodeDecodeError('utf-8', b'', 0, 1, 'invalid')
                if errors == 'replace':
                    out.append(0xfffd)
                elif errors != 'ignore':
                    raise Unsupported('codec error handler')
                i += max(1, k)
        return seq_of(str, out)
    if e not in ('ascii', 'iso8859-1', 'cp1252', 'mac-roman', 'latin-1') and len(codec_table(e)) == 256 and e.startswith('utf'):
        raise Unsupported('codec ' + e)
    t = codec_table(e)
    if all(v is None for v in t):
        raise Unsupported('codec ' + e)
    for x in its:
        if not isinstance(x, SymNum):
            v = t[x]
        else:
            badv = [i for i in range(256) if t[i] is None]
            if badv and branch(in_set(x, badv)):
                v = None
            else:
                v = apply_unary(x, lambda w: t[w])
                if v is None:
                    v = t[concretize(x)]
        if v is None:
            if errors == 'strict':
                raise UnicodeDecodeError(e, b'', 0, 1, 'character maps to <undefined>')
            if errors == 'replace':
                out.append(0xfffd)
            elif errors != 'ignore':
                raise Unsupported('codec error handler ' + str(errors))
        else:
            out.append(v)
    return seq_of(str, out)


def hi_in(x, a, b):
    return mk_and([cmp0(x - a, '>='), cmp0(x - b, '<=')])


def in_set(x, vals):
    """x in vals as one condition."""
    x = norm(x)
    if not isinstance(x, SymNum):
        return x in vals
    b = single_small(x)
    if b is not None:
        vs = set(vals)
        tab = unary_table(x, b)
        m = 0
        for i, v in enumerate(tab):
            if v in vs:
                m |= 1 << i
        return mk_mask(b, m)
    vals = list(vals)
    if len(vals) > 3 and all(type(v) is int for v in vals):
        runs = []
        for v in sorted(set(vals)):
            if runs and v == runs[-1][1] + 1:
                runs[-1][1] = v
            else:
                runs.append([v, v])
        return mk_or([eq(x, a) if a == e else hi_in(x, a, e) for a, e in runs])
    return mk_or([eq(x, v) for v in vals])


def encode_str(s, encoding, errors='strict'):
    if type(s) is str:
        return s.encode(encoding, errors)
    e = enc_name(encoding)
    out = []
    if e in ('ascii', 'iso8859-1'):
        lim = 128 if e == 'ascii' else 256
        for x in s.items():
            if branch(cmp0(x - lim, '<')):
                out.append(x)
            elif errors == 'strict':
                raise UnicodeEncodeError(e, '', 0, 1, 'ordinal not in range')
            elif errors == 'replace':
                out.append(63)
            elif errors != 'ignore':
                raise Unsupported('codec error handler')
        return seq_of(bytes, out)
    if e in ('utf-16-be', 'utf-16-le', 'utf-16'):
        big = e == 'utf-16-be'
        if e == 'utf-16':
            out += [0xff, 0xfe]
        for x in s.items():
            if branch(cmp0(x - 0x10000, '<')):
                if branch(hi_in(x, 0xd800, 0xdfff)):
                    raise UnicodeEncodeError(e, '', 0, 1, 'surrogates not allowed')
                units = [x]
            else:
                y = x - 0x10000
                q, r = num_divmod(y, 1024)
                units = [q + 0xd800, r + 0xdc00]
            for u in units:
                lo, hi = radix_digits(u, 256, 2)
                out += [hi, lo] if big else [lo, hi]
        return seq_of(bytes, out)
    if e == 'utf-8':
        for x in s.items():
            if branch(cmp0(x - 128, '<')):
                out.append(x)
            elif branch(cmp0(x - 0x800, '<')):
                q, r = num_divmod(x, 64)
                out += [q + 0xc0, r + 0x80]
            elif branch(cmp0(x - 0x10000, '<')):
                if branch(hi_in(x, 0xd800, 0xdfff)):
                    raise UnicodeEncodeError(e, '', 0, 1, 'surrogates not allowed')
                q, r = num_divmod(x, 64)
                q2, r2 = num_divmod(q, 64)
                out += [q2 + 0xe0, r2 + 0x80, r + 0x80]
            else:
                q, r = num_divmod(x, 64)
                q2, r2 = num_divmod(q, 64)
                q3, r3 = num_divmod(q2, 64)
                out += [q3 + 0xf0, r3 + 0x80, r2 + 0x80, r + 0x80]
        return seq_of(bytes, out)
    t = codec_table(e)
    inv = {}
    for i, v in enumerate(t):
        if v is not None:
            inv.setdefault(v, i)
    for x in s.items():
        if not isinstance(x, SymNum):
            if x not in inv:
                if errors == 'strict':
                    raise UnicodeEncodeError(e, '', 0, 1, 'character maps to <undefined>')
                out += list(chr(x).encode(e, errors))
                continue
            out.append(inv[x])
            continue
        if branch(in_set(x, list(inv))):
            r = apply_unary(x, lambda v: inv[v])
            out.append(r if r is not None else inv[concretize(x)])
        elif errors == 'strict':
            raise UnicodeEncodeError(e, '', 0, 1, 'character maps to <undefined>')
        elif errors == 'replace':
            out.append(63)
        elif errors != 'ignore':
            raise Unsupported('codec error handler')
    return seq_of(bytes, out)


# --------------------------------------------------------------------------
# z3 encoding

def z3_var(v):
    if v.z is None:
        if v.base is not None:
            zb = z3_var(v.base)
            # runs where the table is constant or a shift of the index
            t = v.table
            lo = v.base.lo
            runs = []
            i = 0
            n = len(t)
            while i < n:
                j = i + 1
                # shift run
                while j < n and t[j] - t[i] == j - i:
                    j += 1
                k = i + 1
                while k < n and t[k] == t[i]:
                    k += 1
                if k >= j:
                    runs.append((i, k - 1, 'c'))
                    i = k
                else:
                    runs.append((i, j - 1, 's'))
                    i = j
            e = None
            frac = any(type(x) is Fraction for x in t)
            for a, b, kind in reversed(runs):
                if kind == 'c':
                    val = z3.RealVal(str(t[a])) if frac else z3.IntVal(t[a])
                else:
                    val = zb + (t[a] - (a + lo))
                    if frac:
                        val = z3.ToReal(val)
                e = val if e is None else z3.If(zb <= b + lo, val, e)
            v.z = e
        elif v.real:
            v.z = z3.Real(f"{v.name}!{v.id}")
        else:
            v.z = z3.Int(f"{v.name}!{v.id}")
    return v.z


def z3_num(p, mention):
    """z3 term of p (a SymNum) scaled to integer coefficients."""
    den = 1
    import math
    for c in list(p.t.values()) + [p.c]:
        if type(c) is Fraction:
            den = den * c.denominator // math.gcd(den, c.denominator)
    real = any(v.real or (v.base is not None and any(type(x) is Fraction for x in v.table)) for k in p.t for v in key_vars(k))
    terms = []
    for k, c in p.t.items():
        c = int(c * den)
        e = None
        for v in key_vars(k):
            mention.add(v.base or v)
            x = z3_var(v)
            if real and x.sort() == z3.IntSort():
                x = z3.ToReal(x)
            e = x if e is None else e * x
        terms.append(e if c == 1 else c * e)
    c = int(p.c * den)
    if c or not terms:
        terms.append(z3.RealVal(c) if real else z3.IntVal(c))
    return z3.Sum(terms) if len(terms) > 1 else terms[0]


def z3_mask(v, m):
    zv = z3_var(v)
    l = []
    for a, b in mask_runs(m):
        if a == b:
            l.append(zv == a + v.lo)
        else:
            l.append(z3.And(zv >= a + v.lo, zv <= b + v.lo))
    return l[0] if len(l) == 1 else z3.Or(l) if l else z3.BoolVal(False)


def z3_bool(b, mention):
    if b is True or b is False:
        return z3.BoolVal(b)
    if b.k == 'm':
        mention.add(b.x)
        return z3_mask(b.x, b.y)
    if b.k == 'c':
        e = z3_num(b.x, mention)
        zero = 0
        if b.y == '==':
            return e == zero
        if b.y == '!=':
            return e != zero
        if b.y == '<':
            return e < zero
        return e <= zero
    l = [z3_bool(x, mention) for x in b.x]
    return z3.And(l) if b.k == 'a' else z3.Or(l)


# --------------------------------------------------------------------------
# a path

class Path:
    def __init__(self, prefix, opts):
        self.prefix = prefix
        self.opts = opts
        self.trace = []          # (choice, alternatives)
        self.vid = 0
        self.dom = {}
        self.bounds = {}
        self.subst = {}
        self.memo = {}
        self.zmention = set()
        self.zcons = []
        self.solver = None
        self.inputs = []         # (name, SymNum or value)
        self.checks = []         # (formula, message)
        self.obs = []
        self.unsupported = []
        self.steps = 0
        self.max_steps = opts.get('max_steps', 2000000)
        self.deadline = time.time() + opts.get('path_seconds', 60)
        self.stats = {'z3': 0, 'z3_s': 0.0, 'conc': 0}
        self.out = []            # captured prints
        self.registry = []       # stubs' state
        self.reached = 0

    # --- variables
    def fresh(self, name, lo, hi, real=False):
        self.vid += 1
        if not real and lo is not None and lo == hi:
            return lo
        v = intern_var(self.vid, name, lo, hi, real)
        return SymNum({v: 1}, 0, False)

    def set_mask(self, v, m):
        if not m:
            raise Infeasible()
        self.dom[v] = m
        if m & (m - 1) == 0:
            self.subst[v] = v.lo + mask_min(m)
        if v in self.zmention and self.solver is not None:
            self.solver.add(z3_mask(v, m))

    # --- decisions
    def fork(self, n, feas):
        pos = len(self.trace)
        if pos < len(self.prefix):
            ch = self.prefix[pos]
            if ch >= n:
                raise RuntimeError(f'replay diverged: choice {ch} of {n} at {pos}')
            self.trace.append((ch, ()))
            return ch
        if feas is None:
            alts = list(range(n))
        else:
            alts = [i for i in range(n) if feas(i)]
        if not alts:
            raise Infeasible()
        if len(alts) > 1 and self.opts.get('order') is not None:
            r = self.opts['order'](len(alts))
            alts = alts[r:] + alts[:r]
        self.trace.append((alts[0], tuple(alts[1:])))
        if len(self.trace) > self.opts.get('max_decisions', 20000):
            raise StepLimit('decisions')
        return alts[0]

    # --- constraints
    def exact_bound(self, b):
        """b is a bound on one large variable that occurs nowhere else: both sides are feasible."""
        if b.k != 'c' or b.y == '!=' or b.y == '==':
            if b.k == 'c' and len(b.x.t) == 1:
                (k, c), = b.x.t.items()
                if type(k) is Var and k not in self.zmention and not k.real and type(c) is int and c in (1, -1):
                    return True
            return False
        if len(b.x.t) != 1:
            return False
        (k, c), = b.x.t.items()
        return type(k) is Var and k not in self.zmention and not k.real and not k.small and k.base is None

    def add(self, b):
        """Add a constraint known to be consistent with the path (or not: then z3 tells later)."""
        if b is True:
            return
        if b is False:
            raise Infeasible()
        b = refresh(b)
        if b is True:
            return
        if b is False:
            raise Infeasible()
        if b.k == 'a':
            for x in b.x:
                self.add(x)
            return
        if b.k == 'm':
            v = b.x
            self.set_mask(v, self.dom.get(v, v.full) & b.y)
            return
        if b.k == 'c' and len(b.x.t) == 1:
            (k, c), = b.x.t.items()
            if type(k) is Var and not k.real and not k.small and k.base is None and type(c) in (int, Fraction):
                lo, hi = var_range(k)
                # c*k + d op 0
                d = b.x.c
                q = Fraction(-d) / c
                import math
                done = False
                if b.y == '==':
                    if q.denominator != 1:
                        raise Infeasible()
                    lo = hi = int(q)
                    done = True
                elif b.y in ('<', '<='):
                    if c > 0:
                        n = math.floor(q) if b.y == '<=' else math.ceil(q) - 1
                        hi = n if hi is None else min(hi, n)
                    else:
                        n = math.ceil(q) if b.y == '<=' else math.floor(q) + 1
                        lo = n if lo is None else max(lo, n)
                    done = True
                elif b.y == '!=' and q.denominator == 1 and int(q) in (lo, hi):
                    if int(q) == lo:
                        lo += 1
                    else:
                        hi -= 1
                    done = True
                if done:
                    if lo is not None and hi is not None and lo > hi:
                        raise Infeasible()
                    self.bounds[k] = (lo, hi)
                    if lo is not None and lo == hi:
                        self.subst[k] = lo
                    if k in self.zmention:
                        self.zassert(b)
                    return
        self.zassert(b)

    def zassert(self, b):
        self.zcons.append(b)
        self.mention(b)
        if self.solver is not None:
            self.solver.add(z3_bool(b, set()))

    def mention(self, b):
        new = set()
        collect_vars(b, new)
        new -= self.zmention
        for v in new:
            self.zmention.add(v)
            if self.solver is not None:
                self.zvar_bounds(self.solver, v)

    def zvar_bounds(self, s, v):
        if v.small:
            m = self.dom.get(v, v.full)
            s.add(z3_mask(v, m))
        else:
            lo, hi = var_range(v)
            zv = z3_var(v)
            if lo is not None:
                s.add(zv >= lo)
            if hi is not None:
                s.add(zv <= hi)
            sub = self.subst.get(v)
            if isinstance(sub, SymNum):
                m = set()
                e = z3_num(sub, m)
                s.add(zv == e)
                for w in m:
                    if w not in self.zmention:
                        self.zmention.add(w)
                        self.zvar_bounds(s, w)

    def get_solver(self):
        if self.solver is None:
            s = z3.SimpleSolver() if self.opts.get('simple', False) else z3.Solver()
            s.set('timeout', self.opts.get('z3_ms', 20000))
            for v in list(self.zmention):
                self.zvar_bounds(s, v)
            for b in self.zcons:
                s.add(z3_bool(b, set()))
            self.solver = s
        return self.solver

    def zcheck(self, extra, want_model=False):
        """Satisfiability of the path condition with extra conditions."""
        t0 = time.time()
        s = self.get_solver()
        s.push()
        try:
            loc = set()
            es = [z3_bool(b, loc) for b in extra]
            for v in loc:
                if v not in self.zmention:
                    self._local_bounds(s, v, set())
            for e in es:
                s.add(e)
            r = s.check()
            self.stats['z3'] += 1
            if r == z3.unknown:
                # second opinion: fresh solver, then cvc5
                s2 = z3.Tactic('smt').solver() if False else z3.Solver()
                s2.set('timeout', self.opts.get('z3_ms', 20000) * 2)
                s2.add(s.assertions())
                r = s2.check()
                if r == z3.unknown:
                    raise Inconclusive('z3 unknown: ' + s.reason_unknown())
                return (r == z3.sat), (s2.model() if r == z3.sat and want_model else None)
            return (r == z3.sat), (s.model() if r == z3.sat and want_model else None)
        finally:
            s.pop()
            self.stats['z3_s'] += time.time() - t0

    def _local_bounds(self, s, v, seen):
        if v in seen:
            return
        seen.add(v)
        if v.small:
            s.add(z3_mask(v, self.dom.get(v, v.full)))
            return
        lo, hi = var_range(v)
        zv = z3_var(v)
        if lo is not None:
            s.add(zv >= lo)
        if hi is not None:
            s.add(zv <= hi)
        sub = self.subst.get(v)
        if isinstance(sub, SymNum):
            m = set()
            s.add(zv == z3_num(sub, m))
            for w in m:
                if w not in self.zmention:
                    self._local_bounds(s, w, seen)

    def zfeasible(self, b):
        b = refresh(b)
        if b is True:
            return True
        if b is False:
            return False
        return self.zcheck([b])[0]

    def assume(self, b):
        """Restrict the path; ends it if impossible."""
        b = refresh(b)
        if b is True:
            return
        if b is False:
            raise Infeasible()
        if not isinstance(b, SymBool):
            if not b:
                raise Infeasible()
            return
        if b.k == 'a':
            for x in b.x:
                self.assume(x)
            return
        if b.k == 'm' and b.x not in self.zmention:
            self.add(b)
            return
        if b.k == 'c' and self.exact_bound(b):
            self.add(b)
            return
        if len(self.trace) >= len(self.prefix):
            if not self.zfeasible(b):
                raise Infeasible()
        self.add(b)

    # --- models
    def model_values(self, extra=()):
        """Concrete values of all inputs satisfying the path condition and extra, or None."""
        ok, m = self.zcheck(list(extra), want_model=True)
        if not ok:
            return None
        self.last_model = m
        return {name: self.eval_in(m, v) for name, v in self.inputs}

    def eval_var(self, m, v, memo):
        if v in memo:
            return memo[v]
        if v.base is not None:
            return v.table[self.eval_var(m, v.base, memo) - v.base.lo]
        s = self.subst.get(v)
        if s is not None and not isinstance(s, SymNum):
            r = s
        elif isinstance(s, SymNum):
            r = self.eval_poly(m, s, memo)
        else:
            z = m[z3_var(v)] if m is not None else None
            if z is not None:
                r = z.as_long() if z3.is_int_value(z) else Fraction(z.numerator_as_long(), z.denominator_as_long()) if z3.is_rational_value(z) else Fraction(z.approx(20).as_fraction())
            else:
                lo, hi = var_range(v)
                if v.small:
                    md = self.dom.get(v, v.full)
                    # prefer printable values in samples
                    vals = [v.lo + i for a, e in mask_runs(md) for i in range(a, min(e, a + 40) + 1)]
                    pr = [x for x in vals if 97 <= x <= 122]
                    r = pr[0] if pr else vals[0]
                elif lo is not None:
                    r = lo
                elif hi is not None:
                    r = hi
                else:
                    r = 0
        memo[v] = r
        return r

    def eval_poly(self, m, p, memo):
        r = p.c
        for k, c in p.t.items():
            t = c
            for v in key_vars(k):
                t = t * self.eval_var(m, v, memo)
            r = r + t
        return to_const(r) if type(r) is Fraction else r

    def eval_in(self, m, x):
        memo = getattr(m, '_memo', None)
        if memo is None:
            memo = {}
            if m is not None:
                m._memo = memo
        return eval_model(self, m, memo, x)

    # --- leaving exactness
    def recorded(self):
        pos = len(self.trace)
        if pos < len(self.prefix):
            self.trace.append((self.prefix[pos], ()))
            return True, self.prefix[pos]
        return False, None

    def pin(self, x, why):
        """Fix x to one feasible value: the path is no longer exhaustive."""
        self.note_unsupported(f"pinned: {why}")
        got, v = self.recorded()
        if got:
            self.add(cmp0(x - v, '=='))
            return v
        ok, m = self.zcheck([], want_model=True)
        if not ok:
            raise Infeasible()
        v = self.eval_in(m, x)
        if type(v) is float:
            v = to_const(v)
        self.trace.append((v, ()))
        self.add(cmp0(x - v, '=='))
        return v

    def pin_seq(self, s):
        got, rec = self.recorded()
        if got:
            vals = []
            for x, v in zip(s.items(), rec):
                x = norm(x)
                if isinstance(x, SymNum):
                    self.add(cmp0(x - v, '=='))
                vals.append(v)
            return native_of(s.native, vals)
        ok, m = self.zcheck([], want_model=True)
        if not ok:
            raise Infeasible()
        memo = {}
        vals = []
        for x in s.items():
            x = norm(x)
            if isinstance(x, SymNum):
                v = self.eval_poly(m, x, memo)
                self.add(cmp0(x - v, '=='))
                vals.append(v)
            else:
                vals.append(x)
        self.trace.append((tuple(vals), ()))
        return native_of(s.native, vals)

    def pin_deep(self, x):
        t = type(x)
        if t is SymNum:
            n = norm(x)
            if not isinstance(n, SymNum):
                return n
            b = single_small(n)
            v = self.pin(n, 'native call')
            return float(v) if x.f else v
        if t is SymBool:
            return bool(x)
        if t is SymComplex:
            return complex(self.pin_deep(x.re), self.pin_deep(x.im))
        if t is SymBytes or t is SymStr:
            return self.pin_seq(x)
        if t is SymSet:
            return {self.pin_deep(y) for y in x.items_list()}
        if t is SymBuffer or t is SymView:
            return bytearray(self.pin_deep(x.v))
        if t is list:
            return [self.pin_deep(y) for y in x]
        if t is tuple:
            return tuple(self.pin_deep(y) for y in x)
        if t is dict:
            return {self.pin_deep(k): self.pin_deep(v) for k, v in x.items()}
        return x

    def note_unsupported(self, why):
        self.unsupported.append(why)

    def note_conc(self, why):
        self.stats['conc'] += 1

    def step(self):
        self.steps += 1
        if self.steps > self.max_steps:
            raise StepLimit('steps')
        if not self.steps & 1023 and time.time() > self.deadline:
            raise StepLimit('time')


def collect_vars(b, out):
    if b is True or b is False:
        return
    if b.k == 'm':
        out.add(b.x)
    elif b.k == 'c':
        for k in b.x.t:
            for v in key_vars(k):
                out.add(v.base or v)
    else:
        for x in b.x:
            collect_vars(x, out)


def eval_model(path, m, memo, x):
    """Concrete Python value of a symbolic structure under a model."""
    t = type(x)
    if t is SymNum:
        v = path.eval_poly(m, x, memo)
        if x.f:
            return float(v)
        return v
    if t is SymComplex:
        return complex(eval_model(path, m, memo, x.re), eval_model(path, m, memo, x.im))
    if t is SymBytes or t is SymStr:
        return native_of(x.native, [eval_model(path, m, memo, y) for y in x.items()])
    if t is SymSet:
        return {eval_model(path, m, memo, y) for y in x.items_list()}
    if t is SymBuffer or t is SymView:
        return eval_model(path, m, memo, x.v)
    if t is SymBool:
        return eval_bool(path, m, memo, x)
    if t is list:
        return [eval_model(path, m, memo, y) for y in x]
    if t is tuple:
        return tuple(eval_model(path, m, memo, y) for y in x)
    if isinstance(x, tuple):
        return tuple(eval_model(path, m, memo, y) for y in x)
    if t is dict:
        return {eval_model(path, m, memo, k): eval_model(path, m, memo, v) for k, v in x.items()}
    if hasattr(x, '__dataclass_fields__'):
        return ('dataclass', t.__name__) + tuple(eval_model(path, m, memo, getattr(x, f)) for f in x.__dataclass_fields__)
    return x


def eval_bool(path, m, memo, b):
    if b is True or b is False:
        return b
    if b.k == 'm':
        v = path.eval_var(m, b.x, memo)
        return bool((b.y >> (v - b.x.lo)) & 1)
    if b.k == 'c':
        v = path.eval_poly(m, b.x, memo)
        return {'==': v == 0, '!=': v != 0, '<': v < 0, '<=': v <= 0}[b.y]
    if b.k == 'a':
        return all(eval_bool(path, m, memo, x) for x in b.x)
    return any(eval_bool(path, m, memo, x) for x in b.x)
