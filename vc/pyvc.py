"""Deductive verification of the real Python code.

The functions of /repo are executed on symbolic values: every path through them is explored (a branch whose
condition is not decided by the path condition is explored both ways), and on every path each contract clause
becomes a verification condition that z3 must discharge (`ensure`).  Inputs range over their whole type
(integers are mathematical integers, floats are all finite or non-finite doubles with IEEE rounding modelled by
its error bound, byte strings of the stated length have arbitrary content, character strings are arbitrary).

Callees named by a contract are replaced by *their* contract.  Library functions (struct, time, ...) have the
contracts in `pyshim.py`.  An operation that has no symbolic meaning raises Unsupported: the job then is not proved.

The same contract runs natively (class Native): the real module, concrete inputs.  That is how a counterexample
is replayed and how failing inputs are searched for.
"""
import z3, ast, os, re, sys, builtins, types, random, json, time, importlib, math
from fractions import Fraction as Q

REPO = os.environ.get('VERIF_REPO', '/repo')


class Unsupported(BaseException):
    pass


class PathEnd(BaseException):
    """assume(False)"""


class Skip(BaseException):
    """native: precondition not met"""


class Failure(BaseException):
    """native: contract clause violated"""


E = None        # the current engine

BIG = 2 ** 1024
INF = 10 ** 400


def rv(x):
    if isinstance(x, z3.ExprRef):
        return x
    if isinstance(x, bool):
        x = int(x)
    if isinstance(x, int):
        return z3.RealVal(x)
    if isinstance(x, Q):
        return z3.Q(x.numerator, x.denominator)
    if isinstance(x, float):
        if x != x:
            raise Unsupported('nan constant')
        if x in (float('inf'), float('-inf')):
            return z3.RealVal(INF if x > 0 else -INF)
        return rv(Q(x))
    raise Unsupported('real %r' % (x,))


def iv(x):
    if isinstance(x, z3.ExprRef):
        return x
    return z3.IntVal(int(x))


def unwrap_bool(x):
    if isinstance(x, SymBool):
        return x.e
    if isinstance(x, z3.BoolRef):
        return x
    if isinstance(x, (bool, int)):
        return z3.BoolVal(bool(x))
    raise Unsupported('bool of %r' % (x,))


class Sym:
    __slots__ = ()
    pytype = None

    def __hash__(self):
        if E.hash_ok:
            return id(self)
        raise Unsupported('hash of a symbolic value')

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self

    def __getattr__(self, n):
        if n.startswith('__') and n.endswith('__'):
            raise AttributeError(n)
        t = self.pytype
        if t is not None and not hasattr(t, n):
            raise AttributeError("'%s' object has no attribute '%s'" % (t.__name__, n))
        raise Unsupported('%s.%s' % (type(self).__name__, n))


class SymBool(Sym):
    __slots__ = ('e',)
    pytype = bool

    def __init__(self, e):
        self.e = e

    def __bool__(self):
        return E.branch(self.e)

    def _i(self):
        return SymInt(z3.If(self.e, z3.IntVal(1), z3.IntVal(0)))

    def __and__(self, o):
        return mkbool(z3.And(self.e, unwrap_bool(o)))
    __rand__ = __and__

    def __or__(self, o):
        return mkbool(z3.Or(self.e, unwrap_bool(o)))
    __ror__ = __or__

    def __xor__(self, o):
        return mkbool(z3.Xor(self.e, unwrap_bool(o)))

    def __eq__(self, o):
        if isinstance(o, (bool, SymBool)):
            return mkbool(self.e == unwrap_bool(o))
        if isinstance(o, (int, SymInt)):
            return self._i() == o
        return False

    def __ne__(self, o):
        return Not(self == o)
    __hash__ = Sym.__hash__

    def __add__(self, o):
        return self._i() + o
    __radd__ = __add__

    def __mul__(self, o):
        return self._i() * o
    __rmul__ = __mul__

    def __int__(self):
        return 1 if self else 0
    __index__ = __int__

    def __format__(self, spec):
        raise Unsupported('format outside of an f-string')

    def __repr__(self):
        return 'SymBool(%s)' % self.e


def mkbool(e):
    e = z3.simplify(e)
    if z3.is_true(e):
        return True
    if z3.is_false(e):
        return False
    return SymBool(e)


def And(*a):
    if all(x is True or x is False for x in a):
        return all(a)
    return mkbool(z3.And(*[unwrap_bool(x) for x in a])) if a else True


def Or(*a):
    if all(x is True or x is False for x in a):
        return any(a)
    return mkbool(z3.Or(*[unwrap_bool(x) for x in a])) if a else False


def Not(a):
    if a is True or a is False:
        return not a
    return mkbool(z3.Not(unwrap_bool(a)))


def Implies(a, b):
    if a is False or b is True:
        return True
    if a is True and b is False:
        return False
    return mkbool(z3.Implies(unwrap_bool(a), unwrap_bool(b)))


def isnum(x):
    return isinstance(x, (int, float, SymInt, SymFloat, SymBool, Q))


class SymInt(Sym):
    __slots__ = ('e',)
    pytype = int

    def __init__(self, e):
        self.e = e

    @staticmethod
    def of(x):
        if isinstance(x, SymInt):
            return x.e
        if isinstance(x, SymBool):
            return x._i().e
        if isinstance(x, (bool, int)):
            return z3.IntVal(int(x))
        return None

    def _bin(self, o, f):
        b = SymInt.of(o)
        if b is None:
            if isinstance(o, (float, SymFloat, Q)):
                return None
            return NotImplemented
        return mkint(f(self.e, b))

    def __add__(self, o):
        r = self._bin(o, lambda a, b: a + b)
        return r if r is not None else self.fl() + o
    __radd__ = __add__

    def __sub__(self, o):
        r = self._bin(o, lambda a, b: a - b)
        return r if r is not None else self.fl() - o

    def __rsub__(self, o):
        r = self._bin(o, lambda a, b: b - a)
        return r if r is not None else o - self.fl()

    def __mul__(self, o):
        if isinstance(o, (str, bytes, list, tuple)):
            return NotImplemented
        r = self._bin(o, lambda a, b: a * b)
        return r if r is not None else self.fl() * o
    __rmul__ = __mul__

    def __truediv__(self, o):
        return self.fl() / o

    def __rtruediv__(self, o):
        return mkfl(o) / self.fl()

    def _divisor(self, o):
        b = SymInt.of(o)
        if b is None:
            raise Unsupported('floor division by %r' % (o,))
        b = z3.simplify(b)
        if not z3.is_int_value(b):
            raise Unsupported('floor division by a symbolic value')
        v = b.as_long()
        if v == 0:
            raise ZeroDivisionError('integer division or modulo by zero')
        return v

    def __floordiv__(self, o):
        v = self._divisor(o)
        return mkint(self.e / v) if v > 0 else mkint((-self.e) / (-v))

    def __mod__(self, o):
        v = self._divisor(o)
        return mkint(self.e % v) if v > 0 else mkint(-((-self.e) % (-v)))

    def __divmod__(self, o):
        return (self // o, self % o)

    def __rfloordiv__(self, o):
        return o // self.__index__()

    def __rmod__(self, o):
        return o % self.__index__()

    def __lshift__(self, o):
        return self * (1 << int(o))

    def __rlshift__(self, o):
        return o << self.__index__()

    def __rshift__(self, o):
        return self // (1 << int(o))

    def __and__(self, o):
        if isinstance(o, SymInt) or not isinstance(o, int):
            raise Unsupported('& of symbolic values')
        if o < 0:
            return self - (self & ~o)
        r = 0
        bit = 0
        while o >> bit:
            if (o >> bit) & 1:
                lo = bit
                while (o >> bit) & 1:
                    bit += 1
                r = r + ((self // (1 << lo)) % (1 << (bit - lo))) * (1 << lo)
            else:
                bit += 1
        return r
    __rand__ = __and__

    def __or__(self, o):
        if isinstance(o, SymInt) or not isinstance(o, int):
            b = SymInt.of(o)
            # a | b == a + b when no bit is set in both: decided for constant power-of-two multiples
            for (x, y) in ((self.e, b), (b, self.e)):
                for k in (8, 16, 24, 4, 1, 2, 3, 5, 6, 7):
                    if E.valid(z3.And(x >= 0, x < (1 << k), y % (1 << k) == 0)):
                        return mkint(x + y)
            raise Unsupported('| of symbolic values')
        return self + (o - (self & o))
    __ror__ = __or__

    def __xor__(self, o):
        if isinstance(o, SymInt) or not isinstance(o, int):
            raise Unsupported('^ of symbolic values')
        return self + o - 2 * (self & o)
    __rxor__ = __xor__

    def __invert__(self):
        return mkint(-self.e - 1)

    def __neg__(self):
        return mkint(-self.e)

    def __pos__(self):
        return self

    def __abs__(self):
        return mkint(z3.If(self.e >= 0, self.e, -self.e))

    def fl(self):
        if E.valid(z3.And(self.e >= -2 ** 53, self.e <= 2 ** 53)):
            return SymFloat(z3.ToReal(self.e))
        return SymFloat(E.round64(z3.ToReal(self.e)))

    def _cmp(self, o, f):
        b = SymInt.of(o)
        if b is not None:
            return mkbool(f(self.e, b))
        if isinstance(o, (float, SymFloat, Q)):
            return mkfl(self)._cmp(o, f)
        return NotImplemented

    def __lt__(self, o):
        return self._cmp(o, lambda a, b: a < b)

    def __le__(self, o):
        return self._cmp(o, lambda a, b: a <= b)

    def __gt__(self, o):
        return self._cmp(o, lambda a, b: a > b)

    def __ge__(self, o):
        return self._cmp(o, lambda a, b: a >= b)

    def __eq__(self, o):
        r = self._cmp(o, lambda a, b: a == b)
        return False if r is NotImplemented else r

    def __ne__(self, o):
        return Not(self == o)
    __hash__ = Sym.__hash__

    def __bool__(self):
        return E.branch(self.e != 0)

    def __index__(self):
        return E.concretize(self.e)
    __int__ = __index__

    def __float__(self):
        return float(E.concretize(self.e))

    def __round__(self, n=None):
        return self

    def __trunc__(self):
        return self

    def bit_length(self):
        return E.concretize(self.e).bit_length()

    def to_bytes(self, n=1, byteorder='big', signed=False):
        lo, hi = (-(1 << (8 * n - 1)), (1 << (8 * n - 1)) - 1) if signed else (0, (1 << (8 * n)) - 1)
        if not And(self >= lo, self <= hi):
            raise OverflowError('int too big to convert')
        v = [self // (1 << (8 * i)) % 256 for i in range(n)]
        return SymBytes(v if byteorder == 'little' else v[::-1])

    def __repr__(self):
        return 'SymInt(%s)' % self.e

    def __format__(self, spec):
        raise Unsupported('format outside of an f-string')
    __str__ = __repr__


def mkint(e):
    e = z3.simplify(e)
    if z3.is_int_value(e):
        return e.as_long()
    return SymInt(e)


def leaves(f, a, b):
    """round64(f(a, b)), computed separately for the cases of an if-then-else with constants"""
    for x, g in ((a, lambda v: leaves(f, v, b)), (b, lambda v: leaves(f, a, v))):
        if z3.is_app_of(x, z3.Z3_OP_ITE) and (z3.is_rational_value(x.arg(1)) or z3.is_rational_value(x.arg(2))):
            return z3.If(x.arg(0), g(x.arg(1)), g(x.arg(2)))
    return E.round64(f(a, b))


class SymFloat(Sym):
    """A double: `e` is its value as a real number (|e| >= 2^1024: infinity), unless `nan`."""
    __slots__ = ('e', 'nan')
    pytype = float

    def __init__(self, e, nan=None):
        self.e = e
        self.nan = z3.BoolVal(False) if nan is None else nan

    def _op(self, o, f):
        b = mkfl(o)
        if b is None:
            return NotImplemented
        return SymFloat(leaves(f, self.e, b.e), z3.simplify(z3.Or(self.nan, b.nan)))

    def __add__(self, o):
        return self._op(o, lambda a, b: a + b)
    __radd__ = __add__

    def __sub__(self, o):
        return self._op(o, lambda a, b: a - b)

    def __rsub__(self, o):
        return mkfl(o) - self

    def __mul__(self, o):
        if isinstance(o, (int, float)) and o == 1:
            return self
        return self._op(o, lambda a, b: a * b)
    __rmul__ = __mul__

    def __truediv__(self, o):
        if isinstance(o, (int, float)) and o == 1:
            return self
        b = mkfl(o)
        if b is None:
            return NotImplemented
        if E.branch(b.e == 0):
            raise ZeroDivisionError('float division by zero')
        return self._op(b, lambda a, c: a / c)

    def __rtruediv__(self, o):
        return mkfl(o) / self

    def __neg__(self):
        return SymFloat(z3.simplify(-self.e), self.nan)

    def __pos__(self):
        return self

    def __abs__(self):
        return SymFloat(z3.simplify(z3.If(self.e >= 0, self.e, -self.e)), self.nan)

    def _cmp(self, o, f):
        b = mkfl(o)
        if b is None:
            return NotImplemented
        E.monotone(self.e, b.e)
        E.monotone(b.e, self.e)
        return mkbool(z3.And(z3.Not(self.nan), z3.Not(b.nan), f(self.e, b.e)))

    __lt__ = SymInt.__lt__
    __le__ = SymInt.__le__
    __gt__ = SymInt.__gt__
    __ge__ = SymInt.__ge__
    __eq__ = SymInt.__eq__
    __ne__ = SymInt.__ne__
    __hash__ = Sym.__hash__

    def __bool__(self):
        return E.branch(z3.Or(self.nan, self.e != 0))

    def trunc(self):
        if E.branch(self.nan):
            raise ValueError('cannot convert float NaN to integer')
        if E.branch(z3.Or(self.e >= BIG, self.e <= -BIG)):
            raise OverflowError('cannot convert float infinity to integer')
        return mkint(z3.If(self.e >= 0, z3.ToInt(self.e), -z3.ToInt(-self.e)))

    def is_integer(self):
        return mkbool(z3.And(z3.Not(self.nan), z3.IsInt(self.e)))

    def __round__(self, n=None):
        if n is not None:
            if isinstance(n, int) and 0 <= n <= 15:
                # correctly rounded decimal: within half a unit of the last place, then the nearest double
                key = ('rnd', n, self.e.get_id())
                if key not in E.memo:
                    k = z3.FreshInt('rnd')
                    E.assume(z3.And(2 * (z3.ToReal(k) - self.e * 10 ** n) <= 1, 2 * (z3.ToReal(k) - self.e * 10 ** n) >= -1))
                    E.memo[key] = (E.round64(z3.ToReal(k) / 10 ** n), self.e)
                return SymFloat(E.memo[key][0], self.nan)
            raise Unsupported('round')
        if E.branch(self.nan):
            raise ValueError('cannot convert float NaN to integer')
        if E.branch(z3.Or(self.e >= BIG, self.e <= -BIG)):
            raise OverflowError('cannot convert float infinity to integer')
        key = ('round', self.e.get_id())
        if key not in E.memo:
            k = z3.FreshInt('round')
            E.memo[key] = (k, self.e)
            d = z3.ToReal(k) - self.e
            E.assume(z3.And(2 * d <= 1, 2 * d >= -1, z3.Implies(z3.Or(2 * d == 1, 2 * d == -1), k % 2 == 0)))
        return mkint(E.memo[key][0])

    def __repr__(self):
        return 'SymFloat(%s)' % self.e

    def __format__(self, spec):
        raise Unsupported('format outside of an f-string')

    def __int__(self):
        return int(self.trunc())

    def __float__(self):
        raise Unsupported('float() by a C function')


def mkfl(x):
    if isinstance(x, SymFloat):
        return x
    if isinstance(x, SymInt):
        return x.fl()
    if isinstance(x, SymBool):
        return x._i().fl()
    if isinstance(x, float) and x != x:
        return SymFloat(z3.RealVal(0), z3.BoolVal(True))
    if isinstance(x, (int, float, Q)):
        return SymFloat(rv(x))
    return None


class SymBytes(Sym):
    """bytes of a known length; items are ints or SymInts in 0..255; prov: where an item comes from"""
    __slots__ = ('v', 'prov', 'mutable')
    pytype = bytes

    def __init__(self, v, prov=None):
        self.v = list(v)
        self.prov = list(prov) if prov is not None else [None] * len(self.v)

    @staticmethod
    def of(x):
        if isinstance(x, SymBytes):
            return x
        if isinstance(x, (bytes, bytearray)):
            return SymBytes(list(x))
        return None

    def __len__(self):
        return len(self.v)

    def __getitem__(self, i):
        if isinstance(i, slice):
            i = slice(*[None if k is None else k.__index__() for k in (i.start, i.stop, i.step)])
            return mkbytes(self.v[i], self.prov[i])
        return self.v[i.__index__()]

    def __iter__(self):
        return iter(self.v)

    def __add__(self, o):
        b = SymBytes.of(o)
        if b is None:
            return NotImplemented
        return mkbytes(self.v + b.v, self.prov + b.prov)

    def __radd__(self, o):
        b = SymBytes.of(o)
        if b is None:
            return NotImplemented
        return mkbytes(b.v + self.v, b.prov + self.prov)

    def __mul__(self, n):
        n = n.__index__()
        return mkbytes(self.v * n, self.prov * n)

    def __eq__(self, o):
        b = SymBytes.of(o)
        if b is None or len(b) != len(self):
            return False
        return And(*[x == y for x, y in zip(self.v, b.v)])

    def __ne__(self, o):
        return Not(self == o)
    __hash__ = Sym.__hash__

    def __contains__(self, x):
        return bool(Or(*[y == x for y in self.v]))

    def __bool__(self):
        return len(self.v) > 0

    def hex(self, *a):
        if a:
            raise Unsupported('hex separator')
        return SymStr([('hex', self, 'x')])

    def decode(self, enc='utf-8', errors='strict'):
        if self.prov and all(isinstance(p, tuple) and p[0] == 'enc' and p[1] is self.prov[0][1] for p in self.prov):
            return self.prov[0][1]
        raise Unsupported('decode of symbolic bytes')

    def find(self, *a):
        raise Unsupported('find')

    def __repr__(self):
        return 'SymBytes(%d)' % len(self.v)


def mkbytes(v, prov=None):
    if all(isinstance(x, int) for x in v) and not (prov and any(p is not None for p in prov)):
        return bytes(v)
    return SymBytes(v, prov)


class SymStr(Sym):
    """Text made of pieces: literal text, ('fmt', value, spec), ('hex', bytes, 'x'/'X'), ('str', z3 string, '')
    and ('enc'...).  A string whose only piece is a z3 string is an arbitrary string."""
    __slots__ = ('p',)
    pytype = str

    def __init__(self, pieces):
        out = []
        for x in pieces:
            if isinstance(x, SymStr):
                for y in x.p:
                    out.append(y)
            else:
                out.append(x)
        r = []
        for x in out:
            if isinstance(x, str) and r and isinstance(r[-1], str):
                r[-1] += x
            elif x != '':
                r.append(x)
        self.p = r

    @staticmethod
    def of(x):
        if isinstance(x, SymStr):
            return x
        if isinstance(x, str):
            return SymStr([x] if x else [])
        return None

    def z(self):
        """as a z3 string"""
        ps = []
        for x in self.p:
            if isinstance(x, str):
                ps.append(z3.StringVal(x))
            elif x[0] == 'str':
                ps.append(x[1])
            else:
                raise Unsupported('operation on formatted text')
        if not ps:
            return z3.StringVal('')
        return ps[0] if len(ps) == 1 else z3.Concat(*ps)

    def plain(self):
        return all(isinstance(x, str) or x[0] == 'str' for x in self.p)

    def __add__(self, o):
        b = SymStr.of(o)
        return NotImplemented if b is None else SymStr(self.p + b.p)

    def __radd__(self, o):
        b = SymStr.of(o)
        return NotImplemented if b is None else SymStr(b.p + self.p)

    def eq(self, o):
        b = SymStr.of(o)
        if b is None:
            return False
        if self.plain() and b.plain():
            return mkbool(self.z() == b.z())
        if len(self.p) == len(b.p):
            c = []
            for x, y in zip(self.p, b.p):
                e = piece_eq(x, y)
                if e is None:
                    break
                c.append(e)
            else:
                r = And(*c)
                if r is not False:
                    return r if r is True else Definite(r, self, b)
        f = text_distinct(self, b)
        if f:
            return False
        E.approx = True
        return mkbool(E.text_z(self) == E.text_z(b))

    def __eq__(self, o):
        r = self.eq(o)
        if isinstance(r, Definite):
            # equal pieces imply equal text; different pieces need not imply different text
            if E.valid(r.c.e):
                return True
            if r.injective():
                return r.c
            raise Unsupported('comparison of formatted text')
        return r

    def __ne__(self, o):
        return Not(self == o)
    __hash__ = Sym.__hash__

    def __bool__(self):
        if any(isinstance(x, str) and x for x in self.p) or any(not isinstance(x, str) and x[0] == 'fmt' for x in self.p):
            return True
        if not self.p:
            return False
        return E.branch(z3.Length(self.z()) > 0)

    def __len__(self):
        if len(self.p) == 1 and not isinstance(self.p[0], str) and self.p[0][0] == 'hex':
            return 2 * len(self.p[0][1])
        raise Unsupported('len of symbolic text (through a C function)')

    def len(self):
        try:
            return SymStr.__len__(self)
        except Unsupported:
            return mkint(z3.Length(self.z()))

    def upper(self):
        return self._case('X', 'upper')

    def lower(self):
        return self._case('x', 'lower')

    def _case(self, hx, fn):
        r = []
        for x in self.p:
            if isinstance(x, str):
                r.append(getattr(x, fn)())
            elif x[0] == 'hex':
                r.append(('hex', x[1], hx))
            elif x[0] == 'fmt' and x[2][-1:] in 'xX' and x[2]:
                r.append(('fmt', x[1], x[2][:-1] + hx))
            elif x[0] == 'fmt' and x[2] in ('d', '02d'):
                r.append(x)
            else:
                raise Unsupported(fn)
        return SymStr(r)

    def encode(self, enc='utf-8', errors='strict'):
        ok = True
        for x in self.p:
            if isinstance(x, str):
                x.encode(enc)
            elif x[0] == 'str' and enc.lower() in ('ascii', 'us-ascii'):
                if not E.branch(E.ascii(x[1])):
                    raise UnicodeEncodeError('ascii', '?', 0, 1, 'ordinal not in range(128)')
        return EncText(self)

    def decode(self, *a):
        raise AttributeError("'str' object has no attribute 'decode'")

    def __contains__(self, s):
        if not self.plain():
            if isinstance(s, str) and any(isinstance(x, str) and s in x for x in self.p):
                return True
            if isinstance(s, str) and len(s) == 1 and not any(isinstance(x, str) and s in x for x in self.p) and all(isinstance(x, str) or (x[0] in ('fmt', 'hex') and s not in '0123456789abcdefABCDEF+-. naif') for x in self.p):
                return False
            raise Unsupported('in')
        if isinstance(s, str):
            return E.branch(t_has(self.z(), s))
        return E.branch(z3.Contains(self.z(), SymStr.of(s).z()))

    def startswith(self, s, *a):
        if a or isinstance(s, tuple):
            raise Unsupported('startswith')
        if not self.plain():
            if self.p and isinstance(self.p[0], str) and len(self.p[0]) >= len(s):
                return self.p[0].startswith(s)
            raise Unsupported('startswith')
        return mkbool(z3.PrefixOf(SymStr.of(s).z(), self.z()))

    def endswith(self, s, *a):
        if a or isinstance(s, tuple) or not self.plain():
            raise Unsupported('endswith')
        return mkbool(z3.SuffixOf(SymStr.of(s).z(), self.z()))

    def _strip(self, kind, a):
        if a == ('\0',) and all(self._free(x, '\0') for x in self.p):
            p = list(self.p)
            while p and kind != 'py_lstrip' and isinstance(p[-1], str):
                p[-1] = p[-1].rstrip('\0')
                if p[-1]:
                    break
                p.pop()
            while p and kind != 'py_rstrip' and isinstance(p[0], str):
                p[0] = p[0].lstrip('\0')
                if p[0]:
                    break
                p.pop(0)
            return SymStr(p)
        if not a and len(self.p) > 1:
            p = list(self.p)
            for right in ([True] if kind == 'py_rstrip' else [False] if kind == 'py_lstrip' else [True, False]):
                k = -1 if right else 0
                while p and isinstance(p[k], str):
                    p[k] = p[k].rstrip() if right else p[k].lstrip()
                    if p[k]:
                        break
                    p.pop(k)
                if p and not isinstance(p[k], str) and not (p[k][0] == 'hex' and len(p[k][1]) or p[k][0] == 'fmt' and isinstance(p[k][1], (SymInt, SymFloat)) and re.fullmatch(r'(0\d+)?(\.\d+)?[dfxX]?', p[k][2])):
                    raise Unsupported('strip')
            return SymStr(p)
        if a or not (len(self.p) == 1 and not isinstance(self.p[0], str) and self.p[0][0] == 'str'):
            raise Unsupported('strip')
        f = z3.Function(kind, z3.StringSort(), z3.StringSort())
        r = f(self.p[0][1])
        E.strip_axioms(self.p[0][1], r)
        return SymStr([('str', r, '')])

    def strip(self, *a):
        return self._strip('py_strip', a)

    def rstrip(self, *a):
        return self._strip('py_rstrip', a)

    def lstrip(self, *a):
        return self._strip('py_lstrip', a)

    def split(self, sep=None, maxsplit=-1):
        if not isinstance(sep, str) or len(sep) != 1:
            raise Unsupported('split')
        if maxsplit == -1 and self.p and all(self._free(x, sep) for x in self.p):
            out = [[]]
            for x in self.p:
                if isinstance(x, str):
                    w = x.split(sep)
                    out[-1].append(w[0])
                    out += [[y] for y in w[1:]]
                else:
                    out[-1].append(x)
            return [SymStr(q) if any(not isinstance(y, str) for y in q) else ''.join(q) for q in out]
        return SplitView(self, sep, maxsplit)

    @staticmethod
    def _free(x, sep):
        """a literal, or a part that cannot contain the separator"""
        if isinstance(x, str):
            return True
        if x[0] == 'hex':
            return sep not in '0123456789abcdefABCDEF'
        return x[0] == 'str' and sep in getattr(E, 'without', {}).get(x[1].get_id(), '')

    def rsplit(self, sep=None, maxsplit=-1):
        if maxsplit == 1 and isinstance(sep, str):
            a, s, b = self.rpartition(sep)
            if isinstance(s, str) and s == '':
                return [b]
            return [a, b]
        if maxsplit == -1:
            return self.split(sep)
        raise Unsupported('rsplit')

    def partition(self, sep):
        z, s = self.z(), z3.StringVal(sep)
        if not E.branch(t_has(z, sep)):
            return (self, '', '')
        return (zstr(t_first(z, sep)), sep, zstr(t_rest(z, sep)))

    def rpartition(self, sep):
        z, s = self.z(), z3.StringVal(sep)
        if not E.branch(t_has(z, sep)):
            return ('', '', self)
        return (zstr(t_init(z, sep)), sep, zstr(t_last(z, sep)))

    def find(self, sep, start=0, *a):
        if a or E.abstract:
            raise Unsupported('find')
        return mkint(z3.IndexOf(self.z(), SymStr.of(sep).z(), iv(SymInt.of(start))))

    def rfind(self, sep, *a):
        if a or E.abstract:
            raise Unsupported('rfind')
        return mkint(z3.LastIndexOf(self.z(), SymStr.of(sep).z()))

    def index(self, sep, *a):
        r = self.find(sep, *a)
        if r == -1:
            raise ValueError('substring not found')
        return r

    def rindex(self, sep, *a):
        r = self.rfind(sep, *a)
        if r == -1:
            raise ValueError('substring not found')
        return r

    def __getitem__(self, i):
        z = self.z()
        if E.abstract:
            raise Unsupported('characters of abstract text')
        n = z3.Length(z)

        def pos(k, dflt):
            if k is None:
                return dflt
            k = SymInt.of(k)
            k = z3.If(k < 0, k + n, k)
            return z3.If(k < 0, 0, z3.If(k > n, n, k))
        if isinstance(i, slice):
            if i.step not in (None, 1):
                raise Unsupported('step')
            a, b = pos(i.start, z3.IntVal(0)), pos(i.stop, n)
            return zstr(z3.If(b > a, z3.SubString(z, a, b - a), z3.StringVal('')))
        k = SymInt.of(i)
        k = z3.simplify(z3.If(k < 0, k + n, k))
        if E.branch(z3.Or(k < 0, k >= n)):
            raise IndexError('string index out of range')
        return zstr(z3.SubString(z, k, 1))

    def __iter__(self):
        raise Unsupported('iteration over symbolic text')

    def __mod__(self, o):
        raise Unsupported('%')

    def join(self, xs):
        return vjoin(self, xs)

    def replace(self, a, b, *c):
        if not self.plain() or c:
            raise Unsupported('replace')
        raise Unsupported('replace')

    def zfill(self, n):
        if len(self.p) == 1 and not isinstance(self.p[0], str) and self.p[0][0] == 'fmt' and self.p[0][2] in ('x', 'X', 'd'):
            v = self.p[0][1]
            if E.valid(SymInt.of(v) >= 0):
                return SymStr([('fmt', v, '0%d%s' % (n, self.p[0][2]))])
        raise Unsupported('zfill')

    def rjust(self, n, c=' '):
        if c == '0':
            return self.zfill(n)
        raise Unsupported('rjust')

    def __repr__(self):
        return 'SymStr(%r)' % (self.p,)

    def __format__(self, spec):
        raise Unsupported('format outside of an f-string')

    def __str__(self):
        return repr(self)


class Definite:
    def __init__(self, c, a, b):
        self.c, self.a, self.b = c, a, b

    def injective(self):
        """the text determines the values of the pieces: one formatted integer / one string / hex"""
        fs = [x for x in self.a.p if not isinstance(x, str)]
        if len(fs) == 1:
            return fs[0][0] in ('hex', 'str') or isinstance(fs[0][1], (int, SymInt))
        # several hex/0Nd pieces of fixed width
        return all(f[0] == 'hex' for f in fs)


def zstr(e):
    e = z3.simplify(e)
    if z3.is_string_value(e):
        return e.as_string()
    return SymStr([('str', e, '')])


INTSPEC = {'': 'd', 'd': 'd', '02': '02d', '02d': '02d', '2d': '2d'}


def piece(v, spec='', conv=None):
    """the piece of format(v, spec)"""
    if conv == 'r' and isinstance(v, Sym):
        return ('fmt', v, 'r!' + spec)
    if isinstance(v, SymStr):
        if spec:
            return ('fmt', v, spec)
        return v
    if isinstance(v, (SymInt, SymBool)):
        return ('fmt', v, INTSPEC.get(spec, spec))
    if isinstance(v, SymFloat):
        return ('fmt', v, spec)
    return ('fmt', v, spec)


def piece_eq(x, y):
    """a condition that implies that both pieces are the same text; None if unknown"""
    if isinstance(x, str) or isinstance(y, str):
        if isinstance(x, str) and isinstance(y, str):
            return x == y
        return None
    if x[0] != y[0]:
        return None
    if x[0] == 'hex':
        return (x[1] == y[1]) if x[2] == y[2] else None
    if x[0] == 'str':
        return mkbool(x[1] == y[1])
    if x[0] == 'fmt':
        if x[2] != y[2]:
            return None
        a, b = x[1], y[1]
        if isnum(a) and isnum(b):
            if (isinstance(a, (float, SymFloat))) != (isinstance(b, (float, SymFloat))):
                if x[2] in ('', 'd', 'r!'):
                    return None
            if isinstance(a, SymFloat) or isinstance(b, SymFloat):
                fa, fb = mkfl(a), mkfl(b)
                return mkbool(z3.Or(z3.And(fa.nan, fb.nan), z3.And(z3.Not(fa.nan), z3.Not(fb.nan), fa.e == fb.e)))
            return a == b
        if a is b:
            return True
        if isinstance(a, SymStr) and isinstance(b, SymStr):
            return a == b
        return None
    return None


def text_distinct(a, b):
    """both texts are certainly different"""
    for k in (0, -1):
        x = a.p[k] if a.p else ''
        y = b.p[k] if b.p else ''
        if isinstance(x, str) and isinstance(y, str):
            n = min(len(x), len(y))
            if n and ((x[:n] != y[:n]) if k == 0 else (x[-n:] != y[-n:])):
                return True
        # formatted numbers and hex digits do not contain letters beyond f / punctuation
        for (l, f) in ((x, y), (y, x)):
            if isinstance(l, str) and l and not isinstance(f, str) and (f[0] == 'hex' or (f[0] == 'fmt' and isnum(f[1]))):
                c = l[0] if k == 0 else l[-1]
                if c not in '0123456789abcdefABCDEF+-. infa':
                    return True
    return False


class EncText(SymBytes):
    """bytes: text encoded as ascii/utf-8 (length not known)"""
    __slots__ = ('t',)

    def __init__(self, t):
        self.t = t
        self.v = None
        self.prov = None

    def __len__(self):
        return self.t.len().__index__()

    def decode(self, enc='utf-8', errors='strict'):
        return self.t

    def __eq__(self, o):
        if isinstance(o, EncText):
            return self.t == o.t
        if isinstance(o, bytes):
            return self.t == o.decode('latin1')
        raise Unsupported('comparison of encoded text')
    __hash__ = Sym.__hash__

    def __getitem__(self, i):
        raise Unsupported('item of encoded text')

    def __iter__(self):
        raise Unsupported('iteration over encoded text')

    def __add__(self, o):
        b = o.t if isinstance(o, EncText) else o.decode('ascii') if isinstance(o, bytes) else None
        if b is None:
            raise Unsupported('+')
        return EncText(self.t + b)

    def __radd__(self, o):
        if isinstance(o, bytes):
            return EncText(o.decode('ascii') + self.t)
        raise Unsupported('+')

    def __repr__(self):
        return 'EncText(%r)' % (self.t,)

    def __bool__(self):
        return bool(self.t)

    def strip(self, *a):
        return EncText(self.t.strip(*a))


def t_has(z, sep):
    return z3.Function('has_' + sep, z3.StringSort(), z3.BoolSort())(z) if E.abstract else z3.Contains(z, z3.StringVal(sep))


def t_fun(kind, z, sep):
    f = z3.Function('%s_%s' % (kind, sep), z3.StringSort(), z3.StringSort())
    r = f(z)
    if kind in ('first', 'last'):
        E.s.add(z3.Not(t_has(r, sep)))
    E.approx = True
    return r


def t_first(z, sep):
    return t_fun('first', z, sep) if E.abstract else z3.SubString(z, 0, z3.IndexOf(z, z3.StringVal(sep), 0))


def t_rest(z, sep):
    if E.abstract:
        return t_fun('rest', z, sep)
    j = z3.IndexOf(z, z3.StringVal(sep), 0)
    return z3.SubString(z, j + len(sep), z3.Length(z) - j - len(sep))


def t_last(z, sep):
    if E.abstract:
        return t_fun('last', z, sep)
    j = z3.LastIndexOf(z, z3.StringVal(sep))
    return z3.SubString(z, j + len(sep), z3.Length(z) - j - len(sep))


def t_init(z, sep):
    return t_fun('init', z, sep) if E.abstract else z3.SubString(z, 0, z3.LastIndexOf(z, z3.StringVal(sep)))


class SplitView(Sym):
    """text.split(sep), lazily"""
    __slots__ = ('s', 'sep', 'max')
    pytype = list

    def __init__(self, s, sep, mx):
        self.s, self.sep, self.max = s, sep, mx

    def _rest(self, k):
        """what follows the k-th separator; raises IndexError"""
        z = self.s.z()
        for i in range(k):
            if (self.max >= 0 and i >= self.max) or not E.branch(t_has(z, self.sep)):
                raise IndexError('list index out of range')
            z = t_rest(z, self.sep)
        return z

    def __getitem__(self, i):
        if isinstance(i, slice):
            if i.stop is None and i.step is None and isinstance(i.start, int) and i.start >= 0:
                return SplitTail(self, i.start)
            raise Unsupported('slice of split')
        i = i.__index__()
        if i >= 0:
            z = self._rest(i)
            if self.max >= 0 and i == self.max:
                return zstr(z)
            if not E.branch(t_has(z, self.sep)):
                return zstr(z)
            return zstr(t_first(z, self.sep))
        if i == -1 and self.max < 0:
            z = self.s.z()
            if not E.branch(t_has(z, self.sep)):
                return self.s
            return zstr(t_last(z, self.sep))
        raise Unsupported('split()[%d]' % i)

    def count_at_least(self, n):
        try:
            self._rest(n - 1)
            return True
        except IndexError:
            return False

    def __iter__(self):
        k = 0
        while True:
            try:
                yield self[k]
            except IndexError:
                return
            k += 1
            if k > 12:
                raise Unsupported('iteration over split()')

    def __len__(self):
        raise Unsupported('len of split() (through a C function)')

    def len(self):
        return SplitLen(self)

    def __bool__(self):
        return True

    def __eq__(self, o):
        raise Unsupported('comparison of split()')
    __hash__ = Sym.__hash__


class SplitTail(Sym):
    __slots__ = ('v', 'k')
    pytype = list

    def __init__(self, v, k):
        self.v, self.k = v, k

    def __getitem__(self, i):
        if isinstance(i, int) and i >= 0:
            return self.v[self.k + i]
        raise Unsupported('slice')


class SplitLen(Sym):
    __slots__ = ('v',)
    pytype = int

    def __init__(self, v):
        self.v = v

    def __ge__(self, n):
        return n <= 0 or self.v.count_at_least(n)

    def __gt__(self, n):
        return self >= n + 1

    def __lt__(self, n):
        return not (self >= n)

    def __le__(self, n):
        return not (self >= n + 1)

    def __eq__(self, n):
        return (self >= n) and not (self >= n + 1)

    def __ne__(self, n):
        return not (self == n)
    __hash__ = Sym.__hash__

    def __bool__(self):
        return True


class Opaque(Sym):
    """A value the code only passes on (identity matters)"""
    __slots__ = ('name', 'pytype')

    def __init__(self, name, pytype=None):
        self.name, self.pytype = name, pytype

    def __eq__(self, o):
        if self is o:
            return True
        raise Unsupported('comparison of %s' % self.name)

    def __ne__(self, o):
        return not (self == o)
    __hash__ = Sym.__hash__

    def __bool__(self):
        raise Unsupported('truth of %s' % self.name)

    def __repr__(self):
        return 'Opaque(%s)' % self.name

    def __format__(self, s):
        raise Unsupported('format')


class FDict(dict):
    """dict with symbolic keys: lookups fork on equality"""
    def _find(self, k):
        if not isinstance(k, Sym) and not any(isinstance(x, Sym) for x in dict.keys(self)):
            return k if dict.__contains__(self, k) else None
        for x in dict.keys(self):
            if x is k:
                return x
        for x in dict.keys(self):
            if not samekind(x, k):
                continue
            if x == k:
                return x
        return None

    def _raw(self, f, *a):
        old = E.hash_ok
        E.hash_ok = True
        try:
            return f(self, *a)
        finally:
            E.hash_ok = old

    def __contains__(self, k):
        if k is None:
            return dict.__contains__(self, k)
        return self._find(k) is not None

    def __getitem__(self, k):
        x = self._find(k)
        if x is None:
            raise KeyError(k if not isinstance(k, Sym) else 'symbolic')
        return self._raw(dict.__getitem__, x)

    def get(self, k, d=None):
        x = self._find(k)
        return d if x is None else self._raw(dict.__getitem__, x)

    def __setitem__(self, k, v):
        x = self._find(k)
        self._raw(dict.__setitem__, k if x is None else x, v)

    def __delitem__(self, k):
        x = self._find(k)
        if x is None:
            raise KeyError('key')
        self._raw(dict.__delitem__, x)

    def pop(self, k, *d):
        x = self._find(k)
        if x is None:
            if d:
                return d[0]
            raise KeyError(k if not isinstance(k, Sym) else 'symbolic')
        return self._raw(dict.pop, x)

    def setdefault(self, k, d=None):
        x = self._find(k)
        if x is None:
            self[k] = d
            return d
        return self[x]

    def update(self, *a, **kw):
        for o in a:
            for k in (o.keys() if hasattr(o, 'keys') else [p[0] for p in o]):
                self[k] = o[k] if hasattr(o, 'keys') else dict(o)[k]
        for k in kw:
            self[k] = kw[k]

    def copy(self):
        r = FDict()
        for k in dict.keys(self):
            self._raw(lambda s, q: dict.__setitem__(r, q, dict.__getitem__(s, q)), k)
        return r

    def items(self):
        return [(k, self._raw(dict.__getitem__, k)) for k in list(dict.keys(self))]

    def __deepcopy__(self, memo):
        import copy
        r = FDict()
        for k in dict.keys(self):
            v = copy.deepcopy(self._raw(dict.__getitem__, k), memo)
            r._raw(dict.__setitem__, k, v)
        return r
    __copy__ = copy

    def __eq__(self, o):
        if len(self) != len(o):
            return False
        return And(*[k in o and self[k] == o[k] for k in self])
    __hash__ = None


def samekind(a, b):
    def kind(x):
        if isnum(x):
            return 'n'
        if isinstance(x, (str, SymStr)):
            return 's'
        if isinstance(x, (bytes, SymBytes)):
            return 'b'
        return type(x)
    return kind(a) == kind(b)


def fdict(d):
    """deep conversion of concrete dicts"""
    if isinstance(d, FDict):
        return d
    if type(d) is dict:
        r = FDict()
        for k, v in d.items():
            r[k] = fdict(v)
        return r
    if type(d) is list:
        return [fdict(x) for x in d]
    return d


class SymMap(Sym):
    """An arbitrary finite map (contract of a dictionary the code only looks up in)"""
    __slots__ = ('name', 'has', 'val', 'hits')
    pytype = dict

    def __init__(self, name, has, val):
        self.name, self.has, self.val = name, has, val

    def __contains__(self, k):
        return bool(self.has(k))

    def __getitem__(self, k):
        if not self.has(k):
            raise KeyError('key')
        return self.val(k)

    def get(self, k, d=None):
        return self.val(k) if self.has(k) else d

    def __bool__(self):
        return True

    def __len__(self):
        raise Unsupported('len of a map')

    def __iter__(self):
        raise Unsupported('iteration over a map')

    def copy(self):
        raise Unsupported('copy of a map')
