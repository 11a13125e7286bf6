"""Symbolic values: integers / reals / booleans / byte buffers over z3.

Numbers are polynomials over *atoms* (bit, integer or real unknowns) with exact
rational coefficients.  Python floats that take part are read as exact
rationals (decimal reading when the literal has at most 15 significant digits).
Every operation that is not polynomial introduces a *definitional* atom whose
defining constraint is added to the current path.
"""
import builtins
import math
from fractions import Fraction
from math import gcd

import numpy as np
import z3

_int, _float, _round, _abs = int, float, round, abs


class Stop(BaseException):
    """Ends the current path (not an error of the code under test)."""


class Infeasible(Stop):
    pass


class Unsupported(Stop):
    """The engine cannot encode an operation: the path is undecided."""


class OutOfBudget(Stop):
    pass


EX = None        # current Explorer-run state (see explore.PathState)


def cur():
    if EX is None:
        raise Unsupported('symbolic value used outside a symbolic run')
    return EX


# --------------------------------------------------------------------------
# atoms
# --------------------------------------------------------------------------
class Atom:
    __slots__ = ('id', 'kind', 'z', 'zb', 'lo', 'hi', 'sq', 'name', 'sgn',
                 'inv', 'den', 'root')

    def __init__(self, id_, kind, z, zb=None, lo=None, hi=None, name='',
                 sq=None):
        self.id, self.kind, self.z, self.zb = id_, kind, z, zb
        self.lo, self.hi, self.sq, self.name = lo, hi, sq, name
        self.inv = None     # (leading monomial, rest) of p if this is 1/p
        self.den = None     # p
        self.root = False   # non-negative root of sq


class Registry:
    """Atoms of one path."""

    def __init__(self):
        self.atoms = []
        self.bool2bit = {}
        self.cache = {}

    def new(self, kind, name, lo=None, hi=None, sq=None):
        i = len(self.atoms)
        if kind == 'int':
            z = z3.Int(name)
        else:
            z = z3.Real(name)
        a = Atom(i, kind, z, None, lo, hi, name, sq)
        self.atoms.append(a)
        cons = []
        if lo is not None:
            cons.append(z >= zconst(lo, kind == 'real'))
        if hi is not None:
            cons.append(z <= zconst(hi, kind == 'real'))
        for c in cons:
            cur().add(c)
        return a

    def bit(self, zb, name=''):
        k = zb.get_id()
        a = self.bool2bit.get(k)
        if a is None:
            i = len(self.atoms)
            a = Atom(i, 'bit', z3.If(zb, z3.IntVal(1), z3.IntVal(0)), zb, 0, 1,
                     name)
            self.atoms.append(a)
            self.bool2bit[k] = a
        return a


def zconst(c, real):
    if real:
        c = Fraction(c)
        return z3.RealVal(f'{c.numerator}/{c.denominator}')
    return z3.IntVal(_int(c))


# --------------------------------------------------------------------------
# conversion helpers
# --------------------------------------------------------------------------
_fcache = {}


def frac_of_float(v):
    r = _fcache.get(v)
    if r is None:
        s = repr(_float(v))
        digs = s.lower().split('e')[0].replace('.', '').replace('-', '')
        digs = digs.lstrip('0').rstrip('0')
        if len(digs) <= 15:
            r = Fraction(s)
        else:
            r = Fraction(_float(v))
        if r.denominator == 1:
            r = r.numerator
        if len(_fcache) < 100000:
            _fcache[v] = r
    return r


def isnum(v):
    return isinstance(v, (_int, _float, Fraction, np.integer, np.floating,
                          bool, np.bool_))


def norm_c(c):
    if type(c) is Fraction and c.denominator == 1:
        return c.numerator
    return c


class SymBase:
    __slots__ = ()
    __array_priority__ = 1e6


def is_sym(x):
    return isinstance(x, (SymNum, SymBool))


def as_sym(v):
    """-> SymNum, or the python float for nan/inf, or None if not numeric."""
    if type(v) is SymNum:
        return v
    if type(v) is SymBool:
        return v.num()
    if isinstance(v, (bool, np.bool_)):
        return SymNum({(): _int(v)} if v else {}, True)
    if isinstance(v, (_int, np.integer)):
        v = _int(v)
        return SymNum({(): v} if v else {}, True)
    if isinstance(v, Fraction):
        v = norm_c(v)
        return SymNum({(): v} if v else {}, False)
    if isinstance(v, (_float, np.floating)):
        v = _float(v)
        if v != v or v in (math.inf, -math.inf):
            return v
        c = frac_of_float(v)
        return SymNum({(): c} if c else {}, False)
    if isinstance(v, np.ndarray) and v.ndim == 0:
        return as_sym(v.item())
    return None


# --------------------------------------------------------------------------
# booleans
# --------------------------------------------------------------------------
class SymBool(SymBase):
    __slots__ = ('z',)

    def __init__(self, z):
        self.z = z

    def __bool__(self):
        return cur().fork(self.z)

    def num(self):
        z = z3.simplify(self.z) if not z3.is_const(self.z) else self.z
        if z3.is_true(z):
            return 1
        if z3.is_false(z):
            return 0
        a = cur().reg.bit(z)
        s = SymNum({(a.id,): 1}, True)
        s.bits = [a]
        return s

    @staticmethod
    def _z(o):
        if isinstance(o, SymBool):
            return o.z
        if isinstance(o, (bool, np.bool_)):
            return z3.BoolVal(bool(o))
        return None

    def _arith(self, o, f):
        return f(self.num(), o)

    def __and__(self, o):
        z = self._z(o)
        if z is None:
            return self.num() & o
        return mkbool(z3.And(self.z, z))
    __rand__ = __and__

    def __or__(self, o):
        z = self._z(o)
        if z is None:
            return self.num() | o
        return mkbool(z3.Or(self.z, z))
    __ror__ = __or__

    def __xor__(self, o):
        z = self._z(o)
        if z is None:
            return self.num() ^ o
        return mkbool(z3.Xor(self.z, z))
    __rxor__ = __xor__

    def __invert__(self):
        # numpy semantics (logical not) - python bools are never symbolic here
        return mkbool(z3.Not(self.z))

    def __eq__(self, o):
        z = self._z(o)
        if z is None:
            return self.num() == o
        return mkbool(self.z == z)

    def __ne__(self, o):
        z = self._z(o)
        if z is None:
            return self.num() != o
        return mkbool(z3.Xor(self.z, z))

    def __hash__(self):
        return hash(bool(self))

    def __index__(self):
        return _int(bool(self))

    def __int__(self):
        return _int(bool(self))

    def __float__(self):
        return _float(bool(self))

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self

    def __repr__(self):
        return f'<SymBool {self.z}>'

    def __array_ufunc__(self, ufunc, method, *inputs, **kw):
        return ufunc_dispatch(ufunc, method, inputs, kw)

    def item(self):
        return self

    def any(self):
        return self

    all = any


def _mk_bool_arith():
    for n in ('add', 'radd', 'sub', 'rsub', 'mul', 'rmul', 'truediv',
              'rtruediv', 'floordiv', 'rfloordiv', 'mod', 'rmod', 'lshift',
              'rlshift', 'rshift', 'rrshift', 'lt', 'le', 'gt', 'ge', 'pow',
              'rpow'):
        nm = f'__{n}__'

        def f(self, o, nm=nm):
            s = self.num()
            if isinstance(s, _int):
                s = as_sym(s)
            return getattr(s, nm)(o)
        setattr(SymBool, nm, f)
    for n in ('neg', 'pos', 'abs'):
        nm = f'__{n}__'

        def g(self, nm=nm):
            s = self.num()
            return getattr(s, nm)()
        setattr(SymBool, nm, g)


_mk_bool_arith()


def mkbool(z):
    z = z3.simplify(z)
    if z3.is_true(z):
        return True
    if z3.is_false(z):
        return False
    return SymBool(z)


# --------------------------------------------------------------------------
# numbers
# --------------------------------------------------------------------------
class SymNum(SymBase):
    """t: {monomial (sorted tuple of atom ids): coefficient}; isint: Python
    int-typed (as opposed to float-typed).  bits: optional list of bit
    entries (0, 1 or bit Atom), LSB first: value = sum bits[i] 2^i (>= 0)."""
    __slots__ = ('t', 'isint', 'bits', '_z', '_rng')

    def __init__(self, t, isint):
        self.t = t
        self.isint = isint
        self.bits = None
        self._z = None
        self._rng = None

    # -- construction ------------------------------------------------------
    @staticmethod
    def from_bits(bits):
        """bits LSB first; entries 0/1/Atom"""
        t = {}
        c = 0
        for i, b in enumerate(bits):
            if type(b) is Atom:
                k = (b.id,)
                v = t.get(k, 0) + (1 << i)
                t[k] = v
            elif b:
                c += 1 << i
        if not t:
            return c
        if c:
            t[()] = c
        s = SymNum(t, True)
        s.bits = list(bits)
        return s

    def const(self):
        """concrete value or None"""
        if not self.t:
            return 0
        if len(self.t) == 1 and () in self.t:
            return self.t[()]
        return None

    def pyconst(self):
        c = self.const()
        if c is None:
            return None
        if self.isint:
            return _int(c)
        return c if isinstance(c, _int) else c

    # -- ranges ------------------------------------------------------------
    def rng(self):
        if self._rng is None:
            reg = cur().reg.atoms
            lo = hi = 0
            for m, c in self.t.items():
                ml = mh = 1
                for j, i in enumerate(m):
                    a = reg[i]
                    al, ah = a.lo, a.hi
                    if al is None or ah is None:
                        # one-sided information only used for single atoms
                        if len(m) == 1:
                            ml, mh = al, ah
                        else:
                            ml = mh = None
                        break
                    if j and m[j-1] == i and len(m) == 2:
                        v = (al*al, ah*ah, al*ah)
                        ml = 0 if al <= 0 <= ah else min(v)
                        mh = max(v)
                    else:
                        v = (ml*al, ml*ah, mh*al, mh*ah)
                        ml, mh = min(v), max(v)
                if c < 0:
                    ml, mh = mh, ml
                lo = None if (lo is None or ml is None) else lo + c*ml
                hi = None if (hi is None or mh is None) else hi + c*mh
                if lo is None and hi is None:
                    break
            self._rng = (lo, hi)
        return self._rng

    # -- z3 ----------------------------------------------------------------
    def kind_int(self):
        reg = cur().reg.atoms
        for m, c in self.t.items():
            if type(c) is Fraction:
                return False
            for i in m:
                if reg[i].kind == 'real':
                    return False
        return True

    def z(self, real=None):
        """z3 arith expression.  real: force Real sort."""
        if self._z is None:
            if self.kind_int():
                self._z = poly_z(self.t, False)
            else:
                self._z = poly_z(self.t, True)
        z = self._z
        if real and z.is_int():
            return z3.ToReal(z)
        return z

    # -- arithmetic --------------------------------------------------------
    def __add__(self, o):
        o = as_sym(o)
        if type(o) is not SymNum:
            return NotImplemented if o is None else o
        if not o.t:
            return self if self.isint <= o.isint else SymNum(self.t, False)
        t = dict(self.t)
        for m, c in o.t.items():
            v = t.get(m, 0) + c
            if v:
                t[m] = norm_c(v)
            else:
                t.pop(m, None)
        return fin(SymNum(t, self.isint and o.isint))
    __radd__ = __add__

    def __neg__(self):
        return fin(SymNum({m: -c for m, c in self.t.items()}, self.isint))

    def __pos__(self):
        return self

    def __sub__(self, o):
        o = as_sym(o)
        if type(o) is not SymNum:
            return NotImplemented if o is None else -o
        t = dict(self.t)
        for m, c in o.t.items():
            v = t.get(m, 0) - c
            if v:
                t[m] = norm_c(v)
            else:
                t.pop(m, None)
        return fin(SymNum(t, self.isint and o.isint))

    def __rsub__(self, o):
        o = as_sym(o)
        if type(o) is not SymNum:
            return NotImplemented if o is None else o
        return o.__sub__(self)

    def __mul__(self, o):
        if isinstance(o, (list, tuple, str, bytes)):
            return o*self.__index__()
        o = as_sym(o)
        if type(o) is not SymNum:
            if o is None:
                return NotImplemented
            if o != o:
                return o
            raise Unsupported('inf * symbolic')
        c = o.const()
        isint = self.isint and o.isint
        if c is not None:
            if c == 0:
                return 0 if isint else 0.0
            if c == 1 and self.isint == isint:
                return self
            r = SymNum({m: norm_c(v*c) for m, v in self.t.items()}, isint)
            return fin(r)
        c = self.const()
        if c is not None:
            return o.__mul__(self)
        return fin(SymNum(poly_mul(self.t, o.t), isint))

    def __rmul__(self, o):
        return self.__mul__(o)

    def __truediv__(self, o):
        o = as_sym(o)
        if type(o) is not SymNum:
            if o is None:
                return NotImplemented
            return o if o != o else 0.0
        c = o.const()
        if c is not None:
            if c == 0:
                raise ZeroDivisionError('division by zero')
            return fin(SymNum({m: norm_c(Fraction(v)/c)
                               for m, v in self.t.items()}, False))
        return sym_div(self, o)

    def __rtruediv__(self, o):
        o = as_sym(o)
        if type(o) is not SymNum:
            return NotImplemented if o is None else o
        c = self.const()
        if c is not None:
            return o.__truediv__(c)
        return sym_div(o, self)

    def __floordiv__(self, o):
        o = as_sym(o)
        if type(o) is not SymNum:
            return NotImplemented if o is None else o
        c = o.const()
        if c is None:
            if o.isint and self.isint:
                c = o.concretize()
            else:
                return sym_floor(self/o, False)
        if c == 0:
            raise ZeroDivisionError('integer division or modulo by zero')
        q = fin(SymNum({m: norm_c(Fraction(v)/c)
                        for m, v in self.t.items()}, False))
        r = sym_floor(q, self.isint and o.isint)
        return r

    def __rfloordiv__(self, o):
        o = as_sym(o)
        if type(o) is not SymNum:
            return NotImplemented if o is None else o
        return o.__floordiv__(self)

    def __mod__(self, o):
        o = as_sym(o)
        if type(o) is not SymNum:
            return NotImplemented if o is None else o
        c = o.const()
        if c is None:
            if o.isint:
                c = o.concretize()
            else:
                raise Unsupported('mod by symbolic real')
        if c == 0:
            raise ZeroDivisionError('modulo by zero')
        isint = self.isint and o.isint
        # bit fast path
        if self.bits is not None and isinstance(c, _int) and c > 0 and \
                c & (c-1) == 0:
            r = SymNum.from_bits(self.bits[:c.bit_length()-1])
            return r if isint else r*1.0
        q = fin(SymNum({m: norm_c(Fraction(v)/c)
                        for m, v in self.t.items()}, False))
        f = sym_floor(q, True)
        r = self - f*c
        if not isint and isinstance(r, SymNum):
            r = SymNum(r.t, False)
        return r

    def __rmod__(self, o):
        if isinstance(o, str):
            return str_format_percent(o, (self,))
        o = as_sym(o)
        if type(o) is not SymNum:
            return NotImplemented if o is None else o
        return o.__mod__(self)

    def __divmod__(self, o):
        return self.__floordiv__(o), self.__mod__(o)

    def __rdivmod__(self, o):
        return self.__rfloordiv__(o), self.__rmod__(o)

    def __pow__(self, o, mod=None):
        if isinstance(o, SymNum):
            c = o.const()
            if c is None:
                c = o.concretize()
            o = c
        if isinstance(o, (np.integer,)):
            o = _int(o)
        if isinstance(o, (_float, np.floating)):
            if o == 0.5:
                return sym_sqrt(self)
            if _float(o).is_integer():
                o = _int(o)
            else:
                raise Unsupported('pow with fractional exponent')
        if o < 0:
            return 1.0/(self**(-o))
        r = 1
        for _ in range(o):
            r = self*r
        return r

    def __rpow__(self, o):
        return o**self.concretize()

    # -- bit operations ----------------------------------------------------
    def getbits(self):
        if self.bits is not None:
            return self.bits
        c = self.const()
        if c is not None:
            if c < 0:
                raise Unsupported('bits of negative')
            c = _int(c)
            return [(c >> i) & 1 for i in range(c.bit_length())]
        return to_bits(self)

    def __lshift__(self, o):
        n = o.concretize() if isinstance(o, SymNum) else _int(o)
        if self.bits is not None:
            return SymNum.from_bits([0]*n+self.bits)
        return self*(1 << n)

    def __rlshift__(self, o):
        return o << self.concretize()

    def __rshift__(self, o):
        n = o.concretize() if isinstance(o, SymNum) else _int(o)
        if self.bits is not None:
            return SymNum.from_bits(self.bits[n:])
        return self.__floordiv__(1 << n)

    def __rrshift__(self, o):
        return o >> self.concretize()

    def _bitop(self, o, f):
        if isinstance(o, SymBool):
            o = o.num()
        if isinstance(o, SymNum):
            b = o.getbits()
        elif isinstance(o, (_int, np.integer)):
            o = _int(o)
            if o < 0:
                return None
            b = [(o >> i) & 1 for i in range(o.bit_length())]
        else:
            return NotImplemented
        a = self.getbits()
        n = max(len(a), len(b))
        a = list(a)+[0]*(n-len(a))
        b = list(b)+[0]*(n-len(b))
        return SymNum.from_bits([f(x, y) for x, y in zip(a, b)])

    def __and__(self, o):
        if isinstance(o, (_int, np.integer)) and self.bits is None:
            o = _int(o)
            if o >= 0 and (o+1) & o == 0:
                return self % (o+1)
            lo, hi = self.rng()
        if isinstance(o, (_int, np.integer)) and _int(o) < 0:
            # x & ~k == x - (x & k)
            return self - (self & (~_int(o)))
        return self._bitop(o, bit_and)
    __rand__ = __and__

    def __or__(self, o):
        return self._bitop(o, bit_or)
    __ror__ = __or__

    def __xor__(self, o):
        return self._bitop(o, bit_xor)
    __rxor__ = __xor__

    def __invert__(self):
        return -self-1

    # -- comparison --------------------------------------------------------
    def _cmp(self, o, op):
        o = as_sym(o)
        if type(o) is not SymNum:
            if o is None:
                if op == 'eq':
                    return False
                if op == 'ne':
                    return True
                return NotImplemented
            if o != o:
                return op == 'ne'
            # +-inf
            return {'eq': False, 'ne': True, 'lt': o > 0, 'le': o > 0,
                    'gt': o < 0, 'ge': o < 0}[op]
        if op in ('eq', 'ne') and self.bits is not None:
            c = o.const()
            if c is not None or o.bits is not None:
                r = bits_eq(self.bits, o.bits if o.bits is not None else c)
                if r is not None:
                    if op == 'eq':
                        return r
                    return (not r) if isinstance(r, bool) else \
                        mkbool(z3.Not(r.z))
        d = self.__sub__(o)
        return cmp0(d, op)

    def __eq__(self, o):
        return self._cmp(o, 'eq')

    def __ne__(self, o):
        return self._cmp(o, 'ne')

    def __lt__(self, o):
        return self._cmp(o, 'lt')

    def __le__(self, o):
        return self._cmp(o, 'le')

    def __gt__(self, o):
        return self._cmp(o, 'gt')

    def __ge__(self, o):
        return self._cmp(o, 'ge')

    def __bool__(self):
        r = self != 0
        return r if isinstance(r, bool) else r.__bool__()

    # -- conversions -------------------------------------------------------
    def concretize(self):
        c = self.const()
        if c is not None:
            return c
        return cur().concretize(self)

    def __index__(self):
        if not self.isint:
            raise TypeError("'float' object cannot be interpreted as an "
                            "integer")
        return _int(self.concretize())

    def __int__(self):
        v = trunc(self)
        return v if isinstance(v, _int) else _int(v.concretize())

    def __trunc__(self):
        return trunc(self)

    def __float__(self):
        c = self.const()
        if c is None:
            cur().escape('float()')
            c = self.concretize() if self.isint else cur().pick(self)
        return _float(c)

    def __hash__(self):
        c = self.const()
        if c is None:
            c = self.concretize()
        return hash(c)

    def __abs__(self):
        lo, hi = self.rng()
        if lo is not None and lo >= 0:
            return self
        if hi is not None and hi <= 0:
            return -self
        return -self if self < 0 else self

    def __floor__(self):
        return sym_floor(self, True)

    def __ceil__(self):
        return -sym_floor(-self, True)

    def __round__(self, n=None):
        return sym_round(self, n)

    def __format__(self, spec):
        return cur().token(self, spec)

    def integral(self):
        """integer valued whatever the inputs are"""
        reg = cur().reg.atoms
        return all(Fraction(c).denominator == 1 and
                   all(reg[i].kind in ('int', 'bit') for i in m)
                   for m, c in self.t.items())

    def __str__(self):
        if EX is None:
            return self.__repr__()
        return cur().token(self, '')

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self

    def __repr__(self):
        return f'<Sym {"int" if self.isint else "real"} {dict(list(self.t.items())[:4])}>'

    # numpy-scalar look-alikes
    @property
    def real(self):
        return self

    @property
    def shape(self):
        return ()

    @property
    def ndim(self):
        return 0

    @property
    def size(self):
        return 1

    def item(self):
        return self

    def copy(self):
        return self

    def astype(self, t):
        return astype1(self, t)

    def sqrt(self):
        return sym_sqrt(self)

    def sin(self):
        return sym_sin(self)

    def cos(self):
        return sym_cos(self)

    def floor(self):
        r = sym_floor(self, False)
        return r

    def conjugate(self):
        return self

    def is_integer(self):
        return self == sym_floor(self, False)

    def bit_length(self):
        n = 0
        b = self.getbits()
        for i in range(len(b)-1, -1, -1):
            if b[i] == 1 or (type(b[i]) is Atom and SymBool(b[i].zb)):
                return i+1
        return n

    def to_bytes(self, length=1, byteorder='big', signed=False):
        from .symbuf import SymBuf
        b = list(self.getbits())
        if len(b) > 8*length:
            for x in b[8*length:]:
                if x == 1 or (type(x) is Atom and SymBool(x.zb)):
                    raise OverflowError('int too big to convert')
        b = (b+[0]*(8*length))[:8*length]
        out = SymBuf(list(reversed(b)))
        if byteorder == 'little':
            out = out[::-1]
        return out

    def __array_ufunc__(self, ufunc, method, *inputs, **kw):
        return ufunc_dispatch(ufunc, method, inputs, kw)


def fin(s):
    """collapse constant int-typed polynomials to Python ints; keep real
    constants as Fractions wrapped (exactness)"""
    t = s.t
    if not t:
        return 0 if s.isint else ZERO_R
    if len(t) == 1 and () in t and s.isint:
        return _int(t[()])
    return s


ZERO_R = SymNum({}, False)


def poly_mul(a, b):
    reg = cur().reg.atoms
    out = {}
    if len(a)*len(b) > 400000:
        raise Unsupported('polynomial too large')
    for m1, c1 in a.items():
        for m2, c2 in b.items():
            if not m1:
                add_term(out, m2, c1*c2)
            elif not m2:
                add_term(out, m1, c1*c2)
            else:
                mono_mul(reg, out, tuple(sorted(m1+m2)), c1*c2)
    return out


def add_term(out, m, c):
    v = out.get(m, 0)+c
    if v:
        out[m] = norm_c(v)
    else:
        out.pop(m, None)


def mono_mul(reg, out, m, c):
    """add c*m to out after reducing squares (bits b*b=b, sqrt, cos)"""
    if len(m) > 24:
        raise Unsupported('polynomial degree')
    for j in range(1, len(m)):
        if m[j] == m[j-1]:
            a = reg[m[j]]
            if a.kind == 'bit':
                mono_mul(reg, out, m[:j]+m[j+1:], c)
                return
            if a.sq is not None:
                rest = m[:j-1]+m[j+1:]
                for m2, c2 in a.sq.items():
                    mono_mul(reg, out, tuple(sorted(rest+m2)), c*c2)
                return
    for j, i in enumerate(m):
        k = reg[i].inv
        if k is None:
            continue
        # 1/p: leading monomial of p times 1/p reduces to 1 - (p-lm)/p
        lm, tail = k
        rest = list(m[:j]+m[j+1:])
        for x in lm:
            if x in rest:
                rest.remove(x)
            else:
                break
        else:
            mono_mul(reg, out, tuple(rest), c)
            for m2, c2 in tail:
                mono_mul(reg, out, tuple(sorted(rest+[i]+list(m2))), -c*c2)
            return
    add_term(out, m, c)


def poly_z(t, real):
    reg = cur().reg.atoms
    terms = []
    for m, c in t.items():
        if not m:
            terms.append(zconst(c, real))
            continue
        f = []
        for i in m:
            a = reg[i]
            z = a.z
            if real and a.kind != 'real':
                z = z3.If(a.zb, z3.RealVal(1), z3.RealVal(0)) \
                    if a.kind == 'bit' else z3.ToReal(z)
            f.append(z)
        p = f[0]
        for x in f[1:]:
            p = p*x
        if c != 1:
            p = zconst(c, real)*p
        terms.append(p)
    if not terms:
        return zconst(0, real)
    if len(terms) == 1:
        return terms[0]
    return z3.Sum(*terms)


def roots(reg, t):
    """polynomial with the sign of t = a*sqrt(x)+q (q constant or of known
    sign) or a*sqrt(x)-b*sqrt(y) (True/False: positive/negative), None if t
    is not of this form"""
    if len(t) > 24:
        return None
    s, q = [], {}
    for m, c in t.items():
        k = sum(reg[i].root for i in m)
        if k == 0:
            q[m] = c
        elif k == 1 and len(m) == 1:
            s.append((Fraction(c), SymNum(dict(reg[m[0]].sq), False)))
        else:
            return None
    if len(s) == 1:
        (a, x), = s
        q = SymNum(q, False)*(Fraction(-1)/a) if q else Fraction(0)
        if type(q) is SymNum and q.const() is not None:
            q = Fraction(q.const())
        if type(q) is not SymNum:
            if q < 0:
                return a > 0
        else:
            lo, hi = q.rng()
            if hi is not None and hi < 0:
                return a > 0
            if lo is None or lo < 0:
                return None
        r = x-q*q
        return r if a > 0 else -r
    if len(s) != 2 or q:
        return None
    (a, x), (b, y) = s
    if (a > 0) == (b > 0):
        return None
    if a < 0:
        a, x, b, y = b, y, a, x
    return x*(a*a)-y*(b*b)


def cmp0(d, op):
    """d <op> 0 for a SymNum/number d"""
    if type(d) is not SymNum:
        d = as_sym(d)
    c = d.const()
    if c is not None:
        return {'eq': c == 0, 'ne': c != 0, 'lt': c < 0, 'le': c <= 0,
                'gt': c > 0, 'ge': c >= 0}[op]
    lo, hi = d.rng()
    if op in ('lt', 'ge'):
        if hi is not None and hi < 0:
            return op == 'lt'
        if lo is not None and lo >= 0:
            return op == 'ge'
    elif op in ('le', 'gt'):
        if hi is not None and hi <= 0:
            return op == 'le'
        if lo is not None and lo > 0:
            return op == 'gt'
    else:
        if (hi is not None and hi < 0) or (lo is not None and lo > 0):
            return op == 'ne'
    reg = cur().reg.atoms
    r = roots(reg, d.t)
    if r is not None:
        if type(r) is bool:
            return {'eq': False, 'ne': True, 'lt': not r, 'le': not r,
                    'gt': r, 'ge': r}[op]
        return cmp0(r, op)
    # integer form
    allint = all(reg[i].kind != 'real' for m in d.t for i in m)
    t = d.t
    if allint:
        den = 1
        num = 0
        for m, v in t.items():
            if type(v) is Fraction:
                den = den*v.denominator//gcd(den, v.denominator)
        t = {m: _int(v*den) for m, v in t.items()}
        c0 = t.get((), 0)
        for m, v in t.items():
            if m:
                num = gcd(num, v)
        if num > 1:
            # divide by common factor of non-constant part
            if op in ('eq', 'ne') and c0 % num:
                return op == 'ne'
            t2 = {m: v//num for m, v in t.items() if m}
            if op in ('eq', 'ne'):
                k = c0//num
            elif op == 'lt':          # x + floor(c0/n) < 0
                k = c0//num
            elif op == 'le':          # x <= floor(-c0/n)
                k = -((-c0)//num)
            elif op == 'gt':          # x > floor(-c0/n)
                k = -((-c0)//num)
            else:                     # ge: not lt
                k = c0//num
            if k:
                t2[()] = k
            t = t2
    lhs = poly_z({m: v for m, v in t.items() if m}, not allint)
    rhs = zconst(-t.get((), 0), not allint)
    z = {'eq': lhs == rhs, 'ne': lhs != rhs, 'lt': lhs < rhs,
         'le': lhs <= rhs, 'gt': lhs > rhs, 'ge': lhs >= rhs}[op]
    # single-bit special case -> pure boolean
    if allint and len(t) - (1 if () in t else 0) == 1:
        (m, v), = [(m, v) for m, v in t.items() if m]
        if len(m) == 1 and reg[m[0]].kind == 'bit':
            c0 = t.get((), 0)
            f = {'eq': lambda x: x == 0, 'ne': lambda x: x != 0,
                 'lt': lambda x: x < 0, 'le': lambda x: x <= 0,
                 'gt': lambda x: x > 0, 'ge': lambda x: x >= 0}[op]
            r0, r1 = f(c0), f(c0+v)
            if r0 == r1:
                return r0
            zb = reg[m[0]].zb
            return SymBool(zb) if r1 else mkbool(z3.Not(zb))
    return SymBool(z)


def bits_eq(a, b):
    """a bits; b bits or constant -> bool/SymBool"""
    if not isinstance(b, list):
        if isinstance(b, Fraction) or b < 0:
            return False
        b = _int(b)
        b = [(b >> i) & 1 for i in range(b.bit_length())]
    n = max(len(a), len(b))
    cons = []
    for i in range(n):
        x = a[i] if i < len(a) else 0
        y = b[i] if i < len(b) else 0
        if type(x) is Atom:
            if type(y) is Atom:
                if x is not y:
                    cons.append(x.zb == y.zb)
            else:
                cons.append(x.zb if y else z3.Not(x.zb))
        elif type(y) is Atom:
            cons.append(y.zb if x else z3.Not(y.zb))
        elif x != y:
            return False
    if not cons:
        return True
    return mkbool(z3.And(*cons) if len(cons) > 1 else cons[0])


def bit_and(x, y):
    if type(x) is not Atom:
        return y if x else 0
    if type(y) is not Atom:
        return x if y else 0
    if x is y:
        return x
    return bitexpr(z3.And(x.zb, y.zb))


def bit_or(x, y):
    if type(x) is not Atom:
        return 1 if x else y
    if type(y) is not Atom:
        return 1 if y else x
    if x is y:
        return x
    return bitexpr(z3.Or(x.zb, y.zb))


def bit_xor(x, y):
    if type(x) is not Atom:
        x, y = y, x
    if type(x) is not Atom:
        return x ^ y
    if type(y) is not Atom:
        return bitexpr(z3.Not(x.zb)) if y else x
    if x is y:
        return 0
    return bitexpr(z3.Xor(x.zb, y.zb))


def bitexpr(z):
    z = z3.simplify(z)
    if z3.is_true(z):
        return 1
    if z3.is_false(z):
        return 0
    return cur().reg.bit(z)


def to_bits(s, n=None):
    """introduce bits for an int-valued non-negative polynomial"""
    if not s.isint and not s.kind_int():
        raise Unsupported('bits of real')
    key = ('bits', frozenset(s.t.items()))
    c = cur().reg.cache.get(key)
    if c is not None:
        return c
    # non-overlapping powers of two over bit atoms?
    reg = cur().reg.atoms
    used = {}
    ok = True
    for m, v in s.t.items():
        if not m:
            for i in range(_int(v).bit_length() if v > 0 else 0):
                if (_int(v) >> i) & 1:
                    if i in used:
                        ok = False
                    used[i] = 1
            if v < 0:
                ok = False
        elif len(m) == 1 and reg[m[0]].kind == 'bit' and v > 0 and \
                isinstance(v, _int) and v & (v-1) == 0 and \
                (v.bit_length()-1) not in used:
            used[v.bit_length()-1] = reg[m[0]]
        else:
            ok = False
    if ok:
        out = [used.get(i, 0) for i in range(max(used)+1)]
        cur().reg.cache[key] = out
        return out
    lo, hi = s.rng()
    if lo is None or hi is None:
        raise Unsupported('bits of unbounded integer')
    if lo < 0:
        # fork on the sign: negative -> unsupported
        if s < 0:
            raise Unsupported('bits of negative integer')
    nb = max(1, _int(hi).bit_length())
    if nb > 128:
        raise Unsupported('bits of wide integer')
    bits = []
    k = cur().fresh()
    for i in range(nb):
        bits.append(cur().reg.bit(z3.Bool(f'tb{k}_{i}')))
    v = SymNum.from_bits(bits)
    cur().add(v.z() == s.z())
    cur().reg.cache[key] = bits
    return bits


def twos(x, n):
    """n-bit two's complement bits (LSB first) of an integer SymNum/int,
    no range check"""
    if isinstance(x, (_int, np.integer)):
        x = _int(x) & ((1 << n)-1)
        return [(x >> i) & 1 for i in range(n)]
    lo, hi = x.rng()
    if lo is not None and lo >= 0:
        b = list(x.getbits())
        return (b+[0]*n)[:n]
    # x + 2^k*[x<0]
    reg = cur().reg.atoms
    key = ('twos', n, frozenset(x.t.items()))
    c = cur().reg.cache.get(key)
    if c is not None:
        return c
    # pattern: sum of distinct powers minus 2^(n-1)*b
    used = {}
    ok = True
    for m, v in x.t.items():
        if len(m) == 1 and reg[m[0]].kind == 'bit' and isinstance(v, _int):
            av = _abs(v)
            if av & (av-1) == 0 and (av.bit_length()-1) not in used and \
                    (v > 0 or av == 1 << (n-1)):
                used[av.bit_length()-1] = reg[m[0]]
                continue
        ok = False
        break
    if ok and max(used) <= n-1 and (x.t.get((used[n-1].id,), 0) < 0
                                    if n-1 in used else True):
        out = [used.get(i, 0) for i in range(n)]
    else:
        k = cur().fresh()
        out = [cur().reg.bit(z3.Bool(f'tc{k}_{i}')) for i in range(n)]
        u = SymNum.from_bits(out)
        v = u - (SymNum.from_bits([out[n-1]])*(1 << n))
        cur().add(v.z() == x.z())
    cur().reg.cache[key] = out
    return out


# --------------------------------------------------------------------------
# non polynomial operations
# --------------------------------------------------------------------------
def sym_floor(x, isint=True):
    """floor as int-typed (isint) or float-typed value"""
    if type(x) is not SymNum:
        if isinstance(x, _float) and (x != x or _abs(x) == math.inf):
            raise (ValueError if x != x else OverflowError)(
                'cannot convert float to integer')
        v = math.floor(x)
        return v if isint else _float(v)
    reg = cur().reg.atoms
    allint = all(reg[i].kind != 'real' for m in x.t for i in m)
    if allint:
        D = 1
        for v in x.t.values():
            if type(v) is Fraction:
                D = D*v.denominator//gcd(D, v.denominator)
        Q, R = {}, {}
        for m, v in x.t.items():
            n = _int(v*D)
            q, r = divmod(n, D)
            if m and D > 1 and r > D//2 and not all(
                    reg[i].kind == 'bit' for i in m):
                q, r = q+1, r-D
            if q:
                Q[m] = q
            if r:
                R[m] = r
        qs = SymNum(Q, True)
        if R:
            rs = SymNum(R, True)
            lo, hi = rs.rng()
            if lo is not None and hi is not None and lo//D == hi//D:
                f = lo//D
            else:
                key = ('fl', D, frozenset(R.items()))
                f = cur().reg.cache.get(key)
                if f is None:
                    a = cur().reg.new('int', f'fl{cur().fresh()}',
                                      None if lo is None else _int(lo)//D,
                                      None if hi is None else _int(hi)//D)
                    zr = rs.z()
                    cur().add(z3.And(D*a.z <= zr, zr < D*a.z+D))
                    f = SymNum({(a.id,): 1}, True)
                    cur().reg.cache[key] = f
            r = qs + f
        else:
            r = fin(qs)
    else:
        lo, hi = x.rng()
        key = ('flr', frozenset(x.t.items()))
        r = cur().reg.cache.get(key)
        if r is None:
            a = cur().reg.new('int', f'fl{cur().fresh()}',
                              None if lo is None else math.floor(lo),
                              None if hi is None else math.floor(hi))
            zr = z3.ToReal(a.z)
            zx = x.z(real=True)
            cur().add(z3.And(zr <= zx, zx < zr+1))
            r = SymNum({(a.id,): 1}, True)
            cur().reg.cache[key] = r
    if isint:
        return r
    r = as_sym(r)
    return SymNum(r.t, False)


def trunc(x):
    if type(x) is not SymNum:
        return _int(x)
    if x.isint:
        return x
    lo, hi = x.rng()
    if lo is not None and lo > -1:
        return sym_floor(x)if lo >= 0 else (
            sym_floor(x) if (x >= 0) else 0)
    if hi is not None and hi < 1:
        return -sym_floor(-x)
    if x >= 0:
        return sym_floor(x)
    return -sym_floor(-x)


def sym_round(x, n=None):
    if type(x) is not SymNum:
        return _round(x) if n is None else _round(x, n)
    if x.isint:
        return x
    if n is not None:
        n = _int(n)
        sc = 10**n if n >= 0 else Fraction(1, 10**-n)
        r = sym_round(x*sc)
        r = as_sym(r)
        return SymNum((r*Fraction(1, sc)).t if isinstance(
            r*Fraction(1, sc), SymNum) else {(): Fraction(r.const())/sc},
            False)
    # banker's rounding: f = floor(x+1/2); if x+1/2 == f and f odd -> f-1
    y = x + Fraction(1, 2)
    f = sym_floor(y)
    tie = (y == f)
    if tie is False:
        return f
    odd = (f % 2) == 1
    if tie is True and isinstance(odd, bool):
        return f-1 if odd else f
    z = z3.And(tie.z if isinstance(tie, SymBool) else z3.BoolVal(tie),
               odd.z if isinstance(odd, SymBool) else z3.BoolVal(odd))
    b = mkbool(z)
    if isinstance(b, bool):
        return f-1 if b else f
    return f - b.num()


def sym_div(x, y):
    if y == 0:
        raise ZeroDivisionError('division by zero')
    key = ('div', frozenset(x.t.items()), frozenset(y.t.items()))
    r = cur().reg.cache.get(key)
    if r is None:
        # exact polynomial multiples: x = k*y
        r = poly_ratio(x.t, y.t)
        if r is None:
            inv = sym_inv(y)
            r = SymNum(poly_mul(x.t, inv.t), False)
        else:
            r = SymNum({(): r} if r else {}, False)
        cur().reg.cache[key] = r
    return fin(r)


def sym_inv(y):
    """1/y as an atom, y != 0 known on this path.  y is factored by its
    content and sign so that 1/(2y), 1/(-y) share the atom."""
    reg = cur().reg.atoms
    num = None
    for _ in range(8):
        # 1/(q + r/p) = p/(p*q + r)
        i = next((i for m in y.t for i in m if reg[i].den is not None), None)
        if i is None:
            break
        p = reg[i].den
        y2 = SymNum(poly_mul(y.t, p), False)
        if any(i in m for m in y2.t) or len(y2.t) > 12:
            break
        y = y2
        num = p if num is None else poly_mul(num, p)
        if y.const() is not None:
            c = y.const()
            return SymNum({m: norm_c(Fraction(v)/c) for m, v in num.items()},
                          False)
    if num is not None:
        return SymNum(poly_mul(num, sym_inv(y).t), False)
    lead = max(y.t, key=lambda m: (len(m), m))
    c = y.t[lead]
    yn = {m: norm_c(Fraction(v)/c) for m, v in y.t.items()}
    key = ('inv', frozenset(yn.items()))
    a = cur().reg.cache.get(key)
    if a is None:
        a = cur().reg.new('real', f'inv{cur().fresh()}')
        ys = SymNum(yn, False)
        d = a.z*ys.z(real=True) == 1
        lm = max(yn, key=lambda m: (len(m), m))
        if len(yn) <= 8:
            a.inv = (lm, [(m, norm_c(Fraction(v)/yn[lm]))
                          for m, v in yn.items() if m != lm])
            a.den = yn
        lo, hi = ys.rng()
        if lo is not None and lo > 0:
            a.lo = Fraction(1)/hi if hi is not None else 0
            a.hi = Fraction(1)/lo
            d = z3.And(d, a.z > 0)
        elif hi is not None and hi < 0:
            a.lo = Fraction(1)/hi
            a.hi = Fraction(1)/lo if lo is not None else 0
            d = z3.And(d, a.z < 0)
        cur().define(d, a)
        cur().reg.cache[key] = a
    return SymNum({(a.id,): norm_c(Fraction(1)/c)}, False)


def poly_ratio(a, b):
    if len(a) != len(b) or set(a) != set(b):
        return None
    r = None
    for m in a:
        q = Fraction(a[m])/Fraction(b[m])
        if r is None:
            r = q
        elif r != q:
            return None
    return norm_c(r)


def exact_root(c):
    c = Fraction(c)
    n, d = math.isqrt(c.numerator), math.isqrt(c.denominator)
    if n*n == c.numerator and d*d == c.denominator:
        return Fraction(n, d)
    return None


def sym_sqrt(x):
    if type(x) is not SymNum:
        if isinstance(x, Fraction):
            r = exact_root(x) if x >= 0 else None
            return norm_c(r) if r is not None else math.sqrt(x)
        return math.sqrt(x)
    c = x.const()
    if c is not None:
        if c < 0:
            raise ValueError('math domain error')
        r = exact_root(c)
        if r is not None:
            return SymNum({(): norm_c(r)} if r else {}, False)
        return math.sqrt(c)
    lo, hi = x.rng()
    # single square monomial: sqrt(c*a^2) = root*|a|
    if len(x.t) == 1:
        (m, v), = x.t.items()
        if len(m) == 2 and m[0] == m[1] and v > 0:
            r = exact_root(v)
            if r is not None:
                return _abs(SymNum({(m[0],): norm_c(r)}, False))
    # content that is a perfect square
    f = exact_root(abs(x.t[max(x.t)]))
    if f is not None and f != 1:
        x = x*(Fraction(1)/(f*f))
        if type(x) is not SymNum or x.const() is not None:
            return sym_sqrt(x)*norm_c(f)
        lo, hi = x.rng()
    else:
        f = 1
    key = ('sqrt', frozenset(x.t.items()))
    a = cur().reg.cache.get(key)
    if a is None:
        if lo is None or lo < 0:
            if x < 0:
                raise ValueError('math domain error')
        rlo = 0 if (lo is None or lo <= 0) else Fraction(
            math.isqrt(_int(lo*10**12)), 10**6)
        rhi = None if hi is None else Fraction(
            math.isqrt(_int(hi*10**12))+1, 10**6)+Fraction(1, 10**6)
        a = cur().reg.new('real', f'sqrt{cur().fresh()}', rlo, rhi,
                          sq=dict(x.t))
        a.root = True
        cur().define(a.z*a.z == x.z(real=True), a, root=True)
        cur().reg.cache[key] = a
    return SymNum({(a.id,): norm_c(Fraction(f))}, False)


def _trig(x):
    """(sin atom, cos atom, sign) of symbolic angle, sign-canonical"""
    lead = min(m for m in x.t)
    sgn = 1
    if x.t[lead] < 0:
        x = -x
        sgn = -1
    key = ('trig', frozenset(x.t.items()))
    r = cur().reg.cache.get(key)
    if r is None and key[1] in cur().reg.cache.get('invtrig', ()):
        # angle that is itself an inverse trigonometric value
        r = cur().reg.cache[key] = cur().reg.cache['invtrig'][key[1]]()
    if r is None:
        k = cur().fresh()
        c = cur().reg.new('real', f'cos{k}', -1, 1)
        s = cur().reg.new('real', f'sin{k}', -1, 1)
        # c^2 is rewritten to 1 - s^2
        c.sq = {(): 1, (s.id, s.id): -1}
        cur().define(c.z*c.z + s.z*s.z == 1, s, c)
        r = (SymNum({(s.id,): 1}, False), SymNum({(c.id,): 1}, False))
        cur().reg.cache[key] = r
        cur().note('sin/cos are uninterpreted up to s^2+c^2=1, parity')
    return r[0], r[1], sgn


def trig_split(x):
    """(sin, cos) of a sum with a constant or of twice an angle, by the
    addition theorems; only where the harness asks for it"""
    if not cur().reg.cache.get('trigx'):
        return None
    k = x.t.get(())
    if k is not None:
        y = x-k
        s, c = sym_sin(y), sym_cos(y)
        a, b = norm_c(Fraction(math.sin(k))), norm_c(Fraction(math.cos(k)))
        return s*b+c*a, c*b-s*a
    if all(Fraction(v).denominator == 1 and v % 2 == 0 for v in x.t.values()):
        y = x*Fraction(1, 2)
        s, c = sym_sin(y), sym_cos(y)
        return 2*s*c, 1-2*s*s
    if len(x.t) > 1:
        m = min(x.t)
        y = SymNum({m: x.t[m]}, False)
        z = x-y
        s, c, a, b = sym_sin(y), sym_cos(y), sym_sin(z), sym_cos(z)
        return s*b+c*a, c*b-s*a
    return None


def sym_sin(x):
    if type(x) is not SymNum:
        return math.sin(x)
    c = x.const()
    if c is not None:
        return math.sin(c)
    p = trig_split(x)
    if p:
        return p[0]
    s, c, g = _trig(x)
    return s*g


def sym_cos(x):
    if type(x) is not SymNum:
        return math.cos(x)
    c = x.const()
    if c is not None:
        return math.cos(c)
    p = trig_split(x)
    if p:
        return p[1]
    return _trig(x)[1]


def sym_uf(name, *args, lo=None, hi=None):
    """uninterpreted real function of its arguments (same args, same atom)"""
    ks = []
    for a in args:
        a = as_sym(a)
        if type(a) is not SymNum:
            raise Unsupported(f'{name} of nan')
        ks.append(frozenset(a.t.items()))
    key = ('uf', name)+tuple(ks)
    r = cur().reg.cache.get(key)
    if r is None:
        r = cur().reg.new('real', f'{name}{cur().fresh()}', lo, hi)
        cur().reg.cache[key] = r
        cur().note(f'{name} is uninterpreted')
    return SymNum({(r.id,): 1}, False)


def sym_isnan(x):
    if is_sym(x):
        return False
    if isinstance(x, (_float, np.floating)):
        return x != x
    return False


def astype1(x, t):
    k = np.dtype(t).kind if not (t is SymIntT or t is SymFloatT) else \
        ('i' if t is SymIntT else 'f')
    if k in 'iu':
        if isinstance(x, SymBool):
            return x.num()
        if isinstance(x, SymNum):
            return trunc(x)
        if isinstance(x, Fraction):
            return math.trunc(x)
        if isinstance(x, _float) and x != x:
            return -2**63
        return _int(x)
    if k == 'f':
        if isinstance(x, SymBool):
            x = as_sym(x.num())
        if isinstance(x, SymNum):
            return SymNum(x.t, False)
        return x if isinstance(x, Fraction) else _float(x)
    if k == 'b':
        if isinstance(x, SymNum):
            return x != 0
        return x
    return x


# --------------------------------------------------------------------------
# numpy ufunc dispatch on scalars/arrays
# --------------------------------------------------------------------------
import operator as _op


def _sign(x):
    if isinstance(x, SymNum):
        if x > 0:
            return 1 if x.isint else 1.0
        if x < 0:
            return -1 if x.isint else -1.0
        return 0 if x.isint else 0.0
    if isinstance(x, (Fraction,)):
        return (x > 0)-(x < 0)
    return np.sign(x)


def _maxi(a, b):
    if sym_isnan(a):
        return a
    if sym_isnan(b):
        return b
    return a if a >= b else b


def _mini(a, b):
    if sym_isnan(a):
        return a
    if sym_isnan(b):
        return b
    return a if a <= b else b


def np_div(a, b):
    """numpy float division: x/0 -> inf/nan instead of exception"""
    if isinstance(a, (_int, np.integer)) and not isinstance(a, bool):
        a = as_sym(_int(a)) if is_sym(b) else a
    try:
        return a/b
    except ZeroDivisionError:
        if not is_sym(a):
            if a == 0 or sym_isnan(a):
                return math.nan
            return math.inf if a > 0 else -math.inf
        if a == 0:
            return math.nan
        return math.inf if a > 0 else -math.inf


def _fmod(a, b):
    if not is_sym(a) and not is_sym(b):
        return math.fmod(a, b)
    if a >= 0:
        return a % _abs(b)
    return -((-a) % _abs(b))


def _hyp(f):
    return f


def land(a, b):
    if not isinstance(a, (SymBool, bool, np.bool_)):
        a = a != 0
    if not isinstance(b, (SymBool, bool, np.bool_)):
        b = b != 0
    return a & b


def lor(a, b):
    if not isinstance(a, (SymBool, bool, np.bool_)):
        a = a != 0
    if not isinstance(b, (SymBool, bool, np.bool_)):
        b = b != 0
    return a | b


def lnot(a):
    if not isinstance(a, (SymBool, bool, np.bool_)):
        a = a != 0
    return ~a if isinstance(a, SymBool) else (not a)


def sc_sqrt(x):
    if isinstance(x, SymNum):
        try:
            return sym_sqrt(x)
        except ValueError:
            return math.nan
    if isinstance(x, Fraction):
        return sym_sqrt(x)
    return np.sqrt(x)


INVTRIG = {'arctan2': (-4, 4), 'arctan': (-2, 2), 'arcsin': (-2, 2),
           'arccos': (0, 4)}


def inv_trig(name, *a):
    """inverse trigonometric function: an angle whose sine and cosine are
    the ones its definition gives"""
    th = sym_uf(name, *a, lo=INVTRIG[name][0], hi=INVTRIG[name][1])
    a = [as_sym(v) for v in a]

    def pair():
        if name == 'arctan2':
            y, x = a
            r = sc_sqrt(x*x+y*y)
            if r == 0:
                return 0, 1
            return y/r, x/r
        if name == 'arctan':
            r = sc_sqrt(a[0]*a[0]+1)
            return a[0]/r, 1/r
        o = sc_sqrt(1-a[0]*a[0])
        return (a[0], o) if name == 'arcsin' else (o, a[0])
    cur().reg.cache.setdefault('invtrig', {})[frozenset(th.t.items())] = pair
    return th


def concrete_fn(npf):
    def f(*a):
        b = []
        for x in a:
            if isinstance(x, SymNum):
                c = x.const()
                if c is None:
                    if npf.__name__ in INVTRIG:
                        return inv_trig(npf.__name__, *a)
                    return sym_uf(npf.__name__, *a)
                x = c
            if isinstance(x, Fraction):
                x = _float(x)
            b.append(x)
        return _float(npf(*b))
    return f


SCALAR = {
    'add': _op.add, 'subtract': _op.sub, 'multiply': _op.mul,
    'divide': np_div, 'true_divide': np_div, 'floor_divide': _op.floordiv,
    'remainder': _op.mod, 'mod': _op.mod, 'power': _op.pow,
    'float_power': _op.pow, 'negative': _op.neg, 'positive': _op.pos,
    'absolute': _op.abs, 'fabs': _op.abs, 'equal': _op.eq,
    'not_equal': _op.ne, 'less': _op.lt, 'less_equal': _op.le,
    'greater': _op.gt, 'greater_equal': _op.ge,
    'isnan': sym_isnan,
    'isfinite': lambda x: True if is_sym(x) else math.isfinite(x),
    'isinf': lambda x: False if is_sym(x) else math.isinf(x),
    'sqrt': sc_sqrt, 'sin': sym_sin, 'cos': sym_cos,
    'tan': concrete_fn(np.tan), 'exp': concrete_fn(np.exp),
    'log': concrete_fn(np.log), 'log10': concrete_fn(np.log10),
    'arctan2': concrete_fn(np.arctan2), 'arctan': concrete_fn(np.arctan),
    'arcsin': concrete_fn(np.arcsin), 'arccos': concrete_fn(np.arccos),
    'floor': lambda x: sym_floor(x, False) if is_sym(x)
    or isinstance(x, Fraction) else np.floor(x),
    'ceil': lambda x: -sym_floor(-x, False) if is_sym(x)
    or isinstance(x, Fraction) else np.ceil(x),
    'rint': lambda x: sym_round(x)*1.0 if is_sym(x) else np.rint(x),
    'trunc': lambda x: trunc(x)*1.0 if is_sym(x) else np.trunc(x),
    'sign': _sign, 'square': lambda x: x*x,
    'conjugate': lambda x: x,
    'hypot': lambda x, y: sc_sqrt(x*x+y*y),
    'maximum': _maxi, 'minimum': _mini, 'fmod': _fmod,
    'logical_and': land, 'logical_or': lor, 'logical_not': lnot,
    'bitwise_and': _op.and_, 'bitwise_or': _op.or_, 'bitwise_xor': _op.xor,
    'invert': lambda x: ~x if is_sym(x) else
    ((not x) if isinstance(x, (bool, np.bool_)) else ~x),
    'left_shift': _op.lshift, 'right_shift': _op.rshift,
    'deg2rad': lambda x: x*(math.pi/180), 'radians': lambda x: x*(math.pi/180),
    'rad2deg': lambda x: x*(180/math.pi), 'degrees': lambda x: x*(180/math.pi),
    'reciprocal': lambda x: 1/x,
}


def ufunc_dispatch(ufunc, method, inputs, kw):
    from . import npshim
    return npshim.ufunc(ufunc, method, inputs, kw)


# --------------------------------------------------------------------------
# replacements for builtins inside the code under test
# --------------------------------------------------------------------------
class _IntMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, _int) or (type(x) is SymNum and x.isint)

    def __subclasscheck__(cls, c):
        return issubclass(c, _int)

    def __eq__(cls, o):
        return o is cls or o is _int

    def __hash__(cls):
        return hash(_int)


class SymIntT(metaclass=_IntMeta):
    def __new__(cls, x=0, *a, **k):
        if a or k:
            return _int(x, *a, **k)
        if isinstance(x, SymBool):
            return x.num()
        if isinstance(x, SymNum):
            return trunc(x)
        if isinstance(x, Fraction):
            return math.trunc(x)
        if isinstance(x, str):
            v = EX.untoken(x) if EX is not None else None
            if v is not None:
                return trunc(v)
        if isinstance(x, np.ndarray) and x.dtype == object and x.size == 1:
            return SymIntT(x.reshape(-1)[0])
        return _int(x)

    @staticmethod
    def from_bytes(b, byteorder='big', signed=False):
        from .symbuf import SymBuf
        if isinstance(b, SymBuf):
            if byteorder == 'little':
                b = b[::-1]
            return SymNum.from_bits(list(reversed(b.bits)))
        return _int.from_bytes(b, byteorder=byteorder, signed=signed)


class _FloatMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, _float) or (type(x) is SymNum and not x.isint)

    def __eq__(cls, o):
        return o is cls or o is _float

    def __hash__(cls):
        return hash(_float)


class SymFloatT(metaclass=_FloatMeta):
    def __new__(cls, x=0.0):
        if isinstance(x, SymBool):
            x = as_sym(x.num())
        if isinstance(x, SymNum):
            return SymNum(x.t, False)
        if isinstance(x, Fraction):
            return x
        if isinstance(x, str):
            v = EX.untoken(x) if EX is not None else None
            if v is not None:
                v = as_sym(v)
                return SymNum(v.t, False)
        if isinstance(x, np.ndarray) and x.dtype == object and x.size == 1:
            return SymFloatT(x.reshape(-1)[0])
        return _float(x)


def sbuiltin_round(x, n=None):
    return sym_round(x, n)


def sbuiltin_bool(x=False):
    if isinstance(x, SymBool):
        return x
    if isinstance(x, SymNum):
        return x != 0
    return bool(x)


def str_format_percent(fmt, args):
    """'%5.2f' % sym -> tokens"""
    import re
    out = []
    i = 0
    pos = 0
    for m in re.finditer(r'%([-+0 #]*)(\d*)(\.\d+)?([diouxXeEfFgGsrc%])', fmt):
        out.append(fmt[pos:m.start()])
        pos = m.end()
        if m.group(4) == '%':
            out.append('%')
            continue
        a = args[i]
        i += 1
        if is_sym(a):
            if m.group(4) in 'di':
                a = trunc(as_sym(a))
            sp = m.group(2)+(m.group(3) or '')+m.group(4).replace('i', 'd')
            out.append(format(a, sp))
        else:
            out.append(('%'+m.group(1)+m.group(2)+(m.group(3) or '')
                        + m.group(4)) % (a,))
    out.append(fmt[pos:])
    return ''.join(out)
