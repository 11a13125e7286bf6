"""Harness-facing API.  A harness is written once and runs in two contexts:
SymCtx (symbolic inputs, obligations go to the solver) and ConcCtx (inputs from
a solver model, real unpatched code, ordinary Python values)."""
import math
from fractions import Fraction

HARNESSES = {}
TARGET = None        # module whose harnesses are collected


class Skip(BaseException):
    """concrete run: the inputs do not meet an assumption"""


def harness(cases=None, thorough=None, **opts):
    """cases: list of JSON-able case values (or a function tier->list)"""
    def deco(f):
        if TARGET not in (None, f.__module__):
            return f
        HARNESSES[f.__name__] = dict(fn=f, cases=cases or [None],
                                     thorough=thorough, opts=opts,
                                     doc=(f.__doc__ or '').strip())
        return f
    return deco


def is_arr(x):
    return hasattr(x, 'shape') and hasattr(x, 'reshape') and \
        getattr(x, 'shape', ()) != ()


def isnan(x):
    return isinstance(x, float) and x != x


class Base:
    symbolic = False

    def eq(self, label, a, b):
        """exact equality (element-wise; nan equals nan)"""
        self._cmp(label, a, b, None)

    def close(self, label, a, b, tol):
        self._cmp(label, a, b, tol)

    def _cmp(self, label, a, b, tol):
        if isinstance(a, (list, tuple)) or is_arr(a) or \
                isinstance(b, (list, tuple)) or is_arr(b):
            fa, fb = flatten(a), flatten(b)
            if len(fa) != len(fb):
                self.check(label+':length', False,
                           f'{len(fa)} elements, expected {len(fb)}')
                return
            for i, (x, y) in enumerate(zip(fa, fb)):
                self._cmp1(f'{label}[{i}]', x, y, tol)
            return
        self._cmp1(label, a, b, tol)

    def _cmp1(self, label, a, b, tol):
        if hasattr(a, 'item') and hasattr(a, 'dtype'):
            a = a.item()
        if hasattr(b, 'item') and hasattr(b, 'dtype'):
            b = b.item()
        if isnan(a) or isnan(b):
            self.check(label, isnan(a) and isnan(b), f'{a!r} vs {b!r}')
            return
        if tol is None:
            r = a == b
            self.check(label, r, lambda: f'{a!r} expected {b!r}')
        else:
            self.check(label, self._near(a, b, tol),
                       lambda: f'{a!r} expected {b!r} tol {tol}')

    def nan(self, label, a):
        self.check(label, isnan(a), lambda: f'{a!r} expected nan')

    def raises(self, f, *exc):
        """True if f() raises one of exc"""
        try:
            f()
        except exc:
            return True
        return False


def flatten(x):
    if isinstance(x, (list, tuple)):
        out = []
        for e in x:
            out.extend(flatten(e))
        return out
    if is_arr(x):
        if getattr(x, 'dtype', None) is not None and x.dtype == object:
            import numpy as np
            return list(x.view(np.ndarray).reshape(-1))
        return list(x.reshape(-1).tolist())
    return [x]


def textfile(ctx, text, name):
    """scratch file holding the text; removed by ctx.end"""
    import os
    import tempfile
    d = tempfile.mkdtemp(prefix='verif_txt_')
    ctx._files = getattr(ctx, '_files', [])+[d]
    p = os.path.join(d, name)
    with open(p, 'w', encoding='utf-8') as fh:
        fh.write(text)
    return p


class Msg:
    """bit message builder shared by both contexts"""

    def __init__(self, ctx):
        self.ctx = ctx
        self.b = []          # entries 0/1/Atom, MSB first

    def put(self, n, v):
        """constant/known value (unsigned or two's complement)"""
        self.b.extend(self.ctx._tobits(v, n))
        return v

    def u(self, name, n, v=None):
        if v is not None:
            return self.put(n, v)
        v = self.ctx.u(name, n)
        self.b.extend(self.ctx._tobits(v, n))
        return v

    def s(self, name, n, v=None):
        if v is not None:
            return self.put(n, v)
        v = self.ctx.s(name, n)
        self.b.extend(self.ctx._tobits(v, n))
        return v

    def pad(self, n):
        self.b.extend([0]*n)

    def any(self, name, n):
        """n unconstrained bits whose value the harness does not use"""
        while n > 0:
            k = min(n, 64)
            self.b.extend(self.ctx.rawbits(f'{name}_{n}', k))
            n -= k

    def extend(self, other):
        self.b.extend(other.b)

    def __len__(self):
        return len(self.b)

    def buf(self, nbytes=None):
        b = list(self.b)
        if nbytes is not None:
            b += [0]*(8*nbytes-len(b))
        b += [0]*((-len(b)) % 8)
        return self.ctx._mkbuf(b)


class SymCtx(Base):
    symbolic = True

    def __init__(self, ps, case):
        self.ps = ps
        self.case = case

    # inputs
    def u(self, name, n):
        import z3
        from . import sym as S
        if name in self.ps.inputs:
            raise RuntimeError('duplicate input '+name)
        bits = [self.ps.reg.bit(z3.Bool(f'{name}.{i}'), name)
                for i in range(n)]
        self.ps.inputs[name] = ('bits', bits)
        return S.SymNum.from_bits(bits)

    def rawbits(self, name, n):
        """n fresh bits, MSB first, without a number made of them"""
        import z3
        if name in self.ps.inputs:
            raise RuntimeError('duplicate input '+name)
        bits = [self.ps.reg.bit(z3.Bool(f'{name}.{i}'), name)
                for i in range(n)]
        self.ps.inputs[name] = ('bits', bits)
        return list(reversed(bits))

    def s(self, name, n):
        from . import sym as S
        v = self.u(name, n)
        sg = v.bits[n-1]
        lo = S.SymNum.from_bits(v.bits[:n-1]) if n > 1 else 0
        return lo - S.SymNum({(sg.id,): 1 << (n-1)}, True)

    def bool(self, name):
        v = self.u(name, 1)
        return v == 1

    def int(self, name, lo, hi):
        from . import sym as S
        if lo == hi:
            return lo
        a = self.ps.reg.new('int', name, lo, hi)
        self.ps.inputs[name] = ('int', a)
        return S.SymNum({(a.id,): 1}, True)

    def real(self, name, lo, hi, res=None):
        """real in [lo, hi]; res: grid step (dyadic values replay exactly)"""
        from . import sym as S
        if res is not None:
            res = Fraction(res)
            n = self.int(name, math.ceil(Fraction(lo)/res),
                         math.floor(Fraction(hi)/res))
            v = S.as_sym(n)*res if not isinstance(n, int) else n*res
            return S.SymNum(S.as_sym(v).t, False)
        a = self.ps.reg.new('real', name, Fraction(lo), Fraction(hi))
        self.ps.inputs[name] = ('real', a)
        return S.SymNum({(a.id,): 1}, False)

    def choice(self, name, vals):
        vals = list(vals)
        if len(vals) == 1:
            return vals[0]
        i = self.int(name, 0, len(vals)-1)
        return vals[i.__index__()]

    def msg(self):
        return Msg(self)

    def file(self, text, name='f.txt'):
        return textfile(self, text, name)

    def _tobits(self, v, n):
        from . import sym as S
        if isinstance(v, S.SymBool):
            v = v.num()
        if isinstance(v, S.SymNum):
            return list(reversed(S.twos(v, n)))
        v = int(v) & ((1 << n)-1)
        return [(v >> (n-1-i)) & 1 for i in range(n)]

    def _mkbuf(self, bits):
        from .symbuf import SymBuf
        return SymBuf(bits)

    def hex(self, bits):
        """hexadecimal string of a bit list (MSB first)"""
        from .symbuf import SymHex
        return SymHex(bits)

    def xorbits(self, bits):
        from .gf import xorbits
        return xorbits(bits)

    def bytes(self, name, n):
        """n unconstrained bytes"""
        m = self.msg()
        for i in range(n):
            m.u(f'{name}{i}', 8)
        return m.buf()

    def join(self, *bufs):
        from .symbuf import SymBuf
        out = SymBuf([])
        for b in bufs:
            out = out+b
        return out

    def arr(self, x):
        from .npshim import f_array
        return f_array(x)

    # text
    def text(self, v, spec):
        """v printed with all its digits in a field of the given format"""
        from . import sym as S
        if isinstance(v, S.SymNum):
            return self.ps.token(v, spec, exact=True)
        return format(v, spec)

    # propositions
    def assume(self, c):
        self.ps.assume(c)

    def check(self, label, c, detail=None):
        self.ps.check(label, c)

    def _near(self, a, b, tol):
        from . import sym as S
        d = a-b
        if S.is_sym(d):
            return S.land(d <= tol, d >= -Fraction(tol))
        return abs(d) <= tol

    def and_(self, *cs):
        from . import sym as S
        r = True
        for c in cs:
            r = S.land(r, c)
        return r

    def or_(self, *cs):
        from . import sym as S
        r = False
        for c in cs:
            r = S.lor(r, c)
        return r

    def not_(self, c):
        from . import sym as S
        return S.lnot(c)

    def implies(self, a, b):
        return self.or_(self.not_(a), b)

    def ite(self, c, a, b):
        from . import sym as S
        if not isinstance(c, S.SymBool):
            return a if c else b
        n = c.num()
        return b + (a-b)*n

    def floor(self, x):
        from . import sym as S
        return S.sym_floor(S.as_sym(x)) if S.is_sym(x) else math.floor(x)

    def round(self, x):
        from . import sym as S
        return S.sym_round(x)

    def sqrt(self, x):
        from . import sym as S
        return S.sc_sqrt(x)

    def sin(self, x):
        from . import sym as S
        return S.sym_sin(x)

    def cos(self, x):
        from . import sym as S
        return S.sym_cos(x)

    def trig_expand(self):
        """use the addition theorems for constants and double angles"""
        from . import sym as S
        S.cur().reg.cache['trigx'] = True

    def atan2(self, y, x):
        from . import sym as S
        return S.SCALAR['arctan2'](y, x)

    def concrete(self, x):
        """fork over the values of a small-range integer"""
        from . import sym as S
        if isinstance(x, S.SymBool):
            return bool(x)
        if isinstance(x, S.SymNum):
            return int(x.concretize())
        return int(x)

    def reach(self, label):
        self.ps.stats.reached[label] = self.ps.stats.reached.get(label, 0)+1

    def num(self, x):
        from . import sym as S
        if isinstance(x, S.SymBool):
            return x.num()
        return x

    def patch(self, mod, name, val):
        """stub a module attribute for this path (undone by ctx.end)"""
        self._patches = getattr(self, '_patches', [])
        self._patches.append((mod, name, getattr(mod, name)))
        setattr(mod, name, val)

    def end(self):
        for mod, name, v in reversed(getattr(self, '_patches', [])):
            setattr(mod, name, v)
        self._patches = []
        for d in getattr(self, '_files', []):
            import shutil
            shutil.rmtree(d, ignore_errors=True)
        self._files = []


class ConcCtx(Base):
    symbolic = False

    def __init__(self, inputs, case):
        self.inp = inputs
        self.case = case
        self.failures = []
        self.nchecks = 0
        self.reached = {}

    def text(self, v, spec):
        return format(v, spec)

    def u(self, name, n):
        return int(self.inp.get(name, 0))

    def rawbits(self, name, n):
        return self._tobits(self.u(name, n), n)

    def s(self, name, n):
        v = int(self.inp.get(name, 0))
        return v - (1 << n) if v >> (n-1) & 1 else v

    def bool(self, name):
        return self.u(name, 1) == 1

    def int(self, name, lo, hi):
        if lo == hi:
            return lo
        return int(self.inp.get(name, max(lo, 0)))

    def real(self, name, lo, hi, res=None):
        if res is not None:
            v = int(self.inp.get(name, math.ceil(Fraction(lo)/Fraction(res))))
            return float(v*Fraction(res))
        return float(Fraction(self.inp.get(name, str(lo))))

    def choice(self, name, vals):
        vals = list(vals)
        if len(vals) == 1:
            return vals[0]
        return vals[self.int(name, 0, len(vals)-1)]

    def msg(self):
        return Msg(self)

    def file(self, text, name='f.txt'):
        return textfile(self, text, name)

    def _tobits(self, v, n):
        v = int(v) & ((1 << n)-1)
        return [(v >> (n-1-i)) & 1 for i in range(n)]

    def hex(self, bits):
        return ''.join('%x' % int(''.join(str(b) for b in bits[i:i+4]), 2)
                       for i in range(0, len(bits), 4))

    def xorbits(self, bits):
        r = 0
        for b in bits:
            r ^= b
        return r

    def _mkbuf(self, bits):
        out = bytearray()
        for i in range(0, len(bits), 8):
            v = 0
            for b in bits[i:i+8]:
                v = (v << 1) | b
            out.append(v)
        return out

    def bytes(self, name, n):
        return bytearray(self.u(f'{name}{i}', 8) for i in range(n))

    def join(self, *bufs):
        out = bytearray()
        for b in bufs:
            out += b
        return out

    def arr(self, x):
        import numpy as np
        return np.array(x)

    def assume(self, c):
        if not c:
            raise Skip()

    def check(self, label, c, detail=None):
        self.nchecks += 1
        if not bool(c):
            if callable(detail):
                try:
                    detail = detail()
                except Exception:
                    detail = None
            self.failures.append((label, str(detail)[:300]))

    def _near(self, a, b, tol):
        try:
            d = abs(float(a)-float(b))
        except (TypeError, ValueError):
            return False
        return d <= float(tol)*(1+1e-6)+1e-11*max(abs(float(a)),
                                                 abs(float(b)))

    def and_(self, *cs):
        return all(bool(c) for c in cs)

    def or_(self, *cs):
        return any(bool(c) for c in cs)

    def not_(self, c):
        return not bool(c)

    def implies(self, a, b):
        return (not bool(a)) or bool(b)

    def ite(self, c, a, b):
        return a if c else b

    def floor(self, x):
        return math.floor(x)

    def round(self, x):
        return round(x)

    def sqrt(self, x):
        return math.sqrt(x)

    def sin(self, x):
        return math.sin(x)

    def cos(self, x):
        return math.cos(x)

    def trig_expand(self):
        pass

    def atan2(self, y, x):
        return math.atan2(y, x)

    def concrete(self, x):
        return int(x)

    def reach(self, label):
        self.reached[label] = self.reached.get(label, 0)+1

    def num(self, x):
        return int(x) if isinstance(x, bool) else x

    def patch(self, mod, name, val):
        self._patches = getattr(self, '_patches', [])
        self._patches.append((mod, name, getattr(mod, name)))
        setattr(mod, name, val)

    def end(self):
        for mod, name, v in reversed(getattr(self, '_patches', [])):
            setattr(mod, name, v)
        self._patches = []
        for d in getattr(self, '_files', []):
            import shutil
            shutil.rmtree(d, ignore_errors=True)
        self._files = []


def exc_label(e):
    """stable label of an unexpected exception: type and function"""
    import traceback
    fn = '?'
    for fr in traceback.extract_tb(e.__traceback__)[::-1]:
        if '/cssrlib/' in fr.filename:
            fn = fr.name
            break
    n = type(e).__name__
    if n == 'BsError':
        n = 'Error'
    return f'exception:{n} in {fn}'
