"""numpy shim: object arrays holding symbolic numbers.

Module-level name `np` inside the code under test is replaced by `NP` below.
Arrays created by the code are SArr (object dtype).  Reductions, comparisons
and linear algebra are re-implemented over exact scalars; everything else
falls through to numpy when no symbolic value is involved.
"""
import math
from fractions import Fraction

import numpy as _np

from . import sym as S
from .sym import SymNum, SymBool, Unsupported, is_sym, as_sym

_ndarray = _np.ndarray


class SArr(_np.ndarray):
    """object array; numeric conversions of indices, ufuncs over scalars"""

    def __array_finalize__(self, o):
        self.kd = getattr(o, 'kd', 'f')

    def __array_ufunc__(self, uf, method, *inputs, **kw):
        return ufunc(uf, method, inputs, kw)

    def __array_function__(self, func, types, args, kw):
        name = func.__name__
        mod = getattr(func, '__module__', '') or ''
        f = None
        if 'linalg' in mod:
            f = LINALG.get(name)
        if f is None:
            f = FUNCS.get(name)
        if f is not None:
            return f(*args, **kw)
        return fallback(func, args, kw)

    def __getitem__(self, k):
        r = _ndarray.__getitem__(self, fixidx(k))
        return r

    def __setitem__(self, k, v):
        kd = self.kd
        if not isinstance(v, _ndarray):
            if isinstance(v, (list, tuple)):
                v = f_array(v)
            else:
                if kd == 'i':
                    if isinstance(v, (SymNum, SymBool)):
                        v = S.astype1(v, int)
                    elif isinstance(v, (float, _np.floating, Fraction)):
                        v = int(v)
                elif kd == 'b' and not isinstance(v, SymBool):
                    v = bool(v)
                elif v is None and kd == 'f':
                    v = float('nan')
        elif kd == 'i' and v.dtype.kind in 'fO':
            v = map1(lambda x: S.astype1(x, int), v)
        if not isinstance(v, _ndarray):
            k = fixidx(k)
            r = _ndarray.__getitem__(self, k)
            if isinstance(r, _ndarray) and r.dtype == object and (
                    is_sym(v) or isinstance(v, Fraction)):
                r2 = r.view(_ndarray)
                if r2.ndim and not hasidxarr(k):
                    for i in _np.ndindex(r2.shape):
                        r2[i] = v
                    return
                o = _np.empty(r2.shape, dtype=object)
                for i in _np.ndindex(o.shape):
                    o[i] = v
                _ndarray.__setitem__(self, k, o)
                return
            if isinstance(v, (list,)):
                v = f_array(v)
            return _ndarray.__setitem__(self, k, v)
        return _ndarray.__setitem__(self, fixidx(k), v)

    # reductions
    def sum(self, axis=None, **kw):
        return f_sum(self, axis)

    def any(self, axis=None, **kw):
        return f_any(self, axis)

    def all(self, axis=None, **kw):
        return f_all(self, axis)

    def max(self, axis=None, **kw):
        return f_max(self, axis)

    def min(self, axis=None, **kw):
        return f_min(self, axis)

    def mean(self, axis=None, **kw):
        return f_mean(self, axis)

    def argmax(self, axis=None, **kw):
        return f_argmax(self)

    def argmin(self, axis=None, **kw):
        return f_argmin(self)

    def dot(self, o):
        return f_dot(self, o)

    def __matmul__(self, o):
        return f_dot(self, o)

    def __rmatmul__(self, o):
        return f_dot(o, self)

    def astype(self, t, **kw):
        return f_astype(self, t)

    def prod(self, axis=None, **kw):
        return f_prod(self)

    def tobytes(self, *a):
        from .symbuf import SymBuf
        return SymBuf.of(list(self.reshape(-1)))

    def tolist(self):
        return _ndarray.tolist(self)

    def round(self, n=0):
        return map1(lambda x: S.sym_round(x, n), self)

    def nonzero(self):
        return f_nonzero(self)

    def __bool__(self):
        if self.size == 1:
            return bool(self.reshape(-1)[0])
        raise ValueError('The truth value of an array with more than one '
                         'element is ambiguous. Use a.any() or a.all()')

    def __int__(self):
        if self.size == 1:
            return int(self.reshape(-1)[0])
        raise TypeError('only length-1 arrays can be converted')

    def __float__(self):
        if self.size == 1:
            return float(self.reshape(-1)[0])
        raise TypeError('only length-1 arrays can be converted')

    def __deepcopy__(self, memo):
        return self.copy()

    def __index__(self):
        if self.size == 1 and self.ndim == 0:
            return self.reshape(-1)[0].__index__()
        raise TypeError('only integer scalar arrays')


def hasidxarr(k):
    if isinstance(k, tuple):
        return any(hasidxarr(x) for x in k)
    return isinstance(k, (_ndarray, list))


def fixidx(k):
    if isinstance(k, tuple):
        return tuple(fixidx(x) for x in k)
    if isinstance(k, SymBool):
        return bool(k)
    if isinstance(k, SymNum):
        return k.__index__()
    if isinstance(k, slice):
        return slice(*[x.__index__() if isinstance(x, SymNum) else x
                       for x in (k.start, k.stop, k.step)])
    if isinstance(k, list):
        if any(is_sym(x) for x in k):
            return [fixidx(x) for x in k]
        return k
    if isinstance(k, _ndarray) and k.dtype == object:
        fl = [fixidx(x) for x in k.reshape(-1)]
        if fl and all(isinstance(x, (bool, _np.bool_)) for x in fl):
            return _np.array(fl, dtype=bool).reshape(k.shape)
        if any(isinstance(x, (float, Fraction)) for x in fl):
            raise IndexError('arrays used as indices must be of integer (or '
                             'boolean) type')
        return _np.array(fl, dtype=int).reshape(k.shape)
    return k


def wrap(a, kd='f'):
    """ndarray -> SArr of objects (python scalars)"""
    if isinstance(a, SArr):
        return a
    if not isinstance(a, _ndarray):
        return a
    if a.dtype == object:
        r = a.view(SArr)
    else:
        if a.dtype.kind in 'iu':
            kd = 'i'
        elif a.dtype.kind == 'b':
            kd = 'b'
        elif a.dtype.kind not in 'f':
            return a
        r = a.astype(object).view(SArr)
    r.kd = kd
    return r


def has_sym(a):
    if is_sym(a):
        return True
    if isinstance(a, _ndarray):
        if a.dtype != object:
            return False
        return any(is_sym(x) for x in a.reshape(-1).view(_ndarray))
    if isinstance(a, (list, tuple)):
        return any(has_sym(x) for x in a)
    return False


def to_real(a):
    """symbol-free nested argument -> ordinary numpy value"""
    if isinstance(a, SymNum):
        c = a.const()
        return float(c) if not a.isint else int(c)
    if isinstance(a, Fraction):
        return float(a)
    if isinstance(a, _ndarray) and a.dtype == object:
        fl = [to_real(x) for x in a.reshape(-1).view(_ndarray)]
        kd = getattr(a, 'kd', 'f')
        if any(isinstance(x, (float, _np.floating)) for x in fl) or (
                kd == 'f' and not any(isinstance(x, str) for x in fl)):
            try:
                return _np.array(fl, dtype=float).reshape(a.shape)
            except (TypeError, ValueError):
                return a.view(_ndarray)
        return _np.array(fl).reshape(a.shape)
    if isinstance(a, list):
        return [to_real(x) for x in a]
    if isinstance(a, tuple):
        return tuple(to_real(x) for x in a)
    return a


def has_nonconst(a):
    if isinstance(a, SymNum):
        return a.const() is None
    if isinstance(a, SymBool):
        return True
    if isinstance(a, _ndarray):
        if a.dtype != object:
            return False
        return any(has_nonconst(x) for x in a.reshape(-1).view(_ndarray))
    if isinstance(a, (list, tuple)):
        return any(has_nonconst(x) for x in a)
    return False


def unview(a):
    if isinstance(a, SArr):
        return a.view(_ndarray)
    if type(a) in (list, tuple):
        return type(a)(unview(x) for x in a)
    return a


def fallback(func, args, kw):
    if any(has_nonconst(a) for a in args) or \
            any(has_nonconst(a) for a in kw.values()):
        # generic object implementation
        a2 = [unview(a) for a in args]
        if func.__name__ in OBJ_OK:
            r = func(*a2, **kw)
            return wrap(r) if isinstance(r, _ndarray) else r
        raise Unsupported('numpy.'+func.__name__+' on symbolic values')
    r = func(*[to_real(a) for a in args],
             **{k: to_real(v) for k, v in kw.items()})
    return rewrap(r)


def rewrap(r):
    if isinstance(r, _ndarray):
        return wrap(r)
    if isinstance(r, tuple) and type(r) is tuple:
        return tuple(rewrap(x) for x in r)
    if isinstance(r, _np.floating):
        return float(r)
    if isinstance(r, _np.integer):
        return int(r)
    return r


OBJ_OK = {'reshape', 'ravel', 'transpose', 'concatenate', 'vstack', 'hstack',
          'append', 'delete', 'insert', 'stack', 'tile', 'repeat', 'diag',
          'squeeze', 'atleast_1d', 'atleast_2d', 'column_stack', 'roll',
          'flip', 'resize', 'take', 'copy', 'ix_', 'array_split', 'outer',
          'diag_indices', 'triu', 'tril', 'expand_dims', 'swapaxes',
          'broadcast_to', 'copyto', 'diagonal', 'shape', 'ndim', 'size'}


def map1(f, a):
    a = a if isinstance(a, _ndarray) else f_array(a)
    o = _np.empty(a.shape, dtype=object)
    src = a.view(_ndarray) if isinstance(a, SArr) else a
    for i in _np.ndindex(a.shape):
        v = src[i]
        o[i] = f(v.item() if isinstance(v, _np.generic) else v)
    return wrap(o)


def tobase(a):
    if isinstance(a, SArr):
        return a.view(_ndarray)
    if isinstance(a, _ndarray):
        return a if a.dtype == object else a.astype(object)
    if isinstance(a, (list, tuple)):
        return f_array(a).view(_ndarray)
    return a


KIND = {}
for _n in ('equal', 'not_equal', 'less', 'less_equal', 'greater',
           'greater_equal', 'isnan', 'isfinite', 'isinf', 'logical_and',
           'logical_or', 'logical_not'):
    KIND[_n] = 'b'


def ufunc(uf, method, inputs, kw):
    name = uf.__name__
    if name == 'matmul':
        return f_dot(*inputs)
    if method == 'reduce':
        ax = kw.get('axis', 0)
        f = {'add': f_sum, 'maximum': f_max, 'minimum': f_min,
             'logical_and': f_all, 'logical_or': f_any,
             'multiply': f_prod}.get(name)
        if f is None:
            raise Unsupported('reduce '+name)
        return f(inputs[0], ax) if name != 'multiply' else f(inputs[0])
    if method == 'outer' and name == 'multiply':
        a, b = inputs
        return f_array([[x*y for y in b] for x in a])
    if method != '__call__':
        raise Unsupported('ufunc method '+method)
    f = S.SCALAR.get(name)
    if f is None:
        if any(has_nonconst(x) for x in inputs):
            raise Unsupported('ufunc '+name)
        return rewrap(uf(*[to_real(x) for x in inputs]))
    out = kw.get('out')
    where = kw.get('where', True)
    if where is not True:
        raise Unsupported('ufunc where')
    arrs = [isinstance(x, (_ndarray, list, tuple)) for x in inputs]
    if not any(arrs):
        r = f(*[x.item() if isinstance(x, _np.generic) else x
                for x in inputs])
        if out is not None:
            out[0][...] = r
            return out[0]
        return r
    ins = [tobase(x) for x in inputs]
    for i, x in enumerate(ins):
        if not isinstance(x, _ndarray):
            o = _np.empty((), dtype=object)
            o[()] = x
            ins[i] = o
    b = _np.broadcast(*ins)
    o = _np.empty(b.shape, dtype=object)
    bi = [_np.broadcast_to(x, b.shape) for x in ins]
    for i in _np.ndindex(b.shape):
        o[i] = f(*[py(x[i]) for x in bi])
    if o.ndim == 0 and out is None:
        return o[()]
    kds = [getattr(x, 'kd', None) or ('i' if isinstance(x, (int, bool)) and
                                      not isinstance(x, SymBool) else
                                      ('i' if isinstance(x, SymNum) and
                                       x.isint else 'f')) for x in inputs]
    for i, x in enumerate(inputs):
        if isinstance(x, _ndarray) and not isinstance(x, SArr):
            kds[i] = {'i': 'i', 'u': 'i', 'b': 'b'}.get(x.dtype.kind, 'f')
    kd = KIND.get(name)
    if kd is None:
        if all(k in 'ib' for k in kds) and name not in (
                'divide', 'true_divide', 'sqrt', 'sin', 'cos'):
            kd = 'b' if all(k == 'b' for k in kds) and \
                name.startswith(('bitwise', 'invert')) else 'i'
        else:
            kd = 'f'
    if out is not None:
        t = out[0] if isinstance(out, tuple) else out
        t[...] = wrap(o)
        return t
    r = o.view(SArr)
    r.kd = kd
    return r


def py(v):
    return v.item() if isinstance(v, _np.generic) else v


# --------------------------------------------------------------------------
# functions
# --------------------------------------------------------------------------
def kind_of(dtype):
    if dtype is None:
        return None
    if dtype is S.SymIntT:
        return 'i'
    if dtype is S.SymFloatT:
        return 'f'
    if dtype is object:
        return 'O'
    try:
        k = _np.dtype(dtype).kind
    except TypeError:
        return 'O'
    return {'u': 'i', 'i': 'i', 'f': 'f', 'b': 'b'}.get(k, k)


def shp(shape):
    if isinstance(shape, (tuple, list)):
        return tuple(int(x.__index__()) for x in shape)
    if isinstance(shape, _ndarray):
        return tuple(int(x.__index__()) for x in shape)
    return (int(shape.__index__()),)


def filled(shape, v, kd):
    o = _np.empty(shp(shape), dtype=object)
    o.fill(v) if not is_sym(v) else None
    if is_sym(v):
        for i in _np.ndindex(o.shape):
            o[i] = v
    r = o.view(SArr)
    r.kd = kd
    return r


def f_zeros(shape, dtype=None, order='C'):
    k = kind_of(dtype) or 'f'
    if k in 'SUV':
        return _np.zeros(shp(shape), dtype=dtype)
    return filled(shape, {'f': 0.0, 'b': False}.get(k, 0),
                  'f' if k == 'O' else k)


def f_ones(shape, dtype=None, order='C'):
    k = kind_of(dtype) or 'f'
    return filled(shape, {'f': 1.0, 'b': True}.get(k, 1), k)


def f_empty(shape, dtype=None, order='C'):
    return f_zeros(shape, dtype)


def f_full(shape, v, dtype=None, order='C'):
    k = kind_of(dtype)
    if k is None:
        k = 'i' if isinstance(v, (int, _np.integer)) else 'f'
    return filled(shape, py(v), k)


def f_eye(n, m=None, k=0, dtype=None):
    r = f_zeros((n, m if m is not None else n))
    for i in range(min(r.shape)):
        r[i, i] = 1.0
    return r


def f_array(x, dtype=None, copy=True, ndmin=0):
    from .symbuf import SymBuf
    k = kind_of(dtype)
    if k == 'V' and _np.dtype(dtype).names and isinstance(x, list):
        # record array: every field holds python objects
        return _np.array([tuple(py(e) for e in r) for r in x],
                         dtype=[(n, 'O') for n in _np.dtype(dtype).names])
    if type(x) is SymBuf:
        x = list(x)
    elif hasattr(x, '_gf'):
        x = x.a.view(SArr)
    if isinstance(x, SArr):
        r = x.copy()
    elif isinstance(x, _ndarray):
        if x.dtype.kind in 'SUV' or k in ('S', 'U', 'V'):
            return _np.array(x, dtype=dtype)
        r = wrap(x.copy())
    elif is_sym(x) or isinstance(x, Fraction):
        o = _np.empty((), dtype=object)
        o[()] = x
        r = o.view(SArr)
        r.kd = 'f'
    elif isinstance(x, (range, set, dict)) or hasattr(x, 'dtype'):
        r = wrap(_np.array(x))
    else:
        if isinstance(x, (list, tuple)):
            if not has_sym(x) and not any(
                    isinstance(e, (SArr, Fraction)) for e in flat(x)):
                a = _np.array(x, dtype=None if k in (None, 'O') else
                              {'i': int, 'f': float, 'b': bool}.get(
                                  k, dtype))
                if a.dtype.kind in 'SUV':
                    return a
                r = wrap(a)
            else:
                sh = list_shape(x)
                o = _np.empty(sh, dtype=object)
                fill(o, x, ())
                r = o.view(SArr)
                fl = [py(e) for e in o.reshape(-1)]
                r.kd = 'i' if all(
                    (isinstance(e, SymNum) and e.isint) or
                    isinstance(e, (int, SymBool)) for e in fl) else 'f'
                if r.kd == 'i' and all(isinstance(e, (bool, SymBool))
                                       for e in fl):
                    r.kd = 'b'
        else:
            a = _np.array(x)
            if a.dtype.kind in 'SUV':
                return a
            r = wrap(a)
    if k is not None and k != 'O' and isinstance(r, SArr) and k != r.kd:
        r = f_astype(r, {'i': int, 'f': float, 'b': bool}[k])
    return r


def flat(x):
    for e in x:
        if isinstance(e, (list, tuple)):
            yield from flat(e)
        else:
            yield e


def list_shape(x):
    if isinstance(x, (list, tuple)):
        if not x:
            return (0,)
        shs = {list_shape(e) for e in x}
        if len(shs) > 1:
            raise ValueError('setting an array element with a sequence. The '
                             'requested array has an inhomogeneous shape')
        return (len(x),)+shs.pop()
    if isinstance(x, _ndarray):
        return x.shape
    return ()


def fill(o, x, idx):
    if isinstance(x, (list, tuple)):
        for i, e in enumerate(x):
            fill(o, e, idx+(i,))
    elif isinstance(x, _ndarray):
        b = tobase(x)
        for i in _np.ndindex(x.shape):
            o[idx+i] = b[i]
    else:
        o[idx] = py(x)


def f_astype(a, t):
    k = kind_of(t)
    if k == 'O':
        return a.copy()
    r = map1(lambda x: S.astype1(x, {'i': int, 'f': float, 'b': bool}[k]), a)
    r.kd = k
    return r


def _reduce(a, axis, f, empty):
    a = a if isinstance(a, _ndarray) else f_array(a)
    b = tobase(a)
    if axis is None:
        r = empty
        first = True
        for x in b.reshape(-1):
            if first and empty is None:
                r = py(x)
            else:
                r = f(r, py(x))
            first = False
        return r
    axis = axis % b.ndim
    sh = b.shape[:axis]+b.shape[axis+1:]
    o = _np.empty(sh, dtype=object)
    for i in _np.ndindex(sh):
        r = empty
        first = True
        for j in range(b.shape[axis]):
            x = py(b[i[:axis]+(j,)+i[axis:]])
            if first and empty is None:
                r = x
            else:
                r = f(r, x)
            first = False
        o[i] = r
    r = o.view(SArr)
    r.kd = getattr(a, 'kd', 'f')
    if o.ndim == 0:
        return o[()]
    return r


def addb(a, b):
    if isinstance(b, (bool, _np.bool_)):
        b = int(b)
    return a+b


def f_sum(a, axis=None, **kw):
    return _reduce(a, axis, addb, 0)


def f_prod(a, axis=None, **kw):
    return _reduce(a, axis, lambda x, y: x*y, 1)


def f_any(a, axis=None, **kw):
    return _reduce(a, axis, S.lor, False)


def f_all(a, axis=None, **kw):
    return _reduce(a, axis, S.land, True)


def f_max(a, axis=None, **kw):
    return _reduce(a, axis, S._maxi, None)


def f_min(a, axis=None, **kw):
    return _reduce(a, axis, S._mini, None)


def f_mean(a, axis=None, **kw):
    a = a if isinstance(a, _ndarray) else f_array(a)
    n = a.size if axis is None else a.shape[axis]
    s = f_sum(a, axis)
    return s/n


def f_argmax(a, axis=None):
    b = [py(x) for x in tobase(a).reshape(-1)]
    k = 0
    for i in range(1, len(b)):
        if b[i] > b[k]:
            k = i
    return k


def f_argmin(a, axis=None):
    b = [py(x) for x in tobase(a).reshape(-1)]
    k = 0
    for i in range(1, len(b)):
        if b[i] < b[k]:
            k = i
    return k


def f_argsort(a, axis=-1, **kw):
    b = [py(x) for x in tobase(a).reshape(-1)]
    idx = list(range(len(b)))
    # insertion sort: forks on symbolic comparisons
    out = []
    for i in idx:
        k = len(out)
        while k > 0 and b[i] < b[out[k-1]]:
            k -= 1
        out.insert(k, i)
    return wrap(_np.array(out, dtype=int))


def f_dot(a, b, out=None):
    if not isinstance(a, (_ndarray, list, tuple)) or \
            not isinstance(b, (_ndarray, list, tuple)):
        return a*b
    A, B = tobase(a), tobase(b)
    if A.ndim == 0 or B.ndim == 0:
        return a*b
    if A.ndim == 1 and B.ndim == 1:
        if A.shape != B.shape:
            raise ValueError(f'shapes {A.shape} and {B.shape} not aligned')
        return dot1(A, B)
    A2 = A.reshape(1, -1) if A.ndim == 1 else A
    B2 = B.reshape(-1, 1) if B.ndim == 1 else B
    if A2.ndim != 2 or B2.ndim != 2:
        raise Unsupported('dot of nd arrays')
    if A2.shape[1] != B2.shape[0]:
        raise ValueError(f'matmul: shapes {A.shape} and {B.shape} mismatch')
    o = _np.empty((A2.shape[0], B2.shape[1]), dtype=object)
    for i in range(o.shape[0]):
        for j in range(o.shape[1]):
            o[i, j] = dot1(A2[i], B2[:, j])
    if A.ndim == 1:
        o = o[0]
    elif B.ndim == 1:
        o = o[:, 0]
    return wrap(o)


def dot1(a, b):
    r = 0.0
    for x, y in zip(a, b):
        x, y = py(x), py(y)
        if type(x) in (int, float) and x == 0 and not S.sym_isnan(y) or \
                type(y) in (int, float) and y == 0 and not S.sym_isnan(x):
            continue
        r = r+x*y
    return r


def f_norm(x, ord=None, axis=None, keepdims=False):
    if ord is not None:
        return fallback(_np.linalg.norm, (x, ord, axis), {})
    x = x if isinstance(x, _ndarray) else f_array(x)
    if axis is None:
        s = 0
        for e in tobase(x).reshape(-1):
            e = py(e)
            s = s+e*e
        return S.sc_sqrt(s)
    s = f_sum(map1(lambda e: e*e, x), axis)
    return map1(S.sc_sqrt, s)


def det(M):
    n = len(M)
    if n == 0:
        return 1
    if n == 1:
        return M[0][0]
    if n == 2:
        return M[0][0]*M[1][1]-M[0][1]*M[1][0]
    r = 0
    for j in range(n):
        c = M[0][j]
        if type(c) in (int, float) and c == 0:
            continue
        m = [row[:j]+row[j+1:] for row in M[1:]]
        d = c*det(m)
        r = r+d if j % 2 == 0 else r-d
    return r


def f_inv(A):
    if hasattr(A, '_gf'):
        return A.inv()
    A = A if isinstance(A, _ndarray) else f_array(A)
    b = tobase(A)
    n = b.shape[0]
    if b.ndim != 2 or b.shape[1] != n:
        raise _np.linalg.LinAlgError('Last 2 dimensions must be square')
    if not has_nonconst(A):
        return wrap(_np.linalg.inv(to_real(A)))
    if n > 4:
        raise Unsupported('inverse of symbolic matrix larger than 4')
    M = [[py(b[i, j]) for j in range(n)] for i in range(n)]
    d = det(M)
    if d == 0:
        raise _np.linalg.LinAlgError('Singular matrix')
    o = _np.empty((n, n), dtype=object)
    for i in range(n):
        for j in range(n):
            m = [r[:i]+r[i+1:] for k, r in enumerate(M) if k != j]
            c = det(m)
            o[i, j] = (c if (i+j) % 2 == 0 else -c)/d
    return wrap(o)


def f_det(A):
    b = tobase(A)
    return det([[py(x) for x in r] for r in b])


def f_solve(A, b):
    return f_dot(f_inv(A), b)


def f_nonzero(a):
    b = tobase(a if isinstance(a, _ndarray) else f_array(a))
    idx = [i for i in _np.ndindex(b.shape) if bool(py(b[i]))]
    return tuple(_np.array([i[k] for i in idx], dtype=int)
                 for k in range(b.ndim))


def f_where(c, a=None, b=None):
    if a is None and b is None:
        return f_nonzero(c)
    C = c if isinstance(c, _ndarray) else f_array(c)
    A, B = f_array(a), f_array(b)
    bb = _np.broadcast(tobase(C), tobase(A), tobase(B))
    C, A, B = (_np.broadcast_to(tobase(x), bb.shape) for x in (C, A, B))
    o = _np.empty(bb.shape, dtype=object)
    for i in _np.ndindex(bb.shape):
        o[i] = A[i] if bool(C[i]) else B[i]
    return wrap(o)


def f_isnan(x):
    if isinstance(x, (_ndarray, list, tuple)):
        r = map1(S.sym_isnan, x)
        r.kd = 'b'
        return r
    return S.sym_isnan(x)


def f_cross(a, b, **kw):
    a, b = [[py(v) for v in tobase(x if isinstance(x, _ndarray)
                                   else f_array(x)).reshape(-1)]
            for x in (a, b)]
    return f_array([a[1]*b[2]-a[2]*b[1], a[2]*b[0]-a[0]*b[2],
                    a[0]*b[1]-a[1]*b[0]])


def f_append(a, b, axis=None):
    A = a if isinstance(a, _ndarray) else f_array(a)
    B = b if isinstance(b, _ndarray) else f_array(b)
    if A.dtype.names:
        return _np.append(A, B, axis=axis)
    r = wrap(_np.append(tobase(A), tobase(B), axis=axis))
    r = r.copy()
    r.kd = getattr(wrap(A), 'kd', 'f')
    return r


def f_unique(a, **kw):
    if not has_nonconst(a):
        return fallback(_np.unique, (a,), kw)
    raise Unsupported('unique')


def f_isin(a, t, **kw):
    A = a if isinstance(a, _ndarray) else f_array(a)
    T = [py(x) for x in tobase(t if isinstance(t, _ndarray)
                               else f_array(t)).reshape(-1)]

    def g(x):
        r = False
        for y in T:
            r = S.lor(r, x == y)
        return r
    r = map1(g, A)
    r.kd = 'b'
    return r


def f_arange(*a, **kw):
    a = [x.__index__() if isinstance(x, SymNum) and x.isint else x
         for x in a]
    return wrap(_np.arange(*a))


def f_round(x, n=0, **kw):
    if isinstance(x, _ndarray):
        return map1(lambda v: S.sym_round(v, n) if n else
                    S.as_sym(S.sym_round(v))*1.0, x)
    if is_sym(x) or isinstance(x, Fraction):
        return S.sym_round(x, n)*1.0 if n else S.sym_round(x)*1.0
    return _np.round(x, n)


def f_interp(x, xp, fp, **kw):
    if not has_nonconst(x) and not has_nonconst(list(xp)) and \
            not has_nonconst(list(fp)):
        return fallback(_np.interp, (x, xp, fp), {})
    if isinstance(x, _ndarray):
        return map1(lambda v: f_interp(v, xp, fp), x)
    n = len(xp)
    if x <= xp[0]:
        return fp[0]
    for i in range(1, n):
        if x <= xp[i]:
            return fp[i-1]+(fp[i]-fp[i-1])*((x-xp[i-1])/(xp[i]-xp[i-1]))
    return fp[n-1]


def f_diag(a, k=0):
    A = a if isinstance(a, _ndarray) else f_array(a)
    if A.ndim == 1:
        o = f_zeros((A.shape[0], A.shape[0]))
        b = tobase(A)
        for i in range(A.shape[0]):
            o[i, i] = b[i]
        return o
    d = _np.diag(tobase(A), k)
    d.flags.writeable = True
    return wrap(d)


def f_int(x):
    return S.SymIntT(x)


def f_float64(x=0.0):
    if isinstance(x, _ndarray):
        return f_astype(x, float)
    return S.SymFloatT(x)


FUNCS = {
    'zeros': f_zeros, 'ones': f_ones, 'empty': f_empty, 'full': f_full,
    'eye': f_eye, 'identity': f_eye, 'array': f_array, 'asarray': f_array,
    'sum': f_sum, 'any': f_any, 'all': f_all, 'max': f_max, 'amax': f_max,
    'min': f_min, 'amin': f_min, 'mean': f_mean, 'argmax': f_argmax,
    'argmin': f_argmin, 'argsort': f_argsort, 'dot': f_dot, 'prod': f_prod,
    'where': f_where, 'isnan': f_isnan, 'cross': f_cross, 'append': f_append,
    'unique': f_unique, 'isin': f_isin, 'arange': f_arange,
    'nonzero': f_nonzero, 'round': f_round, 'around': f_round,
    'interp': f_interp, 'matmul': f_dot,
    'zeros_like': lambda a, **k: f_zeros(_np.shape(a)),
    'ones_like': lambda a, **k: f_ones(_np.shape(a)),
    'copy': lambda a: f_array(a), 'diag': f_diag,
}
LINALG = {'norm': f_norm, 'inv': f_inv, 'det': f_det, 'solve': f_solve}


class _LinAlg:
    LinAlgError = _np.linalg.LinAlgError

    def __getattr__(self, n):
        f = LINALG.get(n)
        if f is not None:
            return f
        g = getattr(_np.linalg, n)
        return lambda *a, **k: fallback(g, a, k)


class _Matrix:
    """np.matrix as far as its inverse and transpose"""

    def __init__(self, a):
        self.a = a if isinstance(a, _ndarray) else f_array(a)

    @property
    def I(self):
        return f_inv(self.a)

    @property
    def T(self):
        return self.a.T


class _NP:
    nan = math.nan
    matrix = _Matrix
    inf = math.inf
    pi = math.pi
    linalg = _LinAlg()
    ndarray = _np.ndarray
    newaxis = None
    float64 = staticmethod(f_float64)
    int32 = staticmethod(f_int)
    int64 = staticmethod(f_int)

    def __getattr__(self, n):
        if n in ('float64',):
            return f_float64
        f = FUNCS.get(n)
        if f is None:
            g = getattr(_np, n)
            if isinstance(g, _np.ufunc):
                def f(*a, _g=g, **k):
                    if any(has_sym(x) or isinstance(x, (SArr, Fraction))
                           for x in a):
                        return ufunc(_g, '__call__', a, k)
                    return rewrap(_g(*a, **k))
            elif callable(g) and not isinstance(g, type):
                def f(*a, _g=g, **k):
                    return fallback(_g, a, k)
            else:
                f = g
        setattr(self, n, f)
        return f

    class _R:
        def __getitem__(self, k):
            if isinstance(k, tuple):
                out = []
                for x in k:
                    if isinstance(x, (_ndarray, list)):
                        out.extend(list(x))
                    elif isinstance(x, slice):
                        out.extend(list(_np.r_[x]))
                    else:
                        out.append(x)
                return f_array(out)
            return wrap(_np.r_[k])
    r_ = _R()


NP = _NP()
# dtypes passed as arguments must stay usable: np.int32 / np.float64 / 'f8'
_KM = {id(f_int): 'i', id(f_float64): 'f'}
_old_kind_of = kind_of


def kind_of(dtype):        # noqa: F811
    if callable(dtype):
        if dtype is f_int:
            return 'i'
        if dtype is f_float64:
            return 'f'
        from .sym import sbuiltin_bool
        if dtype is sbuiltin_bool:
            return 'b'
    return _old_kind_of(dtype)
