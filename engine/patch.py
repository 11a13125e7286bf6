"""Prepare the real cssrlib modules for symbolic execution.

Nothing is translated: the functions of /repo/src/cssrlib run unmodified; only
the names they use for numpy, math, struct, bitstruct, int, float, ... are
bound to symbolic-aware stand-ins.
"""
import builtins
import copy
import importlib
import math
import os
import sys
import types

import numpy as np

REPO = os.environ.get('VERIF_REPO', '/repo')+'/src'
VENV = '/opt/venv/lib/python3.12/site-packages'
MODS = ['gnss', 'cssrlib', 'cssr_has', 'cssr_bds', 'cssr_mdc', 'cssr_pvs',
        'rtcm', 'mlambda', 'ephemeris', 'peph', 'dgps', 'ewss', 'utils',
        'rtk', 'rinex', 'pppssr', 'ppprtk', 'pntpos', 'osnma', 'qznma',
        'sbas', 'rawnav', 'ppp', 'tlesim']
_done = {}


def _open(f, mode='r', *a, **k):
    """text files of the harnesses are written in UTF-8 (number tokens)"""
    if 'b' not in mode and k.get('encoding'):
        k = dict(k, encoding='utf-8')
    return open(f, mode, *a, **k)


def install():
    if _done:
        return
    sys.dont_write_bytecode = True
    if VENV not in sys.path:
        sys.path.append(VENV)
    sys.path.insert(0, REPO)
    nb = types.ModuleType('numba')

    def njit(*a, **k):
        if len(a) == 1 and callable(a[0]) and not k:
            return a[0]
        return lambda f: f
    nb.njit = nb.jit = njit
    nb.prange = range
    sys.modules['numba'] = nb
    from . import gf
    sys.modules['galois'] = gf.module()
    # heavy plotting / optional imports are never exercised symbolically
    for n in ('matplotlib', 'matplotlib.pyplot', 'matplotlib.dates'):
        if n not in sys.modules:
            m = types.ModuleType(n)
            m.__getattr__ = lambda k: (lambda *a, **kw: None)
            sys.modules[n] = m
    from . import symbuf
    symbuf.install()
    mods = []
    for n in MODS:
        try:
            mods.append(importlib.import_module('cssrlib.'+n))
        except Exception as e:     # a module that cannot be imported here
            _done.setdefault('failed', {})[n] = repr(e)
    for m in mods:
        patch_module(m)
    _done['mods'] = mods
    snapshot(mods)


class MathShim:
    pi = math.pi
    e = math.e
    nan = math.nan
    inf = math.inf

    def __getattr__(self, n):
        f = MATH.get(n)
        return f if f is not None else getattr(math, n)


def _mk_math():
    from . import sym as S

    def uf(name):
        g = getattr(math, name)

        def f(*a):
            if any(isinstance(x, S.SymNum) and x.const() is None for x in a):
                c = {'asin': 'arcsin', 'acos': 'arccos', 'atan': 'arctan',
                     'atan2': 'arctan2'}.get(name)
                return S.inv_trig(c, *a) if c else S.sym_uf(name, *a)
            return g(*[float(x) for x in a])
        return f
    d = {'floor': S.sym_floor, 'sqrt': S.sym_sqrt, 'sin': S.sym_sin,
         'cos': S.sym_cos, 'fabs': lambda x: abs(x)*1.0 if S.is_sym(x)
         else math.fabs(x), 'pow': lambda a, b: a**b if S.is_sym(a)
         else math.pow(a, b),
         'fmod': lambda a, b: S._fmod(a, b),
         'isnan': S.sym_isnan,
         'ceil': lambda x: -S.sym_floor(-x) if S.is_sym(x) else math.ceil(x),
         'trunc': lambda x: S.trunc(x)}
    for n in ('tan', 'asin', 'acos', 'atan', 'atan2', 'exp', 'log'):
        d[n] = uf(n)
    return d


MATH = {}


def patch_module(m):
    from . import sym as S
    from . import npshim, symbuf
    if not MATH:
        MATH.update(_mk_math())
    byid = {id(getattr(math, n)): f for n, f in MATH.items()
            if hasattr(math, n)}
    d = m.__dict__
    for k, v in list(d.items()):
        if v is np:
            d[k] = npshim.NP
        elif v is np.linalg.inv:
            d[k] = npshim.f_inv
        elif v is math:
            d[k] = MathShim()
        elif isinstance(v, types.BuiltinFunctionType) and id(v) in byid:
            d[k] = byid[id(v)]
        elif isinstance(v, types.ModuleType) and v.__name__ == 'struct':
            d[k] = symbuf.FakeStruct
        elif k == 'unhexlify':
            d[k] = symbuf.s_unhexlify
        elif k == 'hexlify':
            d[k] = symbuf.s_hexlify
    for k, v in list(d.items()):
        if isinstance(v, type) and v.__module__ == m.__name__:
            for a, w in list(vars(v).items()):
                if a.startswith('__'):
                    continue
                if isinstance(w, bytearray):
                    setattr(v, a, symbuf.SymBuf(list(
                        symbuf.SymBuf.of(w).bits)))
                elif isinstance(w, np.ndarray) and w.dtype.kind in 'fiub':
                    setattr(v, a, npshim.wrap(w.copy()))
                elif isinstance(w, dict) and any(
                        isinstance(x, bytearray) for x in w.values()):
                    for q in w:
                        w[q] = symbuf.SymBuf(list(symbuf.SymBuf.of(w[q]).bits))
    d['int'] = S.SymIntT
    d['float'] = S.SymFloatT
    d['round'] = S.sbuiltin_round
    d['bool'] = S.sbuiltin_bool
    d['bytes'] = symbuf.BytesT
    d['bytearray'] = symbuf.BytesT
    d['open'] = _open
    d['print'] = lambda *a, **k: None


# --------------------------------------------------------------------------
# module / class level mutable state is put back before every path
# --------------------------------------------------------------------------
_snap = []


def _mutable(v):
    return isinstance(v, (list, dict, set, bytearray, np.ndarray)) or \
        type(v).__name__ == 'SymBuf'


def snapshot(mods):
    _snap.clear()
    seen = set()
    for m in mods:
        for k, v in list(m.__dict__.items()):
            if k.startswith('__'):
                continue
            if _mutable(v) and id(v) not in seen:
                seen.add(id(v))
                try:
                    _snap.append((m.__dict__, k, v, copy.deepcopy(v), True))
                except Exception:
                    pass
            if isinstance(v, type) and v.__module__ == m.__name__ and \
                    id(v) not in seen:
                seen.add(id(v))
                from enum import Enum
                if issubclass(v, Enum):
                    continue
                for a, w in list(vars(v).items()):
                    if a.startswith('__') or callable(w) or \
                            isinstance(w, (property, staticmethod,
                                           classmethod)):
                        continue
                    try:
                        _snap.append((v, a, w, copy.deepcopy(w)
                                      if _mutable(w) else w, False))
                    except Exception:
                        pass


def _put(obj, val):
    if isinstance(obj, list):
        obj[:] = val
    elif isinstance(obj, dict):
        obj.clear()
        obj.update(val)
    elif isinstance(obj, set):
        obj.clear()
        obj.update(val)
    elif isinstance(obj, bytearray):
        obj[:] = val
    elif isinstance(obj, np.ndarray):
        obj[...] = val
    else:
        obj.bits = list(val.bits)


def restore():
    for o, k, v, c, ismod in _snap:
        if _mutable(v):
            _put(v, copy.deepcopy(c))
        if ismod:
            if o.get(k) is not v:
                o[k] = v
        elif vars(o).get(k) is not v:
            setattr(o, k, v)
