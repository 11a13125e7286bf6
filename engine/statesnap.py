"""Snapshot/restore of module- and class-level mutable state of cssrlib for
the concrete replays."""
import copy
import sys
from enum import Enum

import numpy as np

_snap = []


def _mut(v):
    return isinstance(v, (list, dict, set, bytearray, np.ndarray))


def snapshot():
    for n, m in list(sys.modules.items()):
        if not n.startswith('cssrlib.'):
            continue
        for k, v in list(vars(m).items()):
            if k.startswith('__'):
                continue
            if _mut(v):
                try:
                    _snap.append((m, k, v, copy.deepcopy(v)))
                except Exception:
                    pass
            if isinstance(v, type) and v.__module__ == n and \
                    not issubclass(v, Enum):
                for a, w in list(vars(v).items()):
                    if a.startswith('__') or callable(w) or isinstance(
                            w, (property, staticmethod, classmethod)):
                        continue
                    try:
                        _snap.append((v, a, w, copy.deepcopy(w)))
                    except Exception:
                        pass


def restore():
    for o, k, v, c in _snap:
        if _mut(v):
            c = copy.deepcopy(c)
            if isinstance(v, (list, bytearray)):
                v[:] = c
            elif isinstance(v, np.ndarray):
                v[...] = c
            else:
                v.clear()
                v.update(c)
        if vars(o).get(k) is not v:
            setattr(o, k, v)
