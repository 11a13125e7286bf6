"""Replay solver-provided inputs on the real, unpatched code.

stdin: JSON {"check": "c01", "jobs": [[harness, case, inputs], ...]}
stdout (last line): JSON list of results
"""
import contextlib
import importlib
import io
import json
import os
import sys
import warnings

os.environ.setdefault('NUMBA_DISABLE_JIT', '1')
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
sys.path.insert(0, os.environ.get('VERIF_REPO', '/repo')+'/src')


def main():
    req = json.load(sys.stdin)
    warnings.simplefilter('ignore')
    import numpy as np
    np.seterr(all='ignore')
    from engine import api, statesnap
    out = []
    with contextlib.redirect_stdout(io.StringIO()):
        api.TARGET = 'checks.'+req['check']
        importlib.import_module('checks.'+req['check'])
        statesnap.snapshot()
        for h, case, inp in req['jobs']:
            statesnap.restore()
            ctx = api.ConcCtx(inp, case)
            res = {'skipped': False, 'exception': None}
            try:
                api.HARNESSES[h]['fn'](ctx, case)
            except api.Skip:
                res['skipped'] = True
            except Exception as e:
                res['exception'] = api.exc_label(e)
                res['detail'] = repr(e)[:300]
            finally:
                ctx.end()
            res['failures'] = ctx.failures
            res['nchecks'] = ctx.nchecks
            out.append(res)
    print(json.dumps(out))


main()
