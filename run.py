#!/usr/bin/env python3-vt
"""Driver.  run.py --property C01 [--tier quick|thorough] [--harness h]
                  [--case i] [--replay file]"""
import argparse
import contextlib
import hashlib
import importlib
import io
import json
import multiprocessing as mp
import os
import subprocess
import sys
import time
import traceback
import warnings

sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
os.environ.setdefault('MPLBACKEND', 'Agg')
for _k in ('OPENBLAS_NUM_THREADS', 'OMP_NUM_THREADS', 'MKL_NUM_THREADS'):
    os.environ[_k] = '1'
PY = '/opt/venv/bin/python'
EXTRA = 90        # s kept back for replays


_seen_code = {}


def _monitor_on():
    m = sys.monitoring
    m.use_tool_id(3, 'verif')

    def start(code, off):
        if '/cssrlib/' in code.co_filename:
            _seen_code[(os.path.basename(code.co_filename),
                        code.co_qualname)] = 1
        return m.DISABLE
    m.register_callback(3, m.events.PY_START, start)
    m.set_events(3, m.events.PY_START)


def run_case(job):
    check, hname, case, opts = job
    from engine import api, explore, patch
    warnings.simplefilter('ignore')
    try:
        h = api.HARNESSES[hname]
        _seen_code.clear()
        sys.monitoring.restart_events()

        def fn(ps):
            ctx = api.SymCtx(ps, case)
            try:
                h['fn'](ctx, case)
            finally:
                ctx.end()
        with contextlib.redirect_stdout(io.StringIO()):
            st, cands, wits = explore.explore(fn, opts, patch.restore,
                                              api.exc_label)
        return dict(harness=hname, case=case, paths=st.paths,
                    decisions=st.decisions, queries=st.queries,
                    obligations=st.obligations, discharged=st.discharged,
                    undecided=st.undecided, solver_s=st.solver_s,
                    infeasible=st.infeasible, notes=sorted(st.notes),
                    escapes=sorted(st.escapes), incomplete=st.incomplete,
                    unknown_branches=st.unknown_branches,
                    reached=st.reached, wall=st.wall, cands=cands, wits=wits,
                    funcs=sorted(_seen_code), error=None)
    except BaseException as e:
        return dict(harness=hname, case=case, error=''.join(
            traceback.format_exception(e))[-1500:])


def concrete(check, jobs):
    """run jobs [(harness, case, inputs)] on the real code"""
    if not jobs:
        return []
    res = [None]*len(jobs)
    n = min(8, max(1, len(jobs)//20+1))
    chunks = [list(range(i, len(jobs), n)) for i in range(n)]
    procs = []
    env = dict(os.environ)
    for ch in chunks:
        p = subprocess.Popen([PY, os.path.join(HERE, 'engine/concrete.py')],
                             stdin=subprocess.PIPE, stdout=subprocess.PIPE,
                             stderr=subprocess.PIPE, env=env, text=True)
        procs.append((ch, p))
    import threading
    outs = {}

    def go(i, ch, p):
        try:
            outs[i] = p.communicate(json.dumps(
                dict(check=check, jobs=[jobs[k] for k in ch])), timeout=240)
        except subprocess.TimeoutExpired:
            p.kill()
            outs[i] = ('', 'timeout')
    ths = [threading.Thread(target=go, args=(i, ch, p))
           for i, (ch, p) in enumerate(procs)]
    [t.start() for t in ths]
    [t.join() for t in ths]
    for i, (ch, p) in enumerate(procs):
        so, se = outs[i]
        try:
            r = json.loads(so.strip().splitlines()[-1])
        except (IndexError, ValueError):
            r = [dict(skipped=True, exception=None, failures=[], nchecks=0,
                      infra=(se or '')[-400:])]*len(ch)
        for k, x in zip(ch, r):
            res[k] = x
    return res


def known_findings(prop):
    out = []
    fn = os.path.join(HERE, 'known_findings.jsonl')
    if os.path.exists(fn):
        for ln in open(fn):
            ln = ln.strip()
            if not ln or ln.startswith('#') or ln.startswith('fixed:'):
                continue
            d = json.loads(ln)
            if d.get('status') == 'known' and d['property'] == prop:
                out.append(d)
    return out


def is_known(known, harness, case, label):
    for k in known:
        if k['harness'] == harness and k['label'] == label and \
                ('case' not in k or k['case'] == case):
            return k
    return None


def kill_tree():
    pass


def replay_file(path):
    d = json.load(open(path))
    r = concrete(d['check'], [(d['harness'], d['case'], d['inputs'])])[0]
    labs = [x[0] for x in r['failures']]
    if r['exception']:
        labs.append(r['exception'])
    print(json.dumps(r, indent=1))
    if labs:
        print(f"VIOLATION property={d['property']} replay={path}")
        return 1
    return 0


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('--property')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--harness')
    ap.add_argument('--case', type=int)
    ap.add_argument('--replay')
    ap.add_argument('--jobs', type=int, default=min(8, os.cpu_count() or 8))
    ap.add_argument('-v', action='store_true')
    ap.add_argument('--selftest', action='store_true')
    a = ap.parse_args()
    if a.replay:
        sys.exit(replay_file(a.replay))
    if a.selftest:
        sys.exit(selftest())
    t0 = time.time()
    prop = a.property
    check = prop.lower()
    tier = a.tier if a.tier in ('quick', 'thorough') else 'quick'
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    _monitor_on()
    from engine import patch, api
    warnings.simplefilter('ignore')
    with contextlib.redirect_stdout(io.StringIO()):
        patch.install()
        api.TARGET = 'checks.'+check
        mod = importlib.import_module('checks.'+check)
    import z3
    z3.set_param('smt.random_seed', seed)
    wall = getattr(mod, 'WALL', 420 if tier == 'quick' else 800)
    if tier == 'thorough':
        wall = getattr(mod, 'WALL_THOROUGH', 800)
    jobs = []
    only = getattr(mod, 'HARNESS_FILTER', None)
    for hname, h in api.HARNESSES.items():
        if a.harness and hname != a.harness:
            continue
        cases = h['cases']
        if callable(cases):
            cases = cases()
        cases = list(cases)
        if tier == 'thorough' and h['thorough']:
            t = h['thorough']
            cases = cases + [c for c in (t(tier) if callable(t) else t)
                             if c not in cases]
        for i, c in enumerate(cases):
            if a.case is not None and i != a.case:
                continue
            o = dict(h['opts'])
            if tier == 'thorough':
                o['budget'] = 4*o.get('budget', 60)
                o['max_paths'] = 4*o.get('max_paths', 4000)
                o['witnesses'] = 2*o.get('witnesses', 3)
            jobs.append((check, hname, c, o))
    # long cases first
    jobs.sort(key=lambda j: -j[3].get('weight', 1))
    results = []
    ctxm = mp.get_context('fork')
    pool = ctxm.Pool(a.jobs)
    it = [pool.apply_async(run_case, (j,)) for j in jobs]
    for j, r in zip(jobs, it):
        left = max(1, wall-EXTRA-(time.time()-t0))
        try:
            results.append(r.get(timeout=left))
        except mp.TimeoutError:
            results.append(dict(harness=j[1], case=j[2],
                                error='wall-clock budget of the check'))
    pool.terminate()
    # replays
    rj, meta = [], []
    known = known_findings(prop)
    for r in results:
        if r.get('error'):
            continue
        for lab, inp in r['cands']:
            rj.append((r['harness'], r['case'], inp))
            meta.append(('cand', r, lab))
        for w in r['wits']:
            rj.append((r['harness'], r['case'], w))
            meta.append(('wit', r, None))
    reps = concrete(check, rj)
    os.makedirs(os.path.join(HERE, 'replays'), exist_ok=True)
    viol, kf, spurious, validated, infra = {}, {}, [], 0, []
    for (kind, r, lab), job, rep in zip(meta, rj, reps):
        if rep.get('infra'):
            infra.append(rep['infra'])
            continue
        labs = [x[0] for x in rep['failures']]
        det = {x[0]: x[1] for x in rep['failures']}
        if rep['exception']:
            labs.append(rep['exception'])
            det[rep['exception']] = rep.get('detail')
        if rep['skipped'] and not labs:
            if kind == 'cand':
                spurious.append((r['harness'], r['case'], lab, 'assumption '
                                 'not met in the replay'))
            continue
        if kind == 'wit' and not labs:
            validated += 1
            continue
        if kind == 'cand' and not labs:
            spurious.append((r['harness'], r['case'], lab,
                             'does not reproduce') + (
                                 (job[2],) if a.v else ()))
            continue
        for lb in labs:
            k = is_known(known, r['harness'], r['case'], lb)
            if k:
                kf[(k['harness'], k['label'], json.dumps(k.get('case')))] = k
                continue
            key = (r['harness'], json.dumps(r['case']), lb)
            if key in viol:
                continue
            hsh = hashlib.sha1('|'.join(map(str, key)).encode()
                               ).hexdigest()[:8]
            fn = os.path.join(HERE, 'replays',
                              f'{prop}_{r["harness"]}_{hsh}.json')
            json.dump(dict(property=prop, check=check, harness=r['harness'],
                           case=r['case'], inputs=job[2], label=lb,
                           detail=det.get(lb), found_by='solver model'
                           if kind == 'cand' else
                           'replayed solver witness'),
                      open(fn, 'w'), indent=1)
            viol[key] = (fn, det.get(lb))
    errs = [(r['harness'], r['case'], r['error']) for r in results
            if r.get('error')]
    good = [r for r in results if not r.get('error')]
    und = [f"{r['harness']}{r['case']}: {u}" for r in good
           for u in r['undecided']]
    inc = [f"{r['harness']}{r['case']}: {r['incomplete']}" for r in good
           if r['incomplete']]
    vac = [f"{r['harness']}{r['case']}" for r in good
           if r['obligations'] == 0]
    funcs = sorted({f'{f[0]}:{f[1]}' for r in good for f in r['funcs']
                    if '<' not in f[1]})
    tot = {k: sum(r[k] for r in good) for k in
           ('paths', 'decisions', 'queries', 'obligations', 'discharged',
            'infeasible', 'unknown_branches')}
    samples = []
    for (kind, r, lab), job, rep in list(zip(meta, rj, reps))[:400]:
        if kind == 'wit' and len(samples) < 6 and \
                r['harness'] not in [s['harness'] for s in samples]:
            samples.append(dict(harness=r['harness'], case=r['case'],
                                inputs=trim(job[2]), checks=rep['nchecks']))
    ev = dict(
        property=prop, tier=tier, seed=seed, level='model_checking',
        coverage=dict(
            states=tot['paths'], transitions=tot['decisions'],
            traces_validated_against_impl=validated, samples=samples,
            obligations=tot['obligations'], discharged=tot['discharged'],
            solver_queries=tot['queries'],
            solver_s=round(sum(r['solver_s'] for r in good), 2),
            solver='z3 '+z3.get_version_string(),
            infeasible_paths=tot['infeasible'],
            unknown_branch_queries=tot['unknown_branches'],
            functions_encoded=funcs,
            harnesses=[dict(name=n, what=h['doc'], cases=len(
                [1 for r in results if r['harness'] == n]), paths=sum(
                r['paths'] for r in good if r['harness'] == n),
                obligations=sum(r['obligations'] for r in good
                                if r['harness'] == n),
                wall_s=round(sum(r['wall'] for r in good
                                 if r['harness'] == n), 2))
                for n, h in api.HARNESSES.items()
                if not a.harness or n == a.harness],
            bounds=getattr(mod, 'BOUNDS', []),
            undecided=und[:50], incomplete=inc[:50],
            vacuous=vac[:50],
            concretised=sorted({e for r in good for e in r['escapes']}),
            abstractions=sorted({e for r in good for e in r['notes']}),
            not_reproduced=[list(map(str, s)) for s in spurious[:30]],
            errors=[list(map(str, e)) for e in errs[:20]],
            known_findings=len(kf),
            exhaustive=not (und or inc or errs)),
        assumptions=getattr(mod, 'ASSUMPTIONS', []) + COMMON,
        wall_s=round(time.time()-t0, 2), violations=len(viol))
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    if not a.harness and not os.environ.get('VERIF_NOEVID'):
        json.dump(ev, open(os.path.join(HERE, 'evidence',
                                        prop+'.json'), 'w'), indent=1)
    print(f"{prop} {tier}: harness cases {len(results)}, paths "
          f"{tot['paths']}, branch decisions {tot['decisions']}, obligations "
          f"{tot['discharged']}/{tot['obligations']} discharged, queries "
          f"{tot['queries']}, solver {ev['coverage']['solver_s']} s, "
          f"witnesses validated {validated}, wall {ev['wall_s']} s")
    for x in (und[:10]):
        print('UNDECIDED', x)
    for x in (inc[:10]):
        print('INCOMPLETE', x)
    for x in vac[:10]:
        print('VACUOUS', x)
    for x in spurious[:10]:
        print('NOT-REPRODUCED', *x)
    for x in infra[:3]:
        print('REPLAY-ERROR', x)
    for e in errs[:6]:
        print('CASE-ERROR', e[0], e[1], e[2])
    if a.v:
        for r in sorted(good, key=lambda r: -r['wall'])[:25]:
            print(f"  {r['harness']} {r['case']} paths {r['paths']} inf "
                  f"{r['infeasible']} obl {r['obligations']} q "
                  f"{r['queries']} solver {r['solver_s']:.1f} wall "
                  f"{r['wall']:.1f} wits {len(r['wits'])}")
        for e in ev['coverage']['concretised']:
            print('  concretised:', e)
        for f in funcs:
            print('  fn', f)
    for k in kf.values():
        print(f"KNOWN-FINDING: property={prop} {k['what']}")
    for (h, c, lb), (fn, det) in list(viol.items())[:12]:
        print(f'  {h} {c} {lb}: {det}')
        print(f'VIOLATION property={prop} replay={fn}')
    if not good:
        sys.exit(2)
    sys.exit(1 if viol else 0)


def selftest():
    """setup: the solver, the engine and the code under test load"""
    import z3
    from engine import patch
    with contextlib.redirect_stdout(io.StringIO()):
        patch.install()
    s = z3.Solver()
    x = z3.Int('x')
    s.add(x > 3, x < 5)
    assert s.check() == z3.sat
    r = concrete('c01', [])
    print('engine ok, z3', z3.get_version_string(), 'modules',
          len(patch._done['mods']), 'failed', patch._done.get('failed'))
    return 0


def trim(d):
    return {k: d[k] for k in list(d)[:40]}


COMMON = [
    'float64 arithmetic of the code is read as exact real arithmetic (float '
    'literals with <=15 digits as decimals, others as the exact binary '
    'value); conclusions are within the stated tolerances, and every '
    'counterexample and sampled witness is replayed in float64 on the '
    'unpatched code',
    'numpy, math, struct and bitstruct are replaced by semantically '
    'equivalent symbolic stand-ins; numba njit is the identity',
]

if __name__ == '__main__':
    main()
