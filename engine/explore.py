"""Path exploration: re-execution depth-first search with a decision trace."""
import math
import os
import random
import time
import traceback
from fractions import Fraction

import z3

from . import sym as S
from .sym import (Stop, Infeasible, Unsupported, OutOfBudget, SymNum, SymBool,
                  Registry)

BRANCH_MS = 4000
CHECK_MS = 30000


class Stats:
    def __init__(self):
        self.paths = 0
        self.decisions = 0
        self.queries = 0
        self.checks = 0
        self.obligations = 0
        self.discharged = 0
        self.undecided = []
        self.solver_s = 0.0
        self.infeasible = 0
        self.unknown_branches = 0
        self.notes = set()
        self.escapes = set()
        self.incomplete = None
        self.reached = {}


class PathState:
    def __init__(self, prefix, stats, opts):
        self.prefix = prefix
        self.trace = []
        self.stats = stats
        self.reg = Registry()
        self.solver = z3.Solver()
        self.solver.set('timeout', opts.get('branch_ms', BRANCH_MS))
        if opts.get('arith'):
            self.solver.set('arith.solver', opts['arith'])
        self.opts = opts
        self.cons = []
        self.rootdefs = set()
        self.dormant = {}
        self.scanned = set()
        self.keep = []
        self.model = None
        self.siblings = []
        self.inputs = {}        # name -> (kind, payload)
        self.pending = []       # (label, z3 bool)
        self.probed = False
        self.probes = []
        self.cands = []         # violation candidates
        self.nfresh = 0
        self.tokens = {}
        self.deadline = opts.get('deadline')
        self.nchecks = 0
        self.fork_count = 0

    # -- bookkeeping -------------------------------------------------------
    def fresh(self):
        self.nfresh += 1
        return self.nfresh

    def note(self, s):
        self.stats.notes.add(s)

    def escape(self, what):
        for fr in traceback.extract_stack()[::-1]:
            if '/engine/' not in fr.filename:
                what = f'{what} at {fr.filename.split("/")[-1]}:{fr.lineno}'
                break
        self.stats.escapes.add(what)

    # -- solver ------------------------------------------------------------
    def define(self, c, *atoms, root=False):
        """constraint that defines fresh atoms (it has a solution for every
        value of the other variables): left out until an atom is used in a
        constraint or query"""
        if root:
            self.rootdefs.add(c.get_id())
            self.keep.append(c)
        for a in atoms:
            self.dormant[a.z.get_id()] = (c, atoms)
            # the bounds of the atom were scanned before
            self.scanned.discard(a.z.get_id())

    def wake(self, *es):
        """activate the definitions of the atoms in the expressions"""
        if not self.dormant:
            return
        todo = [e for e in es if not isinstance(e, bool)]
        self.keep.extend(todo)
        scanned, dormant = self.scanned, self.dormant
        while todo:
            e = todo.pop()
            i = e.get_id()
            if i in scanned:
                continue
            scanned.add(i)
            ch = e.children()
            if ch:
                todo.extend(ch)
            elif i in dormant:
                c, atoms = dormant.pop(i)
                for a in atoms:
                    dormant.pop(a.z.get_id(), None)
                self.keep.append(c)
                self.add1(c)
                todo.append(c)
                if not dormant:
                    return

    def add(self, c):
        if isinstance(c, bool):
            if not c:
                raise Infeasible()
            return
        self.wake(c)
        self.add1(c)

    def add1(self, c):
        self.solver.add(c)
        self.cons.append(c)
        if self.model is not None:
            try:
                v = self.model.eval(c, model_completion=True)
                if not z3.is_true(v):
                    self.model = None
            except z3.Z3Exception:
                self.model = None

    def query(self, *extra, ms=None):
        self.wake(*extra)
        if self.deadline and time.time() > self.deadline:
            raise OutOfBudget('time budget')
        t = time.time()
        if ms:
            self.solver.set('timeout', ms)
        r = self.solver.check(*extra)
        if ms:
            self.solver.set('timeout', self.opts.get('branch_ms', BRANCH_MS))
        self.stats.queries += 1
        self.stats.solver_s += time.time()-t
        if r == z3.sat:
            return 'sat', self.solver.model()
        if r == z3.unsat:
            return 'unsat', None
        return 'unknown', None

    def feasible(self, z):
        """'sat'/'unsat'/'unknown' of path + z, using the cached model"""
        self.wake(z)
        if self.model is not None:
            v = self.model.eval(z, model_completion=True)
            if z3.is_true(v):
                return 'sat'
        r, m = self.query(z)
        if r == 'sat':
            self._m2 = m
        return r

    def fork(self, z):
        z = z3.simplify(z)
        if z3.is_true(z):
            return True
        if z3.is_false(z):
            return False
        i = len(self.trace)
        if i < len(self.prefix):
            d = self.prefix[i]
            if d[0] != 'b':
                raise Unsupported('non-deterministic re-execution')
            taken = d[1]
            self.trace.append(d)
            self.add(z if taken else z3.Not(z))
            return taken
        self.stats.decisions += 1
        self.fork_count += 1
        if self.fork_count > self.opts.get('max_forks', 4000):
            raise OutOfBudget('fork budget')
        nz = z3.Not(z)
        self._m2 = None
        rt = self.feasible(z)
        mt = self._m2
        self._m2 = None
        if rt == 'unsat':
            # the path itself is assumed feasible
            self.trace.append(('b', False))
            self.add(nz)
            return False
        rf = self.feasible(nz)
        mf = self._m2
        if 'unknown' in (rt, rf):
            self.stats.unknown_branches += 1
        if rf == 'unsat':
            self.trace.append(('b', True))
            self.add(z)
            if mt is not None:
                self.model = mt
            return True
        self.siblings.append(self.trace+[('b', False)])
        self.trace.append(('b', True))
        self.add(z)
        if self.model is None and mt is not None:
            self.model = mt
        return True

    def concretize(self, s):
        n = 0
        self.wake(s.z if isinstance(s, SymBool) else s.z())
        while True:
            i = len(self.trace)
            if i < len(self.prefix):
                d = self.prefix[i]
                if d[0] != 'c':
                    raise Unsupported('non-deterministic re-execution')
                v, taken = d[1], d[2]
                self.trace.append(d)
                e = s == v
                ez = e.z if isinstance(e, SymBool) else z3.BoolVal(e)
                self.add(ez if taken else z3.Not(ez))
                if taken:
                    return v
                continue
            n += 1
            self.stats.decisions += 1
            if n > self.opts.get('max_values', 300):
                raise OutOfBudget('concretisation of a wide value')
            if self.model is None:
                r, m = self.query()
                if r == 'unsat':
                    raise Infeasible()
                if r == 'unknown':
                    raise Unsupported('solver unknown in concretisation')
                self.model = m
            v = self.value(self.model, s)
            e = s == v
            ez = e.z if isinstance(e, SymBool) else z3.BoolVal(e)
            self._m2 = None
            r = self.query(z3.Not(ez))[0]
            if r != 'unsat':
                self.siblings.append(self.trace+[('c', v, False)])
            self.trace.append(('c', v, True))
            self.add(ez)
            return v

    def pick(self, s):
        i = len(self.trace)
        if i < len(self.prefix):
            v = self.prefix[i][1]
        else:
            self.wake(s.z if isinstance(s, SymBool) else s.z())
            if self.model is None:
                r, m = self.query()
                if r != 'sat':
                    raise Unsupported('no model to pick from')
                self.model = m
            v = self.value(self.model, s)
        self.trace.append(('p', v))
        e = s == v
        self.add(e.z if isinstance(e, SymBool) else e)
        return v

    def value(self, model, s):
        if isinstance(s, SymBool):
            return z3.is_true(model.eval(s.z, model_completion=True))
        if not isinstance(s, SymNum):
            return s
        tot = Fraction(0)
        reg = self.reg.atoms
        cache = {}
        for m, c in s.t.items():
            p = Fraction(c)
            for i in m:
                if i not in cache:
                    cache[i] = zval(model, reg[i])
                p *= cache[i]
            tot += p
        return int(tot) if tot.denominator == 1 else tot

    # -- harness services --------------------------------------------------
    def assume(self, c):
        self.flush()
        if isinstance(c, SymBool):
            self.add(c.z)
            if self.model is None:
                r, m = self.query()
                if r == 'unsat':
                    raise Infeasible()
                self.model = m
        elif not c:
            raise Infeasible()

    def check(self, label, c):
        self.stats.checks += 1
        self.nchecks += 1
        if isinstance(c, SymBool):
            z = c.z
        else:
            z = z3.BoolVal(bool(c))
        self.pending.append((label, z))

    def flush(self):
        pend, self.pending = self.pending, []
        self.stats.obligations += len(pend)
        ms = self.opts.get('check_ms', CHECK_MS)
        # each distinct condition is one obligation; discharge them together
        while pend:
            neg = [z3.Not(z) for _, z in pend]
            r, m = self.query(z3.Or(*neg) if len(neg) > 1 else neg[0],
                              ms=min(ms, 6000) if len(pend) > 1 else ms)
            if r == 'unsat':
                self.stats.discharged += len(pend)
                return
            if r == 'sat':
                bad = [i for i, (_, z) in enumerate(pend)
                       if z3.is_false(m.eval(z, model_completion=True))]
                if not bad:
                    bad = [0]
                lab = pend[bad[0]][0]
                self.cands.append((lab, self.extract(m)))
                labs = {pend[i][0] for i in bad}
                pend = [p for i, p in enumerate(pend) if p[0] not in labs]
                continue
            # unknown: one at a time
            pend = [p for p in pend if not self.weak(p)]
            if not pend:
                return
            self.probe()
            if len(pend) > 1:
                rest = []
                for p in pend:
                    r, m = self.query(z3.Not(p[1]), ms=ms)
                    if r == 'unsat':
                        self.stats.discharged += 1
                    elif r == 'sat':
                        self.cands.append((p[0], self.extract(m)))
                    else:
                        rest.append(p)
                pend = rest
                for p in pend:
                    self.second(p)
                return
            self.second(pend[0])
            return

    def probe(self):
        """inputs of this path, most of them fixed at arbitrary values in
        their ranges: replayed on the real code when an obligation of the
        path stays undecided"""
        if self.probed:
            return
        self.probed = True
        rnd = random.Random(f'{os.environ.get("VERIF_SEED", "1")}'
                            f'{self.stats.paths}')
        t = time.time()
        s = z3.Solver()
        s.set('timeout', 2500)
        s.add(*self.cons)
        for _ in range(self.opts.get('probes', 3)):
            eqs = []
            for name, (kind, p) in self.inputs.items():
                if kind == 'bits':
                    eqs += [p_.zb if rnd.random() < 0.5 else z3.Not(p_.zb)
                            for p_ in p if p_ is not None]
                elif kind in ('int', 'real') and p.lo is not None \
                        and p.hi is not None:
                    if kind == 'int':
                        v = rnd.randint(math.ceil(p.lo), math.floor(p.hi))
                    else:
                        w = Fraction(rnd.randint(0, 10**6), 10**6)
                        v = Fraction(p.lo)+w*(Fraction(p.hi)-Fraction(p.lo))
                        if rnd.random() < 0.3:
                            v = v/10**rnd.randint(1, 6)
                            v = min(max(v, Fraction(p.lo)), Fraction(p.hi))
                        v = Fraction(round(v*2**20), 2**20) \
                            if abs(v) > 1 else v
                    eqs.append(p.z == v)
            todo, got, n = [eqs], None, 0
            keep = []
            while todo and n < 12:
                c = todo.pop()
                n += 1
                r = s.check(*(keep+c))
                if r == z3.sat:
                    keep += c
                    got = s.model()
                elif len(c) > 1:
                    rnd.shuffle(c)
                    todo += [c[len(c)//2:], c[:len(c)//2]]
            if got is not None:
                self.probes.append(self.extract(got))
        self.stats.solver_s += time.time()-t

    def weak(self, p):
        """discharge an obligation without the equations s^2 = x of the
        square roots (fewer constraints: unsatisfiable is conclusive)"""
        if not self.rootdefs:
            return False
        t = time.time()
        self.wake(p[1])
        s = z3.Solver()
        s.set('timeout', 1000)
        s.add(*[c for c in self.cons if c.get_id() not in self.rootdefs])
        r = s.check(z3.Not(p[1]))
        self.stats.queries += 1
        self.stats.solver_s += time.time()-t
        if r == z3.unsat:
            self.stats.discharged += 1
            return True
        return False

    def second(self, p):
        """second opinion for an unknown obligation: fresh nlsat / cvc5"""
        label, z = p
        t = time.time()
        ms = self.opts.get('second_ms', 20000)
        try:
            for tac in ('qfnra-nlsat', 'smt'):
                s = z3.TryFor(z3.Then('simplify', 'purify-arith',
                                      'solve-eqs', tac), ms).solver() \
                    if tac != 'smt' else z3.SolverFor('ALL')
                if tac == 'smt':
                    s.set('timeout', ms)
                self.wake(z)
                s.add(*self.cons)
                s.add(z3.Not(z))
                try:
                    r = s.check()
                except z3.Z3Exception:
                    continue
                self.stats.queries += 1
                if r == z3.unsat:
                    self.stats.discharged += 1
                    return
                if r == z3.sat:
                    self.cands.append((label, self.extract(s.model())))
                    return
        finally:
            self.stats.solver_s += time.time()-t
        self.stats.undecided.append(f'{label}: solver unknown')

    def extract(self, m):
        out = {}
        for name, (kind, p) in self.inputs.items():
            if kind == 'bits':
                v = 0
                for i, a in enumerate(p):
                    if a is not None and z3.is_true(
                            m.eval(a.zb, model_completion=True)):
                        v |= 1 << i
                out[name] = v
            elif kind == 'int':
                v = m.eval(p.z, model_completion=True)
                out[name] = v.as_long()
            elif kind == 'real':
                v = zval(m, p)
                out[name] = f'{v.numerator}/{v.denominator}'
            else:
                out[name] = p
        return out

    # -- number formatting tokens -----------------------------------------
    def token(self, s, spec, exact=False):
        import re
        m = re.match(r'([<>^+ -]?)(0?)(\d*)(\.\d+)?([dfeEgGxXsF]?)$', spec)
        if not m:
            raise Unsupported('format '+spec)
        w = int(m.group(3)) if m.group(3) else 0
        ty = m.group(5)
        dec = int(m.group(4)[1:]) if m.group(4) else (
            6 if ty and ty in 'feEgG' else None)
        if isinstance(s, SymBool):
            s = s.num()
        val = s
        if ty == 'd' and not s.isint:
            raise ValueError("Unknown format code 'd' for object of type "
                             "'float'")
        if ty and ty in 'xX':
            v = s.concretize()
            return format(int(v), spec)
        if ty and ty in 'fFeE' and (exact or s.integral()):
            val = s      # an integer has a finite decimal expansion
        elif ty and ty in 'fF' or (ty and ty in 'eE'):
            a = self.reg.new('real', f'fmt{self.fresh()}')
            v = SymNum({(a.id,): 1}, False)
            d = v-s
            if ty in 'fF':
                h = Fraction(1, 2*10**dec)
                lo, hi = s.rng()
                if lo is not None:
                    a.lo = lo-h
                if hi is not None:
                    a.hi = hi+h
                self.add(sz(d <= h))
                self.add(sz(d >= -h))
            else:
                sr = s.z(real=True)
                h = z3.If(sr >= 0, sr, -sr)*z3.RealVal(Fraction(1, 2*10**dec))
                dz = d.z(real=True)
                self.add(dz <= h)
                self.add(dz >= -h)
            val = v
        elif ty == '' or ty == 's' or ty == 'd':
            val = s
        else:
            raise Unsupported('format '+spec)
        k = len(self.tokens)
        ch = chr(0xE000+k)
        self.tokens[ch] = (val, max(w, 1))
        n = max(w, 1)
        return ch*n

    def untoken(self, text):
        t = text.strip()
        if not t or not (0xE000 <= ord(t[0]) < 0xF8FF):
            for c in t:
                if 0xE000 <= ord(c) < 0xF8FF:
                    raise ValueError('could not convert string to float: '
                                     'partial field')
            return None
        val, w = self.tokens[t[0]]
        if t != t[0]*w:
            raise ValueError('could not convert string to float: partial '
                             'field')
        return val


def sz(c):
    return c.z if isinstance(c, SymBool) else z3.BoolVal(bool(c))


def zval(m, a):
    """Fraction value of an atom in a model"""
    if a.kind == 'bit':
        return Fraction(1 if z3.is_true(m.eval(a.zb, model_completion=True))
                        else 0)
    v = m.eval(a.z, model_completion=True)
    if z3.is_int_value(v):
        return Fraction(v.as_long())
    if z3.is_rational_value(v):
        return Fraction(v.numerator_as_long(), v.denominator_as_long())
    if z3.is_algebraic_value(v):
        v = v.approx(30)
        return Fraction(v.numerator_as_long(), v.denominator_as_long())
    return Fraction(0)


def explore(fn, opts, restore, exc_label):
    """Run fn(state) over all paths.  Returns (stats, candidates, witnesses).
    candidates: [(label, inputs, info)]"""
    st = Stats()
    work = [[]]
    cands = []
    wits = []
    t0 = time.time()
    opts = dict(opts)
    opts['deadline'] = t0+opts.get('budget', 60)
    maxp = opts.get('max_paths', 4000)
    maxw = opts.get('witnesses', 3)
    seen_lab = {}
    probes = []
    while work:
        if st.paths >= maxp:
            st.incomplete = f'path budget {maxp}'
            break
        if time.time() > opts['deadline']:
            st.incomplete = 'time budget'
            break
        prefix = work.pop()
        restore()
        ps = PathState(prefix, st, opts)
        S.EX = ps
        ok = False
        try:
            try:
                fn(ps)
            except Stop:
                raise
            except RecursionError as e:
                st.undecided.append('recursion: '+str(e))
            except Exception as e:     # raised by the code under test
                ps.flush()
                lab = exc_label(e)
                r, m = ps.query(ms=CHECK_MS)
                st.obligations += 1
                if r == 'sat':
                    ps.cands.append((lab, ps.extract(m)))
                elif r == 'unknown':
                    st.undecided.append(lab+': path feasibility unknown')
                else:
                    st.discharged += 1
                    raise Infeasible()
            else:
                ps.flush()
                ok = True
            st.paths += 1
            if ok and len(wits) < maxw or (ok and maxw and
                                           st.paths % 97 == 0
                                           and len(wits) < 3*maxw):
                m = ps.model
                if m is None:
                    r, m = ps.query()
                if m is not None:
                    wits.append(ps.extract(m))
        except Infeasible:
            st.infeasible += 1
        except OutOfBudget as e:
            st.incomplete = str(e)
            try:
                ps.probe()
            except Exception:
                pass
        except Unsupported as e:
            tb = traceback.extract_tb(e.__traceback__)
            loc = ''
            for fr in tb[::-1]:
                if '/engine/' not in fr.filename:
                    loc = f' at {fr.filename.split("/")[-1]}:{fr.lineno}'
                    break
            st.undecided.append('unsupported: '+str(e)+loc)
            st.paths += 1
            try:
                ps.probe()
            except Exception:
                pass
        finally:
            S.EX = None
        for lab, inp in ps.cands:
            n = seen_lab.get(lab, 0)
            if n < opts.get('per_label', 2):
                seen_lab[lab] = n+1
                cands.append((lab, inp))
        if len(probes) < 12:
            probes += ps.probes
        work.extend(ps.siblings)
        if len(cands) >= opts.get('max_cands', 12):
            st.incomplete = 'candidate budget'
            break
        if len(st.undecided) > 40:
            st.incomplete = 'too many undecided paths'
            break
    restore()
    st.wall = time.time()-t0
    return st, cands, wits+probes
