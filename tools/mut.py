"""Random small changes of the code a check is about (development aid).
mut.py OUT.jsonl N SEED C01 C02 ... : N changes per property, each in a scratch
copy; the check's quick command decides."""
import ast
import json
import os
import random
import shutil
import subprocess
import sys
import re

FUN = json.load(open(os.path.join(os.path.dirname(__file__), 'mutfun.json')))
W = '/tmp/mut_repo'
ONLY = os.environ.get('MUT_ONLY')
CMP = {ast.Lt: '<', ast.LtE: '<=', ast.Gt: '>', ast.GtE: '>=', ast.Eq: '==',
       ast.NotEq: '!='}
SWAP = {'<': '<=', '<=': '<', '>': '>=', '>=': '>', '==': '!=', '!=': '=='}


def sites(src, names):
    tree = ast.parse(src)
    lines = src.split('\n')
    out = []
    pat = [re.compile(n+'$') for n in names]
    for fn in ast.walk(tree):
        if not isinstance(fn, ast.FunctionDef) or not any(
                p.match(fn.name) for p in pat):
            continue
        skip = set()
        for n in ast.walk(fn):
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and \
                    n.func.id == 'print' or isinstance(n, ast.JoinedStr):
                for m in ast.walk(n):
                    skip.add(id(m))
            if isinstance(n, ast.If) and 'monlevel' in ast.dump(n.test):
                for m in ast.walk(n):
                    skip.add(id(m))
        for n in ast.walk(fn):
            if id(n) in skip or not hasattr(n, 'lineno'):
                continue
            if isinstance(n, (ast.Assign, ast.AugAssign)) or \
                    isinstance(n, ast.Expr) and isinstance(n.value, ast.Call):
                if n.lineno == n.end_lineno:
                    t = lines[n.lineno-1][n.col_offset:n.end_col_offset]
                    if not t.startswith('print'):
                        out.append((n.lineno, n.col_offset, n.end_col_offset,
                                    t, 'pass', fn.name))
            if isinstance(n, ast.If) and n.test.lineno == n.test.end_lineno:
                t = lines[n.lineno-1][n.test.col_offset:
                                      n.test.end_col_offset]
                for new in ('True', 'False'):
                    out.append((n.lineno, n.test.col_offset,
                                n.test.end_col_offset, t, new, fn.name))
            if isinstance(n, ast.Constant) and type(n.value) in (int, float) \
                    and n.lineno == n.end_lineno:
                t = lines[n.lineno-1][n.col_offset:n.end_col_offset]
                v = n.value
                new = repr(v+1) if isinstance(v, int) else repr(v*1.5+.5)
                out.append((n.lineno, n.col_offset, n.end_col_offset, t, new,
                            fn.name))
            elif isinstance(n, (ast.BinOp, ast.Compare)):
                a = n.left
                b = n.right if isinstance(n, ast.BinOp) else n.comparators[0]
                if a.end_lineno != b.lineno:
                    continue
                s, e = a.end_col_offset, b.col_offset
                t = lines[b.lineno-1][s:e]
                m = re.search(r'(<=|>=|==|!=|<<|>>|//|\*\*|[-+*/<>&|])', t)
                if not m:
                    continue
                o = m.group(1)
                new = {'+': '-', '-': '+', '*': '/', '<<': '>>', '//': '*',
                       '&': '|', '|': '&'}.get(o) or SWAP.get(o)
                if new:
                    out.append((b.lineno, s+m.start(), s+m.end(), o, new,
                                fn.name))
            elif isinstance(n, ast.Continue):
                out.append((n.lineno, n.col_offset, n.end_col_offset,
                            'continue', 'pass', fn.name))
            elif isinstance(n, ast.BoolOp) and n.values[0].end_lineno == \
                    n.values[1].lineno:
                s, e = n.values[0].end_col_offset, n.values[1].col_offset
                t = lines[n.values[1].lineno-1][s:e]
                m = re.search(r'\b(and|or)\b', t)
                if m:
                    out.append((n.values[1].lineno, s+m.start(), s+m.end(),
                                m.group(1), 'or' if m.group(1) == 'and'
                                else 'and', fn.name))
    return [o for o in out if o[3] != o[4]]


def main():
    out, n, seed = sys.argv[1], int(sys.argv[2]), int(sys.argv[3])
    rnd = random.Random(seed)
    for prop in sys.argv[4:]:
        al = []
        for f, names in FUN[prop].items():
            src = open(f'/repo/src/cssrlib/{f}', newline='').read().replace(
                '\r\n', '\n')
            al += [(f,)+s for s in sites(src, names)]
        if ONLY:    # deleted statements and conditions only
            al = [a for a in al if a[5] in ('pass', 'True', 'False')]
        for f, ln, a, b, old, new, fn in rnd.sample(al, min(n, len(al))):
            if os.path.exists(W):
                shutil.rmtree(W)
            shutil.copytree('/repo/src', W+'/src', ignore=lambda d, x: [
                y for y in x if y in ('data', 'test', '__pycache__')])
            p = f'{W}/src/cssrlib/{f}'
            L = open(p, newline='').read().replace('\r\n', '\n').split('\n')
            s = L[ln-1]
            assert s[a:b].strip() == old.strip(), (s, a, b, old)
            L[ln-1] = s[:a]+new+s[b:]
            open(p, 'w', newline='').write('\n'.join(L))
            env = dict(os.environ, VERIF_REPO=W, VERIF_TIER='quick',
                       VERIF_NOEVID='1', PYTHONDONTWRITEBYTECODE='1')
            try:
                r = subprocess.run(['python3-vt', '/verif/run.py', '--property',
                                    prop], capture_output=True, text=True,
                                   env=env, timeout=400)
                rc = r.returncode
                tail = [x for x in r.stdout.split('\n') if x][-2:]
            except subprocess.TimeoutExpired:
                rc, tail = 'timeout', []
            with open(out, 'a') as fh:
                fh.write(json.dumps(dict(prop=prop, file=f, fn=fn, line=ln,
                                         old=s.strip(), new=L[ln-1].strip(),
                                         rc=rc, tail=tail))+'\n')


main()
