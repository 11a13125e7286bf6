"""Create and validate a planted change.
seed(id, prop, needs, breaks, [(file, old, new)], demo_py)"""
import json
import os
import re
import shutil
import subprocess
import sys
import time

CHECK = True
HEAD = '''import os, sys
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.join(os.getcwd(), 'src'))
os.environ.setdefault('MPLBACKEND', 'Agg')
'''


def seed(sid, prop, needs, breaks, edits, demo, tests=True):
    d = f'/verif/seeded/{sid}'
    os.makedirs(d, exist_ok=True)
    w = f'/tmp/seed_{sid}'
    if os.path.exists(w):
        shutil.rmtree(w)
    subprocess.check_call(['cp', '-a', '/repo', w])
    for fn, a, b in edits:
        p = f'{w}/src/cssrlib/{fn}'
        s = open(p, newline='').read()
        if '\r\n' in s:
            a, b = a.replace('\n', '\r\n'), b.replace('\n', '\r\n')
        assert s.count(a) == 1, (sid, fn, s.count(a))
        open(p, 'w', newline='').write(s.replace(a, b))
    df = subprocess.check_output(['git', '-C', w, 'diff'])
    # changed lines have to be lines of the original repository
    u0 = subprocess.check_output(['git', '-C', w, 'diff', '-U0'], text=True,
                                 errors='replace')
    fn = None
    for x in u0.split('\n'):
        if x.startswith('--- a/'):
            fn = x[6:].strip()
        m = re.match(r'@@ -(\d+)(?:,(\d+))? ', x)
        if m and m.group(2) != '0':
            n0, n = int(m.group(1)), int(m.group(2) or 1)
            bl = subprocess.check_output(
                ['git', '-C', '/repo', 'blame', '-s', '-L',
                 f'{n0},{n0+n-1}', 'HEAD', '--', fn], text=True,
                errors='replace')
            if not all(y.startswith('^') for y in bl.strip().split('\n')):
                print(sid, 'WARNING: touches a line that is not original')
    open(d+'/patch.diff', 'wb').write(df)
    open(d+'/demo.py', 'w').write(HEAD+demo)
    open(d+'/demo.sh', 'w').write(
        '#!/bin/bash\nexec /opt/venv/bin/python "$(dirname "$0")/demo.py"\n')
    os.chmod(d+'/demo.sh', 0o755)
    json.dump(dict(property=prop, needs=needs, what_it_breaks=breaks),
              open(d+'/meta.json', 'w'), indent=1)
    r0 = subprocess.run(['bash', d+'/demo.sh'], cwd='/repo',
                        capture_output=True, text=True)
    r1 = subprocess.run(['bash', d+'/demo.sh'], cwd=w, capture_output=True,
                        text=True)
    ok = r0.returncode == 0 and r1.returncode != 0
    print(sid, prop, 'demo', r0.returncode, r1.returncode,
          '' if ok else r0.stderr[-500:])
    print('   ', (r1.stdout+r1.stderr).strip().split('\n')[-1][:150])
    if ok and CHECK:
        env = dict(os.environ, VERIF_REPO=w, VERIF_TIER='quick',
                   VERIF_NOEVID='1')
        r = subprocess.run(['python3-vt', '/verif/run.py', '--property',
                            prop], capture_output=True, text=True, env=env)
        v = [x for x in r.stdout.split('\n') if 'VIOLATION' in x][:1]
        print('    check exit', r.returncode, v)
    shutil.rmtree(w)
    return ok


def tests(sid):
    """stable tests and the property's check with the change applied"""
    d = f'/verif/seeded/{sid}'
    prop = json.load(open(d+'/meta.json'))['property']
    subprocess.check_call(['git', '-C', '/repo', 'apply', d+'/patch.diff'])
    try:
        subprocess.run(['bash', '/opt/vp/test.sh', '/tmp/seed_o.json'],
                       capture_output=True)
        base = json.load(open('/opt/vp/BASELINE.json'))
        o = json.load(open('/tmp/seed_o.json'))
        n = len(o['passed'])
        r = subprocess.run(['python3-vt', '/verif/run.py', '--property',
                            prop], capture_output=True, text=True)
        v = [x for x in r.stdout.split('\n') if 'VIOLATION' in x][:2]
        print(sid, prop, 'tests', n, 'check exit', r.returncode, v)
    finally:
        subprocess.check_call(['git', '-C', '/repo', 'checkout', '--', '.'])


def recheck(sid):
    """demo and check on a scratch copy with the change"""
    d = f'/verif/seeded/{sid}'
    prop = json.load(open(d+'/meta.json'))['property']
    w = f'/tmp/seed_{sid}'
    if os.path.exists(w):
        shutil.rmtree(w)
    subprocess.check_call(['cp', '-a', '/repo', w])
    subprocess.check_call(['git', '-C', w, 'apply', d+'/patch.diff'])
    dm = subprocess.run(['bash', d+'/demo.sh'], cwd=w,
                        capture_output=True).returncode
    env = dict(os.environ, VERIF_REPO=w, VERIF_TIER='quick',
               VERIF_NOEVID='1')
    t = time.time()
    r = subprocess.run(['python3-vt', '/verif/run.py', '--property', prop],
                       capture_output=True, text=True, env=env)
    v = [x for x in r.stdout.split('\n') if 'VIOLATION' in x][:1]
    print(sid, prop, 'demo', dm, 'check', r.returncode, v,
          round(time.time()-t), 's', flush=True)
    shutil.rmtree(w)


if __name__ == '__main__':
    if sys.argv[1] == 'recheck':
        for s in sys.argv[2:] or sorted(os.listdir('/verif/seeded')):
            recheck(s)
        sys.exit()
    for s in sys.argv[1:] or sorted(os.listdir('/verif/seeded')):
        tests(s)
