#!/usr/bin/env python3
"""Confirm planted bugs: mut.py FILE.py [ID...]

FILE.py defines BUGS: list of dicts id, property, edits [(path, old, new)...],
needs, breaks, demo (python source; exit status via assertions).  Every bug is
applied in a scratch clone of /repo HEAD, the test suite and the demo are
run there, and the property's check is run against it (MC_REPO).  Confirmed
bugs are written to /verif/seeded/<id>/.
"""
import json
import os
import shutil
import subprocess as sp
import sys
import time

WT = '/tmp/mutwt'
ENV = dict(os.environ, PYTHONDONTWRITEBYTECODE='1', MPLBACKEND='Agg',
           OPENBLAS_NUM_THREADS='1', OMP_NUM_THREADS='1',
           OMPI_ALLOW_RUN_AS_ROOT='1', OMPI_ALLOW_RUN_AS_ROOT_CONFIRM='1',
           OMPI_MCA_btl='self', OMPI_MCA_plm='isolated')
DEMO = '''#!/bin/bash
export PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg OPENBLAS_NUM_THREADS=1 OMP_NUM_THREADS=1
export OMPI_ALLOW_RUN_AS_ROOT=1 OMPI_ALLOW_RUN_AS_ROOT_CONFIRM=1 OMPI_MCA_btl=self OMPI_MCA_plm=isolated
PYTHONPATH="$PWD" exec /opt/venv/bin/python -W ignore "$(dirname "$0")/demo.py"
'''


def sh(cmd, cwd=None, env=None, timeout=900):
    r = sp.run(cmd, cwd=cwd, env=env or ENV, stdout=sp.PIPE,
               stderr=sp.STDOUT, timeout=timeout, shell=isinstance(cmd, str))
    return r.returncode, r.stdout.decode(errors='replace')


def main():
    ns = {}
    exec(open(sys.argv[1]).read(), ns)
    want = set(sys.argv[2:])
    notest = os.environ.get('NOTEST')
    if not os.path.exists(WT):
        sh(['git', 'clone', '-q', '/repo', WT])
    sh(['git', '-C', WT, 'fetch', '-q'])
    for b in ns['BUGS']:
        if want and b['id'] not in want:
            continue
        sh(['git', '-C', WT, 'checkout', '-q', '--detach', sh(
            ['git', '-C', '/repo', 'rev-parse', 'HEAD'])[1].strip()])
        sh(['git', '-C', WT, 'checkout', '-q', '--', '.'])
        bad = None
        for path, old, new in b['edits']:
            f = os.path.join(WT, path)
            t = open(f).read()
            if t.count(old) != 1:
                bad = '%d matches in %s for %r' % (t.count(old), path, old)
                break
            open(f, 'w').write(t.replace(old, new))
        if bad:
            print(b['id'], 'BAD EDIT', bad)
            continue
        rc, diff = sh(['git', '-C', WT, 'diff'])
        d = '/tmp/mutseed/' + b['id']
        os.makedirs(d, exist_ok=True)
        open(d + '/patch.diff', 'w').write(diff)
        open(d + '/demo.sh', 'w').write(DEMO)
        os.chmod(d + '/demo.sh', 0o755)
        open(d + '/demo.py', 'w').write(b['demo'].lstrip('\n'))
        json.dump({'property': b['property'], 'needs': b['needs'],
                   'what_it_breaks': b['breaks']},
                  open(d + '/meta.json', 'w'), indent=1)
        r0, o0 = sh(['bash', d + '/demo.sh'], cwd='/repo')
        r1, o1 = sh(['bash', d + '/demo.sh'], cwd=WT)
        ok = r0 == 0 and r1 != 0
        tst = 'skipped'
        if not notest:
            e = dict(ENV, PYTHONPATH=WT)
            rt, ot = sh('/opt/venv/bin/python -m pytest -q -x -p '
                        'no:cacheprovider -n 8 --timeout=300', cwd=WT, env=e)
            tst = ot.strip().splitlines()[-1]
            if rt != 0:
                ok = False
        t0 = time.time()
        rc, oc = sh(['/verif/check', b['property']],
                    env=dict(ENV, MC_REPO=WT))
        print('%-28s %s demo=%d/%d tests=[%s] check rc=%d %.0fs %s' % (
            b['id'], b['property'], r0, r1, tst, rc, time.time() - t0,
            'CONFIRMED' if ok else 'NOT CONFIRMED'))
        if r0 != 0:
            print('   clean demo:', o0[-400:])
        if rc == 1:
            ls = [l for l in oc.splitlines() if not l.startswith('VIOL')]
            print('   ', ls[0][:200] if ls else '')
        elif rc != 0:
            print(oc[-600:])
        if ok:
            dst = '/verif/seeded/' + b['id']
            shutil.rmtree(dst, ignore_errors=True)
            shutil.copytree(d, dst)
        sys.stdout.flush()
    sh(['git', '-C', WT, 'checkout', '-q', '--', '.'])


main()
