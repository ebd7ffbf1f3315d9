#!/opt/veriftools/pyvenv/bin/python3
"""check.py <property> | check.py replay <file> | check.py setup"""
import importlib
import json
import os
import sys
import time

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from vlib import build, case, prog  # noqa: E402


def main():
    t0 = time.time()
    cmd = sys.argv[1]
    if cmd == 'setup':
        for k in ('chk', 'rel', 'ct'):
            build.build_ir(k)
        build.build_native('debug')
        build.build_native('release')
        return 0
    if cmd == 'replay':
        rec = json.load(open(sys.argv[2]))
        build.build_native('debug')
        if rec.get('kind') == 'trace':
            from vlib import ct
            d = ct.Trace().differ(rec['op'], [prog.unarg(x) for x in rec['in']], [prog.unarg(x) for x in rec['in2']], prog.unarg(rec['out_initial'] or '-'))
            print(json.dumps({'first_difference': d, 'violates': d is not None}))
            return int(d is not None)
        if rec['profile'] == 'release':
            build.build_native('release')
        n = prog.Native(rec['profile'])
        r = n.run(rec['op'], [prog.unarg(x) for x in rec['in']], prog.unarg(rec['out_initial']))
        bad = case.misbehaves(r, rec['expected_return'], rec['expected_out'], prog.unarg(rec['out_initial']))
        print(json.dumps({'observed': [r[0], r[1], r[2].hex()], 'expected_return': rec['expected_return'],
                          'expected_out': rec['expected_out'], 'violates': bad}))
        return 1 if bad else 0
    pid = cmd
    m = importlib.import_module('checks.' + pid.lower())
    try:
        for k in getattr(m, 'IR', ('chk',)):
            build.build_ir(k)
        build.build_native('debug')
    except build.BuildError as e:
        print(e)
        print('the tree under check does not build')
        return 2
    jobs = m.jobs(case.TIER)
    budget = getattr(m, 'BUDGET', 780) if case.TIER == 'quick' else 6 * 3600
    only = os.environ.get('VERIF_CASE')
    if only:
        jobs = [j for j in jobs if only in j[0]]
    results = case.run_jobs(jobs, budget)
    return case.finish(pid, results, m.META, t0)


if __name__ == '__main__':
    rc = main()
    sys.stdout.flush()
    os._exit(rc)
