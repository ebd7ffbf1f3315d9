"""applies each planted bug (or those named) to /repo, runs the check of its property, undoes it"""
import json
import os
import subprocess
import sys
import time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def main():
    names = sys.argv[1:] or sorted(os.listdir(os.path.join(V, 'seeded')))
    for n in names:
        n, _, pid = n.partition(':')
        d = os.path.join(V, 'seeded', n)
        pid = pid or json.load(open(d + '/meta.json'))['property']
        if not os.path.exists(os.path.join(V, 'checks', pid.lower() + '.py')):
            print('%-34s %s no check' % (n, pid))
            continue
        assert subprocess.run(['git', '-C', '/repo', 'diff', '--quiet']).returncode == 0
        subprocess.run(['git', '-C', '/repo', 'apply', d + '/patch.diff'], check=True)
        t = time.time()
        try:
            r = subprocess.run(['python3-vt', 'check.py', pid], cwd=V, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        finally:
            subprocess.run(['git', '-C', '/repo', 'checkout', '--', '.'], check=True)
        v = [l for l in r.stdout.splitlines() if l.startswith('VIOLATION property=' + pid)]
        und = sum(l.startswith('UNDECIDED') for l in r.stdout.splitlines())
        ok = r.returncode == 1 and v
        print('%-34s %s %s rc=%d undecided=%d %.0fs' % (n, pid, 'CAUGHT' if ok else 'MISSED', r.returncode, und, time.time() - t), flush=True)
        if not ok:
            print('\n'.join(r.stdout.splitlines()[-6:])[:1500])
        else:
            w = [l for l in r.stdout.splitlines() if l.startswith('case ')]
            print('      ', w[0][:160] if w else '')


main()
