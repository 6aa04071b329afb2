#!/usr/bin/env python3
"""python3 replay.py FILE.replay: rerun the recorded choices of a contract harness on the real code."""
import sys, os, re, tempfile, shutil
import check
def main():
    t = open(sys.argv[1]).read()
    m = re.search(r'contract harness (\w+) in (\S+)', t)
    h, f = m.group(1), os.path.join(check.HERE, 'contracts', m.group(2))
    tmp = tempfile.mkdtemp(prefix='vf_replay_')
    try:
        b = check.Build(f, tmp); b.native()
        if b.nerr: print(b.nerr); return 2
        sh = os.path.join(tmp, 'sh')
        rc, out, err = check.run([b.base + '.exe', 'replay', h, sh, sys.argv[1]], timeout=60, env=check.ENV)
        v = check.native_verdict(rc, out, err, sh)
        print(err[-3000:]); print('FAILS: ' + v if v else 'no failure: ' + out)
        return 1 if v else 0
    finally: shutil.rmtree(tmp, ignore_errors=True)
sys.exit(main())
