"""Several solver configurations on one query, side by side: the first that answers unsat wins.

Used for queries the incremental solver gives up on.  `python portfolio.py FILE NAME MS` runs one of them.
"""
import subprocess, sys, tempfile, time, os

NAMES = ('ctx', 'ar2', 'seed2', 'ctxar2')

def run(text, ms):
    """'unsat', or 'unknown' (a satisfiable query needs a model, which the caller looks for itself)"""
    with tempfile.NamedTemporaryFile('w', suffix='.smt2') as f:
        f.write(text); f.flush()
        ps = [subprocess.Popen([sys.executable, os.path.abspath(__file__), f.name, n, str(ms)],
                               stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True) for n in NAMES]
        res, end = 'unknown', time.time() + ms / 1000 + 5
        try:
            left = list(ps)
            while left and time.time() < end:
                for p in list(left):
                    if p.poll() is None: continue
                    left.remove(p)
                    out = p.stdout.read().strip()
                    if out == 'unsat': return 'unsat'
                    if out == 'sat': return 'unknown'
                time.sleep(.05)
        finally:
            for p in ps:
                if p.poll() is None: p.kill()
                p.wait(); p.stdout.close()
    return res

def one(path, name, ms):
    import z3
    T = z3.Then
    ctx = z3.OrElse(z3.TryFor(z3.Tactic('ctx-solver-simplify'), ms // 3), 'skip')
    if name == 'ctx': s = T('simplify', 'propagate-values', 'solve-eqs', ctx, 'smt').solver()
    elif name == 'ctxar2':
        z3.set_param('smt.arith.solver', 2)
        s = T('simplify', 'propagate-values', 'solve-eqs', ctx, 'smt').solver()
    elif name == 'ar2': s = z3.SimpleSolver(); s.set('arith.solver', 2)
    else: s = z3.SimpleSolver(); s.set('random_seed', 2)
    s.set('timeout', ms)
    s.add(*z3.parse_smt2_file(path))
    print(s.check(), flush=True)

if __name__ == '__main__':
    one(sys.argv[1], sys.argv[2], int(sys.argv[3]))
