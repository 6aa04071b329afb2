"""Verify one contract harness: python worker.py FILE.ll HARNESS BUDGET [options]; prints one JSON object."""
import sys, os, json, time, subprocess, re, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import ir, symex, z3
from mem import Unsupported, Fork
from term import C

def demangle(names):
    if not names: return {}
    p = subprocess.run(['/usr/lib/llvm-18/bin/llvm-cxxfilt'], input='\n'.join(names), capture_output=True, text=True)
    return dict(zip(names, p.stdout.split('\n')))

def run(text, h, budget, **opts):
    t0 = time.time()
    mod = ir.Module(text)
    names = demangle(list(mod.ftext) + list(mod.decls))
    C.reset()
    symex.Exec.ralign = {}; symex.Exec.base_ids = {}
    symex.bitw.reset(bool(opts.get('bits')))
    ex = symex.Exec(mod, names, dict(budget=budget, **opts))
    res = {'harness': h, 'incomplete': None}
    try:
        ex.call_harness('h_' + h)
    except symex.Budget: res['incomplete'] = 'time or failure budget exhausted'
    except Unsupported as e: res['incomplete'] = 'outside the verifier: %s' % e
    except Fork as e: res['incomplete'] = 'outside the verifier: undecided case split'
    except symex.SynthFail as e: res['incomplete'] = 'no invariant: %s' % e
    except RecursionError: res['incomplete'] = 'recursion limit'
    except Exception as e:
        res['incomplete'] = 'verifier error: %s: %s' % (type(e).__name__, e)
        if opts.get('trace') or opts.get('tb'): traceback.print_exc()
    if getattr(ex, 'lastst', None) is not None and res['incomplete']:
        try: res['where'] = ex.where(ex.lastst)
        except Exception: pass
    res['obl'] = ex.obl
    res['fails'] = [{'key': f.key, 'msg': f.msg, 'status': f.status, 'where': getattr(f, 'where', ''), 'choices': f.choices, 'soft': getattr(f, 'soft', [])} for f in ex.fails]
    res['funcs'] = sorted({names.get(f, f) for f in ex.funcs_used})
    res['loops'] = {k: sorted(v) for k, v in ex.loops.items()}
    res['assumed'] = sorted(ex.assumed)
    res['abstract'] = ex.abstract
    res['reach'] = ex.reach
    res['paths'] = ex.npaths
    res['queries'] = ex.nq; res['solver_s'] = round(ex.tq, 3)
    res['wall'] = round(time.time() - t0, 3)
    res['contracts'] = sorted({names.get(k, k) for k, v in ex.intr.items() if v and not k.startswith('vf_')})
    if ex.second is not None: res['smt'] = ex.smt
    return res

if __name__ == '__main__':
    text = open(sys.argv[1]).read()
    o = {}
    for a in sys.argv[4:]:
        if a == 'trace': o['trace'] = 1; o['tb'] = 1
        elif a == 'tb': o['tb'] = 1
        elif a.startswith('second='): o['second'] = a[7:]
        else:
            k, v = a.split('='); o[k] = int(v)
    r = run(text, sys.argv[2], float(sys.argv[3]), **o)
    print(json.dumps(r))
