"""Modular verification-condition generator: symbolic execution of the IR of the real code,
with loops replaced by synthesised and inductively checked invariants."""
import re, sys, time, z3
import ir
from term import *
import term as T
from mem import *
import bits as bitw, portfolio

sys.setrecursionlimit(20000)
M64 = 1 << 64

class Budget(Exception): pass
class SynthFail(Exception): pass
class PathEnd(Exception): pass
class Throw(Exception):
    """an exception object propagates (tinfo region name, ptr)"""
    def __init__(s, ti, ptr): s.ti = ti; s.ptr = ptr

class Frame:
    __slots__ = ('f', 'blk', 'prev', 'i', 'env', 'inst', 'allocas', 'va', 'jump')
    def copy(s):
        n = Frame.__new__(Frame)
        n.f = s.f; n.blk = s.blk; n.prev = s.prev; n.i = s.i; n.env = dict(s.env); n.inst = s.inst; n.allocas = s.allocas; n.va = s.va; n.jump = s.jump
        return n

def is01(x):
    """is the value always 0 or 1"""
    if x.const: return x.c in (0, 1)
    lo, hi = x.bounds()
    if lo is not None and hi is not None and lo >= 0 and hi <= 1: return True
    if x.c == 0 and len(x.m) == 1 and x.m[0][1] == 1:
        e = C.atoms[x.m[0][0]]
        return e.decl().kind() == z3.Z3_OP_ITE and all(z3.is_int_value(e.arg(k)) and e.arg(k).as_long() in (0, 1) for k in (1, 2))
    return False
def grain(*planes):
    """the granularity in which memory is defined: of the arbitrary content it was made from"""
    g = 1; stk = [p.node for p in planes]; seen = set()
    while stk:
        nd = stk.pop()
        if nd is None or id(nd) in seen: continue
        seen.add(id(nd))
        if isinstance(nd, Base):
            if nd.kind == 'sym': g = max(g, nd.gran)
            continue
        if isinstance(nd, Copy): stk.append(nd.src.node)
        stk.append(nd.prev)
    return g
def contains_const(e, v):
    todo, seen = [e], set()
    while todo:
        x = todo.pop()
        if x.get_id() in seen: continue
        seen.add(x.get_id())
        if x.eq(v): return True
        todo.extend(x.children())
    return False

class QF:
    """forall s in [0,hi): D(s); sites: reads performed by the body as (rid, off lin in tv)"""
    __slots__ = ('tv', 'hi', 'D', 'reads', 'done', 'mono')
    def __init__(s, tv, hi, D, reads, mono=()): s.tv = tv; s.hi = hi; s.D = D; s.reads = reads; s.mono = mono
    def inst(s, x):
        return Or(lt(x, K(0)), le(s.hi, x), substb(s.D, [(s.tv, x.z())]))

class State:
    def __init__(s):
        s.frames = []; s.mem = {}; s.pc = []; s.qfs = []; s.reads = {}; s.exc = None; s.caught = []
        s.choices = []; s.wlog = None; s.globals = {}; s.model = None; s.cmps = None; s.heap = 0; s.ghost = {}; s.trace = (); s.excs = {}
        s.forks = 0; s.rlog = None; s.pend = {}; s.pendi = 0; s.feas = False; s.snaps = []; s.absn = frozenset(); s.nest = ()
    def clone(s):
        n = State.__new__(State)
        n.frames = s.frames[:-1] + [s.frames[-1].copy()] if s.frames else []
        # frames below the top are copied lazily when returned to
        n.mem = dict(s.mem); n.pc = list(s.pc); n.qfs = list(s.qfs); n.reads = dict(s.reads); n.exc = s.exc; n.caught = list(s.caught)
        n.choices = list(s.choices); n.wlog = None if s.wlog is None else list(s.wlog); n.globals = dict(s.globals); n.model = s.model
        n.cmps = s.cmps; n.heap = s.heap; n.ghost = dict(s.ghost); n.trace = s.trace; n.excs = dict(s.excs); n.forks = s.forks; n.rlog = None if s.rlog is None else list(s.rlog); n.pend = dict(s.pend); n.pendi = s.pendi; n.feas = s.feas; n.snaps = list(s.snaps); n.absn = s.absn; n.nest = s.nest
        return n

class Failure:
    def __init__(s, key, msg, st, model, status): s.key = key; s.msg = msg; s.status = status; s.choices = None; s.trace = st.trace; s.model = model

class Exec:
    MAXUNROLL = 80
    def __init__(s, mod, names, opts=None):
        s.m = mod; s.names = names    # mangled -> demangled
        s.opts = opts or {}
        s.solver = z3.SimpleSolver(); s.solver.set('timeout', 1000 if s.opts.get('bits') else s.opts.get('qtimeout', 8000))
        s.stack = []      # list of (cond id, axcount before)
        s.axn = 0
        s.nq = 0; s.tq = 0.0
        s.rid = 0; s.rname = {}
        s.obl = {}        # key -> [total, discharged]
        s.fails = []
        s.reach = {}
        s.mute = 0; s.guess = False; s.users = {}
        s.deadline = time.time() + s.opts.get('budget', 120)
        s.funcs_used = {}
        s.assumed = set()
        s.loops = {}
        s.base_atoms = {}
        s.fn_ids = {}
        s.glob_r = {}
        s.keepz = []
        s.npaths = 0; s.both = set()
        s.intr = {}
        s.second = s.opts.get('second')
        s.smt = []
        s.abstract = []   # abstractions that may turn a refutation into a spurious one
        s.lastst = None
    # ------------------------------------------------------------ solver
    def _sync(s, st):
        pc = st.pc
        n = 0
        stk = s.stack
        while n < len(stk) and n < len(pc) and stk[n][0] is pc[n]: n += 1
        if n < len(stk):
            s.axn = stk[n][1]
            s.solver.pop(len(stk) - n); del stk[n:]
        for i in range(n, len(pc)):
            stk.append((pc[i], s.axn))
            s.solver.push(); s.solver.add(pc[i])
        ax = C.axioms
        if s.axn < len(ax):
            s.solver.add(*ax[s.axn:]); s.axn = len(ax)
    def _check(s, st, *extra, want=True, hard=1):
        if time.time() > s.deadline: raise Budget()
        for e in extra: register(e)
        s._sync(st)
        t = time.time()
        s.solver.push()
        if extra: s.solver.add(*extra)
        r = s.solver.check()
        s.mdl = s.solver.model() if want and r == z3.sat else None
        s.solver.pop()
        if r == z3.unknown:     # the incremental solver gave up: from scratch
            ms = s.opts.get('qtimeout', 8000) * hard if not s.guess else 300
            if s.opts.get('bits'):
                T = z3.Then('simplify', 'propagate-values', 'solve-eqs', z3.OrElse(z3.TryFor(z3.Tactic('ctx-solver-simplify'), min(ms // 2, 5000)), 'skip'), 'smt')
                sv = T.solver()
            else: sv = z3.Solver()
            if s.opts.get('bits'): sv.set('timeout', ms // 4 if hard > 1 else ms)
            else: sv.set('timeout', ms)
            sv.add(*[c for c, _ in s.stack]); sv.add(*C.axioms); sv.add(*extra)
            r = sv.check()
            s.mdl = sv.model() if want and r == z3.sat else None
            if r == z3.unknown and hard > 1 and s.opts.get('bits'):
                sv = z3.Solver(); sv.add(*[c for c, _ in s.stack]); sv.add(*C.axioms); sv.add(*extra)
                if portfolio.run(sv.to_smt2(), 2 * ms) == 'unsat': r = z3.unsat
        s.nq += 1; s.tq += time.time() - t
        return r
    def feasible(s, st):
        if st.model is not None: return True
        if st.feas: return True
        r = s._check(st, want=False)
        if r == z3.sat: st.feas = True
        return r != z3.unsat
    def proved(s, st, c):
        if isinstance(c, bool): return c
        if z3.is_true(c): return True
        if st.model is not None:
            v = st.model.eval(c, model_completion=True)
            if z3.is_false(v) and s.modelok(st): return False
        return s._check(st, z3.Not(c), want=False) == z3.unsat
    def modelok(s, st):
        # the cached model may be stale w.r.t. new axioms; recheck bounds quickly
        n = getattr(st, 'maxn', None)
        return False
    def tri(s, st, c):
        if isinstance(c, bool): return c
        if z3.is_true(c): return True
        if z3.is_false(c): return False
        r = s._check(st, c, want=False)
        if r == z3.unsat: return False
        n = s._check(st, z3.Not(c), want=False)
        if n == z3.unsat:
            if r == z3.sat: st.feas = True
            return True
        if r == z3.sat or n == z3.sat: st.feas = True
        if r == z3.sat and n == z3.sat: s.both.add(c.get_id()); s.keepz.append(c)
        return None
    def assume(s, st, c):
        if c is True: return
        if c is False: raise PathEnd()
        register(c)
        s.keepz.append(c)
        st.pc.append(c)
        st.model = None; st.feas = False
    def need(s, st, c):
        """python bool for c on this path, forking if undetermined"""
        t = s.tri(st, c)
        if t is None: raise Fork(c)
        return t
    # ------------------------------------------------------------ obligations
    def qinst(s, st):
        """ground instances of the path's quantified loop facts"""
        out = []
        if not st.qfs: return out
        seen = set()
        for q in st.qfs:
            cands = {}
            tl = atom(q.tv); ta = tl.m[0][0]
            for rid, off in q.reads:
                d = dict(off.m).get(ta)
                if d is None: continue
                base = sub(off, scale(tl, d))
                for o in st.reads.get(rid, ()):
                    df = sub(o, base)
                    if any(C.atoms[a].eq(q.tv) for a, _ in df.m): continue
                    if d < 0: df = neg(df)
                    x = divexact(df, abs(d))
                    if x is None: x = divc(df, abs(d))
                    cands[x] = 1
            cands[addc(q.hi, -1)] = 1
            cands[K(0)] = 1
            for nm, l in st.choices:
                if isinstance(l, Lin) and not l.const and 'idx' in nm: cands[l] = 1
            for x in list(cands)[:24]:
                c = q.inst(x)
                if c is True: continue
                out.append(zb(c))
        return out
    def qtrig(s, st, terms):
        """instances of the loop facts at the arguments their functions are applied to in the goal and on the path"""
        def apps(es):
            out, seen, todo = {}, set(), list(es)
            while todo:
                x = todo.pop()
                if x.get_id() in seen: continue
                seen.add(x.get_id())
                if z3.is_app(x):
                    d = x.decl()
                    if d.kind() == z3.Z3_OP_UNINTERPRETED and x.num_args(): out.setdefault(d, []).append(x)
                    todo.extend(x.children())
            return out
        known = s.__dict__.setdefault('trig', {})
        key = (id(st), len(st.pc))
        if known.get('key') != key: known.clear(); known['key'] = key; known['st'] = st; known['done'] = set()
        ground = apps(terms)
        if len(known['done']) == 0:
            for d, l in apps(st.pc).items():
                g = ground.setdefault(d, [])
                g.extend(l[-6:])
        out = []
        for q in st.qfs:
            for d, l in apps([q.D]).items():
                if d not in ground: continue
                for pat in l:
                    for i in range(pat.num_args()):
                        a = pat.arg(i)
                        if not contains_const(a, q.tv): continue
                        a0 = z3.substitute(a, (q.tv, z3.IntVal(0)))
                        k = z3.simplify(z3.substitute(a, (q.tv, z3.IntVal(1))) - a0)
                        if not z3.is_int_value(k) or k.as_long() == 0: continue
                        k = k.as_long()
                        for g in ground[d][:12]:
                            x = z3.simplify(g.arg(i) - a0)
                            if k < 0: x = z3.simplify(-x)
                            if abs(k) > 1: x = z3.simplify(x / abs(k))
                            dk = (id(q), x.get_id())
                            if dk in known['done'] or len(known['done']) > 60: continue
                            known['done'].add(dk); s.keepz.append(x)
                            c = q.inst(K(x.as_long()) if z3.is_int_value(x) else atom(x))
                            if c is not True: out.append(zb(c))
        return out
    def qmono(s, st, terms):
        """loop variables which never decrease, as functions of the iteration: instances at the arguments met"""
        out = []
        for q in st.qfs:
            for e in q.mono:
                d = e.decl(); n = e.num_args() - 1
                apps, seen, todo = {}, set(), list(terms) + [zb(c) for c in st.pc if not isinstance(c, bool)]
                while todo:
                    x = todo.pop()
                    if x.get_id() in seen: continue
                    seen.add(x.get_id())
                    if z3.is_app(x):
                        if x.decl().eq(d) and all(x.arg(i).eq(e.arg(i)) for i in range(n)): apps[x.get_id()] = x
                        todo.extend(x.children())
                l = list(apps.values())[:16]
                hi = q.hi.z()
                for x in l:
                    for y in l:
                        if x is y: continue
                        a, b = x.arg(n), y.arg(n)
                        c = z3.Implies(z3.And(a >= 0, a <= b, b <= hi), x <= y)
                        s.keepz.append(c); out.append(c)
        return out
    def prove(s, st, c, key, msg='', fatal=True):
        """an obligation: c must hold on this path"""
        o = None
        if not s.mute:
            o = s.obl.setdefault(key, [0, 0]); o[0] += 1
        c0 = c
        if c is True or (not isinstance(c, bool) and z3.is_true(c)):
            if o: o[1] += 1
            return True
        neg_ = z3.Not(zb(c))
        r = s._check(st, neg_, hard=1 if s.mute else 4)
        mdl = s.mdl; ins = []
        if r != z3.unsat and st.qfs:
            ins = s.qinst(st)
            ins += s.qmono(st, [neg_] + ins)
            for i in ins: register(i)
            r = s._check(st, neg_, *ins); mdl = s.mdl
            if r != z3.unsat:
                for n in range(2):
                    more = s.qtrig(st, [neg_] + ins)
                    more += s.qmono(st, [neg_] + ins + more)
                    if not more: break
                    ins = ins + more
                    for i in more: register(i)
                    r = s._check(st, neg_, *ins); mdl = s.mdl
                    if r == z3.unsat: break
        if r == z3.unsat:
            if o:
                o[1] += 1
                if s.second is not None: s.smt.append(s.dump(st, neg_, ins))
            if fatal and c is False: raise PathEnd()
            return True
        if s.mute:
            if s.mute_fail is not None: s.mute_fail.append((key, msg))
        else:
            f = Failure(key, msg, st, mdl, 'refuted' if r == z3.sat else 'unknown')
            f.where = s.where(st); f.soft = sorted(st.absn)
            if mdl is not None: f.choices = s.concretise(st, neg_, mdl, ins)
            s.fails.append(f)
            if len(s.fails) > 40: raise Budget()
        if fatal:
            if isinstance(c, bool): raise PathEnd()
            s.assume(st, c)
            if not s.feasible(st): raise PathEnd()
        return False
    mute_fail = None
    def dump(s, st, neg_, ins=()):
        sv = z3.Solver(); sv.add(*[c for c in st.pc]); sv.add(*C.axioms[:s.axn]); 
        for i in ins: sv.add(i)
        sv.add(neg_)
        return sv.to_smt2()
    def concretise(s, st, neg_, mdl, ins=()):
        """values of the harness choices in a model that is as small as possible"""
        extra = [neg_] + list(ins)
        vs = []
        for nm, l in st.choices:
            if isinstance(l, Lin) and not l.const: vs.append(l)
            elif not isinstance(l, Lin) and l[0] == 'array' and l[1] is not None and not l[2].const: vs.append(l[2])
        t0 = time.time()
        for bound in (3, 6, 12):
            try: r = s._check(st, *(extra + [l.z() <= bound for l in vs]))
            except Budget: r = z3.unknown
            if r == z3.sat: mdl = s.mdl; break
        else:
            for l in vs:
                for bound in (0, 2, 5, 12, 40, 300, 1200, 5000, 20000):
                    if time.time() - t0 > 10: break
                    try: r = s._check(st, *(extra + [l.z() <= bound]))
                    except Budget: r = z3.unknown
                    if r == z3.sat: mdl = s.mdl; extra.append(l.z() <= bound); break
        out = []
        for nm, l in st.choices:
            if isinstance(l, Lin):
                v = mdl.eval(l.z(), model_completion=True)
                out.append((nm, v.as_long() if z3.is_int_value(v) else 0))
            elif l[0] == 'bool':
                out.append((nm, 1 if z3.is_true(mdl.eval(zb(l[1]), model_completion=True)) else 0))
            elif l[0] == 'array':
                _, ufn, n, gran = l
                if ufn is None: out.append((nm, [])); continue
                nv = mdl.eval(n.z(), model_completion=True).as_long()
                f = z3.Function(ufn, z3.IntSort(), z3.IntSort())
                vals = []
                for i in range(min(nv, 6000)):
                    vals.append(mdl.eval(f(z3.IntVal(i)), model_completion=True).as_long())
                out.append((nm, vals))
        return out
    def where(s, st):
        w = []
        for fr in reversed(st.frames):
            n = s.dn(fr.f.name)
            line = ''
            if fr.i < len(fr.f.blocks[fr.blk].insts):
                d = fr.f.blocks[fr.blk].insts[fr.i].dbg
                if d and d in s.m.meta:
                    mm = re.search(r'line: (\d+)', s.m.meta[d])
                    if mm: line = ':' + mm.group(1)
            w.append(short(n) + line)
            if len(w) > 5: break
        return ' < '.join(w)
    def dn(s, n): return s.names.get(n, n)
    def ob_here(s, st, kind):
        """key for an implicit safety obligation in the current function"""
        for fr in reversed(st.frames):
            n = s.dn(fr.f.name)
            if 'itlib' in n or fr.f.name.startswith('h_'): return '%s in %s' % (kind, short(n))
        return '%s in %s' % (kind, short(s.dn(st.frames[-1].f.name)))
    # ------------------------------------------------------------ integers
    def nu(s, st, v):
        """unsigned view: a Lin in [0, 2^w)"""
        l = v.l; m = 1 << v.w
        if l.const: return Lin(l.c % m)
        lo, hi = l.bounds()
        if lo is not None and hi is not None:
            if lo >= 0 and hi < m: return l
            if lo // m == hi // m: return addc(l, -(lo//m)*m)
        if st is not None:
            key = (l, v.w, 'u')
            c = And(le(K(0), l), lt(l, K(m)))
            if s.proved(st, c): return l
            if lo is None or lo < 0:
                if s.proved(st, And(le(K(-m), l), lt(l, K(0)))): return addc(l, m)
            if hi is None or hi >= m:
                if s.proved(st, And(le(K(m), l), lt(l, K(2*m)))): return addc(l, -m)
        return modc(l, m)
    def ns(s, st, v):
        l = v.l; m = 1 << v.w; h = m >> 1
        if l.const:
            c = l.c % m
            return Lin(c - m if c >= h else c)
        lo, hi = l.bounds()
        if lo is not None and hi is not None:
            if lo >= -h and hi < h: return l
        if st is not None:
            if s.proved(st, And(le(K(-h), l), lt(l, K(h)))): return l
            if s.proved(st, And(le(K(h), l), lt(l, K(h+m)))): return addc(l, -m)
        u = modc(addc(l, h), m)
        return addc(u, -h)
    def asint(s, st, v, w):
        if isinstance(v, Int): return v
        if isinstance(v, B): return Int(w, b2i(v.e))
        if isinstance(v, Ptr): return Int(64, s.p2i(v))
        if v is Undef: return v
        if isinstance(v, Fn): return Int(64, s.fnaddr(v.n))
        raise Unsupported('int of %r' % v)
    def fnaddr(s, n):
        if n not in s.fn_ids: s.fn_ids[n] = Lin(0x400000 + 16*len(s.fn_ids))
        return s.fn_ids[n]
    def p2i(s, p):
        if p.r is None: return p.o
        return add(s.base(p.r), p.o)
    def base(s, r):
        b = s.base_atoms.get(r)
        if b is None:
            al = s.ralign.get(r, 16)
            C.declb['base%d' % r] = (4096//al, (1 << 47)//al)
            b = s.base_atoms[r] = scale(atom(z3.Int('base%d' % r)), al)
            s.base_ids[b.m[0][0]] = r
        return b
    ralign = {}
    base_ids = {}
    def i2p(s, l):
        if l.const: return Ptr(None, l)
        for a, k in l.m:
            r = s.base_ids.get(a)
            if r is not None and k == s.ralign.get(r, 16):
                o = sub(l, s.base(r))
                if not any(x in s.base_ids for x, _ in o.m): return Ptr(r, o)
        for n, al in s.fn_ids.items():
            if al == l: return Fn(n)
        raise Unsupported('integer to pointer %r' % l)
    def asptr(s, st, v):
        if isinstance(v, (Ptr, Fn)): return v
        if isinstance(v, Int): return s.i2p(v.l)
        raise Unsupported('pointer of %r' % v)
    # ------------------------------------------------------------ regions
    def newregion(s, st, kind, name, size, align=16):
        s.rid += 1
        s.ralign[s.rid] = align
        st.mem[s.rid] = Region(s.rid, kind, name, size if isinstance(size, Lin) else Lin(size), align)
        s.rname[s.rid] = name
        return s.rid
    def wreg(s, st, rid):
        r = st.mem[rid].copy(); st.mem[rid] = r
        return r
    def global_ptr(s, st, name):
        name = s.m.aliases.get(name, name)
        if name in s.m.ftext or name in s.m.decls: return Fn(name)
        r = s.glob_r.get(name)
        if r is None:
            g = s.m.glob(name)
            s.rid += 1; r = s.glob_r[name] = s.rid; s.rname[r] = '@' + name
            ty = g[0] if g else None
            try: s.ralign[r] = max(16, s.m.align(ty)) if ty else 16
            except Exception: s.ralign[r] = 16
        if r not in st.mem:
            g = s.m.glob(name)
            try: size = s.m.size(g[0]) if g and not (g[0].k == 's' and g[0].e is None) else 1 << 20
            except Exception: size = 1 << 20
            reg = Region(r, 'global', '@' + name, Lin(size), s.ralign[r])
            st.mem[r] = reg
            if name == '__libc_single_threaded': reg.b = Plane(Base('zero'))     # libstdc++: use the atomic reference counting
            elif g is None or g[1] is None: reg.b = Plane(Base('opaque', '@' + name))
            else:
                cells = {}
                s.init_cells(st, cells, 0, g[0], g[1])
                reg.b = Plane(Base('zero'), cells)
                reg.const = g[2]
        return Ptr(r, Lin(0))
    def init_cells(s, st, cells, off, ty, op):
        k = op.k
        if k == 'zero':
            if s.m.size(ty) > 256: return
            if ty.k == 'a':
                n = s.m.size(ty.e)
                for i in range(ty.n): s.init_cells(st, cells, off+i*n, ty.e, op)
            elif ty.k == 's':
                offs, _ = s.m.slay(ty)
                for o, e in zip(offs, ty.e): s.init_cells(st, cells, off+o, e, op)
            else: cells[off] = (s.m.size(ty), s.zero(ty))
            return
        if k == 's':
            for i, c in enumerate(op.v): cells[off+i] = (1, Int(8, Lin(c)))
            return
        if k == 'agg':
            if ty.k == 'a':
                n = s.m.size(ty.e)
                for i, e in enumerate(op.v): s.init_cells(st, cells, off+i*n, ty.e, e)
            else:
                offs, _ = s.m.slay(ty)
                for o, t, e in zip(offs, ty.e, op.v): s.init_cells(st, cells, off+o, t, e)
            return
        if k == 'undef': return
        cells[off] = (s.m.size(ty), s.op(st, op))
    def zero(s, ty):
        if ty.k == 'i': return B(False) if ty.n == 1 else Int(ty.n, Lin(0))
        if ty.k == 'ptr': return Ptr(None, Lin(0))
        if ty.k == 'f': return Fl(0.0)
        if ty.k == 's': return Agg([s.zero(e) for e in ty.e])
        if ty.k in ('a','v'): return Agg([s.zero(ty.e) for _ in range(ty.n)])
        raise Unsupported('zero of %r' % ty)
    # ------------------------------------------------------------ memory access
    def chk(s, st, p, w, what, write=False):
        """pointer validity obligations; w int or Lin"""
        if isinstance(p, Fn): raise Unsupported('data access to function')
        if p.r is None:
            s.prove(st, False, s.ob_here(st, 'valid memory access'), '%s through null/absolute pointer %r' % (what, p.o))
        reg = st.mem.get(p.r)
        if reg is None: raise Unsupported('unknown region %s' % p.r)
        if not reg.live:
            s.prove(st, False, s.ob_here(st, 'valid memory access'), '%s of freed/dead memory %s' % (what, reg.name))
        if write and reg.const:
            s.prove(st, False, s.ob_here(st, 'valid memory access'), 'write to constant %s' % reg.name)
        w = w if isinstance(w, Lin) else Lin(w)
        s.prove(st, And(le(K(0), p.o), le(add(p.o, w), reg.size)), s.ob_here(st, 'access in bounds'), '%s outside of %s' % (what, reg.name))
        if ('sh', p.r) in st.ghost: s.conc_access(st, p, what)
        return reg
    def unsup(s, t): raise Unsupported(t)
    def load(s, st, p, ty, what='read'):
        if ty.k == 's':
            offs, _ = s.m.slay(ty)
            return Agg([s.load(st, Ptr(p.r, addc(p.o, o)), e, what) for o, e in zip(offs, ty.e)])
        if ty.k in ('a', 'v'):
            n = s.m.size(ty.e)
            return Agg([s.load(st, Ptr(p.r, addc(p.o, i*n)), ty.e, what) for i in range(ty.n)])
        if ty.k == 'i' and ty.n in (24, 40, 48, 56):
            r, o = Lin(0), 0
            for k in (4, 2, 1):
                if ty.n // 8 - o < k: continue
                x = s.load(st, Ptr(p.r, addc(p.o, o)), ir.Ty('i', 8*k), what)
                if not isinstance(x, Int): return Undef if x is Undef else s.unsup('integer of odd width')
                r = add(r, scale(s.nu(st, x), 1 << 8*o)); o += k
            return Int(ty.n, r)
        w = s.m.size(ty)
        reg = s.chk(st, p, w, what)
        if st.rlog is not None: st.rlog.append((p.r, p.o))
        if not p.o.const or True:
            if reg.kind != 'stack' or not p.o.const:
                rs = st.reads.get(p.r, ())
                if p.o not in rs and len(rs) < 40: st.reads[p.r] = rs + (p.o,)
        v = reg.b.read(s, st, p.o, w, ty)
        if v is Undef and s.guess and not p.o.const and ty.k == 'i' and ty.n > 1: v = Int(8*w, var('guess', 0, (1 << 8*w)-1))
        return s.coerce(st, v, ty)
    # ---- memory shared with other threads (vf_shared): rely on the lock protocol / atomicity, guarantee it.
    # ghost ('sh', region) = (mode, callback, ctx); ('held', region, offset) = 1 while this thread holds the lock there
    def conc_access(s, st, p, what):
        if st.ghost.get('env') or st.ghost.get('atomic'): return
        mode = st.ghost[('sh', p.r)][0]
        if mode == 1:
            s.prove(st, s.heldin(st, p.r), s.ob_here(st, 'shared data accessed only under the lock'), '%s of data shared between threads without holding the lock' % what)
        else:
            s.prove(st, False, s.ob_here(st, 'shared data accessed atomically'), 'non-atomic %s of an object shared between threads' % what)
    def heldin(s, st, rid): return any(k[0] == 'held' and k[1] == rid for k in st.ghost if isinstance(k, tuple))
    def env_call(s, st, key, sh):
        """other threads act up to the moment this thread enters its critical section"""
        st.ghost['acq'] = key
        if not sh[1]: return False
        st.ghost['env'] = 1
        st.frames.append(s.frame(s.m.func(sh[1]), [sh[2]], None))
        return True
    def conc_lock(s, st, p, block, okord):
        """one attempt to take the lock word at p: 'taken', 'busy', 'again' (callback entered)"""
        key = ('held', p.r, p.o.c)
        sh = st.ghost[('sh', p.r)]
        if not p.o.const: raise Unsupported('lock word at a symbolic address')
        if st.ghost.get('acq') != key:
            s.prove(st, not s.heldin(st, p.r), s.ob_here(st, 'lock not taken twice'), 'an operation takes a lock which it already holds')
            if not block and not s.choice(st, 'lock is free'): return 'busy'
            if s.env_call(st, key, sh): return 'again'
        del st.ghost['acq']
        s.prove(st, okord, s.ob_here(st, 'lock taken with acquire ordering'), 'the lock is taken without acquire ordering')
        st.ghost[key] = 1
        return 'taken'
    def conc_unlock(s, st, p, okord):
        key = ('held', p.r, p.o.c if p.o.const else None)
        s.prove(st, key in st.ghost, s.ob_here(st, 'lock released by its holder'), 'a lock is released which is not held')
        s.prove(st, okord, s.ob_here(st, 'lock released with release ordering'), 'the lock is released without release ordering')
        del st.ghost[key]
    def conc_atomic(s, st, fr, ins, p, v, kind):
        """atomic access to shared memory; True when handled"""
        if isinstance(p, Fn) or p.r is None or st.ghost.get('env'): return False
        sh = st.ghost.get(('sh', p.r))
        if sh is None: return False
        ordr = ins.x['ord']
        ty = ins.ty if kind != 'store' else ins.a[0].ty
        w = s.m.size(ty)
        if sh[0] == 1:
            isz = lambda x: s.tri(st, eq0(s.nu(st, x)))
            if kind == 'load':
                s.setr(fr, ins, s.load0(st, p, ty) if s.heldin(st, p.r) else Int(8*w, s.pvar(st, 'lock word', 0, 1))); return True
            if kind == 'rmw' and ins.x['rop'] != 'xchg': raise Unsupported('atomic %s on a lock word' % ins.x['rop'])
            z = isz(v)
            if z is None: raise Unsupported('unknown value stored into a lock word')
            if kind == 'store' and not z: raise Unsupported('atomic store of a non-zero value into a lock word')
            if kind != 'cmpxchg' and z:
                s.conc_unlock(st, p, ordr in ('release', 'acq_rel', 'seq_cst'))
                s.store0(st, p, v, ty)
                if kind == 'rmw': s.setr(fr, ins, Int(8*w, Lin(1)))
                else: fr.i += 1
                return True
            if kind == 'cmpxchg' and (z or not isz(s.op(st, ins.a[1]))): raise Unsupported('compare-exchange protocol on a lock word')
            r = s.conc_lock(st, p, False, ordr in ('acquire', 'acq_rel', 'seq_cst'))
            if r == 'again': return True
            old = Int(8*w, Lin(1 if r == 'busy' else 0))
            if r == 'taken': s.store0(st, p, v, ty)
            s.setr(fr, ins, Agg([old, B(r == 'taken')]) if kind == 'cmpxchg' else old)
            return True
        # an atomic variable: other threads change it between any two accesses
        cur = Int(8*w, s.pvar(st, 'value at this moment', 0, 2**(8*w)-1))
        def record(what, old, new):
            n = st.ghost.get(('ev', what), 0)
            st.ghost[('ev', what)] = n + 1
            st.ghost[('val', 'old')] = old; st.ghost[('val', 'new')] = new
        if kind == 'load': record('load', cur, cur); s.store0(st, p, cur, ty); s.setr(fr, ins, cur); return True
        if kind == 'store': record('store', v, v); s.store0(st, p, v, ty); fr.i += 1; return True
        if kind == 'rmw':
            rop = ins.x['rop']
            new = v if rop == 'xchg' else s.binop(st, rop, cur, v, ins.ty, ()) if rop in ('add', 'sub', 'and', 'or', 'xor') else None
            if new is None: raise Unsupported('atomicrmw ' + rop)
            if isinstance(new, Int): new = Int(new.w, s.nu(st, new))
            record('rmw', cur, new); s.store0(st, p, new, ty); s.setr(fr, ins, cur); return True
        e = s.icmp(st, 'eq', cur, s.op(st, ins.a[1]), ty).e
        if ins.x['weak']: e = And(e, Not(eq0(s.pvar(st, 'weakok', 0, 1))))
        t = s.need(st, e)
        if t: record('rmw', cur, v)
        s.store0(st, p, v if t else cur, ty)
        s.setr(fr, ins, Agg([cur, B(t)])); return True
    def load0(s, st, p, ty):
        st.ghost['atomic'] = 1
        try: return s.load(st, p, ty)
        finally: del st.ghost['atomic']
    def store0(s, st, p, v, ty):
        st.ghost['atomic'] = 1
        try: s.store(st, p, v, ty)
        finally: del st.ghost['atomic']
    def coerce(s, st, v, ty):
        if v is Undef: return v
        if ty.k == 'ptr': return s.asptr(st, v)
        if ty.k == 'i':
            if ty.n == 1: return B(s.tobool(st, v))
            if isinstance(v, Int):
                if v.w == ty.n: return v
                if v.w > ty.n: return Int(ty.n, v.l)
                raise Unsupported('coerce')
            if isinstance(v, Fl): return Int(ty.n, s.flbits(v, ty.n))
            return s.asint(st, v, ty.n)
        if ty.k == 'f':
            if isinstance(v, Fl): return v
            if isinstance(v, Int) and v.w == ty.n: return Fl(s.nu(st, v))
            raise Unsupported('float load')
        return v
    # floating point: values are bit patterns, operations are fixed but arbitrary functions of them
    def flbits(s, v, n):
        if isinstance(v.v, Lin): return v.v
        import struct
        x = v.v
        if isinstance(x, str):
            if x.startswith('0x'):
                if not x[2].isdigit() and x[2] not in 'abcdefABCDEF': raise Unsupported('floating-point type')
                x = struct.unpack('>d', bytes.fromhex(x[2:].zfill(16)))[0]
            else: x = float(x)
        return Lin(int.from_bytes(struct.pack('>d' if n == 64 else '>f', x), 'big'))
    def flop(s, op, n, *a): return Fl(uf('%s_f%d' % (op, n), list(a), 0, (1 << n) - 1))
    def tobool(s, st, v):
        if isinstance(v, B): return v.e
        if isinstance(v, Int):
            if bitw.on() and bitw.hasop(v.l): return bitw.bits(v.l, K(0), 1)
            return Not(eq0(modc(v.l, 2)))
        if v is Undef:
            s.prove(st, False, s.ob_here(st, 'no use of uninitialised value'), 'decision on an uninitialised value')
        raise Unsupported('bool of %r' % v)
    def store(s, st, p, v, ty):
        if ty.k == 's':
            offs, _ = s.m.slay(ty)
            for o, e, x in zip(offs, ty.e, v.v if v is not Undef else [Undef]*len(ty.e)): s.store(st, Ptr(p.r, addc(p.o, o)), x, e)
            return
        if ty.k in ('a', 'v'):
            n = s.m.size(ty.e)
            for i in range(ty.n): s.store(st, Ptr(p.r, addc(p.o, i*n)), v.v[i] if v is not Undef else Undef, ty.e)
            return
        if ty.k == 'i' and ty.n in (24, 40, 48, 56):
            o = 0
            for k in (4, 2, 1):
                if ty.n // 8 - o < k: continue
                x = Undef if v is Undef else Int(8*k, modc(divc(s.nu(st, v), 1 << 8*o), 1 << 8*k) if o else modc(s.nu(st, v), 1 << 8*k))
                s.store(st, Ptr(p.r, addc(p.o, o)), x, ir.Ty('i', 8*k)); o += k
            return
        w = s.m.size(ty)
        if isinstance(v, B): v = Int(8*w, b2i(v.e))
        s.chk(st, p, w, 'write', True)
        s.wr(st, p.r, 'b', p.o, w, v)
    def wr(s, st, rid, plane, off, w, v):
        reg = st.mem[rid]
        np = getattr(reg, plane).write(s, st, off, w, v)
        reg = s.wreg(st, rid)
        setattr(reg, plane, np)
        if st.wlog is not None: st.wlog.append((rid, plane, off, w, v))
    def memcpy(s, st, d, so, n, what='memcpy'):
        """d, so pointers, n Lin (bytes)"""
        if n.const and n.c == 0: return
        if not n.const:
            z = s.tri(st, eq0(n))
            if z is True: return
            if z is None: raise Fork(eq0(n))
        rs = s.chk(st, so, n, what + ' source'); rd = s.chk(st, d, n, what + ' destination', True)
        src = rs.b
        if so.o not in st.reads.get(so.r, ()): st.reads[so.r] = st.reads.get(so.r, ()) + (so.o,)
        if n.const and so.o.const and d.o.const:
            a, e = so.o.c, so.o.c + n.c
            items = []
            ok = True; cov = a
            for k, (cw, v) in sorted(src.cells.items()):
                if k + cw <= a or k >= e: continue
                if k < a or k + cw > e: ok = False; break
                items.append((k, cw, v)); 
            if ok and isinstance(src.node, Base) and src.node.kind in ('uninit', 'zero'):
                pos = a; fill = []
                for k, cw, v in items:
                    if k > pos: fill.append((pos, k-pos))
                    pos = k + cw
                if pos < e: fill.append((pos, e-pos))
                np = rd.b
                for o, ln in fill:
                    while ln > 0:
                        c = min(8, ln)
                        np = np.write(s, st, Lin(d.o.c + o - a), c, Undef if src.node.kind == 'uninit' else Int(8*c, Lin(0)))
                        if st.wlog is not None: st.wlog.append((d.r, 'b', Lin(d.o.c + o - a), c, Undef if src.node.kind == 'uninit' else Int(8*c, Lin(0))))
                        o += c; ln -= c
                for k, cw, v in items:
                    np = np.write(s, st, Lin(d.o.c + k - a), cw, v)
                    if st.wlog is not None: st.wlog.append((d.r, 'b', Lin(d.o.c + k - a), cw, v))
                s.wreg(st, d.r).b = np
                return
        if n.const and n.c in (1, 2, 4, 8) and not (st.wlog is not None and 1 < grain(src) < n.c):
            try:
                v = src.read(s, st, so.o, n.c)
                s.wr(st, d.r, 'b', d.o, n.c, v)
                return
            except Unsupported: pass
        if n.const and n.c <= 256 and st.wlog is not None:
            # inside a loop: as individual cells, so that the loop can be summarised
            g = max(grain(src), grain(rd.b))
            if g == 1 and n.c % 4 == 0: g = 4
            if n.c % g == 0:
                vs = [src.read(s, st, addc(so.o, i), g) for i in range(0, n.c, g)]
                for i, v in enumerate(vs): s.wr(st, d.r, 'b', addc(d.o, i*g), g, v)
                return
        np = rd.b.flush(s, st, d.o, n)
        np.node = Copy(np.node, d.o, n, src, so.o)
        s.wreg(st, d.r).b = np
        if st.wlog is not None: st.wlog.append((d.r, 'b', d.o, None, ('copy', n)))
    def memset(s, st, d, byte, n):
        if n.const and n.c == 0: return
        if not n.const:
            z = s.tri(st, eq0(n))
            if z is True: return
            if z is None: raise Fork(eq0(n))
        rd = s.chk(st, d, n, 'memset', True)
        if n.const and d.o.const and byte.const and n.c <= 96:
            o = d.o.c; ln = n.c
            while ln > 0:
                c = 8 if ln >= 8 else 4 if ln >= 4 else 2 if ln >= 2 else 1
                m = 0
                for k in range(c): m |= (byte.c & 255) << (8*k)
                s.wr(st, d.r, 'b', Lin(o), c, Int(8*c, Lin(m))); o += c; ln -= c
            return
        np = rd.b.flush(s, st, d.o, n)
        np.node = Fill(np.node, d.o, n, modc(byte, 256))
        s.wreg(st, d.r).b = np
        if st.wlog is not None: st.wlog.append((d.r, 'b', d.o, None, ('fill', n)))
    # lifetime plane
    def life_res(s, st, rid, off, w):
        reg = st.mem[rid]
        if reg.res is None:
            r = modc(off, w)
            if not r.const:
                if s.opts.get('trace'): print('   [life] irregular offset', off, 'in', reg.name)
                return
            reg = s.wreg(st, rid); reg.res = (w, r.c)
        elif reg.res[0] != w:
            reg = s.wreg(st, rid); reg.res = (0, 0)   # heterogeneous
    def alive(s, st, p, w):
        reg = st.mem[p.r]
        if not reg.live: return Int(32, Lin(0))
        v = reg.a.read(s, st, p.o, 4)
        rs = st.reads.get(('a', p.r), ())
        if p.o not in rs and len(rs) < 40: st.reads[('a', p.r)] = rs + (p.o,)
        return v
    def isalive(s, st, p, w): return Not(eq0(s.nu(st, s.alive(st, p, w))))
    def free_region(s, st, rid, what):
        reg = st.mem[rid]
        s.prove(st, reg.live, s.ob_here(st, 'block released exactly once'), '%s: double release of %s' % (what, reg.name))
        s.none_alive(st, rid, what)
        reg = s.wreg(st, rid); reg.live = False
    def none_alive(s, st, rid, what):
        reg = st.mem[rid]
        if not reg.a.cells and isinstance(reg.a.node, Base): return
        w, c0 = reg.res or (0, 0)
        if w:
            k = var('slot', 0, None)
            o = addc(scale(k, w), c0)
            cl = st.clone() if False else st
            inb = And(le(K(0), o), le(addc(o, w), reg.size))
            st2 = st.clone()
            if inb is not True: s.assume(st2, zb(inb))
            while True:
                try:
                    v = s.alive(st2, Ptr(rid, o), w)
                    s.prove(st2, eq0(s.nu(st2, v)), s.ob_here(st, 'no live element in released storage'), '%s: storage %s released with live elements' % (what, reg.name), fatal=False)
                    break
                except Fork as fk:
                    # split the universally quantified slot
                    for c in (fk.cond, Not(fk.cond)):
                        st3 = st2.clone(); s.assume(st3, zb(c))
                        try:
                            v = s.alive(st3, Ptr(rid, o), w)
                            s.prove(st3, eq0(s.nu(st3, v)), s.ob_here(st, 'no live element in released storage'), '%s' % what, fatal=False)
                        except Fork: raise Unsupported('nested fork in none_alive')
                    break
        else:
            if not isinstance(reg.a.node, Base): raise Unsupported('lifetimes in %s are not at a regular stride' % reg.name)
            for k, (cw, v) in reg.a.cells.items():
                s.prove(st, eq0(s.nu(st, v)), s.ob_here(st, 'no live element in released storage'), '%s: storage %s released with live elements' % (what, reg.name), fatal=False)
            if not isinstance(reg.a.node, Base): raise Unsupported('heterogeneous lifetimes at symbolic offsets')
    # ------------------------------------------------------------ operands
    def op(s, st, o):
        k = o.k
        if k == 'l': 
            return st.frames[-1].env[o.v]
        if k == 'c':
            if o.ty.k == 'f': return Fl(o.v)
            return B(o.v != 0) if o.ty.n == 1 else Int(o.ty.n, Lin(o.v))
        if k == 'g': return s.global_ptr(st, o.v[1:].strip('"'))
        if k == 'null': return Ptr(None, Lin(0))
        if k == 'undef':
            if o.ty.k == 's': return Agg([s.op(st, ir.Op('undef', e)) for e in o.ty.e])
            return Undef
        if k == 'zero': return s.zero(o.ty)
        if k == 'gep':
            bt, args = o.v
            return s.gep(st, bt, [s.op(st, a) for a in args], args)
        if k == 'cast':
            kind, a, t2 = o.v
            v = s.op(st, a)
            return s.cast(st, kind, v, a.ty, t2)
        if k == 'bin':
            kind, a, b = o.v
            return s.binop(st, kind, s.op(st, a), s.op(st, b), o.ty, ())
        if k == 'agg': return Agg([s.op(st, e) for e in o.v])
        if k == 's': return Agg([Int(8, Lin(c)) for c in o.v])
        if k == 'fp': return Fl(o.v)
        if k == 'md': return None
        raise Unsupported('operand %s' % k)
    def gep(s, st, bt, vals, args):
        p = s.asptr(st, vals[0])
        if isinstance(p, Fn): raise Unsupported('gep on function')
        off = p.o
        i0 = s.ns(st, s.asint(st, vals[1], 64)) if vals[1] is not Undef else None
        if i0 is None: raise Unsupported('undef gep index')
        off = add(off, scale(i0, s.m.size(bt)))
        t = bt
        for v, a in zip(vals[2:], args[2:]):
            if t.k == 's':
                ix = v.l.c
                off = addc(off, s.m.slay(t)[0][ix]); t = t.e[ix]
            else:
                ii = s.ns(st, s.asint(st, v, 64))
                off = add(off, scale(ii, s.m.size(t.e))); t = t.e
        lo, hi = off.bounds()
        if lo is None or hi is None or lo < -(1 << 63) or hi >= 1 << 63: off = s.ns(st, Int(64, off))
        return Ptr(p.r, off)
    def cast(s, st, kind, v, t1, t2):
        if v is Undef: return Undef
        if kind in ('bitcast', 'addrspacecast'): 
            if t1.k == t2.k: return v
            raise Unsupported('bitcast')
        if kind == 'ptrtoint':
            if isinstance(v, Fn): return Int(64, s.fnaddr(v.n))
            return Int(t2.n, s.p2i(v))
        if kind == 'inttoptr': return s.asptr(st, v)
        if kind == 'zext':
            if isinstance(v, B): return Int(t2.n, b2i(v.e))
            return Int(t2.n, s.nu(st, v))
        if kind == 'sext':
            if isinstance(v, B): return Int(t2.n, neg(b2i(v.e)))
            return Int(t2.n, s.ns(st, v))
        if kind == 'trunc':
            if t2.n == 1: return B(s.tobool(st, v))
            return Int(t2.n, v.l)
        if kind in ('uitofp', 'sitofp', 'fptoui', 'fptosi', 'fpext', 'fptrunc'):
            if any(t.k == 'f' and t.n not in (32, 64) for t in (t1, t2)): raise Unsupported('fp conversion')
            s.assumed.add('floating-point operations are uninterpreted functions of their operands')
            if t1.k == 'f':
                x = s.flbits(v, t1.n)
                if t2.k == 'f': return s.flop('%s%d' % (kind, t1.n), t2.n, x)
                lo, hi = (0, (1 << t2.n) - 1) if kind == 'fptoui' else (-(1 << (t2.n-1)), (1 << (t2.n-1)) - 1)
                return Int(t2.n, uf('%s%d_i%d' % (kind, t1.n, t2.n), [x], lo, hi))
            x = s.ns(st, s.asint(st, v, t1.n)) if kind == 'sitofp' else s.nu(st, s.asint(st, v, t1.n))
            return s.flop('%s%d' % (kind, t1.n), t2.n, x)
        raise Unsupported('cast ' + kind)
    def binop(s, st, op, a, b, ty, fl):
        if a is Undef or b is Undef:
            return Undef
        if ty.k == 'f':
            if ty.n not in (32, 64) or not (isinstance(a, Fl) and isinstance(b, Fl)): raise Unsupported('floating point')
            s.assumed.add('floating-point operations are uninterpreted functions of their operands')
            return s.flop(op, ty.n, s.flbits(a, ty.n), s.flbits(b, ty.n))
        if ty.n == 1:
            x = s.tobool(st, a); y = s.tobool(st, b)
            if op == 'and': return B(And(x, y))
            if op == 'or': return B(Or(x, y))
            if op in ('xor', 'add', 'sub'):
                if y is True: return B(Not(x))
                if x is True: return B(Not(y))
                if y is False: return B(x)
                if x is False: return B(y)
                return B(z3.Xor(x, y))
            raise Unsupported('i1 ' + op)
        w = ty.n; m = 1 << w
        a = s.asint(st, a, w); b = s.asint(st, b, w)
        if op == 'add': r = add(a.l, b.l)
        elif op == 'sub': r = sub(a.l, b.l)
        elif op == 'mul': r = mul(a.l, b.l)
        else: r = None
        if r is not None:
            if 'nsw' in fl and not s.opts.get('nowrapchk'):
                x, y = s.ns(st, a), s.ns(st, b)
                rr = add(x, y) if op == 'add' else sub(x, y) if op == 'sub' else mul(x, y)
                s.prove(st, And(le(K(-(m >> 1)), rr), lt(rr, K(m >> 1))), s.ob_here(st, 'no signed overflow'), '%s overflows' % op)
                return Int(w, rr)
            return Int(w, r)
        if op in ('udiv', 'urem'):
            x, y = s.nu(st, a), s.nu(st, b)
            if y.const:
                if y.c == 0: s.prove(st, False, s.ob_here(st, 'no division by zero'), 'division by zero')
                if 'exact' in fl: return s.exactdiv(st, x, y.c, w)
                return Int(w, divc(x, y.c) if op == 'udiv' else modc(x, y.c))
            s.prove(st, Not(eq0(y)), s.ob_here(st, 'no division by zero'), 'division by zero')
            # x = q*y where x is a syntactic multiple
            r = s.symdiv(st, x, y)
            if r is not None: return Int(w, r if op == 'udiv' else sub(x, mul(r, y)))
            e = atom(x.z() / y.z())
            return Int(w, e if op == 'udiv' else atom(x.z() % y.z()))
        if op in ('sdiv', 'srem'):
            x, y = s.ns(st, a), s.ns(st, b)
            if not y.const:
                r = s.symdiv(st, x, y)
                if r is not None:
                    s.prove(st, Not(eq0(y)), s.ob_here(st, 'no division by zero'), 'division by zero')
                    return Int(w, r if op == 'sdiv' else sub(x, mul(r, y)))
                raise Unsupported('signed division by a variable')
            if y.c == 0: s.prove(st, False, s.ob_here(st, 'no division by zero'), 'division by zero')
            c = y.c
            if 'exact' in fl: return s.exactdiv(st, x, c, w)
            if c == -1: return Int(w, neg(x) if op == 'sdiv' else Lin(0))
            sg = 1
            if c < 0: c = -c; sg = -1
            lo, hi = x.bounds()
            if (lo is not None and lo >= 0) or s.proved(st, le(K(0), x)): q = divc(x, c)
            elif s.proved(st, le(x, K(0))): q = neg(divc(neg(x), c))
            else: q = ite(zb(le(K(0), x)), divc(x, c), neg(divc(neg(x), c)))
            if op == 'sdiv': return Int(w, scale(q, sg))
            return Int(w, sub(x, scale(q, c)))
        if bitw.on() and op in ('shl', 'lshr', 'ashr', 'and', 'or', 'xor'):
            r = s.bitop(st, op, a, b, w, fl)
            if r is not None: return r
        if op == 'shl':
            y = s.nu(st, b)
            if y.const:
                if y.c >= w: raise Unsupported('shift too far')
                return Int(w, scale(a.l, 1 << y.c))
            if 'pow2' not in s.opts:
                s.prove(st, lt(y, K(w)), s.ob_here(st, 'shift in range'), 'shift amount out of range')
                p = s.pow2(st, y, w)
                return Int(w, mul(s.nu(st, a), p))
        if op in ('lshr', 'ashr'):
            y = s.nu(st, b); x = s.nu(st, a) if op == 'lshr' else s.ns(st, a)
            if y.const:
                return Int(w, divc(x, 1 << y.c))
        if op == 'and':
            for p, q in ((a, b), (b, a)):
                if q.l.const:
                    c = q.l.c % m
                    x = s.nu(st, p)
                    if c == 0: return Int(w, Lin(0))
                    if c == m - 1: return Int(w, x)
                    if c & (c+1) == 0: return Int(w, modc(x, c+1))
                    # high mask
                    inv = m - c
                    if inv & (inv-1) == 0: return Int(w, sub(x, modc(x, inv)))
                    # contiguous field
                    lowz = (c & -c).bit_length() - 1
                    c2 = c >> lowz
                    if c2 & (c2+1) == 0: return Int(w, scale(modc(divc(x, 1 << lowz), c2+1), 1 << lowz))
        if op == 'or':
            if a.l.const and a.l.c % m == 0: return b
            if b.l.const and b.l.c % m == 0: return a
            if 'disjoint' in fl: return Int(w, add(s.nu(st, a), s.nu(st, b)))
            # ints built from b2i
            x, y = s.nu(st, a), s.nu(st, b)
            gx, bx = content(x), x.bounds()
            gy, by = content(y), y.bounds()
            for p, q, bp, gq in ((x, y, bx, gy), (y, x, by, gx)):
                # p < 2^k divides q
                if bp[1] is not None and gq and q.c % gq == 0:
                    k = 1
                    while gq % (k*2) == 0: k *= 2
                    if bp[1] < k: return Int(w, add(p, q))
        if op == 'xor':
            if b.l.const and b.l.c % m == m - 1: return Int(w, addc(neg(s.nu(st, a)), m-1))
            if b.l.const and b.l.c % m == 0: return a
            x, y = s.nu(st, a), s.nu(st, b)
            if x == y: return Int(w, Lin(0))
        x, y = s.nu(st, a), s.nu(st, b)
        if x.const and y.const:
            p, q = x.c, y.c
            if op == 'and': return Int(w, Lin(p & q))
            if op == 'or': return Int(w, Lin(p | q))
            if op == 'xor': return Int(w, Lin(p ^ q))
            if op == 'lshr': return Int(w, Lin(p >> q))
        if op == 'and' and x == y: return Int(w, x)
        if op in ('and', 'or', 'xor') and is01(x) and is01(y):
            p, q = Not(eq0(x)), Not(eq0(y))
            return Int(w, b2i(Or(p, q) if op == 'or' else And(p, q) if op == 'and' else Or(And(p, Not(q)), And(Not(p), q))))
        s.mark(st, 'bit operation ' + op)
        s.assumed.add('bit operation %s treated as an uninterpreted function (over-approximation)' % op)
        return Int(w, uf('bit_%s_%d' % (op, w), [x, y], 0, m-1))
    def bitop(s, st, op, a, b, w, fl):
        m = 1 << w; y = s.nu(st, b)
        if op in ('shl', 'lshr', 'ashr'):
            if y.const: return None
            if op == 'ashr':
                x = s.ns(st, a)
                if not ((x.bounds()[0] or -1) >= 0 or s.proved(st, le(K(0), x))): return None
                op = 'lshr'
            if not s.guess: s.prove(st, lt(y, K(w)), s.ob_here(st, 'shift in range'), 'shift amount out of range')
            x = s.nu(st, a)
            if op == 'shl':
                if x.const and x.c == 1: return Int(w, bitw.p2(y))
                if x.const and x.c == m-1: return Int(w, addc(neg(bitw.p2(y)), m))
            return Int(w, bitw.op(op, x, y, w))
        x = s.nu(st, a)
        if x.const and y.const: return None
        if op == 'xor' and y.const and y.c == m-1: return None
        if op == 'and':
            for p in (x, y):
                if p.const and (p.c & (p.c+1) == 0 or (m-p.c) & (m-p.c-1) == 0) and p.c != 1: return None
        return Int(w, bitw.op(op, x, y, w))
    def mark(s, st, why):
        """from here on the path is an over-approximation: a refutation may be spurious"""
        st.absn = st.absn | {why}
        if why not in s.abstract: s.abstract.append(why)
    def pow2(s, st, y, w):
        e = z3.IntVal(1 << (w-1))
        yz = y.z()
        for k in range(w-2, -1, -1): e = z3.If(yz == k, z3.IntVal(1 << k), e)
        return atom(e)
    def symdiv(s, st, x, y):
        """x / y where x is syntactically q*y (y a single atom)"""
        if len(y.m) != 1 or y.c != 0: return None
        ya = C.atoms[y.m[0][0]]; cy = y.m[0][1]
        if x.c != 0: return None
        q = Lin(0)
        for a, k in x.m:
            if k % cy: return None
            k //= cy
            e = C.atoms[a]
            if a == y.m[0][0]: q = addc(q, k); continue
            if e.decl().kind() == z3.Z3_OP_MUL and e.num_args() == 2:
                if e.arg(0).eq(ya): q = add(q, scale(from_z3(e.arg(1)), k)); continue
                if e.arg(1).eq(ya): q = add(q, scale(from_z3(e.arg(0)), k)); continue
            return None
        return q
    def exactdiv(s, st, x, c, w):
        q = divexact(x, c)
        if q is not None: return Int(w, q)
        if c < 0: raise Unsupported('exact division by negative')
        if s.proved(st, eq0(modc(x, c))): return Int(w, divc(x, c))
        if s.prove(st, eq0(modc(x, c)), s.ob_here(st, 'pointer difference is a multiple of the element size'), 'inexact division'): pass
        return Int(w, divc(x, c))
    def icmp(s, st, pred, a, b, ty):
        if a is Undef or b is Undef:
            if (a is Undef or b is Undef):
                s.prove(st, False, s.ob_here(st, 'no use of uninitialised value'), 'comparison of an uninitialised value')
        if isinstance(a, B) or isinstance(b, B):
            x, y = s.tobool(st, a), s.tobool(st, b)
            if pred == 'eq': return B(Not(x) if y is False else x if y is True else Not(y) if x is False else y if x is True else x == y)
            if pred == 'ne': return B(x if y is False else Not(x) if y is True else y if x is False else Not(y) if x is True else z3.Xor(x, y))
            raise Unsupported('i1 compare')
        if ty.k == 'ptr':
            a = s.asptr(st, a); b = s.asptr(st, b)
            if isinstance(a, Fn) or isinstance(b, Fn):
                if isinstance(a, Fn) and isinstance(b, Fn): r = a.n == b.n
                else: r = False
                return B(r if pred == 'eq' else not r)
            if a.r != b.r:
                if pred in ('eq', 'ne'):
                    # distinct objects; a one-past-the-end coincidence is excluded
                    return B(pred == 'ne')
                x, y = s.nu(st, Int(64, s.p2i(a))), s.nu(st, Int(64, s.p2i(b)))
            else:
                x, y = a.o, b.o
                if a.r is not None and pred not in ('eq', 'ne'):
                    for z in (x, y):
                        lo, hi = z.bounds()
                        if lo is None or hi is None or lo < -4096 or hi > 1 << 60:
                            if not s.proved(st, And(le(K(-4096), z), le(z, K(1 << 60)))):
                                x, y = s.nu(st, Int(64, s.p2i(a))), s.nu(st, Int(64, s.p2i(b))); break
            if st.cmps is not None: st.cmps.append((a.o, b.o) if a.r == b.r else (x, y))
        else:
            w = ty.n
            a = s.asint(st, a, w); b = s.asint(st, b, w)
            if st.cmps is not None: st.cmps.append((a.l, b.l))
            if bitw.on() and pred in ('eq', 'ne') and w in (8, 16, 32, 64):
                x, y = s.nu(st, a), s.nu(st, b)
                if y.const and y.c == 0 and len(x.m) == 1 and x.c == 0 and x.m[0][1] == 1 and x.m[0][0] not in C.b2i:
                    e = C.atoms[x.m[0][0]]       # [bit set] ? 2^j : 0
                    if e.decl().kind() == z3.Z3_OP_ITE and z3.is_int_value(e.arg(2)) and e.arg(2).as_long() == 0 and (zbounds(e.arg(1))[0] or 0) > 0:
                        return B(Not(e.arg(0)) if pred == 'eq' else e.arg(0))
                if x.bounds()[1] == 1 and y.bounds()[1] == 1: pass
                elif bitw.hasop(x) or bitw.hasop(y) or y.const and (y.c == (1 << w) - 1 or y.c & (y.c + 1) == 0 and bitw.word(x)):
                    q = eq(x, y)
                    if not isinstance(q, bool): q = bitw.beq(x, y, w)
                    return B(q if pred == 'eq' else Not(q))
            if pred in ('eq', 'ne'):
                # equality of residues
                d = sub(a.l, b.l); lo, hi = d.bounds(); m = 1 << w
                if lo is not None and hi is not None and lo > -m and hi < m: x, y = a.l, b.l
                elif s.proved(st, And(lt(K(-m), d), lt(d, K(m)))): x, y = a.l, b.l
                else: x, y = s.nu(st, a), s.nu(st, b)
            elif pred[0] == 'u': x, y = s.nu(st, a), s.nu(st, b)
            else: x, y = s.ns(st, a), s.ns(st, b)
        if pred == 'eq': return B(eq(x, y))
        if pred == 'ne': return B(Not(eq(x, y)))
        p = pred[1:]
        if p == 'lt': return B(lt(x, y))
        if p == 'le': return B(le(x, y))
        if p == 'gt': return B(lt(y, x))
        return B(le(y, x))
    # ------------------------------------------------------------ execution
    def call_harness(s, name):
        st = State()
        f = s.m.func(name)
        fr = s.frame(f, [], None); st.frames.append(fr)
        outs = s.explore([st], None)
        return outs
    def frame(s, f, args, inst):
        fr = Frame(); fr.f = f; fr.blk = f.entry; fr.prev = None; fr.i = 0; fr.env = {}; fr.inst = inst; fr.allocas = (); fr.va = None; fr.jump = None
        for (t, n), v in zip(f.params, args): fr.env[n] = v
        if 'itlib' in s.dn(f.name) and not s.mute: s.funcs_used[f.name] = s.funcs_used.get(f.name, 0) + 1
        return fr
    def explore(s, work, loop):
        """run states depth-first. loop = None or LoopCtx: states that take the back edge or leave the loop
        are collected in loop.backs / loop.exits instead of continuing. Returns finished states (loop is None)."""
        work = list(work)[::-1]
        done = []
        while work:
            if time.time() > s.deadline: raise Budget()
            st = work.pop(); s.lastst = st
            try:
                r = s.run(st, loop)
            except Fork as fk:
                st2 = st.clone()
                if isinstance(fk.cond, bool): raise Unsupported('degenerate fork')
                both = fk.cond.get_id() in s.both
                for x, c in ((st2, Not(fk.cond)), (st, fk.cond)):
                    try:
                        s.assume(x, zb(c))
                        if both: x.feas = True
                        x.forks += 1
                        if x.forks > 4000: raise Unsupported('too many forks on one path')
                        if s.feasible(x): work.append(x)
                    except PathEnd: pass
                continue
            except PathEnd:
                continue
            except Unsupported:
                st.model = None
                if s._check(st, want=False) == z3.unsat: continue      # the path is not feasible at all
                raise
            if r is None: continue
            if r == 'done':
                done.append(st); s.npaths += 1
                continue
            if isinstance(r, list): work.extend(r[::-1])
        return done
    def run(s, st, loop):
        """run until the path ends, forks (list of states) or is collected by the loop"""
        while True:
            if loop is not None and loop.check(s, st): return None
            fr = st.frames[-1]
            if fr.jump is not None:
                r = s.enter(st, loop)
                if r is not None: return r
                continue
            ins = fr.f.blocks[fr.blk].insts[fr.i]
            st.pendi = 0
            r = s.step(st, fr, ins)
            if st.pend: st.pend = {}
            if r is not None:
                if r == 'next': continue
                return r
            fr = st.frames[-1]
    def jump(s, st, fr, dst):
        fr.jump = dst
    def enter(s, st, loop):
        """perform a pending jump: evaluates phis, detects loop headers"""
        fr = st.frames[-1]
        dst = fr.jump
        f = fr.f
        loops = ir.loops_of(f)
        if dst in loops:
            body = loops[dst]
            if not (loop is not None and loop.depth == len(st.frames) and loop.header == dst and loop.f is f) :
                if fr.blk not in body or True:
                    return s.do_loop(st, dst, body, loop)
        s.phis(st, fr, dst)
        return None
    def phis(s, st, fr, dst):
        b = fr.f.blocks[dst]
        if b.phis:
            vals = []
            for ph in b.phis:
                for v, l in ph.x['in']:
                    if l == fr.blk:
                        vals.append((ph.res, s.op(st, v))); break
                else: raise Unsupported('phi without incoming edge')
            for r, v in vals: fr.env[r] = v
        fr.prev = fr.blk; fr.blk = dst; fr.i = 0; fr.jump = None
    def step(s, st, fr, ins):
        op = ins.op
        m = s.DISP.get(op)
        if m is None: raise Unsupported('instruction ' + op)
        return m(s, st, fr, ins)
    def setr(s, fr, ins, v):
        if ins.res is not None: fr.env[ins.res] = v
        fr.i += 1
    def speculated(s, fr, ins):
        """the optimiser may compute a value whether or not it is needed, and select later: the conditions under which
        this one is used, or None when it is not like that"""
        f = fr.f
        us = s.users.get(f.name)
        if us is None:
            us = s.users[f.name] = {}
            for b in f.blocks.values():
                for i in list(b.phis) + list(b.insts):
                    for o in i.a:
                        if isinstance(o, ir.Op) and o.k == 'l': us.setdefault(o.v, []).append(i)
                        elif isinstance(o, tuple):
                            for q in o:
                                if isinstance(q, ir.Op) and q.k == 'l': us.setdefault(q.v, []).append(i)
        here = set(map(id, fr.blk_insts)) if hasattr(fr, 'blk_insts') else {id(i) for i in f.blocks[fr.blk].insts}
        out = []; todo = [ins]; seen = set()
        while todo:
            x = todo.pop()
            if id(x) in seen: continue
            seen.add(id(x))
            if not us.get(x.res): return None
            for u in us[x.res]:
                if id(u) not in here: return None
                if u.op == 'select':
                    c, a, b = u.a
                    def uses(o): return o.k == 'l' and o.v == x.res
                    if uses(c) or uses(a) and uses(b) or c.k != 'l' or c.v not in fr.env: return None
                    out.append((fr.env[c.v], uses(a)))
                elif u.op in ir.BIN and u.op not in ('sdiv', 'udiv', 'srem', 'urem') or u.op in ('icmp', 'trunc', 'zext', 'sext'): todo.append(u)
                else: return None
        return out
    def i_bin(s, st, fr, ins):
        a = s.op(st, ins.a[0]); b = s.op(st, ins.a[1])
        if ('nsw' in ins.x['fl'] or bitw.on() and ins.op in ('shl', 'lshr', 'ashr')) and ins.ty.k == 'i' and a is not Undef and b is not Undef and not (isinstance(a, Int) and a.l.const and isinstance(b, Int) and b.l.const):
            sp = s.speculated(fr, ins)
            if sp and not any(s.need(st, s.tobool(st, c)) == pos for c, pos in sp):
                return s.setr(fr, ins, Int(ins.ty.n, Lin(0)))
        s.setr(fr, ins, s.binop(st, ins.op, a, b, ins.ty, ins.x['fl']))
    def i_cast(s, st, fr, ins):
        s.setr(fr, ins, s.cast(st, ins.op, s.op(st, ins.a[0]), ins.a[0].ty, ins.ty))
    def i_alloca(s, st, fr, ins):
        t = ins.x['at']; n = 1
        if ins.x['n'] is not None:
            v = s.op(st, ins.x['n']).l
            if not v.const: raise Unsupported('VLA')
            n = v.c
        al = re.search(r'align (\d+)', ins.text); al = int(al.group(1)) if al else 16
        r = s.newregion(st, 'stack', '%s in %s' % (ins.res, short(s.dn(fr.f.name))), s.m.size(t)*n, max(al, 16))
        fr.allocas = fr.allocas + (r,)
        s.setr(fr, ins, Ptr(r, Lin(0)))
    def i_load(s, st, fr, ins):
        p = s.asptr(st, s.op(st, ins.a[0]))
        if ins.x['atomic'] and s.conc_atomic(st, fr, ins, p, None, 'load'): return
        try: v = s.load(st, p, ins.ty)
        except Unsupported:
            sp = s.speculated(fr, ins) if ins.ty.k == 'i' else None
            if not sp or any(s.need(st, s.tobool(st, c)) == pos for c, pos in sp): raise
            v = Int(ins.ty.n, Lin(0))
        s.setr(fr, ins, v)
    def i_store(s, st, fr, ins):
        v = s.op(st, ins.a[0]); p = s.asptr(st, s.op(st, ins.a[1]))
        if ins.x['atomic'] and s.conc_atomic(st, fr, ins, p, v, 'store'): return
        s.store(st, p, v, ins.a[0].ty)
        fr.i += 1
    def i_gep(s, st, fr, ins):
        s.setr(fr, ins, s.gep(st, ins.x['bt'], [s.op(st, a) for a in ins.a], ins.a))
    def i_icmp(s, st, fr, ins):
        a = s.op(st, ins.a[0]); b = s.op(st, ins.a[1])
        s.setr(fr, ins, s.icmp(st, ins.x['pred'], a, b, ins.a[0].ty))
    def i_select(s, st, fr, ins):
        c = s.tobool(st, s.op(st, ins.a[0])); a = s.op(st, ins.a[1]); b = s.op(st, ins.a[2])
        if isinstance(c, bool): return s.setr(fr, ins, a if c else b)
        if isinstance(a, B) or isinstance(b, B):
            x, y = s.tobool(st, a), s.tobool(st, b)
            if y is False: r = And(c, x)
            elif x is True: r = Or(c, y)
            else: r = z3.If(c, zb(x), zb(y))
            return s.setr(fr, ins, B(r))
        if same_val(a, b): return s.setr(fr, ins, a)
        t = s.need(st, c)
        s.setr(fr, ins, a if t else b)
    def i_br(s, st, fr, ins):
        if not ins.a:
            fr.jump = ins.x['dst'][0]; return
        v = s.op(st, ins.a[0])
        c = s.tobool(st, v)
        t = s.need(st, c)
        fr.jump = ins.x['dst'][0 if t else 1]
    def i_switch(s, st, fr, ins):
        v = s.asint(st, s.op(st, ins.a[0]), 64)
        if v is Undef: raise Unsupported('switch on undef')
        x = s.nu(st, v); m = 1 << v.w
        for c, d in ins.x['cases']:
            if s.need(st, eq(x, Lin(c % m))):
                fr.jump = d; return
        fr.jump = ins.x['def']
    def i_ret(s, st, fr, ins):
        v = s.op(st, ins.a[0]) if ins.a else None
        return s.do_ret(st, v)
    def pop_frame(s, st):
        fr = st.frames[-1]
        for r in fr.allocas:
            reg = st.mem[r]
            if reg.live: s.none_alive(st, r, 'end of scope of %s' % reg.name)
            if r in st.mem:
                n = s.wreg(st, r); n.live = False
        st.frames.pop()
        if st.frames: st.frames[-1] = st.frames[-1].copy()
    def do_ret(s, st, v):
        fr = st.frames[-1]
        if len(st.frames) == 1:
            s.end_harness(st, fr.f.name)
            return 'done'
        inst = fr.inst
        s.pop_frame(st)
        cf = st.frames[-1]
        if inst is None: st.ghost.pop('env', None); return      # end of the other threads' actions; the interrupted instruction runs now
        if inst.res is not None: cf.env[inst.res] = v
        if inst.op == 'invoke': cf.jump = inst.x['to']
        else: cf.i += 1
    def end_harness(s, st, name):
        if not s.mute:
            ok = st.model is not None or s.reach.get('end', 0) > 3 or s._check(st) == z3.sat
            if ok:
                s.reach['end'] = s.reach.get('end', 0) + 1
        # leak check
        if st.ghost.get('excref', 0): s.prove(st, False, 'no memory leak in %s' % name, 'a reference to an exception object is never released', fatal=False)
        for r, reg in list(st.mem.items()):
            if reg.kind == 'heap':
                s.prove(st, not reg.live, 'no memory leak in %s' % name, 'block %s is never released' % reg.name, fatal=False)
            if reg.kind == 'stack' and reg.live: s.none_alive(st, r, 'end of harness')
    def i_unreachable(s, st, fr, ins):
        s.prove(st, False, s.ob_here(st, 'unreachable code not reached'), 'unreachable instruction reached')
        raise PathEnd()
    def i_extractvalue(s, st, fr, ins):
        v = s.op(st, ins.a[0])
        for i in ins.x['idx']: v = v.v[i] if v is not Undef else Undef
        s.setr(fr, ins, v)
    def i_insertvalue(s, st, fr, ins):
        v = s.op(st, ins.a[0]); e = s.op(st, ins.a[1])
        def ins_(v, ty, idx):
            if not idx: return e
            if v is Undef:
                v = Agg([Undef]*(len(ty.e) if ty.k == 's' else ty.n))
            l = list(v.v); l[idx[0]] = ins_(l[idx[0]], ty.e[idx[0]] if ty.k == 's' else ty.e, idx[1:])
            return Agg(l)
        s.setr(fr, ins, ins_(v, ins.a[0].ty, ins.x['idx']))
    def i_freeze(s, st, fr, ins):
        v = s.op(st, ins.a[0])
        if v is Undef and ins.ty.k == 'i':
            v = Int(ins.ty.n, var('frozen', 0, (1 << ins.ty.n)-1)) if ins.ty.n > 1 else B(s.freshbool('frozen'))
        s.setr(fr, ins, v)
    def freshbool(s, nm):
        return Not(eq0(var(nm, 0, 1)))
    def pvar(s, st, nm, lo=None, hi=None):
        """a fresh symbol that stays the same when the current instruction is re-executed after a fork"""
        i = st.pendi; st.pendi += 1
        v = st.pend.get(i)
        if v is None: v = st.pend[i] = var(nm, lo, hi)
        return v
    def choice(s, st, nm):
        return s.need(st, Not(eq0(s.pvar(st, nm, 0, 1))))
    def i_fence(s, st, fr, ins): fr.i += 1
    def i_atomicrmw(s, st, fr, ins):
        p = s.asptr(st, s.op(st, ins.a[0])); v = s.op(st, ins.a[1])
        if s.conc_atomic(st, fr, ins, p, v, 'rmw'): return
        old = s.load(st, p, ins.ty)
        rop = ins.x['rop']
        if rop == 'xchg': new = v
        else:
            if rop in ('add', 'sub', 'and', 'or', 'xor'): new = s.binop(st, rop, old, v, ins.ty, ())
            else: raise Unsupported('atomicrmw ' + rop)
        if isinstance(new, Int): new = Int(new.w, s.nu(st, new))
        s.store(st, p, new, ins.ty)
        s.setr(fr, ins, old)
    def i_cmpxchg(s, st, fr, ins):
        p = s.asptr(st, s.op(st, ins.a[0])); c = s.op(st, ins.a[1]); n = s.op(st, ins.a[2])
        if s.conc_atomic(st, fr, ins, p, n, 'cmpxchg'): return
        old = s.load(st, p, ins.ty)
        e = s.icmp(st, 'eq', old, c, ins.ty).e
        t = s.need(st, e)                                       # memory not shared: a retry after a spurious failure changes nothing
        if t: s.store(st, p, n, ins.ty)
        s.setr(fr, ins, Agg([old, B(t)]))
    def i_phi(s, st, fr, ins): raise Unsupported('phi')
    # exceptions
    def i_landingpad(s, st, fr, ins):
        ti, ptr = st.exc
        st.exc = None
        sel = Lin(0)
        for kind, o in ins.x['cl']:
            if kind != 'catch': raise Unsupported('filter')
            if s.catches(o, ti):
                sel = Lin(s.typeid(o)); break
        s.setr(fr, ins, Agg([ptr, Int(32, sel)]))
    def tname(s, o):
        if o.k == 'null': return None
        if o.k == 'g': return o.v[1:].strip('"')
        raise Unsupported('typeinfo operand')
    def typeid(s, o):
        n = s.tname(o)
        d = s.__dict__.setdefault('_tids', {})
        return d.setdefault(n, len(d)+1)
    BASES = {'_ZTISt12out_of_range': '_ZTISt11logic_error', '_ZTISt12length_error': '_ZTISt11logic_error', '_ZTISt16invalid_argument': '_ZTISt11logic_error', '_ZTISt11logic_error': '_ZTISt9exception',
             '_ZTISt13runtime_error': '_ZTISt9exception', '_ZTISt9bad_alloc': '_ZTISt9exception', '_ZTISt20bad_array_new_length': '_ZTISt9bad_alloc', '_ZTISt8bad_cast': '_ZTISt9exception', '_ZTISt17bad_function_call': '_ZTISt9exception',
             '_ZTISt12bad_weak_ptr': '_ZTISt9exception', '_ZTISt12system_error': '_ZTISt13runtime_error'}
    def catches(s, o, ti):
        n = s.tname(o)
        if n is None: return True
        seen = 0
        while ti is not None and seen < 20:
            if ti == n: return True
            b = s.BASES.get(ti)
            if b is None and ti in s.m.globals:
                g = s.m.glob(ti)
                b = None
                if g[1] is not None and g[1].k == 'agg' and len(g[1].v) == 3 and g[1].v[2].k == 'g': b = g[1].v[2].v[1:].strip('"')
            ti = b; seen += 1
        return False
    def throw(s, st, ti, ptr):
        """unwind"""
        first = True
        while True:
            fr = st.frames[-1]
            ins = fr.f.blocks[fr.blk].insts[fr.i]
            if ins.op == 'invoke':
                lpb = fr.f.blocks[ins.x['unw']]
                lp = lpb.insts[0]
                if lp.op != 'landingpad': raise Unsupported('no landingpad')
                if lp.x['cleanup'] or any(s.catches(o, ti) for _, o in lp.x['cl']):
                    st.exc = (ti, ptr)
                    fr.jump = ins.x['unw']
                    return
            if 'nounwind' in fr.f.attrs and len(st.frames) > 1 and False: pass
            if len(st.frames) == 1:
                s.prove(st, False, 'no exception escapes in %s' % fr.f.name, 'uncaught exception of type %s' % ti)
                raise PathEnd()
            s.pop_frame(st)
    def i_resume(s, st, fr, ins):
        v = s.op(st, ins.a[0])
        ptr = v.v[0]
        return s.resume(st, st.excs[ptr.r], ptr)
    def resume(s, st, ti, ptr):
        if len(st.frames) == 1:
            s.prove(st, False, 'no exception escapes in %s' % st.frames[-1].f.name, 'uncaught exception of type %s' % ti)
            raise PathEnd()
        s.pop_frame(st)
        s.throw(st, ti, ptr)
    # calls
    def i_call(s, st, fr, ins):
        co = ins.x['callee']
        if co.k == 'asm':
            raise Unsupported('inline asm')
        if co.k == 'g': n = co.v[1:].strip('"'); n = s.m.aliases.get(n, n)
        else:
            v = s.op(st, co)
            if not isinstance(v, Fn):
                if isinstance(v, Ptr) and v.r is None:
                    s.prove(st, False, s.ob_here(st, 'valid function pointer'), 'call through null function pointer')
                raise Unsupported('call through %r' % v)
            n = v.n
        if n.startswith('llvm.'):
            import intrin, libc
            return intrin.llvm(s, st, fr, ins, n)
        h = s.intr.get(n)
        if h is None:
            import intrin, libc
            h = intrin.lookup(s, n)
            s.intr[n] = h if h is not None else False
        if h:
            snap = None
            args = [s.op(st, a) for a in ins.a]
            backup = s.snapshot(st)
            try:
                r = h(s, st, args, ins)
            except Fork:
                s.restore(st, backup); raise
            except Throw as t:
                s.throw(st, t.ti, t.ptr); return
            if r is ENTERED: return
            s.finish_call(st, fr, ins, r)
            return
        ct = st.ghost.get('contract')
        if ct is not None and ct[0] in s.dn(n) and not any(x in s.dn(n) for x in ct[1]): n = ct[2]   # the caller is checked against the callee's contract
        f = s.m.func(n)
        if f is None: raise Unsupported('call of external function %s' % s.dn(n))
        if len(st.frames) > 90: raise Unsupported('recursion too deep')
        args = [s.op(st, a) for a in ins.a]
        # byval copies
        bv = []
        for i, at in enumerate(ins.x['pat']):
            if 'byval' in at:
                n = s.m.size(at['byval']); p0 = s.asptr(st, args[i])
                bk = s.snapshot(st)
                try:
                    r = s.newregion(st, 'stack', 'by-value argument %d of %s' % (i, short(s.dn(n) if isinstance(n, str) else s.dn(f.name))), n)
                    s.memcpy(st, Ptr(r, Lin(0)), p0, Lin(n), 'argument copy')
                except Fork:
                    s.restore(st, bk); raise
                args[i] = Ptr(r, Lin(0)); bv.append(r)
        nf = s.frame(f, args[:len(f.params)], ins)
        nf.allocas = tuple(bv)
        st.frames.append(nf)
    def snapshot(s, st):
        return (dict(st.mem), list(st.pc), len(st.choices), None if st.wlog is None else len(st.wlog), dict(st.ghost), len(st.frames), st.feas)
    def restore(s, st, b):
        st.mem = b[0]; st.pc = b[1]; del st.choices[b[2]:]
        if b[3] is not None: del st.wlog[b[3]:]
        st.ghost = b[4]; del st.frames[b[5]:]; st.feas = b[6]; st.model = None
    def finish_call(s, st, fr, ins, r):
        if ins.res is not None: fr.env[ins.res] = r
        if ins.op == 'invoke': fr.jump = ins.x['to']
        else: fr.i += 1
    def enter_fn(s, st, name, args, ins):
        f = s.m.func(name)
        if f is None: raise Unsupported('call of external function %s' % s.dn(name))
        st.frames.append(s.frame(f, args, ins))
        return ENTERED
    def do_loop(s, st, header, body, outer):
        import loops
        return loops.do_loop(s, st, header, body, outer)

ENTERED = object()

def short(n):
    """compact demangled name"""
    n = re.sub(r'\[abi:[^\]]*\]', '', n)
    # strip template args and parameters
    out = []; d = 0
    i = n.find('(')
    for ch in n:
        if ch == '<' : d += 1
        if d == 0: out.append(ch)
        if ch == '>' and d > 0: d -= 1
    r = ''.join(out)
    r = re.sub(r'\(.*$', '', r) if not r.startswith('(') else r
    r = re.sub(r'\boperator$', 'operator()', r)
    return r.split(' ')[-1] if ' ' in r and 'operator' not in r else r

Exec.DISP = {'alloca': Exec.i_alloca, 'load': Exec.i_load, 'store': Exec.i_store, 'getelementptr': Exec.i_gep, 'icmp': Exec.i_icmp, 'select': Exec.i_select,
  'br': Exec.i_br, 'switch': Exec.i_switch, 'ret': Exec.i_ret, 'unreachable': Exec.i_unreachable, 'extractvalue': Exec.i_extractvalue, 'insertvalue': Exec.i_insertvalue,
  'freeze': Exec.i_freeze, 'fence': Exec.i_fence, 'atomicrmw': Exec.i_atomicrmw, 'cmpxchg': Exec.i_cmpxchg, 'landingpad': Exec.i_landingpad, 'resume': Exec.i_resume,
  'call': Exec.i_call, 'invoke': Exec.i_call, 'phi': Exec.i_phi}
for _o in ir.BIN: Exec.DISP[_o] = Exec.i_bin
for _o in ir.CAST: Exec.DISP[_o] = Exec.i_cast
