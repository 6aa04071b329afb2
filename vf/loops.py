"""Loops: unrolled while the solver decides every exit, otherwise summarised by a synthesised invariant
(closed forms for induction variables, last-writer summaries for memory, Houdini bounds, per-iteration facts)
that is then checked inductively. A guess that is not inductive is rejected, never trusted."""
import z3, ir, math
from term import *
import term as T
from mem import *
from symex import *

class LoopCtx:
    def __init__(s, depth, f, header, body): s.depth = depth; s.f = f; s.header = header; s.body = body; s.backs = []; s.exits = []
    def check(s, ex, st):
        n = len(st.frames)
        if n > s.depth: return False
        if n < s.depth: s.exits.append(st); return True
        fr = st.frames[-1]
        if fr.jump is not None:
            if fr.jump == s.header: s.backs.append(st); return True
            if fr.jump not in s.body: s.exits.append(st); return True
        return False

def body_once(ex, st, header, body):
    c = LoopCtx(len(st.frames), st.frames[-1].f, header, body)
    ex.explore([st], c)
    return c.backs, c.exits

def dbg(ex, *a):
    if ex.opts.get('trace'): print('   [loop]', *a)

def do_loop(ex, st, header, body, outer):
    fr = st.frames[-1]
    lname = '%s loop' % short(ex.dn(fr.f.name))
    ex.phis(st, fr, header)
    cur = [st]; out = []; n = 0
    while cur:
        nxt = []
        for s in cur:
            nf = len(ex.fails)
            s0 = s.clone(); s0.wlog = [] ; 
            if s0.rlog is None: pass
            backs, exits = body_once(ex, s0, header, body)
            if not backs or not exits:
                for b in exits: b.wlog = None if s.wlog is None else s.wlog + b.wlog
                out += exits
                if backs:
                    if n == 0 and ex.opts.get('eager') and any(not sub(x, y).const for b in backs for x, y in (b.cmps or [])):
                        try:        # the first iteration always happens, but the number of iterations is not known
                            r = synth(ex, s, backs, header, body, lname)
                            del out[len(out)-len(exits):]
                            out += r; continue
                        except SynthFail: pass
                    if n in (20, 45):    # far from an exit: summarise instead
                        try:
                            out += synth(ex, s, backs, header, body, lname); continue
                        except SynthFail: pass
                    if n >= ex.MAXUNROLL: raise Unsupported('%s: unrolled %d times without deciding its exit' % (lname, n))
                    for b in backs:
                        b.wlog = None if s.wlog is None else s.wlog + b.wlog
                        ex.phis(b, b.frames[-1], header)
                        nxt.append(b)
                continue
            try:
                r = synth(ex, s, backs, header, body, lname)
                out += r
            except SynthFail as e:
                dbg(ex, lname, 'synthesis failed:', e)
                if len(cur) > 60 or n >= ex.opts.get('unroll', 12): raise Unsupported('%s: no invariant found (%s)' % (lname, e))
                # maybe a small loop: unroll (sound; gives up if it does not end)
                for b in exits: b.wlog = None if s.wlog is None else s.wlog + b.wlog
                out += exits
                for b in backs:
                    b.wlog = None if s.wlog is None else s.wlog + b.wlog
                    ex.phis(b, b.frames[-1], header)
                    nxt.append(b)
        cur = nxt; n += 1
    return out

def phi_vals(ex, b, header):
    """values of the header phis when arriving over the back edge"""
    fr = b.frames[-1]
    r = {}
    for ph in fr.f.blocks[header].phis:
        for v, l in ph.x['in']:
            if l == fr.blk: r[ph.res] = ex.op(b, v); break
    return r

def delta(a, b):
    """difference b-a where it is constant or made of plain symbols, else None"""
    def sym(d):
        if d.const: return d.c
        return d if all(z3.is_const(C.atoms[x]) for x, _ in d.m) else None
    if isinstance(a, Int) and isinstance(b, Int) and a.w == b.w:
        return sym(sub(b.l, a.l))
    if isinstance(a, Ptr) and isinstance(b, Ptr) and a.r == b.r:
        return sym(sub(b.o, a.o))
    return 0 if same_val(a, b) else None

def closed1(v, d):
    if not isinstance(d, Lin): d = Lin(d)
    return Int(v.w, add(v.l, d)) if isinstance(v, Int) else Ptr(v.r, add(v.o, d))
def contains(l, e):
    """does Lin l mention z3 const e other than as a plain linear atom"""
    i = e.get_id()
    for a, _ in l.m:
        x = C.atoms[a]
        if x.get_id() == i: continue
        if mentions(x, i): return True
    return False
def newer(x, cnt, but=None):
    """does x mention a symbol made after the counter stood at cnt (a choice made within one iteration)"""
    st = [x]; seen = set()
    while st:
        y = st.pop()
        if y.get_id() in seen: continue
        seen.add(y.get_id())
        if but is not None and y.eq(but): continue
        if z3.is_app(y):
            if y.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                n = y.decl().name().rpartition('!')[2]
                if n.isdigit() and int(n) > cnt: return True
            st.extend(y.children())
    return False
def mentions(x, i):
    st = [x]; seen = set()
    while st:
        y = st.pop()
        if y.get_id() == i: return True
        if y.get_id() in seen: continue
        seen.add(y.get_id()); st.extend(y.children())
    return False

def synth(ex, s0, backs, header, body, lname):
    fr0 = s0.frames[-1]
    f = fr0.f
    phis = [p.res for p in f.blocks[header].phis]
    C.cnt += 1
    tn = 't!%d' % C.cnt
    C.declb[tn] = (0, None)
    tv = z3.Int(tn); tl = atom(tv); ta = tl.m[0][0]
    def chk_regions(b):
        for r, reg in b.mem.items():
            o = s0.mem.get(r)
            if o is None:
                if reg.live and reg.kind == 'heap': raise SynthFail('the body allocates memory that outlives the iteration')
            elif o.live != reg.live: raise SynthFail('the body releases memory')
        if b.caught != s0.caught or b.exc is not None: raise SynthFail('exception state changes')
        for k in set(b.ghost) | set(s0.ghost):
            if k != 'inflight' and b.ghost.get(k) != s0.ghost.get(k): raise SynthFail('ghost state %s changes' % k)
    # scalars: key -> (initial value, closed form delta or 'irr')
    init = {}
    kind = {}
    for p in phis: init[('phi', p)] = fr0.env[p]
    def cellval(st, rid, pl, off, w):
        return getattr(st.mem[rid], pl).read(ex, st, Lin(off), w)
    for b in backs:
        chk_regions(b)
        for rid, pl, off, w, v in b.wlog:
            if rid not in s0.mem: continue
            if off.const and w is not None: init.setdefault(('cell', rid, pl, off.c, w), None)
    drop = []
    for k in init:
        if k[0] == 'cell':
            try: init[k] = cellval(s0, *k[1:])
            except (Unsupported, Fork): init[k] = Undef
    def backval(b, k, pv):
        if k[0] == 'phi': return pv[k[1]]
        return cellval(b, *k[1:])
    for k in init:
        ds = set(); unk = []; lins = []
        for b in backs:
            try:
                bv = backval(b, k, phi_vals(ex, b, header)); d = delta(init[k], bv)
                if d is None: unk.append((b, bv))
                elif isinstance(d, Lin): lins.append((b, bv, d))
                else: ds.add(d)
            except (Unsupported, Fork): ds.add(None)
        if lins:    # a step that is not a constant on its face
            if not ds and not unk: ds.add(lins[0][2]); lins = lins[1:]
            unk += [(b, bv) for b, bv, d in lins]
        if unk:     # the same step where the path decides the value
            if len(ds) == 1 and None not in ds and isinstance(init[k], (Int, Ptr)):
                d = next(iter(ds)); v = init[k]
                w = closed1(v, d)
                if not all(eqval(ex, b, bv, w) for b, bv in unk): ds.add(None)
            else: ds.add(None)
        if len(ds) == 1 and None not in ds: kind[k] = ds.pop()
        else: kind[k] = 'irr'
    sites = []; D = None; reads = []; cands = []; dropped = set()
    bcands = []; bdropped = set()      # boolean candidates: "unchanged so far, or what its last update was guarded by"
    irr = {}   # key -> (value at t, atom expr)
    def irrval(k):
        if k in irr: return irr[k]
        v = init[k]
        C.cnt += 1
        fname = 'x!%d' % C.cnt
        args = list(C.ts) + [tv]
        F = z3.Function(fname, *([z3.IntSort()]*(len(args)+1)))
        e = F(*args)
        if isinstance(v, Int):
            C.declb[fname] = (0, (1 << v.w) - 1); val = Int(v.w, atom(e))
        elif isinstance(v, Ptr) and v.r is not None:
            C.declb[fname] = (None, None)
            # keep the element stride: offset = initial + g * x
            g = 1
            ds = set()
            for b in backs:
                x = backval(b, k, phi_vals(ex, b, header))
                if not isinstance(x, Ptr) or x.r != v.r: raise SynthFail('pointer changes object')
                d = sub(x.o, v.o); 
                ds.add(math.gcd(content(d), d.c) if True else 0)
            g = 0
            for d in ds: g = math.gcd(g, d)
            g = g or 1
            val = Ptr(v.r, add(v.o, scale(atom(e), g)))
        elif isinstance(v, B):
            C.declb[fname] = (0, 1); val = B(Not(eq0(atom(e))))
        elif v is Undef and k[0] == 'cell':
            C.declb[fname] = (0, (1 << 8*k[4]) - 1); val = Int(8*k[4], atom(e))
        else: raise SynthFail('irregular variable %s %r' % (k, v))
        irr[k] = (val, e, F)
        return irr[k]
    def closed(k, t):
        v = init[k]; d = kind[k]
        if d == 0: return v
        td = mul(t, d) if isinstance(d, Lin) else scale(t, d)
        if isinstance(v, Int): return Int(v.w, add(v.l, td))
        return Ptr(v.r, add(v.o, td))
    def generic(with_cands, guess=False):
        st = s0.clone()
        st.model = None
        if irr: ex.mark(st, 'loop invariant of ' + lname)
        ex.assume(st, tv >= 0)
        for L in with_cands:
            c = le0(L)
            if not isinstance(c, bool): ex.assume(st, c)
        for c in bcands: ex.assume(st, c)
        # array summaries first
        byreg = {}
        for g, rid, pl, off, w, v in sites: byreg.setdefault((rid, pl), []).append((g, off, w, v))
        for (rid, pl), ss in byreg.items():
            p = getattr(st.mem[rid], pl)
            # flush cells that the loop may touch
            for g, off, w, v in ss:
                C.cnt += 1
                sv = z3.Int('s!%d' % C.cnt); C.declb['s!%d' % C.cnt] = (0, None)
                so = subst(off, [(tv, sv)])
                st2 = st.clone(); ex.assume(st2, atom(sv).z() >= 0); ex.assume(st2, sv < tv)
                for cond in with_cands: 
                    c1 = le0(subst(cond, [(tv, sv)]))
                    if not isinstance(c1, bool): ex.assume(st2, c1)
                cells = dict(p.cells); node = p.node
                for kk, (cw, cv) in sorted(p.cells.items()):
                    dis = Or(le(Lin(kk+cw), so), le(addc(so, w), Lin(kk)))
                    if dis is True: continue
                    if dis is not False and ex.proved(st2, dis): continue
                    if ('cell', rid, pl, kk, cw) in init:
                        if guess: continue      # the bounds that keep them apart are not known yet
                        raise SynthFail('loop-written array may overlap a loop-updated cell')
                    node = Store(node, Lin(kk), cw, cv); del cells[kk]
                p = Plane(node, cells)
            p = Plane(LoopW(p.node, tl, tv, ss), p.cells)
            reg = ex.wreg(st, rid); setattr(reg, pl, p)
        for k in acc:
            rid, pl, off, w = k
            reg = ex.wreg(st, rid); setattr(reg, pl, getattr(reg, pl).write(ex, st, off, w, accval(k, tv)))
        for (rid, pl), (k, A, w, ss) in filt.items():
            if k not in irr: continue
            e = irr[k][1]
            p = getattr(st.mem[rid], pl)
            p = p.flush(ex, st, add(A, scale(irrinit(k), w)), scale(sub(atom(e), irrinit(k)), w))
            reg = ex.wreg(st, rid); setattr(reg, pl, Plane(FilterW(p.node, tl, tv, A, w, e, irrinit(k), ss, invs.setdefault(k, inverse()), D), p.cells))
        fr = st.frames[-1]
        for k in init:
            if kind[k] == 0: v = None
            elif kind[k] == 'irr': v = irrval(k)[0]
            else: v = closed(k, tl)
            if v is None: continue
            if k[0] == 'phi': fr.env[k[1]] = v
            else:
                _, rid, pl, off, w = k
                reg = ex.wreg(st, rid); setattr(reg, pl, getattr(reg, pl).write(ex, st, Lin(off), w, v))
        if D is not None and not isinstance(D, bool):
            st.qfs.append(QF(tv, tl, D, list(reads), tuple(irr[k][1] for k, *_ in filt.values() if k in irr)))
        for k in irr:
            e0 = z3.substitute(irr[k][1], (tv, z3.IntVal(0)))
            iv = irrinit(k)
            if iv is not None:
                register(e0); ex.assume(st, e0 == iv.z())
        st.wlog = []; st.cmps = []; st.rlog = []
        return st
    def irrinit(k):
        v = init[k]
        if isinstance(v, Int): return ex.nu(s0, v)
        if isinstance(v, Ptr): return Lin(0)
        if isinstance(v, B): return b2i(v.e)
        return None
    def irrnew(k, nv, b):
        """Lin of the underlying irregular atom given the new value"""
        v = init[k]
        if isinstance(v, Ptr):
            val = irr[k][0]
            g = dict(val.o.m)[atom(irr[k][1]).m[0][0]]
            if not isinstance(nv, Ptr) or nv.r != v.r: raise SynthFail('pointer changes object')
            q = divexact(sub(nv.o, v.o), g)
            if q is None: raise SynthFail('irregular pointer stride')
            return q
        if isinstance(v, B): return b2i(ex.tobool(b, nv))
        if isinstance(nv, Int): return ex.nu(b, nv)
        raise SynthFail('irregular value became %r' % nv)
    def run(with_cands, st):
        C.ts.append(tv)
        try: return body_once(ex, st, header, body)
        finally: C.ts.pop()
    def at_next(L, b, pv):
        """L at the next loop head, as seen from back state b"""
        pairs = []
        tmp = []
        for k in irr:
            nv = irrnew(k, backval(b, k, pv), b)
            ph = z3.Int('ph!%d' % len(tmp)); tmp.append((ph, nv.z()))
            pairs.append((irr[k][1], ph))
        z = L.z()
        z = z3.substitute(z, *pairs) if pairs else z
        z = z3.substitute(z, (tv, tv + 1))
        z = z3.substitute(z, *tmp) if tmp else z
        return from_z3(z)
    def nextpairs(b, pv):
        pairs = []; tmp = []
        for k in irr:
            nv = irrnew(k, backval(b, k, pv), b)
            ph = z3.Int('ph!%d' % len(tmp)); tmp.append((ph, nv.z())); pairs.append((irr[k][1], ph))
        return pairs, tmp
    def bnext(c, b, pv):
        pairs, tmp = nextpairs(b, pv)
        c = z3.substitute(c, *pairs); c = z3.substitute(c, (tv, tv + 1)); c = z3.substitute(c, *tmp)
        register(c)
        return c
    def lastupdates(b, pv, npc, cnt0):
        """a variable that a path sets to e', guarded by a condition on array element e'+d: afterwards the condition
        holds of element (variable + d), unless the variable still has its initial value"""
        ks = [k for k in irr if k in init and kind[k] == 'irr' and irrinit(k) is not None and not isinstance(init[k], B)]
        nv = {k: irrnew(k, backval(b, k, pv), b) for k in ks}
        out = []
        exprs = [((k,), nv[k]) for k in ks] + [((j, k), add(nv[j], nv[k])) for n, j in enumerate(ks) for k in ks[n+1:]]
        ids = {irr[k][1].get_id(): k for k in irr}
        for c in b.pc[npc:]:
            c = zb(c)
            apps = []; seen = set(); stk = [c]
            while stk:
                y = stk.pop()
                if y.get_id() in seen: continue
                seen.add(y.get_id())
                if z3.is_app(y):
                    if y.decl().kind() == z3.Z3_OP_UNINTERPRETED and y.num_args() >= 1 and y.get_id() not in ids: apps.append(y)
                    stk.extend(y.children())
            for y in apps:
                i = y.num_args() - 1
                e = from_z3(y.arg(i))
                for kk, ne in exprs:
                    if not ne.m: continue
                    a0, v0 = ne.m[0]
                    ce = dict(e.m).get(a0)
                    if ce is None or ce % v0: continue
                    sc = ce // v0
                    d = sub(e, scale(ne, sc))
                    E = Lin(0); E0 = Lin(0)
                    for k in kk: E = add(E, atom(irr[k][1])); E0 = add(E0, irrinit(k))
                    y2 = y.decl()(*[y.arg(q) for q in range(i)], add(scale(E, sc), d).z())
                    c2 = z3.substitute(c, (y, y2))
                    if newer(c2, cnt0): continue
                    bad = False; stk = [c2]; seen = set()
                    mine = {irr[k][1].get_id() for k in kk}
                    while stk and not bad:
                        z = stk.pop()
                        if z.get_id() in seen: continue
                        seen.add(z.get_id())
                        if z.get_id() in mine: continue
                        if z.get_id() in ids or z.eq(tv): bad = True
                        stk.extend(z.children())
                    if bad: continue
                    out.append(z3.Or(zb(eq(E, E0)), c2))
        return out
    def modbounds(x, y):
        """x % c met in a comparison: x may stay below c"""
        if not bitw.on(): return []
        out = []
        for z in (x, y):
            for a, _ in z.m:
                e = C.atoms[a]
                if e.decl().kind() == z3.Z3_OP_MOD and z3.is_int_value(e.arg(1)):
                    i = from_z3(e.arg(0))
                    if dict(i.m).get(ta) is not None and not contains(i, tv): out.append(addc(i, -e.arg(1).as_long()))
        return out
    filt = {}       # appended cells: (region, plane) -> (loop variable, base, width, [(guard, value)])
    invs = {}
    def inverse():
        C.cnt += 1
        n = 'inv!%d' % C.cnt
        C.declb[n] = (0, None)
        return z3.Function(n, *([z3.IntSort()]*(len(C.ts)+2)))
    def filtupdate(new, b1, newsites):
        """the loop variable grows by one exactly when the cell at it is written"""
        out = {}
        for (rid, pl), ws in new.items():
            ks = {k for k, *_ in ws}
            if len(ks) != 1 or any((r, p) == (rid, pl) for _, r, p, *_ in newsites): raise SynthFail('mixed writes at a symbolic address')
            k, A, w = ws[0][:3]
            if any(x[1] != A or x[2] != w for x in ws): raise SynthFail('mixed writes at a symbolic address')
            if irrinit(k) is None: raise SynthFail('append without an initial position')
            wr = [x[3] for x in ws]
            if len({id(b) for b in wr}) != len(wr): raise SynthFail('two cells appended by one iteration')
            e = atom(irr[k][1])
            for b in b1:
                nv = irrnew(k, backval(b, k, phi_vals(ex, b, header)), b)
                want = addc(e, 1) if any(b is x for x in wr) else e
                if nv != want and not ex.proved(b, eq(nv, want)): raise SynthFail('not an append')
            out[(rid, pl)] = (k, A, w, [(g, v) for *_, g, v in ws])
        def same(x, y):
            return x[:3] == y[:3] and len(x[3]) == len(y[3]) and all((g is h or (not isinstance(g, bool) and not isinstance(h, bool) and g.eq(h))) and same_val(v, u) for (g, v), (h, u) in zip(x[3], y[3]))
        ch = set(out) != set(filt) or any(not same(out[k], filt[k]) for k in out)
        filt.clear(); filt.update(out)
        return ch
    acc = {}        # words at a fixed symbolic place that collect one bit per iteration: key -> (position at t=0, bit at t, name)
    def accval(k, t):
        return Int(8*k[3], atom(acc[k][2](*C.ts, t)))
    def accupdate(new, b1, npc, cnt0):
        """a word whose bit pos0+t is set to V(t) by iteration t"""
        if not new and not acc: return False
        ch = set(new) != set(acc)
        for k in list(acc):
            if k not in new: del acc[k]
        common = set.intersection(*[{zb(c).get_id() for c in b.pc[npc:]} for b in b1])
        for k, ws in new.items():
            rid, pl, off, w = k; W = 8*w
            if {id(b) for b, v in ws} != {id(b) for b in b1}: raise SynthFail('a word is written on some paths only')
            js = None; Vs = []
            for b in b1:
                v = ex.nu(b, [v for b2, v in ws if b2 is b][-1])
                j = {x for x in p2s(v)}
                js = j if js is None else js & j
            js = [j for j in js if dict(j.m).get(ta) or contains(j, tv)]
            if len(js) != 1: raise SynthFail('repeated write at a symbolic address')
            j = js[0]
            for b in b1:
                v = ex.nu(b, [v for b2, v in ws if b2 is b][-1])
                g = [zb(c) for c in b.pc[npc:] if zb(c).get_id() not in common]
                if any(newer(c, cnt0) for c in g): raise SynthFail('the bit written depends on a choice')
                Vs.append(And(*g, bitw.bits(v, j, W)))
            V = zb(Or(*Vs)); p0 = subst(j, [(tv, z3.IntVal(0))])
            old = acc.get(k)
            if old is None or old[0] != p0 or not old[1].eq(V):
                ch = True
                C.cnt += 1
                n = 'bacc!%d' % C.cnt; C.declb[n] = (0, (1 << W) - 1)
                F = z3.Function(n, *([z3.IntSort()]*(len(C.ts)+2)))
                init = ex.nu(s0, getattr(s0.mem[rid], pl).read(ex, s0, off, w))
                C.bits['acc'][n] = (list(C.ts) + [tv], p0, V, init, W)
                acc[k] = (p0, V, F)
            else:
                kk = var('k', 0, W-1, plain=True)
                for b in b1:
                    v = ex.nu(b, [v for b2, v in ws if b2 is b][-1])
                    want = bitw.bits(accval(k, tv + 1).l, kk, W)
                    if not ex.proved(b, zb(bitw.bits(v, kk, W)) == zb(want)): raise SynthFail('not a bit per iteration')
        return ch
    ex.mute += 1
    try:
        for pas in range(10):
            st = generic(cands, pas < 3)
            if pas == 0: ex.assume(st, tv <= 1 << 44)      # only while guessing: no wrap-around before the bounds are known
            if pas == 0:
                for d in kind.values():
                    if isinstance(d, Lin):
                        x = mul(tl, d).z(); ex.assume(st, z3.And(x <= 1 << 44, x >= -(1 << 44)))
            npc = len(st.pc)
            if not ex.feasible(st): raise SynthFail('generic state infeasible')
            base_reads = set()
            cnt0 = C.cnt
            og = ex.guess; ex.guess = og or pas < 3
            try: b1, e1 = run(cands, st)
            finally: ex.guess = og
            if not b1: raise SynthFail('no back edge from the generic state')
            changed = False
            # scalars
            newsites = []; newinit = {}; consts = []; newacc = {}; newfilt = {}
            for b in b1:
                chk_regions(b)
                pv = phi_vals(ex, b, header)
                g = True if len(b1) == 1 else z3.And([zb(c) for c in b.pc[npc:]]) if len(b.pc) > npc else True
                last = {}
                for rid, pl, off, w, v in b.wlog:
                    if rid not in s0.mem: continue
                    if w is None: raise SynthFail('block operation inside a loop')
                    if off.const:
                        consts.append((b, g, rid, pl, off, w, v)); continue
                    fk = [k for k in irr if kind.get(k) == 'irr' and not isinstance(init[k], B) and dict(off.m).get(atom(irr[k][1]).m[0][0]) is not None]
                    if len(fk) == 1 and not bitw.on():
                        sc = dict(off.m)[atom(irr[fk[0]][1]).m[0][0]]
                        A = sub(off, scale(atom(irr[fk[0]][1]), sc))
                        if sc == w and not contains(A, tv) and dict(A.m).get(ta) is None:
                            newfilt.setdefault((rid, pl), []).append((fk[0], A, w, b, g, v)); continue
                    if contains(off, tv) or dict(off.m).get(ta) is None:
                        if bitw.on() and isinstance(v, Int):
                            o0 = subst(off, [(tv, z3.IntVal(0))])
                            if o0 == off or ex.proved(b, zb(eq(off, o0))):
                                newacc.setdefault((rid, pl, o0, w), []).append((b, v)); continue
                            if pas < 2: changed = True; continue
                        if contains(off, tv): raise SynthFail('non-linear write address %r' % off)
                        raise SynthFail('repeated write at a symbolic address')
                    newsites.append((g, rid, pl, off, w, v))
            if (newfilt or filt) and filtupdate(newfilt, b1, newsites): changed = True
            if bitw.on() and accupdate(newacc, b1, npc, cnt0): changed = True
            for b, g, rid, pl, off, w, v in consts:
                # an element at an offset the path determines is an element of the array other paths write
                for _, r2, p2, o2, w2, _ in list(newsites):
                    if r2 == rid and p2 == pl and w2 == w and ex.proved(b, zb(eq(o2, off))):
                        newsites.append((g, rid, pl, o2, w, v)); break
                else: newinit[('cell', rid, pl, off.c, w)] = 1
            for k in list(init):
                if k[0] == 'cell' and k not in newinit:
                    if kind[k] != 0 or True:
                        # written at a constant offset only in the first iteration: it is an array element
                        del init[k]; kind.pop(k, None); irr.pop(k, None); changed = True
            for k in newinit:
                if k not in init:
                    try: init[k] = cellval(s0, *k[1:])
                    except (Unsupported, Fork): init[k] = Undef
                    kind[k] = 'irr'; changed = True
            for k in list(init):
                for b in b1:
                    pv = phi_vals(ex, b, header)
                    if kind[k] == 'irr': continue
                    nv = backval(b, k, pv)
                    want = closed(k, addc(tl, 1))
                    if not eqval(ex, b, nv, want):
                        kind[k] = 'irr'; changed = True
            if len(newsites) != len(sites) or any(not site_eq(ex, st, x, y, tv, tl) for x, y in zip(newsites, sites)): changed = True
            sites = newsites
            # per-iteration facts
            ds = []
            for b in b1:
                pv = phi_vals(ex, b, header)
                cs = [zb(c) for c in b.pc[npc:] if not newer(zb(c), cnt0)] + [zb(le0(L)) for L in cands if le0(L) is not True]
                for k in irr:
                    if k in init and kind[k] == 'irr':
                        nv = irrnew(k, backval(b, k, pv), b)
                        nx = z3.substitute(irr[k][1], (tv, tv+1)); register(nx)
                        cs.append(nx == nv.z())
                ds.append(z3.And(cs) if cs else z3.BoolVal(True))
            nD = ds[0] if len(ds) == 1 else z3.Or(ds)
            if D is None or not nD.eq(D):
                if not changed and D is not None:
                    if not all(ex.proved(b, D) for b in b1): changed = True
                    elif pas >= 6: nD = D
                    else: changed = changed or not nD.eq(D) and pas < 3
                else: changed = True
            D = nD
            nreads = []
            for b in b1:
                for rid, o in (b.rlog or []):
                    if dict(o.m).get(ta) is not None and not contains(o, tv) and (rid, o) not in nreads: nreads.append((rid, o))
            reads = nreads
            if pas == 0 or (changed and pas < 4):
                # candidate bounds
                seen = set()
                cl = []
                for b in b1 + e1:
                    for x, y in (b.cmps or []):
                        d = sub(x, y)
                        for L in modbounds(x, y):
                            if L not in seen: seen.add(L); cl.append(L)
                        symk = contains(d, tv) and any(isinstance(x, Lin) for x in kind.values())
                        if not symk and not (dict(d.m).get(ta) is not None or any(any(C.atoms[a].eq(irr[k][1]) for k in irr) for a, _ in d.m)): continue
                        if not symk and contains(d, tv) and not any(any(C.atoms[a].eq(irr[k][1]) for k in irr) for a, _ in d.m): continue
                        ad = abs(dict(d.m).get(ta) or 1)
                        for L in (d, neg(d), addc(d, -1), addc(neg(d), -1)) + ((addc(d, -ad), addc(neg(d), -ad)) if ad > 1 else ()):
                            if L not in seen: seen.add(L); cl.append(L)
                        for z in (x, y):
                            if not z.const:
                                L = neg(z)
                                if L not in seen and len(cl) < 30: seen.add(L); cl.append(L)
                for d in kind.values():
                    if isinstance(d, Lin):
                        for L in (mul(tl, d), neg(mul(tl, d)), sub(tl, mul(tl, d)), add(tl, mul(tl, d))):
                            if L not in seen: seen.add(L); cl.append(L)
                for k in irr:
                    e = atom(irr[k][1]); iv = irrinit(k)
                    if iv is None: continue
                    for L in (sub(e, iv), sub(iv, e), sub(sub(e, iv), tl), sub(sub(iv, e), tl)):
                        if L not in seen: seen.add(L); cl.append(L)
                ki = [k for k in irr if irrinit(k) is not None and not isinstance(init[k], B)]
                if 2 <= len(ki) <= 6:
                    for n, j in enumerate(ki):
                        for k in ki[n+1:]:
                            L = sub(add(atom(irr[j][1]), atom(irr[k][1])), add(irrinit(j), irrinit(k)))
                            for L in (L, neg(L)):
                                if L not in seen: seen.add(L); cl.append(L)
                # initially true?
                good = []
                for L in cl:
                    pairs = [(tv, z3.IntVal(0))]
                    z = L.z()
                    for k in irr:
                        iv = irrinit(k)
                        if iv is not None: z = z3.substitute(z, (irr[k][1], iv.z()))
                    z = from_z3(z3.substitute(z, *pairs))
                    if le0(z) is True or (le0(z) is not False and ex.proved(s0, zb(le0(z)))): good.append(L)
                good = [L for L in good if L not in dropped]
                if set(good) - set(cands) and pas < 4:
                    old = len(cands)
                    cands = list(dict.fromkeys(cands + good))
                    if pas == 0 or len(cands) != old: changed = True
            # consecution
            keep = []
            for L in cands:
                ok = True
                for b in b1:
                    pv = phi_vals(ex, b, header)
                    c = le0(at_next(L, b, pv))
                    if c is True: continue
                    if c is False or not ex.proved(b, zb(c)):
                        ok = False; break
                if ok: keep.append(L)
                elif pas == 0: keep.append(L)   # not assumed yet in this pass
                else: changed = True; dropped.add(L)
            cands = keep
            if irr and pas > 0:
                if pas < 5:
                    for b in b1:
                        for c in lastupdates(b, phi_vals(ex, b, header), npc, cnt0):
                            if len(bcands) < 24 and c.get_id() not in bdropped and not any(c.eq(o) for o in bcands):
                                C.keep.append(c); register(c); bcands.append(c); changed = True
                bk = []
                for c in bcands:
                    if all(ex.proved(b, bnext(c, b, phi_vals(ex, b, header))) for b in b1): bk.append(c)
                    else: changed = True; bdropped.add(c.get_id())
                bcands[:] = bk
            if bcands: dbg(ex, 'last-update', bcands)
            dbg(ex, lname, 'pass', pas, 'changed', changed, 'sites', len(sites), 'cands', cands, 'kinds', kind)
            if not changed and pas >= 3 and (not acc or pas >= 4) or not changed and pas > 0 and not byregs(init, sites): break
        else: raise SynthFail('no fixpoint')
    except Unsupported as e:
        raise SynthFail('unsupported in generic iteration: %s' % e)
    finally:
        ex.mute -= 1
    if bitw.on() and not C.ts:      # a small bound on the counter makes its quotients and remainders simple
        hi = None
        for L in cands:
            ca = dict(L.m).get(ta)
            if ca is None or ca <= 0 or contains(L, tv): continue
            lo = Lin(L.c, tuple(x for x in L.m if x[0] != ta)).bounds()[0]
            if lo is not None and lo <= 0 and (hi is None or -lo // ca < hi): hi = -lo // ca
        if hi is not None and hi <= 4096:
            C.declb[tn] = (0, hi); C.axioms.append(tv <= hi); tl._b = None
            C.bcache.clear(); C.zcache.clear(); C.ncache.clear()
    # final, recorded pass: all obligations of an arbitrary iteration
    nf = len(ex.fails)
    st = generic(cands)
    npc = len(st.pc)
    cnt1 = C.cnt; old = set(map(id, st.qfs))
    b1, e1 = run(cands, st)
    # termination
    term = any(dict(L.m).get(ta, 0) > 0 and not contains(L, tv) and not any(mentions(C.atoms[a], irr[k][1].get_id()) for a, _ in L.m for k in irr) for L in cands)
    if len(b1) == 1:       # quantified facts of the iteration (block comparisons): available by explicit instantiation
        nq = []
        for q in b1[0].qfs:
            if id(q) in old or newer(q.D, cnt1, q.tv): continue
            hi = q.hi
            if newer(hi.z(), cnt1):      # the iteration count of an inner loop: a bound it is known to have reached
                hi = None
                for x, y in (b1[0].cmps or []):
                    d = sub(x, y)
                    for k in (1, -1):
                        h = sub(q.hi, scale(d, k))
                        if not newer(h.z(), cnt1) and ex.proved(b1[0], eq(h, q.hi)): hi = h; break
                    if hi is not None: break
                if hi is None: continue
            nq.append(q if hi is q.hi else QF(q.tv, hi, q.D, q.reads, q.mono))
        for e in e1: e.nest = e.nest + ((tv, tl, nq),)
    if not term:
        ms = []
        for b in b1:
            for x, y in (b.cmps or []):
                for d in (sub(x, y), sub(y, x)):
                    if d not in ms: ms.append(d)
        for k in irr: ms.append(atom(irr[k][1]))
        for d in ms[:12]:
            ok = True
            for b in b1:
                try: nd = at_next(d, b, phi_vals(ex, b, header))
                except SynthFail: ok = False; break
                if not ex.proved(b, And(le(addc(nd, 1), d), le(K(0), d))): ok = False; break
            if ok: term = True; break
    key = 'loop terminates in %s' % short(ex.dn(f.name))
    if not ex.mute:
        o = ex.obl.setdefault('invariant inductive: %s' % lname, [0, 0]); o[0] += 1; o[1] += 1
        if term:
            o = ex.obl.setdefault(key, [0, 0]); o[0] += 1; o[1] += 1
        else: ex.assumed.add('termination not proved: %s' % key)
    ex.loops.setdefault(lname, set()).add('%d bounds, %d write sites%s' % (len(cands), len(sites), '' if term else ', termination open'))
    for b in b1:      # strides of lifetime slots met by the body
        for rid, reg in b.mem.items():
            if reg.res is None or rid not in s0.mem: continue
            for e in e1:
                er = e.mem.get(rid)
                if er is not None and er.res != reg.res:
                    er = ex.wreg(e, rid); er.res = reg.res if er.res is None else (0, 0)
    for e in e1:
        if irr or len(b1) > 1: ex.mark(e, 'loop invariant of ' + lname)
        e.cmps = s0.cmps if s0.cmps is None else s0.cmps + (e.cmps or [])
        e.rlog = s0.rlog if s0.rlog is None else s0.rlog + (e.rlog or [])
        if s0.wlog is not None:
            w = list(s0.wlog)
            for g, rid, pl, off, ww, v in sites: w.append((rid, pl, off, None, ('loop',)))
            for rid, pl in filt: w.append((rid, pl, filt[rid, pl][1], None, ('loop',)))
            for rid, pl, off, ww in acc: w.append((rid, pl, off, None, ('loop',)))
            for k in init:
                if k[0] == 'cell' and kind[k] != 0:
                    w.append((k[1], k[2], Lin(k[3]), k[4], cellval(e, *k[1:])))
            e.wlog = w + e.wlog
        else: e.wlog = None
    return e1

def p2s(v):
    out = set(); st = [C.atoms[a] for a, _ in v.m]; seen = set()
    while st:
        e = st.pop()
        if e.get_id() in seen: continue
        seen.add(e.get_id())
        if bitw.app(e, 'p2'): out.add(from_z3(e.arg(0)))
        elif z3.is_app(e) and e.decl().kind() == z3.Z3_OP_UNINTERPRETED and not bitw.isop(e): pass
        else: st.extend(e.children())
    return out

def byregs(init, sites):
    """do a loop-written array and a loop-updated cell share an object"""
    cs = {(k[1], k[2]) for k in init if k[0] == 'cell'}
    return any((x[1], x[2]) in cs for x in sites)

def eqval(ex, st, a, b):
    if same_val(a, b): return True
    if isinstance(a, Int) and isinstance(b, Int) and a.w == b.w:
        return ex.proved(st, zb(eq(a.l, b.l))) or ex.proved(st, zb(eq0(modc(sub(a.l, b.l), 1 << a.w))))
    if isinstance(a, Ptr) and isinstance(b, Ptr) and a.r == b.r: return ex.proved(st, zb(eq(a.o, b.o)))
    if isinstance(a, B) and isinstance(b, B): return ex.proved(st, zb(a.e) == zb(b.e))
    return False

def site_eq(ex, st, x, y, tv, tl):
    if x[1] != y[1] or x[2] != y[2] or x[4] != y[4]: return False
    if x[3] != y[3]: return False
    if not ((x[0] is True and y[0] is True) or (x[0] is not True and y[0] is not True and zb(x[0]).eq(zb(y[0])))): return False
    if same_val(x[5], y[5]): return True
    try: return eqval(ex, st, x[5], y[5])
    except Exception: return False
