"""Contracts of functions that are not part of the code under verification:
the vf_* specification primitives, the C/C++ runtime, and (by name) parts of the standard library."""
import re, z3
import ir
from term import *
from mem import *
from symex import *

MAXBYTES = 1 << 46

def cstr(ex, st, p):
    reg = st.mem[p.r]; o = p.o.c; out = b''
    while True:
        c = reg.b.read(ex, st, Lin(o), 1).l.c % 256
        if c == 0: return out.decode('latin1')
        out += bytes([c]); o += 1

def heap_alloc(ex, st, n, what, own, align=16):
    """n bytes (Lin); allocation is assumed to succeed"""
    if n.const and n.c == 0: pass
    c = And(le(K(0), n), le(n, K(MAXBYTES)))
    if c is not True: ex.assume(st, zb(c) if not isinstance(c, bool) else c)
    ex.assumed.add('memory allocation succeeds (sizes up to 2^46 bytes)')
    r = ex.newregion(st, 'heap', what, n, align)
    st.mem[r].own = own
    return Ptr(r, Lin(0))

def conc(ex, st, l):
    """the value of an integer the path determines"""
    if l.const: return l.c
    if ex._check(st) == z3.sat:
        v = ex.mdl.eval(l.z(), model_completion=True)
        if z3.is_int_value(v) and ex.proved(st, l.z() == v): return v.as_long()
    raise Unsupported('an allocator tag is not determined')

def free_ptr(ex, st, p, what, own, size=None, align=None):
    if p.r is None:
        ex.prove(st, eq(p.o, K(0)), ex.ob_here(st, 'only allocated blocks are released'), what)
        return
    reg = st.mem[p.r]
    ex.prove(st, And(reg.kind == 'heap', eq(p.o, K(0))), ex.ob_here(st, 'only allocated blocks are released'), '%s of %s+%r which is not an allocated block' % (what, reg.name, p.o))
    ex.prove(st, reg.own == own, ex.ob_here(st, 'block released by the allocator it came from'), '%s of a block from %s' % (what, reg.own))
    if size is not None: ex.prove(st, eq(size, reg.size), ex.ob_here(st, 'block released with its size'), '%s with size %r of a block of size %r' % (what, size, reg.size))
    if align is not None: ex.prove(st, align == reg.align, ex.ob_here(st, 'block released with its alignment'), '%s' % what)
    ex.free_region(st, p.r, what)

H = {}
def h(*names):
    def d(f):
        for n in names: H[n] = f
        return f
    return d

def U(ex, st, v): return ex.nu(st, v) if isinstance(v, Int) else ex.nu(st, ex.asint(st, v, 64))

# ---------------------------------------------------------------- specification primitives
@h('vf_u64')
def vf_u64(ex, st, a, ins):
    nm = cstr(ex, st, a[0]); lo = U(ex, st, a[1]); hi = U(ex, st, a[2])
    if lo.const and hi.const and lo.c == hi.c: v = lo
    else:
        v = var(nm, lo.c if lo.const else 0, hi.c if hi.const else M64-1)
        if not lo.const: ex.assume(st, le(lo, v))
        if not hi.const: ex.assume(st, le(v, hi))
    st.choices.append((nm, v))
    if not ex.feasible(st): raise PathEnd()
    return Int(64, v)
@h('vf_bool')
def vf_bool(ex, st, a, ins):
    nm = cstr(ex, st, a[0])
    v = var(nm, 0, 1)
    c = Not(eq0(v))
    st.choices.append((nm, ('bool', c)))
    return B(c)
@h('vf_assume_')
def vf_assume(ex, st, a, ins):
    c = ex.tobool(st, a[0])
    ex.assume(st, c if isinstance(c, bool) else zb(c))
    if not ex.feasible(st): raise PathEnd()
    return None
@h('vf_ensure_')
def vf_ensure(ex, st, a, ins):
    c = ex.tobool(st, a[0])
    nm = cstr(ex, st, a[1])
    ex.prove(st, c, 'ensures %s: %s' % (st.frames[0].f.name, nm), nm)
    return None
@h('vf_reach')
def vf_reach(ex, st, a, ins):
    nm = cstr(ex, st, a[0])
    if not ex.mute and ex.feasible(st): ex.reach[nm] = ex.reach.get(nm, 0) + 1
    return None
@h('vf_stop')
def vf_stop(ex, st, a, ins): raise PathEnd()
@h('vf_array')
def vf_array(ex, st, a, ins):
    """vf_array(name, n, gran, align): n cells of gran bytes with arbitrary content"""
    nm = cstr(ex, st, a[0]); n = U(ex, st, a[1]); g = U(ex, st, a[2]).c; al = U(ex, st, a[3]).c
    r = ex.newregion(st, 'ext', nm, scale(n, g), al)
    C.cnt += 1
    fn = '%s!%d' % (nm, C.cnt)
    C.declb[fn] = (0, (1 << (8*g)) - 1)
    st.mem[r].b = Plane(Base('sym', fn, g, 0))
    st.choices.append((nm, ('array', fn, n, g)))
    return Ptr(r, Lin(0))
@h('vf_generalize')
def vf_generalize(ex, st, a, ins):
    """replace every scalar field of an object by an arbitrary one of the same shape: integers become arbitrary,
    pointers into heap blocks or into the object become arbitrary positions (at distances of multiples of S from
    each other); heap blocks it points to get arbitrary size and content and no live elements"""
    p = a[0]; n = U(ex, st, a[1]).c; S = U(ex, st, a[2]).c; gran = U(ex, st, a[3]).c
    o0 = p.o.c
    reg = ex.wreg(st, p.r)
    cells = dict(reg.b.cells)
    blocks = {}; first = {}
    for o, (w, v) in sorted(reg.b.cells.items()):
        if o < o0 or o + w > o0 + n: continue
        if isinstance(v, Int): cells[o] = (w, Int(v.w, var('field%d' % (o-o0), 0, (1 << v.w)-1)))
        elif isinstance(v, Ptr) and v.r is not None:
            t = st.mem[v.r]
            if t.kind == 'heap' or v.r == p.r:
                base = first.setdefault(v.r, v.o)
                f = var('pos%d' % (o-o0), -MAXBYTES, MAXBYTES)
                cells[o] = (w, Ptr(v.r, add(scale(f, S), base)))
                if t.kind == 'heap': blocks[v.r] = 1
    node = reg.b.node
    if not (isinstance(node, Base) and node.kind == 'uninit'):     # bytes that are not scalar fields: arbitrary too
        C.cnt += 1
        fn = 'bytes!%d' % C.cnt
        C.declb[fn] = (0, (1 << (8*gran)) - 1)
        node = Base('sym', fn, gran, 0)
    reg.b = Plane(node, cells)
    for r in blocks:
        t = ex.wreg(st, r)
        t.size = var('blocksize', 0, MAXBYTES)
        C.cnt += 1
        fn = 'content!%d' % C.cnt
        C.declb[fn] = (0, (1 << (8*gran)) - 1)
        t.b = Plane(Base('sym', fn, gran, 0))
        t.a = Plane(Base('zero'))
    return None
@h('vf_havoc_content')
def vf_havoc_content(ex, st, a, ins):
    """arbitrary content (a named choice) for n cells at p"""
    nm = cstr(ex, st, a[0]); p = ex.asptr(st, a[1]); n = U(ex, st, a[2]); g = U(ex, st, a[3]).c
    if n.const and n.c == 0: return None
    if p.r is None:
        ex.need(st, eq0(n)); return None
    if not n.const and ex.need(st, eq0(n)):
        st.choices.append((nm, ('array', None, Lin(0), g))); return None
    reg = ex.chk(st, p, scale(n, g), 'harness content', True)
    C.cnt += 1
    fn = '%s!%d' % (nm, C.cnt)
    C.declb[fn] = (0, (1 << (8*g)) - 1)
    src = Plane(Base('sym', fn, g, 0))
    pl = reg.b.flush(ex, st, p.o, scale(n, g))
    pl.node = Copy(pl.node, p.o, scale(n, g), src, Lin(0))
    ex.wreg(st, p.r).b = pl
    st.choices.append((nm, ('array', fn, n, g)))
    return None
@h('vf_dead_src')
def vf_dead_src(ex, st, a, ins): return None
@h('vf_alive_range', 'vf_live_src')
def vf_alive_range(ex, st, a, ins):
    p = a[0]; n = U(ex, st, a[1]); S = U(ex, st, a[2]).c
    if p.r is None: return None
    reg = ex.wreg(st, p.r)
    C.cnt += 1
    nm = 's!%d' % C.cnt; C.declb[nm] = (0, None)
    tv = z3.Int(nm)
    reg.a = Plane(LoopW(reg.a.node, n, tv, [(True, add(p.o, scale(atom(tv), S)), 4, Int(32, Lin(1)))]), dict(reg.a.cells))
    ex.life_res(st, p.r, p.o, S)
    return None
@h('vf_life_begin')
def vf_life_begin(ex, st, a, ins):
    p = ex.asptr(st, a[0]); w = U(ex, st, a[1]).c
    ex.chk(st, p, w, 'construction', True)
    al = ex.isalive(st, p, w)
    ex.prove(st, Not(al), ex.ob_here(st, 'constructs only on raw storage'), 'element constructed on a live element')
    ex.life_res(st, p.r, p.o, w)
    ex.wr(st, p.r, 'a', p.o, 4, Int(32, Lin(1)))
    return None
@h('vf_life_end')
def vf_life_end(ex, st, a, ins):
    p = ex.asptr(st, a[0]); w = U(ex, st, a[1]).c
    ex.chk(st, p, w, 'destruction', True)
    al = ex.isalive(st, p, w)
    ex.prove(st, al, ex.ob_here(st, 'destroys only live elements'), 'destroying storage that holds no live element')
    ex.wr(st, p.r, 'a', p.o, 4, Int(32, Lin(0)))
    return None
@h('vf_life_check')
def vf_life_check(ex, st, a, ins):
    p = ex.asptr(st, a[0]); w = U(ex, st, a[1]).c
    ex.chk(st, p, w, 'element use')
    al = ex.isalive(st, p, w)
    ex.prove(st, al, ex.ob_here(st, 'uses only live elements'), 'use of storage that holds no live element')
    return None
@h('vf_alive')
def vf_alive(ex, st, a, ins):
    p = ex.asptr(st, a[0])
    if p.r is None: return B(False)
    return B(ex.isalive(st, p, 4))
@h('vf_block_size')
def vf_block_size(ex, st, a, ins):
    p = ex.asptr(st, a[0])
    if p.r is None: return Int(64, Lin(0))
    return Int(64, st.mem[p.r].size)
@h('vf_is_block')
def vf_is_block(ex, st, a, ins):
    """p is the start of a live heap block"""
    p = ex.asptr(st, a[0])
    if p.r is None: return B(False)
    r = st.mem[p.r]
    return B(And(r.kind == 'heap', r.live, eq(p.o, K(0))))
@h('vf_live_blocks')
def vf_live_blocks(ex, st, a, ins):
    return Int(64, Lin(sum(1 for r in st.mem.values() if r.kind == 'heap' and r.live)))
@h('vf_same_object')
def vf_same_object(ex, st, a, ins):
    p = ex.asptr(st, a[0]); q = ex.asptr(st, a[1])
    return B(p.r == q.r)
@h('vf_uf')
def vf_uf(ex, st, a, ins):
    nm = cstr(ex, st, a[0]); hi = U(ex, st, a[2])
    return Int(64, uf('uf_' + nm, [U(ex, st, a[1])], 0, hi.c))
@h('vf_uf2')
def vf_uf2(ex, st, a, ins):
    nm = cstr(ex, st, a[0]); hi = U(ex, st, a[3])
    return Int(64, uf('uf2_' + nm, [U(ex, st, a[1]), U(ex, st, a[2])], 0, hi.c))
@h('vf_label')
def vf_label(ex, st, a, ins):
    st.trace = st.trace + (cstr(ex, st, a[0]),)
    return None
@h('vf_split')
def vf_split(ex, st, a, ins):
    """case split (no semantic content)"""
    return B(ex.need(st, ex.tobool(st, a[0])))
@h('vf_concrete')
def vf_concrete(ex, st, a, ins):
    """enumerate the values 0..n of a choice path by path"""
    v = U(ex, st, a[0]); n = U(ex, st, a[1]).c
    for k in range(n):
        if ex.need(st, eq(v, K(k))): return Int(64, K(k))
    return Int(64, v)
@h('vf_alloc')
def vf_alloc(ex, st, a, ins):
    n = U(ex, st, a[0]); al = U(ex, st, a[1]).c; tag = conc(ex, st, U(ex, st, a[2]))
    return heap_alloc(ex, st, n, 'allocator block', 'allocator %d' % tag, max(al, 1))
@h('vf_dealloc')
def vf_dealloc(ex, st, a, ins):
    n = U(ex, st, a[1]); al = U(ex, st, a[2]).c; tag = conc(ex, st, U(ex, st, a[3]))
    free_ptr(ex, st, ex.asptr(st, a[0]), 'deallocate', 'allocator %d' % tag, n, max(al, 1))
    return None
@h('vf_snapshot')
def vf_snapshot(ex, st, a, ins):
    p = ex.asptr(st, a[0]); g = U(ex, st, a[2]).c
    st.snaps.append((p, st.mem[p.r].b if p.r is not None else None, g))
    return Int(64, Lin(len(st.snaps)-1))
@h('vf_peek')
def vf_peek(ex, st, a, ins):
    p, pl, g = st.snaps[U(ex, st, a[0]).c]
    if pl is None: raise Unsupported('peek into an empty snapshot')
    i = U(ex, st, a[1])
    o = add(p.o, scale(i, g))
    rs = st.reads.get(p.r, ())
    if o not in rs and len(rs) < 40: st.reads[p.r] = rs + (o,)
    v = pl.read(ex, st, o, g)
    if v is Undef: return Int(64, ex.pvar(st, 'undef', 0, (1 << 8*g)-1))
    return Int(64, ex.nu(st, ex.asint(st, v, 64)))
@h('vf_realloc')
def vf_realloc(ex, st, a, ins):
    tag = conc(ex, st, U(ex, st, a[2]))
    return realloc_(ex, st, ex.asptr(st, a[0]), U(ex, st, a[1]), 'allocator %d' % tag)
@h('vf_free')
def vf_free(ex, st, a, ins):
    p = ex.asptr(st, a[0]); tag = conc(ex, st, U(ex, st, a[1]))
    if p.r is None and p.o.const and p.o.c == 0: return None
    free_ptr(ex, st, p, 'free', 'allocator %d' % tag)
@h('vf_expand')
def vf_expand(ex, st, a, ins):
    p = ex.asptr(st, a[0]); n = U(ex, st, a[1]); tag = conc(ex, st, U(ex, st, a[2]))
    if p.r is None: ex.prove(st, False, ex.ob_here(st, 'only allocated blocks are expanded'), 'expand of null')
    reg = st.mem[p.r]
    ex.prove(st, And(reg.kind == 'heap', eq(p.o, K(0)), reg.live), ex.ob_here(st, 'only allocated blocks are expanded'), 'expand of a pointer that is not a live block')
    ex.prove(st, reg.own == 'allocator %d' % tag, ex.ob_here(st, 'block released by the allocator it came from'), 'expand')
    t = ex.choice(st, 'expand_ok')
    st.choices.append(('expand_ok', Lin(1 if t else 0)))
    if t:
        c = And(le(K(0), n), le(n, K(MAXBYTES)))
        if c is not True: ex.assume(st, zb(c))
        reg = ex.wreg(st, p.r); reg.size = n
    return B(t)
@h('vf_block_start')
def vf_block_start(ex, st, a, ins):
    p = ex.asptr(st, a[0]); return Ptr(p.r, Lin(0))
@h('vf_limit')
def vf_limit(ex, st, a, ins): return None
@h('vf_event')
def vf_event(ex, st, a, ins):
    k = ('ev', cstr(ex, st, a[0])); st.ghost[k] = st.ghost.get(k, 0) + 1
@h('vf_shared')
def vf_shared(ex, st, a, ins):
    p = ex.asptr(st, a[0]); mode = ex.nu(st, a[1]).c; f = a[2]
    if not (p.o.const and p.o.c == 0): raise Unsupported('vf_shared on a part of an object')
    st.ghost[('sh', p.r)] = (mode, f.n if isinstance(f, Fn) else None, a[3])
@h('vf_contract')
def vf_contract(ex, st, a, ins):
    """from here on calls of functions whose name contains a[0] (and not a[1]) run the contract a[2] instead of their body"""
    if not isinstance(a[2], Fn): raise Unsupported('vf_contract of %r' % a[2])
    x = cstr(ex, st, a[1])
    st.ghost['contract'] = (cstr(ex, st, a[0]), (x,) if x else (), a[2].n)
@h('vf_inst')
def vf_inst(ex, st, a, ins):
    """proof hint: what every iteration of the loops so far established, for iteration number a[0] (only instantiates known facts)"""
    x = U(ex, st, a[0]); z = x.z()
    for q in list(st.qfs):
        ex.assume(st, zb(q.inst(x)))
    for tv, hi, nq in st.nest:
        if not ex.proved(st, zb(lt(x, hi))): continue
        pr = [(tv, z)]
        for q in nq:
            st.qfs.append(QF(q.tv, subst(q.hi, pr), substb(q.D, pr), [(r, subst(o, pr)) for r, o in q.reads]))
@h('vf_increasing')
def vf_increasing(ex, st, a, ins):
    """instantiate a precondition "the ranks of the n values at src increase strictly" at all pairs of elements that
    were looked at (in the block at a[0], a copy of src, or in src itself)"""
    src = ex.asptr(st, a[1]); n = U(ex, st, a[2]); nm = 'uf_' + cstr(ex, st, a[3]); step = U(ex, st, a[4]).c
    idx = []
    def see(o):
        i = divexact(o, step)
        if i is None:
            i = divexact(addc(o, -(o.c % step)), step)      # a member of an element
        if i is not None and i not in idx: idx.append(i)
    for o in st.reads.get(src.r, ()): see(sub(o, src.o))
    c = ex.asptr(st, a[0])
    if c.r is not None:
        for o in st.reads.get(c.r, ()): see(sub(o, c.o))
    i = U(ex, st, a[5])
    if i not in idx: idx.append(i)
    for i in list(idx):
        if not i.const and addc(i, -1) not in idx: idx.append(addc(i, -1))
    if addc(n, -1) not in idx: idx.append(addc(n, -1))
    reg = st.mem[src.r]
    rk = []
    for i in idx:
        st2 = st.clone(); ex.assume(st2, zb(And(le(K(0), i), lt(i, n)))) if not isinstance(And(le(K(0), i), lt(i, n)), bool) else None
        if not ex.feasible(st2): rk.append(None); continue
        v = reg.b.read(ex, st2, add(src.o, scale(i, step)), 4)
        rk.append(uf(nm, [ex.nu(st2, v)], 0, 0xffffffff))
    for x, i in enumerate(idx):
        for y, j in enumerate(idx):
            if x == y or rk[x] is None or rk[y] is None: continue
            c = Or(lt(i, K(0)), le(j, i), le(n, j), lt(rk[x], rk[y]))
            if c is not True: ex.assume(st, c if c is False else zb(c))
@h('vf_unshared')
def vf_unshared(ex, st, a, ins): st.ghost.pop(('sh', ex.asptr(st, a[0]).r), None)
@h('vf_held')
def vf_held(ex, st, a, ins): return Int(64, Lin(sum(1 for k in st.ghost if isinstance(k, tuple) and k[0] == 'held' and k[1] == ex.asptr(st, a[0]).r)))
@h('vf_atomic_old')
def vf_atomic_old(ex, st, a, ins): return Int(64, ex.nu(st, st.ghost.get(('val', 'old'), Int(64, Lin(0)))))
@h('vf_atomic_new')
def vf_atomic_new(ex, st, a, ins): return Int(64, ex.nu(st, st.ghost.get(('val', 'new'), Int(64, Lin(0)))))
@h('vf_set_thread')
def vf_set_thread(ex, st, a, ins):
    old = st.ghost.get('tid', 1); st.ghost['tid'] = conc(ex, st, U(ex, st, a[0])) ; return Int(64, Lin(old))
@h('pthread_self')
def pthread_self(ex, st, a, ins): return Int(64, Lin(st.ghost.get('tid', 1)))
@h('pthread_mutex_lock', 'pthread_mutex_trylock')
def pthread_lock(ex, st, a, ins):
    from symex import ENTERED
    p = ex.asptr(st, a[0])
    if st.ghost.get('env'): return Int(32, Lin(0))
    block = 'trylock' not in str(ins.x['callee'].v)
    if ('sh', p.r) in st.ghost:
        r = ex.conc_lock(st, p, block, True)
        if r == 'again': return ENTERED
        return Int(32, Lin(16 if r == 'busy' else 0))
    k = ('held', p.r, p.o.c)
    if block: ex.prove(st, k not in st.ghost, ex.ob_here(st, 'lock not taken twice'), 'a mutex is locked twice')
    elif k in st.ghost: return Int(32, Lin(16))
    st.ghost[k] = 1
    return Int(32, Lin(0))
@h('pthread_mutex_unlock')
def pthread_unlock(ex, st, a, ins):
    if st.ghost.get('env'): return Int(32, Lin(0))
    ex.conc_unlock(st, ex.asptr(st, a[0]), True)
    return Int(32, Lin(0))
@h('vf_events')
def vf_events(ex, st, a, ins): return Int(64, Lin(st.ghost.get(('ev', cstr(ex, st, a[0])), 0)))
@h('vf_nondet')
def vf_tc(ex, st, a, ins):
    t = ex.choice(st, cstr(ex, st, a[0]))
    st.choices.append((cstr(ex, st, a[0]), Lin(1 if t else 0)))
    return B(t)

# ---------------------------------------------------------------- C runtime
@h('malloc')
def malloc(ex, st, a, ins): return heap_alloc(ex, st, U(ex, st, a[0]), 'malloc block', 'malloc')
@h('aligned_alloc')
def aligned_alloc(ex, st, a, ins):
    al = U(ex, st, a[0])
    if not al.const: raise Unsupported('symbolic alignment')
    return heap_alloc(ex, st, U(ex, st, a[1]), 'aligned_alloc block', 'malloc', al.c)
@h('calloc')
def calloc(ex, st, a, ins):
    p = heap_alloc(ex, st, mul(U(ex, st, a[0]), U(ex, st, a[1])), 'calloc block', 'malloc')
    ex.wreg(st, p.r).b = Plane(Base('zero')); return p
@h('free')
def free(ex, st, a, ins):
    free_ptr(ex, st, ex.asptr(st, a[0]), 'free', 'malloc'); return None
@h('realloc')
def realloc(ex, st, a, ins): return realloc_(ex, st, ex.asptr(st, a[0]), U(ex, st, a[1]), 'malloc')
def realloc_(ex, st, p, n, own):
    if p.r is None: return heap_alloc(ex, st, n, 'realloc block', own)
    reg = st.mem[p.r]
    ex.prove(st, And(reg.kind == 'heap', eq(p.o, K(0)), reg.live), ex.ob_here(st, 'only allocated blocks are released'), 'realloc of a pointer that is not a live block')
    ex.prove(st, reg.own == own, ex.ob_here(st, 'block released by the allocator it came from'), 'realloc')
    q = heap_alloc(ex, st, n, 'realloc block', own, reg.align)
    smaller = ex.need(st, le(n, reg.size))
    cnt = n if smaller else reg.size
    if not (cnt.const and cnt.c == 0):
        nr = ex.wreg(st, q.r)
        nr.b = Plane(Copy(nr.b.node, Lin(0), cnt, reg.b, Lin(0)))
    ex.free_region(st, p.r, 'realloc')
    return q
def opnew(ex, st, a, ins): return heap_alloc(ex, st, U(ex, st, a[0]), 'operator new block', 'new')
for n in ('_Znwm', '_Znam'): H[n] = opnew
@h('_ZnwmSt11align_val_t', '_ZnamSt11align_val_t')
def opnewal(ex, st, a, ins): return heap_alloc(ex, st, U(ex, st, a[0]), 'operator new block', 'new', U(ex, st, a[1]).c)
@h('_ZnwmRKSt9nothrow_t')
def opnewnt(ex, st, a, ins): return heap_alloc(ex, st, U(ex, st, a[0]), 'operator new block', 'new')
@h('_ZdlPv', '_ZdaPv')
def opdel(ex, st, a, ins): free_ptr(ex, st, ex.asptr(st, a[0]), 'operator delete', 'new'); return None
@h('_ZdlPvm', '_ZdaPvm')
def opdels(ex, st, a, ins):
    p = ex.asptr(st, a[0])
    free_ptr(ex, st, p, 'operator delete', 'new', U(ex, st, a[1]) if p.r is not None else None); return None
@h('_ZdlPvmSt11align_val_t')
def opdelsa(ex, st, a, ins):
    free_ptr(ex, st, ex.asptr(st, a[0]), 'operator delete', 'new', U(ex, st, a[1]), U(ex, st, a[2]).c); return None
@h('_ZdlPvSt11align_val_t')
def opdela(ex, st, a, ins): free_ptr(ex, st, ex.asptr(st, a[0]), 'operator delete', 'new', None, U(ex, st, a[1]).c); return None
@h('memcpy')
def memcpy(ex, st, a, ins):
    do_memcpy(ex, st, a, False); return a[0]
@h('memmove')
def memmove(ex, st, a, ins):
    do_memcpy(ex, st, a, True); return a[0]
def do_memcpy(ex, st, a, move):
    n = U(ex, st, a[2]); d = ex.asptr(st, a[0]); s = ex.asptr(st, a[1])
    if n.const and n.c == 0: return
    if not n.const and ex.need(st, eq0(n)): return
    if not move and d.r == s.r and d.r is not None:
        # overlapping memcpy is undefined
        ex.prove(st, Or(le(add(d.o, n), s.o), le(add(s.o, n), d.o), eq(d.o, s.o)), ex.ob_here(st, 'memcpy ranges do not overlap'), 'memcpy of overlapping ranges')
    ex.memcpy(st, d, s, n, 'memmove' if move else 'memcpy')
@h('memset')
def memset(ex, st, a, ins):
    ex.memset(st, ex.asptr(st, a[0]), U(ex, st, a[1]), U(ex, st, a[2])); return a[0]
@h('strlen')
def strlen(ex, st, a, ins):
    p = ex.asptr(st, a[0])
    n = st.ghost.get(('cstr', p.r))
    if n is not None:
        ex.chk(st, p, 1, 'strlen')
        return Int(64, sub(n, p.o))
    try: return Int(64, Lin(len(cstr(ex, st, p))))
    except Exception: raise Unsupported('strlen of symbolic string')
@h('memcmp', 'bcmp')
def memcmp(ex, st, a, ins):
    n = U(ex, st, a[2]); p = ex.asptr(st, a[0]); q = ex.asptr(st, a[1])
    if n.const and n.c == 0: return Int(32, Lin(0))
    if not n.const and ex.need(st, eq0(n)): return Int(32, Lin(0))
    rp = ex.chk(st, p, n, 'memcmp'); rq = ex.chk(st, q, n, 'memcmp')
    g = 1
    stk = [rp.b.node, rq.b.node]; cells = [rp.b.cells, rq.b.cells]; seen = set()
    while stk:                      # the granularity in which the compared memory is defined
        nd = stk.pop()
        if nd is None or id(nd) in seen: continue
        seen.add(id(nd))
        if isinstance(nd, Base):
            if nd.kind == 'sym': g = max(g, nd.gran)
            continue
        if isinstance(nd, Copy):
            stk.append(nd.src.node); cells.append(nd.src.cells)
        stk.append(nd.prev)
    if g == 1:
        ws = {cw for cs in cells for cw, _ in cs.values()}
        if len(ws) == 1 and all(k % next(iter(ws)) == 0 for cs in cells for k in cs): g = ws.pop()
    if g > 1 and not (n.const and n.c % g == 0 or eq0(modc(n, g)) is True or ex.proved(st, zb(eq0(modc(n, g))))): g = 1
    t = ex.choice(st, 'memcmp_equal')
    ex.mark(st, 'memcmp')
    if t:
        # forall i < n/g : equal
        C.cnt += 1; tn = 's!%d' % C.cnt; C.declb[tn] = (0, None); tv = z3.Int(tn); tl = atom(tv)
        st2 = st.clone()
        ex.assume(st2, tv >= 0); 
        c = lt(scale(tl, g), n)
        if c is False: raise PathEnd()
        if c is not True: ex.assume(st2, c)
        x = rp.b.read(ex, st2, add(p.o, scale(tl, g)), g); y = rq.b.read(ex, st2, add(q.o, scale(tl, g)), g)
        D = zb(eq(ex.nu(None, x), ex.nu(None, y)))
        st.qfs.append(QF(tv, divc(n, g), D, [(p.r, add(p.o, scale(tl, g))), (q.r, add(q.o, scale(tl, g)))]))
        return Int(32, Lin(0))
    k = var('memcmp_diff', 0, None)
    ex.assume(st, zb(lt(scale(k, g), n)))
    x = rp.b.read(ex, st, add(p.o, scale(k, g)), g); y = rq.b.read(ex, st, add(q.o, scale(k, g)), g)
    for r, pp in ((p.r, p), (q.r, q)):
        st.reads[r] = st.reads.get(r, ()) + (add(pp.o, scale(k, g)),)
    c = Not(eq(ex.nu(st, x), ex.nu(st, y)))
    ex.assume(st, c if isinstance(c, bool) else zb(c))
    if not ex.feasible(st): raise PathEnd()
    # sign: first difference decides; k is not claimed to be the first
    r = var('memcmp_sign', -(1 << 31), (1 << 31)-1)
    ex.assume(st, zb(Not(eq0(r))))
    return Int(32, r)
@h('abort', '_ZSt9terminatev', '__clang_call_terminate')
def terminate(ex, st, a, ins):
    ex.prove(st, False, ex.ob_here(st, 'no std::terminate'), 'terminate/abort called')
    raise PathEnd()
@h('__assert_fail')
def assert_fail(ex, st, a, ins):
    ex.prove(st, False, ex.ob_here(st, 'assertions hold'), 'assertion failed: %s' % cstr(ex, st, a[0]))
    raise PathEnd()
@h('_ZSt21__glibcxx_assert_failPKciS0_S0_')
def gassert(ex, st, a, ins):
    ex.prove(st, False, ex.ob_here(st, 'library preconditions hold'), 'libstdc++ assertion')
    raise PathEnd()
@h('__cxa_pure_virtual')
def purev(ex, st, a, ins):
    ex.prove(st, False, ex.ob_here(st, 'no pure virtual call'), ''); raise PathEnd()

# ---------------------------------------------------------------- exceptions
@h('__cxa_allocate_exception')
def cxa_alloc(ex, st, a, ins):
    r = ex.newregion(st, 'exc', 'exception object', U(ex, st, a[0]))
    return Ptr(r, Lin(0))
@h('__cxa_free_exception')
def cxa_free(ex, st, a, ins): return None
@h('__cxa_throw')
def cxa_throw(ex, st, a, ins):
    ti = a[1]
    n = ex.rname[ti.r][1:]
    st.excs[a[0].r] = n
    flight(st, 1)
    raise Throw(n, a[0])
def flight(st, d): st.ghost['uncaught'] = st.ghost.get('uncaught', 0) + d
@h('_ZSt19uncaught_exceptionsv')
def uncaughts(ex, st, a, ins): return Int(32, Lin(st.ghost.get('uncaught', 0)))
@h('_ZSt18uncaught_exceptionv')
def uncaught(ex, st, a, ins): return B(st.ghost.get('uncaught', 0) > 0)
def new_exc(ex, st, n):
    r = ex.newregion(st, 'exc', 'exception object', Lin(64))
    st.excs[r] = n
    flight(st, 1)
    return Throw(n, Ptr(r, Lin(0)))
@h('__cxa_begin_catch')
def begin_catch(ex, st, a, ins):
    flight(st, -1)
    st.caught.append(a[0]); return a[0]
@h('__cxa_end_catch')
def end_catch(ex, st, a, ins):
    if st.caught: st.caught.pop()
    return None
@h('__cxa_rethrow')
def rethrow(ex, st, a, ins):
    p = st.caught[-1]
    flight(st, 1)
    raise Throw(st.excs[p.r], p)
# std::exception_ptr: a counted reference to the exception object being handled; the references must all be released
I64 = __import__('ir').PTR
def excref(st, d): st.ghost['excref'] = st.ghost.get('excref', 0) + d
def excptr(ex, st, p):
    v = ex.asptr(st, ex.load(st, ex.asptr(st, p), I64))
    return v
@h('_ZSt17current_exceptionv')
def cur_exc(ex, st, a, ins):
    p = st.caught[-1] if st.caught else Ptr(None, Lin(0))
    if st.caught: excref(st, 1)
    ex.store(st, ex.asptr(st, a[0]), p, I64)
    return None
@h('_ZNSt15__exception_ptr13exception_ptr9_M_addrefEv')
def exc_addref(ex, st, a, ins):
    if excptr(ex, st, a[0]).r is not None: excref(st, 1)
    return None
@h('_ZNSt15__exception_ptr13exception_ptr10_M_releaseEv')
def exc_release(ex, st, a, ins):
    if excptr(ex, st, a[0]).r is not None:
        excref(st, -1)
        ex.store(st, ex.asptr(st, a[0]), Ptr(None, Lin(0)), I64)
    return None
@h('_ZSt17rethrow_exceptionNSt15__exception_ptr13exception_ptrE')
def exc_rethrow(ex, st, a, ins):
    p = excptr(ex, st, a[0])
    ex.prove(st, p.r is not None and p.r in st.excs, 'rethrow_exception gets an exception', '')
    flight(st, 1)
    raise Throw(st.excs[p.r], p)
@h('__cxa_guard_acquire')
def guard_acq(ex, st, a, ins): return Int(32, Lin(1))
@h('__cxa_guard_release', '__cxa_atexit')
def guard_rel(ex, st, a, ins): return Int(32, Lin(0))
@h('_ZNSt3pmr15memory_resourceD2Ev', '_ZNSt9exceptionD2Ev', '_ZNSt9exceptionD1Ev', '_ZNSt8bad_castD1Ev','_ZNSt9bad_allocD1Ev','_ZNSt8bad_castD2Ev')
def noop(ex, st, a, ins): return None
@h('_ZNKSt9type_infoeqERKS_')
def ti_eq(ex, st, a, ins): return B(a[0].r == a[1].r)
@h('_ZNKSt9type_infoneERKS_')
def ti_ne(ex, st, a, ins): return B(a[0].r != a[1].r)

THROWERS = {'_ZSt20__throw_length_errorPKc': '_ZTISt12length_error', '_ZSt20__throw_out_of_rangePKc': '_ZTISt12out_of_range', '_ZSt24__throw_out_of_range_fmtPKcz': '_ZTISt12out_of_range',
  '_ZSt17__throw_bad_allocv': '_ZTISt9bad_alloc', '_ZSt28__throw_bad_array_new_lengthv': '_ZTISt9bad_alloc', '_ZSt16__throw_bad_castv': '_ZTISt8bad_cast', '_ZSt25__throw_bad_function_callv': '_ZTISt17bad_function_call',
  '_ZSt19__throw_logic_errorPKc': '_ZTISt11logic_error', '_ZSt20__throw_system_errori': '_ZTISt12system_error'}

def lookup(ex, n):
    f = H.get(n)
    if f is not None: return f
    if n in THROWERS:
        def t(ex, st, a, ins): raise new_exc(ex, st, THROWERS[n])
        return t
    if re.match(r'_ZNSt(12out_of_range|12length_error|11logic_error|13runtime_error|16invalid_argument)[CD][12]E', n): return noop
    import lib
    return lib.lookup(ex, n)

# ---------------------------------------------------------------- llvm intrinsics
def llvm(ex, st, fr, ins, n):
    if n.startswith(('llvm.dbg.', 'llvm.lifetime.', 'llvm.invariant.', 'llvm.experimental.noalias', 'llvm.donothing', 'llvm.prefetch', 'llvm.var.annotation')):
        fr.i += 1; return
    if n.startswith('llvm.trap') or n.startswith('llvm.debugtrap'):
        ex.prove(st, False, ex.ob_here(st, 'no trap'), 'trap'); raise PathEnd()
    a = [ex.op(st, x) for x in ins.a]
    def fin(v): ex.finish_call(st, fr, ins, v)
    bk = ex.snapshot(st)
    try:
        if n.startswith('llvm.memcpy') : do_memcpy(ex, st, a, False); return fin(None)
        if n.startswith('llvm.memmove'): do_memcpy(ex, st, a, True); return fin(None)
        if n.startswith('llvm.memset'): ex.memset(st, ex.asptr(st, a[0]), U(ex, st, a[1]), U(ex, st, a[2])); return fin(None)
        if n.startswith('llvm.eh.typeid'):
            return fin(Int(32, Lin(ex.typeid(ins.a[0]))))
        if n.startswith('llvm.expect'): return fin(a[0])
        if n.startswith('llvm.assume'):
            c = ex.tobool(st, a[0]); ex.prove(st, c, ex.ob_here(st, 'optimizer assumption holds'), 'llvm.assume'); return fin(None)
        if n.startswith('llvm.is.constant'): return fin(B(False))
        if n.startswith(('llvm.ctlz', 'llvm.cttz', 'llvm.ctpop')):
            x = U(ex, st, a[0]); w = int(n.rpartition('i')[2])
            if not x.const: raise Unsupported('intrinsic %s of a symbolic value' % n)
            x = x.c
            r = bin(x).count('1') if 'ctpop' in n else (w - x.bit_length() if 'ctlz' in n else ((x & -x).bit_length() - 1 if x else w))
            return fin(Int(w, Lin(r)))
        if n.startswith('llvm.objectsize'): return fin(Int(64, Lin(-1)))
        m = re.match(r'llvm\.(umax|umin|smax|smin)\.i(\d+)', n)
        if m:
            w = int(m.group(2)); k = m.group(1)
            x, y = (U(ex, st, a[0]), U(ex, st, a[1])) if k[0] == 'u' else (ex.ns(st, a[0]), ex.ns(st, a[1]))
            t = ex.need(st, le(x, y))
            return fin(Int(w, (y if t else x) if k.endswith('max') else (x if t else y)))
        m = re.match(r'llvm\.([us])(add|sub|mul)\.with\.overflow\.i(\d+)', n)
        if m:
            w = int(m.group(3)); sg = m.group(1) == 's'
            x, y = (ex.ns(st, a[0]), ex.ns(st, a[1])) if sg else (U(ex, st, a[0]), U(ex, st, a[1]))
            r = add(x, y) if m.group(2) == 'add' else sub(x, y) if m.group(2) == 'sub' else mul(x, y)
            lo, hi = (-(1 << (w-1)), 1 << (w-1)) if sg else (0, 1 << w)
            return fin(Agg([Int(w, r), B(Not(And(le(K(lo), r), lt(r, K(hi)))))]))
        m = re.match(r'llvm\.abs\.i(\d+)', n)
        if m:
            x = ex.ns(st, a[0]); t = ex.need(st, le(K(0), x)); return fin(Int(int(m.group(1)), x if t else neg(x)))
        if n.startswith('llvm.stacksave'): return fin(Ptr(None, Lin(0)))
        if n.startswith('llvm.stackrestore'): return fin(None)
    except Fork:
        ex.restore(st, bk); raise
    raise Unsupported('intrinsic ' + n)
