"""Symbolic memory: persistent planes of cells plus a chain of symbolic writes."""
import z3
from term import *
import term as T

class Unsupported(Exception): pass
class Fork(Exception):
    def __init__(s, cond): s.cond = cond

class Int:
    __slots__ = ('w', 'l')
    def __init__(s, w, l): s.w = w; s.l = l if isinstance(l, Lin) else Lin(l)
    def __repr__(s): return 'i%d(%r)' % (s.w, s.l)
class B:
    __slots__ = ('e',)
    def __init__(s, e): s.e = e
    def __repr__(s): return 'B(%s)' % s.e
class Ptr:
    __slots__ = ('r', 'o')
    def __init__(s, r, o): s.r = r; s.o = o
    def __repr__(s): return 'P(%s,%r)' % (s.r, s.o)
class Fn:
    __slots__ = ('n',)
    def __init__(s, n): s.n = n
    def __repr__(s): return 'Fn(%s)' % s.n
class UndefT:
    def __repr__(s): return 'undef'
Undef = UndefT()
class Agg:
    __slots__ = ('v',)
    def __init__(s, v): s.v = v
    def __repr__(s): return 'Agg%r' % s.v
class Fl:
    __slots__ = ('v',)
    def __init__(s, v): s.v = v
    def __repr__(s): return 'Fl(%s)' % s.v

def same_val(a, b):
    if a is b: return True
    if type(a) is not type(b): return False
    if isinstance(a, Int): return a.w == b.w and a.l == b.l
    if isinstance(a, Ptr): return a.r == b.r and a.o == b.o
    if isinstance(a, Fn): return a.n == b.n
    if isinstance(a, B): return a.e is b.e or (not isinstance(a.e, bool) and not isinstance(b.e, bool) and a.e.eq(b.e)) or (isinstance(a.e, bool) and a.e == b.e and isinstance(b.e, bool))
    if isinstance(a, Fl): return a.v == b.v
    if isinstance(a, Agg): return len(a.v) == len(b.v) and all(same_val(x, y) for x, y in zip(a.v, b.v))
    return False

def subst_val(v, pairs):
    if isinstance(v, Int): return Int(v.w, subst(v.l, pairs))
    if isinstance(v, Ptr): return Ptr(v.r, subst(v.o, pairs))
    if isinstance(v, B): return B(substb(v.e, pairs))
    if isinstance(v, Agg): return Agg([subst_val(x, pairs) for x in v.v])
    return v

def ite_val(c, a, b):
    if c is True: return a
    if c is False: return b
    if same_val(a, b): return a
    if isinstance(a, Int) and isinstance(b, Int) and a.w == b.w: return Int(a.w, ite(c, a.l, b.l))
    if isinstance(a, B) and isinstance(b, B): return B(z3.If(c, zb(a.e), zb(b.e)))
    if isinstance(a, Ptr) and isinstance(b, Ptr) and a.r == b.r: return Ptr(a.r, ite(c, a.o, b.o))
    raise Fork(c)

class Base:
    def __init__(s, kind, name=None, gran=0, c0=0, hi=None): s.kind = kind; s.name = name; s.gran = gran; s.c0 = c0; s.hi = hi
    def read(s, ex, st, off, w, want):
        if s.kind == 'uninit': return Undef
        if s.kind == 'zero':
            return Int(8*w, Lin(0))
        if s.kind == 'sym':
            if w != s.gran:
                if w > s.gran and w % s.gran == 0 and w <= 8:
                    r = Lin(0)
                    for k in range(w//s.gran):
                        p = s.read(ex, st, addc(off, k*s.gran), s.gran, None)
                        r = add(r, scale(p.l, 1 << (8*s.gran*k)))
                    return Int(8*w, r)
                if w < s.gran and s.gran % w == 0:
                    d = addc(off, -s.c0)
                    md = modc(d, s.gran)
                    if md.const:
                        p = s.read(ex, st, addc(off, -md.c), s.gran, None)
                        return Int(8*w, modc(divc(p.l, 1 << (8*md.c)), 1 << (8*w)))
                    p = s.read(ex, st, sub(off, md), s.gran, None) if divexact(sub(d, md), s.gran) is not None else Int(8*s.gran, uf(s.name, [divc(d, s.gran)], 0, s.hi if s.hi is not None else (1 << 8*s.gran)-1))
                    r = None
                    for j in range(0, s.gran, 1):
                        b = modc(divc(p.l, 1 << 8*j), 1 << 8*w) if j + w <= s.gran else var('straddle', 0, (1 << 8*w)-1)
                        r = b if r is None else ite(eq(md, K(j)), b, r)
                    return Int(8*w, r)
                raise Unsupported('read of width %d from symbolic array of granularity %d' % (w, s.gran))
            d = addc(off, -s.c0)
            i = divexact(d, s.gran)
            if i is None:
                if not ex.proved(st, eq(modc(d, s.gran), K(0))): raise Unsupported('misaligned read of symbolic array')
                i = divc(d, s.gran)
            return Int(8*w, uf(s.name, [i], 0, s.hi if s.hi is not None else (1 << (8*w))-1))
        if s.kind == 'opaque': raise Unsupported('read of opaque memory %s' % s.name)
        raise Unsupported('base ' + s.kind)

def overlap_exact(ex, st, off, w, o, cw):
    """relation of access [off,off+w) to [o,o+cw): False (disjoint), True (identical), or a condition 'identical' (else disjoint)"""
    d = sub(off, o)
    lo, hi = d.bounds()
    if lo is not None and lo >= cw: return False
    if hi is not None and hi <= -w: return False
    if d.const:
        if d.c == 0 and w == cw: return True
        raise Partial()
    e = eq0(d)
    if w == cw:
        if e is False:
            # never equal: check alignment argument that they cannot overlap partially
            g = content(d)
            r = d.c % g
            if r >= w and r + w <= g: return False
        if isinstance(e, bool) and e: return True
        g = content(d)
        if g >= w and d.c % g == 0:
            t = ex.tri(st, e)
            return e if t is None else t
    # general
    dis = Or(le(addc(off, w), o), le(addc(o, cw), off))
    t = ex.tri(st, dis)
    if t is True: return False
    if w == cw:
        t2 = ex.tri(st, e)
        if t2 is True: return True
        if ex.proved(st, Or(dis, e)): return e
    raise Partial(dis)

class Partial(Exception):
    def __init__(s, dis=None): s.dis = dis

class Store:
    def __init__(s, prev, off, w, val): s.prev = prev; s.off = off; s.w = w; s.val = val
    def read(s, ex, st, off, w, want):
        if w < s.w and isinstance(s.val, Int):
            # a part of this cell: where the difference can only be one position within the cell
            d = sub(off, s.off)
            if not d.const:
                g = content(d); r = d.c % g
                if g >= s.w and r + w <= s.w:
                    e = eq0(addc(d, -r)); t = ex.tri(st, e)
                    if t is False: return s.prev.read(ex, st, off, w, want)
                    v = Int(8*w, modc(divc(ex.nu(st, s.val), 1 << (8*r)), 1 << (8*w)))
                    return v if t is True else ite_val(e, v, s.prev.read(ex, st, off, w, want))
        try: c = overlap_exact(ex, st, off, w, s.off, s.w)
        except Partial as p:
            if p.dis is not None and ex.tri(st, p.dis) is None: raise Fork(p.dis)
            d = sub(off, s.off)
            if d.const and 0 <= d.c and d.c + w <= s.w and isinstance(s.val, Int):
                return Int(8*w, modc(divc(ex.nu(st, s.val), 1 << (8*d.c)), 1 << (8*w)))
            raise Unsupported('partially overlapping access')
        if c is True: return s.val
        if c is False: return s.prev.read(ex, st, off, w, want)
        return ite_val(c, s.val, s.prev.read(ex, st, off, w, want))

class Copy:
    def __init__(s, prev, dst, n, src, so): s.prev = prev; s.dst = dst; s.n = n; s.src = src; s.so = so
    def read(s, ex, st, off, w, want):
        inside = And(le(s.dst, off), le(addc(off, w), add(s.dst, s.n)))
        t = ex.tri(st, inside)
        if t is not True:
            outside = Or(le(addc(off, w), s.dst), le(add(s.dst, s.n), off))
            if not ex.proved(st, Or(inside, outside)):
                t2 = ex.tri(st, outside)
                if t2 is None: raise Fork(outside)
                if t2 is False and t is None: raise Fork(inside)
                if t2 is False:
                    ex.mark(st, 'access across a block boundary'); return Int(8*w, var('mixed', 0, (1 << 8*w)-1))     # straddles the boundary: any value
        if t is True: return s.src.read(ex, st, add(s.so, sub(off, s.dst)), w, want)
        if t is False: return s.prev.read(ex, st, off, w, want)
        return ite_val(inside, s.src.read(ex, st, add(s.so, sub(off, s.dst)), w, want), s.prev.read(ex, st, off, w, want))

class Fill:
    def __init__(s, prev, dst, n, byte): s.prev = prev; s.dst = dst; s.n = n; s.byte = byte
    def read(s, ex, st, off, w, want):
        inside = And(le(s.dst, off), le(addc(off, w), add(s.dst, s.n)))
        t = ex.tri(st, inside)
        if t is not True:
            outside = Or(le(addc(off, w), s.dst), le(add(s.dst, s.n), off))
            if not ex.proved(st, Or(inside, outside)):
                t2 = ex.tri(st, outside)
                if t2 is None: raise Fork(outside)
                if t2 is False and t is None: raise Fork(inside)
                if t2 is False:
                    ex.mark(st, 'access across a block boundary'); return Int(8*w, var('mixed', 0, (1 << 8*w)-1))     # straddles the boundary: any value
        def v():
            m = 0
            for k in range(w): m |= 1 << (8*k)
            return Int(8*w, scale(s.byte, m))
        if t is True: return v()
        if t is False: return s.prev.read(ex, st, off, w, want)
        return ite_val(inside, v(), s.prev.read(ex, st, off, w, want))

class LoopW:
    """writes performed by iterations 0..T-1 of a summarised loop"""
    def __init__(s, prev, T, tv, sites): s.prev = prev; s.T = T; s.tv = tv; s.sites = sites
    def read(s, ex, st, off, w, want):
        acc_c = False; acc_s = None; acc_v = None
        tl = atom(s.tv); ta = tl.m[0][0]
        for guard, so, sw, sv in s.sites:
            delta = dict(so.m)[ta]
            base = sub(so, scale(tl, delta))
            diff = sub(off, base)
            if delta < 0: diff = neg(diff); ad = -delta
            else: ad = delta
            q = divexact(diff, ad)
            extra = True
            if q is None:
                if all(v % ad == 0 for _, v in diff.m):
                    r = diff.c % ad   # position of access relative to a slot
                    ro = r if delta > 0 else (ad - r) % ad
                    if ro >= sw and ro + w <= ad: continue
                    q0 = divc(addc(diff, -r), ad)
                    # cannot be a slot start; make sure it does not touch any written slot
                    qs = q0 if delta > 0 else addc(q0, 1)
                    tq = ([qs] if ro < sw else []) + ([addc(qs, 1 if delta > 0 else -1)] if ro + w > ad else [])
                    if all(ex.proved(st, Or(lt(x, K(0)), le(s.T, x))) for x in tq): continue
                    raise Unsupported('misaligned access to loop-written memory')
                md = modc(diff, ad)
                if not ex.proved(st, eq0(md)):
                    lo1 = le(addc(off, w), base) ; hi1 = le(add(base, scale(s.T, delta)), off)
                    if delta < 0:
                        lo1 = le(addc(base, sw), off); hi1 = le(addc(off, w), addc(add(base, scale(s.T, delta)), -delta))
                    if ex.proved(st, Or(lo1, hi1)): continue
                    raise Unsupported('unaligned access to loop-written memory')
                q = divc(diff, ad)
            inr = And(le(K(0), q), lt(q, s.T))
            ti = ex.tri(st, inr)
            if ti is False: continue
            if sw != w:
                if sv is not None and isinstance(sv, Int) and sv.l.const and sv.l.c == 0: pass
                else: raise Unsupported('access width %d to loop-written width %d' % (w, sw))
            pairs = [(s.tv, q.z())]
            g = substb(guard, pairs) if guard is not True else True
            c = And(True if ti else inr, g)
            if c is False: continue
            v = subst_val(sv, pairs) if sw == w else Int(8*w, Lin(0))
            if acc_c is False: acc_c, acc_s, acc_v = c, q, v
            else:
                take = And(c, Or(Not(acc_c), le(acc_s, q)))
                tt = ex.tri(st, take) if not isinstance(take, bool) else take
                if tt is True: acc_c, acc_s, acc_v = True, q, v
                elif tt is False: pass
                else:
                    acc_v = ite_val(take, v, acc_v); acc_s = ite(take, q, acc_s); acc_c = Or(acc_c, c)
        if acc_c is False: return s.prev.read(ex, st, off, w, want)
        if acc_c is not True:
            t = ex.tri(st, acc_c)
            if t is True: acc_c = True
            elif t is False: return s.prev.read(ex, st, off, w, want)
        if acc_c is True: return acc_v
        return ite_val(acc_c, acc_v, s.prev.read(ex, st, off, w, want))

class FilterW:
    """writes of a loop which appends: iteration t writes the cell at A + w*e(t) when one of its guards holds, and e then grows by one
    (else it stays). The cell with number q in [e(0), e(T)) was written by exactly one iteration, inv(q), with e(inv(q)) = q."""
    def __init__(s, prev, T, tv, A, w, e, e0, sites, inv, D): s.prev = prev; s.T = T; s.tv = tv; s.A = A; s.w = w; s.e = e; s.e0 = e0; s.sites = sites; s.inv = inv; s.D = D
    def read(s, ex, st, off, w, want):
        d = sub(off, s.A)
        q = divexact(d, s.w)
        inr = None
        if q is None or w != s.w:
            lo = add(s.A, scale(s.e0, s.w)); hi = add(s.A, scale(atom(s.e), s.w))
            if ex.proved(st, Or(le(addc(off, w), lo), le(hi, off))): return s.prev.read(ex, st, off, w, want)
            if w != s.w or not ex.proved(st, eq0(modc(d, s.w))): raise Unsupported('unaligned access to loop-appended memory')
            q = divc(d, s.w)
        inr = And(le(s.e0, q), lt(q, atom(s.e)))
        t = ex.tri(st, inr)
        if t is False: return s.prev.read(ex, st, off, w, want)
        if t is None: raise Fork(inr)
        i = s.inv(*[s.e.arg(k) for k in range(s.e.num_args()-1)], q.z())
        il = atom(i)
        pairs = [(s.tv, i)]
        gs = [substb(g, pairs) if g is not True else True for g, _ in s.sites]
        facts = [le(K(0), il), lt(il, s.T), eq(atom(z3.substitute(s.e, *pairs)), q), Or(*gs)]
        if s.D is not None and not isinstance(s.D, bool): facts.append(substb(s.D, pairs))
        f = And(*facts)
        ex.assume(st, zb(f) if t else z3.Implies(zb(inr), zb(f)))
        v = subst_val(s.sites[-1][1], pairs)
        for g, (_, x) in list(zip(gs, s.sites))[-2::-1]: v = ite_val(g, subst_val(x, pairs), v)
        return v if t else ite_val(inr, v, s.prev.read(ex, st, off, w, want))

class Plane:
    __slots__ = ('cells', 'node')
    def __init__(s, node, cells=None): s.node = node; s.cells = cells if cells is not None else {}
    def read(s, ex, st, off, w, want=None):
        if off.const:
            o = off.c
            c = s.cells.get(o)
            if c is not None and c[0] == w: return c[1]
            ov = [(k, cw, v) for k, (cw, v) in s.cells.items() if k < o + w and o < k + cw]
            if not ov: return s.node.read(ex, st, off, w, want)
            # containing cell
            if len(ov) == 1 and ov[0][0] <= o and o + w <= ov[0][0] + ov[0][1]:
                k, cw, v = ov[0]
                if v is Undef: return Undef
                if isinstance(v, Int):
                    return Int(8*w, modc(divc(ex.nu(st, v), 1 << (8*(o-k))), 1 << (8*w)))
                if isinstance(v, Ptr) and v.r is None and v.o.const: return Int(8*w, Lin((v.o.c >> (8*(o-k))) & ((1 << 8*w)-1)))
                raise Unsupported('partial read of %r' % v)
            ov.sort()
            r = Lin(0); pos = o
            allun = True
            for k, cw, v in ov:
                if k < o or k + cw > o + w: raise Unsupported('straddling read')
                if k > pos:
                    g = s.node.read(ex, st, Lin(pos), k-pos, None)
                    if g is Undef: g = Int(8*(k-pos), var('pad', 0, (1 << 8*(k-pos))-1))
                    r = add(r, scale(ex.nu(st, g), 1 << (8*(pos-o))))
                if v is Undef: v = Int(8*cw, var('undef', 0, (1 << 8*cw)-1))
                if not isinstance(v, Int): raise Unsupported('composite read of %r' % v)
                r = add(r, scale(ex.nu(st, v), 1 << (8*(k-o)))); pos = k + cw
            if pos < o + w:
                try: g = s.node.read(ex, st, Lin(pos), o+w-pos, None)
                except Unsupported: g = Undef
                if g is Undef: g = Int(8*(o+w-pos), var('pad', 0, (1 << 8*(o+w-pos))-1))
                r = add(r, scale(ex.nu(st, g), 1 << (8*(pos-o))))
            return Int(8*w, r)
        acc = []
        for k, (cw, v) in sorted(s.cells.items()):
            try: c = overlap_exact(ex, st, off, w, Lin(k), cw)
            except Partial as p:
                if p.dis is not None and ex.tri(st, p.dis) is None: raise Fork(p.dis)
                raise Unsupported('partial overlap with cell %d' % k)
            if c is False: continue
            if c is True: return v
            acc.append((c, v))
        if acc and len(acc) > 40: raise Unsupported('too many aliases')
        if acc and ex.proved(st, Or(*[c for c, _ in acc])):
            r = acc.pop()[1]
        else: r = s.node.read(ex, st, off, w, want)
        for c, v in acc: r = ite_val(c, v, r)
        return r
    def flush(s, ex, st, off, w):
        """new plane where every cell that may overlap [off, off+w) (w a Lin) went to the chain"""
        cells = dict(s.cells); node = s.node
        lo = off; hi = add(off, w)
        for k, (cw, v) in sorted(s.cells.items()):
            dis = Or(le(Lin(k+cw), lo), le(hi, Lin(k)))
            if dis is True: continue
            if dis is not False and ex.tri(st, dis) is True: continue
            node = Store(node, Lin(k), cw, v); del cells[k]
        return Plane(node, cells)
    def write(s, ex, st, off, w, val):
        if off.const:
            o = off.c
            cells = dict(s.cells)
            part = [k for k, (cw, v) in cells.items() if k < o + w and o < k + cw]
            node = s.node
            for k in part:
                cw, v = cells[k]
                if k >= o and k + cw <= o + w: del cells[k]
                else:
                    # split
                    del cells[k]
                    if isinstance(v, Int):
                        u = ex.nu(st, v)
                        if k < o: cells[k] = (o-k, Int(8*(o-k), modc(u, 1 << (8*(o-k)))))
                        if k + cw > o + w:
                            h = o + w - k
                            cells[o+w] = (cw-h, Int(8*(cw-h), divc(u, 1 << (8*h))))
                    elif v is Undef: pass
                    else:
                        if k < o: cells[k] = (o-k, Undef)
                        if k + cw > o + w: cells[o+w] = (k+cw-o-w, Undef)
            cells[o] = (w, val)
            return Plane(node, cells)
        p = s.flush(ex, st, off, Lin(w))
        p.node = Store(p.node, off, w, val)
        return p

class Region:
    __slots__ = ('id', 'kind', 'name', 'size', 'live', 'b', 'a', 'align', 'const', 'res', 'own')
    def __init__(s, id, kind, name, size, align=16):
        s.id = id; s.kind = kind; s.name = name; s.size = size; s.live = True
        s.b = Plane(Base('uninit')); s.a = Plane(Base('zero')); s.align = align; s.const = False
        s.res = None   # (stride, residue) of lifetime slots
        s.own = None
    def copy(s):
        r = Region.__new__(Region)
        for k in Region.__slots__: setattr(r, k, getattr(s, k))
        return r
