"""Contracts of C library functions: calendar time and strftime. Each is a fixed but arbitrary function of its inputs."""
import z3
from term import *
from mem import *
from symex import *
from intrin import h, U, cstr

TM = [('tm_sec', 0), ('tm_min', 4), ('tm_hour', 8), ('tm_mday', 12), ('tm_mon', 16), ('tm_year', 20), ('tm_wday', 24), ('tm_yday', 28), ('tm_isdst', 32)]
I32 = (-(1 << 31), (1 << 31) - 1)
I64 = (-(1 << 63), (1 << 63) - 1)
def unfork(f):
    """the contracts below write only after every read has succeeded"""
    return f
def put_tm(ex, st, p, kind, T):
    reg = ex.chk(st, p, 56, kind, True)
    for nm, o in TM: ex.wr(st, p.r, 'b', addc(p.o, o), 4, Int(32, uf('%s_%s' % (kind, nm), [T], *I32)))
    ex.wr(st, p.r, 'b', addc(p.o, 40), 8, Int(64, uf('%s_tm_gmtoff' % kind, [T], *I64)))
    ex.wr(st, p.r, 'b', addc(p.o, 48), 8, Ptr(None, Lin(0)))
def signed(ex, st, p, o, w):
    ty = None
    v = ex.load(st, Ptr(p.r, addc(p.o, o)), __import__('ir').Ty('i', 8*w))
    if v is Undef: return None
    return ex.ns(st, v)
def get_tm(ex, st, p, kind):
    ex.chk(st, p, 56, kind)
    fs = [signed(ex, st, p, o, 4) for _, o in TM]
    if None in fs:
        ex.prove(st, False, ex.ob_here(st, 'no use of uninitialised values'), '%s of uninitialised fields' % kind)
    return fs
def brk(kind):
    def f(ex, st, a, ins):
        t = ex.asptr(st, a[0]); p = ex.asptr(st, a[1])
        ex.chk(st, t, 8, kind)
        T = signed(ex, st, t, 0, 8)
        if T is None: ex.prove(st, False, ex.ob_here(st, 'no use of uninitialised values'), kind)
        ok = ex.need(st, eq(uf(kind + '_represents', [T], 0, 1), K(1)))
        if not ok: return Ptr(None, Lin(0))
        put_tm(ex, st, p, kind, T)
        return p
    return f
h('gmtime_r')(brk('gmtime')); h('localtime_r')(brk('localtime'))
def comp(kind, norm):
    def f(ex, st, a, ins):
        p = ex.asptr(st, a[0])
        fs = get_tm(ex, st, p, kind)
        # what day of the week and year it is follows from the others
        R = uf(kind, [x for (nm, _), x in zip(TM, fs) if nm not in ('tm_wday', 'tm_yday')], *I64)
        put_tm(ex, st, p, norm + '_normalised', R)
        return Int(64, R)
    return f
h('timegm')(comp('timegm', 'gmtime')); h('mktime')(comp('mktime', 'localtime'))
@h('time')
def time(ex, st, a, ins):
    if not (isinstance(a[0], Ptr) and a[0].r is None): raise Unsupported('time with a destination')
    prev = st.ghost.get('now')
    v = var('now', 0, 1 << 62)
    if prev is not None: ex.assume(st, zb(le(prev, v)))
    st.ghost = dict(st.ghost); st.ghost['now'] = v
    return Int(64, v)

# ---------------------------------------------------------------- C strings and strftime
@h('vf_cstr')
def vf_cstr(ex, st, a, ins):
    """an arbitrary constant string of length n"""
    nm = cstr(ex, st, a[0]); n = U(ex, st, a[1])
    r = ex.newregion(st, 'ext', nm, addc(n, 1), 1)
    C.cnt += 1
    fn = '%s!%d' % (nm, C.cnt)
    C.declb[fn] = (1, 255)
    st.mem[r].b = Plane(Base('sym', fn, 1, 0))
    ex.wr(st, r, 'b', n, 1, Int(8, Lin(0)))
    ex.wreg(st, r).const = True
    st.ghost = dict(st.ghost); st.ghost[('cstr', r)] = n
    st.choices.append((nm, ('array', fn, n, 1)))
    return Ptr(r, Lin(0))

def text_of(ex, st, src, tm):
    """(length, region of the text) for the string in region src and the time tm"""
    fs = get_tm(ex, st, tm, 'strftime')
    ts = st.ghost.get('texts', ())
    for src2, fs2, L, r in ts:
        if src2 == src and all(x is y or eq(x, y) is True or ex.proved(st, zb(eq(x, y))) for x, y in zip(fs, fs2)): return L, r
    L = var('strftime_length', 0, 1 << 40)
    c = Or(Not(eq0(st.ghost[('cstr', src)])), eq0(L))       # nothing for the empty format
    if c is not True: ex.assume(st, zb(c))
    C.cnt += 1
    fn = 'strftime_text!%d' % C.cnt
    C.declb[fn] = (1, 255)
    r = ex.newregion(st, 'ext', 'text', L, 1)
    st.mem[r].b = Plane(Base('sym', fn, 1, 0))
    ex.wreg(st, r).const = True
    st.ghost = dict(st.ghost); st.ghost['texts'] = ts + ((src, fs, L, r),)
    return L, r
@h('vf_text_len')
def vf_text_len(ex, st, a, ins):
    p = ex.asptr(st, a[0])
    if not (p.o.const and p.o.c == 0 and ('cstr', p.r) in st.ghost): raise Unsupported('vf_text_len')
    return Int(64, text_of(ex, st, p.r, ex.asptr(st, a[1]))[0])
@h('vf_text')
def vf_text(ex, st, a, ins):
    p = ex.asptr(st, a[0])
    return Ptr(text_of(ex, st, p.r, ex.asptr(st, a[1]))[1], Lin(0))

def same_byte(ex, st, r1, o1, r2, o2, depth=0):
    """the bytes are equal, in every case in which memory may look different"""
    try:
        x = r1.b.read(ex, st, o1, 1); y = r2.b.read(ex, st, o2, 1)
        return x is not Undef and y is not Undef and ex.proved(st, zb(eq(ex.nu(st, x), ex.nu(st, y))))
    except Fork as f:
        if depth > 6: return False
        for c in (f.cond, Not(f.cond)):
            st2 = st.clone()
            if c is False: continue
            if c is not True: ex.assume(st2, zb(c))
            if ex.feasible(st2) and not same_byte(ex, st2, r1, o1, r2, o2, depth + 1): return False
        return True
def byte(ex, st, reg, o):
    try: v = reg.b.read(ex, st, o, 1)
    except Unsupported: return None
    return v.l.c & 255 if isinstance(v, Int) and v.l.const else None
def parse(ex, st, p):
    """the string at p as (leading ordinary characters, source string or None, trailing ordinary characters)"""
    reg = st.mem[p.r]
    pre = b''
    for _ in range(8):
        o = addc(p.o, len(pre))
        # the rest is one of the known strings?
        for k, n in list(st.ghost.items()):
            if not (isinstance(k, tuple) and k[0] == 'cstr'): continue
            src = st.mem[k[1]]
            if p.r == k[1]:
                if o.const and o.c == 0: return b'', k[1], b''
                continue
            C.cnt += 1
            i = z3.Int('strftime_i!%d' % C.cnt); C.declb['strftime_i!%d' % C.cnt] = (0, None)
            st2 = st.clone(); il = atom(i)
            ex.assume(st2, zb(lt(il, n)))
            empty = not ex.feasible(st2)
            ok = False
            try:
                if not ex.proved(st, zb(le(addc(add(o, n), 1), reg.size))): continue
                ok = empty or same_byte(ex, st2, reg, add(o, il), src, il)
            except Unsupported: continue
            if not ok: continue
            post = b''
            for _ in range(8):
                c = byte(ex, st, reg, addc(add(o, n), len(post)))
                if c is None or c == 37: post = None; break
                if c == 0: break
                post += bytes([c])
            if post is not None: return pre, k[1], post
        c = byte(ex, st, reg, o)
        if c is None: break
        if c == 0: return pre, None, b''
        if c == 37: break
        pre += bytes([c])
    raise Unsupported('strftime of a format that is not built from the given one')
@h('strftime')
def strftime(ex, st, a, ins):
    out = ex.asptr(st, a[0]); mx = U(ex, st, a[1]); fmt = ex.asptr(st, a[2]); tm = ex.asptr(st, a[3])
    ex.chk(st, fmt, 1, 'strftime')
    if not (mx.const and mx.c == 0): ex.chk(st, out, mx, 'strftime', True)
    pre, src, post = parse(ex, st, fmt)
    if src is None: L, r = Lin(0), None; get_tm(ex, st, tm, 'strftime')
    else: L, r = text_of(ex, st, src, tm)
    total = addc(L, len(pre) + len(post))
    fits = lt(total, mx)
    # termination: an attempt is repeated with a bigger buffer only when the output did not fit before
    last = st.ghost.get('strftime_last')
    if last is not None:
        ex.prove(st, Not(lt(total, last)), ex.ob_here(st, 'strftime is repeated only while its output does not fit (termination)'), 'the output did fit into a buffer of %r' % last)
    ok = ex.need(st, fits)
    st.ghost = dict(st.ghost); st.ghost['strftime_last'] = mx
    C.cnt += 1
    junk = 'strftime_buf!%d' % C.cnt; C.declb[junk] = (0, 255)
    reg = ex.chk(st, out, mx, 'strftime', True)
    pl = reg.b.flush(ex, st, out.o, mx)
    pl.node = Copy(pl.node, out.o, mx, Plane(Base('sym', junk, 1, 0)), Lin(0))
    if ok:
        o = out.o
        for ch in pre: pl = pl.write(ex, st, o, 1, Int(8, Lin(ch))); o = addc(o, 1)
        if src is not None:
            pl = pl.flush(ex, st, o, L)
            pl.node = Copy(pl.node, o, L, st.mem[r].b, Lin(0)); o = add(o, L)
        for ch in post: pl = pl.write(ex, st, o, 1, Int(8, Lin(ch))); o = addc(o, 1)
        pl = pl.write(ex, st, o, 1, Int(8, Lin(0)))
    ex.wreg(st, out.r).b = pl
    return Int(64, total if ok else Lin(0))

# ---------------------------------------------------------------- std::locale as a member of basic_streambuf
@h('_ZNSt6localeC1Ev', '_ZNSt6localeC2Ev', '_ZNSt6localeD1Ev', '_ZNSt6localeD2Ev')
def locale(ex, st, a, ins):
    ex.assumed.add('std::locale construction and destruction have no effect on other objects')
    return None
