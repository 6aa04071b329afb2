"""Mathematical integer terms: linear combinations over z3 atoms, with interval bounds."""
import z3, math
INF = None
class Ctx:
    """per-harness registry of atoms, bounds and ground axioms"""
    def __init__(s):
        s.reset()
    def reset(s):
        s.atoms = {}        # ast id -> (expr, lo, hi)
        s.declb = {}        # decl name -> (lo, hi)
        s.axioms = []
        s.seenuf = set()
        s.keep = []
        s.cnt = 0
        s.ts = []           # enclosing generic loop counters
        s.bcache = {}
        s.b2i = {}          # atom id -> bool expr
        s.norm = {}         # (decl name) -> None
        s.zcache = {}; s.ncache = {}
        s.bits = None       # bit-level reasoning (bits.py)
C = Ctx()
onreg = [None]

def _ibounds_decl(e):
    return C.declb.get(e.decl().name(), (None, None))

def zbounds(e):
    """structural bounds of a z3 int expression"""
    i = e.get_id()
    r = C.bcache.get(i)
    if r is not None: return r
    k = e.decl().kind()
    if k == z3.Z3_OP_ANUM:
        v = e.as_long(); r = (v, v)
    elif k == z3.Z3_OP_ITE:
        a = zbounds(e.arg(1)); b = zbounds(e.arg(2))
        r = (None if a[0] is None or b[0] is None else min(a[0], b[0]), None if a[1] is None or b[1] is None else max(a[1], b[1]))
    elif k == z3.Z3_OP_MOD and z3.is_int_value(e.arg(1)):
        m = abs(e.arg(1).as_long()); r = (0, m-1)
        b = zbounds(e.arg(0))
        if b[0] is not None and b[0] >= 0 and b[1] is not None and b[1] < m: r = b
        elif b[0] is not None and b[0] >= 0 and b[1] is not None: r = (0, min(m-1, b[1]))
    elif k == z3.Z3_OP_IDIV and z3.is_int_value(e.arg(1)):
        m = e.arg(1).as_long(); b = zbounds(e.arg(0))
        if m > 0: r = (None if b[0] is None else b[0]//m, None if b[1] is None else b[1]//m)
        else: r = (None, None)
    elif k == z3.Z3_OP_ADD:
        lo = hi = 0
        for a in e.children():
            b = zbounds(a)
            lo = None if lo is None or b[0] is None else lo + b[0]
            hi = None if hi is None or b[1] is None else hi + b[1]
        r = (lo, hi)
    elif k == z3.Z3_OP_MUL and e.num_args() == 2:
        a = zbounds(e.arg(0)); b = zbounds(e.arg(1))
        if None in a or None in b:
            if a[0] is not None and b[0] is not None and a[0] >= 0 and b[0] >= 0: r = (a[0]*b[0], None)
            elif a[0] is not None and a[0] == a[1]:
                c = a[0]; r = _scale(b, c)
            else: r = (None, None)
        else:
            ps = [x*y for x in a for y in b]; r = (min(ps), max(ps))
    elif k == z3.Z3_OP_SUB:
        a = zbounds(e.arg(0)); b = zbounds(e.arg(1))
        r = (None if a[0] is None or b[1] is None else a[0]-b[1], None if a[1] is None or b[0] is None else a[1]-b[0]) if e.num_args() == 2 else (None, None)
    elif k == z3.Z3_OP_UMINUS:
        a = zbounds(e.arg(0)); r = (None if a[1] is None else -a[1], None if a[0] is None else -a[0])
    elif k == z3.Z3_OP_UNINTERPRETED:
        r = _ibounds_decl(e)
    else: r = (None, None)
    C.keep.append(e)
    C.bcache[i] = r
    return r

def _scale(b, c):
    lo = None if b[0] is None else b[0]*c
    hi = None if b[1] is None else b[1]*c
    return (lo, hi) if c >= 0 else (hi, lo)

def register(e):
    """walk a z3 term: register bound axioms of every uninterpreted integer application in it"""
    st = [e]
    while st:
        x = st.pop()
        i = x.get_id()
        if i in C.seenuf: continue
        C.seenuf.add(i); C.keep.append(x)
        if z3.is_app(x):
            if x.decl().kind() == z3.Z3_OP_UNINTERPRETED and x.sort() == z3.IntSort():
                lo, hi = _ibounds_decl(x)
                if lo is not None: C.axioms.append(x >= lo)
                if hi is not None: C.axioms.append(x <= hi)
            if C.bits is not None and x.decl().kind() == z3.Z3_OP_UNINTERPRETED and x.num_args(): onreg[0](x)
            st.extend(x.children())

class Lin:
    __slots__ = ('c', 'm', 'h', '_z', '_b')
    def __init__(s, c, m=()):
        s.c = c; s.m = m; s.h = hash((c, m)); s._z = None; s._b = None
    def __hash__(s): return s.h
    def __eq__(s, o): return isinstance(o, Lin) and s.c == o.c and s.m == o.m
    @property
    def const(s): return not s.m
    def bounds(s):
        if s._b is None:
            lo = hi = s.c
            for a, k in s.m:
                b = _scale(zbounds(C.atoms[a]), k)
                lo = None if lo is None or b[0] is None else lo + b[0]
                hi = None if hi is None or b[1] is None else hi + b[1]
            s._b = (lo, hi)
        return s._b
    def z(s):
        if s._z is None:
            if not s.m: s._z = z3.IntVal(s.c)
            else:
                ts = []
                for a, k in s.m:
                    e = C.atoms[a]
                    ts.append(e if k == 1 else z3.IntVal(k)*e)
                if s.c: ts.append(z3.IntVal(s.c))
                s._z = ts[0] if len(ts) == 1 else z3.Sum(ts)
        return s._z
    def __repr__(s):
        r = '+'.join(('%s' % C.atoms[a] if k == 1 else '%d*%s' % (k, C.atoms[a])) for a, k in s.m)
        if s.c or not r: r = (r + '+' if r else '') + str(s.c)
        return r

def K(c): return Lin(c)

def add(a, b):
    if not b.m: return Lin(a.c+b.c, a.m) if b.c else a
    if not a.m: return Lin(a.c+b.c, b.m) if a.c else b
    d = dict(a.m)
    for k, v in b.m:
        n = d.get(k, 0) + v
        if n: d[k] = n
        else: del d[k]
    return Lin(a.c+b.c, tuple(sorted(d.items())))
def scale(a, k):
    if k == 1: return a
    if k == 0: return Lin(0)
    return Lin(a.c*k, tuple((x, v*k) for x, v in a.m))
def neg(a): return scale(a, -1)
def sub(a, b): return add(a, scale(b, -1))
def addc(a, c): return Lin(a.c+c, a.m) if c else a

def atom(e):
    i = e.get_id()
    if i not in C.atoms:
        C.atoms[i] = e
        register(e)
    return Lin(0, ((i, 1),))

def from_z3(e):
    i = e.get_id()
    r = C.zcache.get(i)
    if r is None:
        C.keep.append(e)
        r = C.zcache[i] = _from_z3(e)
    return r
def _from_z3(e):
    k = e.decl().kind()
    if k == z3.Z3_OP_ANUM: return Lin(e.as_long())
    if k == z3.Z3_OP_ADD:
        r = Lin(0)
        for a in e.children(): r = add(r, from_z3(a))
        return r
    if k == z3.Z3_OP_SUB:
        r = from_z3(e.arg(0))
        for a in e.children()[1:]: r = sub(r, from_z3(a))
        return r
    if k == z3.Z3_OP_UMINUS: return neg(from_z3(e.arg(0)))
    if k == z3.Z3_OP_MUL:
        r = Lin(1)
        for a in e.children(): r = mul(r, from_z3(a))
        return r
    if k == z3.Z3_OP_ITE:
        c = e.arg(0)
        if C.bits is not None: c = norm(c)
        return ite(c, from_z3(e.arg(1)), from_z3(e.arg(2)))
    if k == z3.Z3_OP_IDIV and z3.is_int_value(e.arg(1)): return divc(from_z3(e.arg(0)), e.arg(1).as_long())
    if k == z3.Z3_OP_MOD and z3.is_int_value(e.arg(1)): return modc(from_z3(e.arg(0)), e.arg(1).as_long())
    if C.bits is not None and k == z3.Z3_OP_UNINTERPRETED and e.num_args() and all(a.sort() == z3.IntSort() for a in e.children()):
        return atom(e.decl()(*[from_z3(a).z() for a in e.children()]))
    return atom(e)

def mul(a, b):
    if not a.m: return scale(b, a.c)
    if not b.m: return scale(a, b.c)
    r = Lin(a.c*b.c)
    r = add(r, Lin(0, tuple((x, v*b.c) for x, v in a.m if v*b.c)))
    r = add(r, Lin(0, tuple((x, v*a.c) for x, v in b.m if v*a.c)))
    for x, v in a.m:
        for y, w in b.m:
            ex, ey = C.atoms[x], C.atoms[y]
            if x > y: ex, ey = ey, ex
            r = add(r, scale(atom(ex*ey), v*w))
    return r

def content(a):
    g = 0
    for _, v in a.m: g = math.gcd(g, v)
    return g

def divexact(a, k):
    """a/k if syntactically divisible, else None"""
    if a.c % k: return None
    for _, v in a.m:
        if v % k: return None
    return Lin(a.c//k, tuple((x, v//k) for x, v in a.m))

def divc(a, k):
    """floor division by positive constant (math)"""
    if k == 1: return a
    # split divisible part
    q = []; r = []
    for x, v in a.m:
        if v % k == 0: q.append((x, v//k))
        else: r.append((x, v))
    if not r: return Lin(a.c//k, tuple(q))
    rest = Lin(a.c % k, tuple(r)); lo, hi = rest.bounds()
    base = Lin(a.c//k, tuple(q))
    if lo is not None and hi is not None and lo//k == hi//k: return addc(base, lo//k)
    g = math.gcd(content(rest), k)
    if g > 1: # floor((g*u + c)/k) = floor((u + floor(c/g))/(k/g))
        return add(base, divc(Lin(rest.c//g, tuple((x, v//g) for x, v in rest.m)), k//g))
    if C.bits is not None and lo is not None and hi is not None and hi//k - lo//k <= 2: return add(base, steps(rest, lo, hi, k))
    return add(base, atom(rest.z() / z3.IntVal(k)))
def steps(rest, lo, hi, k):
    """rest div k when it has few values: lo div k + [rest >= ...] + ..."""
    r = Lin(lo//k)
    for i in range(lo//k + 1, hi//k + 1): r = add(r, b2i(zb(le(Lin(i*k), rest))))
    return r
def modc(a, k):
    m = []
    for x, v in a.m:
        v2 = v % k
        if v2:
            # keep small negative coefs readable
            if v2 > k//2: v2 -= k
            m.append((x, v2))
    rest = Lin(a.c % k, tuple(m))
    if not m: return Lin(rest.c)
    lo, hi = rest.bounds()
    if lo is not None and hi is not None and lo//k == hi//k: return addc(rest, -(lo//k)*k)
    g = math.gcd(content(rest), k)
    if g > 1:
        inner = modc(Lin(rest.c//g, tuple((x, v//g) for x, v in rest.m)), k//g)
        return addc(scale(inner, g), rest.c % g)
    if C.bits is not None and lo is not None and hi is not None and hi//k - lo//k <= 2: return sub(rest, scale(steps(rest, lo, hi, k), k))
    return atom(rest.z() % z3.IntVal(k))

def ite(c, a, b):
    if c is True or z3.is_true(c) if not isinstance(c, bool) else c: return a
    if c is False or (not isinstance(c, bool) and z3.is_false(c)): return b
    if a == b: return a
    d = sub(a, b)
    if d.const:  # b + k*[c]
        e = atom(z3.If(c, z3.IntVal(1), z3.IntVal(0)))
        C.b2i[e.m[0][0]] = c
        return add(b, scale(e, d.c))
    return atom(z3.If(c, a.z(), b.z()))

def b2i(c):
    if c is True: return Lin(1)
    if c is False: return Lin(0)
    return ite(c, Lin(1), Lin(0))

def subst(a, pairs):
    """substitute z3 consts/apps: pairs list of (z3 expr, z3 expr)"""
    r = Lin(a.c)
    for x, v in a.m:
        e = C.atoms[x]
        e2 = z3.substitute(e, *pairs)
        r = add(r, scale(from_z3(e2) if e2.get_id() != e.get_id() else Lin(0, ((x, 1),)), v))
    return r

# boolean helpers over Lin
def le0(d):
    """d <= 0"""
    lo, hi = d.bounds()
    if hi is not None and hi <= 0: return True
    if lo is not None and lo > 0: return False
    g = content(d)
    if g > 1:
        d = Lin(-((-d.c)//g), tuple((x, v//g) for x, v in d.m))
        # sum <= floor(-c/g)  => sum - floor(-c/g) <= 0
        lo, hi = d.bounds()
        if hi is not None and hi <= 0: return True
        if lo is not None and lo > 0: return False
    return d.z() <= 0
def eq0(d):
    lo, hi = d.bounds()
    if d.const: return d.c == 0
    if (lo is not None and lo > 0) or (hi is not None and hi < 0): return False
    g = content(d)
    if g > 1:
        if d.c % g: return False
        d = Lin(d.c//g, tuple((x, v//g) for x, v in d.m))
    if len(d.m) == 1 and d.m[0][0] in C.b2i and abs(d.m[0][1]) == 1:
        c = C.b2i[d.m[0][0]]; v = d.m[0][1]
        # v*[c] + d.c == 0
        if d.c == 0: return Not(c)
        if d.c + v == 0: return c
        return False
    if C.bits is not None and d.c == 0 and len(d.m) == 2 and d.m[0][1] == -d.m[1][1] and d.m[0][0] in C.b2i and d.m[1][0] in C.b2i:
        return zb(C.b2i[d.m[0][0]]) == zb(C.b2i[d.m[1][0]])
    return d.z() == 0
def le(a, b): return le0(sub(a, b))
def lt(a, b): return le0(addc(sub(a, b), 1))
def eq(a, b): return eq0(sub(a, b))

def Not(c):
    if c is True: return False
    if c is False: return True
    if z3.is_not(c): return c.arg(0)
    return z3.Not(c)
def And(*cs):
    out = []
    for c in cs:
        if c is False: return False
        if c is True: continue
        out.append(c)
    if not out: return True
    return out[0] if len(out) == 1 else z3.And(*out)
def Or(*cs):
    out = []
    for c in cs:
        if c is True: return True
        if c is False: continue
        out.append(c)
    if not out: return False
    return out[0] if len(out) == 1 else z3.Or(*out)
def zb(c):
    return z3.BoolVal(c) if isinstance(c, bool) else c
def substb(c, pairs):
    if isinstance(c, bool): return c
    r = z3.substitute(c, *pairs)
    if C.bits is not None: r = norm(r)
    if isinstance(r, bool): return r
    register(r)
    return r
def norm(e):
    """the formula with its arithmetic in normal form"""
    i = e.get_id()
    r = C.ncache.get(i)
    if r is None:
        C.keep.append(e); r = C.ncache[i] = _norm(e)
    return r
def _norm(e):
    k = e.decl().kind()
    if z3.is_true(e): return True
    if z3.is_false(e): return False
    ch = e.children()
    if k == z3.Z3_OP_AND: return And(*[norm(c) for c in ch])
    if k == z3.Z3_OP_OR: return Or(*[norm(c) for c in ch])
    if k == z3.Z3_OP_NOT: return Not(norm(ch[0]))
    if k == z3.Z3_OP_LE: return le(from_z3(ch[0]), from_z3(ch[1]))
    if k == z3.Z3_OP_GE: return le(from_z3(ch[1]), from_z3(ch[0]))
    if k == z3.Z3_OP_LT: return lt(from_z3(ch[0]), from_z3(ch[1]))
    if k == z3.Z3_OP_GT: return lt(from_z3(ch[1]), from_z3(ch[0]))
    if k == z3.Z3_OP_EQ and ch[0].sort() == z3.IntSort(): return eq(from_z3(ch[0]), from_z3(ch[1]))
    if k == z3.Z3_OP_UNINTERPRETED and ch: return bitnorm[0](e)
    if ch and all(c.sort() == z3.BoolSort() for c in ch): return e.decl()(*[zb(norm(c)) for c in ch])
    return e
bitnorm = [None]

def var(name, lo=None, hi=None, plain=False):
    """fresh integer symbol; inside generic loop iterations it is a function of the loop counters"""
    C.cnt += 1
    nm = '%s!%d' % (name, C.cnt)
    C.declb[nm] = (lo, hi)
    if C.ts and not plain:
        f = z3.Function(nm, *([z3.IntSort()]*(len(C.ts)+1)))
        return atom(f(*C.ts))
    return atom(z3.Int(nm))
def uf(name, args, lo=None, hi=None):
    C.declb[name] = (lo, hi)
    f = z3.Function(name, *([z3.IntSort()]*(len(args)+1)))
    return atom(f(*[a.z() for a in args]))
