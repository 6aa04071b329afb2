"""Bit-level reasoning (directive OPTS: bits).

Words stay mathematical integers; and/or/xor/shifts by a variable amount are function symbols whose *bits* are defined:
bits(L, k, w) is a formula saying that bit k of L mod 2^w is set, expanded over the structure of L down to
bit(leaf, k) for leaves.  Equality of words is extensional: two words that differ do so at a witness bit."""
import z3
from term import *
import term
I = z3.IntSort()
BIT = z3.Function('bit', I, I, z3.BoolSort())
BEQ = {w: z3.Function('beq%d' % w, I, I, z3.BoolSort()) for w in (8, 16, 32, 64)}
BEQN = {'beq%d' % w: w for w in BEQ}

def on(): return C.bits is not None
def reset(flag):
    C.bits = {'pos': [K(0)], 'pairs': [], 'seen': set(), 'acc': {}} if flag else None

def ispow2(n): return n > 0 and n & (n-1) == 0
def app(e, name): return z3.is_app(e) and e.decl().kind() == z3.Z3_OP_UNINTERPRETED and e.decl().name() == name
def opname(e):
    return e.decl().name() if z3.is_app(e) and e.decl().kind() == z3.Z3_OP_UNINTERPRETED else ''
def isop(e):
    n = opname(e)
    return n == 'p2' or n in C.bits['acc'] or n[:4] in ('band', 'bor.', 'bxor', 'bshl', 'bshr')

def p2(j):
    if j.const: return Lin(1 << j.c)
    return uf('p2', [j], 1, 1 << 63)

def rng(k, w): return And(le(K(0), k), lt(k, K(w)))
def If(c, a, b):
    if c is True: return a
    if c is False: return b
    if a is b: return a
    if isinstance(a, bool) and isinstance(b, bool): return c if a and not b else Not(c) if b and not a else a
    if a is True: return Or(c, b)
    if a is False: return And(Not(c), b)
    if b is True: return Or(Not(c), a)
    if b is False: return And(c, a)
    return z3.If(c, a, b)
def Xor(a, b):
    if isinstance(a, bool): return Not(b) if a else b
    if isinstance(b, bool): return Not(a) if b else a
    return z3.Xor(a, b)

def bits(L, k, w):
    """bit k of L mod 2^w (False outside 0 <= k < w)"""
    if w <= 0: return False
    m = 1 << w
    R = rng(k, w)
    if R is False: return False
    if L.const:
        c = L.c % m
        out = []; i = 0
        while i < w:
            if c >> i & 1:
                j = i
                while j < w and c >> j & 1: j += 1
                out.append(And(le(K(i), k), lt(k, K(j)))); i = j
            else: i += 1
        return Or(*out)
    for a, cf in L.m:
        e = C.atoms[a]
        if a in C.b2i or (len(L.m) > 1 and e.decl().kind() == z3.Z3_OP_ITE):
            rest = Lin(L.c, tuple(x for x in L.m if x[0] != a))
            if a in C.b2i: c, t, f = C.b2i[a], Lin(1), Lin(0)
            else: c, t, f = e.arg(0), from_z3(e.arg(1)), from_z3(e.arg(2))
            return If(c, bits(add(rest, scale(t, cf)), k, w), bits(add(rest, scale(f, cf)), k, w))
    if len(L.m) == 1:
        a, cf = L.m[0]; e = C.atoms[a]
        cf %= m; c = L.c % m
        if cf == 0: return bits(Lin(c), k, w)
        if c == 0 and ispow2(cf):
            j = cf.bit_length() - 1
            return bits(Lin(0, ((a, 1),)), addc(k, -j), w - j) if j else bitsatom(e, k, w)
        if c == m-1 and cf == m-1: return And(R, Not(bitsatom(e, k, w)))
        if app(e, 'p2'):
            j = from_z3(e.arg(0))
            if cf == 1 and c == m-1: return And(R, lt(k, j))
            if cf == m-1 and c == 0: return And(R, le(j, k))
    if len(L.m) == 2:
        # -2^j - 1 ... and x - (x mod 2^c)
        for (a, ca), (b, cb) in ((L.m[0], L.m[1]), (L.m[1], L.m[0])):
            e = C.atoms[b]
            if ca == 1 and cb == -1 and L.c % m == 0 and e.decl().kind() == z3.Z3_OP_MOD and z3.is_int_value(e.arg(1)) and ispow2(e.arg(1).as_long()) \
               and from_z3(e.arg(0)) == Lin(0, ((a, 1),)):
                return And(R, le(K(e.arg(1).as_long().bit_length() - 1), k), bitsatom(C.atoms[a], k, w))
    return And(R, leaf(modc(L, m).z(), k))
def bitsatom(e, k, w):
    R = rng(k, w)
    kd = e.decl().kind()
    if kd == z3.Z3_OP_ITE: return If(e.arg(0), bits(from_z3(e.arg(1)), k, w), bits(from_z3(e.arg(2)), k, w))
    if kd == z3.Z3_OP_MOD and z3.is_int_value(e.arg(1)) and ispow2(e.arg(1).as_long()):
        return bits(from_z3(e.arg(0)), k, min(w, e.arg(1).as_long().bit_length() - 1))
    if kd == z3.Z3_OP_IDIV and z3.is_int_value(e.arg(1)) and ispow2(e.arg(1).as_long()):
        c = e.arg(1).as_long().bit_length() - 1
        return And(le(K(0), k), bits(from_z3(e.arg(0)), addc(k, c), w + c))
    n = opname(e)
    if n == 'p2': return And(R, eq(k, from_z3(e.arg(0))))
    if n[:4] in ('band', 'bor.', 'bxor'):
        x, y = bits(from_z3(e.arg(0)), k, w), bits(from_z3(e.arg(1)), k, w)
        return And(x, y) if n[:4] == 'band' else Or(x, y) if n[:4] == 'bor.' else Xor(x, y)
    if n[:5] == 'bshl.':
        w0 = min(w, int(n[5:])); sh = from_z3(e.arg(1))
        return And(rng(k, w0), bits(from_z3(e.arg(0)), sub(k, sh), w0))
    if n[:5] == 'bshr.':
        return And(R, bits(from_z3(e.arg(0)), add(k, from_z3(e.arg(1))), 64))
    d = C.bits['acc'].get(n)
    if d is not None:
        tvs, p0, V, init, w0 = d
        T = from_z3(e.arg(e.num_args() - 1))
        sb = [(a, e.arg(i)) for i, a in enumerate(tvs[:-1]) if not a.eq(e.arg(i))]
        p0 = subst(p0, sb) if sb else p0
        init = subst(init, sb) if sb else init
        return And(rng(k, min(w, w0)), If(And(le(p0, k), lt(k, add(p0, T))), substb(V, sb + [(tvs[-1], sub(k, p0).z())]), bits(init, k, w0)))
    lo, hi = zbounds(e)
    if lo is not None and lo >= 0 and hi is not None: R = rng(k, min(w, hi.bit_length()))
    return And(R, leaf(e, k))
def leaf(e, k):
    r = BIT(e, k.z()); register(r); return r

def position(k):
    """k is a bit position that the proof looks at"""
    key = ('pos', k)
    if key in C.bits['seen']: return
    C.bits['seen'].add(key)
    C.bits['pos'].append(k)
    for e, x, y, w in C.bits['pairs']: C.axioms.append(z3.Implies(e, zb(bits(x, k, w)) == zb(bits(y, k, w))))
def beq(x, y, w):
    e = BEQ[w](x.z(), y.z()); register(e); return e
def onreg(e):
    """a term became visible: its defining axioms"""
    n = opname(e)
    if n == 'p2':
        jz = e.arg(0)
        for c in (8, 16, 32, 64): C.axioms.append(z3.Implies(jz < c, e <= (1 << (c-1))))
        for c in (8, 16, 32): C.axioms.append(z3.Implies(jz >= c, e >= (1 << c)))
    elif n == 'bit':
        if z3.is_int_value(e.arg(1)) and e.arg(1).as_long() >= 0: C.axioms.append(e == ((e.arg(0) / (1 << e.arg(1).as_long())) % 2 == 1))
        if not isleaf(e.arg(0)):
            d = bits(from_z3(e.arg(0)), from_z3(e.arg(1)), 64)
            if not (not isinstance(d, bool) and d.eq(e)): C.axioms.append(e == zb(d))
    elif n in BEQN:
        w = BEQN[n]; x, y = from_z3(e.arg(0)), from_z3(e.arg(1))
        wit = uf('bitwit%d' % w, [x, y], 0, w-1)
        C.axioms.append(e == (e.arg(0) == e.arg(1)))
        C.axioms.append(z3.Or(e, zb(Xor(bits(x, wit, w), bits(y, wit, w)))))
        C.bits['pairs'].append((e, x, y, w))
        for k in C.bits['pos']: C.axioms.append(z3.Implies(e, zb(bits(x, k, w)) == zb(bits(y, k, w))))
def isleaf(x):
    k = x.decl().kind()
    return k == z3.Z3_OP_UNINTERPRETED and not isop(x)
def hasop(L):
    """does the value involve a bit operation?"""
    seen = set(); st = [C.atoms[a] for a, _ in L.m]
    while st:
        e = st.pop()
        if e.get_id() in seen: continue
        seen.add(e.get_id())
        if isop(e): return True
        if e.decl().kind() != z3.Z3_OP_UNINTERPRETED: st.extend(e.children())
    return False

def word(x):
    """the content of a memory cell"""
    if len(x.m) != 1 or x.c or x.m[0][1] != 1: return False
    e = C.atoms[x.m[0][0]]; hi = zbounds(e)[1]
    return e.decl().kind() == z3.Z3_OP_UNINTERPRETED and e.num_args() > 0 and hi in (255, 65535, 0xffffffff, (1 << 64) - 1)

def single(x):
    """j when x is the word with exactly bit j set"""
    if len(x.m) == 1 and x.c == 0 and x.m[0][1] == 1:
        e = C.atoms[x.m[0][0]]
        if app(e, 'p2'): return from_z3(e.arg(0))
    if x.const and ispow2(x.c): return K(x.c.bit_length() - 1)
    return None
def op(name, x, y, w):
    """x, y in [0, 2^w)"""
    m = 1 << w
    if name == 'and':
        for a, b in ((x, y), (y, x)):
            j = single(b)
            if j is not None and not (a.const):
                position(j)
                return ite(zb(bits(a, j, w)), b, Lin(0))
        if x == y: return x
    if name in ('or', 'xor'):
        if x.const and x.c == 0: return y
        if y.const and y.c == 0: return x
    if name == 'shl': return uf('bshl.%d' % w, [x, y], 0, m-1)
    if name == 'lshr': return uf('bshr.%d' % w, [x, y], 0, m-1)
    return uf({'and': 'band.', 'or': 'bor.', 'xor': 'bxor.'}[name] + str(w), [x, y], 0, m-1)

term.onreg[0] = onreg

def bitnorm(e):
    n = opname(e)
    if n == 'bit': return bits(from_z3(e.arg(0)), from_z3(e.arg(1)), 64)
    if n in BEQN: return e.decl()(*[from_z3(a).z() for a in e.children()])
    return e
term.bitnorm[0] = bitnorm
