"""Parser for the textual LLVM IR that clang 18 emits from the real headers."""
import re

TOK = re.compile(r'''
 (?P<str>c?"(?:[^"\\]|\\[0-9a-fA-F]{2}|\\\\)*")
|(?P<loc>%(?:"[^"]*"|[-\w.$]+))
|(?P<glob>@(?:"[^"]*"|[-\w.$]+))
|(?P<meta>!(?:"[^"]*"|[-\w.]*))
|(?P<attr>\#\d+)
|(?P<num>-?\d+(?:\.\d+(?:e[+-]?\d+)?)?|0x[0-9A-Fa-fKMLHR]+)
|(?P<word>[A-Za-z_][\w.]*)
|(?P<dots>\.\.\.)
|(?P<p>[(){}\[\]<>,=*:|])
''', re.X)

def toks(s):
    out = []
    i = 0
    n = len(s)
    while i < n:
        ch = s[i]
        if ch in ' \t':
            i += 1; continue
        if ch == ';':
            break
        m = TOK.match(s, i)
        if not m:
            raise SyntaxError('tok: %r' % s[i:i+40])
        out.append((m.lastgroup, m.group()))
        i = m.end()
    return out

class Ty:
    __slots__ = ('k', 'n', 'e', 'packed', 'name')
    def __init__(s, k, n=0, e=None, packed=False, name=None):
        s.k = k; s.n = n; s.e = e; s.packed = packed; s.name = name
    def __repr__(s):
        if s.k == 'i': return 'i%d' % s.n
        if s.k == 'a': return '[%d x %r]' % (s.n, s.e)
        if s.k == 's': return s.name or '{%s}' % ','.join(map(repr, s.e or []))
        return s.k
VOID = Ty('void'); PTR = Ty('ptr'); META = Ty('meta'); LABEL = Ty('label')
_ints = {}
def I(n):
    t = _ints.get(n)
    if t is None: t = _ints[n] = Ty('i', n)
    return t

PARAM_ATTRS = {'noundef','nonnull','signext','zeroext','inreg','noalias','nocapture','readonly','readnone','writeonly','returned','nofree','immarg','swiftself','nest','writable','dead_on_unwind','inalloca','allocalign','allocptr','noinline'}
PARAM_ATTRS_ARG = {'align','dereferenceable','dereferenceable_or_null','sret','byval','byref','preallocated','elementtype','nofpclass','range','captures','memory'}

class Op:          # operand
    __slots__ = ('k', 'ty', 'v')
    def __init__(s, k, ty, v=None):
        s.k = k; s.ty = ty; s.v = v
    def __repr__(s): return '%s:%r:%r' % (s.k, s.ty, s.v)

class Inst:
    __slots__ = ('op', 'res', 'ty', 'a', 'x', 'dbg', 'text')
    def __init__(s, op, res): s.op = op; s.res = res; s.ty = None; s.a = []; s.x = {}; s.dbg = None; s.text = None

class Block:
    __slots__ = ('name', 'insts', 'phis', 'succs')
    def __init__(s, n): s.name = n; s.insts = []; s.phis = []; s.succs = []

class Func:
    def __init__(s, name): s.name = name; s.params = []; s.ret = None; s.blocks = {}; s.entry = None; s.vararg = False; s._loops = None

class P:
    """token-stream parser for one line"""
    def __init__(s, mod, tk): s.m = mod; s.t = tk; s.i = 0
    def pk(s, d=0):
        j = s.i + d
        return s.t[j][1] if j < len(s.t) else None
    def kd(s): return s.t[s.i][0] if s.i < len(s.t) else None
    def nx(s):
        v = s.t[s.i]; s.i += 1; return v[1]
    def ac(s, v):
        if s.pk() == v: s.i += 1; return True
        return False
    def ex(s, v):
        g = s.nx()
        if g != v: raise SyntaxError('expected %s got %s in %s' % (v, g, ' '.join(x[1] for x in s.t)))
    def ty(s):
        v = s.nx()
        if v == 'ptr':
            if s.pk() == 'addrspace':
                s.nx(); s.ex('('); s.nx(); s.ex(')')
            t = PTR
        elif v == 'void': t = VOID
        elif v == 'metadata': t = META
        elif v == 'label': t = LABEL
        elif v in ('float',): t = Ty('f', 32)
        elif v in ('double',): t = Ty('f', 64)
        elif v in ('x86_fp80',): t = Ty('f', 80)
        elif v in ('half',): t = Ty('f', 16)
        elif v in ('token','opaque'): t = Ty(v)
        elif re.fullmatch(r'i\d+', v): t = I(int(v[1:]))
        elif v == '[':
            n = int(s.nx()); s.ex('x'); e = s.ty(); s.ex(']'); t = Ty('a', n, e)
        elif v == '{': t = s.struct(False)
        elif v == '<':
            if s.pk() == '{':
                s.nx(); t = s.struct(True); s.ex('>')
            else:
                n = int(s.nx()); s.ex('x'); e = s.ty(); s.ex('>'); t = Ty('v', n, e)
        elif v[0] == '%': t = s.m.named(v)
        else: raise SyntaxError('type? %s in %s' % (v, ' '.join(x[1] for x in s.t)))
        while s.pk() == '(' and s.fn_type_ahead():   # function type
            d = 0
            while True:
                w = s.nx()
                if w == '(': d += 1
                if w == ')':
                    d -= 1
                    if d == 0: break
            t = Ty('fn', 0, t)
        while s.pk() == '*': s.nx(); t = PTR
        return t
    def fn_type_ahead(s):
        # "ty (" only starts a function type in call/invoke callee position
        return s.allow_fn
    allow_fn = False
    def struct(s, packed):
        e = []
        if s.ac('}'): return Ty('s', 0, e, packed)
        while True:
            e.append(s.ty())
            if s.ac('}'): break
            s.ex(',')
        return Ty('s', 0, e, packed)
    def attrs(s):
        info = {}
        while True:
            v = s.pk()
            if v in PARAM_ATTRS: s.nx(); info[v] = True
            elif v in PARAM_ATTRS_ARG:
                s.nx()
                if s.pk() == '(':
                    d = 0; st = s.i
                    if v in ('sret','byval'):
                        s.nx(); info[v] = s.ty(); s.ex(')')
                        continue
                    while True:
                        w = s.nx()
                        if w == '(': d += 1
                        if w == ')':
                            d -= 1
                            if d == 0: break
                    info[v] = True
                else: s.nx(); info[v] = True
            elif v and v[0] == '"' :
                s.nx()
                if s.ac('='): s.nx()
            else: break
        return info
    def val(s, ty):
        k = s.kd(); v = s.nx()
        if k == 'loc': return Op('l', ty, v)
        if k == 'glob': return Op('g', ty, v)
        if k == 'num':
            if ty.k == 'f': return Op('fp', ty, v)
            return Op('c', ty, int(v, 0) if not v.startswith('0x') else v)
        if k == 'str': return Op('s', ty, unesc(v[2:-1]))
        if v == 'true': return Op('c', ty, 1)
        if v == 'false': return Op('c', ty, 0)
        if v == 'null': return Op('null', ty)
        if v in ('undef','poison'): return Op('undef', ty)
        if v == 'zeroinitializer': return Op('zero', ty)
        if v == 'none': return Op('undef', ty)
        if v in ('[','{') or (v == '<'):
            packed = False
            if v == '<' and s.pk() == '{': s.nx(); packed = True; close = '}'
            else: close = {'[':']','{':'}','<':'>'}[v]
            es = []
            if not s.ac(close):
                while True:
                    es.append(s.tv())
                    if s.ac(close): break
                    s.ex(',')
            if packed: s.ex('>')
            return Op('agg', ty, es)
        if v == 'getelementptr':
            while s.pk() in ('inbounds','nuw','nusw'): s.nx()
            if s.pk() == 'inrange':
                s.nx()
                while s.nx() != ')': pass
            s.ex('('); bt = s.ty(); s.ex(',')
            args = []
            while True:
                s.ac('inrange')
                args.append(s.tv())
                if s.ac(')'): break
                s.ex(',')
            return Op('gep', ty, (bt, args))
        if v in ('ptrtoint','inttoptr','bitcast','trunc','zext','sext','addrspacecast'):
            s.ex('('); a = s.tv(); s.ex('to'); t2 = s.ty(); s.ex(')')
            return Op('cast', ty, (v, a, t2))
        if v in ('add','sub','mul','and','or','xor','shl','lshr'):
            while s.pk() in ('nuw','nsw'): s.nx()
            s.ex('('); a = s.tv(); s.ex(','); b = s.tv(); s.ex(')')
            return Op('bin', ty, (v, a, b))
        if v == 'dso_local_equivalent' or v == 'no_cfi':
            return s.val(ty)
        if v == 'asm':
            return Op('asm', ty, None)
        raise SyntaxError('value? %s in %s' % (v, ' '.join(x[1] for x in s.t)))
    def tv(s):
        t = s.ty()
        if t.k == 'meta':
            # metadata operand: swallow
            d = 0
            while s.pk() is not None:
                w = s.pk()
                if d == 0 and w in (',', ')'): break
                if w == '(': d += 1
                if w == ')': d -= 1
                s.nx()
            return Op('md', t)
        s.attrs()
        return s.val(t)

def unesc(b):
    out = bytearray(); i = 0
    while i < len(b):
        if b[i] == '\\':
            if b[i+1] == '\\': out.append(92); i += 2
            else: out.append(int(b[i+1:i+3], 16)); i += 3
        else: out += b[i].encode('latin1','replace'); i += 1
    return bytes(out)

BIN = {'add','sub','mul','udiv','sdiv','urem','srem','and','or','xor','shl','lshr','ashr','fadd','fsub','fmul','fdiv','frem'}
CAST = {'trunc','zext','sext','ptrtoint','inttoptr','bitcast','fptoui','fptosi','uitofp','sitofp','fptrunc','fpext','addrspacecast'}
LINKAGE = {'private','internal','external','linkonce','linkonce_odr','weak','weak_odr','common','appending','extern_weak','available_externally','dso_local','dso_preemptable','hidden','protected','default','unnamed_addr','local_unnamed_addr','thread_local','externally_initialized','constant','global','comdat','noundef','nonnull','signext','zeroext','noalias','fastcc','ccc','coldcc'}

class Module:
    def __init__(s, text):
        s.types = {}; s.typetext = {}; s.globals = {}; s.funcs = {}; s.decls = {}; s.ftext = {}; s.meta = {}; s.fattrs = {}; s.fmeta = {}
        s.aliases = {}
        lines = text.split('\n')
        i = 0; n = len(lines)
        while i < n:
            L = lines[i]
            if L.startswith('define '):
                j = i + 1
                while lines[j] != '}': j += 1
                nm = re.search(r'@("[^"]*"|[-\w.$]+)\(', L).group(1).strip('"')
                s.ftext[nm] = (L, lines[i+1:j])
                i = j + 1; continue
            if L.startswith('declare '):
                nm = re.search(r'@("[^"]*"|[-\w.$]+)\(', L).group(1).strip('"')
                s.decls[nm] = L
            elif L.startswith('%'):
                nm, rest = L.split(' = type ', 1)
                s.typetext[nm] = rest
            elif L.startswith('@'):
                m = re.match(r'@("[^"]*"|[-\w.$]+) = ', L)
                nm = m.group(1).strip('"')
                rest = L[m.end():]
                if re.search(r'\balias\b', rest.split('@')[0]):
                    s.aliases[nm] = re.search(r'@("[^"]*"|[-\w.$]+)', rest).group(1).strip('"')
                else: s.globals[nm] = [rest, None]
            elif L.startswith('!'):
                a, b = L.split(' = ', 1)
                s.meta[a] = b
            elif L.startswith('attributes'):
                m = re.match(r'attributes (#\d+) = \{(.*)\}', L)
                s.fattrs[m.group(1)] = m.group(2)
            i += 1
    def named(s, nm):
        t = s.types.get(nm)
        if t is None:
            t = s.types[nm] = Ty('s', 0, None, False, nm)
            rest = s.typetext.get(nm, 'opaque')
            if rest.strip() == 'opaque': t.e = None
            else:
                r = P(s, toks(rest)).ty()
                t.e = r.e; t.packed = r.packed
                if r.k != 's': raise SyntaxError('named non-struct')
        return t
    # layout
    def size(s, t):
        k = t.k
        if k == 'i': return {1:1,8:1,16:2,32:4,64:8,128:16}.get(t.n) or ((t.n+63)//64*8 if t.n>64 else 8 if t.n > 32 else 4 if t.n>16 else 2 if t.n > 8 else 1)
        if k == 'ptr': return 8
        if k == 'f': return {16:2,32:4,64:8,80:16}[t.n]
        if k == 'a': return t.n * s.size(t.e)
        if k == 'v': return t.n * s.size(t.e)
        if k == 's': return s.slay(t)[1]
        raise SyntaxError('size of %r' % t)
    def align(s, t):
        k = t.k
        if k == 'i': return min(16, s.size(t))
        if k in ('ptr','f'): return s.size(t)
        if k == 'a': return s.align(t.e)
        if k == 'v': return s.size(t)
        if k == 's': return 1 if t.packed else max([s.align(e) for e in t.e] or [1])
        raise SyntaxError
    def slay(s, t):
        offs = []; o = 0
        for e in t.e:
            if not t.packed:
                a = s.align(e); o = (o + a - 1)//a*a
            offs.append(o); o += s.size(e)
        if not t.packed:
            a = s.align(t); o = (o + a - 1)//a*a
        return offs, o
    def func(s, nm):
        nm = s.aliases.get(nm, nm)
        f = s.funcs.get(nm)
        if f is None and nm in s.ftext:
            f = s.funcs[nm] = s.parse_func(nm)
        return f
    def glob(s, nm):
        g = s.globals.get(nm)
        if g is None: return None
        if g[1] is None:
            tk = toks(g[0]); p = P(s, tk); const = False; ext = False
            while p.pk() in LINKAGE or p.pk() == 'comdat':
                w = p.nx()
                if w == 'constant': const = True
                if w == 'external': ext = True
                if w in ('comdat','thread_local') and p.pk() == '(':
                    while p.nx() != ')': pass
                if w in ('constant','global'): break
            ty = p.ty()
            init = None
            if not ext and p.pk() is not None and p.pk() != ',': init = p.val(ty)
            g[1] = (ty, init, const)
        return g[1]
    def parse_func(s, nm):
        head, body = s.ftext[nm]
        f = Func(nm)
        h = head[len('define '):]
        tk = toks(h.rsplit('{',1)[0]); p = P(s, tk)
        while True:
            v = p.pk()
            if v in LINKAGE or v in PARAM_ATTRS: p.nx()
            elif v in PARAM_ATTRS_ARG: p.attrs()
            elif v and v[0] == '"': p.attrs()
            else: break
        f.ret = p.ty(); p.nx(); p.ex('(')
        auto = 0
        f.pattrs = []
        if not p.ac(')'):
            while True:
                if p.ac('...'): f.vararg = True; p.ex(')'); break
                t = p.ty(); at = p.attrs()
                if p.kd() == 'loc': n = p.nx()
                else: n = '%%%d' % auto
                if re.fullmatch(r'%\d+', n): auto = int(n[1:]) + 1
                f.params.append((t, n)); f.pattrs.append(at)
                if p.ac(')'): break
                p.ex(',')
        f.attrs = ''.join(s.fattrs.get(w[1], '') for w in p.t[p.i:] if w[0] == 'attr')
        m = re.search(r'!dbg (!\d+)', head)
        f.dbg = m.group(1) if m else None
        cur = None
        k = 0; nb = len(body)
        while k < nb:
            L = body[k]; k += 1
            if not L.strip(): continue
            if L[0] not in ' \t;':
                lab = re.match(r'("[^"]*"|[-\w.$]+):', L).group(1)
                cur = Block('%' + lab); f.blocks[cur.name] = cur
                if f.entry is None: f.entry = cur.name
                continue
            if L.lstrip().startswith(';'): continue
            if cur is None:
                cur = Block('%%%d' % auto); f.blocks[cur.name] = cur; f.entry = cur.name
            st = L.strip()
            # multi-line: switch, landingpad, invoke
            if ' switch ' in ' '+st or st.startswith('switch '):
                while not body[k-1].strip().endswith(']') and ']' not in body[k-1]:
                    st += ' ' + body[k].strip(); k += 1
            if 'invoke ' in st and ' to label ' not in st:
                st += ' ' + body[k].strip(); k += 1
            if re.match(r'(%\S+ = )?landingpad', st):
                while k < nb and re.match(r'\s+(cleanup|catch|filter)', body[k]):
                    st += ' ' + body[k].strip(); k += 1
            ins = s.parse_inst(st)
            if ins.op == 'phi': cur.phis.append(ins)
            else: cur.insts.append(ins)
        for b in f.blocks.values():
            if not b.insts: continue
            t = b.insts[-1]
            if t.op == 'br': b.succs = [x for x in t.x['dst']]
            elif t.op == 'switch': b.succs = [t.x['def']] + [d for _, d in t.x['cases']]
            elif t.op == 'invoke': b.succs = [t.x['to'], t.x['unw']]
        return f
    def parse_inst(s, st):
        tk = toks(st)
        p = P(s, tk)
        res = None
        if p.kd() == 'loc' and p.pk(1) == '=':
            res = p.nx(); p.nx()
        op = p.nx()
        while op in ('tail','musttail','notail'): op = p.nx()
        ins = Inst(op, res); ins.text = st
        m = re.search(r'!dbg (!\d+)', st)
        if m: ins.dbg = m.group(1)
        x = ins.x
        if op in BIN:
            fl = set()
            while p.pk() in ('nuw','nsw','exact','disjoint','fast','nnan','ninf','nsz','arcp','contract','afn','reassoc'): fl.add(p.nx())
            x['fl'] = fl
            t = p.ty(); a = p.val(t); p.ex(','); b = p.val(t); ins.ty = t; ins.a = [a, b]
        elif op in CAST:
            while p.pk() in ('nneg','nuw','nsw'): p.nx()
            a = p.tv(); p.ex('to'); ins.ty = p.ty(); ins.a = [a]
        elif op == 'alloca':
            p.ac('inalloca'); t = p.ty(); ins.ty = PTR; x['at'] = t; x['n'] = None
            if p.ac(','):
                if p.pk() != 'align': x['n'] = p.tv()
        elif op == 'load':
            x['atomic'] = p.ac('atomic'); x['vol'] = p.ac('volatile')
            t = p.ty(); p.ex(','); a = p.tv(); ins.ty = t; ins.a = [a]
            x['ord'] = None
            if p.pk() == 'syncscope':
                while p.nx() != ')': pass
            if x['atomic']: x['ord'] = p.nx()
            m = re.search(r', align (\d+)', st); x['align'] = int(m.group(1)) if m else 1
        elif op == 'store':
            x['atomic'] = p.ac('atomic'); x['vol'] = p.ac('volatile')
            v = p.tv(); p.ex(','); a = p.tv(); ins.a = [v, a]
            if p.pk() == 'syncscope':
                while p.nx() != ')': pass
            x['ord'] = p.nx() if x['atomic'] else None
            m = re.search(r', align (\d+)', st); x['align'] = int(m.group(1)) if m else 1
        elif op == 'getelementptr':
            x['inb'] = False
            while p.pk() in ('inbounds','nuw','nusw'): x['inb'] = p.nx() == 'inbounds' or x['inb']
            x['bt'] = p.ty(); ins.ty = PTR
            while p.ac(','):
                if p.kd() == 'meta': break
                ins.a.append(p.tv())
        elif op in ('icmp','fcmp'):
            if op == 'fcmp':
                while p.pk() in ('fast','nnan','ninf','nsz','arcp','contract','afn','reassoc'): p.nx()
            p.ac('samesign')
            x['pred'] = p.nx(); t = p.ty(); a = p.val(t); p.ex(','); b = p.val(t); ins.a = [a, b]; ins.ty = I(1)
        elif op == 'select':
            c = p.tv(); p.ex(','); a = p.tv(); p.ex(','); b = p.tv(); ins.a = [c, a, b]; ins.ty = a.ty
        elif op == 'br':
            if p.pk() == 'label': p.nx(); x['dst'] = [p.nx()]
            else:
                c = p.tv(); p.ex(','); p.ex('label'); d1 = p.nx(); p.ex(','); p.ex('label'); d2 = p.nx()
                ins.a = [c]; x['dst'] = [d1, d2]
        elif op == 'switch':
            v = p.tv(); p.ex(','); p.ex('label'); x['def'] = p.nx(); p.ex('[')
            cs = []
            while not p.ac(']'):
                c = p.tv(); p.ex(','); p.ex('label'); cs.append((c.v, p.nx()))
            ins.a = [v]; x['cases'] = cs
        elif op == 'ret':
            t = p.ty()
            if t.k != 'void': ins.a = [p.val(t)]
            ins.ty = t
        elif op in ('call','invoke'):
            while p.pk() in ('fast','nnan','ninf','nsz','arcp','contract','afn','reassoc','fastcc','ccc','coldcc'): p.nx()
            p.attrs()
            while p.pk() in LINKAGE: p.nx()
            p.allow_fn = True; t = p.ty(); p.allow_fn = False
            if t.k == 'fn': t = t.e
            ins.ty = t
            if p.pk() == 'asm':
                p.nx()
                while p.pk() in ('sideeffect','alignstack','inteldialect','unwind'): p.nx()
                x['asm'] = p.nx(); p.ex(','); p.nx(); callee = Op('asm', PTR)
            else: callee = p.val(PTR)
            p.ex('(')
            args = []; pat = []
            if not p.ac(')'):
                while True:
                    t2 = p.ty()
                    if t2.k == 'meta':
                        p.i -= 1; args.append(p.tv()); pat.append({})
                    else:
                        at = p.attrs(); args.append(p.val(t2)); pat.append(at)
                    if p.ac(')'): break
                    p.ex(',')
            x['callee'] = callee; ins.a = args; x['pat'] = pat
            if op == 'invoke':
                while p.pk() != 'to': p.nx()
                p.nx(); p.ex('label'); x['to'] = p.nx(); p.ex('unwind'); p.ex('label'); x['unw'] = p.nx()
        elif op == 'landingpad':
            ins.ty = p.ty(); x['cleanup'] = False; cl = []
            while p.pk() is not None and p.pk() != ',':
                if p.ac('cleanup'): x['cleanup'] = True
                elif p.ac('catch'): cl.append(('catch', p.tv()))
                elif p.ac('filter'): cl.append(('filter', p.tv()))
                else: break
            x['cl'] = cl
        elif op == 'resume': ins.a = [p.tv()]
        elif op == 'unreachable': pass
        elif op == 'phi':
            t = p.ty(); ins.ty = t; inc = []
            while True:
                p.ex('['); v = p.val(t); p.ex(','); l = p.nx(); p.ex(']'); inc.append((v, l))
                if not (p.ac(',') and p.pk() == '['): break
            x['in'] = inc
        elif op in ('extractvalue',):
            a = p.tv(); ins.a = [a]; idx = []
            while p.ac(','):
                if p.kd() == 'meta': break
                idx.append(int(p.nx()))
            x['idx'] = idx
        elif op == 'insertvalue':
            a = p.tv(); p.ex(','); b = p.tv(); ins.a = [a, b]; idx = []
            while p.ac(','):
                if p.kd() == 'meta': break
                idx.append(int(p.nx()))
            x['idx'] = idx; ins.ty = a.ty
        elif op == 'atomicrmw':
            p.ac('volatile'); x['rop'] = p.nx(); a = p.tv(); p.ex(','); v = p.tv(); x['ord'] = p.nx(); ins.a = [a, v]; ins.ty = v.ty
        elif op == 'cmpxchg':
            x['weak'] = p.ac('weak'); p.ac('volatile'); a = p.tv(); p.ex(','); c = p.tv(); p.ex(','); n = p.tv(); x['ord'] = p.nx(); x['ord2'] = p.nx()
            ins.a = [a, c, n]; ins.ty = c.ty
        elif op == 'fence': x['ord'] = p.nx()
        elif op == 'freeze':
            a = p.tv(); ins.a = [a]; ins.ty = a.ty
        elif op == 'fneg':
            a = p.tv(); ins.a = [a]; ins.ty = a.ty
        else:
            x['unsupported'] = True
        return ins

def loops_of(f):
    """natural loops: header -> set(blocks)."""
    if f._loops is not None: return f._loops
    names = list(f.blocks)
    preds = {n: [] for n in names}
    for b in f.blocks.values():
        for s in b.succs: preds[s].append(b.name)
    # rpo
    order = []; seen = set()
    def dfs(n):
        stack = [(n, iter(f.blocks[n].succs))]; seen.add(n)
        while stack:
            m, it = stack[-1]
            for s in it:
                if s not in seen:
                    seen.add(s); stack.append((s, iter(f.blocks[s].succs))); break
            else:
                order.append(m); stack.pop()
    dfs(f.entry)
    rpo = order[::-1]; idx = {n: i for i, n in enumerate(rpo)}
    idom = {f.entry: f.entry}
    ch = True
    while ch:
        ch = False
        for n in rpo[1:]:
            nd = None
            for p in preds[n]:
                if p in idom:
                    if nd is None: nd = p
                    else:
                        a, b = p, nd
                        while a != b:
                            while idx[a] > idx[b]: a = idom[a]
                            while idx[b] > idx[a]: b = idom[b]
                        nd = a
            if idom.get(n) != nd: idom[n] = nd; ch = True
    def dom(a, b):
        while True:
            if a == b: return True
            if b == f.entry: return False
            b = idom[b]
    loops = {}
    for n in rpo:
        for s in f.blocks[n].succs:
            if dom(s, n):
                body = loops.setdefault(s, {s})
                st = [n]
                while st:
                    m = st.pop()
                    if m not in body:
                        body.add(m); st.extend(preds[m])
    # irreducible back edges are not handled: detect
    f._loops = loops
    f._rpo = idx
    return loops

if __name__ == '__main__':
    import sys
    m = Module(open(sys.argv[1]).read())
    for n in m.ftext:
        f = m.func(n)
        loops_of(f)
    for g in m.globals: m.glob(g)
    print(len(m.funcs), 'functions ok')
