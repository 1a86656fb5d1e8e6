"""Parser for the subset of textual LLVM IR that rustc emits. Functions are parsed on demand."""
import re
import struct

class Undef:
    def __repr__(self): return 'undef'
UNDEF = Undef()

TOK = re.compile(r'''\s*(?:(?P<str>c?"(?:[^"\\]|\\.)*")|(?P<name>[%@](?:"[^"]*"|[-a-zA-Z$._0-9]+))|(?P<md>![-a-zA-Z0-9_."]*)|(?P<attr>\#\d+)|(?P<num>(?:0x[0-9A-Fa-fHKLMR]+|f0x[0-9A-Fa-f]+|[-+]?\d+(?:\.\d+(?:[eE][-+]?\d+)?)?|[-+]inf|[-+]?[qs]?nan(?:\(0x[0-9a-fA-F]+\))?))(?![a-zA-Z_])|(?P<word>[a-zA-Z_][-a-zA-Z0-9_.]*)|(?P<p>\.\.\.|[<>{}\[\](),=*:|]))''')

def tokenize(s):
    out = []
    pos = 0
    n = len(s)
    while pos < n:
        m = TOK.match(s, pos)
        if not m:
            if s[pos:].strip() == '' or s[pos:].lstrip().startswith(';'):
                break
            raise SyntaxError('token at %r' % s[pos:pos + 80])
        pos = m.end()
        out.append(m.group(m.lastgroup))
    return out

PARAM_ATTRS = set('''noundef nonnull zeroext signext inreg noalias nocapture readonly readnone writeonly returned
nofree dead_on_unwind writable immarg swiftself nest allocptr allocalign noext'''.split())
PAREN_ATTRS = set('dereferenceable dereferenceable_or_null align captures range sret byval initializes nofpclass memory elementtype dead_on_return'.split())

class P:
    """token cursor"""
    def __init__(self, toks):
        self.t = toks
        self.i = 0
    def peek(self, k=0):
        j = self.i + k
        return self.t[j] if j < len(self.t) else None
    def next(self):
        v = self.t[self.i]
        self.i += 1
        return v
    def eat(self, s):
        if self.i < len(self.t) and self.t[self.i] == s:
            self.i += 1
            return True
        return False
    def expect(self, s):
        v = self.next()
        if v != s:
            raise SyntaxError('expected %s got %s in %s' % (s, v, ' '.join(self.t)[:300]))
    def skip_paren(self):
        self.expect('(')
        d = 1
        while d:
            v = self.next()
            if v == '(': d += 1
            elif v == ')': d -= 1

    def type(self):
        v = self.next()
        if v[0] == 'i' and v[1:].isdigit(): t = ('i', int(v[1:]))
        elif v == 'double': t = ('f', 64)
        elif v == 'float': t = ('f', 32)
        elif v == 'ptr':
            t = ('p',)
            if self.peek() == 'addrspace':
                self.next(); self.skip_paren()
        elif v == 'void': t = ('void',)
        elif v in ('label', 'metadata', 'token'): t = (v,)
        elif v == '[':
            n = int(self.next()); self.expect('x'); e = self.type(); self.expect(']'); t = ('a', n, e)
        elif v == '{':
            t = ('s', tuple(self.type_list('}')), False)
        elif v == '<':
            if self.peek() == '{':
                self.next()
                t = ('s', tuple(self.type_list('}')), True)
                self.expect('>')
            else:
                n = int(self.next()); self.expect('x'); e = self.type(); self.expect('>'); t = ('v', n, e)
        elif v[0] == '%':
            t = ('named', v)
        else:
            raise SyntaxError('type %r in %s' % (v, ' '.join(self.t)[:200]))
        while self.peek() == '(' and t[0] != 'zz':
            # function type
            self.skip_paren()
            t = ('fn', t)
        return t
    def type_list(self, end):
        out = []
        if self.eat(end): return out
        while True:
            out.append(self.type())
            if self.eat(end): return out
            self.expect(',')
    def attrs(self):
        while True:
            v = self.peek()
            if v is None: return
            if v in PAREN_ATTRS:
                self.next()
                if self.peek() == '(': self.skip_paren()
                elif v == 'align': self.next()
            elif v in PARAM_ATTRS or (v[0] == '"'):
                self.next()
                if v[0] == '"' and self.eat('='): self.next()
            else: return

_size = {}
def size_align(t):
    r = _size.get(t)
    if r: return r
    k = t[0]
    if k == 'i':
        b = t[1]
        s = 1
        while s * 8 < b: s *= 2
        r = (s, min(s, 16))
    elif k == 'f': r = (t[1] // 8, t[1] // 8)
    elif k == 'p': r = (8, 8)
    elif k == 'a':
        s, a = size_align(t[2]); r = (s * t[1], a)
    elif k == 'v':
        s, a = size_align(t[2])
        if t[2] == ('i', 1): r = ((t[1] + 7) // 8, 1)
        else: r = (s * t[1], s * t[1])
    elif k == 's':
        off = 0; al = 1
        for e in t[1]:
            s, a = size_align(e)
            if t[2]: a = 1
            off = (off + a - 1) // a * a + s
            al = max(al, a)
        off = (off + al - 1) // al * al
        r = (off, al)
    elif k == 'void': r = (0, 1)
    else: raise NotImplementedError(t)
    _size[t] = r
    return r
def field_off(t, i):
    if t[0] in ('a', 'v'): return size_align(t[2])[0] * i
    off = 0
    for j, e in enumerate(t[1]):
        s, a = size_align(e)
        if t[2]: a = 1
        off = (off + a - 1) // a * a
        if j == i: return off
        off += s
    raise IndexError
def elem_type(t, i):
    return t[2] if t[0] in ('a', 'v') else t[1][i]

def unstr(s):
    """c"...\\00" -> bytes"""
    s = s[s.index('"') + 1:-1]
    out = bytearray()
    i = 0
    while i < len(s):
        if s[i] == '\\':
            if s[i + 1] == '\\': out.append(92); i += 2
            else: out.append(int(s[i + 1:i + 3], 16)); i += 3
        else:
            out.append(ord(s[i])); i += 1
    return bytes(out)

def f32round(x):
    try: return struct.unpack('<f', struct.pack('<f', x))[0]
    except OverflowError: return float('inf') if x > 0 else float('-inf')

def parse_float(tok, bits):
    if tok.startswith('f0x'):
        v = int(tok[3:], 16)
        return struct.unpack('<d', struct.pack('<Q', v))[0] if bits == 64 else struct.unpack('<f', struct.pack('<I', v))[0]
    if tok.startswith('0x'):
        return struct.unpack('<d', struct.pack('<Q', int(tok[2:], 16)))[0]
    if 'inf' in tok: return float('-inf') if tok[0] == '-' else float('inf')
    if 'nan' in tok: return float('nan')
    v = float(tok)
    return v if bits == 64 else f32round(v)

class Func:
    __slots__ = ('name', 'params', 'ptypes', 'ret', 'blocks', 'entry', 'nslots', 'attr', 'noreturn', 'decoded', 'lines', 'header')

class Block:
    __slots__ = ('name', 'phis', 'code', 'src')

CASTS = {'zext', 'sext', 'trunc', 'fptrunc', 'fpext', 'uitofp', 'sitofp', 'fptoui', 'fptosi', 'bitcast', 'inttoptr', 'ptrtoint', 'addrspacecast', 'ptrtoaddr'}
BIN = {'add', 'sub', 'mul', 'udiv', 'sdiv', 'urem', 'srem', 'and', 'or', 'xor', 'shl', 'lshr', 'ashr', 'fadd', 'fsub', 'fmul', 'fdiv', 'frem'}
FLAGS = set('nuw nsw exact disjoint inbounds nneg fast nnan ninf nsz arcp contract afn reassoc samesign nusw'.split())

class Module:
    def __init__(self, path):
        text = open(path, encoding='utf-8', errors='surrogateescape').read()
        self.lines = text.split('\n')
        self.func_at = {}
        self.globals = {}
        self.tls = set()
        self.decls = {}
        self.attr = {}
        self.types = {}
        self.aliases = {}
        self.funcs = {}
        ls = self.lines
        i = 0
        n = len(ls)
        while i < n:
            l = ls[i]
            if l.startswith('define '):
                m = re.search(r'@("[^"]*"|[-a-zA-Z$._0-9]+)\(', l)
                name = m.group(1).strip('"')
                j = i + 1
                while ls[j] != '}': j += 1
                self.func_at[name] = (i, j)
                i = j
            elif l.startswith('@'):
                m = re.match(r'@("[^"]*"|[-a-zA-Z$._0-9]+) = (.*)', l)
                nm = m.group(1).strip('"')
                rest = m.group(2)
                if re.match(r'[a-z_ ]*\balias\b', rest):
                    self.aliases[nm] = re.search(r'@("[^"]*"|[-a-zA-Z$._0-9]+)', rest).group(1).strip('"')
                else:
                    self.globals[nm] = rest
                    if 'thread_local' in rest[:80]: self.tls.add(nm)
            elif l.startswith('declare '):
                m = re.search(r'@("[^"]*"|[-a-zA-Z$._0-9]+)\(', l)
                self.decls[m.group(1).strip('"')] = l
            elif l.startswith('attributes #'):
                m = re.match(r'attributes (#\d+) = \{(.*)\}', l)
                self.attr[m.group(1)] = m.group(2)
            elif l.startswith('%'):
                m = re.match(r'(%("[^"]*"|[-a-zA-Z$._0-9]+)) = type (.*)', l)
                if m: self.types[m.group(1)] = P(tokenize(m.group(3))).type()
            i += 1
        self.noret_groups = {k for k, v in self.attr.items() if re.search(r'\bnoreturn\b', v)}
        self.addr = {}
        self.names = {}
        self._next = 1

    # ---- addresses: object id in the high bits
    def gaddr(self, name):
        name = self.aliases.get(name, name)
        a = self.addr.get(name)
        if a is None:
            a = (self._next << 32) | 0x10000
            self._next += 1
            self.addr[name] = a
            self.names[a >> 32] = name
        return a

    def is_noreturn(self, name):
        if name in self.func_at: l = self.lines[self.func_at[name][0]]
        elif name in self.decls: l = self.decls[name]
        else: return False
        return any(g in self.noret_groups for g in re.findall(r'#\d+', l))

    # ---- constants
    def const(self, p, t):
        """parse a constant of type t; returns python value"""
        tok = p.next()
        k = t[0]
        if tok in ('undef', 'poison'): return UNDEF
        if tok == 'zeroinitializer': return self.zero(t)
        if tok[0] == '@': return self.gaddr(tok[1:].strip('"'))
        if k == 'i':
            if tok == 'true': return 1
            if tok == 'false': return 0
            if re.fullmatch(r'-?\d+', tok): return int(tok) & ((1 << t[1]) - 1)
        elif k == 'f':
            if tok[0] in '-+0123456789fni' and tok not in ('fadd', 'fneg'): return parse_float(tok, t[1])
        elif k == 'p':
            if tok == 'null': return 0
        if tok == 'splat':
            p.expect('('); et = p.type(); v = self.const(p, et); p.expect(')')
            return (v,) * t[1]
        if tok == '<' and k == 'v':
            out = []
            while True:
                et = p.type(); out.append(self.const(p, et))
                if p.eat('>'): return tuple(out)
                p.expect(',')
        if tok == '<' and k == 's':
            p.expect('{'); r = self.agg(p, '}'); p.expect('>'); return r
        if tok == '{': return self.agg(p, '}')
        if tok == '[': return self.agg(p, ']')
        if tok.startswith('c"'): return tuple(unstr(tok))
        if tok == 'getelementptr':
            while p.peek() in FLAGS or p.peek() in ('inrange',):
                if p.next() == 'inrange': p.skip_paren()
            p.expect('('); et = p.type(); p.expect(','); p.type(); base = self.const(p, ('p',))
            idx = []
            while p.eat(','):
                it = p.type(); v = self.const(p, it)
                if v >> (it[1] - 1): v -= 1 << it[1]
                idx.append(v)
            p.expect(')')
            off = idx[0] * size_align(et)[0]
            for j in idx[1:]:
                off += field_off(et, j); et = elem_type(et, j)
            return base + off
        if tok in CASTS:
            p.expect('('); ft = p.type(); v = self.const(p, ft); p.expect('to'); tt = p.type(); p.expect(')')
            if tok == 'trunc' and isinstance(v, int): v &= (1 << tt[1]) - 1
            return v
        if tok in ('add', 'sub', 'xor', 'mul'):
            while p.peek() in FLAGS: p.next()
            p.expect('('); ft = p.type(); a = self.const(p, ft); p.expect(','); p.type(); b = self.const(p, ft); p.expect(')')
            v = {'add': a + b, 'sub': a - b, 'xor': a ^ b, 'mul': a * b}[tok]
            return v & ((1 << ft[1]) - 1)
        raise SyntaxError('const %s of %s: %s' % (tok, t, ' '.join(p.t)[:200]))
    def agg(self, p, end):
        out = []
        if p.eat(end): return tuple(out)
        while True:
            et = p.type(); out.append(self.const(p, et))
            if p.eat(end): return tuple(out)
            p.expect(',')
    def zero(self, t):
        k = t[0]
        if k in 'ip': return 0
        if k == 'f': return 0.0
        if k == 'a': return (self.zero(t[2]),) * t[1]
        if k == 'v': return (self.zero(t[2]),) * t[1]
        if k == 's': return tuple(self.zero(e) for e in t[1])
        raise NotImplementedError(t)

    def global_init(self, name):
        """-> (type, value or None)"""
        rest = self.globals[name]
        m = re.match(r'(.*?)\b(constant|global)\b (.*)', rest)
        ext = re.search(r'\bexternal\b', m.group(1))
        p = P(tokenize(m.group(3)))
        t = p.type()
        if ext or p.peek() in (',', None): return t, None
        return t, self.const(p, t)

    # ---- functions
    def func(self, name):
        f = self.funcs.get(name)
        if f is None:
            f = self.funcs[name] = self.parse_func(name)
        return f

    def parse_func(self, name):
        a, b = self.func_at[name]
        ls = self.lines
        f = Func()
        f.name = name
        f.header = ls[a]
        f.noreturn = self.is_noreturn(name)
        slots = {}
        def slot(n):
            s = slots.get(n)
            if s is None: s = slots[n] = len(slots)
            return s
        p = P(tokenize(ls[a]))
        while not p.peek().startswith('@'): p.next()
        p.next(); p.expect('(')
        f.params = []; f.ptypes = []
        if not p.eat(')'):
            while True:
                if p.eat('...'):
                    p.expect(')'); break
                t = p.type(); p.attrs()
                f.params.append(slot(p.next()))
                f.ptypes.append(t)
                if p.eat(')'): break
                p.expect(',')
        # group instruction lines
        blocks = {}
        order = []
        cur = None
        i = a + 1
        ninstr = 0
        while i < b:
            l = ls[i]
            i += 1
            if not l.strip(): continue
            if l[0] not in ' \t':
                if l[0] == ';': continue
                m = re.match(r'("[^"]*"|[-a-zA-Z$._0-9]+):', l)
                cur = Block(); cur.name = '%' + m.group(1); cur.src = []; blocks[cur.name] = cur; order.append(cur)
                continue
            if cur is None:
                # unlabelled entry block: number follows the unnamed params
                cur = Block(); cur.name = '%%%d' % sum(1 for q in slots if re.fullmatch(r'%\d+', q)); cur.src = []; blocks[cur.name] = cur; order.append(cur)
            s = l.strip()
            if s.startswith('switch ') and s.rstrip().endswith('['):
                while not ls[i].strip().startswith(']'):
                    s += ' ' + ls[i].strip(); i += 1
                s += ' ]'; i += 1
            elif re.match(r'(%\S+ = )?invoke ', s):
                s += ' ' + ls[i].strip(); i += 1
            elif re.match(r'(%\S+ = )landingpad', s):
                while ls[i].strip().split(' ')[0] in ('cleanup', 'catch', 'filter'):
                    i += 1
            cur.src.append(s)
        f.blocks = blocks
        f.entry = order[0]
        for bl in order:
            bl.phis = []
            bl.code = []
            for s in bl.src:
                k = s.find(', !')
                if k >= 0: s = s[:k]
                ins = self.parse_ins(s, slot)
                if ins[0] == 'phi': bl.phis.append((ins[1], ins[2], ins[3]))
                else: bl.code.append(ins)
            bl.src = None
        f.nslots = len(slots)
        f.decoded = False
        return f

    def operand(self, p, t, slot):
        v = p.peek()
        if v[0] == '%':
            p.next()
            return (1, slot(v))
        return (0, self.const(p, t))

    def targ(self, p, slot):
        t = p.type(); p.attrs()
        return t, self.operand(p, t, slot)

    def parse_ins(self, s, slot):
        p = P(tokenize(s))
        dest = None
        if p.peek()[0] == '%' and p.peek(1) == '=':
            dest = slot(p.next()); p.next()
        op = p.next()
        if op in ('tail', 'musttail', 'notail'): op = p.next()
        if op in BIN:
            while p.peek() in FLAGS: p.next()
            t = p.type(); a = self.operand(p, t, slot); p.expect(','); b = self.operand(p, t, slot)
            return (op, dest, t, a, b)
        if op in CASTS:
            while p.peek() in FLAGS: p.next()
            ft, a = self.targ(p, slot); p.expect('to'); tt = p.type()
            return (op, dest, ft, a, tt)
        if op in ('icmp', 'fcmp'):
            while p.peek() in FLAGS: p.next()
            pred = p.next(); t = p.type(); a = self.operand(p, t, slot); p.expect(','); b = self.operand(p, t, slot)
            return (op, dest, pred, t, a, b)
        if op == 'fneg':
            while p.peek() in FLAGS: p.next()
            t, a = self.targ(p, slot)
            return (op, dest, t, a)
        if op == 'phi':
            while p.peek() in FLAGS: p.next()
            t = p.type(); inc = {}
            while True:
                p.expect('['); v = self.operand(p, t, slot); p.expect(','); l = p.next(); p.expect(']')
                inc[l] = v
                if not p.eat(','): break
            return ('phi', dest, inc, t)
        if op == 'select':
            while p.peek() in FLAGS: p.next()
            ct, c = self.targ(p, slot); p.expect(','); t, a = self.targ(p, slot); p.expect(','); _, b = self.targ(p, slot)
            return (op, dest, ct, c, t, a, b)
        if op == 'br':
            if p.peek() == 'label':
                p.next(); return ('jmp', None, p.next())
            p.type(); c = self.operand(p, ('i', 1), slot); p.expect(','); p.expect('label'); a = p.next(); p.expect(','); p.expect('label'); b = p.next()
            return ('br', None, c, a, b)
        if op == 'switch':
            t, v = self.targ(p, slot); p.expect(','); p.expect('label'); d = p.next(); p.expect('[')
            cases = {}
            while not p.eat(']'):
                ct = p.type(); cv = self.const(p, ct); p.expect(','); p.expect('label'); cases[cv] = p.next()
            return ('switch', None, t, v, d, cases)
        if op == 'ret':
            t = p.type()
            if t[0] == 'void': return ('ret', None, t, None)
            return ('ret', None, t, self.operand(p, t, slot))
        if op == 'unreachable': return ('unreachable', None)
        if op == 'load':
            atom = p.eat('atomic'); p.eat('volatile')
            t = p.type(); p.expect(','); _, a = self.targ(p, slot)
            return ('load', dest, t, a, atom)
        if op == 'store':
            atom = p.eat('atomic'); p.eat('volatile')
            t, v = self.targ(p, slot); p.expect(','); _, a = self.targ(p, slot)
            return ('store', None, t, v, a, atom)
        if op == 'getelementptr':
            while p.peek() in FLAGS: p.next()
            t = p.type(); p.expect(','); _, base = self.targ(p, slot)
            idx = []
            while p.eat(','): idx.append(self.targ(p, slot))
            return ('gep', dest, t, base, idx)
        if op == 'alloca':
            p.eat('inalloca'); t = p.type(); n = (0, 1)
            if p.eat(','):
                if p.peek() != 'align': _, n = self.targ(p, slot)
            return ('alloca', dest, t, n)
        if op == 'extractvalue':
            t, a = self.targ(p, slot); idx = []
            while p.eat(','): idx.append(int(p.next()))
            return (op, dest, t, a, idx)
        if op == 'insertvalue':
            t, a = self.targ(p, slot); p.expect(','); et, b = self.targ(p, slot); idx = []
            while p.eat(','): idx.append(int(p.next()))
            return (op, dest, t, a, b, idx)
        if op == 'extractelement':
            t, a = self.targ(p, slot); p.expect(','); _, b = self.targ(p, slot)
            return (op, dest, t, a, b)
        if op == 'insertelement':
            t, a = self.targ(p, slot); p.expect(','); _, b = self.targ(p, slot); p.expect(','); _, c = self.targ(p, slot)
            return (op, dest, t, a, b, c)
        if op == 'shufflevector':
            t, a = self.targ(p, slot); p.expect(','); _, b = self.targ(p, slot); p.expect(','); mt, m = self.targ(p, slot)
            return (op, dest, t, a, b, m)
        if op == 'freeze':
            t, a = self.targ(p, slot)
            return (op, dest, t, a)
        if op in ('call', 'invoke'):
            while p.peek() in FLAGS or p.peek() in ('fastcc', 'coldcc', 'ccc'): p.next()
            p.attrs()
            rt = p.type()
            if rt[0] == 'fn': rt = rt[1]
            while p.peek() == '(' : p.skip_paren()
            callee = p.next()
            if callee == 'asm':
                return ('asm', dest, s)
            if callee[0] == '@': cal = (2, callee[1:].strip('"'))
            elif callee[0] == '%': cal = (1, slot(callee))
            else:
                raise SyntaxError('callee ' + s)
            p.expect('(')
            args = []; tys = []
            if not p.eat(')'):
                while True:
                    t = p.type(); p.attrs()
                    if t[0] == 'metadata':
                        d = 0
                        while not (d == 0 and p.peek() in (',', ')')):
                            v = p.next()
                            if v == '(': d += 1
                            if v == ')': d -= 1
                        args.append((0, 0))
                    else:
                        args.append(self.operand(p, t, slot))
                    tys.append(t)
                    if p.eat(')'): break
                    p.expect(',')
            nr = False
            normal = None
            while p.peek() is not None:
                v = p.next()
                if v in self.noret_groups: nr = True
                if v == 'to':
                    p.expect('label'); normal = p.next()
            return ('call', dest, rt, cal, args, tys, nr, normal)
        if op == 'landingpad' or op == 'resume' or op == 'fence':
            return (op, dest)
        if op == 'atomicrmw':
            p.eat('volatile'); o = p.next(); _, a = self.targ(p, slot); p.expect(','); t, v = self.targ(p, slot)
            return (op, dest, o, t, a, v)
        if op == 'cmpxchg':
            p.eat('weak'); p.eat('volatile'); _, a = self.targ(p, slot); p.expect(','); t, c = self.targ(p, slot); p.expect(','); _, n = self.targ(p, slot)
            return (op, dest, t, a, c, n)
        raise SyntaxError('instr ' + s)
