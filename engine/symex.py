"""Symbolic executor for LLVM IR.

Floats are concrete (IEEE) or exact symbolic reals (alg.Rat) in 'real' mode, and bit-precise z3
floating point terms in 'fp' mode. Integers are concrete, or integer-valued polynomials with a
range, and are made concrete by solver-guided forking where an operation needs it. Memory is
concrete-addressed: an address is (object id << 32) + 0x10000 + offset."""
import math
import os
import struct
import subprocess
import sys
import tempfile
import time
from fractions import Fraction
import numpy as np
import z3
from llir import UNDEF, size_align, field_off, elem_type, f32round
import llir
import alg
from alg import *

sys.setrecursionlimit(20000)

class PathEnd(Exception):
    def __init__(self, status, msg=''):
        self.status = status; self.msg = msg
class Switch(Exception):
    """reschedule threads; the current instruction is restarted (or not) later"""
class EngineError(Exception): pass
class Unsupported(EngineError): pass

INF = float('inf'); NAN = float('nan')

class ISym:
    """integer-valued polynomial in [lo, hi] of the given bit width, two's complement not wrapped"""
    __slots__ = ('p', 'lo', 'hi', 'w')
    def __init__(self, p, lo, hi, w): self.p = p; self.lo = lo; self.hi = hi; self.w = w
class BSym:
    """symbolic i1 (or its zero extension)"""
    __slots__ = ('b', 'w')
    def __init__(self, b, w=1): self.b = b; self.w = w
class FBits:
    """bit pattern of a symbolic real"""
    __slots__ = ('r', 'w')
    def __init__(self, r, w): self.r = r; self.w = w
class FSign:
    """all ones when the real is negative (ashr bits), or that shifted right once (kind 1)"""
    __slots__ = ('r', 'w', 'kind')
    def __init__(self, r, w, kind): self.r = r; self.w = w; self.kind = kind
class FKey:
    """the monotone integer image of a real used by total_cmp"""
    __slots__ = ('r', 'w')
    def __init__(self, r, w): self.r = r; self.w = w
class FPV:
    __slots__ = ('z', 'bits')
    def __init__(self, z, bits): self.z = z; self.bits = bits
class Cat:
    """wide integer made of adjacent memory cells [(size, value)]"""
    __slots__ = ('parts',)
    def __init__(self, parts): self.parts = parts
class Part:
    """n bytes of the symbolic value v of size sz, from byte lo on: only moved around, until they are together again"""
    __slots__ = ('v', 'sz', 'lo', 'n')
    def __init__(self, v, sz, lo, n): self.v = v; self.sz = sz; self.lo = lo; self.n = n
def part_of(v, sz, lo, n):
    return Part(v.v, v.sz, v.lo + lo, n) if v.__class__ is Part else Part(v, sz, lo, n)
def join_parts(parts):
    f = parts[0][1]
    if f.__class__ is not Part: return None
    p = f.lo
    for n, x in parts:
        if x.__class__ is not Part or x.v is not f.v or x.lo != p: return None
        p += n
    return f.v if f.lo == 0 and p == f.sz else Part(f.v, f.sz, f.lo, p - f.lo)
class LInv:
    """a value that is computed when it is looked at: a quotient whose divisor may be zero, a function
    whose argument may be out of range, and what is computed from these. f(st, *args) computes it."""
    __slots__ = ('f', 'a')
    def __init__(self, f, a): self.f = f; self.a = a
SYMS = (LInv, Part, Rat, ISym, BSym, FBits, FSign, FKey, FPV, Cat)

_base = {}
def base_of(b):
    """(key, sc, c) with the literal's polynomial = sc * base + c"""
    k = b[2]
    if k in _base: return _base[k]
    p = b[1]
    q = {m: c for m, c in p.items() if m != ONE}
    r = None
    if len(q) > 1:
        c, mono, prim = pcontent(q)
        if mono: prim = {mono_mul(m, mono): v for m, v in prim.items()}
        r = (pkey(prim), c, p.get(ONE, 0))
    _base[k] = r
    return r

class Obj:
    __slots__ = ('size', 'cells', 'blob', 'alive', 'kind', 'maxsz')
    def __init__(self, size, kind, blob=None):
        self.size = size; self.cells = {}; self.blob = blob; self.alive = True; self.kind = kind; self.maxsz = 1
    def copy(self):
        o = Obj(self.size, self.kind, self.blob)
        o.cells = dict(self.cells); o.alive = self.alive; o.maxsz = self.maxsz
        return o

class Frame:
    __slots__ = ('f', 'regs', 'block', 'ip', 'dest', 'allocas', 'normal')
    def __init__(self, f):
        self.f = f; self.regs = [None] * f.nslots; self.block = f.entry; self.ip = 0; self.dest = None; self.allocas = []; self.normal = None
    def copy(self):
        n = Frame.__new__(Frame)
        n.f = self.f; n.regs = list(self.regs); n.block = self.block; n.ip = self.ip; n.dest = self.dest; n.allocas = list(self.allocas); n.normal = self.normal
        return n

class Thread:
    __slots__ = ('frames', 'state', 'tls', 'waitaddr')
    def __init__(self): self.frames = []; self.state = 'run'; self.tls = {}; self.waitaddr = None
    def copy(self):
        t = Thread(); t.frames = [f.copy() for f in self.frames]; t.state = self.state; t.tls = dict(self.tls); t.waitaddr = self.waitaddr
        return t

class State:
    def __init__(self):
        self.threads = [Thread()]; self.cur = 0
        self.mem = {}; self.owned = set(); self.nextobj = 1 << 20
        self.pc = []; self.known = {}; self.signs = {}; self.bnd = {}
        self.S = {}; self.n = alg.SAMPLES
        self.inputs = []; self.rands = []; self.forced = []
        self.steps = 0; self.notes = []; self.clock = (0, 0); self.preempts = 0; self.alt = None
        self.mm = None; self.mS = None; self.lz = {}
    def clone(self):
        s = State.__new__(State)
        s.threads = [t.copy() for t in self.threads]; s.cur = self.cur
        s.mem = dict(self.mem); s.owned = set(); self.owned = set(); s.nextobj = self.nextobj
        s.pc = list(self.pc); s.known = dict(self.known); s.signs = dict(self.signs); s.bnd = dict(self.bnd)
        s.S = self.S; s.n = self.n
        s.inputs = list(self.inputs); s.rands = list(self.rands); s.forced = list(self.forced)
        s.steps = self.steps; s.notes = list(self.notes); s.clock = self.clock; s.preempts = self.preempts; s.alt = None
        s.mm = self.mm; s.mS = self.mS; s.lz = dict(self.lz)
        return s
    @property
    def frames(self): return self.threads[self.cur].frames

def pack_bits(v, size):
    return int.from_bytes(struct.pack('<d' if size == 8 else '<f', v), 'little')
def unpack_bits(i, size):
    return struct.unpack('<d' if size == 8 else '<f', i.to_bytes(size, 'little'))[0]
def sgn(v, w): return v - (1 << w) if v >> (w - 1) else v

class Stats:
    def __init__(self):
        self.queries = 0; self.time = 0.0; self.feas = 0; self.paths = 0; self.checks = 0; self.trivial = 0
        self.unsat = 0; self.unknown = 0; self.trunc = 0; self.infeasible = 0; self.steps = 0; self.maxq = 0.0; self.portfolio = 0; self.abstracted = 0

class Executor:
    def __init__(self, mod, opts=None):
        self.m = mod
        self.o = dict(mode='real', max_rand=64, step_limit=3000000, feas_ms=400, check_ms=3000, portfolio_s=40, path_limit=100000, time_limit=600, preempt=0, fp_bits=None)
        self.o.update(opts or {})
        self.st = Stats()
        self.work = []; self.work0 = []; self.deferred = []
        self.executed = set(); self.prof = {}
        self.violations = []
        self.unknowns = []
        self.reached = {}
        self.checked = {}
        self.errors = []
        self.op = {k[3:]: getattr(self, k) for k in dir(self) if k.startswith('op_')}
        self.ext = {k[4:]: getattr(self, k) for k in dir(self) if k.startswith('ext_')}
        self.intr_cache = {}
        self.t0 = time.time()
        self.vcount = 0
        self.trace_panic = None
        self.dump = None

    # ================================================================ memory
    def obj(self, st, addr, write=False):
        oid = addr >> 32
        o = st.mem.get(oid)
        if o is None:
            name = self.m.names.get(oid)
            if name is None or name in self.m.func_at or name not in self.m.globals:
                raise PathEnd('ub', 'access to address %x (%s)' % (addr, name))
            o = self.init_global(st, oid, name)
        if not o.alive: raise PathEnd('ub', 'use after free')
        if write and oid not in st.owned:
            o = o.copy(); st.mem[oid] = o; st.owned.add(oid)
        return o
    def init_global(self, st, oid, name):
        t, v = self.m.global_init(name)
        sz = size_align(t)[0]
        o = Obj(sz, 'global', None)
        st.mem[oid] = o; st.owned.add(oid)
        if v is None: raise PathEnd('ub', 'external global ' + name)
        self.fill(o, 0, t, v)
        return o
    def fill(self, o, off, t, v):
        k = t[0]
        if v is UNDEF: return
        if k == 'a' and t[2] == ('i', 8) and all(type(x) is int for x in v):
            if o.blob is None and off == 0 and t[1] == o.size: o.blob = bytes(v); return
            for i, x in enumerate(v): o.cells[off + i] = (1, x)
        elif k in ('a', 'v'):
            s = size_align(t[2])[0]
            for i, x in enumerate(v): self.fill(o, off + i * s, t[2], x)
        elif k == 's':
            for i, x in enumerate(v): self.fill(o, off + field_off(t, i), t[1][i], x)
        else:
            s = (t[1] + 7) // 8 if k == 'i' else size_align(t)[0]
            o.cells[off] = (s, v); o.maxsz = max(o.maxsz, s)
    def alloc(self, st, size, kind, zero=False):
        oid = st.nextobj; st.nextobj += 1
        o = Obj(size, kind, bytes(size) if zero else None)
        st.mem[oid] = o; st.owned.add(oid)
        return (oid << 32) | 0x10000
    def check_range(self, o, off, size):
        if off < 0 or off + size > o.size: raise PathEnd('ub', 'out of bounds access: offset %d size %d of %d (%s)' % (off, size, o.size, o.kind))

    def load(self, st, addr, t):
        if not isinstance(addr, int): addr = self.concrete(st, addr, 64)
        k = t[0]
        if k == 's':
            return tuple(self.load(st, addr + field_off(t, i), e) for i, e in enumerate(t[1]))
        if k in ('a', 'v'):
            s = size_align(t[2])[0]
            return tuple(self.load(st, addr + i * s, t[2]) for i in range(t[1]))
        size = (t[1] + 7) // 8 if k == 'i' else size_align(t)[0]
        o = self.obj(st, addr)
        off = (addr & 0xffffffff) - 0x10000
        c = o.cells.get(off)
        if c is not None and c[0] == size: v = c[1]
        else:
            self.check_range(o, off, size)
            v = self.load_slow(o, off, size)
        if v is UNDEF: return v
        if v.__class__ is Part:
            if k == 'i' and isinstance(v.v, ISym):
                w = v.sz * 8
                x = self.unsigned(st, v.v, w)
                if not isinstance(x, int): x = self.ibin(st, 'lshr', w, x, 8 * v.lo) if v.lo else x
                else: x >>= 8 * v.lo
                return x & ((1 << t[1]) - 1) if isinstance(x, int) else self.cast1(st, 'trunc', x, ('i', w), t) if t[1] < w else x
            return v
        if v.__class__ is LInv:
            if k == 'f': return v
            v = self.force(st, v)
        elif v.__class__ is Cat: v = Cat([(n, self.force(st, x) if x.__class__ is LInv else x) for n, x in v.parts])
        return self.as_type(v, t, size)
    def as_type(self, v, t, size):
        if t[0] == 'f':
            if isinstance(v, float) or isinstance(v, (Rat, FPV)): return v
            if isinstance(v, int): return unpack_bits(v, size)
            if isinstance(v, FBits): return v.r
            raise Unsupported('float from %r' % v)
        if isinstance(v, float): v = pack_bits(v, size)
        elif isinstance(v, (Rat, FPV)): v = FBits(v, size * 8)
        if t[0] == 'i' and t[1] < size * 8 and isinstance(v, int): v &= (1 << t[1]) - 1
        return v
    def load_slow(self, o, off, size):
        cells = o.cells
        # exact cover by several cells?
        parts = []
        pos = off
        simple = True
        while pos < off + size:
            c = cells.get(pos)
            if c is None or pos + c[0] > off + size: simple = False; break
            parts.append(c); pos += c[0]
        if simple and any(isinstance(c[1], SYMS) for c in parts):
            v = join_parts(parts)
            return Cat(parts) if v is None else v
        if not simple:
            for s in range(off, max(-1, off - o.maxsz), -1):
                c = cells.get(s)
                if c is not None and s + c[0] > off:
                    if s + c[0] >= off + size and isinstance(c[1], SYMS) and not isinstance(c[1], Cat):
                        return part_of(c[1], c[0], off - s, size)
                    break
        bs = []
        for b in range(off, off + size):
            x = self.byte(o, b)
            if x is UNDEF:
                bs.append(0); continue
            bs.append(x)
        if all(self.byte(o, b) is UNDEF for b in range(off, off + size)): return UNDEF
        return int.from_bytes(bytes(bs), 'little')
    def byte(self, o, b):
        cells = o.cells
        for s in range(b, max(-1, b - o.maxsz), -1):
            c = cells.get(s)
            if c is not None and s + c[0] > b:
                v = c[1]
                if v is UNDEF: return UNDEF
                if isinstance(v, float): v = pack_bits(v, c[0])
                if not isinstance(v, int): raise Unsupported('partial access to symbolic value %r' % (v,))
                return (v >> (8 * (b - s))) & 255
        if o.blob is not None: return o.blob[b]
        return UNDEF
    def store(self, st, addr, t, v):
        if not isinstance(addr, int): addr = self.concrete(st, addr, 64)
        k = t[0]
        if k == 's':
            if v is UNDEF: return
            for i, e in enumerate(t[1]): self.store(st, addr + field_off(t, i), e, v[i])
            return
        if k in ('a', 'v'):
            if v is UNDEF: return
            s = size_align(t[2])[0]
            for i in range(t[1]): self.store(st, addr + i * s, t[2], v[i])
            return
        size = (t[1] + 7) // 8 if k == 'i' else size_align(t)[0]
        o = self.obj(st, addr, True)
        if o.kind == 'const': raise PathEnd('ub', 'write to constant')
        off = (addr & 0xffffffff) - 0x10000
        self.check_range(o, off, size)
        if isinstance(v, Cat):
            p = off
            for s, x in v.parts: self.put(o, p, s, x); p += s
            return
        if isinstance(v, FBits) and v.w == size * 8: v = v.r
        self.put(o, off, size, v)
    def put(self, o, off, size, v):
        c = o.cells.get(off)
        if c is not None and c[0] == size:
            o.cells[off] = (size, v); return
        self.clear(o, off, size)
        o.cells[off] = (size, v)
        if size > o.maxsz: o.maxsz = size
    def clear(self, o, off, size):
        """remove cells overlapping [off, off+size), keeping the parts outside"""
        cells = o.cells
        lo = off - o.maxsz + 1
        rng = range(lo, off + size)
        if size > 4 * len(cells) + 64: rng = [s for s in list(cells) if lo <= s < off + size]
        for s in rng:
            c = cells.get(s)
            if c is None or s + c[0] <= off: continue
            del cells[s]
            v = c[1]
            if s < off or s + c[0] > off + size:
                if v is UNDEF: continue
                if isinstance(v, float): v = pack_bits(v, c[0])
                if isinstance(v, SYMS) and v.__class__ is not Cat:
                    if s < off: cells[s] = (off - s, part_of(v, c[0], 0, off - s))
                    if s + c[0] > off + size: cells[off + size] = (s + c[0] - off - size, part_of(v, c[0], off + size - s, s + c[0] - off - size))
                    continue
                if not isinstance(v, int): raise Unsupported('partial overwrite of symbolic value')
                for b in range(s, s + c[0]):
                    if b < off or b >= off + size: cells[b] = (1, (v >> (8 * (b - s))) & 255)
    def memcpy(self, st, dst, src, n):
        if n == 0: return
        so = self.obj(st, src)
        soff = (src & 0xffffffff) - 0x10000
        self.check_range(so, soff, n)
        end = soff + n
        cells = so.cells
        moved = []
        lo = soff - so.maxsz + 1
        if n > 4 * len(cells) + 64: keys = sorted(s for s in cells if lo <= s < end)
        else: keys = [s for s in range(lo, end) if s in cells]
        covered = []
        for s in keys:
            sz, v = cells[s]
            if s + sz <= soff: continue
            if s >= soff and s + sz <= end:
                moved.append((s - soff, sz, v)); covered.append((s, s + sz))
            else:
                if v is not UNDEF:
                    if isinstance(v, float): v = pack_bits(v, sz)
                    if isinstance(v, SYMS) and v.__class__ is not Cat:
                        a, b = max(s, soff), min(s + sz, end)
                        moved.append((a - soff, b - a, part_of(v, sz, a - s, b - a))); covered.append((a, b))
                        continue
                    if not isinstance(v, int): raise Unsupported('memcpy splits symbolic value')
                    for b in range(max(s, soff), min(s + sz, end)):
                        moved.append((b - soff, 1, (v >> (8 * (b - s))) & 255))
                covered.append((max(s, soff), min(s + sz, end)))
        if so.blob is not None:
            p = soff
            for a, b in sorted(covered) + [(end, end)]:
                if a > p:
                    seg = so.blob[p:a]
                    q = p
                    # 8-byte pieces where aligned
                    while q < a:
                        if q % 8 == 0 and q + 8 <= a: moved.append((q - soff, 8, int.from_bytes(so.blob[q:q + 8], 'little'))); q += 8
                        else: moved.append((q - soff, 1, so.blob[q])); q += 1
                p = max(p, b)
        do = self.obj(st, dst, True)
        doff = (dst & 0xffffffff) - 0x10000
        self.check_range(do, doff, n)
        self.clear(do, doff, n)
        if do.blob is not None and len(moved) and sum(m[1] for m in moved) < n:
            # bytes undefined in the source must not show the old contents
            pass
        for off, sz, v in moved:
            do.cells[doff + off] = (sz, v)
            if sz > do.maxsz: do.maxsz = sz
    def cstr(self, st, addr, n=None):
        o = self.obj(st, addr); off = (addr & 0xffffffff) - 0x10000
        out = bytearray()
        while n is None or len(out) < n:
            b = self.byte(o, off + len(out))
            if b is UNDEF: b = 63
            if n is None and b == 0: break
            out.append(b)
        return out.decode('utf-8', 'replace')

    # ================================================================ solving
    def memo(self, st):
        if st.mS is not st.S: st.mS = st.S; st.mm = {'n': st.n}
        return st.mm
    def simplify(self, st, b):
        if b is True or b is False: return b
        k = b[0]
        if k == 's':
            s = st.signs.get(b[2])
            if s is None:
                s = self.bound_sign(st, b)
                if s == 7: return b
            if not s & b[3]: return False
            if not s & ~b[3] & 7: return True
            return b
        if k == 'z':
            r = st.known.get(b[1].get_id())
            return b if r is None else r
        r = st.known.get(bkey(b))
        if r is not None: return r
        if k == 'and': return band([self.simplify(st, x) for x in b[1]])
        return bor([self.simplify(st, x) for x in b[1]])
    def bound_sign(self, st, b):
        """possible signs of a polynomial from known bounds of the polynomial without its constant term"""
        x = base_of(b)
        if x is None: return 7
        r = st.bnd.get(x[0])
        if r is None: return 7
        v = cdiv(-x[2], x[1])
        lo, ls, hi, hs = r
        m = 7
        if lo is not None:
            if v < lo or (v == lo and ls): m &= 4
            elif v == lo: m &= 6
        if hi is not None:
            if v > hi or (v == hi and hs): m &= 1
            elif v == hi: m &= 3
        return flipmask(m) if x[1] < 0 else m
    def learn(self, st, b):
        if b is True or b is False: return
        k = b[0]
        if k == 's':
            m = st.signs[b[2]] = st.signs.get(b[2], 7) & b[3]
            x = base_of(b)
            if x is not None:
                # sc * base + c has sign in m
                key, sc, c = x
                lo, ls, hi, hs = st.bnd.get(key, (None, False, None, False))
                v = cdiv(-c, sc)
                if sc < 0: m = flipmask(m)
                # base - v has sign in m
                if not m & 1:
                    if lo is None or v > lo: lo, ls = v, m == 4
                    elif v == lo: ls = ls or m == 4
                if not m & 4:
                    if hi is None or v < hi: hi, hs = v, m == 1
                    elif v == hi: hs = hs or m == 1
                st.bnd[key] = (lo, ls, hi, hs)
        elif k == 'and':
            for x in b[1]: self.learn(st, x)
        elif k == 'z':
            st.known[b[1].get_id()] = True
            st.known[z3.simplify(z3.Not(b[1])).get_id()] = False
            st.notes.append(b[1])
        else:
            st.known[bkey(b)] = True
            nb = bnot(b)
            if nb[0] in ('and', 'or'): st.known[bkey(nb)] = False
    def assume(self, st, b, pc=True):
        if b is True: return
        if b is False: raise PathEnd('infeasible')
        self.learn(st, b)
        if pc:
            st.pc.append(b)
            if st.n and b[0] != 'z' and not self.has_z(b):
                m = eval_bool(b, st.S, self.memo(st))
                if not m.all(): self.filter(st, m)
    def has_z(self, b):
        if b is True or b is False: return False
        if b[0] == 'z': return True
        if b[0] == 's': return False
        return any(self.has_z(x) for x in b[1])
    def filter(self, st, m):
        st.S = {a: v[m] for a, v in st.S.items()}
        st.n = int(m.sum())
    def add_model(self, st, vals):
        """one sample from a model"""
        st.S = {a: np.array([float(vals.get(a, 0.0))]) for a in st.S}
        st.n = 1

    def relevant(self, pc, extra):
        """cone of influence of the formula among the path conditions"""
        atoms = closure(bool_atoms(extra, set()))
        pcs = [(b, closure(bool_atoms(b, set()))) for b in pc]
        vs = {a for a in atoms if ATOMS[a].kind in ('var', 'ivar')}
        used = [False] * len(pcs)
        ch = True
        while ch:
            ch = False
            for i, (b, at) in enumerate(pcs):
                if used[i]: continue
                bv = {a for a in at if ATOMS[a].kind in ('var', 'ivar')}
                if not bv or bv & vs:
                    used[i] = True; ch = True
                    vs |= bv
        return [b for (b, _), u in zip(pcs, used) if u]
    def assertions(self, pc, extra):
        fs = list(pc) + [extra]
        atoms = set()
        for b in fs: bool_atoms(b, atoms)
        atoms = closure(atoms)
        out = [zbool(b) for b in fs]
        byfn = {}
        for a in sorted(atoms):
            out.extend(zdefs(a))
            A = ATOMS[a]
            if A.kind in ('sin', 'cos', 'tan', 'acos', 'asin', 'atan', 'exp', 'ln', 'atan2', 'pow'): byfn.setdefault(A.kind, []).append(A)
        for k, l in byfn.items():
            for A in l:
                z = zatom(A.id)
                if k == 'ln':
                    d = rsub(A.args[0], rconst(1))
                    out.append(z3.Implies(zbool(raw_cmp(d, 3)), z <= 0)); out.append(z3.Implies(zbool(raw_cmp(d, 6)), z >= 0))
                    out.append(z3.Implies(zbool(raw_cmp(d, 5)), z != 0))
                    out.append(zbool(raw_cmp(rsub(d, ratom(A)), 6)))
                elif k == 'exp':
                    out.append(zbool(raw_cmp(rsub(ratom(A), radd(A.args[0], rconst(1))), 6)))
            if len(l) > 6: continue
            for i in range(len(l)):
                for j in range(i):
                    A, B = l[i], l[j]
                    try:
                        es = [raw_cmp(rsub(x, y), 2) for x, y in zip(A.args, B.args) if isinstance(x, Rat)]
                    except TooBig: continue
                    e = band(es)
                    if e is False: continue
                    out.append(z3.Implies(zbool(e), zatom(A.id) == zatom(B.id)))
                    if k in ('ln', 'exp', 'atan', 'asin', 'acos'):
                        lt = raw_cmp(rsub(A.args[0], B.args[0]), 1)
                        gt = raw_cmp(rsub(A.args[0], B.args[0]), 4)
                        if k == 'acos': lt, gt = gt, lt
                        out.append(z3.Implies(zbool(lt), zatom(A.id) < zatom(B.id)))
                        out.append(z3.Implies(zbool(gt), zatom(A.id) > zatom(B.id)))
        return out, atoms
    def is_linear(self, pc, extra, atoms):
        for a in atoms:
            if ATOMS[a].kind in ('sqrt', 'sin', 'cos', 'exp', 'ln', 'tan', 'acos', 'asin', 'atan', 'atan2', 'pow'): return False
        def lin(b):
            if b is True or b is False: return True
            if b[0] == 's': return all(len(m) == 0 or (len(m) == 1 and m[0][1] == 1) for m in b[1])
            if b[0] == 'z': return False
            return all(lin(x) for x in b[1])
        return all(lin(b) for b in pc) and lin(extra)
    def query(self, st, extra, ms, want_model=True, full=False, portfolio=0):
        """satisfiability of path condition and extra -> ('sat', vals) | ('unsat', None) | ('unknown', None)"""
        t = time.time()
        self.st.queries += 1
        try:
            full = full or extra is True
            pc = st.pc if full or self.o['mode'] == 'fp' else self.relevant(st.pc, extra)
            if self.o['mode'] != 'fp' and not full: 
                if self.abstract(pc, extra, ms): return 'unsat', None
            asr, atoms = self.assertions(pc, extra)
            lin = self.is_linear(pc, extra, atoms)
            ints = any(ATOMS[a].isint for a in atoms)
            if self.o['mode'] == 'fp': s = z3.SolverFor('QF_FP') if False else z3.Solver()
            elif lin: s = z3.SolverFor('QF_LIRA' if ints else 'QF_LRA')
            else: s = z3.Solver() if ints else z3.SolverFor('QF_NRA')
            s.set('timeout', int(ms))
            s.add(*asr)
            try: r = s.check()
            except z3.Z3Exception: r = z3.unknown
            if r == z3.unsat: return 'unsat', None
            if r == z3.sat:
                if pc is not st.pc and len(pc) < len(st.pc):
                    # model of the cone; complete it with a model of the rest if asked
                    vals = self.model_vals(s.model(), atoms)
                    if want_model == 'full':
                        return self.complete(st, extra, vals, ms)
                    return 'sat', vals
                return 'sat', self.model_vals(s.model(), atoms)
            if portfolio:
                r = self.portfolio(s, asr, portfolio, lin)
                if r == 'unsat': return 'unsat', None
                if r is not None and r[0] == 'sat': return 'sat', r[1]
            return 'unknown', None
        finally:
            d = time.time() - t
            self.st.time += d
            if d > self.st.maxq: self.st.maxq = d
    def abstract(self, pc, extra, ms):
        """a cheaper, more general query: True when it is already unsatisfiable"""
        fs = list(pc) + [extra]
        if any(self.has_z(b) for b in fs): return False
        atoms = set()
        for b in fs: bool_atoms(b, atoms)
        atoms = closure(atoms)
        def size(b): return len(b[1]) if b[0] == 's' else max((size(x) for x in b[1]), default=0) if b[0] in ('and', 'or') else 0
        if not any(ATOMS[a].outer and ATOMS[a].kind in ('var', 'sqrt', 'abs') for a in atoms) and (extra is True or extra is False or size(extra) < 6): return False
        inner = [a for a in atoms if ATOMS[a].kind in ('var', 'ivar') and not ATOMS[a].outer]
        if len(inner) < 3: return False
        try:
            ab = Abstraction(fs, atoms)
            if len(ab.base) >= len(inner) + 3: return False
            out = ab.build(fs, atoms)
        except TooBig: return False
        s = z3.SolverFor('QF_NRA')
        s.set('timeout', int(min(ms, 3000)))
        s.add(*out)
        self.st.abstracted += 1
        if self.o.get('dbg'): print('ABS', len(inner), '->', len(ab.base), s.sexpr()[:1500])
        try: r = s.check()
        except z3.Z3Exception: return False
        if self.o.get('dbg'): print(r)
        return r == z3.unsat
    def complete(self, st, extra, vals, ms):
        """model of the whole path: the remaining constraints share no inputs with the cone"""
        rest = [b for b in st.pc if not any(b is x for x in self.relevant(st.pc, extra))]
        if rest:
            asr, atoms = self.assertions(rest, True)
            s = z3.Solver(); s.set('timeout', int(ms)); s.add(*asr)
            if s.check() == z3.sat:
                for k, v in self.model_vals(s.model(), atoms).items(): vals.setdefault(k, v)
        return 'sat', vals
    def model_vals(self, m, atoms):
        vals = {}
        for a in atoms:
            A = ATOMS[a]
            if A.kind not in ('var', 'ivar'): continue
            z = A.z
            if z is None: continue
            v = m.eval(z if not A.isint else z.arg(0), model_completion=True)
            vals[a] = self.znum(v)
        return vals
    def znum(self, v):
        if z3.is_int_value(v): return Fraction(v.as_long())
        if z3.is_rational_value(v): return v.as_fraction()
        if z3.is_algebraic_value(v): return v.approx(30).as_fraction()
        return Fraction(0)
    def portfolio(self, s, asr, secs, lin):
        """other solvers on the same query, in parallel processes; first answer wins"""
        self.st.portfolio += 1
        txt = s.to_smt2()
        d = tempfile.mkdtemp(prefix='vfq')
        f = os.path.join(d, 'q.smt2')
        body = txt.replace('(set-info :status unknown)', '')
        logic = '' if 'set-logic' in body else '(set-logic %s)\n' % ('QF_NIRA' if 'to_real' in body.lower() else 'QF_NRA')
        open(f, 'w').write(logic + body)
        if self.dump:
            import shutil
            shutil.copy(f, os.path.join(self.dump, 'q%d_%d.smt2' % (os.getpid(), self.st.portfolio)))
        f2 = os.path.join(d, 'q2.smt2')
        open(f2, 'w').write((logic + body).replace('(check-sat)', '(check-sat-using (then simplify solve-eqs purify-arith nlsat))'))
        cmds = [['z3-new', '-T:%d' % secs, f], ['cvc5', '--tlimit=%d' % (secs * 1000), '--nl-cov', f],
                ['z3', '-T:%d' % secs, f2], ['cvc5', '--tlimit=%d' % (secs * 1000), '--nl-ext=full', f]]
        ps = [subprocess.Popen(c, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True) for c in cmds]
        res = None
        end = time.time() + secs + 2
        alive = list(ps)
        while alive and res is None and time.time() < end:
            for p in list(alive):
                if p.poll() is not None:
                    alive.remove(p)
                    out = p.stdout.read().split('\n')[0].strip()
                    if out in ('sat', 'unsat'): res = out; break
            else: time.sleep(0.02)
        for p in ps:
            if p.poll() is None: p.kill()
            p.wait()
        for x in (f, f2): os.unlink(x)
        os.rmdir(d)
        if res == 'unsat': return 'unsat'
        if res == 'sat':
            # get the model in process with a longer limit
            s.set('timeout', secs * 1000)
            if s.check() == z3.sat:
                at = set()
                for a in range(len(ATOMS)):
                    if ATOMS[a].z is not None: at.add(a)
                return ('sat', self.model_vals(s.model(), at))
        return None

    def feasible(self, st, b):
        self.st.feas += 1
        r, vals = self.query(st, b, self.o['feas_ms'])
        return r, vals

    def where(self, st):
        fs = st.frames
        return ' < '.join('%s:%s:%d' % (f.f.name[-30:], getattr(f.block, 'name', ''), f.ip) for f in fs[-1:-3:-1])
    def decide(self, st, b):
        """the truth of b on this path; forks when both are possible"""
        b = self.simplify(st, b)
        if b is True or b is False: return b
        nb = bnot(b)
        t = f = None
        mt = mf = None
        if st.n and not self.has_z(b):
            m = eval_bool(b, st.S, self.memo(st))
            t = True if m.any() else None
            f = True if not m.all() else None
        if t is None:
            r, mt = self.feasible(st, b)
            t = r != 'unsat'
            if not t:
                self.learn(st, nb); return False
        if f is None:
            r, mf = self.feasible(st, nb)
            f = r != 'unsat'
            if not f:
                self.learn(st, b); return True
        if self.o.get('prof'):
            k = self.where(st) + ' ' + bstr(b)[:int(self.o['prof'])]
            p = self.prof.setdefault(k, [0, 0, 0]); p[0] += 1
            if mt is None and not (st.n and not self.has_z(b) and m.any()): p[1] += 1
            if mf is None and not (st.n and not self.has_z(b) and not m.all()): p[2] += 1
        other = st.clone()
        try:
            self.assume(other, nb)
            if other.n == 0 and mf is not None and len(mf) >= 1: self.seed(other, mf)
            self.push(other)
        except PathEnd: pass
        self.assume(st, b)
        if st.n == 0 and mt is not None: self.seed(st, mt)
        return True
    def seed(self, st, vals):
        """put a model into the sample set if it satisfies the path numerically"""
        S = {}
        for a in self.svars(st):
            v = vals.get(a)
            A = ATOMS[a]
            if v is None: v = A.lo if A.lo is not None else 0
            S[a] = np.array([float(v)])
        memo = {'n': 1}
        for b in st.pc:
            if self.has_z(b): return
            if not eval_bool(b, S, memo)[0]: return
        st.S = S; st.n = 1
    def svars(self, st): return [a for k, a in st.inputs if k in 'dfir' and isinstance(a, int) and not isinstance(a, bool)]

    def concrete(self, st, v, w, limit=400):
        """a concrete integer for v, forking over its possible values"""
        if isinstance(v, int): return v
        if v is UNDEF: raise PathEnd('ub', 'undef used')
        if isinstance(v, BSym): return 1 if self.decide(st, v.b) else 0
        if isinstance(v, ISym):
            if is_const(v.p): return int(cval(v.p)) & ((1 << v.w) - 1)
            k = st.known.get(('int', pkey(v.p)))
            if k is None:
                k = self.concrete_(st, v)
                st.known[('int', pkey(v.p))] = k
            return k & ((1 << v.w) - 1)
        raise Unsupported('concretise %r' % v)
    def eq_int(self, v, k):
        """v == k; for the integer part of a real, as bounds on the real"""
        p = padd(v.p, pconst(-k))
        ats = [(m, c) for m, c in p.items() if m]
        if len(ats) == 1 and len(ats[0][0]) == 1 and ats[0][0][0][1] == 1 and ats[0][1] in (1, -1):
            A = ATOMS[ats[0][0][0][0]]
            if A.kind == 'floor':
                j = -p.get(ONE, 0) * ats[0][1]
                lo, hi = rsub(A.args[0], rconst(j)), rsub(A.args[0], rconst(j + 1))
                return band([rat_cmp(lo.n, lo.d, 6), rat_cmp(hi.n, hi.d, 1)])
        return lit(p, 2)
    def concrete_(self, st, v):
        if 1:
            # candidate from samples, or from a model
            k = None
            if st.n: k = int(round(float(np.broadcast_to(eval_poly(v.p, st.S, self.memo(st)), (st.n,))[0])))
            else:
                r, vals = self.query(st, lit(padd(v.p, pconst(-v.lo)), 6), self.o['check_ms'], full=True)
                if r == 'unsat': raise PathEnd('infeasible')
                if r == 'sat':
                    self.seed(st, vals)
                    if st.n: k = int(round(float(np.broadcast_to(eval_poly(v.p, st.S, self.memo(st)), (st.n,))[0])))
            if k is None: k = v.lo
            k = min(max(k, v.lo), v.hi)
            if self.decide(st, self.eq_int(v, k)): return k
            # not this value: try again (the known fact excludes it)
            return self.concrete_scan(st, v)
    def concrete_scan(self, st, v):
        for k in range(v.lo, v.hi + 1):
            b = self.simplify(st, self.eq_int(v, k))
            if b is False: continue
            if self.decide(st, b): return k
        raise PathEnd('infeasible')

    def push(self, st): (self.work if st.n else self.work0).append(st)
    def choose(self, st, n, kind):
        """fork over 0..n-1"""
        if st.forced:
            k = st.forced.pop(0)
        else:
            for i in range(n - 1, 0, -1):
                o = st.clone(); o.forced = [i]
                self.push(o)
            k = 0
        st.inputs.append((kind, k))
        return k

    # ================================================================ numbers
    def new_var(self, st, kind, lo, hi):
        # the k-th input of a kind is the same variable on all paths
        k = sum(1 for x in st.inputs if x[0] == kind)
        f = lambda x: Fraction(x) if not math.isinf(x) else None
        exact = lambda x: None if math.isinf(x) else const_or_none(x)
        a = new_atom('var', '%s%d' % (kind, k), lo=exact(lo), hi=exact(hi), key=('var', kind, k, lo, hi))
        st.inputs.append((kind, a.id))
        self.sample(st, a, lo, hi)
        return ratom(a)
    def sample(self, st, a, lo, hi):
        l = lo if not math.isinf(lo) else -100.0
        h = hi if not math.isinf(hi) else 100.0
        rs = np.random.RandomState(a.id * 7919 + 13)
        v = rs.uniform(l, h, alg.SAMPLES)
        # some special points
        for i, x in enumerate((0.0, 1.0, -1.0, 0.5, l, h)):
            if l <= x <= h: v[rs.randint(alg.SAMPLES)] = x
        v[rs.rand(alg.SAMPLES) < 0.15] = np.clip(rs.randint(-3, 4), l, h)
        if st.n == alg.SAMPLES: st.S = dict(st.S); st.S[a.id] = v
        else: st.S = dict(st.S); st.S[a.id] = v[:st.n].copy() if st.n else v[:0]
    def rat(self, v, bits=64):
        if isinstance(v, Rat): return v
        if isinstance(v, float): return const_rat(v, bits)
        raise Unsupported('rat of %r' % (v,))
    def cmp0(self, st, r, mask):
        """formula for the sign of r"""
        return rat_cmp(r.n, r.d, mask, st.signs)
    def fneg(self, v):
        if isinstance(v, float): return -v
        if isinstance(v, Rat): return rneg(v)
        if v.__class__ is LInv: return LInv(lambda s, x: self.fneg(x), (v,))
        if isinstance(v, FPV): return FPV(z3.fpNeg(v.z), v.bits)
        raise Unsupported('fneg %r' % v)
    def force(self, st, v):
        r = st.lz.get(id(v))
        if r is not None: return r[1]
        # iteratively: the operands first
        todo = [v]
        while todo:
            x = todo[-1]
            if id(x) in st.lz: todo.pop(); continue
            sub = [y for y in x.a if y.__class__ is LInv and id(y) not in st.lz]
            if sub: todo.extend(sub); continue
            todo.pop()
            r = x.f(st, *[st.lz[id(y)][1] if y.__class__ is LInv else y for y in x.a])
            if r.__class__ is LInv: r = self.force(st, r)
            st.lz[id(x)] = (x, r)
        return st.lz[id(v)][1]
    def fdivide(self, st, a, b, bits):
        ra, rb = self.rat(a, bits), self.rat(b, bits)
        if is_rconst(rb) and not rb.n: z = True
        else: z = self.decide(st, self.cmp0(st, rb, 2))
        if z:
            if self.decide(st, self.cmp0(st, ra, 2)): return NAN
            pos = self.decide(st, self.cmp0(st, ra, 4))
            if isinstance(b, float) and math.copysign(1, b) < 0: pos = not pos
            return INF if pos else -INF
        return self.norm(rmul(ra, rinv(rb)))
    def fbin(self, st, op, a, b, bits):
        if a.__class__ is LInv or b.__class__ is LInv: return LInv(lambda s, x, y: self.fbin(s, op, x, y, bits), (a, b))
        if isinstance(a, float) and isinstance(b, float):
            r = self.fconc(op, a, b)
            return r if bits == 64 else (f32round(r) if not (math.isnan(r) or math.isinf(r)) else r)
        if isinstance(a, FPV) or isinstance(b, FPV): return self.fpbin(op, a, b, bits)
        if a is UNDEF or b is UNDEF: return UNDEF
        # special values
        for x, y, first in ((a, b, True), (b, a, False)):
            if isinstance(x, float) and (math.isnan(x) or math.isinf(x)):
                if math.isnan(x): return NAN
                if op == 'fadd': return x
                if op == 'fsub': return x if first else -x
                if op == 'fmul':
                    if self.decide(st, self.cmp0(st, y, 2)): return NAN
                    return x if self.decide(st, self.cmp0(st, y, 4)) else -x
                if op == 'fdiv':
                    if first: return x if self.decide(st, self.cmp0(st, y, 6)) else -x
                    return 0.0
                raise Unsupported('special %s' % op)
        ra, rb = self.rat(a, bits), self.rat(b, bits)
        if op == 'fadd':
            r = radd(ra, rb)
            if (ra.nn or is_nn_const(ra)) and (rb.nn or is_nn_const(rb)): mark_nn(r)
            return self.norm(r)
        if op == 'fsub': return self.norm(rsub(ra, rb))
        if op == 'fmul':
            r = rmul(ra, rb)
            if (ra is rb or ra.k() == rb.k() or ((ra.nn or is_nn_const(ra)) and (rb.nn or is_nn_const(rb)))) and roots_kept(ra, rb, r): mark_nn(r)
            return self.norm(r)
        if op == 'fdiv':
            if not is_rconst(rb):
                z = self.simplify(st, self.cmp0(st, rb, 2))
                if z is not True and z is not False: return LInv(lambda s, x, y: self.fdivide(s, x, y, bits), (a, b))
            return self.fdivide(st, a, b, bits)
        if op == 'frem':
            # sign of the dividend; quotient truncated
            if not is_rconst(rb): raise Unsupported('frem by symbolic')
            if not rb.n: return NAN
            q = rmul(ra, rinv(rb))
            k = self.trunc_int(st, q)
            return self.norm(rsub(ra, rscale(rb, k)))
        raise Unsupported(op)
    def norm(self, r):
        if not r.n: return 0.0
        if not r.d and len(r.n) == 1 and ONE in r.n:
            c = r.n[ONE]
            f = float(c)
            if abs(f) < 1e300 and (Fraction(f) == c or const_rat(f).n.get(ONE) == c): return f
        return r
    def fconc(self, op, a, b):
        try:
            if op == 'fadd': return a + b
            if op == 'fsub': return a - b
            if op == 'fmul': return a * b
            if op == 'fdiv':
                if b == 0:
                    if a == 0 or math.isnan(a): return NAN
                    return math.copysign(INF, a) * math.copysign(1, b)
                return a / b
            if op == 'frem':
                if b == 0 or math.isinf(a) or math.isnan(a) or math.isnan(b): return NAN
                return math.fmod(a, b)
        except OverflowError: return INF
        raise Unsupported(op)
    def trunc_int(self, st, r, lo=None, hi=None):
        """integer part (towards zero) of a real, forking over the possibilities"""
        if is_rconst(r): return int(cval(r.n))
        neg = self.decide(st, self.cmp0(st, r, 1))
        x = rneg(r) if neg else r
        k = 0
        if st.n:
            k = int(math.floor(float(np.broadcast_to(eval_rat(x, st.S, self.memo(st)), (st.n,))[0]) + 1e-12))
            k = max(k, 0)
            if self.decide(st, band([self.cmp0(st, rsub(x, rconst(k)), 6), self.cmp0(st, rsub(x, rconst(k + 1)), 1)])): return -k if neg else k
        k = 0
        while k < 5000:
            if self.decide(st, self.cmp0(st, rsub(x, rconst(k + 1)), 1)): return -k if neg else k
            k += 1
        raise Unsupported('integer part of an unbounded real')
    def fcmp(self, st, pred, a, b, bits):
        if a.__class__ is LInv: a = self.force(st, a)
        if b.__class__ is LInv: b = self.force(st, b)
        if a is UNDEF or b is UNDEF: return UNDEF
        if isinstance(a, FPV) or isinstance(b, FPV): return self.fpcmp(pred, a, b, bits)
        if isinstance(a, float) and isinstance(b, float):
            un = math.isnan(a) or math.isnan(b)
            if pred == 'ord': return not un
            if pred == 'uno': return un
            if un: return pred[0] == 'u' or pred == 'true'
            return {'eq': a == b, 'ne': a != b, 'lt': a < b, 'le': a <= b, 'gt': a > b, 'ge': a >= b}[pred[1:]]
        if pred == 'ord': return not any(isinstance(x, float) and math.isnan(x) for x in (a, b))
        if pred == 'uno': return any(isinstance(x, float) and math.isnan(x) for x in (a, b))
        for x, y, first in ((a, b, True), (b, a, False)):
            if isinstance(x, float) and (math.isnan(x) or math.isinf(x)):
                if math.isnan(x): return pred[0] == 'u'
                big = x > 0
                gt = big == first       # a > b
                return {'eq': False, 'ne': True, 'lt': not gt, 'le': not gt, 'gt': gt, 'ge': gt}[pred[1:]]
        mask = {'eq': 2, 'ne': 5, 'lt': 1, 'le': 3, 'gt': 4, 'ge': 6}[pred[1:]]
        return self.cmp0(st, rsub(self.rat(a, bits), self.rat(b, bits)), mask)
    def fsqrt(self, st, v, bits):
        if v.__class__ is LInv: return LInv(lambda s, x: self.fsqrt(s, x, bits), (v,))
        if isinstance(v, FPV): return FPV(z3.fpSqrt(z3.RNE(), v.z), bits)
        if isinstance(v, float):
            if v < 0 or math.isnan(v): return NAN
            r = math.sqrt(v)
            return r if bits == 64 else f32round(r)
        if v is UNDEF: return v
        c = self.simplify(st, self.cmp0(st, v, 1))
        if c is True: return NAN
        if c is not False or not self.sqrt_plain(st, v): return LInv(lambda s, x: self.fsqrt_now(s, x), (v,))
        return self.fsqrt_now(st, v)
    def sqrt_plain(self, st, v):
        return all(e % 4 == 0 or psign_static(QS[q]) & st.signs.get(pkey(QS[q]), 7) & 5 in (1, 4) for q, e in v.d)
    def fsqrt_now(self, st, v):
        if self.decide(st, self.cmp0(st, v, 1)): return NAN
        if self.simplify(st, self.cmp0(st, v, 2)) is True: return 0.0
        return self.norm(self.rsqrt(st, v))
    def rsqrt(self, st, v):
        """square root of a nonnegative rational function"""
        n = v.n
        den = pconst(1); dd = {}
        for q, e in v.d:
            h = (e + 1) // 2
            if e % 2: n = pmul(n, QS[q])
            # |Q|^h
            Q = QS[q]
            s = psign_static(Q) & st.signs.get(pkey(Q), 7) & 5
            if h % 2 and s not in (1, 4): s = 4 if self.decide(st, lit(Q, 4)) else 1
            if h % 2 and s == 1: den = pscale(den, -1)
            dd[q] = dd.get(q, 0) + h
        c, mono, prim = pcontent(n)
        res = pconst(1)
        left = []
        for a, e in mono:
            if e >= 2:
                h = e // 2
                s = atom_sign(a)
                s &= st.signs.get(pkey({((a, 1),): 1}), 7)
                f = {((a, h),): 1}
                if h % 2 == 0 or s in (4, 6, 2): pass
                elif s in (1, 3): f = pscale(f, -1)
                else:
                    f = self.pabs_atom(st, {((a, h),): 1})
                res = pmul(res, f)
            if e % 2: left.append((a, 1))
        if c < 0:
            c = -c; prim = pscale(prim, -1)
        c = Fraction(c)
        a2, b2 = math.isqrt(c.numerator), math.isqrt(c.denominator)
        inner = prim
        if left: inner = {mono_mul(m, tuple(left)): x for m, x in inner.items()}
        if a2 * a2 == c.numerator and b2 * b2 == c.denominator: res = pscale(res, cnorm(Fraction(a2, b2)))
        else: inner = pscale(inner, cnorm(c))
        if not is_const(inner) or cval(inner) != 1:
            ex = psqrt_exact(inner) if not is_const(inner) else None
            if ex is not None:
                f = self.pabs(st, ex)
                res = pmul(res, f)
            elif is_const(inner):
                f = math.sqrt(float(cval(inner)))
                at = new_atom('sqrt', 'sqrt(%s)' % cval(inner), (inner,), lo=Fraction(0), key=('sqrt', pkey(inner)))
                res = pmul(res, patom(at))
            else:
                at = new_atom('sqrt', 'sqrt%d' % len(ATOMS), (inner,), lo=Fraction(0), key=('sqrt', pkey(inner)))
                if st.signs.get(pkey(inner), 7) & psign_static(inner) & 2 == 0:
                    k = pkey(patom(at))
                    st.signs[k] = 4
                res = pmul(res, patom(at))
        if den != pconst(1): res = pscale(res, cval(den))
        return rreduce(res, tuple(sorted(dd.items())))
    def pabs(self, st, p):
        s = psign_static(p)
        if s & (s - 1): s &= st.signs.get(self.ck(p)[0], 7) if self.ck(p)[1] > 0 else flipmask(st.signs.get(self.ck(p)[0], 7))
        if s in (4, 6, 2): return p
        if s in (1, 3): return pscale(p, -1)
        l = lit(p, 6)
        b = self.simplify(st, l)
        if b is True: return p
        if b is False: return pscale(p, -1)
        # ask the solver before introducing |p|
        if st.n:
            m = eval_bool(l, st.S, self.memo(st))
            if m.all() and self.feasible(st, bnot(l))[0] == 'unsat':
                self.learn(st, l); return p
            if not m.any() and self.feasible(st, l)[0] == 'unsat':
                self.learn(st, bnot(l)); return pscale(p, -1)
        return self.pabs_atom(st, p)
    def ck(self, p):
        c, mono, prim = pcontent(p)
        if mono: prim = {mono_mul(m, mono): v for m, v in prim.items()}
        return pkey(prim), c
    def pabs_atom(self, st, p):
        c, mono, prim = pcontent(p)
        if mono: prim = {mono_mul(m, mono): v for m, v in prim.items()}
        at = new_atom('abs', 'abs%d' % len(ATOMS), (prim,), lo=Fraction(0), key=('abs', pkey(prim)))
        return pscale(patom(at), abs(c))
    def fabs(self, st, v):
        if isinstance(v, float): return abs(v)
        if isinstance(v, FPV): return FPV(z3.fpAbs(v.z), v.bits)
        if v is UNDEF: return v
        n = self.pabs(st, v.n)
        for q, e in v.d:
            if e % 2 == 0: continue
            Q = QS[q]
            s = psign_static(Q) & st.signs.get(pkey(Q), 7) & 5
            if s not in (1, 4): s = 4 if self.decide(st, lit(Q, 4)) else 1
            if s == 1: n = pscale(n, -1)
        return self.norm(Rat(n, v.d))
    def fminmax(self, st, ismax, a, b, bits):
        if a.__class__ is LInv: a = self.force(st, a)
        if b.__class__ is LInv: b = self.force(st, b)
        if isinstance(a, FPV) or isinstance(b, FPV):
            x, y = self.fpz(a, bits), self.fpz(b, bits)
            c = (x > y) if ismax else (x < y)
            return FPV(z3.If(z3.fpIsNaN(x), y, z3.If(z3.fpIsNaN(y), x, z3.If(z3.fpGT(x, y) if ismax else z3.fpLT(x, y), x, y))), bits)
        if isinstance(a, float) and isinstance(b, float):
            if math.isnan(a): return b
            if math.isnan(b): return a
            return max(a, b) if ismax else min(a, b)
        if a is UNDEF or b is UNDEF: return UNDEF
        for x, y in ((a, b), (b, a)):
            if isinstance(x, float) and (math.isnan(x) or math.isinf(x)):
                if math.isnan(x): return y
                return x if (x > 0) == ismax else y
        ra, rb = self.rat(a, bits), self.rat(b, bits)
        if ra.k() == rb.k(): return a
        d = rsub(ra, rb)
        c = self.simplify(st, self.cmp0(st, d, 6))
        if c is True: return a if ismax else b
        if c is False: return b if ismax else a
        ks = sorted([ra, rb], key=lambda r: hash(r.k()))
        at = new_atom('max' if ismax else 'min', '%s%d' % ('max' if ismax else 'min', len(ATOMS)), (ks[0], ks[1]),
                      key=('max' if ismax else 'min', frozenset((ra.k(), rb.k()))))
        if at.lo is None and at.hi is None:
            li = [self.bounds(r) for r in ks]
            f = max if ismax else min
            los = [x[0] for x in li]; his = [x[1] for x in li]
            if ismax:
                kl = [x for x in los if x is not None]; at.lo = max(kl) if kl else None
                at.hi = None if None in his else max(his)
            else:
                kh = [x for x in his if x is not None]; at.hi = min(kh) if kh else None
                at.lo = None if None in los else min(los)
        return ratom(at)
    def bounds(self, r):
        if r.d: return (None, None)
        return pinterval(r.n)
    def ffun(self, st, name, v, bits, w=None, lazy=True):
        """transcendental functions"""
        if v.__class__ is LInv or w.__class__ is LInv:
            return LInv(lambda s, x, y=None: self.ffun(s, name, x, bits, y), (v,) if w is None else (v, w))
        if isinstance(v, FPV): raise Unsupported('fp ' + name)
        if v is UNDEF: return UNDEF
        if isinstance(v, float) and (w is None or isinstance(w, float)):
            return self.fconc_fun(name, v, w, bits)
        if w is not None and isinstance(w, float) and (math.isnan(w) or math.isinf(w)) or isinstance(v, float) and (math.isnan(v) or math.isinf(v)):
            if any(isinstance(x, float) and math.isnan(x) for x in (v, w)): return NAN
            raise Unsupported(name + ' of infinity')
        r = self.rat(v, bits)
        if name in ('acos', 'asin') and lazy:
            if any(self.simplify(st, self.cmp0(st, x, m)) is not False for x, m in ((rsub(r, rconst(1)), 4), (radd(r, rconst(1)), 1))):
                return LInv(lambda s, x: self.ffun(s, name, x, bits, None, False), (v,))
        if name == 'ln':
            if self.decide(st, self.cmp0(st, r, 3)):
                return -INF if self.decide(st, self.cmp0(st, r, 2)) else NAN
        if name in ('acos', 'asin'):
            if self.decide(st, self.cmp0(st, rsub(r, rconst(1)), 4)): return NAN
            if self.decide(st, self.cmp0(st, radd(r, rconst(1)), 1)): return NAN
        key = (name, r.k()) if w is None else (name, r.k(), self.rat(w, bits).k())
        if name in ('sin', 'cos'):
            ex = self.special_angle(name, r)
            if ex is not None: return ex
            # normalise the sign of the angle
            neg = False
            c, mono, prim = pcontent(r.n)
            if c < 0: r = rneg(r); neg = True
            ca = new_atom('cos', 'cos%d' % len(ATOMS), (r,), lo=Fraction(-1), hi=Fraction(1), key=('cos', r.k()))
            if name == 'cos': return ratom(ca)
            sa = new_atom('sin', 'sin%d' % len(ATOMS), (r, ca), lo=Fraction(-1), hi=Fraction(1), key=('sin', r.k()))
            return rneg(ratom(sa)) if neg else ratom(sa)
        args = (r,) if w is None else (r, self.rat(w, bits))
        lo = hi = None
        if name == 'acos': lo, hi = Fraction(0), PI.hi
        elif name in ('asin', 'atan'): lo, hi = -PI.hi / 2, PI.hi / 2
        elif name == 'atan2': lo, hi = -PI.hi, PI.hi
        elif name == 'exp':
            lo = Fraction(0)
            b = self.bounds(r)
            if b[1] is not None and b[1] <= 0: hi = Fraction(1)
        elif name == 'ln':
            b = self.bounds(r)
            if b[1] is not None and b[1] <= 1: hi = Fraction(0)
        elif name == 'tan':
            # only angles within (-pi/2, pi/2) get a bounded sign
            b = self.bounds(r)
            if b[0] is not None and b[0] >= 0 and b[1] is not None and b[1] < Fraction(157, 100): lo = Fraction(0)
        at = new_atom(name, '%s%d' % (name, len(ATOMS)), args, lo=lo, hi=hi, key=key)
        return ratom(at)
    def special_angle(self, name, r):
        if r.d: return None
        if not r.n: return 0.0 if name == 'sin' else 1.0
        if set(r.n) == {((PI.id, 1),)}:
            c = Fraction(r.n[((PI.id, 1),)]) * 2
            if c.denominator == 1:
                k = c.numerator % 4
                return [0.0, 1.0, 0.0, -1.0][k] if name == 'sin' else [1.0, 0.0, -1.0, 0.0][k]
        return None
    def fconc_fun(self, name, v, w, bits):
        try:
            r = {'sin': math.sin, 'cos': math.cos, 'tan': math.tan, 'exp': math.exp, 'acos': math.acos, 'asin': math.asin, 'atan': math.atan,
                 'ln': lambda x: math.log(x) if x > 0 else (-INF if x == 0 else NAN), 'atan2': None, 'pow': None}[name]
            if name == 'atan2': r = math.atan2(v, w)
            elif name == 'pow': r = math.pow(v, w)
            else: r = r(v)
        except (ValueError, OverflowError):
            r = INF if name == 'exp' else NAN
        return r if bits == 64 else f32round(r)

    # ---------------------------------------------------------------- bit-precise floats
    def fpsort(self, bits):
        o = self.o['fp_bits']
        if o and bits == 64: return z3.FPSort(*o)
        return z3.Float64() if bits == 64 else z3.Float32()
    def fpz(self, v, bits):
        if isinstance(v, FPV): return v.z
        if isinstance(v, float):
            s = self.fpsort(bits)
            if math.isnan(v): return z3.fpNaN(s)
            if math.isinf(v): return z3.fpPlusInfinity(s) if v > 0 else z3.fpMinusInfinity(s)
            if v == 0: return z3.fpMinusZero(s) if math.copysign(1, v) < 0 else z3.fpPlusZero(s)
            return z3.fpToFP(z3.RNE(), z3.FPVal(v, z3.Float64()), s) if s != z3.Float64() else z3.FPVal(v, s)
        raise Unsupported('fp of %r' % (v,))
    def fpbin(self, op, a, b, bits):
        x, y = self.fpz(a, bits), self.fpz(b, bits)
        rm = z3.RNE()
        if op == 'fadd': r = z3.fpAdd(rm, x, y)
        elif op == 'fsub': r = z3.fpSub(rm, x, y)
        elif op == 'fmul': r = z3.fpMul(rm, x, y)
        elif op == 'fdiv': r = z3.fpDiv(rm, x, y)
        else: raise Unsupported('fp ' + op)
        return FPV(r, bits)
    def fpcmp(self, pred, a, b, bits):
        x, y = self.fpz(a, bits), self.fpz(b, bits)
        un = z3.Or(z3.fpIsNaN(x), z3.fpIsNaN(y))
        if pred == 'uno': e = un
        elif pred == 'ord': e = z3.Not(un)
        else:
            o = {'eq': z3.fpEQ, 'ne': z3.fpNEQ, 'lt': z3.fpLT, 'le': z3.fpLEQ, 'gt': z3.fpGT, 'ge': z3.fpGEQ}[pred[1:]](x, y)
            e = z3.Or(un, o) if pred[0] == 'u' else z3.And(z3.Not(un), o)
        e = z3.simplify(e)
        if z3.is_true(e): return True
        if z3.is_false(e): return False
        return ('z', e)

    # ================================================================ integers
    def iv(self, st, o, regs):
        v = o[1] if o[0] == 0 else regs[o[1]]
        return v
    def as_isym(self, v, w):
        if isinstance(v, ISym): return v
        if isinstance(v, int):
            s = sgn(v, w)
            return ISym(pconst(s), s, s, w)
        if isinstance(v, BSym):
            at = new_atom('ite', 'b%d' % len(ATOMS), (v.b, rconst(1), rconst(0)), lo=Fraction(0), hi=Fraction(1), key=('iteb', bkey(v.b)))
            return ISym(patom(at), 0, 1, w)
        raise Unsupported('integer from %r' % (v,))
    def mk_isym(self, st, p, lo, hi, w):
        """integer polynomial, wrapped into the width by forking if it may leave it"""
        if is_const(p): return int(cval(p)) & ((1 << w) - 1)
        if lo < -(1 << (w - 1)) or hi >= (1 << w):
            if self.decide(st, lit(padd(p, pconst(-(1 << w))), 6)):
                p = padd(p, pconst(-(1 << w))); lo, hi = max(lo - (1 << w), 0), hi - (1 << w)
            elif lo < -(1 << (w - 1)) and self.decide(st, lit(padd(p, pconst(1 << (w - 1))), 1)):
                p = padd(p, pconst(1 << w)); lo, hi = lo + (1 << w), min(hi + (1 << w), (1 << w) - 1)
            else: lo = max(lo, -(1 << (w - 1))); hi = min(hi, (1 << w) - 1)
            if lo < -(1 << (w - 1)) or hi >= (1 << w): raise Unsupported('integer range')
        return ISym(p, lo, hi, w)
    def split_poly(self, p, d):
        """(q, r) with p = d q + r and 0 <= r < d for an integer polynomial, where that can be read off"""
        q, r = {}, {}
        for m, c in p.items():
            if c != int(c) or any(not ATOMS[a].isint for a, _ in m): return None
            c = int(c)
            if not m: r[m] = r.get(m, 0) + c % d; q[m] = c // d
            elif c % d == 0: q[m] = c // d
            else: r[m] = c
        q = {m: c for m, c in q.items() if c}; r = {m: c for m, c in r.items() if c}
        lo, hi = pinterval(r)
        if lo is None or lo < 0 or hi >= d: return None
        return q, r
    def unsigned(self, st, v, w):
        """the same value with a nonnegative representative"""
        v = self.as_isym(v, w) if not isinstance(v, int) else v
        if isinstance(v, int): return v
        if v.lo >= 0: return v
        if v.hi < 0: return ISym(padd(v.p, pconst(1 << w)), v.lo + (1 << w), v.hi + (1 << w), w)
        if self.decide(st, lit(v.p, 6)): return ISym(v.p, 0, v.hi, w)
        return ISym(padd(v.p, pconst(1 << w)), v.lo + (1 << w), (1 << w) - 1, w)
    def signed(self, st, v, w):
        v = self.as_isym(v, w)
        h = 1 << (w - 1)
        if v.hi < h: return v
        if v.lo >= h: return ISym(padd(v.p, pconst(-2 * h)), v.lo - 2 * h, v.hi - 2 * h, w)
        if self.decide(st, lit(padd(v.p, pconst(-h)), 1)): return ISym(v.p, v.lo, h - 1, w)
        return ISym(padd(v.p, pconst(-2 * h)), -h, v.hi - 2 * h, w)
    def ibin(self, st, op, w, a, b):
        M = (1 << w) - 1
        if type(a) is int and type(b) is int:
            if op == 'add': return (a + b) & M
            if op == 'sub': return (a - b) & M
            if op == 'and': return a & b
            if op == 'or': return a | b
            if op == 'xor': return a ^ b
            if op == 'shl': return (a << b) & M if b < w else 0
            if op == 'lshr': return a >> b if b < w else 0
            if op == 'ashr': return (sgn(a, w) >> min(b, w - 1)) & M
            if op == 'mul': return (a * b) & M
            if op == 'udiv' or op == 'urem':
                if b == 0: raise PathEnd('ub', 'division by zero')
                return a // b if op == 'udiv' else a % b
            x, y = sgn(a, w), sgn(b, w)
            if y == 0: raise PathEnd('ub', 'division by zero')
            q = abs(x) // abs(y)
            if (x < 0) != (y < 0): q = -q
            return (q if op == 'sdiv' else x - q * y) & M
        if isinstance(a, tuple) or isinstance(b, tuple): raise EngineError('vector in ibin')
        if a is UNDEF or b is UNDEF:
            if op == 'and' and (a == 0 or b == 0): return 0
            return UNDEF
        if isinstance(a, float): a = FBits(a, w)
        if isinstance(b, float): b = FBits(b, w)
        # booleans
        if isinstance(a, BSym) or isinstance(b, BSym):
            if type(a) is int and isinstance(b, BSym) and op in ('and', 'or', 'xor', 'add', 'mul'): a, b = b, a
            if isinstance(a, BSym):
                if isinstance(b, BSym):
                    if op == 'and': return self.mkb(band([a.b, b.b]), w)
                    if op == 'or': return self.mkb(bor([a.b, b.b]), w)
                    if op == 'xor':
                        return self.mkb(bor([band([a.b, bnot(b.b)]), band([bnot(a.b), b.b])]), w)
                elif type(b) is int:
                    if op == 'and': return a if b & 1 else 0
                    if op == 'or' and b in (0, 1): return a if b == 0 else 1
                    if op == 'xor' and b in (0, 1): return a if b == 0 else self.mkb(bnot(a.b), w)
                    if op == 'xor' and w == 1: return self.mkb(bnot(a.b), w)
                    if op == 'shl' and b == 0 or op == 'lshr' and b == 0: return a
                    if op == 'lshr': return 0
            if w == 1:
                raise Unsupported('i1 op ' + op)
        # float bit tricks
        for x, y in ((a, b), (b, a)):
            if isinstance(x, FBits):
                if op == 'and' and type(y) is int:
                    if y == M >> 1: return FBits(self.fabs(st, x.r), w)
                    if y == 1 << (w - 1): return (1 << (w - 1)) if self.isneg(st, x.r) else 0
                if op == 'xor' and type(y) is int and y == 1 << (w - 1): return FBits(self.fneg(x.r), w)
                if op == 'xor' and isinstance(y, FSign) and y.kind == 1: return FKey(x.r, w)
                if op == 'ashr' and x is a and y == w - 1: return FSign(x.r, w, 0)
                if op == 'lshr' and x is a and y == w - 1: return 1 if self.isneg(st, x.r) else 0
                if op == 'lshr' and x is a and type(y) is int and y % 8 == 0 and 0 < y < w: return Cat([(w // 8 - y // 8, part_of(x.r, w // 8, y // 8, w // 8 - y // 8)), (y // 8, 0)])
        if isinstance(a, FSign) and op == 'lshr' and b == 1 and a.kind == 0: return FSign(a.r, w, 1)
        if isinstance(a, FSign) and op == 'and' and b == M >> 1: return FSign(a.r, w, 1)
        if isinstance(a, FSign):
            a = (M if a.kind == 0 else M >> 1) if self.isneg(st, a.r) else 0
            return self.ibin(st, op, w, a, b)
        if isinstance(b, FSign):
            b = (M if b.kind == 0 else M >> 1) if self.isneg(st, b.r) else 0
            return self.ibin(st, op, w, a, b)
        if isinstance(a, (FBits, FKey, Cat)) or isinstance(b, (FBits, FKey, Cat)):
            if op == 'shl' and type(b) is int and b % 8 == 0:
                if isinstance(a, FBits): a = Cat([(w // 8, a.r)])
                if isinstance(a, Cat):
                    left = w // 8 - b // 8; out = [(b // 8, 0)] if b else []
                    for n, x in a.parts:
                        if n > left:
                            if x.__class__ is int and left: out.append((left, x & ((1 << 8 * left) - 1)))
                            elif left: out = None
                            left = 0
                            break
                        out.append((n, x)); left -= n
                        if not left: break
                    if out is not None:
                        if left: out.append((left, 0))
                        return Cat(out)
            if op in ('or', 'add', 'xor'):
                v = self.cat_or(a, b, w)
                if v is not None: return v
            if isinstance(a, Cat) and op in ('lshr', 'and', 'trunc') and type(b) is int: return self.cat_op(op, a, b, w)
            raise Unsupported('bit operation %s on a symbolic float %r %r' % (op, a, b))
        A, B = self.as_isym(a, w), self.as_isym(b, w)
        if op in ('add', 'sub'):
            if op == 'sub': p, lo, hi = padd(A.p, pscale(B.p, -1)), A.lo - B.hi, A.hi - B.lo
            else: p, lo, hi = padd(A.p, B.p), A.lo + B.lo, A.hi + B.hi
            return self.mk_isym(st, p, lo, hi, w)
        if op == 'mul':
            c = [A.lo * B.lo, A.lo * B.hi, A.hi * B.lo, A.hi * B.hi]
            return self.mk_isym(st, pmul(A.p, B.p), min(c), max(c), w)
        if op == 'shl' and type(b) is int: return self.ibin(st, 'mul', w, a, (1 << b) & M)
        if op in ('or', 'xor'):
            X, Y = [ISym(pconst(x), x, x, w) if type(x) is int else x for x in (a, b)]
            for X, Y in ((X, Y), (Y, X)):
                if isinstance(X, ISym) and isinstance(Y, ISym) and Y.lo >= 0 and X.lo >= 0:
                    sp = self.split_poly(X.p, 1 << int(Y.hi).bit_length())
                    if sp and not sp[1]: return self.mk_isym(st, padd(X.p, Y.p), X.lo + Y.lo, X.hi + Y.hi, w)
        if op in ('and',) and type(b) is int and A.lo >= 0 and (b & (b + 1)) == 0 and A.hi <= b: return A
        if op in ('udiv', 'urem', 'sdiv', 'srem', 'lshr', 'ashr', 'and') and type(b) is int:
            if op == 'lshr': d, op2 = 1 << b, 'udiv'
            elif op == 'ashr': d, op2 = 1 << b, 'fdivi'
            elif op == 'and':
                if (b & (b + 1)) == 0: d, op2 = b + 1, 'urem'
                else: d = None
            else: d, op2 = sgn(b, w) if op[0] == 's' else b, op
            if d is not None and d > 0:
                U = self.unsigned(st, A, w) if op2[0] == 'u' else self.signed(st, A, w)
                neg = op2[0] == 's' and U.lo < 0 and self.decide(st, lit(U.p, 1))
                x = pscale(U.p, -1) if neg else U.p
                lo, hi = (-U.hi, -U.lo) if neg else (U.lo, U.hi)
                if not neg and op2[0] == 's': lo = max(lo, 0)
                sp = self.split_poly(x, d)
                if d == 1: q = x; ql, qh = lo, hi
                elif sp:
                    q = sp[0]; ql, qh = lo // d, hi // d
                    if op2[1:] == 'rem':
                        rl, rh = pinterval(sp[1])
                        return self.mk_isym(st, pscale(sp[1], -1) if neg else sp[1], int(-rh if neg else rl), int(-rl if neg else rh), w)
                else:
                    q = self.floor_poly(Rat(pscale(x, Fraction(1, d))), lo // d, hi // d)
                    ql, qh = lo // d, hi // d
                if op2[1:] == 'rem': p, lo, hi = padd(x, pscale(q, -d)), 0, min(d - 1, hi) if ql >= 0 else d - 1
                else: p, lo, hi = q, ql, qh
                if neg: p, lo, hi = pscale(p, -1), -hi, -lo
                return self.mk_isym(st, p, lo, hi, w)
        # give up: concrete values
        if isinstance(a, (ISym, BSym)): return self.ibin(st, op, w, self.concrete(st, a, w), b)
        return self.ibin(st, op, w, a, self.concrete(st, b, w))
    def cat_or(self, a, b, w):
        """or of packed values whose nonzero parts do not overlap"""
        def parts(v):
            if isinstance(v, Cat): ps = v.parts
            elif isinstance(v, FBits): ps = [(w // 8, v.r)]
            elif type(v) is int: ps = [(1, v >> 8 * i & 255) for i in range(w // 8)]
            else: return None
            out = {}; pos = 0
            for n, x in ps:
                if type(x) is int:
                    for i in range(n): 
                        if x >> 8 * i & 255: out[pos + i] = (1, x >> 8 * i & 255)
                else: out[pos] = (n, x)
                pos += n
            return out
        p, q = parts(a), parts(b)
        if p is None or q is None: return None
        used = set()
        for m in (p, q):
            for o, (n, x) in m.items():
                for i in range(o, o + n):
                    if i in used: return None
                    used.add(i)
        p.update(q)
        out = []; pos = 0
        while pos < w // 8:
            if pos in p:
                n, x = p[pos]
                if n == 1 and type(x) is int:
                    val = 0; k = 0
                    while pos + k < w // 8 and (pos + k not in p or type(p[pos + k][1]) is int):
                        val |= p[pos + k][1] << 8 * k if pos + k in p else 0
                        k += 1
                    out.append((k, val)); pos += k
                else: out.append((n, x)); pos += n
            else:
                k = 0; val = 0
                while pos + k < w // 8 and (pos + k not in p or type(p[pos + k][1]) is int):
                    val |= p[pos + k][1] << 8 * k if pos + k in p else 0
                    k += 1
                out.append((k, val)); pos += k
        if len(out) > 1:
            v = join_parts(out)
            if v is not None: return FBits(v, w) if isinstance(v, Rat) else v
        return Cat(out)
    def cat_op(self, op, a, b, w):
        if op == 'lshr' and b % 8 == 0:
            sk = b // 8; parts = list(a.parts)
            while sk and parts and parts[0][0] <= sk: sk -= parts[0][0]; parts.pop(0)
            if sk == 0:
                parts.append((b // 8, 0))
                return Cat(parts)
        if op == 'and' and b in (255, 65535, 0xffffffff):
            n = {255: 1, 65535: 2, 0xffffffff: 4}[b]
            if a.parts[0][0] == n:
                tot = sum(p[0] for p in a.parts)
                v = a.parts[0][1]
                return v if isinstance(v, (int, ISym, BSym)) else Cat([a.parts[0], (tot - n, 0)])
        raise Unsupported('operation %s on a packed value' % op)
    def floor_poly(self, r, lo=None, hi=None):
        if is_rconst(r):
            return pconst(math.floor(Fraction(cval(r.n))))
        at = new_atom('floor', 'fl%d' % len(ATOMS), (r,), lo=None if lo is None else Fraction(lo), hi=None if hi is None else Fraction(hi), key=('floor', r.k()), isint=True)
        return patom(at)
    def isneg(self, st, r):
        if isinstance(r, float): return math.copysign(1, r) < 0
        if isinstance(r, FPV): raise Unsupported('sign of fp')
        return self.decide(st, self.cmp0(st, r, 1))
    def mkb(self, b, w=1):
        if b is True: return 1
        if b is False: return 0
        return BSym(b, w)
    def tobool(self, st, v):
        """formula of an i1 value"""
        if type(v) is int: return bool(v & 1)
        if isinstance(v, BSym): return v.b
        if v is UNDEF: raise PathEnd('ub', 'branch on undef')
        if isinstance(v, ISym): return lit(v.p, 5)
        raise Unsupported('bool of %r' % (v,))
    def icmp(self, st, pred, w, a, b):
        if type(a) is int and type(b) is int:
            if pred == 'eq': return int(a == b)
            if pred == 'ne': return int(a != b)
            if pred[0] == 's': a = sgn(a, w); b = sgn(b, w)
            k = pred[1:]
            return int(a < b if k == 'lt' else a <= b if k == 'le' else a > b if k == 'gt' else a >= b)
        if a is UNDEF or b is UNDEF: return UNDEF
        if isinstance(a, float): a = FBits(a, w)
        if isinstance(b, float): b = FBits(b, w)
        if isinstance(a, Cat) or isinstance(b, Cat): return self.cat_cmp(st, pred, a, b)
        mask = {'eq': 2, 'ne': 5, 'lt': 1, 'le': 3, 'gt': 4, 'ge': 6}[pred if pred in ('eq', 'ne') else pred[1:]]
        if isinstance(a, FKey) or isinstance(b, FKey):
            x, y = self.unkey(a, w), self.unkey(b, w)
            if isinstance(x, float) and isinstance(y, float) : return int(self.fcmp(st, 'o' + pred[-2:], x, y, w))
            for s, o, first in ((x, y, 1), (y, x, 0)):
                if isinstance(s, float) and math.isnan(s):
                    big = math.copysign(1, s) > 0
                    gt = big == bool(first)
                    return int({'eq': False, 'ne': True, 'lt': not gt, 'le': not gt, 'gt': gt, 'ge': gt}[pred[-2:]])
            return self.mkb(self.simp_b(st, self.fcmp(st, ('o' + pred[-2:]) if pred != 'ne' else 'une', x, y, w)))
        if isinstance(a, FBits) or isinstance(b, FBits):
            if not isinstance(a, FBits): a, b = b, a; pred = {'eq': 'eq', 'ne': 'ne', 'slt': 'sgt', 'sgt': 'slt', 'sle': 'sge', 'sge': 'sle', 'ult': 'ugt', 'ugt': 'ult', 'ule': 'uge', 'uge': 'ule'}[pred]
            y = b.r if isinstance(b, FBits) else unpack_bits(b, w // 8) if type(b) is int else None
            if pred in ('slt', 'sge') and b == 0: return int(self.isneg(st, a.r) == (pred == 'slt'))
            if pred in ('sgt', 'sle') and b == (1 << w) - 1: return int(self.isneg(st, a.r) == (pred == 'sle'))
            if pred in ('eq', 'ne') and y is not None:
                return self.mkb(self.simp_b(st, self.fcmp(st, 'oeq' if pred == 'eq' else 'une', a.r, y, w)))
            # ordering of bit patterns of nonnegative numbers is the numeric one
            if y is not None and not (isinstance(y, float) and math.isnan(y)) and not self.isneg(st, a.r) and not self.isneg(st, y):
                return self.mkb(self.simp_b(st, self.fcmp(st, 'o' + pred[1:], a.r, y, w)))
            raise Unsupported('comparison of float bits')
        if isinstance(a, BSym) and type(b) is int:
            t = {'eq': lambda x, y: x == y, 'ne': lambda x, y: x != y, 'lt': lambda x, y: x < y, 'le': lambda x, y: x <= y, 'gt': lambda x, y: x > y, 'ge': lambda x, y: x >= y}[pred if pred in ('eq', 'ne') else pred[1:]]
            y = sgn(b, w) if pred[0] == 's' else b
            one = -1 if pred[0] == 's' and w == 1 else 1
            r0, r1 = t(0, y), t(one, y)
            if r0 == r1: return int(r0)
            return BSym(a.b if r1 else bnot(a.b), 1)
        if isinstance(b, BSym) and type(a) is int:
            return self.icmp(st, {'eq': 'eq', 'ne': 'ne', 'slt': 'sgt', 'sgt': 'slt', 'sle': 'sge', 'sge': 'sle', 'ult': 'ugt', 'ugt': 'ult', 'ule': 'uge', 'uge': 'ule'}[pred], w, b, a)
        if isinstance(a, BSym) and isinstance(b, BSym) and pred in ('eq', 'ne'):
            x = bor([band([a.b, b.b]), band([bnot(a.b), bnot(b.b)])])
            return self.mkb(x if pred == 'eq' else bnot(x))
        if pred[0] == 's': A, B = self.signed(st, a, w), self.signed(st, b, w)
        else: A, B = self.as_isym(self.unsigned(st, a, w), w + 1), self.as_isym(self.unsigned(st, b, w), w + 1)
        if mask == 2 and (A.lo > B.hi or A.hi < B.lo): return 0
        if mask == 5 and (A.lo > B.hi or A.hi < B.lo): return 1
        if A.lo > B.hi: return int(bool(mask & 4))
        if A.hi < B.lo: return int(bool(mask & 1))
        if A.lo >= B.hi and mask == 6: return 1
        if A.hi <= B.lo and mask == 3: return 1
        if A.lo >= B.hi and mask == 1: return 0
        if A.hi <= B.lo and mask == 4: return 0
        d = padd(A.p, pscale(B.p, -1))
        r = Rat(d)
        return self.mkb(self.simp_b(st, rat_cmp(r.n, r.d, mask, st.signs)))
    def simp_b(self, st, b): return self.simplify(st, b)
    def unkey(self, v, w):
        if isinstance(v, FKey): return v.r
        if isinstance(v, FBits): return v.r       # only sign-positive values reach here
        if type(v) is int:
            s = sgn(v, w)
            if s < 0: v ^= (1 << (w - 1)) - 1
            return unpack_bits(v, w // 8)
        raise Unsupported('key of %r' % (v,))
    def cat_cmp(self, st, pred, a, b):
        if pred not in ('eq', 'ne'): raise Unsupported('ordering of packed values')
        def split(x, sizes):
            if isinstance(x, Cat):
                if [p[0] for p in x.parts] == sizes: return [p[1] for p in x.parts]
                raise Unsupported('packed comparison')
            out = []
            for s in sizes: out.append(x & ((1 << (8 * s)) - 1)); x >>= 8 * s
            return out
        sizes = [p[0] for p in (a if isinstance(a, Cat) else b).parts]
        es = []
        for s, x, y in zip(sizes, split(a, sizes), split(b, sizes)):
            if isinstance(x, (float, Rat)) or isinstance(y, (float, Rat)):
                x = unpack_bits(x, s) if type(x) is int else x; y = unpack_bits(y, s) if type(y) is int else y
                es.append(self.fcmp(st, 'oeq', x, y, s * 8))
            else: es.append(self.tobool(st, self.icmp(st, 'eq', s * 8, x, y)))
        e = self.simplify(st, band(es))
        return self.mkb(e if pred == 'eq' else bnot(e))

    # ================================================================ instructions
    def op_bin(self, st, fr, ins):
        op, d, t, a, b = ins
        regs = fr.regs
        a = a[1] if a[0] == 0 else regs[a[1]]
        b = b[1] if b[0] == 0 else regs[b[1]]
        k = t[0]
        if k == 'i':
            w = t[1]
            if type(a) is int and type(b) is int:
                if op == 'add': return (a + b) & ((1 << w) - 1)
                if op == 'sub': return (a - b) & ((1 << w) - 1)
                if op == 'and': return a & b
                if op == 'xor': return a ^ b
            return self.ibin(st, op, w, a, b)
        if k == 'f': return self.fbin(st, op, a, b, t[1])
        if k == 'v':
            if a is UNDEF or b is UNDEF: return UNDEF
            e = t[2]
            if e[0] == 'f': return tuple(self.fbin(st, op, x, y, e[1]) for x, y in zip(a, b))
            return tuple(self.ibin(st, op, e[1], x, y) for x, y in zip(a, b))
        raise Unsupported('binop on %r' % (t,))
    op_add = op_sub = op_mul = op_udiv = op_sdiv = op_urem = op_srem = op_and = op_or = op_xor = op_shl = op_lshr = op_ashr = op_bin
    op_fadd = op_fsub = op_fmul = op_fdiv = op_frem = op_bin
    def op_fneg(self, st, fr, ins):
        v = self.iv(st, ins[3], fr.regs)
        if v is UNDEF: return v
        if isinstance(v, tuple): return tuple(self.fneg(x) for x in v)
        return self.fneg(v)
    def op_freeze(self, st, fr, ins):
        v = self.iv(st, ins[3], fr.regs)
        if v is UNDEF: return self.m.zero(ins[2])
        return v
    def op_icmp(self, st, fr, ins):
        _, d, pred, t, a, b = ins
        regs = fr.regs
        a = a[1] if a[0] == 0 else regs[a[1]]
        b = b[1] if b[0] == 0 else regs[b[1]]
        k = t[0]
        if k == 'v':
            if a is UNDEF or b is UNDEF: return UNDEF
            w = t[2][1] if t[2][0] == 'i' else 64
            return tuple(self.icmp(st, pred, w, x, y) for x, y in zip(a, b))
        return self.icmp(st, pred, t[1] if k == 'i' else 64, a, b)
    def op_fcmp(self, st, fr, ins):
        _, d, pred, t, a, b = ins
        regs = fr.regs
        a = a[1] if a[0] == 0 else regs[a[1]]
        b = b[1] if b[0] == 0 else regs[b[1]]
        if pred == 'true': return 1
        if pred == 'false': return 0
        if t[0] == 'v': return tuple(self.mkb(self.simplify(st, self.fcmp(st, pred, x, y, t[2][1]))) for x, y in zip(a, b))
        r = self.fcmp(st, pred, a, b, t[1])
        return UNDEF if r is UNDEF else self.mkb(self.simplify(st, r))
    def op_select(self, st, fr, ins):
        _, d, ct, c, t, a, b = ins
        regs = fr.regs
        c = c[1] if c[0] == 0 else regs[c[1]]
        a = a[1] if a[0] == 0 else regs[a[1]]
        b = b[1] if b[0] == 0 else regs[b[1]]
        if type(c) is int: return a if c & 1 else b
        if ct[0] == 'v':
            if c is UNDEF: return UNDEF
            return tuple(x if (type(k) is int and k & 1) or (type(k) is not int and self.decide(st, self.tobool(st, k))) else y for k, x, y in zip(c, a, b))
        if c is UNDEF: return a
        if same(a, b): return a
        f = self.tobool(st, c)
        if t == ('i', 1) or t[0] == 'i' and a in (0, 1) and b in (0, 1) and type(a) is int and type(b) is int:
            if t == ('i', 1) and a is not UNDEF and b is not UNDEF:
                x, y = self.tobool(st, a), self.tobool(st, b)
                if x is True: return self.mkb(bor([f, y]))
                if x is False: return self.mkb(band([bnot(f), y]))
                if y is True: return self.mkb(bor([bnot(f), x]))
                if y is False: return self.mkb(band([f, x]))
            elif a == 1 and b == 0: return BSym(f, t[1])
            elif a == 0 and b == 1: return BSym(bnot(f), t[1])
        if self.o.get('ite') and t[0] == 'f' and isinstance(a, (float, Rat)) and isinstance(b, (float, Rat)):
            s = self.simplify(st, f)
            if s is True: return a
            if s is False: return b
            if not any(isinstance(x, float) and (math.isnan(x) or math.isinf(x)) for x in (a, b)):
                x, y = self.rat(a, t[1]), self.rat(b, t[1])
                at = new_atom('ite', 'ite%d' % len(ATOMS), (s, x, y), key=('ite', bkey(s), x.k(), y.k()))
                bx, by = self.bounds(x), self.bounds(y)
                if None not in (bx[0], by[0]): at.lo = min(bx[0], by[0])
                if None not in (bx[1], by[1]): at.hi = max(bx[1], by[1])
                return ratom(at)
        return a if self.decide(st, f) else b
    def op_br(self, st, fr, ins):
        c = ins[2]
        c = c[1] if c[0] == 0 else fr.regs[c[1]]
        if type(c) is not int: c = self.decide(st, self.tobool(st, c))
        self.goto(fr, ins[3] if c else ins[4])
        return CTRL
    def op_jmp(self, st, fr, ins):
        self.goto(fr, ins[2])
        return CTRL
    def goto(self, fr, l):
        b = fr.f.blocks[l]
        if b.phis:
            prev = fr.block.name
            regs = fr.regs
            if len(b.phis) == 1:
                d, inc, _ = b.phis[0]
                o = inc[prev]
                regs[d] = o[1] if o[0] == 0 else regs[o[1]]
            else:
                vals = []
                for d, inc, _ in b.phis:
                    o = inc[prev]
                    vals.append(o[1] if o[0] == 0 else regs[o[1]])
                for (d, _, _), v in zip(b.phis, vals): regs[d] = v
        fr.block = b; fr.ip = 0
    def op_switch(self, st, fr, ins):
        _, _, t, v, d, cases = ins
        v = v[1] if v[0] == 0 else fr.regs[v[1]]
        if type(v) is not int:
            if isinstance(v, (BSym, ISym)) or v is UNDEF:
                # decide each case
                if v is UNDEF: raise PathEnd('ub', 'switch on undef')
                for k, l in cases.items():
                    e = self.tobool(st, self.icmp(st, 'eq', t[1], v, k))
                    if self.decide(st, e): self.goto(fr, l); return CTRL
                self.goto(fr, d); return CTRL
            v = self.concrete(st, v, t[1])
        self.goto(fr, cases.get(v, d))
        return CTRL
    def op_unreachable(self, st, fr, ins): raise PathEnd('ub', 'unreachable code in ' + fr.f.name)
    def op_resume(self, st, fr, ins): raise PathEnd('panic', 'unwinding')
    def op_landingpad(self, st, fr, ins): raise PathEnd('panic', 'unwinding')
    def op_fence(self, st, fr, ins): return None
    def op_asm(self, st, fr, ins): return UNDEF
    def op_ret(self, st, fr, ins):
        v = ins[3]
        if v is not None: v = v[1] if v[0] == 0 else fr.regs[v[1]]
        th = st.threads[st.cur]
        th.frames.pop()
        mem = st.mem
        for oid in fr.allocas:
            mem.pop(oid, None)
        if not th.frames:
            th.state = 'done'
            return CTRL
        c = th.frames[-1]
        ins = c.block.code[c.ip]
        if ins[1] is not None: c.regs[ins[1]] = v
        if ins[7] is not None: self.goto(c, ins[7])
        else: c.ip += 1
        return CTRL
    def op_load(self, st, fr, ins):
        a = ins[3]
        a = a[1] if a[0] == 0 else fr.regs[a[1]]
        if ins[4] and self.o['preempt']: self.preempt(st)
        return self.load(st, a, ins[2])
    def op_store(self, st, fr, ins):
        v = ins[3]; a = ins[4]
        v = v[1] if v[0] == 0 else fr.regs[v[1]]
        a = a[1] if a[0] == 0 else fr.regs[a[1]]
        if ins[5] and self.o['preempt']: self.preempt(st)
        self.store(st, a, ins[2], v)
    def op_alloca(self, st, fr, ins):
        n = self.iv(st, ins[3], fr.regs)
        a = self.alloc(st, size_align(ins[2])[0] * n, 'stack')
        fr.allocas.append(a >> 32)
        return a
    def op_getelementptr(self, st, fr, ins): raise EngineError
    def op_gep(self, st, fr, ins):
        _, d, t, base, idx = ins
        regs = fr.regs
        p = base[1] if base[0] == 0 else regs[base[1]]
        if p is UNDEF: return UNDEF
        if type(p) is not int: p = self.concrete(st, p, 64)
        it, i0 = idx[0]
        i = i0[1] if i0[0] == 0 else regs[i0[1]]
        if type(i) is not int:
            if i is UNDEF: return UNDEF
            i = self.concrete(st, i, it[1])
        w = it[1]
        if i >> (w - 1): i -= 1 << w
        off = i * size_align(t)[0]
        for it, j in idx[1:]:
            j = j[1] if j[0] == 0 else regs[j[1]]
            if type(j) is not int: j = self.concrete(st, j, it[1])
            if t[0] != 's' and j >> (it[1] - 1): j -= 1 << it[1]
            off += field_off(t, j); t = elem_type(t, j)
        return (p + off) & 0xffffffffffffffff
    def op_extractvalue(self, st, fr, ins):
        v = self.iv(st, ins[3], fr.regs)
        for i in ins[4]:
            if v is UNDEF: return v
            v = v[i]
        return v
    def op_insertvalue(self, st, fr, ins):
        _, d, t, a, b, idx = ins
        v = self.iv(st, a, fr.regs); x = self.iv(st, b, fr.regs)
        def ins_(t, v, idx):
            if not idx: return x
            n = t[1] if t[0] in ('a', 'v') else len(t[1])
            l = list(v) if v is not UNDEF else [UNDEF] * n
            l[idx[0]] = ins_(elem_type(t, idx[0]), l[idx[0]], idx[1:])
            return tuple(l)
        return ins_(t, v, idx)
    def op_extractelement(self, st, fr, ins):
        v = self.iv(st, ins[3], fr.regs); i = self.iv(st, ins[4], fr.regs)
        if v is UNDEF: return UNDEF
        return v[i]
    def op_insertelement(self, st, fr, ins):
        v = self.iv(st, ins[3], fr.regs); x = self.iv(st, ins[4], fr.regs); i = self.iv(st, ins[5], fr.regs)
        l = list(v) if v is not UNDEF else [UNDEF] * ins[2][1]
        l[i] = x
        return tuple(l)
    def op_shufflevector(self, st, fr, ins):
        a = self.iv(st, ins[3], fr.regs); b = self.iv(st, ins[4], fr.regs); m = self.iv(st, ins[5], fr.regs)
        n = ins[2][1]
        a = list(a) if a is not UNDEF else [UNDEF] * n
        b = list(b) if b is not UNDEF else [UNDEF] * n
        if m is UNDEF: return UNDEF
        return tuple(UNDEF if k is UNDEF else (a + b)[k] for k in m)
    # ---- casts
    def op_cast(self, st, fr, ins):
        op, d, ft, a, tt = ins
        v = a[1] if a[0] == 0 else fr.regs[a[1]]
        if v is UNDEF: return UNDEF
        if v.__class__ is LInv:
            if op in ('fpext', 'fptrunc') and self.o['mode'] == 'real': return LInv(lambda s, x: self.cast1(s, op, x, ft, tt), (v,))
            v = self.force(st, v)
        elif v.__class__ is tuple: v = tuple(self.force(st, x) if x.__class__ is LInv else x for x in v)
        if op == 'bitcast': return self.bitcast(st, v, ft, tt)
        if ft[0] == 'v': return tuple(UNDEF if x is UNDEF else self.cast1(st, op, x, ft[2], tt[2]) for x in v)
        return self.cast1(st, op, v, ft, tt)
    op_zext = op_sext = op_trunc = op_fptrunc = op_fpext = op_uitofp = op_sitofp = op_fptoui = op_fptosi = op_bitcast = op_inttoptr = op_ptrtoint = op_addrspacecast = op_ptrtoaddr = op_cast
    def cast1(self, st, op, v, ft, tt):
        if op in ('inttoptr', 'ptrtoint', 'ptrtoaddr', 'addrspacecast'): return v
        if op == 'zext':
            if type(v) is int: return v
            if isinstance(v, BSym): return BSym(v.b, tt[1])
            if isinstance(v, ISym):
                u = self.unsigned(st, v, ft[1])
                return ISym(u.p, u.lo, u.hi, tt[1]) if not isinstance(u, int) else u
            if isinstance(v, Cat): return Cat(list(v.parts) + [((tt[1] - ft[1]) // 8, 0)])
            if isinstance(v, FSign): return (((1 << ft[1]) - 1) if v.kind == 0 else (1 << (ft[1] - 1)) - 1) if self.isneg(st, v.r) else 0
            if isinstance(v, FBits): return Cat([(ft[1] // 8, v.r), ((tt[1] - ft[1]) // 8, 0)])
            if isinstance(v, Part): return Cat([(ft[1] // 8, v), ((tt[1] - ft[1]) // 8, 0)])
        elif op == 'sext':
            if type(v) is int: return sgn(v, ft[1]) & ((1 << tt[1]) - 1)
            if isinstance(v, BSym) and ft[1] == 1: return ((1 << tt[1]) - 1) if self.decide(st, v.b) else 0
            if isinstance(v, (ISym, BSym)):
                u = self.signed(st, v, ft[1])
                return ISym(u.p, u.lo, u.hi, tt[1])
        elif op == 'trunc':
            w = tt[1]
            if type(v) is int: return v & ((1 << w) - 1)
            if isinstance(v, BSym): return BSym(v.b, w)
            if isinstance(v, ISym):
                if w == 1: return self.mkb(lit(v.p, 5)) if v.lo >= 0 and v.hi <= 1 else self.concrete(st, v, ft[1]) & 1
                if v.lo >= -(1 << (w - 1)) and v.hi < (1 << w): return ISym(v.p, v.lo, v.hi, w)
                return self.ibin(st, 'and', ft[1], v, (1 << w) - 1) if False else self.retr(st, v, ft[1], w)
            if isinstance(v, Cat):
                n = w // 8
                if v.parts[0][0] == n:
                    x = v.parts[0][1]
                    return pack_bits(x, n) if isinstance(x, float) else FBits(x, w) if isinstance(x, Rat) else x
                acc = 0; out = []
                for p in v.parts:
                    out.append(p); acc += p[0]
                    if acc == n: return Cat(out)
                    if acc > n: break
            if isinstance(v, FBits) and w % 8 == 0: return part_of(v.r, ft[1] // 8, 0, w // 8)
            if isinstance(v, FSign): return (((1 << w) - 1) if self.isneg(st, v.r) else 0)
        elif op in ('uitofp', 'sitofp'):
            if type(v) is int:
                r = float(v if op == 'uitofp' else sgn(v, ft[1]))
                return r if tt[1] == 64 else f32round(r)
            if isinstance(v, (ISym, BSym)):
                u = self.unsigned(st, v, ft[1]) if op == 'uitofp' else self.signed(st, v, ft[1])
                if isinstance(u, int): return float(u)
                return self.norm(Rat(u.p))
        elif op in ('fptoui', 'fptosi'):
            return self.fptoi(st, v, tt[1], op == 'fptosi', False)
        elif op == 'fpext':
            if isinstance(v, FPV): return FPV(z3.fpFPToFP(z3.RNE(), v.z, self.fpsort(64)), 64)
            return v
        elif op == 'fptrunc':
            if isinstance(v, FPV): return FPV(z3.fpFPToFP(z3.RNE(), v.z, self.fpsort(32)), 32)
            return f32round(v) if isinstance(v, float) and not (math.isnan(v) or math.isinf(v)) else v
        raise Unsupported('cast %s of %r' % (op, v))
    def retr(self, st, v, w0, w):
        u = self.unsigned(st, v, w0)
        return self.cast1(st, 'trunc', self.ibin(st, 'urem', w0, u, 1 << w), ('i', w0), ('i', w)) if not isinstance(u, int) else u & ((1 << w) - 1)
    def fptoi(self, st, v, w, signed, sat):
        lo, hi = (-(1 << (w - 1)), (1 << (w - 1)) - 1) if signed else (0, (1 << w) - 1)
        if isinstance(v, FPV): raise Unsupported('fp to int')
        if isinstance(v, float):
            if math.isnan(v): return 0
            if math.isinf(v): return (hi if v > 0 else lo) & ((1 << w) - 1)
            k = int(v)
            if k < lo or k > hi:
                if not sat: raise PathEnd('ub', 'float out of integer range')
                k = min(max(k, lo), hi)
            return k & ((1 << w) - 1)
        b = self.bounds(v)
        if b[1] is None or b[1] >= hi + 1:
            if self.decide(st, self.cmp0(st, rsub(v, rconst(hi + 1)), 6)):
                if not sat: raise PathEnd('ub', 'float out of integer range')
                return hi & ((1 << w) - 1)
            bh = hi
        else: bh = math.floor(b[1])
        if not signed:
            if b[0] is None or b[0] < 0:
                if self.decide(st, self.cmp0(st, v, 1)): return 0       # (-1,0) truncates to 0; below saturates
            return self.fl_int(st, v, max(0, math.floor(b[0])) if b[0] is not None else 0, bh, w)
        if b[0] is None or b[0] < lo:
            if self.decide(st, self.cmp0(st, rsub(v, rconst(lo)), 3)): return lo & ((1 << w) - 1)
            bl = lo
        else: bl = math.floor(b[0])
        if b[0] is not None and b[0] >= 0: neg = False
        else: neg = self.decide(st, self.cmp0(st, v, 1))
        if not neg: return self.fl_int(st, v, max(bl, 0), bh, w)
        r = self.fl_int(st, rneg(v), max(0, -bh), -bl, w)
        return self.ibin(st, 'sub', w, 0, r)
    def fl_int(self, st, r, lo, hi, w):
        """floor of a nonnegative real as an integer value"""
        if hi - lo <= self.o.get('trunc_fork', 8):
            for k in range(lo, hi):
                if self.decide(st, self.cmp0(st, rsub(r, rconst(k + 1)), 1)): return k
            return hi
        return ISym(self.floor_poly(r, lo, hi), lo, hi, w)
    def bitcast(self, st, v, ft, tt):
        if ft == tt: return v
        fk, tk = ft[0], tt[0]
        if fk == 'f' and tk == 'i':
            return pack_bits(v, ft[1] // 8) if isinstance(v, float) else v if isinstance(v, Part) else FBits(v, ft[1])
        if fk == 'i' and tk == 'f':
            if type(v) is int: return unpack_bits(v, ft[1] // 8)
            if isinstance(v, FBits): return v.r
            if isinstance(v, Part): return v
            if isinstance(v, FKey): raise Unsupported('bitcast of key')
        if fk == 'v' and tk == 'i':
            e = ft[2]
            w = e[1] if e[0] in 'if' else 64
            r = 0
            if any(isinstance(x, SYMS) for x in v):
                if e == ('i', 1): v = tuple(x if type(x) is int else int(self.decide(st, self.tobool(st, x))) for x in v)
                else: return Cat([(w // 8, x) for x in v])
            for i, x in enumerate(v):
                if x is UNDEF: x = 0
                if isinstance(x, float): x = pack_bits(x, w // 8)
                r |= x << (w * i)
            return r
        if fk == 'i' and tk == 'v':
            e = tt[2]
            w = e[1]
            if isinstance(v, Cat): return tuple(self.as_type(p[1], e, w // 8) for p in v.parts)
            out = tuple((v >> (w * i)) & ((1 << w) - 1) for i in range(tt[1]))
            return tuple(unpack_bits(x, w // 8) for x in out) if e[0] == 'f' else out
        if fk == 'v' and tk == 'v':
            n = size_align(ft)[0] * 8
            return self.bitcast(st, self.bitcast(st, v, ft, ('i', n)), ('i', n), tt)
        return v
    # ---- atomics
    def op_atomicrmw(self, st, fr, ins):
        _, d, o, t, a, v = ins
        a = self.iv(st, a, fr.regs); v = self.iv(st, v, fr.regs)
        if self.o['preempt']: self.preempt(st)
        w = t[1] if t[0] == 'i' else 64
        old = self.load(st, a, t)
        if o == 'xchg': n = v
        elif o in ('add', 'sub', 'and', 'or', 'xor'): n = self.ibin(st, o, w, old, v)
        elif o == 'umax': n = max(old, v)
        elif o == 'umin': n = min(old, v)
        else: raise Unsupported('atomicrmw ' + o)
        self.store(st, a, t, n)
        return old
    def op_cmpxchg(self, st, fr, ins):
        _, d, t, a, c, n = ins
        a = self.iv(st, a, fr.regs); c = self.iv(st, c, fr.regs); n = self.iv(st, n, fr.regs)
        if self.o['preempt']: self.preempt(st)
        old = self.load(st, a, t)
        if old == c:
            self.store(st, a, t, n)
            return (old, 1)
        return (old, 0)
    # ---- calls
    def op_call(self, st, fr, ins):
        _, d, rt, cal, args, tys, nr, normal = ins
        regs = fr.regs
        if cal[0] == 2: name = cal[1]
        else:
            a = regs[cal[1]]
            if type(a) is not int: raise PathEnd('ub', 'call through %r' % (a,))
            name = self.m.names.get(a >> 32)
            if name is None: raise PathEnd('ub', 'call through bad pointer')
        name = self.m.aliases.get(name, name)
        h = self.intr_cache.get(name)
        if h is None:
            h = self.intr_cache[name] = self.lookup(name)
        if h is FUNC:
            f = self.m.func(name)
            if nr or f.noreturn: self.panic(st, fr, name, args, regs)
            nf = Frame(f)
            r2 = nf.regs
            for s, a in zip(f.params, args):
                r2[s] = a[1] if a[0] == 0 else regs[a[1]]
            self.executed.add(name)
            fs = st.threads[st.cur].frames
            if len(fs) > 400: raise PathEnd('stack', 'call depth 400 in ' + name)
            fs.append(nf)
            return CTRL
        if h is PANIC: self.panic(st, fr, name, args, regs)
        av = [a[1] if a[0] == 0 else regs[a[1]] for a in args]
        if getattr(h, '__func__', h) not in LAZY:
            for i, x in enumerate(av):
                if x.__class__ is LInv: av[i] = self.force(st, x)
                elif x.__class__ is tuple: av[i] = tuple(self.force(st, y) if y.__class__ is LInv else y for y in x)
        v = h(st, fr, name, av, tys, rt)
        if v is CTRL: return v
        if normal is not None:
            if d is not None: regs[d] = v
            self.goto(fr, normal)
            return CTRL
        return v
    def panic(self, st, fr, name, args, regs):
        loc = ''
        try:
            for a in reversed(args):
                v = a[1] if a[0] == 0 else regs[a[1]]
                if type(v) is int and v >> 32:
                    o = self.obj(st, v)
                    off = (v & 0xffffffff) - 0x10000
                    c = o.cells.get(off)
                    if o.size - off == 24 and c and c[0] == 8 and type(c[1]) is int:
                        n = o.cells[off + 8][1] if off + 8 in o.cells else self.load_slow(o, off + 8, 8)
                        ln = self.load_slow(o, off + 16, 4)
                        s = self.cstr(st, c[1], min(n, 200)).rstrip('\0')
                        if s.endswith('.rs'): loc = '%s:%d' % (s, ln); break
        except Exception: pass
        raise PathEnd('panic', '%s at %s in %s' % (name[-60:], loc, ' < '.join(f.f.name[-50:] for f in st.frames[-1:-4:-1])))
    def lookup(self, name):
        if name.startswith('llvm.'):
            for k in range(len(name), 4, -1):
                h = INTR.get(name[5:k])
                if h and (k == len(name) or name[k] == '.'): return getattr(self, h)
            raise Unsupported('intrinsic ' + name)
        if name in self.m.func_at:
            n = name
            for pat, fn in OVERRIDE:
                if pat in n: return getattr(self, fn)
            return FUNC
        h = self.ext.get(name)
        if h: return h
        if self.m.is_noreturn(name): return PANIC
        raise Unsupported('external function ' + name)

    # ---------------------------------------------------------------- intrinsics
    def i_nop(self, st, fr, name, a, tys, rt): return None
    def i_first(self, st, fr, name, a, tys, rt): return a[0]
    def i_zero(self, st, fr, name, a, tys, rt): return 0
    def i_assume(self, st, fr, name, a, tys, rt): return None
    def i_trap(self, st, fr, name, a, tys, rt): raise PathEnd('panic', 'abort')
    def i_memcpy(self, st, fr, name, a, tys, rt):
        n = a[2] if type(a[2]) is int else self.concrete(st, a[2], 64)
        if n: self.memcpy(st, a[0], a[1], n)
    def i_memset(self, st, fr, name, a, tys, rt):
        n = a[2] if type(a[2]) is int else self.concrete(st, a[2], 64)
        if not n: return
        v = a[1]
        o = self.obj(st, a[0], True); off = (a[0] & 0xffffffff) - 0x10000
        self.check_range(o, off, n)
        self.clear(o, off, n)
        if v is UNDEF: v = 0
        if type(v) is not int:
            for i in range(n): o.cells[off + i] = (1, v)
            return
        if off == 0 and n == o.size: o.blob = bytes([v]) * n; o.cells = {}; return
        if o.blob is not None: o.blob = o.blob[:off] + bytes([v]) * n + o.blob[off + n:]
        else:
            q = off
            w8 = v * 0x0101010101010101
            while q < off + n:
                if q % 8 == 0 and q + 8 <= off + n: o.cells[q] = (8, w8); o.maxsz = max(o.maxsz, 8); q += 8
                else: o.cells[q] = (1, v); q += 1
    def vec1(self, f, a):
        return tuple(f(*x) for x in zip(*a)) if isinstance(a[0], tuple) else f(*a)
    def i_fabs(self, st, fr, name, a, tys, rt): return self.vec1(lambda x: self.fabs(st, x), a)
    def i_sqrt(self, st, fr, name, a, tys, rt): return self.fsqrt(st, a[0], rt[1])
    def i_fmin(self, st, fr, name, a, tys, rt): return self.fminmax(st, False, a[0], a[1], rt[1])
    def i_fmax(self, st, fr, name, a, tys, rt): return self.fminmax(st, True, a[0], a[1], rt[1])
    def i_fma(self, st, fr, name, a, tys, rt): return self.fbin(st, 'fadd', self.fbin(st, 'fmul', a[0], a[1], rt[1]), a[2], rt[1])
    def i_copysign(self, st, fr, name, a, tys, rt):
        m = self.fabs(st, a[0])
        return self.fneg(m) if self.isneg(st, a[1]) else m
    def i_floor(self, st, fr, name, a, tys, rt):
        k = name.split('.')[1]
        v = a[0]
        if isinstance(v, float):
            if math.isnan(v) or math.isinf(v): return v
            if k == 'round': return math.copysign(math.floor(abs(v) + 0.5) if abs(v) < 2**52 else abs(v), v)
            if k == 'roundeven' or k == 'rint' or k == 'nearbyint': return float(round(v))
            return float({'floor': math.floor, 'ceil': math.ceil, 'trunc': math.trunc}[k](v))
        if isinstance(v, FPV): raise Unsupported('fp ' + k)
        if v is UNDEF: return v
        if k == 'floor': return self.rfloor(st, v)
        if k == 'ceil': return self.fneg(self.rfloor(st, rneg(v)))
        if k == 'trunc':
            if self.decide(st, self.cmp0(st, v, 1)): return self.fneg(self.rfloor(st, rneg(v)))
            return self.rfloor(st, v)
        if k == 'round':
            if self.decide(st, self.cmp0(st, v, 1)): return self.fneg(self.rfloor(st, radd(rneg(v), rconst(Fraction(1, 2)))))
            return self.rfloor(st, radd(v, rconst(Fraction(1, 2))))
        raise Unsupported(k)
    def rfloor(self, st, r):
        if is_rconst(r): return float(math.floor(Fraction(cval(r.n))))
        lo, hi = self.bounds(r)
        if lo is not None and hi is not None and hi - lo <= self.o.get('trunc_fork', 8):
            k, e = math.floor(lo), math.floor(hi)
            while k < e:
                if self.decide(st, self.cmp0(st, rsub(r, rconst(k + 1)), 1)): return float(k)
                k += 1
            return float(e)
        return self.norm(Rat(self.floor_poly(r, None if lo is None else math.floor(lo), None if hi is None else math.floor(hi))))
    def i_fun(self, st, fr, name, a, tys, rt):
        k = name.split('.')[1]
        k = {'log': 'ln'}.get(k, k)
        if k in ('log2', 'log10', 'exp2'): raise Unsupported(k)
        if k == 'pow': return self.fpow(st, a[0], a[1], rt[1])
        return self.ffun(st, k, a[0], rt[1])
    def i_powi(self, st, fr, name, a, tys, rt):
        n = sgn(a[1], 32)
        r = 1.0
        x = a[0]
        e = abs(n)
        while e:
            if e & 1: r = self.fbin(st, 'fmul', r, x, rt[1])
            e >>= 1
            if e: x = self.fbin(st, 'fmul', x, x, rt[1])
        return self.fbin(st, 'fdiv', 1.0, r, rt[1]) if n < 0 else r
    def fpow(self, st, x, y, bits):
        if isinstance(y, float) and not isinstance(x, float):
            if y == int(y) and abs(y) <= 16:
                return self.i_powi(st, None, None, [x, int(y) & 0xffffffff], None, ('f', bits))
            if y == 0.5: return self.fsqrt(st, x, bits)
        return self.ffun(st, 'pow', x, bits, y)
    def i_imm(self, st, fr, name, a, tys, rt):
        k = name.split('.')[1]
        if rt[0] == 'v':
            return tuple(self.iminmax(st, k, rt[2][1], x, y) for x, y in zip(a[0], a[1]))
        return self.iminmax(st, k, rt[1], a[0], a[1])
    def iminmax(self, st, k, w, x, y):
        p = {'umax': 'ugt', 'umin': 'ult', 'smax': 'sgt', 'smin': 'slt'}[k]
        c = self.icmp(st, p, w, x, y)
        if type(c) is int: return x if c else y
        if c is UNDEF: return UNDEF
        return x if self.decide(st, self.tobool(st, c)) else y
    def i_ovf(self, st, fr, name, a, tys, rt):
        op = name.split('.')[1]
        s, op = op[0], op[1:]
        w = tys[0][1]
        x, y = a
        if type(x) is int and type(y) is int:
            if s == 's': x, y = sgn(x, w), sgn(y, w)
            r = {'add': x + y, 'sub': x - y, 'mul': x * y}[op]
            lo, hi = (-(1 << (w - 1)), (1 << (w - 1)) - 1) if s == 's' else (0, (1 << w) - 1)
            return (r & ((1 << w) - 1), int(not lo <= r <= hi))
        if x is UNDEF or y is UNDEF: return (UNDEF, UNDEF)
        f = self.signed if s == 's' else self.unsigned
        X, Y = f(st, x, w), f(st, y, w)
        if isinstance(X, int): X = ISym(pconst(X), X, X, w)
        if isinstance(Y, int): Y = ISym(pconst(Y), Y, Y, w)
        if op == 'add': p, l, h = padd(X.p, Y.p), X.lo + Y.lo, X.hi + Y.hi
        elif op == 'sub': p, l, h = padd(X.p, pscale(Y.p, -1)), X.lo - Y.hi, X.hi - Y.lo
        else:
            c = [X.lo * Y.lo, X.lo * Y.hi, X.hi * Y.lo, X.hi * Y.hi]
            p, l, h = pmul(X.p, Y.p), min(c), max(c)
        lo, hi = (-(1 << (w - 1)), (1 << (w - 1)) - 1) if s == 's' else (0, (1 << w) - 1)
        ov = bor([lit(padd(p, pconst(-lo)), 1) if l < lo else False, lit(padd(p, pconst(-hi)), 4) if h > hi else False])
        if ov is not False and self.decide(st, ov): return (UNDEF, 1)
        if is_const(p): return (int(cval(p)) & ((1 << w) - 1), 0)
        return (ISym(p, max(l, lo), min(h, hi), w), 0)
    def i_sat(self, st, fr, name, a, tys, rt):
        op = name.split('.')[1]
        def one(w, x, y):
            if type(x) is not int: x = self.concrete(st, x, w)
            if type(y) is not int: y = self.concrete(st, y, w)
            if op[0] == 's': x, y = sgn(x, w), sgn(y, w); lo, hi = -(1 << (w - 1)), (1 << (w - 1)) - 1
            else: lo, hi = 0, (1 << w) - 1
            r = x + y if op[1:4] == 'add' else x - y
            return min(max(r, lo), hi) & ((1 << w) - 1)
        if rt[0] == 'v': return tuple(one(rt[2][1], x, y) for x, y in zip(a[0], a[1]))
        return one(rt[1], a[0], a[1])
    def i_fpsat(self, st, fr, name, a, tys, rt): return self.fptoi(st, a[0], rt[1], 'fptosi' in name, True)
    def i_fsh(self, st, fr, name, a, tys, rt):
        w = rt[1]
        x, y, s = [v if type(v) is int else self.concrete(st, v, w) for v in a]
        s %= w
        v = (x << w) | y
        return ((v << s) >> w if 'fshl' in name else v >> s) & ((1 << w) - 1)
    def i_bits(self, st, fr, name, a, tys, rt):
        k = name.split('.')[1]
        w = rt[1]
        v = a[0]
        if v is UNDEF: return UNDEF
        if k == 'bswap' and isinstance(v, Cat): return Cat(list(reversed(v.parts)))
        if type(v) is not int: v = self.concrete(st, v, w)
        if k == 'ctpop': return bin(v).count('1')
        if k == 'ctlz': return w - v.bit_length()
        if k == 'cttz': return w if v == 0 else (v & -v).bit_length() - 1
        if k == 'bswap': return int.from_bytes(v.to_bytes(w // 8, 'little'), 'big')
        if k == 'bitreverse': return int(bin(v)[2:].zfill(w)[::-1], 2)
        if k == 'abs': return abs(sgn(v, w)) & ((1 << w) - 1)
        raise Unsupported(k)
    def i_cmp3(self, st, fr, name, a, tys, rt):
        s = 's' if name.split('.')[1] == 'scmp' else 'u'
        w = tys[0][1]
        for p, r in (('lt', -1), ('gt', 1)):
            c = self.icmp(st, s + p, w, a[0], a[1])
            if c is UNDEF: return UNDEF
            if self.decide(st, self.tobool(st, c)): return r & ((1 << rt[1]) - 1)
        return 0
    def i_tls(self, st, fr, name, a, tys, rt):
        g = a[0]
        th = st.threads[st.cur]
        nm = self.m.names[g >> 32]
        if st.cur == 0: return g
        x = th.tls.get(nm)
        if x is None:
            t, v = self.m.global_init(nm)
            x = self.alloc(st, size_align(t)[0], 'tls')
            self.fill(st.mem[x >> 32], 0, t, v)
            th.tls[nm] = x
        return x
    def i_loadrel(self, st, fr, name, a, tys, rt):
        v = self.load(st, (a[0] + a[1]) & ((1 << 64) - 1), ('i', 32))
        return (a[0] + sgn(v, 32)) & ((1 << 64) - 1)
    def i_objsize(self, st, fr, name, a, tys, rt): return (1 << rt[1]) - 1

    # ---------------------------------------------------------------- C library
    def ext_malloc(self, st, fr, name, a, tys, rt):
        n = self.concrete(st, a[0], 64)
        return self.alloc(st, n, 'heap')
    def ext_calloc(self, st, fr, name, a, tys, rt):
        n = self.concrete(st, a[0], 64) * self.concrete(st, a[1], 64)
        return self.alloc(st, n, 'heap', True)
    def ext_realloc(self, st, fr, name, a, tys, rt):
        n = self.concrete(st, a[1], 64)
        if a[0] == 0: return self.alloc(st, n, 'heap')
        o = self.obj(st, a[0])
        p = self.alloc(st, n, 'heap')
        self.memcpy(st, p, a[0], min(n, o.size))
        self.ext_free(st, fr, name, a, tys, rt)
        return p
    def ext_posix_memalign(self, st, fr, name, a, tys, rt):
        p = self.alloc(st, self.concrete(st, a[2], 64), 'heap')
        self.store(st, a[0], ('p',), p)
        return 0
    def ext_free(self, st, fr, name, a, tys, rt):
        if a[0] == 0: return
        o = self.obj(st, a[0])
        if (a[0] & 0xffffffff) != 0x10000 or o.kind not in ('heap',): raise PathEnd('ub', 'bad free')
        st.mem.pop(a[0] >> 32)
        d = Obj(0, 'freed'); d.alive = False
        st.mem[a[0] >> 32] = d
    def ext_bcmp(self, st, fr, name, a, tys, rt):
        n = self.concrete(st, a[2], 64)
        if n == 0: return 0
        x, y = self.obj(st, a[0]), self.obj(st, a[1])
        ox, oy = (a[0] & 0xffffffff) - 0x10000, (a[1] & 0xffffffff) - 0x10000
        self.check_range(x, ox, n); self.check_range(y, oy, n)
        for i in range(n):
            p, q = self.byte(x, ox + i), self.byte(y, oy + i)
            if p is UNDEF or q is UNDEF: raise PathEnd('ub', 'memcmp of undefined bytes')
            if p != q: return (1 if p > q else -1) & 0xffffffff
        return 0
    ext_memcmp = ext_bcmp
    def ext_strlen(self, st, fr, name, a, tys, rt): return len(self.cstr(st, a[0]).encode())
    def ext_memcpy(self, st, fr, name, a, tys, rt): self.i_memcpy(st, fr, name, a, tys, rt); return a[0]
    ext_memmove = ext_memcpy
    def ext_memset(self, st, fr, name, a, tys, rt): self.i_memset(st, fr, name, a, tys, rt); return a[0]
    def ext_sin(self, st, fr, name, a, tys, rt): return self.ffun(st, name.rstrip('f') if name.endswith('f') else name, a[0], rt[1])
    ext_cos = ext_tan = ext_acos = ext_asin = ext_atan = ext_exp = ext_sin
    def ext_log(self, st, fr, name, a, tys, rt): return self.ffun(st, 'ln', a[0], rt[1])
    def ext_atan2(self, st, fr, name, a, tys, rt): return self.ffun(st, 'atan2', a[0], rt[1], a[1])
    def ext_pow(self, st, fr, name, a, tys, rt): return self.fpow(st, a[0], a[1], rt[1])
    def ext_fmod(self, st, fr, name, a, tys, rt): return self.fbin(st, 'frem', a[0], a[1], rt[1])
    def ext_hypot(self, st, fr, name, a, tys, rt):
        x = self.fbin(st, 'fadd', self.fbin(st, 'fmul', a[0], a[0], 64), self.fbin(st, 'fmul', a[1], a[1], 64), 64)
        return self.fsqrt(st, x, 64)
    def ext_fmax(self, st, fr, name, a, tys, rt): return self.fminmax(st, True, a[0], a[1], rt[1])
    def ext_fmin(self, st, fr, name, a, tys, rt): return self.fminmax(st, False, a[0], a[1], rt[1])
    def ext_floor(self, st, fr, name, a, tys, rt): return self.i_floor(st, fr, 'llvm.' + name, a, tys, rt)
    ext_ceil = ext_trunc = ext_round = ext_floor
    def ext_clock_gettime(self, st, fr, name, a, tys, rt):
        self.store(st, a[1], ('i', 64), st.clock[0]); self.store(st, a[1] + 8, ('i', 64), st.clock[1])
        return 0
    def ext___errno_location(self, st, fr, name, a, tys, rt):
        th = st.threads[st.cur]
        if '#errno' not in th.tls:
            th.tls['#errno'] = self.alloc(st, 4, 'tls'); self.store(st, th.tls['#errno'], ('i', 32), 11)
        return th.tls['#errno']
    def ext_gettid(self, st, fr, name, a, tys, rt): return 100 + st.cur
    def ext_pthread_self(self, st, fr, name, a, tys, rt): return 100 + st.cur
    def ext___cxa_thread_atexit_impl(self, st, fr, name, a, tys, rt): return 0
    def ext_write(self, st, fr, name, a, tys, rt): return a[2]
    def ext_getenv(self, st, fr, name, a, tys, rt): return 0
    def ext_sched_yield(self, st, fr, name, a, tys, rt): return self.ext_vf_yield(st, fr, name, a, tys, rt)
    def ext_abort(self, st, fr, name, a, tys, rt): raise PathEnd('panic', 'abort')
    def ext_syscall(self, st, fr, name, a, tys, rt):
        n = a[0]
        if n == 202:
            addr, op, val = a[1], a[2] & 0x7f, a[3]
            if op in (0, 9):
                cur = self.load(st, addr, ('i', 32))
                if cur != val & 0xffffffff: return (1 << 64) - 1
                th = st.threads[st.cur]
                th.state = 'wait'; th.waitaddr = addr
                return 0
            if op in (1, 10):
                k = 0
                for th in st.threads:
                    if th.state == 'wait' and th.waitaddr == addr and k < (val & 0xffffffff):
                        th.state = 'run'; th.waitaddr = None; k += 1
                return k
        if n == 318:
            self.i_memset(st, fr, '', [a[1], 0, a[2]], None, None)
            return a[2]
        if n in (186, 39): return 100 + st.cur
        raise Unsupported('system call %d' % n)
    def over_random_keys(self, st, fr, name, a, tys, rt): return (0x1234, 0x5678)

    # ---------------------------------------------------------------- verification intrinsics
    def ext_vf_f64(self, st, fr, name, a, tys, rt):
        if self.o['mode'] == 'fp':
            k = sum(1 for x in st.inputs if x[0] == 'd')
            z = z3.FP('d%d' % k, self.fpsort(64))
            v = FPV(z, 64)
            st.inputs.append(('d', v))
            lo, hi = a
            st.pc.append(('z', z3.And(z >= self.fpz(lo, 64), z <= self.fpz(hi, 64)))) if not (math.isinf(lo) and math.isinf(hi)) else None
            return v
        return self.new_var(st, 'd', a[0], a[1])
    def ext_vf_t64(self, st, fr, name, a, tys, rt):
        """an input that stays explicit when the others are generalised"""
        v = self.ext_vf_f64(st, fr, name, a, tys, rt)
        if isinstance(v, Rat): ATOMS[next(iter(v.n))[0][0]].outer = True
        return v
    def ext_vf_f32(self, st, fr, name, a, tys, rt): return self.new_var(st, 'f', a[0], a[1])
    def ext_vf_int(self, st, fr, name, a, tys, rt):
        lo, hi = sgn(a[0], 64), sgn(a[1], 64)
        if lo == hi: st.inputs.append(('i', ('c', lo))); return lo & ((1 << 64) - 1)
        k = sum(1 for x in st.inputs if x[0] == 'i')
        at = new_atom('ivar', 'i%d' % k, lo=Fraction(lo), hi=Fraction(hi), key=('ivar', k, lo, hi), isint=True)
        st.inputs.append(('i', at.id))
        self.sample(st, at, float(lo), float(hi))
        st.S[at.id] = np.round(st.S[at.id])
        return ISym(patom(at), lo, hi, 64)
    def ext_vf_choice(self, st, fr, name, a, tys, rt):
        n = self.concrete(st, a[0], 64)
        if n == 0: raise PathEnd('infeasible')
        if n == 1: st.inputs.append(('c', 0)); return 0
        return self.choose(st, n, 'c')
    def ext_vf_bool(self, st, fr, name, a, tys, rt): return self.choose(st, 2, 'b')
    def ext_vf_rand(self, st, fr, name, a, tys, rt):
        if len(st.rands) >= self.o['max_rand']:
            raise PathEnd('trunc', 'more than %d random draws' % self.o['max_rand'])
        v = self.new_var(st, 'r', 0.0, 1.0)
        # strictly below one
        b = self.cmp0(st, rsub(v, rconst(1)), 1)
        self.assume(st, b)
        st.rands.append(v)
        return v
    def ext_vf_rand_choice(self, st, fr, name, a, tys, rt):
        n = self.concrete(st, a[0], 64)
        if len(st.rands) >= self.o['max_rand']: raise PathEnd('trunc', 'random draws')
        if n > 512: raise Unsupported('random integer with %d values' % n)
        k = self.choose(st, n, 'R') if n > 1 else 0
        if n <= 1: st.inputs.append(('R', 0))
        st.rands.append(float(k))
        return k
    def ext_vf_rand_count(self, st, fr, name, a, tys, rt): return len(st.rands)
    def ext_vf_rand_at(self, st, fr, name, a, tys, rt):
        if a[0] >= len(st.rands): raise PathEnd('harness', 'rand_at out of range')
        return st.rands[a[0]]
    def ext_vf_sched(self, st, fr, name, a, tys, rt):
        n = self.concrete(st, a[0], 64)
        if n <= 1: st.inputs.append(('s', 0)); return 0
        return self.choose(st, n, 's')
    def ext_vf_note(self, st, fr, name, a, tys, rt):
        st.notes.append(a[0])
        if os.environ.get('VF_NOTES'): print('NOTE', a[0] if isinstance(a[0], float) else rstr(a[0]) if isinstance(a[0], Rat) else a[0])
    def o_from_secs(self, st, fr, name, a, tys, rt):
        """core::time::Duration::from_secs_f64 (not part of the code under test): nearest nanosecond"""
        v = a[0]
        if isinstance(v, (float, int)):
            v = float(v)
            if not 0 <= v < 2.0 ** 63: raise PathEnd('panic', 'Duration::from_secs of %r' % v)
            n = round(Fraction(v) * 10**9)
            return (n // 10**9, n % 10**9)
        if isinstance(v, FPV): raise Unsupported('duration')
        if self.decide(st, self.cmp0(st, v, 1)): raise PathEnd('panic', 'Duration::from_secs of a negative number')
        b = self.bounds(v)
        hi = None if b[1] is None else math.floor(b[1] * 10**9 + 1)
        n = self.floor_poly(radd(rscale(v, 10**9), rconst(Fraction(1, 2))), 0, hi)
        if is_const(n): return (int(cval(n)) // 10**9, int(cval(n)) % 10**9)
        if hi is None: raise Unsupported('duration without bound')
        s = self.floor_poly(Rat(pscale(n, Fraction(1, 10**9))), 0, hi // 10**9)
        if is_const(s): return (int(cval(s)), ISym(padd(n, pscale(s, -10**9)), 0, 10**9 - 1, 32))
        return (ISym(s, 0, hi // 10**9, 64), ISym(padd(n, pscale(s, -10**9)), 0, 10**9 - 1, 32))
    def ext_vf_clock(self, st, fr, name, a, tys, rt):
        st.clock = (a[0], a[1])
    def ext_vf_reach(self, st, fr, name, a, tys, rt): self.reached[a[0]] = self.reached.get(a[0], 0) + 1
    def ext_vf_assume(self, st, fr, name, a, tys, rt):
        b = self.simplify(st, self.tobool(st, a[0]))
        if b is True: return
        if b is False: raise PathEnd('infeasible')
        self.assume(st, b)
        if st.n == 0:
            r, vals = self.query(st, True, self.o['feas_ms'], full=True)
            if r == 'unsat': raise PathEnd('infeasible')
            if r == 'sat': self.seed(st, vals)
    def ext_vf_thread(self, st, fr, name, a, tys, rt):
        t = Thread()
        f = self.m.func(self.m.names[a[0] >> 32])
        nf = Frame(f)
        nf.regs[f.params[0]] = a[1]
        t.frames.append(nf)
        st.threads.append(t)
    def ext_vf_join(self, st, fr, name, a, tys, rt):
        me = st.threads[st.cur]
        if all(t.state == 'done' for t in st.threads if t is not me and not t.tls.get('#env')):
            if st.cur == 0: st.threads = [t for t in st.threads if t is me]
            return None
        me.state = 'join'
        return CTRL
    def ext_vf_yield(self, st, fr, name, a, tys, rt):
        return 0
    def preempt(self, st):
        key = (st.cur, st.steps)
        if st.preempts >= self.o['preempt'] or st.alt == key: return
        others = [i for i, t in enumerate(st.threads) if i != st.cur and t.state == 'run']
        if not others: return
        k = self.choose(st, 1 + len(others), 'p')
        st.alt = key
        if k:
            st.preempts += 1; st.cur = others[k - 1]
            raise Switch()
    def schedule(self, st):
        """pick a thread to run"""
        for t in st.threads:
            if t.state == 'join' and all(x.state == 'done' for x in st.threads if x is not t): t.state = 'run'
        run = [i for i, t in enumerate(st.threads) if t.state == 'run']
        if not run:
            raise PathEnd('deadlock', 'no thread can run')
        k = 0
        if len(run) > 1: k = self.choose(st, len(run), 's')
        elif len(st.threads) > 1 and run[0] != 0: st.inputs.append(('s', 0))
        st.cur = run[k]

    # ---------------------------------------------------------------- checks
    def ext_vf_check(self, st, fr, name, a, tys, rt):
        self.do_check(st, self.tobool(st, a[0]), a[1])
    def ext_vf_near(self, st, fr, name, a, tys, rt):
        x, y, tol, cid = a
        if isinstance(x, FPV) or isinstance(y, FPV): raise Unsupported('near in fp mode')
        if x is UNDEF or y is UNDEF: raise PathEnd('ub', 'undef result')
        sp = lambda v: isinstance(v, float) and (math.isnan(v) or math.isinf(v))
        if sp(x) or sp(y):
            ok = sp(x) and sp(y) and x == y
        elif isinstance(x, float) and isinstance(y, float): ok = x == y or abs(x - y) <= (tol if isinstance(tol, float) else 0)
        else:
            d = rsub(self.rat(x), self.rat(y))
            if not d.n: ok = True
            else:
                t = self.rat(tol)
                ok = band([self.cmp0(st, rsub(d, t), 3), self.cmp0(st, radd(d, t), 6)])
        self.do_check(st, ok, a[3])
    def do_check(self, st, b, cid, final=False):
        b = self.simplify(st, b)
        c = self.checked.setdefault(cid, [0, 0])
        if not final: self.st.checks += 1; c[0] += 1
        if st.n: c[1] += 1
        if b is True:
            self.st.trivial += 1
            if not c[1]:
                r, vals = self.query(st, True, self.o['feas_ms'], full=True)
                if r == 'sat': c[1] += 1
            return
        nb = bnot(b)
        if not self.has_z(nb):
            self.refill(st)
            if self.o.get('dbg'): print('N', cid, st.n, bstr(nb)[:200], [bstr(x)[:100] for x in st.pc])
            for v in self.sample_cands(st, nb):
                v = self.at_point(st, nb, v)
                if self.o.get('dbg'): print('CAND', cid, st.n, v is not None)
                if v is not None and self.report(st, 'check %d' % cid, cid, nb, v): return
        if not final and not self.has_z(nb):
            st2, nb2 = self.resolve_ites(st, nb)
            if nb2 is False:
                self.st.unsat += 1
                self.learn(st, b)
                return
            r, vals = self.query(st2, nb2, self.o['check_ms'], want_model='full', full=nb2 is True)
            if r == 'unknown': st, nb, b = st2, nb2, bnot(nb2)
        else: r, vals = self.query(st, nb, self.o['check_ms'], want_model='full')
        if r == 'unknown' and not final:
            self.deferred.append((st.clone(), b, cid))
            return
        if r == 'unknown':
            # try the whole path condition, other solvers
            r, vals = self.query(st, nb, self.o['check_ms'], portfolio=self.o['portfolio_s'], full=nb is True)
            if r == 'unknown' and nb is not True: r, vals = self.query(st, nb, self.o['check_ms'], full=True, portfolio=self.o['portfolio_s'])
        if r == 'unsat':
            self.st.unsat += 1
            if not c[1]:
                r2, v2 = self.query(st, True, self.o['feas_ms'], full=True)
                if r2 == 'sat': c[1] += 1
            self.learn(st, b)
            return
        if r == 'sat' and self.report(st, 'check %d' % cid, cid, nb, vals): return
        if r == 'sat':
            if self.robust(st, nb, cid, 'check %d' % cid): return
            self.unknowns.append(('unreproduced', cid, self.script(st, vals)))
        else:
            self.st.unknown += 1
            self.unknowns.append(('unknown', cid, fr_names(st)))
            if self.o.get('dumpunk'): self.dump_unknown(st, nb, cid)
    def resolve_ites(self, st, nb):
        """replaces conditional values whose condition the path condition decides"""
        seen = set()
        st2 = None
        while True:
            at = set()
            bool_atoms(nb, at)
            for p in (st2 or st).pc: bool_atoms(p, at)
            todo = [a for a in at if ATOMS[a].kind == 'ite' and a not in seen]
            if not todo: break
            a = max(todo); seen.add(a)
            A = ATOMS[a]
            c = self.simplify(st2 or st, A.args[0])
            if c is not True and c is not False:
                if self.has_z(c): continue
                if self.query(st2 or st, c, 300)[0] == 'unsat': c = False
                elif self.query(st2 or st, bnot(c), 300)[0] == 'unsat': c = True
                else: continue
            v = A.args[1] if c else A.args[2]
            try:
                new = subst(nb, a, v)
                if st2 is None: st2 = st.clone()
                know = A.args[0] if c else bnot(A.args[0])
                st2.pc = [x for x in (subst(p, a, v) for p in st2.pc) if x is not True] + ([know] if know is not True else [])
                nb = self.simplify(st2, new)
            except TooBig: continue
            if nb is False or nb is True: break
        return st2 or st, nb
    def dump_unknown(self, st, nb, cid):
        asr, atoms = self.assertions(self.relevant(st.pc, nb), nb)
        s = z3.Solver(); s.add(*asr)
        open('/tmp/unk_%s_%d.smt2' % (cid, len(self.unknowns)), 'w').write(s.to_smt2())
        print('UNK', cid, 'pc', len(st.pc), file=sys.stderr)
        for b in self.relevant(st.pc, nb): print('   ', bstr(b)[:400], file=sys.stderr)
        print('  not', bstr(nb)[:600], file=sys.stderr)
    def refill(self, st, want=48):
        """more sample points on this path: random ones and neighbours of the present ones"""
        vs = self.svars(st)
        if st.n >= want or not vs or any(self.has_z(b) for b in st.pc): return
        rs = np.random.RandomState(len(st.pc) * 31 + st.steps % 1000)
        S = st.S; n = st.n
        for rnd in range(6):
            N = 1500
            c = {}
            sc = 10.0 ** rs.uniform(-4, 0, N)
            idx = rs.randint(n, size=N) if n else None
            for a in vs:
                A = ATOMS[a]
                lo = float(A.lo) if A.lo is not None else -100.0; hi = float(A.hi) if A.hi is not None else 100.0
                if n and rnd:
                    b = S[a][idx]
                    v = np.where(rs.rand(N) < 0.5, b, b + sc * rs.randn(N) * (hi - lo) * 0.3)
                    v = np.clip(v, lo, hi)
                else: v = rs.uniform(lo, hi, N)
                c[a] = np.round(v) if A.isint else v
            m = np.ones(N, bool)
            memo = {'n': N}
            for b in st.pc:
                m = m & eval_bool(b, c, memo)
                if not m.any(): break
            if m.any():
                k = np.nonzero(m)[0][:want]
                S = {a: np.concatenate([S[a], c[a][k]]) if n else c[a][k] for a in vs}
                n = len(S[vs[0]])
                if n >= want: break
            elif not n and rnd > 1: break
        if n > st.n:
            st.S = S; st.n = n
    def at_point(self, st, nb, vals):
        """the solver's answer at one point; the exact values when it is a counterexample"""
        vs = {a: Fraction(v).limit_denominator(1 << 24) if abs(v) < 1e6 else Fraction(v) for a, v in vals.items()}
        try: asr, atoms = self.assertions(st.pc, nb)
        except TooBig: return None
        s = z3.Solver(); s.set('timeout', 2000); s.add(*asr)
        for a, v in vs.items():
            A = ATOMS[a]
            if A.lo is not None and v < A.lo: v = vs[a] = A.lo
            if A.hi is not None and v > A.hi: v = vs[a] = A.hi
            s.add(zatom(a) == zfrac(cnorm(v)))
        t = time.time(); self.st.queries += 1
        r = s.check()
        self.st.time += time.time() - t
        return vs if r == z3.sat else None
    def sample_cands(self, st, nb):
        if not st.n or self.has_z(nb): return []
        m = eval_bool(nb, st.S, self.memo(st))
        return [{a: float(v[i]) for a, v in st.S.items()} for i in np.nonzero(m)[0][:4]]
    def robust(self, st, nb, cid, what):
        """a counterexample that stays one under rounding: strict inequalities get a margin"""
        for eps in (Fraction(1, 100), Fraction(1, 10**4), Fraction(1, 10**6)):
            def strengthen(b):
                if b is True or b is False: return b
                if b[0] == 's':
                    _, p, k, mk = b
                    if mk in (1, 3): return lit(padd(p, pconst(eps)), 3)
                    if mk in (4, 6): return lit(padd(p, pconst(-eps)), 6)
                    if mk == 5: return bor([lit(padd(p, pconst(eps)), 3), lit(padd(p, pconst(-eps)), 6)])
                    return b
                if b[0] == 'and': return band([strengthen(x) for x in b[1]])
                if b[0] == 'or': return bor([strengthen(x) for x in b[1]])
                return b
            s2 = st.clone()
            s2.pc = [strengthen(b) for b in st.pc]
            if any(b is False for b in s2.pc): continue
            s2.pc = [b for b in s2.pc if b is not True]
            r, vals = self.query(s2, strengthen(nb), self.o['check_ms'], full=True)
            if r == 'sat' and self.report(st, what, cid, nb, vals): return True
        return False
    def script(self, st, vals):
        """the input script of a model"""
        out = []
        for k, v in st.inputs:
            if k == 'p': continue
            if k in 'dfr':
                if isinstance(v, FPV): x = vals.get(('fp', v.z.decl().name()), 0.0)
                else:
                    A = ATOMS[v]
                    x = vals.get(v)
                    if x is None:
                        x = 0.0
                        if st.n and v in st.S: x = float(st.S[v][0])
                        if A.lo is not None and x < A.lo: x = A.lo
                        if A.hi is not None and x > A.hi: x = A.hi
                x = float(x)
                if k == 'f': x = float(np.float32(x))
                out.append('%s %s' % (k, 'nan' if math.isnan(x) else repr(x)))
            elif k == 'i':
                x = v[1] if isinstance(v, tuple) else int(round(float(vals.get(v, float(st.S[v][0]) if st.n and v in st.S else ATOMS[v].lo))))
                out.append('i %d' % x)
            else: out.append('%s %d' % (k, v))
        return '\n'.join(out) + '\n'
    def report(self, st, what, cid, nb, vals):
        """replay a counterexample on the real code; True when it fails there"""
        sc = self.script(st, vals)
        rp = self.o.get('replay')
        ok = True
        msg = ''
        if rp is not None:
            ok, msg = rp(self.entry, self.shard, sc, len(st.threads) > 1 or st.preempts > 0)
        if ok:
            self.violations.append(dict(what=what, id=cid, script=sc, entry=self.entry, shard=self.shard, msg=msg))
            self.vcount += 1
            if self.vcount >= self.o.get('max_viol', 1): raise Stop()
            return True
        return False
    def bad_path(self, st, status, msg):
        """a panic, undefined behaviour or deadlock: is the path real?"""
        r, vals = self.query(st, True, self.o['check_ms'], full=True)
        if r == 'unknown': r, vals = self.query(st, True, self.o['check_ms'], full=True, portfolio=self.o['portfolio_s'])
        if r == 'unsat': self.st.infeasible += 1; return
        cands = ([vals] if r == 'sat' else []) + self.sample_cands(st, True)
        for v in cands:
            if self.report(st, status + ': ' + msg, 0, True, v): return
        if r == 'sat' and self.robust(st, True, 0, status + ': ' + msg): return
        self.unknowns.append((status, msg, self.script(st, cands[0]) if cands else None))

    # ---------------------------------------------------------------- main loop
    def start(self, entry, shard):
        self.entry = entry; self.shard = shard
        st = State()
        f = self.m.func(entry)
        fr = Frame(f)
        fr.regs[f.params[0]] = shard
        st.threads[0].frames.append(fr)
        return st
    def run(self, entry, shard):
        self.work = [self.start(entry, shard)]; self.work0 = []; self.deferred = []
        complete = True
        try:
            while self.work or self.work0:
                if self.st.paths >= self.o['path_limit'] or time.time() - self.t0 > self.o['time_limit']:
                    complete = False; break
                st = (self.work or self.work0).pop()
                self.run_path(st)
            # the hard obligations, unless something failed already
            for st, b, cid in self.deferred:
                if time.time() - self.t0 > self.o['time_limit']: complete = False; break
                self.do_check(st, b, cid, True)
        except Stop:
            complete = False
        return complete
    def run_path(self, st):
        self.st.paths += 1
        try:
            self.exec(st)
        except PathEnd as e:
            s = e.status
            if s == 'infeasible': self.st.infeasible += 1
            elif s == 'trunc': self.st.trunc += 1
            elif s == 'done': pass
            else:
                if self.trace_panic: print('PATH', s, e.msg, file=sys.stderr)
                self.bad_path(st, s, e.msg)
        except TooBig:
            self.errors.append('expression too large in %s' % fr_names(st))
        except Unsupported as e:
            if os.environ.get('VF_DEBUG'): raise
            self.errors.append('unsupported: %s in %s' % (e, fr_names(st)))
        self.st.steps += st.steps
    def exec(self, st):
        op = self.op
        limit = self.o['step_limit']
        while True:
            th = st.threads[st.cur]
            if th.state != 'run':
                if st.cur == 0 and th.state == 'done':
                    raise PathEnd('done')
                self.schedule(st)
                continue
            fr = th.frames[-1]
            ins = fr.block.code[fr.ip]
            try: v = op[ins[0]](st, fr, ins)
            except Switch: continue
            st.steps += 1
            if v is CTRL:
                if st.steps > limit: raise PathEnd('steps', 'step limit')
                continue
            d = ins[1]
            if d is not None: fr.regs[d] = v
            fr.ip += 1

class Stop(Exception): pass
class _S:
    def __init__(self, n): self.n = n
    def __repr__(self): return self.n
CTRL = _S('ctrl'); FUNC = _S('func'); PANIC = _S('panic')
def fr_names(st): return ' < '.join(f.f.name[-60:] for f in st.frames[-1:-4:-1])
def same(a, b):
    if a is b: return True
    if type(a) is int and type(b) is int: return a == b
    if isinstance(a, float) and isinstance(b, float): return a == b and math.copysign(1, a) == math.copysign(1, b)
    if isinstance(a, Rat) and isinstance(b, Rat): return a.k() == b.k()
    return False
def bstr(b):
    if b is True or b is False: return str(b)
    if b[0] == 's': return '%s %s 0' % (pstr(b[1], 30), {1: '<', 2: '=', 3: '<=', 4: '>', 5: '!=', 6: '>='}[b[3]])
    if b[0] == 'z': return str(b[1])[:200]
    return '(' + (' & ' if b[0] == 'and' else ' | ').join(bstr(x) for x in b[1]) + ')'
def const_or_none(x):
    r = const_rat(x)
    if r.d or not is_const(r.n): return Fraction(x)
    return Fraction(cval(r.n))
INTR = {}
for _n in 'lifetime experimental.noalias.scope.decl prefetch x86.sse2.pause donothing va_start va_end invariant.end'.split(): INTR[_n] = 'i_nop'
for _n in 'expect ssa.copy launder.invariant.group strip.invariant.group expect.with.probability'.split(): INTR[_n] = 'i_first'
INTR.update({'assume': 'i_assume', 'trap': 'i_trap', 'is.constant': 'i_zero', 'memcpy': 'i_memcpy', 'memmove': 'i_memcpy', 'memset': 'i_memset', 'fabs': 'i_fabs', 'sqrt': 'i_sqrt',
  'minnum': 'i_fmin', 'maxnum': 'i_fmax', 'minimumnum': 'i_fmin', 'maximumnum': 'i_fmax', 'minimum': 'i_fmin', 'maximum': 'i_fmax', 'fma': 'i_fma', 'fmuladd': 'i_fma', 'copysign': 'i_copysign',
  'floor': 'i_floor', 'ceil': 'i_floor', 'trunc': 'i_floor', 'round': 'i_floor', 'rint': 'i_floor', 'roundeven': 'i_floor', 'powi': 'i_powi', 'pow': 'i_fun', 'exp': 'i_fun', 'log': 'i_fun', 'sin': 'i_fun', 'cos': 'i_fun', 'tan': 'i_fun', 'acos': 'i_fun', 'atan2': 'i_fun', 'asin': 'i_fun', 'atan': 'i_fun',
  'umax': 'i_imm', 'umin': 'i_imm', 'smax': 'i_imm', 'smin': 'i_imm', 'fptoui.sat': 'i_fpsat', 'fptosi.sat': 'i_fpsat', 'fshl': 'i_fsh', 'fshr': 'i_fsh',
  'ctpop': 'i_bits', 'ctlz': 'i_bits', 'cttz': 'i_bits', 'bswap': 'i_bits', 'bitreverse': 'i_bits', 'abs': 'i_bits', 'ucmp': 'i_cmp3', 'scmp': 'i_cmp3',
  'threadlocal.address': 'i_tls', 'load.relative': 'i_loadrel', 'objectsize': 'i_objsize', 'invariant.start': 'i_zero', 'stacksave': 'i_zero', 'stackrestore': 'i_nop'})
for _s in 'us':
    for _o in ('add', 'sub', 'mul'): INTR[_s + _o + '.with.overflow'] = 'i_ovf'
    for _o in ('add', 'sub'): INTR[_s + _o + '.sat'] = 'i_sat'
OVERRIDE = [('4core4timeNtB2_8Duration13from_secs_f', 'o_from_secs'), ('8Duration13from_secs_f', 'o_from_secs'), ('hashmap_random_keys', 'over_random_keys')]

LAZY = {Executor.i_sqrt, Executor.i_fun, Executor.i_fma, Executor.ext_sin, Executor.ext_log, Executor.ext_atan2}
