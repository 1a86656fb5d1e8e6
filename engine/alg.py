"""Exact symbolic arithmetic: polynomials and rational functions over atoms (inputs, square roots,
max/min/abs, transcendental functions), sign literals over them, and their translation to SMT.

A value of the analysed program is either a concrete float or a Rat N / (Q1^e1 ... Qk^ek)."""
from fractions import Fraction
import math
import numpy as np
import z3

# ------------------------------------------------------------------ atoms
class Atom:
    __slots__ = ('id', 'kind', 'name', 'args', 'lo', 'hi', 'z', 'zdef', 'isint', 'deps', 'outer')
    def __repr__(self): return self.name

ATOMS = []
_atom_key = {}
SAMPLES = 96
RNG = np.random.RandomState(7)

def new_atom(kind, name, args=(), lo=None, hi=None, key=None, isint=False):
    if key is not None and key in _atom_key: return _atom_key[key]
    a = Atom()
    a.id = len(ATOMS); a.kind = kind; a.name = name; a.args = args; a.lo = lo; a.hi = hi
    a.z = None; a.zdef = None; a.isint = isint; a.deps = None; a.outer = kind not in ('var', 'ivar')
    ATOMS.append(a)
    if key is not None: _atom_key[key] = a
    return a

# ------------------------------------------------------------------ polynomials: dict {monomial: coeff}
# monomial: tuple of (atom id, exponent) sorted by atom id
ONE = ()
def pconst(c): return {ONE: c} if c else {}
def patom(a): return {((a.id, 1),): 1}

_mm = {}
def mono_mul(a, b):
    if not a: return b
    if not b: return a
    k = (a, b)
    r = _mm.get(k)
    if r is not None: return r
    out = []
    i = j = 0
    while i < len(a) and j < len(b):
        x, y = a[i], b[j]
        if x[0] == y[0]: out.append((x[0], x[1] + y[1])); i += 1; j += 1
        elif x[0] < y[0]: out.append(x); i += 1
        else: out.append(y); j += 1
    out.extend(a[i:]); out.extend(b[j:])
    r = tuple(out)
    if len(_mm) > 2000000: _mm.clear()
    _mm[k] = r
    return r

def padd(a, b):
    if len(a) < len(b): a, b = b, a
    r = dict(a)
    for m, c in b.items():
        v = r.get(m)
        if v is None: r[m] = c
        else:
            v = v + c
            if v: r[m] = v
            else: del r[m]
    return r
def pscale(a, k):
    if not k: return {}
    if k == 1: return a
    return {m: cnorm(c * k) for m, c in a.items()}
def cnorm(c):
    if type(c) is Fraction and c.denominator == 1: return c.numerator
    return c
def cdiv(a, b):
    if isinstance(a, int) and isinstance(b, int):
        if a % b == 0: return a // b
        return Fraction(a, b)
    return cnorm(Fraction(a) / b)
class TooBig(Exception): pass
MAXTERMS = 60000
def pmul(a, b):
    if not a or not b: return {}
    if len(a) * len(b) > 3000000: raise TooBig()
    if len(a) == 1 and ONE in a: return pscale(b, a[ONE])
    if len(b) == 1 and ONE in b: return pscale(a, b[ONE])
    r = {}
    red = False
    for m1, c1 in a.items():
        for m2, c2 in b.items():
            m = mono_mul(m1, m2)
            v = r.get(m)
            r[m] = c1 * c2 if v is None else v + c1 * c2
    r = {m: cnorm(c) for m, c in r.items() if c}
    if len(r) > MAXTERMS: raise TooBig()
    return preduce(r)

def preduce(r):
    """rewrite powers of algebraic atoms: sqrt(p)^2 -> p, |p|^2 -> p^2, sin^2 -> 1-cos^2"""
    todo = None
    for m in r:
        for a, e in m:
            if e >= 2 and ATOMS[a].kind in ('sqrt', 'abs', 'sin'):
                todo = True; break
        if todo: break
    if not todo: return r
    out = {}
    work = {}
    for m, c in r.items():
        hit = None
        for a, e in m:
            if e >= 2 and ATOMS[a].kind in ('sqrt', 'abs', 'sin'): hit = (a, e); break
        if hit is None:
            out[m] = out.get(m, 0) + c
        else:
            work.setdefault(hit, {})[tuple(x for x in m if x[0] != hit[0])] = c
    out = {m: c for m, c in out.items() if c}
    for (a, e), rest in work.items():
        at = ATOMS[a]
        sq = at_square(at)
        f = ppow(sq, e // 2)
        if e % 2: f = pmul(f, {((a, 1),): 1})
        out = padd(out, pmul(preduce(rest), f))
    return out
_sq = {}
def at_square(at):
    r = _sq.get(at.id)
    if r is None:
        if at.kind == 'sqrt': r = at.args[0]
        elif at.kind == 'abs': r = pmul(at.args[0], at.args[0])
        elif at.kind == 'sin': r = padd(pconst(1), {((at.args[1].id, 2),): -1})
        _sq[at.id] = r
    return r
def ppow(p, n):
    r = pconst(1)
    while n:
        if n & 1: r = pmul(r, p)
        n >>= 1
        if n: p = pmul(p, p)
    return r
def pkey(p): return frozenset(p.items())
def is_const(p): return not p or (len(p) == 1 and ONE in p)
def cval(p): return p.get(ONE, 0)

def mono_div(a, b):
    """a / b or None"""
    if not b: return a
    d = dict(a)
    for k, e in b:
        v = d.get(k, 0)
        if v < e: return None
        if v == e: del d[k]
        else: d[k] = v - e
    return tuple(sorted(d.items()))
def mono_key(m, n=0):
    # lexicographic order with later atoms first (sqrt atoms come late)
    return tuple((-0, ) ) if False else m
def lead(p):
    """leading monomial in a lexicographic order (higher atom ids dominate)"""
    return max(p, key=lambda m: m[::-1])
def pdivexact(n, q, limit=20000):
    """n / q if the division is exact, else None (q without algebraic reductions involved)"""
    if is_const(q): return pscale(n, cdiv(1, cval(q)))
    lq = lead(q); cq = q[lq]
    if len(q) == 1:
        out = {}
        for m, c in n.items():
            d = mono_div(m, lq)
            if d is None: return None
            out[d] = cdiv(c, cq)
        return out
    # quick test: degrees
    out = {}
    rem = dict(n)
    import heapq
    heap = [_neg(m) for m in rem]
    heapq.heapify(heap)
    steps = 0
    qi = [(m, c) for m, c in q.items() if m != lq]
    while heap:
        k = heapq.heappop(heap)
        m = k.m
        c = rem.get(m)
        if not c: continue
        d = mono_div(m, lq)
        if d is None: return None
        steps += 1
        if steps > limit: return None
        f = cdiv(c, cq)
        out[d] = cnorm(out.get(d, 0) + f)
        del rem[m]
        for mq, c2 in qi:
            mm = mono_mul(mq, d)
            v = rem.get(mm)
            if v is None:
                rem[mm] = cnorm(-f * c2); heapq.heappush(heap, _neg(mm))
            else:
                v = cnorm(v - f * c2)
                rem[mm] = v
                if not v: del rem[mm]
    return out
def mkey(m):
    """key realising lex order with higher atom ids dominating"""
    return m[::-1]
class _neg:
    __slots__ = ('m', 'k')
    def __init__(self, m): self.m = m; self.k = m[::-1]
    def __lt__(self, o): return self.k > o.k

def pcontent(p):
    """(c, monomial, primitive): p = c * mono * primitive with positive leading coefficient"""
    if not p: return 0, ONE, {}
    ms = list(p)
    g = dict(ms[0])
    for m in ms[1:]:
        if not g: break
        d = dict(m)
        for k in list(g):
            e = d.get(k, 0)
            if e < g[k]:
                if e: g[k] = e
                else: del g[k]
    mono = tuple(sorted(g.items()))
    num = 0; den = 1
    for c in p.values():
        f = c if isinstance(c, Fraction) else Fraction(c)
        num = math.gcd(num, abs(f.numerator)); den = den * f.denominator // math.gcd(den, f.denominator)
    c = Fraction(num, den)
    l = max(p, key=mkey)
    if p[l] < 0: c = -c
    c = cnorm(c)
    if c == 1 and not mono: return 1, ONE, p
    prim = {(mono_div(m, mono) if mono else m): cdiv(v, c) for m, v in p.items()}
    return c, mono, prim

def psqrt_exact(p):
    """q with q^2 = p for a primitive polynomial, or None"""
    if not p: return {}
    if len(p) > 400: return None
    l = max(p, key=mkey)
    if any(e % 2 for _, e in l): return None
    c = Fraction(p[l])
    if c < 0: return None
    a, b = math.isqrt(c.numerator), math.isqrt(c.denominator)
    if a * a != c.numerator or b * b != c.denominator: return None
    lm = tuple((k, e // 2) for k, e in l)
    lc = cnorm(Fraction(a, b))
    q = {lm: lc}
    for _ in range(60):
        r = padd(p, pscale(pmul_raw(q, q), -1))
        if not r: return q
        m = max(r, key=mkey)
        d = mono_div(m, lm)
        if d is None: return None
        if mkey(d) >= mkey(lm): return None
        q = padd(q, {d: cdiv(r[m], 2 * lc)})
    return None
def pmul_raw(a, b):
    r = {}
    for m1, c1 in a.items():
        for m2, c2 in b.items():
            m = mono_mul(m1, m2)
            r[m] = r.get(m, 0) + c1 * c2
    return {m: cnorm(c) for m, c in r.items() if c}

# ------------------------------------------------------------------ rational functions
class Rat:
    __slots__ = ('n', 'd', 'key', 'nn')
    def __init__(self, n, d=()):
        self.n = n
        self.d = d        # tuple of (QKey id, exp) sorted; Q stored in QS
        self.key = None; self.nn = False
    def __repr__(self): return 'Rat(%s)' % rstr(self)
    def k(self):
        if self.key is None: self.key = (pkey(self.n), self.d)
        return self.key
QS = []      # denominator polynomials (primitive, positive leading coefficient)
_qid = {}
def qid(p):
    k = pkey(p)
    i = _qid.get(k)
    if i is None:
        i = _qid[k] = len(QS)
        QS.append(p)
    return i
def rconst(c): return Rat(pconst(c))
def ratom(a): return Rat(patom(a))
def rneg(a): return Rat(pscale(a.n, -1), a.d)
def dmerge(a, b):
    """lcm of denominators and cofactors"""
    da, db = dict(a), dict(b)
    l = dict(da)
    for q, e in db.items(): l[q] = max(l.get(q, 0), e)
    ca = [(q, e - da.get(q, 0)) for q, e in l.items() if e > da.get(q, 0)]
    cb = [(q, e - db.get(q, 0)) for q, e in l.items() if e > db.get(q, 0)]
    return tuple(sorted(l.items())), ca, cb
def pmulq(p, fs):
    for q, e in fs: p = pmul(p, ppow(QS[q], e))
    return p
def radd(a, b):
    if a.d == b.d:
        n = padd(a.n, b.n)
        return rreduce(n, a.d) if a.d else Rat(n)
    l, ca, cb = dmerge(a.d, b.d)
    return rreduce(padd(pmulq(a.n, ca), pmulq(b.n, cb)), l)
def rsub(a, b): return radd(a, rneg(b))
def rmul(a, b):
    n = pmul(a.n, b.n)
    if not a.d and not b.d: return Rat(n)
    d = dict(a.d)
    for q, e in b.d: d[q] = d.get(q, 0) + e
    return rreduce(n, tuple(sorted(d.items())))
def rreduce(n, d):
    if not n: return Rat({})
    if not d: return Rat(n)
    out = []
    for q, e in d:
        Q = QS[q]
        while e:
            if len(Q) > len(n): break
            r = pdivexact(n, Q)
            if r is None: break
            n = r; e -= 1
        if e: out.append((q, e))
    return Rat(n, tuple(out))
def rinv(a):
    """1/a; a known to be nonzero"""
    # a = N / D -> D / N
    c, mono, prim = pcontent(a.n)
    num = pmulq(pconst(1), a.d)
    den = {}
    for at, e in mono:
        A = ATOMS[at]
        if A.kind == 'sqrt':
            # 1/s = s/p
            for _ in range(e):
                num = pmul(num, {((at, 1),): 1})
                pc, pm, pp = pcontent(A.args[0])
                num = pscale(num, cdiv(1, pc))
                for x, ex in pm:
                    qx = qid({((x, 1),): 1}); den[qx] = den.get(qx, 0) + ex
                if not is_const(pp):
                    qp = qid(pp); den[qp] = den.get(qp, 0) + 1
        else:
            q = qid({((at, 1),): 1}); den[q] = den.get(q, 0) + e
    num = pscale(num, cdiv(1, c))
    if not is_const(prim):
        q = qid(prim); den[q] = den.get(q, 0) + 1
    return rreduce(num, tuple(sorted(den.items())))
def rscale(a, k): return Rat(pscale(a.n, k), a.d)
def is_nn_const(a): return not a.d and is_const(a.n) and cval(a.n) >= 0
def mark_nn(r):
    """r is nonnegative by the way it was computed (sums and products of squares)"""
    r.nn = True
    if is_const(r.n) or any(e % 2 for q, e in r.d): return
    c, mono, prim = pcontent(r.n)
    if mono: prim = {mono_mul(m, mono): v for m, v in prim.items()}
    k = pkey(prim)
    _sgn[k] = psign_static(prim) & (6 if c > 0 else 3)
def roots_of(p): return {a for m in p for a, e in m if ATOMS[a].kind == 'sqrt' and psign_static(ATOMS[a].args[0]) & 1}
def roots_kept(a, b, r):
    """no root was squared away: its radicand is nonnegative on paths that have the root, not everywhere"""
    return roots_of(a.n) | roots_of(b.n) <= roots_of(r.n)
def is_rconst(a): return not a.d and is_const(a.n)

# ------------------------------------------------------------------ constants
PI = new_atom('pi', 'PI', lo=Fraction(314159265358979, 10**14), hi=Fraction(31415926535898, 10**13))
_snap = {}
PIF = Fraction(math.pi)
def const_poly(c, bits=64):
    """polynomial for a float literal: multiples and fractions of pi are kept exact, other literals
    become the simplest rational that rounds to them"""
    k = (c, bits)
    r = _snap.get(k)
    if r is not None: return r
    r = _const_poly(c, bits)
    _snap[k] = r
    return r
def _const_poly(c, bits):
    if c == int(c) and abs(c) < 2**62: return pconst(int(c))
    f = Fraction(c)
    if bits == 64:
        q = f / PIF
        s = q.limit_denominator(2000)
        if s and abs(q / s - 1) < Fraction(1, 10**15) and abs(s.numerator) <= 2000: return {((PI.id, 1),): cnorm(s)}
        q = f * PIF
        s = q.limit_denominator(2000)
        # c = s/pi: kept as a rational function by the caller
        if s and abs(q / s - 1) < Fraction(1, 10**15) and abs(s.numerator) <= 2000: return ('invpi', cnorm(s))
        s = f.limit_denominator(10**5)
        if s and float(s) == c: return pconst(cnorm(s))
        return pconst(cnorm(Fraction(repr(c))))
    s = f.limit_denominator(10**4)
    if s and float(np.float32(s.numerator / s.denominator)) == c: return pconst(cnorm(s))
    return pconst(cnorm(Fraction(repr(np.float32(c).item() if False else float(str(np.float32(c)))))))
def const_rat(c, bits=64):
    p = const_poly(c, bits)
    if isinstance(p, tuple): return Rat(pconst(p[1]), ((qid({((PI.id, 1),): 1}), 1),))
    return Rat(p)

# ------------------------------------------------------------------ boolean formulas
# True | False | ('s', poly, key, mask) with mask bits 1:'<0' 2:'=0' 4:'>0' | ('and', tuple) | ('or', tuple) | ('z', z3expr, negated)
def bnot(b):
    if b is True: return False
    if b is False: return True
    if b[0] == 's': return ('s', b[1], b[2], 7 ^ b[3])
    if b[0] == 'and': return bor([bnot(x) for x in b[1]])
    if b[0] == 'or': return band([bnot(x) for x in b[1]])
    if b[0] == 'z': return ('z', z3.Not(b[1]))
    raise NotImplementedError
def band(bs):
    out = []
    for b in bs:
        if b is False: return False
        if b is True: continue
        if b[0] == 'and': out.extend(b[1])
        else: out.append(b)
    if not out: return True
    if len(out) == 1: return out[0]
    return ('and', tuple(out))
def bor(bs):
    out = []
    for b in bs:
        if b is True: return True
        if b is False: continue
        if b[0] == 'or': out.extend(b[1])
        else: out.append(b)
    if not out: return False
    if len(out) == 1: return out[0]
    return ('or', tuple(out))
def bkey(b):
    if b is True or b is False: return b
    if b[0] == 's': return ('s', b[2], b[3])
    if b[0] == 'z': return ('z', b[1].get_id())
    return (b[0], tuple(bkey(x) for x in b[1]))

def flipmask(m): return (m & 2) | ((m & 1) << 2) | ((m & 4) >> 2)

NONNEG = {'sqrt', 'abs'}
_sgn = {}
def psign_static(p):
    """mask of the possible signs of p from atom ranges alone (cheap, conservative)"""
    k = pkey(p)
    r = _sgn.get(k)
    if r is None:
        r = _sgn[k] = _psign(p)
    return r
def atom_sign(a):
    A = ATOMS[a]
    if A.kind in NONNEG: return 6
    m = 7
    if A.lo is not None:
        if A.lo > 0: m &= 4
        elif A.lo == 0: m &= 6
    if A.hi is not None:
        if A.hi < 0: m &= 1
        elif A.hi == 0: m &= 3
    return m
def smul(a, b):
    """sign mask of a product"""
    r = 0
    for x in (1, 2, 4):
        if not a & x: continue
        for y in (1, 2, 4):
            if not b & y: continue
            if x == 2 or y == 2: r |= 2
            elif x == y: r |= 4
            else: r |= 1
    return r
def spow(a, e):
    if e % 2: return a
    return (2 if a & 2 else 0) | (4 if a & 5 else 0)
def sadd(a, b):
    r = 0
    for x in (1, 2, 4):
        if not a & x: continue
        for y in (1, 2, 4):
            if not b & y: continue
            if x == 2: r |= y
            elif y == 2 or x == y: r |= x
            else: r |= 7
    return r
def _psign(p):
    if not p: return 2
    tot = 2
    for m, c in p.items():
        s = 4 if c > 0 else 1
        for a, e in m: s = smul(s, spow(atom_sign(a), e))
        tot = sadd(tot, s)
        if tot == 7: break
    if tot == 7:
        lo, hi = pinterval(p)
        if lo is not None:
            if lo > 0: tot = 4
            elif lo == 0: tot = 6
        if hi is not None:
            if hi < 0: tot = 1
            elif hi == 0: tot = 3
    return tot
def pinterval(p):
    """interval of p by naive interval arithmetic (None = unbounded)"""
    L = 0; H = 0
    for m, c in p.items():
        lo, hi = (c, c)
        for a, e in m:
            A = ATOMS[a]
            al, ah = A.lo, A.hi
            if al is None or ah is None: return None, None
            if e % 2 == 0:
                x, y = abs(al) ** e, abs(ah) ** e
                bl, bh = (0 if al <= 0 <= ah else min(x, y)), max(x, y)
            else: bl, bh = al ** e, ah ** e
            c4 = (lo * bl, lo * bh, hi * bl, hi * bh)
            lo, hi = min(c4), max(c4)
        L += lo; H += hi
    return L, H

def lit(p, mask):
    """literal sign(p) in mask, canonicalised"""
    if mask == 7: return True
    if mask == 0: return False
    if is_const(p):
        c = cval(p)
        s = 1 if c < 0 else (2 if c == 0 else 4)
        return bool(s & mask)
    c, mono, prim = pcontent(p)
    if c < 0: mask = flipmask(mask)
    # factor of known sign
    keep = []
    zero_or = False
    for a, e in mono:
        s = spow(atom_sign(a), e)
        if s == 4: continue
        if s == 1: mask = flipmask(mask); continue
        keep.append((a, e if e <= 2 else (1 if e % 2 else 2)))
    if keep: prim = {mono_mul(m, tuple(keep)): v for m, v in prim.items()}
    if is_const(prim): return lit(prim, mask)
    s = psign_static(prim)
    if not (s & mask): return False
    if not (s & ~mask): return True
    return ('s', prim, pkey(prim), mask)

def find_lift(p):
    """an atom max/min/abs/ite occurring linearly"""
    best = None
    for m in p:
        for a, e in m:
            if ATOMS[a].kind in ('max', 'min', 'ite', 'abs'):
                if best is None or a > best: best = a
    return best
def split_linear(p, a):
    """p = k*a + r ; (k, r) or None when a occurs with a higher power"""
    k = {}; r = {}
    for m, c in p.items():
        e = 0
        for x, ex in m:
            if x == a: e = ex
        if e == 0: r[m] = c
        elif e == 1: k[tuple(t for t in m if t[0] != a)] = c
        else: return None
    return k, r

def rat_cmp(n, d, mask, signs=None, depth=0):
    """formula: sign(n / prod d) in mask"""
    if not n: return bool(mask & 2)
    for q, e in d:
        if e % 2 == 0: continue
        Q = QS[q]
        s = psign_static(Q)
        if signs is not None and s & (s - 1):
            s &= signs.get(pkey(Q), 7)
        s &= 5
        if s == 4: continue
        if s == 1: mask = flipmask(mask); continue
        n = pmul(n, Q)
    a = find_lift(n) if depth < 14 else None
    if a is not None:
        kr = split_linear(n, a)
        if kr is not None:
            return lift(a, kr[0], kr[1], mask, signs, depth)
    l = lit(n, mask)
    return l

def subst(b, a, r):
    """formula b with atom a (where it stands in polynomials, not inside other atoms) replaced by the rational r"""
    if b is True or b is False or b[0] == 'z': return b
    if b[0] != 's': return (band if b[0] == 'and' else bor)([subst(x, a, r) for x in b[1]])
    ps = {}
    for m, c in b[1].items():
        e = 0
        for x, ex in m:
            if x == a: e = ex
        ps.setdefault(e, {})[tuple(t for t in m if t[0] != a)] = c
    if len(ps) == 1 and 0 in ps: return b
    out = Rat({}); pw = rconst(1); k = 0
    for e in sorted(ps):
        while k < e: pw = rmul(pw, r); k += 1
        out = radd(out, rmul(Rat(ps[e]), pw))
    return rat_cmp(out.n, out.d, b[3])
def lift(a, k, r, mask, signs, depth):
    A = ATOMS[a]
    def sub(x, mk):
        # sign(k*x + r) in mk with x a Rat
        t = radd(rmul(Rat(k), x), Rat(r))
        return rat_cmp(t.n, t.d, mk, signs, depth + 1)
    ks = psign_static(k)
    if signs is not None and ks & (ks - 1): ks &= signs.get(pkey(k), 7)
    if A.kind == 'ite':
        c, x, y = A.args
        return bor([band([c, sub(x, mask)]), band([bnot(c), sub(y, mask)])])
    if A.kind == 'abs':
        x, y = Rat(A.args[0]), Rat(pscale(A.args[0], -1)); ismax = True
    else:
        x, y = A.args; ismax = A.kind == 'max'
    # k*max(x,y): with k>=0 it is max(kx,ky), with k<=0 min(kx,ky)
    if ks in (4, 6): up = ismax
    elif ks in (1, 3): up = not ismax
    else: up = None
    if up is not None and mask in (1, 3, 4, 6):
        less = mask in (1, 3)
        if up == less: return band([sub(x, mask), sub(y, mask)])
        return bor([sub(x, mask), sub(y, mask)])
    dlt = rsub(x, y)
    c = rat_cmp(dlt.n, dlt.d, 6 if ismax else 3, signs, depth + 1)
    return bor([band([c, sub(x, mask)]), band([bnot(c), sub(y, mask)])])

# ------------------------------------------------------------------ numeric evaluation on samples
def eval_atom(a, S, memo):
    v = memo.get(a)
    if v is not None: return v
    A = ATOMS[a]
    k = A.kind
    with np.errstate(all='ignore'):
        if k in ('var', 'ivar'):
            v = S[a]
        elif k == 'pi': v = math.pi
        elif k == 'sqrt': v = np.sqrt(eval_poly(A.args[0], S, memo))
        elif k == 'abs': v = np.abs(eval_poly(A.args[0], S, memo))
        elif k == 'max': v = np.maximum(eval_rat(A.args[0], S, memo), eval_rat(A.args[1], S, memo))
        elif k == 'min': v = np.minimum(eval_rat(A.args[0], S, memo), eval_rat(A.args[1], S, memo))
        elif k == 'ite': v = np.where(eval_bool(A.args[0], S, memo), eval_rat(A.args[1], S, memo), eval_rat(A.args[2], S, memo))
        elif k in ('sin', 'cos', 'tan', 'exp', 'ln', 'acos', 'asin', 'atan'):
            x = eval_rat(A.args[0], S, memo)
            if k in ('acos', 'asin'): x = np.clip(x, -1, 1)
            v = {'sin': np.sin, 'cos': np.cos, 'tan': np.tan, 'exp': np.exp, 'ln': np.log, 'acos': np.arccos, 'asin': np.arcsin, 'atan': np.arctan}[k](x)
        elif k == 'floor': v = np.floor(eval_rat(A.args[0], S, memo) + 1e-13)
        elif k == 'atan2': v = np.arctan2(eval_rat(A.args[0], S, memo), eval_rat(A.args[1], S, memo))
        elif k == 'pow': v = np.power(eval_rat(A.args[0], S, memo), eval_rat(A.args[1], S, memo))
        else: raise NotImplementedError(k)
    memo[a] = v
    return v
def eval_poly(p, S, memo):
    t = 0.0
    for m, c in p.items():
        try: v = float(c)
        except OverflowError: v = float('nan')
        for a, e in m:
            x = eval_atom(a, S, memo)
            v = v * (x if e == 1 else x ** e)
        t = t + v
    return t
def eval_rat(r, S, memo):
    v = eval_poly(r.n, S, memo)
    for q, e in r.d:
        with np.errstate(all='ignore'):
            v = v / eval_poly(QS[q], S, memo) ** e
    return v
def eval_bool(b, S, memo):
    n = memo['n']
    if b is True: return np.ones(n, bool)
    if b is False: return np.zeros(n, bool)
    if b[0] == 's':
        v = eval_poly(b[1], S, memo)
        v = np.broadcast_to(v, (n,))
        mk = b[3]
        r = np.zeros(n, bool)
        if mk & 1: r = r | (v < 0)
        if mk & 2: r = r | (v == 0)
        if mk & 4: r = r | (v > 0)
        return r
    if b[0] == 'and':
        r = np.ones(n, bool)
        for x in b[1]: r = r & eval_bool(x, S, memo)
        return r
    if b[0] == 'or':
        r = np.zeros(n, bool)
        for x in b[1]: r = r | eval_bool(x, S, memo)
        return r
    raise NotImplementedError(b[0])

# ------------------------------------------------------------------ z3
def zatom(a):
    A = ATOMS[a]
    if A.z is None:
        A.z = z3.Real('%s!%d' % (A.name, A.id)) if not A.isint else z3.ToReal(z3.Int('%s!%d' % (A.name, A.id)))
    return A.z
def zfrac(c):
    if isinstance(c, int): return z3.RealVal(c)
    return z3.Q(c.numerator, c.denominator)
_zp = {}
def zpoly(p):
    k = pkey(p)
    r = _zp.get(k)
    if r is None:
        ts = []
        for m, c in sorted(p.items(), key=lambda x: x[0]):
            fs = []
            for a, e in m: fs.extend([zatom(a)] * e)
            if c != 1 or not fs: fs = [zfrac(c)] + fs
            t = fs[0]
            for f in fs[1:]: t = t * f
            ts.append(t)
        r = z3.Sum(ts) if len(ts) > 1 else (ts[0] if ts else z3.RealVal(0))
        _zp[k] = r
    return r
def zlit(p, mask):
    e = zpoly(p)
    z = z3.RealVal(0)
    return {1: e < z, 2: e == z, 4: e > z, 3: e <= z, 6: e >= z, 5: e != z}[mask]
def zbool(b):
    if b is True or b is False: return z3.BoolVal(b)
    if b[0] == 's': return zlit(b[1], b[3])
    if b[0] == 'and': return z3.And(*[zbool(x) for x in b[1]])
    if b[0] == 'or': return z3.Or(*[zbool(x) for x in b[1]])
    return b[1]
def bool_atoms(b, out):
    if b is True or b is False: return out
    if b[0] == 's':
        for m in b[1]:
            for a, _ in m: out.add(a)
    elif b[0] in ('and', 'or'):
        for x in b[1]: bool_atoms(x, out)
    return out
def rat_atoms(r, out):
    for m in r.n:
        for a, _ in m: out.add(a)
    for q, _ in r.d:
        for m in QS[q]:
            for a, _ in m: out.add(a)
    return out
def poly_atoms(p, out):
    for m in p:
        for a, _ in m: out.add(a)
    return out
def deps(a):
    A = ATOMS[a]
    if A.deps is None:
        s = set()
        for x in A.args:
            if isinstance(x, Rat): rat_atoms(x, s)
            elif isinstance(x, dict): poly_atoms(x, s)
            elif isinstance(x, Atom): s.add(x.id)
            elif isinstance(x, tuple) or x is True or x is False: bool_atoms(x, s)
        A.deps = s - {a}
    return A.deps
def closure(atoms):
    seen = set()
    todo = list(atoms)
    while todo:
        a = todo.pop()
        if a in seen: continue
        seen.add(a)
        todo.extend(deps(a))
    return seen
def zrel(x, r, op):
    """x op r with x a z3 real, r a Rat, by multiplying out the denominators (nonzero)"""
    # used for equalities only
    den = zpoly(pmulq(pconst(1), r.d)) if r.d else None
    n = zpoly(r.n)
    return (x * den == n) if den is not None else (x == n)
def zdefs(a):
    """definitional constraints of an atom"""
    A = ATOMS[a]
    if A.zdef is not None: return A.zdef
    z = zatom(a)
    out = []
    if A.lo is not None: out.append(z >= zfrac(A.lo))
    if A.hi is not None: out.append(z <= zfrac(A.hi))
    k = A.kind
    if k == 'sqrt': out += [z >= 0, z * z == zpoly(A.args[0])]
    elif k == 'abs':
        p = zpoly(A.args[0]); out += [z >= 0, z3.Or(z == p, z == -p)]
    elif k in ('max', 'min'):
        x, y = A.args
        dx, dy = rsub(ratom(A), x), rsub(ratom(A), y)
        mk = 6 if k == 'max' else 3
        out += [zbool(raw_cmp(dx, mk)), zbool(raw_cmp(dy, mk)), z3.Or(zbool(raw_cmp(dx, 2)), zbool(raw_cmp(dy, 2)))]
    elif k == 'ite':
        c, x, y = A.args
        out += [z3.If(zbool(c), zbool(raw_cmp(rsub(ratom(A), x), 2)), zbool(raw_cmp(rsub(ratom(A), y), 2)))]
    elif k == 'sin':
        c = zatom(A.args[1].id); out += [z * z + c * c == 1, z >= -1, z <= 1]
    elif k == 'cos': out += [z >= -1, z <= 1]
    elif k == 'exp': out += [z > 0]
    elif k == 'floor':
        d = rsub(A.args[0], ratom(A))
        out += [zbool(raw_cmp(d, 6)), zbool(raw_cmp(rsub(d, rconst(1)), 1))]
    A.zdef = out
    return out
def raw_cmp(r, mask):
    """comparison without lifting"""
    n = r.n
    for q, e in r.d:
        if e % 2 and psign_static(QS[q]) & 5 != 4: n = pmul(n, QS[q])
    return lit(n, mask)

def pstr(p, maxn=12):
    ts = []
    for m, c in list(p.items())[:maxn]:
        ts.append('%s%s' % (c if c != 1 or not m else '', '*'.join('%s^%d' % (ATOMS[a].name, e) if e > 1 else ATOMS[a].name for a, e in m)))
    return ' + '.join(ts) + (' ...(%d)' % len(p) if len(p) > maxn else '') or '0'
def rstr(r):
    s = pstr(r.n)
    for q, e in r.d: s += ' / (%s)^%d' % (pstr(QS[q]), e)
    return s


# ------------------------------------------------------------------ generalisation of a query
def solve_combo(p, basis):
    """rational coefficients x with p = sum x_i basis_i, or None (sparse Gaussian elimination)"""
    rows = []      # (pivot monomial, poly, combo)
    def red(q, comb):
        for pm, pp, pc in rows:
            c = q.get(pm)
            if c:
                q = padd(q, pscale(pp, -c))
                comb = dict(comb)
                for k, v in pc.items():
                    w = comb.get(k, 0) - c * v
                    if w: comb[k] = w
                    else: comb.pop(k, None)
        return q, comb
    for i, b in enumerate(basis):
        q, comb = red(b, {i: Fraction(1)})
        if not q: continue
        pm = next(iter(q)); c = q[pm]
        rows.append((pm, pscale(q, Fraction(1) / c), {k: v / c for k, v in comb.items()}))
    q, comb = red(p, {})
    if q: return None
    return {k: -v for k, v in comb.items()}

class Abstraction:
    """Replace the polynomials in the inner variables that occur as coefficients by fresh variables.
    Sound for unsatisfiability: every solution of the original is a solution of the abstraction."""
    def __init__(self, fs, atoms):
        self.base = []; self.bkey = {}
        self.zs = []
        self.n = 0
        self.inner = {a for a in atoms if ATOMS[a].kind in ('var', 'ivar') and not ATOMS[a].outer}
        self.polys = []
        for b in fs: self.collect(b)
        for a in atoms:
            A = ATOMS[a]
            for x in A.args:
                if isinstance(x, Rat):
                    self.polys.append(x.n)
                    for q, _ in x.d: self.polys.append(QS[q])
                elif isinstance(x, dict): self.polys.append(x)
        # coefficients of mixed polynomials first
        pure = []
        for p in self.polys:
            g = self.split(p)
            mixed = any(o for o in g)
            for o, c in g.items():
                if is_const(c): continue
                if mixed: self.add(c)
            if not mixed and not is_const(p): pure.append(p)
        self.ok = True
        self.memo = {}
        pure.sort(key=len)
        for p in pure: self.express(p)
    def collect(self, b):
        if b is True or b is False: return
        if b[0] == 's': self.polys.append(b[1])
        elif b[0] in ('and', 'or'):
            for x in b[1]: self.collect(x)
    def split(self, p):
        g = {}
        for m, c in p.items():
            o = tuple(x for x in m if x[0] not in self.inner); i = tuple(x for x in m if x[0] in self.inner)
            g.setdefault(o, {})[i] = c
        return g
    def add(self, c):
        c = {m: v for m, v in c.items() if m}     # constants stay explicit
        if not c: return None
        k0, mono, prim = pcontent(c)
        if mono: prim = {mono_mul(m, mono): v for m, v in prim.items()}
        k = pkey(prim)
        if k not in self.bkey:
            self.bkey[k] = len(self.base)
            self.base.append(prim)
            z = z3.Real('abs!%d' % len(self.base))
            self.zs.append((z, psign_static(prim)))
        return self.bkey[k], k0
    def express(self, p):
        """z3 term for a polynomial of inner variables"""
        k = pkey(p)
        if k in self.memo: return self.memo[k]
        const = p.get(ONE, 0)
        q = {m: v for m, v in p.items() if m}
        if not q: r = zfrac(const)
        else:
            k0, mono, prim = pcontent(q)
            if mono: prim = {mono_mul(m, mono): v for m, v in prim.items()}
            i = self.bkey.get(pkey(prim))
            r = None
            if i is not None: r = self.zs[i][0] * zfrac(k0)
            else:
                n = len(self.base)
                if n <= 12 and len(q) <= 1500:
                    bs = list(self.base); zt = [z for z, _ in self.zs]
                    for x in range(n):
                        for y in range(x, n):
                            if len(self.base[x]) * len(self.base[y]) < 3000:
                                bs.append(pmul(self.base[x], self.base[y])); zt.append(self.zs[x][0] * self.zs[y][0])
                    sol = solve_combo(q, bs)
                    if sol is not None:
                        r = z3.Sum([zfrac(cnorm(v)) * zt[j] for j, v in sol.items()] + [zfrac(0)])
                if r is None:
                    i, k0 = self.add(q); r = self.zs[i][0] * zfrac(k0)
            r = r + zfrac(const) if const else r
        self.memo[k] = r
        return r
    def zp(self, p):
        ts = []
        for o, c in self.split(p).items():
            t = self.express(c)
            for a, e in o:
                for _ in range(e): t = t * zatom(a)
            ts.append(t)
        return z3.Sum(ts) if ts else z3.RealVal(0)
    def zb(self, b):
        if b is True or b is False: return z3.BoolVal(b)
        if b[0] == 's':
            e = self.zp(b[1]); z = z3.RealVal(0)
            return {1: e < z, 2: e == z, 4: e > z, 3: e <= z, 6: e >= z, 5: e != z}[b[3]]
        if b[0] == 'and': return z3.And(*[self.zb(x) for x in b[1]])
        return z3.Or(*[self.zb(x) for x in b[1]])
    def rel(self, r, mask):
        n = r.n
        for q, e in r.d:
            if e % 2 and psign_static(QS[q]) & 5 != 4: n = pmul(n, QS[q])
        b = lit(n, mask)
        return self.zb(b)
    def build(self, fs, atoms):
        out = [self.zb(b) for b in fs]
        for a in atoms:
            A = ATOMS[a]
            if a in self.inner: continue
            z = zatom(a)
            if A.lo is not None: out.append(z >= zfrac(A.lo))
            if A.hi is not None: out.append(z <= zfrac(A.hi))
            if A.kind == 'sqrt': out += [z >= 0, z * z == self.zp(A.args[0])]
            elif A.kind == 'abs':
                p = self.zp(A.args[0]); out += [z >= 0, z3.Or(z == p, z == -p)]
            elif A.kind in ('max', 'min'):
                x, y = A.args
                dx, dy = rsub(ratom(A), x), rsub(ratom(A), y)
                mk = 6 if A.kind == 'max' else 3
                out += [self.rel(dx, mk), self.rel(dy, mk), z3.Or(self.rel(dx, 2), self.rel(dy, 2))]
            elif A.kind == 'sin':
                c = zatom(A.args[1].id); out += [z * z + c * c == 1]
        for z, s in self.zs:
            if s in (1, 2, 4, 3, 6):
                out.append({1: z < 0, 2: z == 0, 4: z > 0, 3: z <= 0, 6: z >= 0}[s])
        for (z, s), p in zip(self.zs, self.base):
            lo, hi = pinterval(p)
            if lo is not None: out.append(z >= zfrac(cnorm(Fraction(math.floor(lo)))))
            if hi is not None: out.append(z <= zfrac(cnorm(Fraction(math.ceil(hi)))))
        return out
