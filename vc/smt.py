"""SMT back ends (z3, cvc5) for obligations of the form  path condition => goal."""
import os, subprocess, tempfile, time, math
from fractions import Fraction
import z3
from .term import *
from . import term as TM

PI = Fraction(math.pi)                     # the program's pi literal
PI_LO = Fraction('3.14159265358979323846'); PI_HI = Fraction('3.14159265358979323847')
HALFPI_HI = PI_HI / 2

TRANS = {'sin', 'cos', 'tan', 'asin', 'acos', 'atan', 'atan2', 'exp', 'log', 'log10', 'pow', 'cbrt', 'sinh', 'cosh', 'tanh', 'erf', 'f32', 'bits2f'}

_varcache = {}
def tvars(t):
    """ids of variables / function atoms of a term"""
    r = _varcache.get(t.id)
    if r is not None: return r
    out = set()
    for x in subterms([t]).values():
        if x.op == 'v' or x.op == 'avar': out.add(x.id)
    _varcache[t.id] = r = frozenset(out)
    return r

def slice_pc(pc, goal):
    """conjuncts sharing variables (transitively) with the goal"""
    need = set(tvars(goal))
    if not need: return list(pc)
    rest = [(c, tvars(c)) for c in pc]; out = []
    ch = True
    while ch:
        ch = False; nr = []
        for c, v in rest:
            if v & need: out.append(c); need |= v; ch = True
            else: nr.append((c, v))
        rest = nr
    idx = {c.id: i for i, c in enumerate(pc)}
    return sorted(out, key=lambda c: idx[c.id])

def rv(fr):
    if fr.denominator == 1: return z3.RealVal(fr.numerator)
    return z3.Q(fr.numerator, fr.denominator)

class Enc:
    def __init__(self, mode='int', terms=()):
        self.mode = mode           # 'int' or 'bv'
        self.cache = {}; self.ax = []; self.fresh_n = 0
        self.funcs = {}            # op -> list of (args z3, args terms, z3 var)
        self.hasint = False; self.bounds = {}
        self.vars = {}
        self.trans = set()
        self.sign = {}
        self.refine = {}
        self.usesbv = False
        if mode == 'int': self.prescan(terms)
    # -------- pre-analysis for the integer view
    def prescan(self, terms):
        sgnuse = {}
        for x in subterms(terms).values():
            o = x.op
            if o in ('slt', 'sdiv', 'srem', 'ovf', 'sext', 'ashr') or (o == 'i2r' and x.args[1]) or (o in ('add', 'sub', 'mul') and len(x.args) > 2 and x.args[2]):
                for a in x.args:
                    if type(a) is T and type(a.sort) is int: sgnuse[a.id] = sgnuse.get(a.id, 0) + 1
            elif o in ('ult', 'udiv', 'urem', 'zext', 'lshr', 'select') or (o == 'i2r'):
                for a in x.args:
                    if type(a) is T and type(a.sort) is int: sgnuse[a.id] = sgnuse.get(a.id, 0) - 1
        self.sgnuse = sgnuse
        # bounds from top-level comparisons with constants
        for c in terms:
            neg = False
            if c.op == 'not': neg = True; c = c.args[0]
            if c.op in ('slt', 'ult'):
                a, b = c.args; w = a.sort
                f = (lambda v: sgn(v, w)) if c.op == 'slt' else (lambda v: v)
                if a.op == 'v' and isc(b): self.addb(a, c.op, None, f(cv(b)) - 1) if not neg else self.addb(a, c.op, f(cv(b)), None)
                if b.op == 'v' and isc(a): self.addb(b, c.op, f(cv(a)) + 1, None) if not neg else self.addb(b, c.op, None, f(cv(a)))
    def addb(self, v, k, lo, hi):
        l, h = self.refine.get((v.id, k), (None, None))
        if lo is not None and (l is None or lo > l): l = lo
        if hi is not None and (h is None or hi < h): h = hi
        self.refine[(v.id, k)] = (l, h)
    def fresh(self, base, sort):
        self.fresh_n += 1
        n = '%s!%d' % (base, self.fresh_n)
        return {'R': z3.Real, 'I': z3.Int, 'B': z3.Bool}[sort](n)
    # -------- generic
    def enc(self, t):
        c = self.cache
        if t.id in c: return c[t.id]
        st = [t]
        while st:
            x = st[-1]
            if x.id in c: st.pop(); continue
            if x.op == 'select':
                todo = self.seldeps(x)
            else: todo = [a for a in x.args if type(a) is T and a.id not in c and a.sort != 'A']
            todo = [a for a in todo if a.id not in c]
            if todo: st.extend(todo); continue
            c[x.id] = self.e1(x); st.pop()
        return c[t.id]
    def seldeps(self, x):
        out = [x.args[1]]
        st = [x.args[0]]; seen = set()
        while st:
            a = st.pop()
            if a.id in seen: continue
            seen.add(a.id)
            for y in a.args:
                if type(y) is T:
                    if y.sort == 'A': st.append(y)
                    else: out.append(y)
        return out
    def e1(self, x):
        s = x.sort
        if s == 'R': return self.real(x)
        if s == 'B': return self.boolean(x)
        return self.bv(x) if self.mode == 'bv' else self.bvint(x)
    # -------- booleans
    def boolean(self, x):
        o = x.op; c = self.cache
        if o == 'c': return z3.BoolVal(x.args[0])
        if o == 'v':
            v = z3.Bool(x.args[0]); self.vars[x.args[0]] = (v, x); return v
        if o == 'not': return z3.Not(c[x.args[0].id])
        if o == 'and': return z3.And(c[x.args[0].id], c[x.args[1].id])
        if o == '<': return c[x.args[0].id] < c[x.args[1].id]
        if o == 'r=': return c[x.args[0].id] == c[x.args[1].id]
        a, b = x.args[-2], x.args[-1]
        w = a.sort
        if self.mode == 'bv':
            A, B = c[a.id], c[b.id]
            if o == '=': return A == B
            if o == 'ult': return z3.ULT(A, B)
            if o == 'slt': return A < B
            if o == 'ovf':
                k = x.args[0]; W = 2 * w if k == 'mul' else w + 1
                A, B = z3.SignExt(W - w, A), z3.SignExt(W - w, B)
                r = A + B if k == 'add' else A - B if k == 'sub' else A * B
                lim = 1 << (w - 1)
                return z3.Or(r >= z3.BitVecVal(lim, W), r < z3.BitVecVal(-lim, W))
        else:
            if o == '=':
                A, B = c[a.id], c[b.id]
                M = 1 << w
                if max(A[2], B[2]) - min(A[1], B[1]) < M: return A[0] == B[0]
                if self.issig(A, w) or self.issig(B, w): return self.S(a) == self.S(b)
                return self.U(a) == self.U(b)
            if o == 'ult': return self.U(a) < self.U(b)
            if o == 'slt': return self.S(a) < self.S(b)
            if o == 'ovf':
                k = x.args[0]; A, B = self.S(a), self.S(b)
                r = A + B if k == 'add' else A - B if k == 'sub' else A * B
                lim = 1 << (w - 1)
                return z3.Or(r >= lim, r < -lim)
        raise NotImplementedError(o)
    # -------- integers as mathematical integers: (expr, lo, hi), expr == value mod 2^w
    def issig(self, e, w): return e[1] >= -(1 << (w - 1)) and e[2] < (1 << (w - 1))
    def isuns(self, e, w): return e[1] >= 0 and e[2] < (1 << w)
    def U(self, t):
        e = self.cache[t.id]; w = t.sort
        if self.isuns(e, w): return e[0]
        return self.memo('U', t, lambda: self.wrap(e, w, 0)[0])
    def S(self, t):
        e = self.cache[t.id]; w = t.sort
        if self.issig(e, w): return e[0]
        return self.memo('S', t, lambda: self.wrap(e, w, -(1 << (w - 1)))[0])
    def Ub(self, t):
        e = self.cache[t.id]; w = t.sort
        return (e[1], e[2]) if self.isuns(e, w) else (0, (1 << w) - 1)
    def Sb(self, t):
        e = self.cache[t.id]; w = t.sort
        return (e[1], e[2]) if self.issig(e, w) else (-(1 << (w - 1)), (1 << (w - 1)) - 1)
    def memo(self, k, t, f):
        r = self.cache.get((k, t.id))
        if r is None: r = self.cache[(k, t.id)] = f()
        return r
    def wrap(self, e, w, base):
        """representative in [base, base+2^w)"""
        x, lo, hi = e; M = 1 << w
        klo = (lo - base) // M; khi = (hi - base) // M
        if klo == khi: return (x - klo * M if klo else x), lo - klo * M, hi - klo * M
        if khi - klo <= 2:
            r = x - khi * M if khi else x
            for k in range(khi - 1, klo - 1, -1):
                r = z3.If(x < base + (k + 1) * M, x - k * M if k else x, r)
            return r, base, base + M - 1
        if base == 0: return x % M, 0, M - 1
        return (x - base) % M + base, base, base + M - 1
    def bvint(self, x):
        o = x.op; c = self.cache; w = x.sort; M = 1 << w
        if o == 'c':
            v = x.args[0]
            if v >= M // 2 and (self.sgnuse.get(x.id, 0) >= 0): v -= M
            return z3.IntVal(v), v, v
        if o == 'v':
            v = z3.Int(x.args[0]); self.vars[x.args[0]] = (v, x); self.hasint = True
            sl, sh = self.refine.get((x.id, 'slt'), (None, None)); ul, uh = self.refine.get((x.id, 'ult'), (None, None))
            if ul is not None or uh is not None: signed = False
            if (ul is not None or uh is not None) and not (sl is not None or sh is not None): signed = False
            elif sl is not None or sh is not None: signed = True
            else: signed = self.sgnuse.get(x.id, 0) > 0
            lo, hi = (-(M // 2), M // 2 - 1) if signed else (0, M - 1)
            l, h = (sl, sh) if signed else (ul, uh)
            if l is not None: lo = max(lo, l)
            if h is not None: hi = min(hi, h)
            if lo > hi: lo, hi = hi, lo; self.ax.append(z3.BoolVal(False))
            self.ax.append(v >= lo); self.ax.append(v <= hi)
            return v, lo, hi
        a = x.args[0]; b = x.args[1] if len(x.args) > 1 else None
        if o == 'ite':
            A, B = c[x.args[1].id], c[x.args[2].id]
            return z3.If(c[a.id], A[0], B[0]), min(A[1], B[1]), max(A[2], B[2])
        if o in ('add', 'sub', 'mul'):
            nsw = x.args[2]
            if nsw:
                A, B = self.S(a), self.S(b); (al, ah), (bl, bh) = self.Sb(a), self.Sb(b)
            else:
                A, al, ah = c[a.id]; B, bl, bh = c[b.id]
            if o == 'add': r = (A + B, al + bl, ah + bh)
            elif o == 'sub': r = (A - B, al - bh, ah - bl)
            else:
                p = [al * bl, al * bh, ah * bl, ah * bh]; r = (A * B, min(p), max(p))
            if nsw: r = (r[0], max(r[1], -(M // 2)), min(r[2], M // 2 - 1)); r = (r[0], min(r[1], r[2]), r[2])
            elif r[2] - r[1] > (M << 40): r = self.wrap(r, w, 0)
            return r
        if o in ('udiv', 'urem'):
            A, B = self.U(a), self.U(b); al, ah = self.Ub(a); bl, bh = self.Ub(b)
            if o == 'udiv': return A / B, (al // bh if bh else 0), (ah // bl if bl > 0 else ah)
            return A % B, 0, max(0, min(ah, bh - 1))
        if o in ('sdiv', 'srem'):
            A, B = self.S(a), self.S(b); al, ah = self.Sb(a); bl, bh = self.Sb(b)
            if al >= 0 and bl > 0:
                if o == 'sdiv': return A / B, al // bh, ah // bl
                return A % B, 0, min(ah, bh - 1)
            absA = z3.If(A < 0, -A, A); absB = z3.If(B < 0, -B, B) if bl < 0 else B
            q = absA / absB
            neg = (A < 0) if bl > 0 else z3.Xor(A < 0, B < 0)
            q = z3.If(neg, -q, q); m = max(abs(al), abs(ah))
            if o == 'sdiv':
                if bl > 0: return q, -((-al) // bl if al < 0 else 0), (ah // bl if ah >= 0 else 0)
                return q, -m, m
            return A - q * B, (-m if al < 0 else 0), (m if ah > 0 else 0)
        if o == 'zext':
            return (self.U(a),) + self.Ub(a)
        if o == 'sext':
            return (self.S(a),) + self.Sb(a)
        if o == 'trunc':
            e = c[a.id]
            if e[2] - e[1] > (M << 8): return self.wrap(e, w, 0)
            return e
        if o == 'shl' and isc(b):
            k = cv(b); A, al, ah = c[a.id]
            r = (A * (1 << k), al << k, ah << k)
            if r[2] - r[1] > (M << 40): r = self.wrap(r, w, 0)
            return r
        if o == 'lshr' and isc(b):
            k = cv(b); al, ah = self.Ub(a)
            return self.U(a) / (1 << k), al >> k, ah >> k
        if o == 'ashr' and isc(b):
            k = cv(b); al, ah = self.Sb(a)
            return self.S(a) / (1 << k), al >> k, ah >> k
        if o == 'and' and isc(b):
            m = cv(b)
            if m & (m + 1) == 0:      # low mask
                al, ah = self.Ub(a)
                if ah <= m: return self.U(a), al, ah
                e = c[a.id]
                return e[0] % (m + 1), 0, m
            lowz = (m & -m)
            hi = m // lowz
            if hi & (hi + 1) == 0 and True:   # contiguous mask
                A = self.U(a)
                return ((A / lowz) % (hi + 1)) * lowz, 0, m
        if o == 'or':
            # disjoint bits?
            za, zb = self.zeros(a), self.zeros(b)
            if za | zb == M - 1:
                al, ah = self.Ub(a); bl, bh = self.Ub(b)
                return self.U(a) + self.U(b), al + bl, min(ah + bh, M - 1)
        if o == 'xor' and isc(b) and cv(b) == M - 1:
            A = self.U(a); return (M - 1) - A, 0, M - 1
        if o in ('and', 'or', 'xor', 'shl', 'lshr', 'ashr'):
            self.usesbv = True
            A = z3.Int2BV(self.U(a), w); B = z3.Int2BV(self.U(b), w)
            r = {'and': lambda: A & B, 'or': lambda: A | B, 'xor': lambda: A ^ B, 'shl': lambda: A << B, 'lshr': lambda: z3.LShR(A, B), 'ashr': lambda: A >> B}[o]()
            return z3.BV2Int(r), 0, M - 1
        if o == 'r2i':
            k = self.truncint(c[a.id])
            return k, -(M // 2) if x.args[1] else 0, (M // 2 if x.args[1] else M) - 1
        if o == 'select':
            v = self.selint(x, w); return v, 0, M - 1
        if o == 'f2bits':
            v = self.fresh('f2bits', 'I'); self.ax += [v >= 0, v < M]; return v, 0, M - 1
        raise NotImplementedError(o)
    def zeros(self, t):
        """mask of bits known to be zero"""
        w = t.sort; M = (1 << w) - 1
        if isc(t): return M & ~cv(t)
        if t.op == 'zext': return (M & ~((1 << t.args[0].sort) - 1)) | self.zeros(t.args[0])
        if t.op == 'shl' and isc(t.args[1]): k = cv(t.args[1]); return ((self.zeros(t.args[0]) << k) | ((1 << k) - 1)) & M
        if t.op == 'lshr' and isc(t.args[1]): k = cv(t.args[1]); return (self.zeros(t.args[0]) >> k) | (M & ~(M >> k))
        if t.op == 'and' and isc(t.args[1]): return self.zeros(t.args[0]) | (M & ~cv(t.args[1]))
        if t.op == 'or': return self.zeros(t.args[0]) & self.zeros(t.args[1])
        if t.op == 'ite': return self.zeros(t.args[1]) & self.zeros(t.args[2])
        if t.op == 'trunc': return self.zeros(t.args[0]) & M
        return 0
    def truncint(self, x):
        self.hasint = True
        return z3.If(x >= 0, z3.ToInt(x), -z3.ToInt(-x))
    # -------- bit vectors
    def bv(self, x):
        o = x.op; c = self.cache; w = x.sort
        if o == 'c': return z3.BitVecVal(x.args[0], w)
        if o == 'v':
            v = z3.BitVec(x.args[0], w); self.vars[x.args[0]] = (v, x); return v
        if o == 'ite': return z3.If(c[x.args[0].id], c[x.args[1].id], c[x.args[2].id])
        if o == 'zext': return z3.ZeroExt(w - x.args[0].sort, c[x.args[0].id])
        if o == 'sext': return z3.SignExt(w - x.args[0].sort, c[x.args[0].id])
        if o == 'trunc': return z3.Extract(w - 1, 0, c[x.args[0].id])
        if o == 'select': return self.selbv(x)
        if o in ('r2i',):
            k = self.truncint(c[x.args[0].id]); return z3.Int2BV(k, w)
        if o == 'f2bits':
            self.fresh_n += 1; return z3.BitVec('f2bits!%d' % self.fresh_n, w)
        A, B = c[x.args[0].id], c[x.args[1].id]
        return {'add': lambda: A + B, 'sub': lambda: A - B, 'mul': lambda: A * B, 'udiv': lambda: z3.UDiv(A, B), 'urem': lambda: z3.URem(A, B),
                'sdiv': lambda: A / B, 'srem': lambda: z3.SRem(A, B), 'and': lambda: A & B, 'or': lambda: A | B, 'xor': lambda: A ^ B,
                'shl': lambda: A << B, 'lshr': lambda: z3.LShR(A, B), 'ashr': lambda: A >> B}[o]()
    # -------- arrays: base arrays are uninterpreted functions of the index
    def base(self, a, sort):
        nm, es = a.args
        if self.mode == 'bv':
            f = z3.Function('arr!' + nm, z3.BitVecSort(64), z3.RealSort() if es == 'R' else z3.BitVecSort(es))
        else: f = z3.Function('arr!' + nm, z3.IntSort(), z3.RealSort() if es == 'R' else z3.IntSort())
        return f
    def selgen(self, x, idx, leafconv):
        """select over the array term, with z3-level indices"""
        bvm = self.mode == 'bv'
        def get(t): return self.cache[t.id] if bvm else self.U(t)
        W = 1 << 64
        memo = {}
        def go(a, i, ikey):
            k = (a.id, ikey)
            if k in memo: return memo[k]
            if a.op == 'store':
                r = z3.If(get(a.args[1]) == i, leafconv(a.args[2]), go(a.args[0], i, ikey))
            elif a.op == 'afill': r = leafconv(a.args[0])
            elif a.op == 'ite': r = z3.If(self.cache[a.args[0].id], go(a.args[1], i, ikey), go(a.args[2], i, ikey))
            elif a.op in ('acopy', 'afillr'):
                if a.op == 'acopy': dst, di, src, si, n = a.args
                else: dst, di, n, v = a.args
                D = get(di); N = get(n)
                if bvm: cond = z3.ULT(i - D, N); j = (lambda: i - D + get(si))
                else: cond = z3.And(i >= D, i < D + N); j = (lambda: i - D + get(si))
                if a.op == 'acopy': r = z3.If(cond, go(src, j(), (ikey, a.id)), go(dst, i, ikey))
                else: r = z3.If(cond, leafconv(v), go(dst, i, ikey))
            elif a.op == 'avar':
                f = self.base(a, None); r = f(i)
                if not bvm and a.args[1] != 'R': self.ax += [r >= 0, r < (1 << a.args[1])]
            else: raise NotImplementedError(a.op)
            memo[k] = r
            return r
        return go(x.args[0], idx, x.args[1].id)
    def selbv(self, x): return self.selgen(x, self.cache[x.args[1].id], lambda t: self.cache[t.id])
    def selint(self, x, w): return self.selgen(x, self.U(x.args[1]), lambda t: self.U(t))
    # -------- reals
    def real(self, x):
        o = x.op; c = self.cache
        if o == 'c': return rv(x.args[0])
        if o == 'v':
            v = z3.Real(x.args[0]); self.vars[x.args[0]] = (v, x); return v
        if o == '+': return c[x.args[0].id] + c[x.args[1].id]
        if o == '*': return c[x.args[0].id] * c[x.args[1].id]
        if o == '/':
            # a/b as a fresh q with q*b = a (b != 0)
            A, B = c[x.args[0].id], c[x.args[1].id]
            if isc(x.args[1]): return A / B
            q = self.fresh('q', 'R')
            self.ax.append(z3.Implies(B != 0, q * B == A))
            self.defs = getattr(self, 'defs', []) + [(q, x)]
            return q
        if o == 'ite': return z3.If(c[x.args[0].id], c[x.args[1].id], c[x.args[2].id])
        if o == 'i2r':
            a = x.args[0]
            if self.mode == 'bv':
                self.hasint = True
                return z3.ToReal(z3.BV2Int(c[a.id], is_signed=bool(x.args[1])))
            self.hasint = True
            return z3.ToReal(self.S(a) if x.args[1] else self.U(a))
        if o == 'select': return self.selgen(x, (self.cache[x.args[1].id] if self.mode == 'bv' else self.U(x.args[1])), lambda t: self.cache[t.id])
        if o == 'floor':
            self.hasint = True
            k = self.fresh('fl', 'I'); a = c[x.args[0].id]
            self.ax += [z3.ToReal(k) <= a, a < z3.ToReal(k) + 1]
            self.ack('floor', [a], z3.ToReal(k)); return z3.ToReal(k)
        if o == 'sqrt':
            y = self.fresh('sqrt', 'R'); a = c[x.args[0].id]
            self.ax += [z3.Implies(a >= 0, z3.And(y >= 0, y * y == a))]
            self.ack('sqrt', [a], y); return y
        if o == 'uf':
            y = self.fresh('uf_' + x.args[0], 'R')
            self.ack('uf:' + x.args[0], [c[a.id] for a in x.args[1:]], y); return y
        if o in TRANS:
            y = self.fresh(o, 'R'); a = [c[t.id] if type(t) is T and t.sort != 'A' else None for t in x.args]
            self.trans.add(o)
            ax = self.ax
            if o in ('sin', 'cos'):
                ax += [y <= 1, y >= -1]
                key = ('trig', x.args[0].id)
                oth = self.cache.get((key, 'cos' if o == 'sin' else 'sin'))
                if oth is not None: ax.append(oth * oth + y * y == 1)
                self.cache[(key, o)] = y
                if o == 'sin': ax += [z3.Implies(z3.And(a[0] > 0, a[0] < rv(PI_LO)), y > 0), z3.Implies(a[0] == 0, y == 0), z3.Implies(z3.And(a[0] < 0, a[0] > -rv(PI_LO)), y < 0),
                                      z3.Implies(z3.And(a[0] > 0), y <= a[0]), z3.Implies(z3.And(a[0] < 0), y >= a[0])]
                else: ax += [z3.Implies(z3.And(a[0] > -rv(PI_LO / 2), a[0] < rv(PI_LO / 2)), y > 0), z3.Implies(a[0] == 0, y == 1),
                             z3.Implies(z3.And(a[0] > rv(PI_HI / 2), a[0] < rv(PI_LO * 3 / 2)), y < 0), 2 * y >= 2 - a[0] * a[0]]
            elif o == 'asin': ax += [y <= rv(PI_HI / 2), y >= -rv(PI_HI / 2), z3.Implies(a[0] > 0, y > 0), z3.Implies(a[0] < 0, y < 0), z3.Implies(a[0] == 0, y == 0), z3.Implies(a[0] < 1, y < rv(PI_LO / 2)) if False else z3.BoolVal(True)]
            elif o == 'acos': ax += [y <= rv(PI_HI), y >= 0, z3.Implies(a[0] < 1, y > 0), z3.Implies(a[0] > 0, y < rv(PI_HI / 2)), z3.Implies(a[0] == 1, y == 0)]
            elif o == 'atan': ax += [y < rv(PI_HI / 2), y > -rv(PI_HI / 2), z3.Implies(a[0] > 0, y > 0), z3.Implies(a[0] < 0, y < 0), z3.Implies(a[0] == 0, y == 0)]
            elif o == 'atan2': ax += [y <= rv(PI_HI), y >= -rv(PI_HI), z3.Implies(a[0] > 0, y > 0), z3.Implies(a[0] < 0, y < 0),
                                      z3.Implies(a[1] > 0, z3.And(y < rv(PI_HI / 2), y > -rv(PI_HI / 2))), z3.Implies(z3.And(a[0] == 0, a[1] > 0), y == 0), z3.Implies(z3.And(a[1] < 0, a[0] >= 0), y > rv(PI_LO / 2)), z3.Implies(z3.And(a[1] < 0, a[0] < 0), y < -rv(PI_LO / 2))]
            elif o == 'exp': ax += [y > 0, z3.Implies(a[0] >= 0, y >= 1 + a[0]), z3.Implies(a[0] < 0, y < 1), y >= 1 + a[0]]
            elif o == 'log': ax += [z3.Implies(a[0] > 1, y > 0), z3.Implies(z3.And(a[0] > 0, a[0] < 1), y < 0), z3.Implies(a[0] > 0, y <= a[0] - 1)]
            elif o == 'log10': ax += [z3.Implies(a[0] > 1, y > 0), z3.Implies(z3.And(a[0] > 0, a[0] < 1), y < 0)]
            elif o == 'pow': ax += [z3.Implies(a[0] > 0, y > 0), z3.Implies(z3.And(a[0] > 1, a[1] > 0), y > 1), z3.Implies(z3.And(a[0] > 0, a[0] < 1, a[1] > 0), y < 1), z3.Implies(z3.And(a[0] == 0, a[1] > 0), y == 0), z3.Implies(a[0] == 1, y == 1)]
            elif o == 'cbrt': ax += [y * y * y == a[0], z3.Implies(a[0] > 0, y > 0)]
            elif o == 'f32':
                e = rv(Fraction(1, 1 << 24)); tiny = rv(Fraction(1, 1 << 149))
                ab = z3.If(a[0] < 0, -a[0], a[0])
                ax += [y - a[0] <= ab * e + tiny, a[0] - y <= ab * e + tiny, z3.Implies(a[0] >= 0, y >= 0), z3.Implies(a[0] <= 0, y <= 0)]
            elif o == 'cosh': ax += [y >= 1]
            elif o == 'tanh': ax += [y < 1, y > -1]
            elif o == 'tan': pass
            self.ack(o, [q for q in a if q is not None], y, mono={'exp': 1, 'log': 1, 'log10': 1, 'atan': 1, 'asin': 1, 'acos': -1, 'cbrt': 1, 'f32': 2}.get(o))
            return y
        raise NotImplementedError(o)
    def ack(self, nm, args, y, mono=None):
        L = self.funcs.setdefault(nm, [])
        if nm == 'sqrt': mono = 1
        for a2, y2 in L[-12:]:
            if len(a2) != len(args): continue
            self.ax.append(z3.Implies(z3.And([p == q for p, q in zip(args, a2)]) if args else z3.BoolVal(True), y == y2))
            if mono:
                p, q = args[0], a2[0]
                if mono == 1: self.ax += [z3.Implies(p < q, y < y2) if nm != 'sqrt' and nm != 'log' and nm != 'log10' else z3.Implies(z3.And(p < q, p > 0), y < y2), z3.Implies(q < p, y2 < y) if nm != 'sqrt' and nm != 'log' and nm != 'log10' else z3.Implies(z3.And(q < p, q > 0), y2 < y)]
                elif mono == -1: self.ax += [z3.Implies(p < q, y > y2), z3.Implies(q < p, y2 > y)]
                else: self.ax += [z3.Implies(p <= q, y <= y2), z3.Implies(q <= p, y2 <= y)]
        L.append((args, y))

def choose_mode(ts):
    mixed = False; bits = False; anybv = False; nl = False
    for x in subterms(ts).values():
        if x.op in ('i2r', 'r2i'): mixed = True
        if type(x.sort) is int: anybv = True
        if x.op in ('and', 'or', 'xor') and type(x.sort) is int: bits = True
        if x.op in ('udiv', 'urem', 'sdiv', 'srem', 'mul') and x.sort == 64: nl = True
    if not anybv: return ['int']
    if mixed: return ['int', 'bv'] if not bits else ['int', 'bv']
    if nl and not bits: return ['int', 'bv']
    return ['bv', 'int']

def mksolver(enc, timeout_ms):
    if not enc.hasint and enc.mode == 'int' and not enc.usesbv:
        s = z3.SolverFor('QF_NRA') if False else z3.Solver()
    else: s = z3.Solver()
    s.set('timeout', timeout_ms)
    return s

def model_env(enc, m):
    out = {}
    for nm, (v, t) in enc.vars.items():
        r = m.eval(v, model_completion=True)
        try:
            if t.sort == 'R':
                if z3.is_rational_value(r): out[nm] = Fraction(r.numerator_as_long(), r.denominator_as_long())
                else:
                    r = r.approx(20); out[nm] = Fraction(r.numerator_as_long(), r.denominator_as_long())
            elif t.sort == 'B': out[nm] = bool(z3.is_true(r))
            else: out[nm] = r.as_long() & ((1 << t.sort) - 1)
        except Exception: pass
    return out

def check_quick(pc, c, timeout_ms=250, simp=True):
    """feasibility of pc and c: 'sat' / 'unsat' / 'unknown' (in process, short timeouts; integer and bit-vector encodings)"""
    sl = slice_pc(pc, c)
    ts = sl + [c]
    modes = choose_mode(ts)
    for m in sorted(modes, key=lambda m: m != 'int') if len(modes) > 1 else modes:
        try:
            e = Enc(m, ts)
            fs = [e.enc(t) for t in ts]
            s = mksolver(e, timeout_ms)
            s.add(*e.ax); s.add(*fs)
            r = s.check()
        except (NotImplementedError, z3.Z3Exception): continue
        if r == z3.unsat: return 'unsat'
        if r == z3.sat and not e.trans: return 'sat'
    if not simp: return 'unknown'
    from . import polysimp
    try: q = polysimp.simplify(sl, c)
    except Exception: q = None
    if q is None: return 'unknown'
    if q[1] is FALSE or any(x is FALSE for x in q[0]): return 'unsat'
    r = check_quick(q[0], q[1], timeout_ms, False)
    return 'unsat' if r == 'unsat' else 'unknown'

def solve(pc, goal, timeout_ms, backend='z3', mode=None, tactic=None, full=False):
    """validity of pc => goal: ('proved', backend) / ('sat', env) / ('unknown', why)"""
    sl = list(pc) if full else slice_pc(pc, goal)
    ng = bnot(goal)
    ts = sl + [ng]
    m = mode or choose_mode(ts)[0]
    try:
        e = Enc(m, ts)
        fs = [e.enc(t) for t in ts]
    except NotImplementedError as ex:
        return ('unknown', 'unsupported term ' + str(ex))
    if tactic == 'nlsat' and not e.hasint and not e.usesbv: s = z3.Tactic('qfnra-nlsat').solver() if False else z3.TryFor(z3.Then('simplify', 'solve-eqs', 'elim-term-ite', 'purify-arith', 'tseitin-cnf', 'nlsat'), timeout_ms).solver()
    else: s = z3.Solver(); s.set('timeout', timeout_ms)
    s.add(*e.ax); s.add(*fs)
    if backend == 'cvc5':
        txt = s.to_smt2()
        with tempfile.NamedTemporaryFile('w', suffix='.smt2', delete=False) as f: f.write('(set-logic ALL)\n' + txt.replace('(set-info :status unknown)', '')); p = f.name
        try:
            r = subprocess.run(['cvc5', '--tlimit=%d' % timeout_ms, '--nl-ext-tplanes', p], capture_output=True, text=True, timeout=timeout_ms / 1000 + 5).stdout
        except Exception as ex:
            return ('unknown', str(ex))
        finally: os.unlink(p)
        if r.startswith('unsat'): return ('proved', 'cvc5')
        return ('unknown', 'cvc5: ' + r.split('\n')[0])
    try: r = s.check()
    except z3.Z3Exception as ex: return ('unknown', str(ex))
    if r == z3.unsat: return ('proved', 'z3')
    if r == z3.sat:
        try: return ('sat', model_env(e, s.model()), sorted(e.trans))
        except z3.Z3Exception: return ('unknown', 'model')
    return ('unknown', 'z3: ' + s.reason_unknown())
