"""Decision procedure for equalities over the reals: exact rational-function normal form modulo
   sqrt(x)^2 = x, sin^2 + cos^2 = 1, angle addition, and the equality hypotheses of the path condition.
A zero normal form (with all denominators proved non-zero) is a proof.
In 'literal' mode every coefficient carries the sum of the absolute values of its contributions, and a coefficient counts
as zero when it is below 1e-11 of that sum: decimal literals stand for the constants they round."""
from fractions import Fraction
import math
from .term import *
from . import term as TM

SH = 12
LITEPS = Fraction(1, 10 ** 11)

class TooBig(Exception): pass
class Fail(Exception): pass

class TC:
    """coefficient with magnitude bookkeeping (literal mode)"""
    __slots__ = ('v', 'a')
    def __init__(self, v, a): self.v = v; self.a = a
    def __add__(s, o):
        if type(o) is not TC: o = TC(o, abs(o))
        return TC(s.v + o.v, s.a + o.a)
    __radd__ = __add__
    def __mul__(s, o):
        if type(o) is not TC: o = TC(o, abs(o))
        return TC(s.v * o.v, s.a * o.a)
    __rmul__ = __mul__
    def __neg__(s): return TC(-s.v, s.a)
    def zero(s): return abs(s.v) <= LITEPS * s.a
def cz(c):
    return c.zero() if type(c) is TC else c == 0
def cval(c): return c.v if type(c) is TC else c
def inorm(c):
    if type(c) is Fraction and c.denominator == 1: return c.numerator
    return c

class Norm:
    def __init__(self, literal=False, limit=60000, isnonneg=None):
        self.literal = literal
        self.limit = limit
        self.atoms = []      # index -> term
        self.aidx = {}       # key -> index
        self.rules = {}      # index -> (power, poly)
        self.rc = {}
        self.byname = {}
        self.nz = {}         # key -> poly that must be non-zero
        self.angle = {}
        self.isnonneg = isnonneg
        self.ops = 0
        self.used = set()
        self.inexact = False
        self.absneeded = []
        self.pcsub = {}
        self.maxops = 25000000
    # ---- polynomials
    def const(self, v):
        v = inorm(Fraction(v))
        if v == 0: return {}
        if self.literal:
            # small rationals are exact; others are rounded literals
            return {0: TC(v, abs(v))}
        return {0: v}
    def padd(self, a, b):
        if len(a) < len(b): a, b = b, a
        r = dict(a)
        for m, c in b.items():
            x = r.get(m)
            if x is None: r[m] = c
            else:
                x = x + c
                if (x.v if type(x) is TC else x) == 0: del r[m]
                else: r[m] = x
        self.ops += len(b)
        if len(r) > self.limit: raise TooBig()
        return r
    def pneg(self, a): return {m: -c for m, c in a.items()}
    def pmul(self, a, b):
        if not a or not b: return {}
        if len(a) < len(b): a, b = b, a
        self.ops += len(a) * len(b)
        if len(a) * len(b) > 6000000 or self.ops > self.maxops: raise TooBig()
        r = {}
        if len(b) == 1:
            (m2, c2), = b.items()
            r = {m1 + m2: c1 * c2 for m1, c1 in a.items()}
        else:
            get = r.get
            for m2, c2 in b.items():
                for m1, c1 in a.items():
                    m = m1 + m2
                    x = get(m)
                    r[m] = c1 * c2 if x is None else x + c1 * c2
            for m in [m for m, c in r.items() if (c.v if type(c) is TC else c) == 0]: del r[m]
        if len(r) > self.limit: raise TooBig()
        return self.reduce(r)
    def deg(self, m, i): return (m >> (SH * i)) & ((1 << SH) - 1)
    def reduce(self, p):
        rules = self.rules
        if not rules: return p
        changed = True
        n = 0
        while changed:
            changed = False
            for i, (k, rhs) in rules.items():
                sh = SH * i; mask = (1 << SH) - 1
                hit = [m for m in p if (m >> sh) & mask >= k]
                if not hit: continue
                changed = True
                n += 1
                if n > 4000: raise TooBig()
                r = {m: c for m, c in p.items() if (m >> sh) & mask < k}
                groups = {}
                for m in hit:
                    d = (m >> sh) & mask
                    q, rem = divmod(d, k)
                    m0 = m - (d << sh) + (rem << sh)
                    groups.setdefault(q, {})
                    g = groups[q]
                    g[m0] = g[m0] + p[m] if m0 in g else p[m]
                for q, g in groups.items():
                    pw = self.rpow(i, q, rhs)
                    # raw multiply
                    self.ops += len(g) * len(pw)
                    if self.ops > self.maxops: raise TooBig()
                    for m1, c1 in g.items():
                        for m2, c2 in pw.items():
                            m = m1 + m2
                            x = r.get(m)
                            r[m] = c1 * c2 if x is None else x + c1 * c2
                p = {m: c for m, c in r.items() if type(c) is TC or c != 0}
                if len(p) > self.limit: raise TooBig()
        return p
    def rpow(self, i, q, rhs):
        key = ('rp', i, q)
        r = self.rc.get(key)
        if r is None:
            r = {0: 1}
            for _ in range(q):
                o = {}
                for m1, c1 in r.items():
                    for m2, c2 in rhs.items():
                        m = m1 + m2
                        o[m] = o[m] + c1 * c2 if m in o else c1 * c2
                r = o
            self.rc[key] = r
        return r
    def iszero(self, p): return all(cz(c) for c in p.values())
    def clean(self, p): return {m: c for m, c in p.items() if not cz(c)}
    # ---- atoms
    def atom(self, key, term):
        i = self.aidx.get(key)
        if i is None:
            i = len(self.atoms)
            self.atoms.append(term); self.aidx[key] = i
        return i
    def avarp(self, i): return {1 << (SH * i): 1}
    # ---- rational functions: (num, {fkey: (poly, exp)})
    def fkey(self, p):
        """normalise a polynomial factor: returns (scalar, monomial factors, key, poly)"""
        p = self.clean(p)
        if not p: raise Fail('zero denominator')
        # monomial content
        mc = None
        for m in p:
            mc = m if mc is None else self.mgcd(mc, m)
        if mc: p = {m - mc: c for m, c in p.items()}
        lead = max(p)
        l = cval(p[lead])
        if type(l) is not Fraction: l = Fraction(l)
        q = {m: inorm(Fraction(cval(c)) / l) for m, c in p.items()}
        if self.literal:
            key = tuple(sorted((m, float('%.9e' % float(c))) for m, c in q.items()))
            q = {m: TC(Fraction(c), abs(Fraction(c))) for m, c in q.items()}
        else: key = tuple(sorted(q.items()))
        return l, mc, key, q
    def mgcd(self, a, b):
        r = 0; i = 0
        mask = (1 << SH) - 1
        while a and b:
            x, y = a & mask, b & mask
            r |= min(x, y) << (SH * i)
            a >>= SH; b >>= SH; i += 1
        return r
    def dadd(self, D, p, e=1):
        """multiply denominator D by p^e; returns (scalar to divide numerator by, new D)"""
        l, mc, key, q = self.fkey(p)
        D = dict(D)
        i = 0; m = mc; mask = (1 << SH) - 1
        while m:
            x = m & mask
            if x:
                ap = self.avarp(i); k = ('a', i)
                D[k] = (ap, D.get(k, (ap, 0))[1] + x * e)
                self.nz[k] = ap
            m >>= SH; i += 1
        if not (len(q) == 1 and 0 in q):
            D[key] = (q, D.get(key, (q, 0))[1] + e)
            self.nz[key] = q
        return l, D
    def dmul(self, N, A, B):
        D = dict(A)
        for k, (p, e) in B.items():
            D[k] = (p, D.get(k, (p, 0))[1] + e)
        return self.cancel(N, D)
    def cancel(self, N, D):
        # cancel atom factors dividing every monomial
        if not N: return N, {}
        for k in list(D):
            if k[0] == 'a' if isinstance(k, tuple) and k and isinstance(k[0], str) else False:
                i = k[1]; sh = SH * i; mask = (1 << SH) - 1
                mn = min((m >> sh) & mask for m in N)
                p, e = D[k]
                c = min(mn, e)
                if c:
                    N = {m - (c << sh): x for m, x in N.items()}
                    if e == c: del D[k]
                    else: D[k] = (p, e - c)
        return N, D
    def mdivides(self, a, b):
        mask = (1 << SH) - 1
        while a:
            if (a & mask) > (b & mask): return False
            a >>= SH; b >>= SH
        return True
    def pdivexact(self, N, p):
        """N / p when the division is exact, else None (exact mode)"""
        if self.literal or len(p) > 60 or len(N) > 4000: return None
        lp = max(p); lc = Fraction(p[lp]); q = {}; N = dict(N); steps = 0
        rest = [(m, c) for m, c in p.items() if m != lp]
        while N:
            m = max(N); c = N.pop(m)
            if not self.mdivides(lp, m): return None
            k = inorm(Fraction(c) / lc); d = m - lp; q[d] = k
            steps += len(p)
            if steps > 200000: return None
            for m2, c2 in rest:
                mm = m2 + d; x = inorm(Fraction(N.get(mm, 0) - c2 * k))
                if x == 0: N.pop(mm, None)
                else: N[mm] = x
        self.ops += steps
        return q
    def cancelpoly(self, N, D):
        if not N or self.literal: return N, D
        for k in list(D):
            p, e = D[k]
            if len(p) < 2: continue
            while e:
                q = self.pdivexact(N, p)
                if q is None: break
                N = q; e -= 1
            if e != D[k][1]:
                D = dict(D)
                if e: D[k] = (p, e)
                else: del D[k]
        return N, D
    def psqrt(self, N):
        """polynomial square root of N (leading coefficient 1), or None"""
        if self.literal or len(N) > 600: return None
        mask = (1 << SH) - 1
        def half(m):
            r = 0; i = 0
            while m:
                x = m & mask
                if x & 1: return None
                r |= (x // 2) << (SH * i); m >>= SH; i += 1
            return r
        lm = max(N); c0 = TM._isqrt_frac(Fraction(N[lm]))
        h = half(lm)
        if c0 is None or h is None: return None
        q = {h: inorm(Fraction(c0))}; R = dict(N); del R[lm]; n = 0
        while R:
            m = max(R)
            if not self.mdivides(h, m): return None
            d = m - h
            if d >= h or d in q: return None
            k = inorm(Fraction(R[m]) / (2 * Fraction(c0)))
            # subtract 2 k x^d q + k^2 x^(2d)
            for m2, c2 in list(q.items()) + [(d, k / 2 if type(k) is Fraction else Fraction(k, 2))]:
                mm = m2 + d; x = inorm(Fraction(R.get(mm, 0) - 2 * k * c2))
                if x == 0: R.pop(mm, None)
                else: R[mm] = x
            q[d] = k; n += 1
            if n > 60: return None
        return q
    def psqrt_mod(self, N):
        """polynomial square root modulo the rules x_i^2 = c0 + c1 x_j^2 (applied in either direction)"""
        q = self.psqrt(N)
        if q is not None or self.literal or len(N) > 200: return q
        mask = (1 << SH) - 1; fl = []
        for i, (k, rhs) in self.rules.items():
            if k != 2 or len(rhs) > 2: continue
            js = [m for m in rhs if m]
            if len(js) != 1: continue
            m = js[0]; j = (m.bit_length() - 1) // SH
            if m != 2 << (SH * j): continue
            if any((x >> (SH * j)) & mask >= 2 for x in N): fl.append((i, j, Fraction(rhs.get(0, 0)), Fraction(rhs[m])))
        fl.sort(key=lambda x: self.atoms[x[0]].op == 'sqrt')
        for sub in range(1, 1 << min(len(fl), 5)):
            P = dict(N); ok = True
            for b, (i, j, c0, c1) in enumerate(fl[:5]):
                if not sub >> b & 1: continue
                # x_j^2 = (x_i^2 - c0) / c1
                rep = {2 << (SH * i): inorm(1 / c1), 0: inorm(-c0 / c1)}
                while True:
                    hit = [m for m in P if (m >> (SH * j)) & mask >= 2]
                    if not hit: break
                    r = {m: c for m, c in P.items() if (m >> (SH * j)) & mask < 2}
                    for m in hit:
                        m0 = m - (2 << (SH * j))
                        for m2, c2 in rep.items():
                            mm = m0 + m2; x = inorm(Fraction(r.get(mm, 0) + P[m] * c2))
                            if x == 0: r.pop(mm, None)
                            else: r[mm] = x
                    P = r
                    if len(P) > 600: ok = False; break
                if not ok: break
            if not ok or not P: continue
            q = self.psqrt(P)
            if q is not None: return self.reduce(q)
        return None
    def ppow(self, p, e):
        r = {0: 1}
        for _ in range(e): r = self.pmul(r, p)
        return r
    def radd(self, a, b):
        (N1, D1), (N2, D2) = a, b
        if not N1: return b
        if not N2: return a
        if not D1 and not D2: return self.padd(N1, N2), {}
        D = dict(D1)
        for k, (p, e) in D2.items():
            if k not in D or D[k][1] < e: D[k] = (p, e)
        for k, (p, e) in D.items():
            e1 = D1.get(k, (p, 0))[1]; e2 = D2.get(k, (p, 0))[1]
            if e > e1: N1 = self.pmul(N1, self.ppow(p, e - e1))
            if e > e2: N2 = self.pmul(N2, self.ppow(p, e - e2))
        N = self.reduce(self.padd(N1, N2))
        return self.cancel(N, D)
    def rmul(self, a, b):
        (N1, D1), (N2, D2) = a, b
        if not N1 or not N2: return {}, {}
        # cancel factors of D against identical numerators
        for _ in range(2):
            if D2 and len(N1) > 1:
                l, mc, key, q = self.fkey(N1)
                if key in D2 and not mc:
                    p, e = D2[key]; D2 = dict(D2)
                    if e == 1: del D2[key]
                    else: D2[key] = (p, e - 1)
                    N1 = self.const(l)
            N1, D1, N2, D2 = N2, D2, N1, D1
        return self.dmul(self.pmul(N1, N2), D1, D2)
    def rinv(self, a):
        N, D = a
        if self.iszero(N): raise Fail('division by identically zero expression')
        l, Dn = self.dadd({}, N)
        num = self.const(1 / Fraction(l))
        for k, (p, e) in D.items(): num = self.pmul(num, self.ppow(p, e))
        return self.cancel(num, Dn)
    def same(self, a, b):
        (N1, D1), (N2, D2) = a, b
        d = self.radd(a, (self.pneg(N2), D2))
        return self.iszero(d[0])
    # ---- terms
    def rat(self, t):
        r = self.rc.get(t.id)
        if r is not None: return r
        st = [t]
        while st:
            x = st[-1]
            if x.id in self.rc: st.pop(); continue
            if x.op in ('+', '*', '/') or x.op in RFN:
                todo = [a for a in x.args if a.id not in self.rc]
                if todo: st.extend(todo); continue
            elif x.op == 'uf':
                todo = [a for a in x.args[1:] if a.id not in self.rc]
                if todo: st.extend(todo); continue
            self.rc[x.id] = self._rat(x)
            st.pop()
        return self.rc[t.id]
    def _rat(self, x):
        o = x.op
        if o == 'c': return self.const(x.args[0]), {}
        if o == '+': return self.radd(self.rat(x.args[0]), self.rat(x.args[1]))
        if o == '*': return self.rmul(self.rat(x.args[0]), self.rat(x.args[1]))
        if o == '/':
            return self.rmul(self.rat(x.args[0]), self.rinv(self.rat(x.args[1])))
        if o == 'v':
            return self.reduce(self.avarp(self.atom(('v', x.args[0]), x))), {}
        if o == 'i2r':
            a = x.args[0]
            if a.op == 'add' and a.args[2] and x.args[1]:
                return self.radd(self.rat(i2r(a.args[0], True)), self.rat(i2r(a.args[1], True)))
            if a.op == 'mul' and a.args[2] and x.args[1]:
                return self.rmul(self.rat(i2r(a.args[0], True)), self.rat(i2r(a.args[1], True)))
            return self.avarp(self.atom(('t', x.id), x)), {}
        if o == 'sqrt': return self.sqrt(self.rat(x.args[0]), x)
        if o in ('sin', 'cos'): return self.trig(o, x)
        if o in RFN or o == 'uf':
            nm = o if o != 'uf' else 'uf:' + x.args[0]
            args = [self.rat(a) for a in (x.args if o != 'uf' else x.args[1:])]
            sign = 1
            if o in ODD and args[0][0]:
                if self.leadneg(args[0][0]): args[0] = (self.pneg(args[0][0]), args[0][1]); sign = -1
            for i, old in self.byname.get(nm, []):
                if len(old) == len(args) and all(self.same(p, q) for p, q in zip(old, args)):
                    r = self.avarp(i); break
            else:
                tt = x
                if sign < 0: tt = fn(o, rneg(x.args[0]))
                i = self.atom(('t', tt.id), tt)
                self.byname.setdefault(nm, []).append((i, args)); r = self.avarp(i)
            return (self.pneg(r) if sign < 0 else r), {}
        return self.avarp(self.atom(('t', x.id), x)), {}
    def leadneg(self, p):
        p = self.clean(p)
        if not p: return False
        return cval(p[max(p)]) < 0
    def topoly_term(self, p):
        r = R0
        for m, c in p.items():
            t = R(Fraction(cval(c))); i = 0
            while m:
                e = m & ((1 << SH) - 1)
                for _ in range(e): t = rmul(t, self.atoms[i])
                m >>= SH; i += 1
            r = TM.radd(r, t)
        return r
    def sqrt(self, a, x):
        N, D = a
        if self.iszero(N): return {}, {}
        N, D = self.cancelpoly(N, D)
        out = ({0: 1}, {})
        # pull even powers out of the denominator, sign needs non-negativity of the factor
        rest = {}
        for k, (p, e) in D.items():
            h = (e + 1) // 2
            # sqrt(N/p^e) = sqrt(N * p^(2h-e)) / |p|^h
            if 2 * h - e: N = self.pmul(N, p)
            l, Dn = self.dadd({}, self.absp(p), h) if False else (1, {k: (p, h)})
            if h % 2 == 1 and not self.nonneg(p):
                ab = self.absatom(p)
                l, Dn = self.dadd({}, ab, h)
            out = self.rmul(out, (self.const(1 / Fraction(l) ** h), Dn))
        N = self.reduce(N)
        # rational square content
        NN = self.clean(N)
        if not NN: return {}, {}
        # monomial square content of non-negative atoms
        mc = None
        for m in NN: mc = m if mc is None else self.mgcd(mc, m)
        i = 0; mm = mc; mask = (1 << SH) - 1
        while mm:
            e = mm & mask
            h = e // 2
            if h:
                ap = self.avarp(i)
                NN = {m - ((2 * h) << (SH * i)): c for m, c in NN.items()}
                if h % 2 and not self.nonneg(ap): ap = self.absatom(ap)
                out = self.rmul(out, (self.ppow(ap, h), {}))
            mm >>= SH; i += 1
        lead = NN[max(NN)]
        l = abs(Fraction(cval(lead)))
        r = TM._isqrt_frac(l)
        if r is None:
            # scale so that the leading coefficient is square-free-ish: keep sqrt(l) when floats; use exact integer square part
            n, d = l.numerator, l.denominator
            r = Fraction(1)
            for pr in (2, 3, 5, 7, 10):
                while n % (pr * pr) == 0: n //= pr * pr; r *= pr
                while d % (pr * pr) == 0: d //= pr * pr; r /= pr
        if r != 1:
            s = 1 / (r * r)
            NN = {m: (c * inorm(s)) for m, c in NN.items()}
            NN = {m: (inorm(c) if type(c) is Fraction else c) for m, c in NN.items()}
            out = self.rmul(out, (self.const(r), {}))
        if len(NN) == 1 and 0 in NN and cval(NN[0]) == 1: return out
        if self.literal and len(NN) == 1 and 0 in NN and 0 < cval(NN[0]):
            # square root of a constant: to 40 digits (the literal tolerance is 1e-11)
            q = Fraction(cval(NN[0])); self.used.add('square roots of constants to 40 digits')
            return self.rmul(out, (self.const(Fraction(math.isqrt(q.numerator * q.denominator * 10 ** 80), q.denominator * 10 ** 40)), {}))
        if len(NN) == 1 and 0 in NN and type(NN[0]) in (int, Fraction):
            # sqrt of a rational constant: product of square roots of primes
            q = Fraction(NN[0]); k = q.numerator * q.denominator; cf = Fraction(1, q.denominator); pr = 2; ps = []
            if 0 < k < 10 ** 12:
                while pr * pr <= k and pr < 2000:
                    e = 0
                    while k % pr == 0: k //= pr; e += 1
                    cf *= pr ** (e // 2)
                    if e % 2: ps.append(pr)
                    pr += 1 if pr == 2 else 2
                if k > 1 and pr * pr > k: ps.append(k); k = 1
                if k == 1:
                    out = self.rmul(out, (self.const(cf), {}))
                    if len(ps) == 1 and cf == 1 and q == ps[0]: pass
                    else:
                        for s in ps: out = self.rmul(out, self.sqrt(({0: s}, {}), None))
                        return out
        if len(NN) > 1:
            q = self.psqrt_mod(NN)
            if q is not None:
                if not self.nonneg(q): q = self.absatom(q)
                return self.rmul(out, (q, {}))
        arg = (NN, {})
        # perfect square of a single known factor? (x^2 + ... ) handled through hypotheses only
        for i, old in self.byname.get('sqrt', []):
            if self.iszero(self.padd(old[0][0], self.pneg(NN))):
                return self.rmul(out, (self.avarp(i), {}))
        # constant multiple of a known radicand
        t = fn('sqrt', self.topoly_term(NN))
        if t.op == 'c': return self.rmul(out, (self.const(t.args[0]), {}))
        i = self.atom(('t', t.id), t)
        self.byname.setdefault('sqrt', []).append((i, [arg]))
        self.rules[i] = (2, NN)
        self.used.add('sqrt(x)^2 = x')
        return self.rmul(out, (self.avarp(i), {}))
    def nonneg(self, p):
        p = self.clean(p)
        # product/sum of non-negative atoms with non-negative coefficients
        if all(cval(c) > 0 and self.monononneg(m) for m, c in p.items()): return True
        if self.isnonneg is not None:
            return self.isnonneg(self.topoly_term(p))
        return False
    def monononneg(self, m):
        i = 0
        while m:
            e = m & ((1 << SH) - 1)
            if e % 2 and self.atoms[i].op not in ('sqrt', 'exp', 'fabs_'):
                if not (self.isnonneg and self.isnonneg(self.atoms[i])): return False
            m >>= SH; i += 1
        return True
    def absatom(self, p):
        t = self.topoly_term(p)
        neg = False
        if self.isnonneg is not None and self.isnonneg(rneg(t)): return self.pneg(p)
        if self.leadneg(p): p = self.pneg(p); t = self.topoly_term(p)
        x = mk('sqrt', (rmul(t, t),), 'R')
        i = self.atom(('abs', t.id), x)
        if i not in self.rules: self.rules[i] = (2, self.pmul(p, p))
        return self.avarp(i)
    # ---- trigonometry
    def reset_after_scan(self):
        self.rc = {}; self.nz = {}; self.byname.pop('trig', None)
    def scan_angles(self, ts):
        """collect trig arguments to choose base angles per monomial"""
        pend = {}
        for t in subterms(ts).values():
            if t.op in ('sin', 'cos'):
                try: N, D = self.rat(t.args[0])
                except Fail: continue
                if D: continue
                for m, c in N.items():
                    pend.setdefault(m, set()).add(abs(Fraction(cval(c))))
        for m, cs in pend.items():
            cs = [c for c in cs if c]
            if not cs: continue
            g = cs[0]
            for c in cs[1:]:
                g = Fraction(math.gcd(g.numerator * c.denominator, c.numerator * g.denominator), g.denominator * c.denominator)
            if all(c / g <= 6 for c in cs): self.angle[m] = g
    def trig(self, o, x):
        N, D = self.rat(x.args[0])
        if D: 
            return self.trigatom(o, x.args[0], (N, D))
        if any(m not in self.angle or (Fraction(cval(c)) / self.angle[m]).denominator != 1 or abs(Fraction(cval(c)) / self.angle[m]) > 12 for m, c in N.items()):
            return self.trigatom(o, x.args[0], (N, D))
        s, c = ({}, {}), (self.const(1), {})
        for m, k in sorted(N.items()):
            b = self.angle[m]; n = int(Fraction(cval(k)) / b)
            if m == 0:
                q = b / Fraction(math.pi) * 2
                qn = round(q * n)
                if abs(q * n - qn) < Fraction(1, 10 ** 11) * max(1, abs(qn)) and qn != 0:
                    self.used.add('literals within 1e-11 of a multiple of pi/2 denote that multiple')
                    cs, sn = [(1, 0), (0, 1), (-1, 0), (0, -1)][qn % 4]
                    s2, c2 = (self.const(sn), {}), (self.const(cs), {})
                    s, c = self.addang(s, c, s2, c2); continue
            bt = self.topoly_term({m: b})
            s1 = self.trigatom('sin', bt, None); c1 = self.trigatom('cos', bt, None)
            if n < 0: s1 = (self.pneg(s1[0]), s1[1]); n = -n
            for _ in range(n): s, c = self.addang(s, c, s1, c1)
        if len(N) > 1 or any(abs(Fraction(cval(k)) / self.angle[m]) != 1 for m, k in N.items()): self.used.add('angle addition for sin/cos')
        return s if o == 'sin' else c
    def addang(self, s, c, s1, c1):
        sn = self.radd(self.rmul(s, c1), self.rmul(c, s1))
        p = self.rmul(s, s1)
        cn = self.radd(self.rmul(c, c1), (self.pneg(p[0]), p[1]))
        return sn, cn
    def trigatom(self, o, argt, rat):
        if rat is None:
            t = fn(o, argt)
            if t.op not in ('sin', 'cos') and not (t.op == '*' and t.args[0].op == 'c'): return self.rat(t)
            rat = self.rat(argt)
        sign = 1
        if self.leadneg(rat[0]):
            rat = (self.pneg(rat[0]), rat[1]); argt = rneg(argt); sign = -1
        for i, j, old in self.byname.get('trig', []):
            if self.same(old, rat): break
        else:
            cterm = mk('cos', (argt,), 'R') if argt.op != 'c' else fn('cos', argt)
            sterm = mk('sin', (argt,), 'R')
            i = self.atom(('t', 'cos', argt.id), cterm); j = self.atom(('t', 'sin', argt.id), sterm)
            self.rules[j] = (2, {0: self.lit1(), 2 << (SH * i): -1})
            self.byname.setdefault('trig', []).append((i, j, rat))
            self.used.add('sin^2 + cos^2 = 1')
        if o == 'cos': return self.avarp(i), {}
        r = self.avarp(j)
        return (self.pneg(r) if sign < 0 else r), {}
    def lit1(self): return 1
    # ---- hypotheses
    def add_hyp(self, a, b):
        try: N, D = self.radd(self.rat(a), (self.pneg(self.rat(b)[0]), self.rat(b)[1]))
        except (Fail, TooBig): return
        N = self.clean(N)
        if not N: return
        best = None
        mask = (1 << SH) - 1
        for m, c in N.items():
            # single atom power
            i = 0; mm = m
            if m == 0: continue
            while mm and not (mm & mask): mm >>= SH; i += 1
            if mm >> SH: continue
            k = mm
            if i in self.rules and not (k == 1 and self.rules[i][0] == 2 and self.atoms[i].op == 'sin' and len(N) == 1): continue
            if self.atoms[i].op in ('sqrt', 'sin', 'cos') and k > 1: continue
            if any((x >> (SH * i)) & mask >= k for x in N if x != m): continue
            if k == 1 and any(x != m and (x >> (SH * i)) & mask for x in N): continue
            sc = (k, -i)
            if best is None or sc < best[0]: best = (sc, m, i, k)
        if best is None: return
        _, m, i, k = best
        c = Fraction(cval(N[m]))
        rhs = {x: (v * (-1 / c) if type(v) is TC else inorm(Fraction(v) * (-1 / c))) for x, v in N.items() if x != m}
        # avoid rules that mention higher atoms with rules that mention this atom (termination): require rhs free of i
        if any((x >> (SH * i)) & mask for x in rhs): return
        self.rules[i] = (k, rhs)
        self.rc = {k2: v for k2, v in self.rc.items() if isinstance(k2, tuple) is False and False}

def prove_eq(a, b, eqs, literal=False, isnonneg=None, limit=60000):
    """returns (proved?, nonzero side conditions as terms, notes)"""
    n = Norm(literal, limit, isnonneg)
    # angles first, then hypotheses (so that rules exist when the goal is normalised)
    n.scan_angles([a, b] + [t for e in eqs for t in e])
    n.reset_after_scan()
    for x, y in eqs: n.add_hyp(x, y)
    n.rc = {}
    n.nz = {}
    ra, rb = n.rat(a), n.rat(b)
    d = n.radd(ra, (n.pneg(rb[0]), rb[1]))
    N = n.reduce(d[0])
    ok = n.iszero(N)
    nz = [n.topoly_term(p) for p in n.nz.values()]
    return ok, nz, n.used, (n, N)
