"""Floating point evaluation of terms under a sample assignment (used only to steer path pruning and to find
counterexample candidates quickly; never to accept an obligation)."""
import math, random, hashlib
from .term import *

class Undef(Exception): pass

def _h(*a):
    return int.from_bytes(hashlib.blake2b(repr(a).encode(), digest_size=8).digest(), 'little')

class Env:
    """one sample: variable name -> value, drawn on demand from the sampler registered for the variable"""
    __slots__ = ('idx', 'vals', 'cache', 'samplers')
    def __init__(self, idx, samplers, vals=None):
        self.idx = idx; self.vals = dict(vals or {}); self.cache = {}; self.samplers = samplers
    def get(self, name, sort):
        v = self.vals.get(name)
        if v is None:
            s = self.samplers.get(name)
            rng = random.Random(_h(name, self.idx))
            if s is not None: v = s(self.idx, rng)
            elif sort == 'R': v = draw_real(rng)
            elif sort == 'B': v = rng.random() < 0.5
            else: v = draw_bv(rng, sort)
            self.vals[name] = v
        return v

def draw_real(rng):
    k = rng.random()
    if k < 0.45: return rng.gauss(0, 1)
    if k < 0.65: return rng.gauss(0, 10)
    if k < 0.75: return math.exp(rng.uniform(-7, 12)) * rng.choice((-1, 1))
    if k < 0.85: return float(rng.randint(-3, 3))
    if k < 0.90: return 0.0
    return rng.uniform(-1, 1)
def draw_range(rng, lo, hi):
    k = rng.random()
    if k < 0.06: return float(lo)
    if k < 0.12: return float(hi)
    if k < 0.16 and lo <= 0 <= hi: return 0.0
    if k < 0.30 and lo > 0 and hi / lo > 100: return math.exp(rng.uniform(math.log(lo), math.log(hi)))
    if k < 0.38:
        v = float(rng.randint(-3, 3))
        if lo <= v <= hi: return v
    return rng.uniform(lo, hi)
def draw_bv(rng, w):
    k = rng.random()
    if k < 0.3: return rng.randrange(0, min(1 << w, 8))
    if k < 0.4: return (1 << w) - 1 - rng.randrange(0, min(1 << w, 4))
    if k < 0.5: return (1 << (w - 1)) - rng.randrange(0, 2)
    if k < 0.7: return rng.randrange(0, min(1 << w, 1 << 10))
    return rng.randrange(0, 1 << w)
def draw_int(rng, lo, hi):
    k = rng.random()
    if k < 0.1: return lo
    if k < 0.2: return hi
    if k < 0.3: return min(hi, lo + 1)
    if k < 0.5: return min(hi, max(lo, rng.randint(-2, 10)))
    return rng.randint(lo, hi)

def ev(t, env):
    c = env.cache
    r = c.get(t.id, c)
    if r is not c: return r
    # iterative post-order to avoid deep recursion
    st = [t]
    while st:
        x = st[-1]
        if x.id in c: st.pop(); continue
        if x.op == 'ite':
            cc = c.get(x.args[0].id, c)
            if cc is c: st.append(x.args[0]); continue
            y = x.args[1] if cc else x.args[2]
            v = c.get(y.id, c)
            if v is c: st.append(y); continue
            c[x.id] = v; st.pop(); continue
        todo = [a for a in x.args if type(a) is T and a.id not in c and a.sort != 'A']
        if todo and x.op not in ('select',): st.extend(todo); continue
        if x.op == 'select':
            if x.args[1].id not in c: st.append(x.args[1]); continue
            c[x.id] = _sel(x.args[0], c[x.args[1].id], x.sort, env); st.pop(); continue
        try:
            c[x.id] = _ev1(x, [c[a.id] if type(a) is T and a.sort != 'A' else a for a in x.args], env)
        except (ZeroDivisionError, ValueError, OverflowError):
            c[x.id] = float('nan') if x.sort == 'R' else (False if x.sort == 'B' else 0)
        st.pop()
    return c[t.id]

def _sel(a, i, sort, env):
    while True:
        if a.op == 'store':
            if ev(a.args[1], env) == i: return ev(a.args[2], env)
            a = a.args[0]; continue
        if a.op == 'afill': return ev(a.args[0], env)
        if a.op == 'ite': a = a.args[1] if ev(a.args[0], env) else a.args[2]; continue
        if a.op == 'acopy':
            dst, di, src, si, n = a.args
            r = (i - ev(di, env)) & ((1 << 64) - 1)
            if r < ev(n, env): a = src; i = (r + ev(si, env)) & ((1 << 64) - 1)
            else: a = dst
            continue
        if a.op == 'afillr':
            dst, di, n, v = a.args
            if ((i - ev(di, env)) & ((1 << 64) - 1)) < ev(n, env): return ev(v, env)
            a = dst; continue
        nm = a.args[0] + '[%d]' % i
        return env.get(nm, sort)

def close(a, b, tol=1e-9):
    return abs(a - b) <= tol * max(1.0, abs(a), abs(b))

def _ev1(x, a, env):
    o = x.op; s = x.sort
    if o == 'c':
        v = x.args[0]
        return float(v) if s == 'R' else v
    if o == 'v': return env.get(x.args[0], s)
    if s == 'R':
        if o == '+': return a[0] + a[1]
        if o == '*': return a[0] * a[1]
        if o == '/': return a[0] / a[1]
        if o == 'i2r':
            w = x.args[0].sort
            return float(sgn(a[0], w) if a[1] else a[0])
        if o == 'floor': return float(math.floor(a[0]))
        if o == 'uf':
            h = _h(a[0])
            k = 0.0
            for i, v in enumerate(a[1:]): k += v * (0.37 + ((h >> (5 * i)) & 31) / 29.0)
            return math.sin(k + (h & 255)) + 0.3 * math.cos(1.7 * k) + 0.1 * k
        if o == 'cbrt': return math.copysign(abs(a[0]) ** (1 / 3), a[0])
        if o == 'f32':
            import struct
            return struct.unpack('f', struct.pack('f', a[0]))[0]
        if o in ('bits2f',): return 0.0
        return getattr(math, o)(*a)
    if s == 'B':
        if o == '<': return a[0] < a[1]
        if o == 'r=': return close(a[0], a[1])
        if o == 'not': return not a[0]
        if o == 'and': return a[0] and a[1]
        if o == '=': return a[0] == a[1]
        w = x.args[0].sort
        if o == 'ult': return a[0] < a[1]
        if o == 'slt': return sgn(a[0], w) < sgn(a[1], w)
        raise Undef(o)
    w = s; M = (1 << w) - 1
    if o == 'add': return (a[0] + a[1]) & M
    if o == 'sub': return (a[0] - a[1]) & M
    if o == 'mul': return (a[0] * a[1]) & M
    if o == 'and': return a[0] & a[1]
    if o == 'or': return a[0] | a[1]
    if o == 'xor': return a[0] ^ a[1]
    if o == 'shl': return (a[0] << a[1]) & M if a[1] < w else 0
    if o == 'lshr': return a[0] >> a[1] if a[1] < w else 0
    if o == 'ashr': return (sgn(a[0], w) >> min(a[1], w - 1)) & M
    if o == 'udiv': return a[0] // a[1]
    if o == 'urem': return a[0] % a[1]
    if o in ('sdiv', 'srem'):
        p, q = sgn(a[0], w), sgn(a[1], w)
        d = abs(p) // abs(q)
        if (p < 0) != (q < 0): d = -d
        return (d if o == 'sdiv' else p - d * q) & M
    if o == 'zext': return a[0]
    if o == 'sext': return sgn(a[0], x.args[0].sort) & M
    if o == 'trunc': return a[0] & M
    if o == 'r2i': return math.trunc(a[0]) & M
    if o == 'f2bits':
        import struct
        return struct.unpack('Q', struct.pack('d', a[0]))[0]
    raise Undef(o)
