"""Hash-consed terms of the verification conditions.
Sorts: 'R' (mathematical real), 'B' (bool), int n (bit vector of width n), 'A' (symbolic memory array).
"""
from fractions import Fraction
import math

class T:
    __slots__ = ('op', 'args', 'sort', 'id', 'hasR', '__weakref__')
    def __repr__(self):
        return show(self, 6)

_tab = {}
_cnt = [0]

def mk(op, args, sort):
    k = (op, sort) + tuple((a.id if type(a) is T else ('#', type(a).__name__, a)) for a in args)
    t = _tab.get(k)
    if t is None:
        t = T()
        t.op = op; t.args = args; t.sort = sort
        _cnt[0] += 1
        t.id = _cnt[0]
        _tab[k] = t
    return t

def show(t, d=4):
    if type(t) is not T: return str(t)
    if t.op == 'c':
        v = t.args[0]
        if isinstance(v, Fraction):
            return str(v) if v.denominator < 10000 else '%.17g' % float(v)
        return str(v)
    if t.op == 'v': return t.args[0]
    if d == 0: return '..'
    return '(' + t.op + ' ' + ' '.join(show(a, d - 1) for a in t.args) + ')'

# ---------------------------------------------------------------- constants
def R(v): return mk('c', (Fraction(v),), 'R')
TRUE = mk('c', (True,), 'B')
FALSE = mk('c', (False,), 'B')
R0 = R(0); R1 = R(1); RM1 = R(-1)
def Bc(v): return TRUE if v else FALSE
_bvc = {}
def BV(v, w):
    v &= (1 << w) - 1
    k = (v, w)
    t = _bvc.get(k)
    if t is None:
        t = _bvc[k] = mk('c', (v,), w)
    return t
def isc(t): return t.op == 'c'
def cv(t): return t.args[0]
def sgn(v, w): return v - (1 << w) if v >> (w - 1) else v
def var(name, sort, lo=None, hi=None): return mk('v', (name, lo, hi), sort)

# ---------------------------------------------------------------- reals
def radd(a, b):
    if a.op == 'c':
        if b.op == 'c': return R(a.args[0] + b.args[0])
        if a.args[0] == 0: return b
    elif b.op == 'c' and b.args[0] == 0: return a
    return mk('+', (a, b), 'R')
def rneg(a):
    if a.op == 'c': return R(-a.args[0])
    if a.op == '*' and a.args[0].op == 'c': return rmul(R(-a.args[0].args[0]), a.args[1])
    return mk('*', (RM1, a), 'R')
def rsub(a, b):
    if a is b: return R0
    if b.op == 'c':
        return radd(a, R(-b.args[0]))
    if a.op == 'c' and a.args[0] == 0: return rneg(b)
    return mk('+', (a, rneg(b)), 'R')
def rmul(a, b):
    if a.op == 'c':
        if b.op == 'c': return R(a.args[0] * b.args[0])
        if a.args[0] == 0: return R0
        if a.args[0] == 1: return b
        if b.op == '*' and b.args[0].op == 'c': return rmul(R(a.args[0] * b.args[0].args[0]), b.args[1])
        return mk('*', (a, b), 'R')
    if b.op == 'c': return rmul(b, a)
    return mk('*', (a, b), 'R')
def rdiv(a, b):
    if b.op == 'c' and b.args[0] != 0:
        return rmul(R(1 / b.args[0]), a)
    if a.op == 'c' and a.args[0] == 0: return R0   # 0/b: b != 0 is checked separately where it matters
    return mk('/', (a, b), 'R')
def _negarg(x):
    """x = -y syntactically -> y"""
    if x.op == 'c' and x.args[0] < 0: return R(-x.args[0])
    if x.op == '*' and x.args[0].op == 'c' and x.args[0].args[0] < 0: return rmul(R(-x.args[0].args[0]), x.args[1])
    return None
def _isqrt_frac(v):
    if v < 0: return None
    n = math.isqrt(v.numerator); d = math.isqrt(v.denominator)
    if n * n == v.numerator and d * d == v.denominator: return Fraction(n, d)
    return None
ODD = {'sin', 'tan', 'asin', 'atan', 'sinh'}
def fn(name, *a):
    x = a[0]
    if name == 'sqrt':
        if x.op == 'c':
            r = _isqrt_frac(x.args[0])
            if r is not None: return R(r)
    elif name in ('sin', 'tan', 'asin', 'atan', 'sinh'):
        if x.op == 'c' and x.args[0] == 0: return R0
        y = _negarg(x)
        if y is not None: return rneg(fn(name, y))
        if name == 'sin':
            if x.op == 'asin': return x.args[0]
            if x.op == 'acos': return fn('sqrt', rsub(R1, rmul(x.args[0], x.args[0])))
            if x.op == 'atan2': return rdiv(x.args[0], fn('sqrt', radd(rmul(x.args[0], x.args[0]), rmul(x.args[1], x.args[1]))))
            if x.op == 'atan': return rdiv(x.args[0], fn('sqrt', radd(R1, rmul(x.args[0], x.args[0]))))
        if name == 'tan':
            if x.op == 'atan': return x.args[0]
            if x.op == 'atan2': return rdiv(x.args[0], x.args[1])
            return rdiv(fn('sin', x), fn('cos', x))
    elif name in ('cos', 'cosh'):
        if x.op == 'c' and x.args[0] == 0: return R1
        y = _negarg(x)
        if y is not None: return fn(name, y)
        if name == 'cos':
            if x.op == 'acos': return x.args[0]
            if x.op == 'asin': return fn('sqrt', rsub(R1, rmul(x.args[0], x.args[0])))
            if x.op == 'atan2': return rdiv(x.args[1], fn('sqrt', radd(rmul(x.args[0], x.args[0]), rmul(x.args[1], x.args[1]))))
            if x.op == 'atan': return rdiv(R1, fn('sqrt', radd(R1, rmul(x.args[0], x.args[0]))))
    elif name == 'atan2':
        y = a[0]
        ny = _negarg(y)
        if ny is not None and ny.op != 'c' : pass
        if y.op == 'c' and y.args[0] == 0 and a[1].op == 'c' and a[1].args[0] > 0: return R0
    elif name == 'exp':
        if x.op == 'c' and x.args[0] == 0: return R1
        if x.op == 'log': return x.args[0]
    elif name == 'log':
        if x.op == 'c' and x.args[0] == 1: return R0
        if x.op == 'exp': return x.args[0]
    elif name == 'log10':
        if x.op == 'c' and x.args[0] == 1: return R0
    elif name == 'fabs':
        if x.op == 'c': return R(abs(x.args[0]))
        return ite(rlt(x, R0), rneg(x), x)
    elif name == 'floor':
        if x.op == 'c': return R(math.floor(x.args[0]))
        if x.op == 'i2r': return x
    elif name == 'ceil':
        if x.op == 'c': return R(math.ceil(x.args[0]))
        return rneg(fn('floor', rneg(x)))
    elif name == 'trunc':
        if x.op == 'c': return R(math.trunc(x.args[0]))
        if x.op == 'i2r': return x
        return ite(rlt(x, R0), rneg(fn('floor', rneg(x))), fn('floor', x))
    elif name == 'round':   # half away from zero
        h = Fraction(1, 2)
        return ite(rlt(x, R0), rneg(fn('floor', radd(rneg(x), R(h)))), fn('floor', radd(x, R(h))))
    elif name == 'fmod':    # truncated remainder
        y = a[1]
        if x.op == 'c' and y.op == 'c' and y.args[0] != 0:
            q = math.trunc(x.args[0] / y.args[0])
            return R(x.args[0] - q * y.args[0])
        return rsub(x, rmul(y, fn('trunc', rdiv(x, y))))
    elif name == 'pow':
        y = a[1]
        if y.op == 'c':
            e = y.args[0]
            if e.denominator == 1 and abs(e) <= 64:
                n = int(e)
                if n == 0: return R1
                r = x
                for _ in range(abs(n) - 1): r = rmul(r, x)
                return r if n > 0 else rdiv(R1, r)
            if e == Fraction(1, 2): return fn('sqrt', x)
            if e == Fraction(3, 2): return rmul(x, fn('sqrt', x))
            if e == Fraction(-1, 2): return rdiv(R1, fn('sqrt', x))
            if e == Fraction(-3, 2): return rdiv(R1, rmul(x, fn('sqrt', x)))
    elif name == 'cbrt':
        pass
    return mk(name, a, 'R')
RFN = {'sqrt', 'sin', 'cos', 'tan', 'asin', 'acos', 'atan', 'atan2', 'exp', 'log', 'log10', 'pow', 'cbrt', 'floor', 'sinh', 'cosh', 'tanh', 'f32', 'erf'}
def uf(name, args): return mk('uf', (name,) + tuple(args), 'R')

def rlt(a, b):
    if a is b: return FALSE
    if a.op == 'c' and b.op == 'c': return Bc(a.args[0] < b.args[0])
    g = _ground_cmp(a, b)
    if g is not None: return Bc(g < 0)
    if a.op == 'i2r' and b.op == 'i2r': return slt_wide(a, b)
    return mk('<', (a, b), 'B')
def rle(a, b): return bnot(rlt(b, a))
def req(a, b):
    if a is b: return TRUE
    if a.op == 'c' and b.op == 'c': return Bc(a.args[0] == b.args[0])
    g = _ground_cmp(a, b)
    if g is not None: return Bc(g == 0)
    if a.id > b.id: a, b = b, a
    return mk('r=', (a, b), 'B')
def slt_wide(a, b):
    return mk('<', (a, b), 'B')

_ground = {}
def is_ground(t):
    r = _ground.get(t.id)
    if r is None:
        if t.op == 'c': r = True
        elif t.op == 'v' or t.op == 'uf' or t.op == 'ite' or t.sort != 'R': r = False
        else: r = all(is_ground(x) for x in t.args if type(x) is T)
        _ground[t.id] = r
    return r
def _ground_cmp(a, b):
    if not (is_ground(a) and is_ground(b)): return None
    import mpmath
    for prec in (60, 200):
        with mpmath.workdps(prec):
            try:
                x = mp_eval(a); y = mp_eval(b)
            except Exception:
                return None
            d = x - y
            m = max(abs(x), abs(y), mpmath.mpf(10) ** -300)
            if abs(d) > m * mpmath.mpf(10) ** (-prec + 12): return 1 if d > 0 else -1
    return None   # not separated: left symbolic
def mp_eval(t, _c=None):
    import mpmath
    mp = mpmath
    if _c is None: _c = {}
    r = _c.get(t.id)
    if r is not None: return r
    o = t.op
    if o == 'c':
        r = mp.mpf(t.args[0].numerator) / mp.mpf(t.args[0].denominator)
    else:
        a = [mp_eval(x, _c) for x in t.args]
        if o == '+': r = a[0] + a[1]
        elif o == '*': r = a[0] * a[1]
        elif o == '/': r = a[0] / a[1]
        elif o == 'floor': r = mp.floor(a[0])
        elif o == 'pow': r = mp.power(a[0], a[1])
        elif o == 'log': r = mp.log(a[0])
        elif o == 'log10': r = mp.log10(a[0])
        elif o == 'cbrt': r = mp.cbrt(a[0])
        else: r = getattr(mp, o)(*a)
        if isinstance(r, mpmath.mpc): raise ValueError
    _c[t.id] = r
    return r

# ---------------------------------------------------------------- booleans
def bnot(a):
    if a is TRUE: return FALSE
    if a is FALSE: return TRUE
    if a.op == 'not': return a.args[0]
    return mk('not', (a,), 'B')
def band(a, b):
    if a is FALSE or b is FALSE: return FALSE
    if a is TRUE: return b
    if b is TRUE: return a
    if a is b: return a
    if bnot(a) is b: return FALSE
    return mk('and', (a, b), 'B')
def bor(a, b): return bnot(band(bnot(a), bnot(b)))
def bxor(a, b):
    if isc(a): return bnot(b) if a is TRUE else b
    if isc(b): return bnot(a) if b is TRUE else a
    if a is b: return FALSE
    return bor(band(a, bnot(b)), band(bnot(a), b))
def ite(c, a, b):
    if c is TRUE: return a
    if c is FALSE: return b
    if a is b: return a
    if c.op == 'not': return ite(c.args[0], b, a)
    if a.sort == 'B':
        return bor(band(c, a), band(bnot(c), b))
    if a.op == 'ite' and a.args[0] is c: a = a.args[1]
    if b.op == 'ite' and b.args[0] is c: b = b.args[2]
    if a is b: return a
    return mk('ite', (c, a, b), a.sort)

# ---------------------------------------------------------------- bit vectors
def b2bv(b, w):
    if isc(b): return BV(1 if b is TRUE else 0, w)
    return ite(b, BV(1, w), BV(0, w))
def bv2b(x):
    """i1-like test: x != 0 (width 1)"""
    if isc(x): return Bc(x.args[0] != 0)
    if x.op == 'ite' and isc(x.args[1]) and isc(x.args[2]):
        return ite(x.args[0], Bc(cv(x.args[1]) != 0), Bc(cv(x.args[2]) != 0))
    return bnot(beq(x, BV(0, x.sort)))
def _lift(f, a, b):
    """push a binary op through ite-of-constants"""
    if a.op == 'ite' and isc(b) and isc(a.args[1]) and isc(a.args[2]): return ite(a.args[0], f(a.args[1], b), f(a.args[2], b))
    if b.op == 'ite' and isc(a) and isc(b.args[1]) and isc(b.args[2]): return ite(b.args[0], f(a, b.args[1]), f(a, b.args[2]))
    return None
def bvbin(op, a, b, nsw=0, nuw=0):
    w = a.sort
    if a.op == 'c' and b.op == 'c':
        x = a.args[0]; y = b.args[0]; M = (1 << w) - 1
        if op == 'add': return BV(x + y, w)
        if op == 'sub': return BV(x - y, w)
        if op == 'mul': return BV(x * y, w)
        if op == 'and': return BV(x & y, w)
        if op == 'or': return BV(x | y, w)
        if op == 'xor': return BV(x ^ y, w)
        if op == 'shl': return BV(x << y, w) if y < w else BV(0, w)
        if op == 'lshr': return BV(x >> y, w) if y < w else BV(0, w)
        if op == 'ashr': return BV(sgn(x, w) >> min(y, w - 1), w)
        if y != 0:
            if op == 'udiv': return BV(x // y, w)
            if op == 'urem': return BV(x % y, w)
            sx, sy = sgn(x, w), sgn(y, w)
            q = abs(sx) // abs(sy)
            if (sx < 0) != (sy < 0): q = -q
            if op == 'sdiv': return BV(q, w)
            if op == 'srem': return BV(sx - q * sy, w)
    if b.op == 'c':
        y = b.args[0]
        if y == 0 and op in ('add', 'sub', 'or', 'xor', 'shl', 'lshr', 'ashr'): return a
        if y == 0 and op in ('mul', 'and'): return b
        if y == 1 and op in ('mul', 'udiv', 'sdiv'): return a
        if y == (1 << w) - 1 and op == 'and': return a
        if y == 1 and op == 'urem': return BV(0, w)
        if op == 'sub': return bvbin('add', a, BV(-y, w), nsw, 0)
        if op == 'add' and a.op == 'add' and isc(a.args[1]):
            return bvbin('add', a.args[0], BV(y + cv(a.args[1]), w))
        if op == 'mul' and a.op == 'add' and isc(a.args[1]):
            return bvbin('add', bvbin('mul', a.args[0], b), BV(cv(a.args[1]) * y, w))
        if op in ('sdiv', 'udiv') and a.op == 'mul' and isc(a.args[1]) and cv(a.args[1]) == y and a.args[2]:
            return a.args[0]
    if a.op == 'c':
        if a.args[0] == 0 and op in ('mul', 'and', 'shl', 'lshr', 'ashr'): return a
        if op in ('add', 'mul', 'and', 'or', 'xor') : return bvbin(op, b, a, nsw, nuw)
    if op == 'sub' and a is b: return BV(0, w)
    if op in ('and', 'or') and a is b: return a
    if op == 'xor' and a is b: return BV(0, w)
    r = _lift(lambda x, y: bvbin(op, x, y, nsw, nuw), a, b)
    if r is not None and op not in ('udiv', 'sdiv', 'urem', 'srem'): return r
    if w == 1 and op in ('and', 'or', 'xor'):
        A, B_ = bv2b(a), bv2b(b)
        return b2bv({'and': band, 'or': bor, 'xor': bxor}[op](A, B_), 1)
    return mk(op, (a, b, nsw), w)
def beq(a, b):
    if a is b: return TRUE
    if a.sort == 'B': return bnot(bxor(a, b))
    if a.op == 'c' and b.op == 'c': return Bc(a.args[0] == b.args[0])
    r = _lift(beq, a, b)
    if r is not None: return r
    if isc(b) and a.op in ('zext', 'sext'):
        v = cv(b); sw = a.args[0].sort
        back = BV(v, sw)
        full = cv(back) if a.op == 'zext' else (sgn(cv(back), sw) & ((1 << a.sort) - 1))
        if full != v: return FALSE
        return beq(a.args[0], back)
    if isc(a): a, b = b, a
    if not isc(b) and a.id > b.id: a, b = b, a
    if isc(b) and a.op == 'add' and isc(a.args[1]): return beq(a.args[0], BV(cv(b) - cv(a.args[1]), a.sort))
    return mk('=', (a, b), 'B')
def bcmp(p, a, b):
    if p == 'eq': return beq(a, b)
    if p == 'ne': return bnot(beq(a, b))
    w = a.sort
    if p in ('ugt', 'uge', 'sgt', 'sge'):
        return bcmp({'ugt': 'ult', 'uge': 'ule', 'sgt': 'slt', 'sge': 'sle'}[p], b, a)
    if p == 'ule': return bnot(bcmp('ult', b, a))
    if p == 'sle': return bnot(bcmp('slt', b, a))
    if a is b: return FALSE
    if a.op == 'c' and b.op == 'c':
        if p == 'ult': return Bc(cv(a) < cv(b))
        return Bc(sgn(cv(a), w) < sgn(cv(b), w))
    r = _lift(lambda x, y: bcmp(p, x, y), a, b)
    if r is not None: return r
    if p == 'ult':
        if isc(b) and cv(b) == 0: return FALSE
        if isc(b) and cv(b) == 1: return beq(a, BV(0, w))
    return mk(p, (a, b), 'B')
def zext(a, w):
    if isc(a): return BV(cv(a), w)
    if a.sort == w: return a
    if a.op == 'zext': return zext(a.args[0], w)
    if a.op == 'ite' and isc(a.args[1]) and isc(a.args[2]): return ite(a.args[0], zext(a.args[1], w), zext(a.args[2], w))
    return mk('zext', (a,), w)
def sext(a, w):
    if isc(a): return BV(sgn(cv(a), a.sort), w)
    if a.sort == w: return a
    if a.op == 'sext': return sext(a.args[0], w)
    if a.op == 'zext': return zext(a.args[0], w)
    if a.op == 'ite' and isc(a.args[1]) and isc(a.args[2]): return ite(a.args[0], sext(a.args[1], w), sext(a.args[2], w))
    return mk('sext', (a,), w)
def trunc(a, w):
    if isc(a): return BV(cv(a), w)
    if a.sort == w: return a
    if a.op in ('zext', 'sext'):
        s = a.args[0].sort
        if s == w: return a.args[0]
        if s > w: return trunc(a.args[0], w)
        return (zext if a.op == 'zext' else sext)(a.args[0], w)
    if a.op == 'trunc': return trunc(a.args[0], w)
    if a.op == 'ite' and isc(a.args[1]) and isc(a.args[2]): return ite(a.args[0], trunc(a.args[1], w), trunc(a.args[2], w))
    if a.op in ('or', 'and', 'xor', 'add', 'mul', 'sub') and (isc(a.args[1]) or a.op in ('or', 'and', 'xor')):
        return bvbin(a.op, trunc(a.args[0], w), trunc(a.args[1], w))
    if a.op == 'shl' and isc(a.args[1]):
        if cv(a.args[1]) >= w: return BV(0, w)
        return bvbin('shl', trunc(a.args[0], w), BV(cv(a.args[1]), w))
    if a.op == 'lshr' and isc(a.args[1]):
        x = extract(a.args[0], cv(a.args[1]), w)
        if x is not None: return x
    return mk('trunc', (a,), w)
def extract(a, lo, w):
    """bits [lo, lo+w) when that simplifies, else None"""
    if isc(a): return BV(cv(a) >> lo, w)
    if lo == 0: return trunc(a, w)
    if a.op == 'zext':
        s = a.args[0].sort
        if lo >= s: return BV(0, w)
        if lo + w <= s: return extract(a.args[0], lo, w)
        r = extract(a.args[0], lo, s - lo)
        return zext(r, w) if r is not None else None
    if a.op == 'shl' and isc(a.args[1]):
        k = cv(a.args[1])
        if lo >= k: return extract(a.args[0], lo - k, w)
        if lo + w <= k: return BV(0, w)
        return None
    if a.op in ('or', 'and', 'xor'):
        x = extract(a.args[0], lo, w); y = extract(a.args[1], lo, w)
        if x is None or y is None: return None
        return bvbin(a.op, x, y)
    return None
def ext_any(a, lo, w):
    r = extract(a, lo, w)
    if r is not None: return r
    return trunc(mk('lshr', (a, BV(lo, a.sort), 0), a.sort), w) if False else mk('trunc', (bvbin('lshr', a, BV(lo, a.sort)),), w)
def i2r(a, signed):
    if isc(a): return R(sgn(cv(a), a.sort) if signed else cv(a))
    if a.op == 'sext' and signed: return i2r(a.args[0], True)
    if a.op == 'zext': return i2r(a.args[0], False)
    if a.op == 'ite': return ite(a.args[0], i2r(a.args[1], signed), i2r(a.args[2], signed))
    return mk('i2r', (a, signed), 'R')
def r2i(x, w, signed):
    if isc(x): return BV(math.trunc(cv(x)), w)
    if x.op == 'ite' and isc(x.args[1]) and isc(x.args[2]): return ite(x.args[0], r2i(x.args[1], w, signed), r2i(x.args[2], w, signed))
    if x.op == 'i2r' and x.args[0].sort <= w:
        a = x.args[0]
        return (sext if x.args[1] else zext)(a, w)
    return mk('r2i', (x, signed), w)

# ---------------------------------------------------------------- arrays (symbolic memory regions)
def avar(name, elsort): return mk('avar', (name, elsort), 'A')
def astore(a, i, v): return mk('store', (a, i, v), 'A')
def afill(v, ): return mk('afill', (v,), 'A')
def acopy(dst, di, src, si, n): return mk('acopy', (dst, di, src, si, n), 'A')
def afillr(dst, di, n, v): return mk('afillr', (dst, di, n, v), 'A')
def aite(c, a, b): return ite(c, a, b)
def select(a, i, elsort):
    while True:
        if a.op == 'store':
            e = beq(a.args[1], i)
            if e is TRUE: return a.args[2]
            if e is FALSE:
                a = a.args[0]; continue
            return ite(e, a.args[2], select(a.args[0], i, elsort))
        if a.op == 'afill': return a.args[0]
        if a.op == 'acopy':
            dst, di, src, si, n = a.args
            rel = bvbin('sub', i, di)
            c = bcmp('ult', rel, n)
            if c is FALSE:
                a = dst; continue
            return ite(c, select(src, bvbin('add', rel, si), elsort), select(dst, i, elsort))
        if a.op == 'afillr':
            dst, di, n, v = a.args
            c = bcmp('ult', bvbin('sub', i, di), n)
            return ite(c, v, select(dst, i, elsort))
        if a.op == 'ite':
            return ite(a.args[0], select(a.args[1], i, elsort), select(a.args[2], i, elsort))
        return mk('select', (a, i), elsort)

# ---------------------------------------------------------------- utilities
def subterms(ts, seen=None):
    if seen is None: seen = {}
    st = list(ts)
    while st:
        t = st.pop()
        if t.id in seen: continue
        seen[t.id] = t
        for a in t.args:
            if type(a) is T and a.id not in seen: st.append(a)
    return seen

def size(ts): return len(subterms(ts))

def subst(t, m, cache=None):
    """replace terms (by id) bottom-up, re-simplifying"""
    if cache is None: cache = {}
    def go(x):
        if x.id in m: return m[x.id]
        r = cache.get(x.id)
        if r is not None: return r
        if x.op in ('c', 'v', 'avar'): r = x
        else:
            na = tuple(go(a) if type(a) is T else a for a in x.args)
            if all(p is q for p, q in zip(na, x.args)): r = x
            else: r = rebuild(x, na)
        cache[x.id] = r
        return r
    return go(t)

def rebuild(x, a):
    o = x.op
    if o == '+': return radd(*a)
    if o == '*': return rmul(*a)
    if o == '/': return rdiv(*a)
    if o == '<': return rlt(*a)
    if o == 'r=': return req(*a)
    if o == 'not': return bnot(*a)
    if o == 'and': return band(*a)
    if o == 'ite': return ite(*a)
    if o == '=': return beq(*a)
    if o in ('ult', 'slt'): return bcmp(o, *a)
    if o in ('add', 'sub', 'mul', 'udiv', 'sdiv', 'urem', 'srem', 'and', 'or', 'xor', 'shl', 'lshr', 'ashr') and x.sort != 'B': return bvbin(o, a[0], a[1], a[2])
    if o == 'zext': return zext(a[0], x.sort)
    if o == 'sext': return sext(a[0], x.sort)
    if o == 'trunc': return trunc(a[0], x.sort)
    if o == 'i2r': return i2r(*a)
    if o == 'r2i': return r2i(a[0], x.sort, a[1])
    if o == 'select': return select(a[0], a[1], x.sort)
    if o in RFN: return fn(o, *a)
    return mk(o, a, x.sort)
