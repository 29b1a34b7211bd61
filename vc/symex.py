"""Symbolic executor over the extracted LLVM IR: generates the proof obligations of a contract.

One root function = one contract (harness written in /verif/contracts, compiled together with the real /repo sources):
its vc_assume calls are the preconditions, its vc_check/vc_eq calls the postconditions; calls into the real code are
executed on the real code's IR, or, for functions listed in a VC-REPLACE directive, through their contract.
Every feasible path is followed; obligations (postconditions, memory safety, no signed overflow, no abnormal exit)
are collected as (path condition => goal).
"""
import re, json, struct, sys, time
from fractions import Fraction
from .term import *
from . import term as TM
from .numeval import Env, ev, draw_real, draw_range, draw_int, draw_bv, _h
import random, math

M64 = (1 << 64) - 1

class Unsupported(Exception): pass
class PathEnd(Exception):
    def __init__(self, why): self.why = why

class Restart(Exception): pass
class Ptr:
    __slots__ = ('obj', 'off')
    def __init__(self, obj, off): self.obj = obj; self.off = off
    def __repr__(self): return 'Ptr(%s,%s)' % (self.obj, self.off)
NULL = Ptr(0, 0)
class FnPtr:
    __slots__ = ('name',)
    def __init__(self, n): self.name = n
class _Undef:
    def __repr__(self): return 'UNDEF'
UNDEF = _Undef()

class Obj:
    __slots__ = ('size', 'cells', 'arr', 'lazy', 'kind', 'name', 'zero', 'freed', 'const', 'live')
    def __init__(self, size, kind, name):
        self.size = size; self.cells = {}; self.arr = None; self.lazy = None; self.kind = kind; self.name = name
        self.zero = False; self.freed = False; self.const = False; self.live = None
    def copy(self):
        o = Obj(self.size, self.kind, self.name)
        o.cells = dict(self.cells)
        o.arr = None if self.arr is None else {'stride': self.arr['stride'], 'fields': dict(self.arr['fields'])}
        o.lazy = self.lazy; o.zero = self.zero; o.freed = self.freed; o.const = self.const; o.live = self.live
        return o

class Frame:
    __slots__ = ('fn', 'blk', 'idx', 'prev', 'regs', 'ret', 'allocas')
    def __init__(self, fn):
        self.fn = fn; self.blk = 0; self.idx = 0; self.prev = -1; self.regs = {}; self.ret = None; self.allocas = []
    def copy(self):
        f = Frame(self.fn); f.blk = self.blk; f.idx = self.idx; f.prev = self.prev; f.regs = dict(self.regs); f.ret = self.ret
        f.allocas = list(self.allocas)
        return f

class State:
    __slots__ = ('frames', 'mem', 'owned', 'gl', 'pc', 'pcset', 'samples', 'names', 'opts', 'trail', 'covers', 'visits', 'ghost', 'inputs')
    def __init__(self):
        self.frames = []; self.mem = {}; self.owned = set(); self.gl = {}; self.pc = []; self.pcset = set(); self.samples = []
        self.names = {}; self.opts = {}; self.trail = []; self.covers = set(); self.visits = {}; self.ghost = {}; self.inputs = []
    def fork(self):
        s = State()
        s.frames = [f.copy() for f in self.frames]
        s.mem = dict(self.mem); self.owned = set(); s.gl = dict(self.gl)
        s.pc = list(self.pc); s.pcset = set(self.pcset); s.samples = list(self.samples); s.names = dict(self.names)
        s.opts = dict(self.opts); s.trail = list(self.trail); s.covers = set(self.covers); s.visits = dict(self.visits)
        s.ghost = dict(self.ghost); s.inputs = list(self.inputs)
        return s

class Obligation:
    __slots__ = ('label', 'kind', 'loc', 'pc', 'goal', 'root', 'num', 'mode')
    def __init__(self, label, kind, loc, pc, goal, root, mode=''):
        self.label = label; self.kind = kind; self.loc = loc; self.pc = pc; self.goal = goal; self.root = root; self.num = None; self.mode = mode

class Module:
    def __init__(self, path):
        m = json.load(open(path))
        self.funcs = m['funcs']; self.globals = m['globals']; self.decls = m['decls']; self.roots = m['roots']; self.ctors = m['ctors']
        self.files = m['files']
        self.bydem = {}
        for n, f in self.funcs.items(): self.bydem.setdefault(f['dn'], n)

def dbits(h): return Fraction(*struct.unpack('>d', struct.pack('>Q', int(h, 16)))[0].as_integer_ratio())
def fbits(h): return Fraction(*struct.unpack('>f', struct.pack('>I', int(h, 16)))[0].as_integer_ratio())

def tsize(t):
    if isinstance(t, str):
        if t == 'f64' or t == 'ptr': return 8
        if t == 'f32': return 4
        if t == 'f80': return 16
        if t[0] == 'i': return (int(t[1:]) + 7) // 8
        raise Unsupported('type ' + t)
    if t[0] == 's': return t[3]
    return t[1] * t[3]

MATH1 = {'sqrt', 'sin', 'cos', 'tan', 'asin', 'acos', 'atan', 'exp', 'log', 'log10', 'fabs', 'floor', 'ceil', 'trunc', 'round', 'cbrt', 'sinh', 'cosh', 'tanh', 'erf'}
MATH2 = {'pow', 'fmod', 'atan2'}

class Executor:
    def __init__(self, module, root, solver_check, replace=None, nsamples=48, max_paths=4000, max_steps=12000000, seed=1, deadline=None):
        self.m = module; self.root = root; self.obls = []; self.check_sat = solver_check; self.replace = replace or {}
        self.nextobj = 1; self.paths = 0; self.ended = {}; self.steps = 0; self.max_paths = max_paths; self.max_steps = max_steps
        self.samplers = {}; self.nsamples = nsamples; self.seed = seed; self.deadline = deadline
        self.loop_mod = {}; self.fns_executed = set(); self.externals = set(); self.assumptions = set(); self.trunc = False; self.replaced = set()
        self.cover_reached = {}; self.varinfo = {}; self.completed = 0; self.inputs_seen = {}
        self.unknown_branches = 0
        self.loop_contracts = {}
        self.loopinfo_cache = {}; self.loops = {}
        self.proved_inv = set()

    # ------------------------------------------------------------ objects
    def newobj(self, st, size, kind, name=''):
        i = self.nextobj; self.nextobj += 1
        st.mem[i] = Obj(size, kind, name); st.owned.add(i)
        return i
    def wobj(self, st, i):
        o = st.mem[i]
        if i not in st.owned:
            o = o.copy(); st.mem[i] = o; st.owned.add(i)
        return o

    def glob(self, st, name):
        p = st.gl.get(name)
        if p is not None: return p
        if name in self.m.funcs or name in self.m.decls and name not in self.m.globals:
            p = FnPtr(name); st.gl[name] = p; return p
        g = self.m.globals.get(name)
        if g is None: raise Unsupported('global ' + name)
        i = self.newobj(st, g['size'], 'global', name)
        p = Ptr(i, 0); st.gl[name] = p
        o = st.mem[i]; o.const = bool(g['const'])
        if g['init'] is not None:
            o.zero = True
            self.initcell(st, o, 0, g['init'], g['ty'])
        else:
            o.lazy = 'ext:' + name if not name.startswith(('_ZTV', '_ZTI', '_ZSt')) else None
            if o.size == 0: o.size = 1 << 20
        return p
    def initcell(self, st, o, off, c, ty):
        k = c[0]
        if k in ('z', 'u'): return
        if k == 'str':
            for j, ch in enumerate(c[1]): o.cells[off + j] = (1, BV(ord(ch), 8))
            return
        if k == 'agg':
            t = c[1]
            if t[0] == 's':
                for f, (ft, fo) in zip(c[2], zip(t[1], t[2])): self.initcell(st, o, off + fo, f, ft)
            else:
                for j, f in enumerate(c[2]): self.initcell(st, o, off + j * t[3], f, t[2])
            return
        v = self.const(st, c)
        if k == 'ce' and ty == 'i64': pass
        o.cells[off] = (tsize(ty), v)

    def const(self, st, c):
        k = c[0]
        if k == 'i': return BV(int(c[2]), c[1])
        if k == 'd': return R(self.fdec(dbits, c[1]))
        if k == 'f': return R(self.fdec(fbits, c[1]))
        if k == 'n': return NULL
        if k == 'g': return self.glob(st, c[1])
        if k == 'goff':
            b = self.const(st, c[1])
            if isinstance(b, FnPtr): return b
            return self.padd(b, c[2])
        if k == 'u': return UNDEF
        if k == 'z':
            return self.zero(c[1])
        if k == 'agg':
            return [self.const(st, x) for x in c[2]]
        if k == 'ce':
            ops = [self.const(st, x) for x in c[3]]
            if c[1] in ('bitcast', 'ptrtoint', 'inttoptr', 'addrspacecast'):
                if c[1] == 'inttoptr' and isinstance(ops[0], T) and isc(ops[0]): return Ptr(0, cv(ops[0]))
                return ops[0]
            if c[1] in ('add', 'sub'):
                return self.ibin(st, c[1], ops[0], ops[1], 64, 0, 0)
            raise Unsupported('constexpr ' + c[1])
        if k == 'md' or k == 'asm': return UNDEF
        raise Unsupported('const ' + str(c)[:80])
    def fdec(self, f, h):
        try: return f(h)
        except (OverflowError, ValueError):
            # infinity / nan literal
            self.assumptions.add('infinity/NaN literals are modelled as a huge real (1e400)')
            b = int(h, 16)
            neg = (b >> 63) if f is dbits else (b >> 31)
            return Fraction(10) ** 400 * (-1 if neg else 1)
    def zero(self, t):
        if t == 'f64' or t == 'f32' or t == 'f80': return R0
        if t == 'ptr': return NULL
        if isinstance(t, str): return BV(0, int(t[1:]))
        if t[0] == 's': return [self.zero(x) for x in t[1]]
        return [self.zero(t[2]) for _ in range(t[1])]

    def padd(self, p, d):
        if isinstance(p, Ptr):
            o = p.off
            if isinstance(o, int) and isinstance(d, int): return Ptr(p.obj, o + d)
            if isinstance(o, int): o = BV(o, 64)
            if isinstance(d, int): d = BV(d, 64)
            r = bvbin('add', o, d)
            if isc(r): return Ptr(p.obj, sgn(cv(r), 64))
            return Ptr(p.obj, r)
        if p is UNDEF: return UNDEF
        if isinstance(p, FnPtr): return p
        if isinstance(p, T) and isc(p): return self.padd(Ptr(0, cv(p)), d)
        raise Unsupported('pointer arithmetic on ' + repr(p))

    # ------------------------------------------------------------ operands
    def val(self, st, x):
        if type(x) is int: return st.frames[-1].regs[x]
        return self.const(st, x)
    def loc(self, ins):
        if ins[2] < 0: return '?'
        return '%s:%d' % (self.m.files[ins[2]], ins[3])

    # ------------------------------------------------------------ variables
    def fresh(self, st, base, sort, lo=None, hi=None, sampler=None):
        k = st.names.get(base, 0); st.names[base] = k + 1
        name = base if k == 0 else '%s#%d' % (base, k)
        if sampler is not None and name not in self.samplers: self.samplers[name] = sampler
        v = var(name, sort, lo, hi)
        self.varinfo[name] = v
        return v
    def assume(self, st, c):
        """add to the path condition; returns False when the path becomes infeasible"""
        if c is TRUE: return True
        if c is FALSE: return False
        if c.id in st.pcset: return True
        if bnot(c).id in st.pcset: return False
        self.addpc(st, c)
        st.samples = [e for e in st.samples if self.sev(c, e)]
        return True
    def addpc(self, st, c):
        if c.op == 'and':
            self.addpc(st, c.args[0]); self.addpc(st, c.args[1]); return
        if c is TRUE or c.id in st.pcset: return
        st.pc.append(c); st.pcset.add(c.id)
    def sev(self, c, e):
        try: return bool(ev(c, e))
        except Exception: return False

    def oblige(self, st, label, kind, loc, goal, mode=''):
        if goal is TRUE:
            self.obls.append(Obligation(label, kind, loc, None, TRUE, self.root, mode)); return
        if kind != 'post' and goal.id in st.pcset: return
        o = Obligation(label, kind, loc, tuple(st.pc), goal, self.root, mode)
        bad = [e for e in st.samples if not self.sev(goal, e)]
        if bad: o.num = bad[0]
        self.obls.append(o)

    # decide a condition: returns list of (taken, state)
    def branch(self, st, c):
        """yield truth values feasible on this path"""
        if c is TRUE: return [True]
        if c is FALSE: return [False]
        if c.id in st.pcset: return [True]
        n = bnot(c)
        if n.id in st.pcset: return [False]
        t = f = False
        for e in st.samples:
            if self.sev(c, e): t = True
            else: f = True
            if t and f: break
        if not t:
            r = self.check_sat(st.pc, c)
            if r != 'unsat':
                t = True
                if r != 'sat': self.unknown_branches += 1
        if not f:
            if t is False: f = True
            else:
                r = self.check_sat(st.pc, n)
                if r != 'unsat':
                    f = True
                    if r != 'sat': self.unknown_branches += 1
        if t != f and (c.op == 'r=' or c.op == 'not' and c.args[0].op == 'r='):
            # implied by the path condition: kept as a fact for the algebra
            self.addpc(st, c if t else n)
        out = []
        if t: out.append(True)
        if f: out.append(False)
        return out

    # ------------------------------------------------------------ run
    def run(self):
        st = State()
        self.base_init(st)
        fr = Frame(self.m.funcs[self.root])
        st.frames = [fr]
        self.enter(st, fr)
        st.samples = [Env(i + 1000003 * self.seed, self.samplers) for i in range(self.nsamples)]
        work = [st]
        while work:
            s = work.pop()
            try:
                self.runpath(s, work)
                self.completed += 1
                why = 'return'
            except PathEnd as e:
                why = e.why
            self.ended[why] = self.ended.get(why, 0) + 1
            if why != 'infeasible':
                self.paths += 1
                if why in ('return', 'throw-allowed', 'loop-cut'):
                    for c in s.covers: self.cover_reached[c] = self.cover_reached.get(c, 0) + 1
            if self.paths > self.max_paths: raise Unsupported('path limit %d reached' % self.max_paths)
        return self.obls

    def base_init(self, st):
        for c in self.m.ctors:
            if c not in self.m.funcs: continue
            if '_GLOBAL__sub_I' not in c and '__cxx_global_var_init' not in c: continue
            fr = Frame(self.m.funcs[c]); s2 = st.fork(); s2.frames = [fr]; self.enter(s2, fr)
            wk = [s2]
            try:
                save = self.obls; self.obls = []
                self.runpath(s2, wk)
                self.obls = save
                st.mem = s2.mem; st.gl = s2.gl; st.owned = set()
            except (PathEnd, Unsupported, KeyError) as e:
                self.obls = save
                self.assumptions.add('global constructor %s not executed (%s)' % (c, e))

    def enter(self, st, fr):
        self.fns_executed.add(fr.fn['dn'])

    def runpath(self, st, work):
        frames = st.frames
        while True:
            fr = frames[-1]
            blk = fr.fn['blocks'][fr.blk]
            ins = blk[fr.idx]
            self.steps += 1
            if self.steps & 1023 == 0:
                if self.steps > self.max_steps: raise Unsupported('step limit')
                if self.deadline and time.time() > self.deadline: raise Unsupported('time limit')
            op = ins[0]
            h = getattr(self, 'i_' + op, None)
            if h is None:
                if op in INTOPS:
                    a = self.val(st, ins[5]); b = self.val(st, ins[6])
                    if isinstance(ins[4], list):
                        fr.regs[ins[1]] = [self.ibin(st, op, x, y, int(ins[4][2][1:]), ins[7], ins[8], ins) for x, y in zip(a, b)]
                    else:
                        fr.regs[ins[1]] = self.ibin(st, op, a, b, int(ins[4][1:]), ins[7], ins[8], ins)
                    fr.idx += 1
                    continue
                if op in FOPS:
                    a = self.val(st, ins[5]); b = self.val(st, ins[6])
                    if isinstance(ins[4], list): fr.regs[ins[1]] = [self.fbin(st, op, x, y) for x, y in zip(a, b)]
                    else: fr.regs[ins[1]] = self.fbin(st, op, a, b)
                    fr.idx += 1
                    continue
                raise Unsupported('instruction ' + op + ' at ' + self.loc(ins))
            r = h(st, fr, ins, work)
            if r == 'done': return

    def fbin(self, st, op, a, b):
        a = self.asreal(st, a); b = self.asreal(st, b)
        if op == 'fadd': return radd(a, b)
        if op == 'fsub': return rsub(a, b)
        if op == 'fmul': return rmul(a, b)
        if op == 'fdiv': return rdiv(a, b)
        return fn('fmod', a, b)
    def asreal(self, st, a):
        if isinstance(a, T):
            if a.sort == 'R': return a
            raise Unsupported('real expected')
        if a is UNDEF: return self.fresh(st, 'undef!', 'R')
        raise Unsupported('real expected, got %r' % (a,))
    def asint(self, st, a, w):
        if isinstance(a, T): return a
        if a is UNDEF: return self.fresh(st, 'undef!i%d' % w, w)
        if isinstance(a, Ptr) and a.obj == 0: return BV(a.off, w) if isinstance(a.off, int) else a.off
        return a
    def ibin(self, st, op, a, b, w, nsw, nuw, ins=None):
        a = self.asint(st, a, w); b = self.asint(st, b, w)
        if isinstance(a, Ptr) or isinstance(b, Ptr):
            if op == 'sub' and isinstance(a, Ptr) and isinstance(b, Ptr):
                if a.obj == b.obj: return self.off_sub(a.off, b.off)
                raise Unsupported('subtraction of pointers into different objects')
            if op == 'sub' and isinstance(a, Ptr): return self.padd(a, -cv(b) if isc(b) else bvbin('sub', BV(0, 64), b))
            if op == 'add':
                if isinstance(b, Ptr): a, b = b, a
                return self.padd(a, sgn(cv(b), 64) if isc(b) else b)
            if op == 'and' and isinstance(b, T) and isc(b) and isinstance(a, Ptr) and isinstance(a.off, int):
                m = cv(b)
                if m < 16: return BV(a.off & m, w)        # objects are 16-byte aligned
                if m == M64 - 15 or m == M64 - 7: return Ptr(a.obj, a.off & sgn(m, 64))
            raise Unsupported('integer %s on a pointer' % op)
        if isinstance(a, FnPtr) or isinstance(b, FnPtr):
            if op == 'and' and isinstance(b, T) and isc(b) and cv(b) == 1: return BV(0, w)
            raise Unsupported('integer op on function pointer')
        if op in ('udiv', 'sdiv', 'urem', 'srem'):
            z = beq(b, BV(0, w))
            if z is not FALSE:
                self.oblige(st, 'integer division by zero', 'safety', self.loc(ins) if ins else '?', bnot(z))
                if not self.assume(st, bnot(z)): raise PathEnd('div-by-zero')
        if nsw and op in ('add', 'sub', 'mul') and not (isc(a) and isc(b)) and not st.opts.get('no-overflow-obligations'):
            ov = mk('ovf', (op, a, b), 'B')
            self.oblige(st, 'signed overflow', 'safety', self.loc(ins) if ins else '?', bnot(ov), 'ovf')
        return bvbin(op, a, b, nsw, nuw)
    def off_sub(self, x, y):
        if isinstance(x, int) and isinstance(y, int): return BV(x - y, 64)
        if isinstance(x, int): x = BV(x, 64)
        if isinstance(y, int): y = BV(y, 64)
        return bvbin('sub', x, y)

    # ------------------------------------------------------------ instructions
    def i_alloca(self, st, fr, ins, work):
        n = self.val(st, ins[5])
        if not isc(n): raise Unsupported('variable alloca')
        i = self.newobj(st, ins[4] * cv(n), 'stack', ins[6])
        fr.allocas.append(i)
        fr.regs[ins[1]] = Ptr(i, 0)
        fr.idx += 1
    def i_gep(self, st, fr, ins, work):
        p = self.val(st, ins[4])
        if ins[6] == 'unk': raise Unsupported('gep')
        p = self.padd(p, ins[5]) if ins[5] else p
        for o, sc, w in ins[6]:
            v = self.val(st, o)
            v = self.asint(st, v, w)
            if isc(v): p = self.padd(p, sgn(cv(v), w) * sc)
            else: p = self.padd(p, bvbin('mul', sext(v, 64), BV(sc, 64), 1))
        if isinstance(p, Ptr) and isinstance(p.off, T):
            c0, l = self.linform(p.off)
            for k, (a, x) in enumerate(l):
                if x.op == 'ite' and self.const_leaves(x):
                    rest = Ptr(p.obj, c0)
                    for j, (b, y) in enumerate(l):
                        if j != k: rest = self.padd(rest, bvbin('mul', y, BV(b, 64)))
                    base = BV(rest.off, 64) if isinstance(rest.off, int) else rest.off
                    self.fork_leaves(st, ins, x, work, lambda v, base=base, a=a, p=p: Ptr(p.obj, (lambda r: sgn(cv(r), 64) if isc(r) else r)(bvbin('add', base, bvbin('mul', v, BV(a, 64))))))
                    return
        fr.regs[ins[1]] = p
        fr.idx += 1
    def const_leaves(self, x):
        if isc(x): return True
        return x.op == 'ite' and self.const_leaves(x.args[1]) and self.const_leaves(x.args[2])
    def fork_leaves(self, st, ins, x, work, mk):
        """one path per constant leaf of the index x; the instruction's result on that path is mk(leaf)"""
        while x.op == 'ite':
            c, a, b = x.args
            ch = self.branch(st, c)
            if not ch: raise PathEnd('infeasible')
            if len(ch) == 2:
                s2 = st.fork()
                if self.assume(s2, bnot(c)):
                    try: self.fork_leaves(s2, ins, b, work, mk); work.append(s2)
                    except PathEnd: pass
                if not self.assume(st, c): raise PathEnd('infeasible')
                x = a
            else: x = a if ch[0] else b
        st.frames[-1].regs[ins[1]] = mk(x); st.frames[-1].idx += 1
    def i_load(self, st, fr, ins, work):
        p = self.val(st, ins[5])
        v = self.load(st, p, ins[4], ins, work)
        fr.regs[ins[1]] = v
        fr.idx += 1
    def i_store(self, st, fr, ins, work):
        v = self.val(st, ins[5]); p = self.val(st, ins[6])
        self.store(st, p, ins[4], v, ins)
        fr.idx += 1
    def i_atomicrmw(self, st, fr, ins, work):
        # one thread: the read-modify-write is a load and a store
        op = ins[4]; ty = ins[5]; p = self.val(st, ins[6]); b = self.val(st, ins[7])
        if op not in ('add', 'sub', 'and', 'or', 'xor', 'xchg'): raise Unsupported('atomicrmw ' + op)
        a = self.load(st, p, ty, ins, work)
        self.store(st, p, ty, b if op == 'xchg' else self.ibin(st, op, a, b, int(ty[1:]), 0, 0, ins), ins)
        fr.regs[ins[1]] = a
        fr.idx += 1
    def i_icmp(self, st, fr, ins, work):
        a = self.val(st, ins[6]); b = self.val(st, ins[7])
        fr.regs[ins[1]] = b2bv(self.icmp(st, ins[4], ins[5], a, b), 1)
        fr.idx += 1
    def icmp(self, st, p, ty, a, b):
        if isinstance(a, (Ptr, FnPtr)) or isinstance(b, (Ptr, FnPtr)) or ty == 'ptr':
            if isinstance(a, T) and isc(a): a = Ptr(0, cv(a))
            if isinstance(b, T) and isc(b): b = Ptr(0, cv(b))
            if a is UNDEF or b is UNDEF: return mk('=', (self.fresh(st, 'undef!i1', 1), BV(1, 1)), 'B')
            if isinstance(a, T) and a.op == 'ite':
                raise Unsupported('icmp of merged pointer')
            if isinstance(a, FnPtr) or isinstance(b, FnPtr):
                e = isinstance(a, FnPtr) and isinstance(b, FnPtr) and a.name == b.name
                if p == 'eq': return Bc(e)
                if p == 'ne': return Bc(not e)
                return Bc(p in ('ugt', 'uge')) 
            if a.obj == b.obj:
                if isinstance(a.off, int) and isinstance(b.off, int):
                    x, y = a.off, b.off
                    return Bc({'eq': x == y, 'ne': x != y, 'ult': x < y, 'ule': x <= y, 'ugt': x > y, 'uge': x >= y, 'slt': x < y, 'sle': x <= y, 'sgt': x > y, 'sge': x >= y}[p])
                x = BV(a.off, 64) if isinstance(a.off, int) else a.off
                y = BV(b.off, 64) if isinstance(b.off, int) else b.off
                q = {'ult': 'slt', 'ule': 'sle', 'ugt': 'sgt', 'uge': 'sge'}.get(p, p)
                return bcmp(q, x, y)
            if p == 'eq': return FALSE
            if p == 'ne': return TRUE
            self.assumptions.add('ordering of pointers into different objects follows allocation order')
            return Bc({'ult': a.obj < b.obj, 'ule': a.obj < b.obj, 'ugt': a.obj > b.obj, 'uge': a.obj > b.obj}.get(p, a.obj < b.obj))
        w = int(ty[1:])
        a = self.asint(st, a, w); b = self.asint(st, b, w)
        return bcmp(p, a, b)
    def i_fcmp(self, st, fr, ins, work):
        a = self.asreal(st, self.val(st, ins[5])); b = self.asreal(st, self.val(st, ins[6]))
        p = ins[4]
        if p in ('oeq', 'ueq'): c = req(a, b)
        elif p in ('one', 'une'): c = bnot(req(a, b))
        elif p in ('olt', 'ult'): c = rlt(a, b)
        elif p in ('ole', 'ule'): c = rle(a, b)
        elif p in ('ogt', 'ugt'): c = rlt(b, a)
        elif p in ('oge', 'uge'): c = rle(b, a)
        elif p in ('ord', 'true'): c = TRUE
        elif p in ('uno', 'false'): c = FALSE
        else: raise Unsupported('fcmp ' + p)
        fr.regs[ins[1]] = b2bv(c, 1)
        fr.idx += 1
    def i_phi(self, st, fr, ins, work):
        raise Unsupported('phi reached directly')
    def goto(self, st, fr, b):
        src = fr.blk
        blk = fr.fn['blocks'][b]
        i = 0; vals = []
        while blk[i][0] == 'phi':
            ins = blk[i]
            for v, pb in ins[5]:
                if pb == src:
                    vals.append((ins[1], self.val(st, v))); break
            else: raise Unsupported('phi edge')
            i += 1
        inv = self.loops.get(fr.fn['dn'].split('(')[0]) if self.loops else None
        if inv is not None and b in self.headers(fr.fn)[0]: vals = self.cut_loop(st, fr, src, b, vals, inv, blk)
        for k, v in vals: fr.regs[k] = v
        fr.prev = src; fr.blk = b; fr.idx = i
        if b <= src:
            k = (len(st.frames), id(fr.fn), b)
            n = st.visits.get(k, 0) + 1
            st.visits[k] = n
            if n > st.opts.get('loop-limit', 20000): raise Unsupported('loop limit in ' + fr.fn['dn'])
    # ---- loop contracts: the invariant replaces the loop (checked on entry, havoc, assumed, checked after the body)
    def headers(self, f):
        r = self.loopinfo_cache.get(id(f))
        if r is None:
            succ = []
            for blk in f['blocks']:
                t = blk[-1]
                if t[0] == 'br': succ.append([t[5]] if t[4] is None else [t[5], t[6]])
                elif t[0] == 'switch': succ.append([t[5]] + [x for _, x in t[6]])
                elif t[0] == 'call': succ.append([t[7]] if t[7] >= 0 else [])
                else: succ.append([])
            heads = set(); back = set(); seen = set(); onst = set()
            st = [(0, iter(succ[0]))]; seen.add(0); onst.add(0)
            while st:
                n, it = st[-1]
                for m in it:
                    if m in onst: heads.add(m); back.add((n, m))
                    elif m not in seen:
                        seen.add(m); onst.add(m); st.append((m, iter(succ[m]))); break
                else: st.pop(); onst.discard(n)
            r = self.loopinfo_cache[id(f)] = (heads, back)
        return r
    def eval_inv(self, st, fname, xs):
        s2 = st.fork(); f = self.m.funcs[fname]; fr = Frame(f)
        av = []
        for ys in ([x for x in xs if x.sort == 'R'], [x if x.sort == 64 else zext(x, 64) if x.sort < 32 else sext(x, 64) for x in xs if type(x.sort) is int]):
            o = self.newobj(s2, 8 * max(1, len(ys)), 'stack', 'inv')
            for i, x in enumerate(ys): self.store_cell(s2, self.wobj(s2, o), 8 * i, 8, x)
            av += [Ptr(o, 0), BV(len(ys), 32)]
        for (pid, pty, *attr), v in zip(f['params'], av): fr.regs[pid] = v
        s2.frames = [fr]; s2.opts['inv'] = TRUE; s2.pc = list(st.pc); wk = []
        self.runpath(s2, wk)
        if wk: raise Unsupported('loop invariant branches')
        return s2.opts['inv']
    def cut_loop(self, st, fr, src, b, vals, inv, blk):
        isback = (src, b) in self.headers(fr.fn)[1]
        lk = (fr.fn['dn'], b)
        mod = sorted(self.loop_mod.get(lk, ()))    # address-taken scalar locals the body assigns
        locs = []
        for ai in mod:
            o = st.mem[fr.allocas[ai]]; c = o.cells.get(0)
            if len(o.cells) != 1 or c is None or c[0] != o.size or not isinstance(c[1], T): raise Unsupported('loop with a contract writes memory (%s)' % o.name)
            locs.append((fr.allocas[ai], c))
        where = '%s:loop' % fr.fn['dn'].split('(')[0]
        g = self.eval_inv(st, inv, [v for k, v in vals if isinstance(v, T)] + [c[1] for _, c in locs])
        self.oblige(st, 'loop invariant preserved' if isback else 'loop invariant holds on entry', 'inv', where, g)
        st.covers.add('loop invariant')
        key = ('loop', len(st.frames), id(fr.fn), b)
        if isback:
            m0 = st.ghost.get(key)
            for i, o in m0.items():
                n = st.mem.get(i)
                if n is None or n is o or re.match(r'_ZL\d+gv_', o.name) or i in st.ghost.get('lframe', ()): continue
                if o.live is not True and n.live is not None: continue   # dead at the loop head (scope opened inside the body)
                if n.cells == o.cells and n.arr == o.arr: continue
                if i in [a for a, _ in locs]: continue
                rs = [(a, a + l) for j, a, l in st.ghost.get('lfields', ()) if j == i]   # fields the loop may modify
                if rs and n.arr == o.arr and n.live is o.live:
                    out = lambda c: {k: x for k, x in c.items() if not any(a <= k and k + x[0] <= b for a, b in rs)}
                    if out(n.cells) == out(o.cells): continue
                if i in fr.allocas: self.loop_mod.setdefault(lk, set()).add(fr.allocas.index(i)); raise Restart()
                raise Unsupported('loop with a contract writes memory (%s)' % o.name)
            raise PathEnd('loop-cut')
        # ghost variables of the contract (globals gv_*) may change in the body
        for gname, g in self.m.globals.items():
            if re.match(r'_ZL\d+gv_', gname) and not g['const'] and isinstance(g['ty'], str) and g['ty'] != 'ptr':
                p = self.glob(st, gname); o = self.wobj(st, p.obj); n = o.size
                gv = self.fresh(st, 'ghost', 'R' if g['ty'][0] == 'f' else 8 * n)
                o.cells = {0: (n, gv)}; o.zero = False
        for i in st.ghost.get('lframe', ()):   # memory the loop may modify
            o = self.wobj(st, i)
            if o.arr is None: raise Unsupported('loop frame object is not a symbolic array')
            for off, (n, sort, a) in list(o.arr['fields'].items()):
                k = st.names.get('loopmem', 0); st.names['loopmem'] = k + 1
                o.arr['fields'][off] = (n, sort, avar('loopmem!%d' % k, sort))
        for i, a, l in st.ghost.get('lfields', ()):
            o = self.wobj(st, i)
            for k, (n, v) in list(o.cells.items()):
                if a <= k and k + n <= a + l:
                    if not isinstance(v, T): raise Unsupported('loop field holds a pointer')
                    o.cells[k] = (n, self.fresh(st, 'loopfield', v.sort))
        lv = []
        for i, (n, v) in locs:
            o = self.wobj(st, i); x = self.fresh(st, 'loop', v.sort); o.cells = {0: (n, x)}; lv.append(x)
        st.owned = set()
        st.ghost = dict(st.ghost); st.ghost[key] = dict(st.mem)
        out = []
        for k, v in vals:
            if not isinstance(v, T): raise Unsupported('loop with a contract carries a pointer')
            nv = self.fresh(st, 'loop', v.sort)
            out.append((k, nv))
        if not self.assume(st, self.eval_inv(st, inv, [v for k, v in out] + lv)): raise PathEnd('infeasible')
        return out
    def i_br(self, st, fr, ins, work):
        if ins[4] is None:
            self.goto(st, fr, ins[5]); return
        c = self.val(st, ins[4])
        c = self.asbool(st, c)
        self.cond(st, fr, c, ins[5], ins[6], work, ins)
    def asbool(self, st, c):
        if c is UNDEF: c = self.fresh(st, 'undef!i1', 1)
        if isinstance(c, T): return bv2b(c)
        raise Unsupported('branch condition')
    def cond(self, st, fr, c, b1, b2, work, ins):
        ch = self.branch(st, c)
        if len(ch) == 2:
            s2 = st.fork()
            if self.assume(s2, bnot(c)):
                f2 = s2.frames[-1]
                self.goto(s2, f2, b2)
                work.append(s2)
            if not self.assume(st, c): raise PathEnd('infeasible')
            self.goto(st, fr, b1)
            self.nfork(st)
        elif not ch: raise PathEnd('infeasible')
        else:
            self.goto(st, fr, b1 if ch[0] else b2)
    def nfork(self, st): pass
    def i_switch(self, st, fr, ins, work):
        v = self.asint(st, self.val(st, ins[4]), ins[7])
        w = ins[7]
        if isc(v):
            x = cv(v)
            for k, b in ins[6]:
                if int(k) & ((1 << w) - 1) == x: self.goto(st, fr, b); return
            self.goto(st, fr, ins[5]); return
        targets = []
        for k, b in ins[6]: targets.append((beq(v, BV(int(k), w)), b))
        nd = TRUE
        for c, b in targets: nd = band(nd, bnot(c))
        opts = [(c, b) for c, b in targets + [(nd, ins[5])] if True in self.branch(st, c)]
        if not opts: raise PathEnd('infeasible')
        for c, b in opts[1:]:
            s2 = st.fork()
            if self.assume(s2, c):
                self.goto(s2, s2.frames[-1], b); work.append(s2)
        if not self.assume(st, opts[0][0]): raise PathEnd('infeasible')
        self.goto(st, fr, opts[0][1])
    def i_ret(self, st, fr, ins, work):
        v = self.val(st, ins[5]) if len(ins) > 5 else None
        st.frames.pop()
        for a in fr.allocas:
            o = self.wobj(st, a); o.freed = True; o.cells = {}; o.arr = None
        if not st.frames: return 'done'
        ret, nb = fr.ret
        f = st.frames[-1]
        if ret >= 0: f.regs[ret] = v
        if nb >= 0: self.goto(st, f, nb)
        else: f.idx += 1
    def i_select(self, st, fr, ins, work):
        c = self.asbool(st, self.val(st, ins[5])) if not isinstance(self.val(st, ins[5]), list) else None
        if c is None: raise Unsupported('vector select')
        a = self.val(st, ins[6]); b = self.val(st, ins[7])
        if c is TRUE: fr.regs[ins[1]] = a; fr.idx += 1; return
        if c is FALSE: fr.regs[ins[1]] = b; fr.idx += 1; return
        if isinstance(a, T) and isinstance(b, T):
            if a.sort == 'R' and not st.opts.get('merge'):
                # split on real selects: keeps the algebra polynomial
                ch = self.branch(st, c)
                if len(ch) == 2:
                    if a is b: fr.regs[ins[1]] = a; fr.idx += 1; return
                    s2 = st.fork()
                    if self.assume(s2, bnot(c)):
                        s2.frames[-1].regs[ins[1]] = b; s2.frames[-1].idx += 1; work.append(s2)
                    if not self.assume(st, c): raise PathEnd('infeasible')
                    fr.regs[ins[1]] = a
                elif not ch: raise PathEnd('infeasible')
                else: fr.regs[ins[1]] = a if ch[0] else b
                fr.idx += 1; return
            fr.regs[ins[1]] = ite(c, a, b); fr.idx += 1; return
        ch = self.branch(st, c)
        if len(ch) == 2:
            s2 = st.fork()
            if self.assume(s2, bnot(c)):
                s2.frames[-1].regs[ins[1]] = b; s2.frames[-1].idx += 1; work.append(s2)
            if not self.assume(st, c): raise PathEnd('infeasible')
            fr.regs[ins[1]] = a
        elif not ch: raise PathEnd('infeasible')
        else: fr.regs[ins[1]] = a if ch[0] else b
        fr.idx += 1
    def i_fneg(self, st, fr, ins, work):
        a = self.val(st, ins[5])
        fr.regs[ins[1]] = [rneg(self.asreal(st, x)) for x in a] if isinstance(a, list) else rneg(self.asreal(st, a)); fr.idx += 1
    def i_freeze(self, st, fr, ins, work):
        fr.regs[ins[1]] = self.val(st, ins[5]); fr.idx += 1
    def i_unreachable(self, st, fr, ins, work):
        raise PathEnd('unreachable')
    def i_resume(self, st, fr, ins, work): raise PathEnd('unwind')
    def i_landingpad(self, st, fr, ins, work): raise PathEnd('unwind')
    def i_fence(self, st, fr, ins, work): fr.idx += 1
    def i_extractvalue(self, st, fr, ins, work):
        v = self.val(st, ins[4])
        for k in ins[5]: v = UNDEF if v is UNDEF else v[k]
        fr.regs[ins[1]] = v; fr.idx += 1
    def i_insertvalue(self, st, fr, ins, work):
        a = self.val(st, ins[4]); v = self.val(st, ins[5])
        def ins_(a, t, idx):
            if a is UNDEF:
                n = len(t[1]) if t[0] == 's' else t[1]
                a = [UNDEF] * n
            a = list(a)
            sub = (t[1][idx[0]] if t[0] == 's' else t[2])
            a[idx[0]] = v if len(idx) == 1 else ins_(a[idx[0]], sub, idx[1:])
            return a
        fr.regs[ins[1]] = ins_(a, ins[7], ins[6]); fr.idx += 1
    def i_extractelement(self, st, fr, ins, work):
        v = self.val(st, ins[5]); k = self.val(st, ins[6])
        fr.regs[ins[1]] = v[cv(k)]; fr.idx += 1
    def i_insertelement(self, st, fr, ins, work):
        v = self.val(st, ins[5]); x = self.val(st, ins[6]); k = self.val(st, ins[7])
        n = ins[4][1]
        v = [UNDEF] * n if v is UNDEF else list(v)
        v[cv(k)] = x
        fr.regs[ins[1]] = v; fr.idx += 1
    def i_shufflevector(self, st, fr, ins, work):
        a = self.val(st, ins[4]); b = self.val(st, ins[5])
        n = len(a) if a is not UNDEF else len(b)
        l = (list(a) if a is not UNDEF else [UNDEF] * n) + (list(b) if b is not UNDEF else [UNDEF] * n)
        fr.regs[ins[1]] = [UNDEF if k < 0 else l[k] for k in ins[6]]; fr.idx += 1
    def i_cast(self, st, fr, ins, work):
        k, s, d = ins[4], ins[5], ins[6]
        v = self.val(st, ins[7])
        if isinstance(d, list) and k != 'bitcast':
            r = [self.cast(st, k, s[2], d[2], x, ins) for x in v]
        else: r = self.cast(st, k, s, d, v, ins)
        fr.regs[ins[1]] = r; fr.idx += 1
    def cast(self, st, k, s, d, v, ins):
        if k in ('ptrtoint', 'inttoptr'):
            if k == 'inttoptr' and isinstance(v, T):
                if isc(v): return Ptr(0, cv(v))
                raise Unsupported('inttoptr of symbolic integer')
            return v
        if k == 'bitcast':
            if s == d: return v
            if isinstance(s, str) and isinstance(d, str):
                if d == 'f64' and s == 'i64': return self.bits2f(st, v)
                if s == 'f64' and d == 'i64': return self.f2bits(st, v)
            raise Unsupported('bitcast %s %s' % (s, d))
        if k in ('zext', 'sext', 'trunc'):
            w = int(d[1:])
            if isinstance(v, (Ptr, FnPtr)):
                raise Unsupported('cast of pointer')
            v = self.asint(st, v, int(s[1:]))
            return {'zext': zext, 'sext': sext, 'trunc': TM.trunc}[k](v, w)
        if k in ('sitofp', 'uitofp'):
            v = self.asint(st, v, int(s[1:]))
            return i2r(v, k == 'sitofp')
        if k in ('fptosi', 'fptoui'):
            w = int(d[1:])
            v = self.asreal(st, v)
            if not isc(v) and not st.opts.get('no-overflow-obligations'):
                lim = R(Fraction(2) ** (w - 1 if k == 'fptosi' else w))
                lo = rneg(lim) if k == 'fptosi' else RM1
                g = band(rlt(v, lim), rlt(rsub(lo, R1) if k == 'fptosi' else lo, v))
                self.oblige(st, 'float to integer conversion in range', 'safety', self.loc(ins), g)
            return r2i(v, w, k == 'fptosi')
        if k == 'fpext': return v
        if k == 'fptrunc':
            if d == 'f32':
                v = self.asreal(st, v)
                if isc(v):
                    f = float(v.args[0]); return R(Fraction(*struct.unpack('f', struct.pack('f', f))[0].as_integer_ratio()))
                return mk('f32', (v,), 'R')
            return v
        raise Unsupported('cast ' + k)
    def bits2f(self, st, v):
        if v is UNDEF: return self.fresh(st, 'undef!', 'R')
        if isinstance(v, T):
            if v.sort == 'R': return v
            if isc(v):
                f = struct.unpack('>d', struct.pack('>Q', cv(v)))[0]
                return R(Fraction(*f.as_integer_ratio()))
            if v.op == 'f2bits': return v.args[0]
            return mk('bits2f', (v,), 'R')
        raise Unsupported('bits2f')
    def f2bits(self, st, v):
        v = self.asreal(st, v)
        if isc(v) and Fraction(float(cv(v))) == cv(v): return BV(struct.unpack('>Q', struct.pack('>d', float(cv(v))))[0], 64)
        if v.op == 'bits2f': return v.args[0]
        return mk('f2bits', (v,), 64)

    # ------------------------------------------------------------ memory
    def ub(self, st, label, ins):
        self.oblige(st, label, 'safety', self.loc(ins) if ins else '?', FALSE)
        raise PathEnd('ub')
    def check_ptr(self, st, p, n, ins, what):
        if p is UNDEF: self.ub(st, what + ' through an uninitialised pointer', ins)
        if isinstance(p, T):
            if isc(p): p = Ptr(0, cv(p))
            else: raise Unsupported('symbolic pointer')
        if isinstance(p, FnPtr): raise Unsupported('access through function pointer')
        if p.obj == 0: self.ub(st, what + ' through a null pointer', ins)
        o = st.mem[p.obj]
        if o.freed: self.ub(st, what + ' of a dead object', ins)
        off = p.off
        if isinstance(off, int) and isinstance(o.size, int):
            if off < 0 or off + n > o.size: self.ub(st, what + ' out of bounds', ins)
        else:
            so = BV(off, 64) if isinstance(off, int) else off
            sz = BV(o.size, 64) if isinstance(o.size, int) else o.size
            # no-wrap form: off <=u size-n and n <=u size
            g = band(bcmp('ule', BV(n, 64), sz), bcmp('ule', so, bvbin('sub', sz, BV(n, 64))))
            if g is not TRUE:
                self.oblige(st, what + ' in bounds', 'safety', self.loc(ins) if ins else '?', g)
                if not self.assume(st, g): raise PathEnd('ub')
        return p

    def load(self, st, p, ty, ins, work=None):
        if isinstance(ty, list):
            if ty[0] == 's': return [self.load(st, self.padd(p, o), t, ins) for t, o in zip(ty[1], ty[2])]
            return [self.load(st, self.padd(p, j * ty[3]), ty[2], ins) for j in range(ty[1])]
        n = tsize(ty)
        p = self.check_ptr(st, p, n, ins, 'read')
        o = st.mem[p.obj]
        if o.arr is None and isinstance(p.off, int) and isinstance(o.size, int):
            return self.load_cell(st, p.obj, o, p.off, n, ty)
        return self.load_sym(st, p, n, ty, ins)
    def conv(self, st, v, ty, n):
        if ty == 'f64' or ty == 'f32':
            if isinstance(v, T):
                if v.sort == 'R': return v
                if ty == 'f64': return self.bits2f(st, v)
                if isc(v): return R(fbits('%x' % cv(v)))
                raise Unsupported('float bits')
            if v is UNDEF: return v
            if isinstance(v, Ptr) and v.obj == 0: return R0
            raise Unsupported('load of pointer as float')
        if ty == 'ptr':
            if isinstance(v, (Ptr, FnPtr)) or v is UNDEF: return v
            if isinstance(v, T) and isc(v): return Ptr(0, cv(v))
            return v
        w = int(ty[1:])
        if isinstance(v, T):
            if v.sort == 'R':
                if n == 8: return self.f2bits(st, v)
                raise Unsupported('load real as int')
            if v.sort == w: return v
            if v.sort > w: return TM.trunc(v, w)
            return zext(v, w)
        return v   # pointer as integer
    def load_cell(self, st, oid, o, off, n, ty):
        c = o.cells.get(off)
        if c is not None:
            if c[0] == n: return self.conv(st, c[1], ty, n)
            if c[0] > n and isinstance(c[1], T) and c[1].sort != 'R':
                return self.conv(st, TM.trunc(c[1], n * 8), ty, n)
        # covered by a larger cell?
        if isinstance(ty, str):
            for k in range(1, 8):
                b = o.cells.get(off - k)
                if b is not None and b[0] > k:
                    if b[0] >= k + n and isinstance(b[1], T) :
                        v = b[1]
                        if v.sort == 'R': v = self.f2bits(st, v)
                        return self.conv(st, ext_any(v, 8 * k, 8 * n), ty, n)
                    break
            # assembled from smaller cells
            parts = []; pos = off; ok = True
            if n > 1 and (c is None or c[0] < n):
                while pos < off + n:
                    b = o.cells.get(pos)
                    if b is None:
                        if o.zero: parts.append((pos, BV(0, 8))); pos += 1; continue
                        if c is not None and o.lazy is None and ty[0] == 'i':   # bytes never written keep an arbitrary value
                            v = self.fresh(st, 'uninit!%s+%d' % (o.name or 'o', pos), 8)
                            o = self.wobj(st, oid); o.cells[pos] = (1, v); parts.append((pos, v)); pos += 1; continue
                        ok = False; break
                    if not isinstance(b[1], T) or b[1].sort == 'R' or pos + b[0] > off + n: ok = False; break
                    parts.append((pos, b[1])); pos += b[0]
                if ok and any(o.cells.get(x) for x, _ in parts):
                    w = n * 8; r = BV(0, w)
                    for x, v in parts:
                        r = bvbin('or', r, bvbin('shl', zext(v, w), BV(8 * (x - off), w)))
                    return self.conv(st, r, ty, n)
        if c is not None and c[0] != n and isinstance(c[1], T) and c[1].sort == 'R' and n < 8 and ty[0] == 'i':
            return self.conv(st, TM.trunc(self.f2bits(st, c[1]), n * 8), ty, n)
        if c is None and o.zero: return self.conv(st, self.zero(ty), ty, n)
        if o.lazy is not None:
            o = self.wobj(st, oid)
            v = self.lazyvar(st, o, off, ty)
            o.cells[off] = (n, v)
            return v
        if c is None:
            o = self.wobj(st, oid)
            if ty == 'ptr': return UNDEF
            v = self.fresh(st, 'uninit!%s+%d' % (o.name or 'o', off), 'R' if ty[0] == 'f' else int(ty[1:]))
            o.cells[off] = (n, v)
            return v
        raise Unsupported('mixed-size load at %s+%d n=%d cell=%s' % (o.name, off, n, c[0]))
    def lazyvar(self, st, o, off, ty):
        nm = '%s@%d:%s' % (o.lazy, off, ty)
        if ty == 'ptr': raise Unsupported('lazy pointer in ' + nm)
        v = var(nm, 'R' if ty[0] == 'f' else int(ty[1:]))
        self.varinfo[nm] = v
        return v

    def store(self, st, p, ty, v, ins):
        if isinstance(ty, list):
            if v is UNDEF: return
            if ty[0] == 's':
                for x, t, o in zip(v, ty[1], ty[2]): self.store(st, self.padd(p, o), t, x, ins)
            else:
                for j, x in enumerate(v): self.store(st, self.padd(p, j * ty[3]), ty[2], x, ins)
            return
        n = tsize(ty)
        p = self.check_ptr(st, p, n, ins, 'write')
        if v is UNDEF and ty != 'ptr': v = self.fresh(st, 'undef!', 'R' if ty[0] == 'f' else int(ty[1:]))
        if ty in ('i1',) and isinstance(v, T): v = zext(v, 8)
        o = self.wobj(st, p.obj)
        if o.const: self.ub(st, 'write to constant memory', ins)
        if o.arr is None and isinstance(p.off, int) and isinstance(o.size, int):
            self.store_cell(st, o, p.off, n, v)
            return
        self.store_sym(st, p, n, ty, v, ins)
    def clear(self, st, o, off, n):
        """remove cells overlapping [off,off+n), splitting integer cells"""
        for k in range(1, 16):
            b = o.cells.get(off - k)
            if b is not None:
                if b[0] > k: self.split(st, o, off - k)
                break
        last = None
        for x in range(off, off + n):
            b = o.cells.get(x)
            if b is not None:
                if x + b[0] > off + n: self.split(st, o, x)
                o.cells.pop(x, None)
    def split(self, st, o, x):
        n, v = o.cells.pop(x)
        if not isinstance(v, T): return
        if v.sort == 'R':
            if n != 8: return
            v = self.f2bits(st, v)
        for k in range(n): o.cells[x + k] = (1, ext_any(v, 8 * k, 8))
    def store_cell(self, st, o, off, n, v):
        c = o.cells.get(off)
        if c is not None and c[0] == n:
            o.cells[off] = (n, v); return
        self.clear(st, o, off, n)
        o.cells[off] = (n, v)

    # ---- symbolic offsets
    def linform(self, t):
        """bv64 offset term -> (const, [(coef, term)])"""
        if isinstance(t, int): return t, []
        if isc(t): return sgn(cv(t), 64), []
        if t.op == 'add':
            c1, l1 = self.linform(t.args[0]); c2, l2 = self.linform(t.args[1])
            return c1 + c2, l1 + l2
        if t.op == 'mul' and isc(t.args[1]):
            c, l = self.linform(t.args[0]); k = sgn(cv(t.args[1]), 64)
            return c * k, [(a * k, x) for a, x in l]
        if t.op == 'shl' and isc(t.args[1]):
            c, l = self.linform(t.args[0]); k = 1 << cv(t.args[1])
            return c * k, [(a * k, x) for a, x in l]
        if t.op == 'sub':
            c1, l1 = self.linform(t.args[0]); c2, l2 = self.linform(t.args[1])
            return c1 - c2, l1 + [(-a, x) for a, x in l2]
        return 0, [(1, t)]
    def to_arr(self, st, oid, stride, n, sort_hint):
        o = self.wobj(st, oid)
        if o.arr is not None:
            return o
        o.arr = {'stride': stride, 'fields': {}}
        return o
    def field(self, st, o, oid, foff, n, sort):
        f = o.arr['fields'].get(foff)
        S = o.arr['stride']
        if f is not None:
            if f[0] != n: raise Unsupported('field size mismatch in symbolic array %s' % o.name)
            return f
        # build the base array from the cells
        if o.lazy is not None: base = avar('%s@%d' % (o.lazy, foff), sort)
        elif o.zero: base = afill(R0 if sort == 'R' else BV(0, sort))
        else:
            k = st.names.get('uninitarr', 0); st.names['uninitarr'] = k + 1
            base = avar('uninit!%s@%d#%d' % (o.name, foff, k), sort)
        a = base
        for off in sorted(o.cells):
            c = o.cells[off]
            if off % S == foff and c[0] == n and isinstance(c[1], T):
                a = astore(a, BV(off // S, 64), c[1])
            elif off % S == foff or (off % S < foff + n and foff < off % S + c[0]):
                raise Unsupported('mixed cells in symbolic array %s' % o.name)
        f = (n, sort, a)
        o.arr['fields'][foff] = f
        return f
    def sym_index(self, st, p, n, o):
        c, l = self.linform(p.off)
        if o.arr is not None: S = o.arr['stride']
        else:
            S = 0
            for a, x in l: S = math.gcd(S, abs(a))
            if S == 0: S = n
        if S == 0 or any(a % S for a, x in l): raise Unsupported('stride mismatch in symbolic access of %s (stride %d, access %r)' % (o.name, S, [a for a, _ in l]))
        q, foff = divmod(c, S)
        idx = BV(q, 64)
        for a, x in l: idx = bvbin('add', idx, bvbin('mul', x, BV(a // S, 64)))
        if foff + n > S: raise Unsupported('straddling symbolic access of %s stride %d size %s access %d+%d at %r' % (o.name, S, o.size, foff, n, l))
        return S, foff, idx
    def sort_of(self, ty): return 'R' if ty[0] == 'f' else int(ty[1:]) if ty != 'i1' else 8
    def small(self, o):
        return isinstance(o.size, int) and o.arr is None
    def load_sym(self, st, p, n, ty, ins):
        oid = p.obj; o = st.mem[oid]
        S, foff, idx = self.sym_index(st, p, n, o)
        if self.small(o) and o.size // S <= 40:
            # finite candidates: ite chain over in-bounds elements
            vals = []
            for k in range(o.size // S):
                off = k * S + foff
                if off + n > o.size: break
                c = beq(idx, BV(k, 64))
                if c is FALSE: continue
                vals.append((c, self.load_cell(st, oid, st.mem[oid], off, n, ty)))
            if vals and all(isinstance(v, T) for _, v in vals):
                r = vals[-1][1]
                for c, v in reversed(vals[:-1]): r = ite(c, v, r)
                return r
            raise Unsupported('symbolic load of pointers from %s' % o.name)
        if ty == 'ptr': raise Unsupported('symbolic load of pointer from %s' % o.name)
        o = self.to_arr(st, oid, S, n, None)
        so = self.sort_of(ty)
        f = self.field(st, o, oid, foff, n, so)
        v = select(f[2], idx, f[1])
        return self.conv(st, v, ty, n)
    def store_sym(self, st, p, n, ty, v, ins):
        oid = p.obj; o = st.mem[oid]
        S, foff, idx = self.sym_index(st, p, n, o)
        if self.small(o) and o.size // S <= 40:
            o = self.wobj(st, oid)
            for k in range(o.size // S):
                off = k * S + foff
                if off + n > o.size: break
                c = beq(idx, BV(k, 64))
                if c is FALSE: continue
                if c is TRUE: self.store_cell(st, o, off, n, v); continue
                old = self.load_cell(st, oid, o, off, n, ty)
                o = self.wobj(st, oid)
                if not (isinstance(old, T) and isinstance(v, T)): raise Unsupported('symbolic store of pointers')
                self.store_cell(st, o, off, n, ite(c, v, old))
            return
        o = self.to_arr(st, oid, S, n, None)
        so = self.sort_of(ty)
        f = self.field(st, o, oid, foff, n, so)
        if not isinstance(v, T): raise Unsupported('symbolic store of pointer')
        if so == 'R' and v.sort != 'R': v = self.bits2f(st, v)
        o.arr['fields'][foff] = (f[0], f[1], astore(f[2], idx, v))

    def lifetime(self, st, p, on):
        if isinstance(p, Ptr) and p.obj and p.off == 0:
            o = self.wobj(st, p.obj); o.cells = {}; o.arr = None; o.zero = False; o.live = on
    # ---- memcpy / memset
    def memcpy(self, st, d, s, n, ins):
        if isinstance(n, T) and isc(n): n = cv(n)
        if isinstance(n, int):
            if n == 0: return
            d = self.check_ptr(st, d, n, ins, 'write'); s = self.check_ptr(st, s, n, ins, 'read')
            so = st.mem[s.obj]; do = self.wobj(st, d.obj)
            if isinstance(d.off, int) and isinstance(s.off, int) and so.arr is None and do.arr is None and isinstance(so.size, int) and isinstance(do.size, int):
                self.copy_cells(st, d, s, n)
                return
            if n <= 64:
                # small constant copy on a symbolic array: element-wise
                S = (so.arr or do.arr or {'stride': 0})['stride'] or n
                so2 = so
                if so.arr is not None:
                    for foff, (fn_, sort, a) in sorted(so.arr['fields'].items()): pass
                if n == S or n == 1:
                    ty = 'i%d' % (8 * n) if n in (1, 2, 4, 8) else None
                    if ty:
                        # prefer the sort already present
                        for ob in (so, do):
                            if ob.arr is not None:
                                for f in ob.arr['fields'].values():
                                    if f[0] == n and f[1] == 'R': ty = 'f64'
                            elif any(isinstance(c[1], T) and c[1].sort == 'R' for c in list(ob.cells.values())[:4]): ty = 'f64'
                        v = self.load(st, s, ty, ins); self.store(st, d, ty, v, ins); return
            n = BV(n, 64)
        # symbolic length (or symbolic offset with a long constant length)
        z = beq(n, BV(0, 64))
        if z is TRUE: return
        for p, w in ((d, 'write'), (s, 'read')):
            if not isinstance(p, Ptr): raise Unsupported('memcpy through ' + repr(p))
            if p.obj == 0:
                self.oblige(st, w + ' through a null pointer', 'safety', self.loc(ins), z)
                if not self.assume(st, z): raise PathEnd('ub')
                return
            o = st.mem[p.obj]
            if o.freed:
                self.oblige(st, w + ' of a dead object', 'safety', self.loc(ins), z)
                if not self.assume(st, z): raise PathEnd('ub')
                return
            so_ = BV(p.off, 64) if isinstance(p.off, int) else p.off
            sz = BV(o.size, 64) if isinstance(o.size, int) else o.size
            g = bor(z, band(bcmp('ule', n, sz), bcmp('ule', so_, bvbin('sub', sz, n))))
            if g is not TRUE:
                self.oblige(st, w + ' in bounds (block copy)', 'safety', self.loc(ins), g)
                if not self.assume(st, g): raise PathEnd('ub')
        so = st.mem[s.obj]; do = self.wobj(st, d.obj)
        S = None
        for ob in (so, do):
            if ob.arr is not None: S = ob.arr['stride']
        if S is None:
            c, l = self.linform(n); g = abs(c)
            for a, x in l: g = math.gcd(g, abs(a))
            for p in (d, s):
                c, l = self.linform(p.off); g = math.gcd(g, abs(c))
                for a, x in l: g = math.gcd(g, abs(a))
            S = g if g in (1, 2, 4, 8) else 1
        def div(t):
            c, l = self.linform(t)
            if c % S or any(a % S for a, _ in l): raise Unsupported('memcpy stride')
            r = BV(c // S, 64)
            for a, x in l: r = bvbin('add', r, bvbin('mul', x, BV(a // S, 64)))
            return r
        n_, di, si = div(n), div(d.off), div(s.off)
        sort = None
        for ob in (so, do):
            if ob.arr is not None:
                for f in ob.arr['fields'].values(): sort = f[1]
            else:
                for c in ob.cells.values():
                    if isinstance(c[1], T): sort = c[1].sort; break
        if sort is None: sort = 8 * S
        so = self.to_arr(st, s.obj, S, S, sort); fs = self.field(st, so, s.obj, 0, S, sort)
        do = self.to_arr(st, d.obj, S, S, sort); fd = self.field(st, do, d.obj, 0, S, sort)
        if so.arr['stride'] != S or do.arr['stride'] != S: raise Unsupported('memcpy stride')
        do.arr['fields'][0] = (S, sort, acopy(fd[2], di, fs[2], si, n_))
    def copy_cells(self, st, d, s, n):
        so = st.mem[s.obj]
        items = []
        if so.lazy is not None or True:
            pass
        # split cells straddling the source range
        x = s.off
        cells = so.cells
        for k in range(1, 16):
            b = cells.get(x - k)
            if b is not None:
                if b[0] > k:
                    so = self.wobj(st, s.obj); self.split(st, so, x - k); cells = so.cells
                break
        if n < 2 * len(cells):
            xs = [y for y in range(x, x + n) if y in cells]
        else: xs = [y for y in cells if x <= y < x + n]
        for y in list(xs):
            b = cells[y]
            if y + b[0] > x + n:
                so = self.wobj(st, s.obj); self.split(st, so, y); cells = so.cells
                xs.remove(y)
                xs += [z for z in range(y, x + n) if z in cells]
        items = [(y - x, cells[y]) for y in xs]
        if so.lazy is not None and len(items) * 8 < n: 
            raise Unsupported('memcpy from a lazily symbolic object')
        zero = so.zero
        do = self.wobj(st, d.obj)
        self.clear(st, do, d.off, n)
        if zero and not do.zero:
            cov = [False] * n
            for y, b in items:
                for k in range(b[0]):
                    if y + k < n: cov[y + k] = True
            y = 0
            while y < n:
                if not cov[y]:
                    if y % 8 == 0 and not any(cov[y:y + 8]) and y + 8 <= n: do.cells[d.off + y] = (8, BV(0, 64)); y += 8; continue
                    do.cells[d.off + y] = (1, BV(0, 8))
                y += 1
        elif do.zero and not zero:
            cov = set()
            for y, b in items:
                for k in range(b[0]): cov.add(y + k)
            # uninitialised source bytes become unknown, not zero: only matters if read; keep as zero is unsound, so mark
            pass
        for y, b in items: do.cells[d.off + y] = b
    def memset(self, st, d, v, n, ins):
        if isc(n):
            k = cv(n)
            if k == 0: return
            d = self.check_ptr(st, d, k, ins, 'write')
            o = self.wobj(st, d.obj)
            if isinstance(d.off, int) and o.arr is None and isinstance(o.size, int):
                self.clear(st, o, d.off, k)
                y = 0
                while y < k:
                    if isc(v) and cv(v) == 0 and k - y >= 8 and (d.off + y) % 8 == 0:
                        o.cells[d.off + y] = (8, BV(0, 64)); y += 8
                    else:
                        o.cells[d.off + y] = (1, v); y += 1
                return
        # symbolic
        z = beq(n, BV(0, 64))
        if z is TRUE: return
        o = st.mem[d.obj] if isinstance(d, Ptr) and d.obj else None
        if o is None or o.freed:
            self.oblige(st, 'write through an invalid pointer', 'safety', self.loc(ins), z)
            if not self.assume(st, z): raise PathEnd('ub')
            return
        so_ = BV(d.off, 64) if isinstance(d.off, int) else d.off
        sz = BV(o.size, 64) if isinstance(o.size, int) else o.size
        g = bor(z, band(bcmp('ule', n, sz), bcmp('ule', so_, bvbin('sub', sz, n))))
        if g is not TRUE:
            self.oblige(st, 'write in bounds (block fill)', 'safety', self.loc(ins), g)
            if not self.assume(st, g): raise PathEnd('ub')
        S = o.arr['stride'] if o.arr is not None else 1
        if S != 1: raise Unsupported('memset stride')
        o = self.to_arr(st, d.obj, 1, 1, 8); f = self.field(st, o, d.obj, 0, 1, 8)
        if so_.op == 'c' and cv(so_) == 0 and n is sz: o.arr['fields'][0] = (1, 8, afill(v))
        else: o.arr['fields'][0] = (1, 8, afillr(f[2], so_, n, v))

    # ------------------------------------------------------------ calls
    def cstr(self, st, p):
        o = st.mem[p.obj]; s = ''
        i = p.off
        while True:
            c = o.cells.get(i)
            if c is None: break
            if c[0] != 1 or not isc(c[1]): break
            if cv(c[1]) == 0: break
            s += chr(cv(c[1])); i += 1
        return s
    def i_call(self, st, fr, ins, work):
        _, rid, _, _, rty, cal, args, nb, ub = ins
        f = self.val(st, cal)
        if not isinstance(f, FnPtr):
            if f is UNDEF and isinstance(cal, list) and cal[0] == 'asm':
                self.finish(st, fr, ins, None); return
            raise Unsupported('indirect call through %r at %s' % (f, self.loc(ins)))
        name = f.name
        vals = [self.val(st, a[0]) for a in args]
        self.call(st, fr, ins, name, vals, work)
    def finish(self, st, fr, ins, v):
        if ins[1] >= 0: fr.regs[ins[1]] = v
        if ins[7] >= 0: self.goto(st, fr, ins[7])
        else: fr.idx += 1
    def call(self, st, fr, ins, name, vals, work):
        r = self.replace.get(name)
        if r is not None and any(f.fn is self.m.funcs.get(r) for f in st.frames): r = None
        b = BUILTIN.get(name) if r is None else None
        if b is None and r is None and name.startswith('llvm.'): b = llvm_builtin(name)
        if b is not None:
            v = b(self, st, ins, vals, work)
            if v is RESCHED: return
            self.finish(st, fr, ins, v); return
        fnm = self.m.funcs.get(name)
        if r is not None:
            self.replaced.add(fnm['dn'] if fnm else name)
            fnm = self.m.funcs[r]
        if fnm is None or name in ('_ZSt4endlIcSt11char_traitsIcEERSt13basic_ostreamIT_T0_ES6_', '_ZSt5flushIcSt11char_traitsIcEERSt13basic_ostreamIT_T0_ES6_'):
            v = self.external(st, ins, name, vals)
            self.finish(st, fr, ins, v); return
        nf = Frame(fnm)
        self.enter(st, nf)
        for (pid, pty, *attr), v in zip(fnm['params'], vals):
            if attr:   # byval: callee gets a private copy
                i = self.newobj(st, attr[0][1], 'stack', 'byval')
                self.memcpy(st, Ptr(i, 0), v, attr[0][1], ins)
                nf.allocas.append(i); v = Ptr(i, 0)
            nf.regs[pid] = v
        nf.ret = (ins[1], ins[7])
        st.frames.append(nf)
        if len(st.frames) > 400: raise Unsupported('recursion')
    def external(self, st, ins, name, vals):
        dn = self.m.decls.get(name) or (self.m.funcs[name]['dn'] if name in self.m.funcs else name)
        rty = ins[4]
        if dn.startswith('std::__throw') or name in ('abort', 'exit', '_exit', '__cxa_throw', '__cxa_rethrow', '_ZSt9terminatev', '__assert_fail', '__cxa_pure_virtual', '__cxa_bad_cast') :
            self.oblige(st, 'abnormal termination (%s)' % (dn[:60]), 'noabort', self.loc(ins), FALSE)
            raise PathEnd('abort')
        if (dn.startswith(('std::ostream', 'std::basic_ostream', 'std::ios', 'std::basic_ios', 'std::istream', 'std::__ostream', 'std::basic_ostream& std::')) or 'basic_ostream' in dn or 'ios_base' in dn or 'std::locale' in dn
                or name in ('printf', 'puts', 'fprintf', 'putchar', 'fflush', 'fputs', '__cxa_atexit', 'atexit', '__cxa_guard_release', '__cxa_free_exception', '__cxa_end_catch', '__dynamic_cast_dummy')):
            self.externals.add(dn)
            self.assumptions.add('console/stream output has no effect on the verified state: ' + dn[:80])
            if rty == 'ptr': return vals[0] if vals else NULL
            if rty == 'void': return None
            return self.zero(rty)
        if re.match(r'std::(invalid_argument|runtime_error|logic_error|out_of_range|length_error|domain_error|exception|bad_alloc)::', dn): return None if rty == 'void' else NULL
        raise Unsupported('call to undefined function %s at %s' % (dn, self.loc(ins)))

INTOPS = {'add', 'sub', 'mul', 'udiv', 'sdiv', 'urem', 'srem', 'and', 'or', 'xor', 'shl', 'lshr', 'ashr'}
FOPS = {'fadd', 'fsub', 'fmul', 'fdiv', 'frem'}
class _Re: pass
RESCHED = _Re()
BUILTIN = {}
def bi(*names):
    def d(f):
        for n in names: BUILTIN[n] = f
        return f
    return d
def _m1(name):
    def f(ex, st, ins, v, work):
        a = ex.asreal(st, v[0])
        if name in ('fabs', 'round', 'trunc', 'ceil'):
            return splitreal(ex, st, ins, fn(name, a), work)
        return fn(name, a)
    return f
def _m2(name):
    def f(ex, st, ins, v, work): return splitreal(ex, st, ins, fn(name, ex.asreal(st, v[0]), ex.asreal(st, v[1])), work) if name == 'fmod' else fn(name, ex.asreal(st, v[0]), ex.asreal(st, v[1]))
    return f
def splitreal(ex, st, ins, t, work):
    """case split on a top-level real ite (keeps the algebra polynomial)"""
    if st.opts.get('merge'): return t
    n = 0
    while t.op == 'ite' and t.sort == 'R':
        c = t.args[0]
        ch = ex.branch(st, c)
        if not ch: raise PathEnd('infeasible')
        if len(ch) == 2:
            s2 = st.fork()
            if ex.assume(s2, bnot(c)):
                ex.finish(s2, s2.frames[-1], ins, t.args[2])
                work.append(s2)
            if not ex.assume(st, c): raise PathEnd('infeasible')
            t = t.args[1]
        else: t = t.args[1] if ch[0] else t.args[2]
    return t
for _n in MATH1: BUILTIN[_n] = _m1(_n); BUILTIN[_n + 'f'] = _m1(_n); BUILTIN[_n + 'l'] = _m1(_n)
for _n in MATH2: BUILTIN[_n] = _m2(_n); BUILTIN[_n + 'f'] = _m2(_n)
@bi('hypot')
def _hypot(ex, st, ins, v, work):
    a, b = ex.asreal(st, v[0]), ex.asreal(st, v[1]); return fn('sqrt', radd(rmul(a, a), rmul(b, b)))
@bi('fmin')
def _fmin(ex, st, ins, v, work): return splitreal(ex, st, ins, ite(rlt(v[0], v[1]), v[0], v[1]), work)
@bi('fmax')
def _fmax(ex, st, ins, v, work): return splitreal(ex, st, ins, ite(rlt(v[0], v[1]), v[1], v[0]), work)
@bi('abs', 'labs', 'llabs')
def _abs(ex, st, ins, v, work): return ite(bcmp('slt', v[0], BV(0, v[0].sort)), bvbin('sub', BV(0, v[0].sort), v[0]), v[0])
@bi('copysign')
def _copysign(ex, st, ins, v, work):
    return splitreal(ex, st, ins, ite(rlt(v[1], R0), rneg(fn('fabs', v[0])), fn('fabs', v[0])), work)
@bi('sincos')
def _sincos(ex, st, ins, v, work):
    ex.store(st, v[1], 'f64', fn('sin', v[0]), ins); ex.store(st, v[2], 'f64', fn('cos', v[0]), ins)
@bi('modf')
def _modf(ex, st, ins, v, work):
    t = fn('trunc', v[0]); ex.store(st, v[1], 'f64', t, ins); return rsub(v[0], t)

def llvm_builtin(name):
    p = name.split('.')
    k = p[1]
    if k in ('memcpy', 'memmove'): return lambda ex, st, ins, v, work: ex.memcpy(st, v[0], v[1], v[2], ins)
    if k == 'memset': return lambda ex, st, ins, v, work: ex.memset(st, v[0], v[1], v[2], ins)
    if k == 'lifetime': return lambda ex, st, ins, v, work, on=(p[2] == 'start'): ex.lifetime(st, v[1], on)
    if k in ('dbg', 'assume', 'experimental', 'stackrestore', 'prefetch', 'invariant', 'donothing', 'trap_'): return lambda ex, st, ins, v, work: None
    if k == 'stacksave': return lambda ex, st, ins, v, work: NULL
    if k in ('expect',): return lambda ex, st, ins, v, work: v[0]
    if k in ('fabs', 'sqrt', 'floor', 'ceil', 'trunc', 'round', 'sin', 'cos', 'exp', 'log', 'log10'): return BUILTIN[k]
    if k == 'pow': return BUILTIN['pow']
    if k == 'powi':
        def f(ex, st, ins, v, work):
            if isc(v[1]): return fn('pow', v[0], R(sgn(cv(v[1]), 32)))
            raise Unsupported('powi')
        return f
    if k in ('fmuladd', 'fma'): return lambda ex, st, ins, v, work: radd(rmul(v[0], v[1]), v[2])
    if k == 'copysign': return BUILTIN['copysign']
    if k in ('maxnum', 'maximum'): return BUILTIN['fmax']
    if k in ('minnum', 'minimum'): return BUILTIN['fmin']
    if k in ('umax', 'umin', 'smax', 'smin'):
        pr = {'umax': 'ugt', 'umin': 'ult', 'smax': 'sgt', 'smin': 'slt'}[k]
        return lambda ex, st, ins, v, work: ite(bcmp(pr, v[0], v[1]), v[0], v[1])
    if k == 'abs': return BUILTIN['abs']
    if k in ('umul', 'uadd', 'usub', 'sadd', 'ssub', 'smul') and p[2] == 'with':
        op = k[1:]; s = k[0] == 's'
        def f(ex, st, ins, v, work):
            a, b = v; w = a.sort
            if isc(a) and isc(b):
                x, y = (sgn(cv(a), w), sgn(cv(b), w)) if s else (cv(a), cv(b))
                r = x + y if op == 'add' else x - y if op == 'sub' else x * y
                lo, hi = (-(1 << (w - 1)), (1 << (w - 1)) - 1) if s else (0, (1 << w) - 1)
                return [BV(r, w), BV(0 if lo <= r <= hi else 1, 1)]
            W = 2 * w
            e = sext if s else zext
            full = bvbin(op, e(a, W), e(b, W)); r = trunc(full, w)
            return [bvbin(op, a, b), b2bv(bnot(beq(e(r, W), full)), 1)]
        return f
    if k == 'is' : return lambda ex, st, ins, v, work: BV(0, 1)
    if k == 'eh': return lambda ex, st, ins, v, work: BV(0, 32)
    if k == 'trap': return _trap
    if k == 'bswap':
        def f(ex, st, ins, v, work):
            a = v[0]; w = a.sort; r = BV(0, w)
            for i in range(w // 8): r = bvbin('or', r, bvbin('shl', zext(ext_any(a, 8 * i, 8), w), BV(w - 8 - 8 * i, w)))
            return r
        return f
    if k in ('ctpop', 'ctlz', 'cttz'):
        def f(ex, st, ins, v, work):
            a = v[0]
            if isc(a):
                x = cv(a); w = a.sort
                if k == 'ctpop': return BV(bin(x).count('1'), w)
                if k == 'ctlz': return BV(w - x.bit_length(), w)
                return BV((x & -x).bit_length() - 1 if x else w, w)
            raise Unsupported(name)
        return f
    if k == 'objectsize': return lambda ex, st, ins, v, work: BV(-1, 64)
    return None
@bi('__trap')
def _trap(ex, st, ins, v, work):
    ex.oblige(st, 'trap', 'noabort', ex.loc(ins), FALSE); raise PathEnd('abort')

# ---- memory
@bi('_Znwm', '_Znam', 'malloc', '_ZnwmRKSt9nothrow_t')
def _new(ex, st, ins, v, work):
    n = v[0]
    i = ex.newobj(st, cv(n) if isc(n) else n, 'heap', 'heap%d' % ex.nextobj)
    return Ptr(i, 0)
@bi('_ZnwmSt11align_val_t', '_ZnamSt11align_val_t')
def _newa(ex, st, ins, v, work): return _new(ex, st, ins, v, work)
@bi('calloc')
def _calloc(ex, st, ins, v, work):
    i = ex.newobj(st, cv(v[0]) * cv(v[1]), 'heap', 'calloc'); st.mem[i].zero = True
    return Ptr(i, 0)
@bi('_ZdlPv', '_ZdaPv', '_ZdlPvm', '_ZdaPvm', 'free', '_ZdlPvSt11align_val_t', '_ZdlPvmSt11align_val_t')
def _del(ex, st, ins, v, work):
    p = v[0]
    if isinstance(p, Ptr) and p.obj:
        o = ex.wobj(st, p.obj)
        if o.freed or o.kind != 'heap' or p.off != 0: ex.ub(st, 'invalid or double free', ins)
        o.freed = True; o.cells = {}; o.arr = None
    elif p is UNDEF: ex.ub(st, 'free of uninitialised pointer', ins)
@bi('memcpy', 'memmove')
def _memcpy(ex, st, ins, v, work):
    ex.memcpy(st, v[0], v[1], v[2], ins); return v[0]
@bi('memset')
def _memset(ex, st, ins, v, work):
    ex.memset(st, v[0], trunc(v[1], 8), v[2], ins); return v[0]
@bi('strlen')
def _strlen(ex, st, ins, v, work):
    i = 0
    while True:
        c = ex.load(st, ex.padd(v[0], i), 'i8', ins)
        z = beq(c, BV(0, 8))
        if z is TRUE: return BV(i, 64)
        if z is not FALSE:
            ch = ex.branch(st, z)
            if ch == [True]: return BV(i, 64)
            if ch == [False]: i += 1; continue
            # case split on the terminator position
            s2 = st.fork()
            if ex.assume(s2, z):
                ex.finish(s2, s2.frames[-1], ins, BV(i, 64)); work.append(s2)
            if not ex.assume(st, bnot(z)): raise PathEnd('infeasible')
        i += 1
def _bytes(ex, st, p, n, ins): return [ex.load(st, ex.padd(p, i), 'i8', ins) for i in range(n)]
@bi('memcmp', 'bcmp')
def _memcmp(ex, st, ins, v, work):
    if not isc(v[2]): raise Unsupported('memcmp with symbolic length')
    n = cv(v[2])
    a = _bytes(ex, st, v[0], n, ins); b = _bytes(ex, st, v[1], n, ins)
    r = BV(0, 32)
    for x, y in reversed(list(zip(a, b))):
        r = ite(beq(x, y), r, ite(bcmp('ult', x, y), BV(-1, 32), BV(1, 32)))
    return r
@bi('strcmp')
def _strcmp(ex, st, ins, v, work):
    i = 0; L = []
    while True:
        x = ex.load(st, ex.padd(v[0], i), 'i8', ins); y = ex.load(st, ex.padd(v[1], i), 'i8', ins)
        L.append((x, y))
        if (isc(x) and cv(x) == 0) or (isc(y) and cv(y) == 0): break
        if isc(x) and isc(y) and cv(x) != cv(y): break
        i += 1
    r = BV(0, 32)
    for x, y in reversed(L):
        r = ite(beq(x, y), ite(beq(x, BV(0, 8)), BV(0, 32), r), ite(bcmp('ult', x, y), BV(-1, 32), BV(1, 32)))
    return r
@bi('strncmp')
def _strncmp(ex, st, ins, v, work):
    n = cv(v[2]); r = BV(0, 32); L = []
    for i in range(n):
        x = ex.load(st, ex.padd(v[0], i), 'i8', ins); y = ex.load(st, ex.padd(v[1], i), 'i8', ins)
        L.append((x, y))
        if (isc(x) and cv(x) == 0) or (isc(y) and cv(y) == 0): break
        if isc(x) and isc(y) and cv(x) != cv(y): break
    for x, y in reversed(L):
        r = ite(beq(x, y), ite(beq(x, BV(0, 8)), BV(0, 32), r), ite(bcmp('ult', x, y), BV(-1, 32), BV(1, 32)))
    return r
@bi('memchr')
def _memchr(ex, st, ins, v, work):
    n = cv(v[2]); ch = trunc(v[1], 8)
    for i in range(n):
        c = beq(ex.load(st, ex.padd(v[0], i), 'i8', ins), ch)
        if c is TRUE: return ex.padd(v[0], i)
        if c is not FALSE:
            k = ex.branch(st, c)
            if k == [True]: return ex.padd(v[0], i)
            if k == [False]: continue
            s2 = st.fork()
            if ex.assume(s2, c):
                ex.finish(s2, s2.frames[-1], ins, ex.padd(v[0], i)); work.append(s2)
            if not ex.assume(st, bnot(c)): raise PathEnd('infeasible')
    return NULL
@bi('__cxa_guard_acquire')
def _ga(ex, st, ins, v, work):
    b = ex.load(st, v[0], 'i8', ins)
    if b is UNDEF or (isc(b) and cv(b) == 0):
        ex.store(st, v[0], 'i8', BV(1, 8), ins); return BV(1, 32)
    return BV(0, 32)
@bi('__cxa_guard_release', '__cxa_atexit', '__cxa_guard_abort')
def _gr(ex, st, ins, v, work): return BV(0, 32) if ins[1] >= 0 else None
@bi('__cxa_allocate_exception')
def _cae(ex, st, ins, v, work):
    return Ptr(ex.newobj(st, cv(v[0]), 'heap', 'exc'), 0)
def _throw(ex, st, ins, v, work):
    if st.opts.get('allow-throw'): raise PathEnd('throw-allowed')
    ex.oblige(st, 'no exception is thrown', 'noabort', ex.loc(ins), FALSE)
    raise PathEnd('throw')
BUILTIN['__cxa_throw'] = _throw
@bi('__cxa_begin_catch', '__cxa_end_catch', '__cxa_free_exception', '__clang_call_terminate')
def _cbc(ex, st, ins, v, work): raise PathEnd('unwind')
@bi('sscanf', '__isoc99_sscanf', '__isoc23_sscanf')
def _sscanf(ex, st, ins, v, work):
    s, f = ex.cstr(st, v[0]), ex.cstr(st, v[1]); n = 0; i = 0; a = 2; j = 0
    while j < len(f):
        if f[j] == '%':
            m = re.match(r'%(zu|lu|ld|lf|d|u|f)', f[j:])
            if not m: raise Unsupported('sscanf format ' + f)
            j += m.end(); k = m.group(1)
            while i < len(s) and s[i].isspace(): i += 1
            r = re.match(r'[+-]?\d+' if k[-1] != 'f' else r'[+-]?(\d+\.?\d*|\.\d+)([eE][+-]?\d+)?', s[i:])
            if not r: break
            i += r.end(); p = v[a]; a += 1; n += 1
            if k[-1] != 'f': ex.store(st, p, 'i64' if len(k) == 2 else 'i32', BV(int(r.group(0)), 64 if len(k) == 2 else 32), ins)
            else: ex.store(st, p, 'f64' if len(k) == 2 else 'f32', R(Fraction(float(r.group(0)))), ins)
        elif f[j].isspace():
            while i < len(s) and s[i].isspace(): i += 1
            j += 1
        else:
            if i >= len(s) or s[i] != f[j]: break
            i += 1; j += 1
    return BV(n, 32)
@bi('rand')
def _rand(ex, st, ins, v, work):
    ex.assumptions.add('rand() returns an arbitrary value in [0, RAND_MAX]')
    x = ex.fresh(st, 'rand', 32, 0, 2147483647, lambda i, r: r.randrange(0, 1 << 31))
    ex.assume(st, bcmp('sge', x, BV(0, 32)))
    return x
# red-black tree helpers of libstdc++ (std::map / std::set), modelled as an unbalanced binary search tree with the same
# in-order semantics
def _ld(ex, st, p, o, ins): return ex.load(st, ex.padd(p, o), 'ptr', ins)
def _isnull(p): return isinstance(p, Ptr) and p.obj == 0
def _same(a, b): return isinstance(a, Ptr) and isinstance(b, Ptr) and a.obj == b.obj and a.off == b.off
@bi('_ZSt29_Rb_tree_insert_and_rebalancebPSt18_Rb_tree_node_baseS0_RS_')
def _rbins(ex, st, ins, v, work):
    left, x, p, h = v
    left = bv2b(left)
    ex.assumptions.add('std::map/std::set balancing (libstdc++ tree.cc) is modelled without rebalancing')
    def go(st, left):
        ex.store(st, ex.padd(x, 8), 'ptr', p, ins); ex.store(st, ex.padd(x, 16), 'ptr', NULL, ins); ex.store(st, ex.padd(x, 24), 'ptr', NULL, ins)
        if left:
            ex.store(st, ex.padd(p, 16), 'ptr', x, ins)
            if _same(p, h):
                ex.store(st, ex.padd(h, 8), 'ptr', x, ins); ex.store(st, ex.padd(h, 24), 'ptr', x, ins)
            elif _same(p, _ld(ex, st, h, 16, ins)): ex.store(st, ex.padd(h, 16), 'ptr', x, ins)
        else:
            ex.store(st, ex.padd(p, 24), 'ptr', x, ins)
            if _same(p, _ld(ex, st, h, 24, ins)): ex.store(st, ex.padd(h, 24), 'ptr', x, ins)
        ex.store(st, x, 'i32', BV(1, 32), ins)
    if isc(left): go(st, left is TRUE); return None
    k = ex.branch(st, left)
    if k == [True]: go(st, True); return None
    if k == [False]: go(st, False); return None
    s2 = st.fork()
    if ex.assume(s2, left):
        go(s2, True); ex.finish(s2, s2.frames[-1], ins, None); work.append(s2)
    if not ex.assume(st, bnot(left)): raise PathEnd('infeasible')
    go(st, False)
    return None
@bi('_ZSt28_Rb_tree_rebalance_for_erasePSt18_Rb_tree_node_baseRS_')
def _rberase(ex, st, ins, v, work):
    z, h = v
    ld = lambda p, o: _ld(ex, st, p, o, ins)
    def sto(p, o, q): ex.store(st, ex.padd(p, o), 'ptr', q, ins)
    y = z; par = ld(z, 8); l, r = ld(z, 16), ld(z, 24)
    def relink(p, old, new):        # replace child old of p (p may be the header) by new
        if _same(ld(h, 8), old): sto(h, 8, new)
        elif _same(ld(p, 16), old): sto(p, 16, new)
        else: sto(p, 24, new)
    if not _isnull(l) and not _isnull(r):
        y = r
        while not _isnull(ld(y, 16)): y = ld(y, 16)
        x = ld(y, 24)
        sto(l, 8, y); sto(y, 16, l)
        if not _same(y, r):
            yp = ld(y, 8)
            if not _isnull(x): sto(x, 8, yp)
            sto(yp, 16, x); sto(y, 24, r); sto(r, 8, y)
        relink(par, z, y); sto(y, 8, par)
        return z
    x = r if _isnull(l) else l
    if not _isnull(x): sto(x, 8, par)
    lm, rm = _same(ld(h, 16), z), _same(ld(h, 24), z)
    relink(par, z, x)
    if lm:
        if _isnull(x): sto(h, 16, par)
        else:
            m = x
            while not _isnull(ld(m, 16)): m = ld(m, 16)
            sto(h, 16, m)
    if rm:
        if _isnull(x): sto(h, 24, par)
        else:
            m = x
            while not _isnull(ld(m, 24)): m = ld(m, 24)
            sto(h, 24, m)
    return z
def _rbinc(ex, st, x, ins):
    r = _ld(ex, st, x, 24, ins)
    if not _isnull(r):
        x = r
        while True:
            l = _ld(ex, st, x, 16, ins)
            if _isnull(l): return x
            x = l
    y = _ld(ex, st, x, 8, ins)
    while _same(x, _ld(ex, st, y, 24, ins)):
        x = y; y = _ld(ex, st, y, 8, ins)
    if not _same(_ld(ex, st, x, 24, ins), y): x = y
    return x
def _rbdec(ex, st, x, ins):
    # header: parent of root; detect by colour red and grandparent == self
    p = _ld(ex, st, x, 8, ins)
    if not _isnull(p):
        pp = _ld(ex, st, p, 8, ins)
        c = ex.load(st, x, 'i32', ins)
        if _same(pp, x) and isc(c) and cv(c) == 0: return _ld(ex, st, x, 24, ins)
    l = _ld(ex, st, x, 16, ins)
    if not _isnull(l):
        y = l
        while True:
            r = _ld(ex, st, y, 24, ins)
            if _isnull(r): return y
            y = r
    y = _ld(ex, st, x, 8, ins)
    while _same(x, _ld(ex, st, y, 16, ins)):
        x = y; y = _ld(ex, st, y, 8, ins)
    return y
for _n in ('_ZSt18_Rb_tree_incrementPSt18_Rb_tree_node_base', '_ZSt18_Rb_tree_incrementPKSt18_Rb_tree_node_base'):
    BUILTIN[_n] = lambda ex, st, ins, v, work: _rbinc(ex, st, v[0], ins)
for _n in ('_ZSt18_Rb_tree_decrementPSt18_Rb_tree_node_base', '_ZSt18_Rb_tree_decrementPKSt18_Rb_tree_node_base'):
    BUILTIN[_n] = lambda ex, st, ins, v, work: _rbdec(ex, st, v[0], ins)

# ---- contract intrinsics (include/vc.hpp)
def _dbl(t):
    return float(cv(t))
@bi('vc_real')
def vc_real(ex, st, ins, v, work):
    x = ex.fresh(st, ex.cstr(st, v[0]), 'R', None, None, lambda i, r: draw_real(r)); st.inputs.append(x); return x
@bi('vc_real_in')
def vc_real_in(ex, st, ins, v, work):
    lo, hi = cv(v[1]), cv(v[2])
    x = ex.fresh(st, ex.cstr(st, v[0]), 'R', lo, hi, lambda i, r: draw_range(r, float(lo), float(hi)))
    ex.addpc(st, rle(R(lo), x)); ex.addpc(st, rle(x, R(hi))); st.inputs.append(x)
    return x
@bi('vc_int')
def vc_int(ex, st, ins, v, work):
    lo, hi = sgn(cv(v[1]), 64), sgn(cv(v[2]), 64)
    x = ex.fresh(st, ex.cstr(st, v[0]), 64, lo, hi, lambda i, r: draw_int(r, lo, hi) & M64)
    ex.addpc(st, bcmp('sle', BV(lo, 64), x)); ex.addpc(st, bcmp('sle', x, BV(hi, 64))); st.inputs.append(x)
    return x
def _vcu(w):
    def f(ex, st, ins, v, work):
        x = ex.fresh(st, ex.cstr(st, v[0]), w); st.inputs.append(x); return x
    return f
BUILTIN['vc_u64'] = _vcu(64); BUILTIN['vc_u32'] = _vcu(32); BUILTIN['vc_u16'] = _vcu(16); BUILTIN['vc_u8'] = _vcu(8)
@bi('vc_bool')
def vc_bool(ex, st, ins, v, work):
    x = ex.fresh(st, ex.cstr(st, v[0]), 'B'); st.inputs.append(x); return b2bv(x, 1)
@bi('vc_unit')
def vc_unit(ex, st, ins, v, work):
    base = ex.cstr(st, v[0]); n = cv(v[2])
    k = st.names.get(base + '!u', 0); st.names[base + '!u'] = k + 1
    if k: base = '%s!%d' % (base, k)
    def group(i):
        r = random.Random(_h(base, i))
        if r.random() < 0.1:
            z = [0.0] * n; z[r.randrange(n)] = r.choice((-1.0, 1.0)); return z
        g = [r.gauss(0, 1) for _ in range(n)]
        q = math.sqrt(sum(x * x for x in g)); return [x / q for x in g]
    s = R0; xs = []
    for j in range(n):
        x = ex.fresh(st, '%s.%d' % (base, j), 'R', -1, 1, (lambda j: lambda i, r: group(i)[j])(j))
        st.inputs.append(x); xs.append(x)
        s = radd(s, rmul(x, x))
        ex.store(st, ex.padd(v[1], 8 * j), 'f64', x, ins)
    ex.addpc(st, req(s, R1))
    for x in xs: ex.addpc(st, rle(R(-1), x)); ex.addpc(st, rle(x, R1))
@bi('vc_uf')
def vc_uf(ex, st, ins, v, work):
    n = cv(v[1])
    return uf(ex.cstr(st, v[0]), [ex.asreal(st, ex.load(st, ex.padd(v[2], 8 * i), 'f64', ins)) for i in range(n)])
@bi('vc_assume')
def vc_assume(ex, st, ins, v, work):
    c = ex.asbool(st, v[0])
    if not ex.assume(st, c): raise PathEnd('infeasible')
@bi('vc_inv')
def vc_inv(ex, st, ins, v, work): st.opts['inv'] = band(st.opts.get('inv', TRUE), ex.asbool(st, v[0]))
@bi('vc_check')
def vc_check(ex, st, ins, v, work):
    l = ex.cstr(st, v[0]); st.covers.add(l)
    ex.oblige(st, l, 'post', ex.loc(ins), ex.asbool(st, v[1]))
@bi('vc_lemma')
def vc_lemma(ex, st, ins, v, work):
    l = ex.cstr(st, v[0]); st.covers.add(l)
    c = ex.asbool(st, v[1])
    ex.oblige(st, l, 'post', ex.loc(ins), c)
    if not ex.assume(st, c): raise PathEnd('lemma-false')
@bi('vc_eq', 'vc_eqs')
def vc_eq(ex, st, ins, v, work):
    l = ex.cstr(st, v[0]); st.covers.add(l)
    ex.oblige(st, l, 'post', ex.loc(ins), req(ex.asreal(st, v[1]), ex.asreal(st, v[2])), 'eq')
@bi('vc_trust')
def vc_trust(ex, st, ins, v, work):
    ex.assumptions.add('trusted fact: ' + ex.cstr(st, v[0]))
    if not ex.assume(st, ex.asbool(st, v[1])): raise PathEnd('infeasible')
@bi('vc_option')
def vc_option(ex, st, ins, v, work):
    o = ex.cstr(st, v[0])
    if '=' in o:
        k, x = o.split('=', 1); st.opts[k] = int(x)
    elif o.startswith('!'): st.opts.pop(o[1:], None)
    else: st.opts[o] = True
    if o == 'no-overflow-obligations': ex.assumptions.add('machine integers in %s do not overflow (not checked)' % ex.root)
@bi('vc_assumption')
def vc_assumption(ex, st, ins, v, work): ex.assumptions.add(ex.cstr(st, v[0]))
@bi('vc_bytes')
def vc_bytes(ex, st, ins, v, work):
    """fill [p, p+n*elem) with fresh input: n may be symbolic; element size 1,4 or 8 (8 = double)"""
    nm = ex.cstr(st, v[0]); p = v[1]; n = v[2]; es = cv(v[3])
    k = st.names.get(nm + '!b', 0); st.names[nm + '!b'] = k + 1
    if k: nm = '%s#%d' % (nm, k)
    sort = 'R' if es == 8 else 8 * es
    o = ex.wobj(st, p.obj)
    if isc(n):
        for i in range(cv(n)):
            x = ex.fresh(st, '%s[%d]' % (nm, i), sort); st.inputs.append(x)
            ex.store(st, ex.padd(p, es * i), 'f64' if es == 8 else 'i%d' % (8 * es), x, ins)
        return
    if p.off != 0: raise Unsupported('vc_bytes offset')
    o = ex.to_arr(st, p.obj, es, es, sort); f = ex.field(st, o, p.obj, 0, es, sort)
    o.arr['fields'][0] = (es, sort, acopy(f[2], BV(0, 64), avar(nm, sort), BV(0, 64), n))
@bi('vc_is_symbolic')
def vc_is_symbolic(ex, st, ins, v, work): return BV(1, 32)
@bi('vc_print')
def vc_print(ex, st, ins, v, work):
    print('VCPRINT', ex.cstr(st, v[0]), v[1])
@bi('vc_forget')
def vc_forget(ex, st, ins, v, work):
    """abstraction point: replace a real in memory by a fresh variable constrained only by what is re-assumed"""
    p = v[1]
    x = ex.fresh(st, ex.cstr(st, v[0]), 'R')
    ex.store(st, p, 'f64', x, ins)
@bi('vc_loop_frame')
def vc_loop_frame(ex, st, ins, v, work):
    """the loops under contract may modify this object"""
    st.ghost = dict(st.ghost); st.ghost['lframe'] = tuple(st.ghost.get('lframe', ())) + (v[0].obj,)
@bi('vc_loop_field')
def vc_loop_field(ex, st, ins, v, work):
    """the loops under contract may modify these bytes (initialised scalars)"""
    st.ghost = dict(st.ghost); st.ghost['lfields'] = tuple(st.ghost.get('lfields', ())) + ((v[0].obj, v[0].off, cv(v[1])),)

def _affine(t):
    """t as a linear combination of other terms {term id: coefficient}, constant under None"""
    if t.op == 'c': return {None: t.args[0]}
    if t.op == '+':
        a, b = _affine(t.args[0]), _affine(t.args[1]); r = dict(a)
        for k, c in b.items(): r[k] = r.get(k, 0) + c
        return r
    if t.op == '*':
        for x, y in (t.args, t.args[::-1]):
            if x.op == 'c': return {k: c * x.args[0] for k, c in _affine(y).items()}
    if t.op == '/' and t.args[1].op == 'c' and t.args[1].args[0] != 0: return {k: c / t.args[1].args[0] for k, c in _affine(t.args[0]).items()}
    return {t.id: Fraction(1)}
@bi('vc_near')
def vc_near(ex, st, ins, v, work):
    """both reals are the same linear combination, up to 1e-11 in its coefficients (identification of an angle converted through truncated constants)"""
    a, b = _affine(v[0]), _affine(v[1])
    return BV(1 if all(abs(a.get(k, 0) - b.get(k, 0)) < Fraction(1, 10 ** 11) for k in set(a) | set(b)) else 0, 32)
@bi('vc_same')
def vc_same(ex, st, ins, v, work):
    """the reals at both places are the same terms (identification of recorded arguments without a case split)"""
    n = cv(v[2]); ok = True
    for i in range(n):
        a = ex.load(st, ex.padd(v[0], 8 * i), 'f64', ins); b = ex.load(st, ex.padd(v[1], 8 * i), 'f64', ins)
        ok = ok and a is b
    return BV(1 if ok else 0, 32)
