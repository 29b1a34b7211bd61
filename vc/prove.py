"""Discharges obligations: polynomial normal form, z3, cvc5; refutes with concrete assignments checked in high precision."""
import os, time, pickle, select as _select, signal, sys
from fractions import Fraction
from .term import *
from . import term as TM
from . import smt, poly, polysimp
from .numeval import Env, ev
import mpmath

# ------------------------------------------------------------------ high precision evaluation (refutation only)
class MPUndef(Exception): pass
def mp_ev(t, vals, cache):
    """evaluate with 60 digits; vals: name -> number; uninterpreted functions through numeval's smooth stand-in"""
    mp = mpmath
    st = [t]
    while st:
        x = st[-1]
        if x.id in cache: st.pop(); continue
        if x.op == 'ite':
            c0 = x.args[0]
            if c0.id not in cache: st.append(c0); continue
            y = x.args[1] if cache[c0.id] else x.args[2]
            if y.id not in cache: st.append(y); continue
            cache[x.id] = cache[y.id]; st.pop(); continue
        if x.op == 'and' and x.sort == 'B':
            p, q = x.args
            if p.id not in cache: st.append(p); continue
            if not cache[p.id]: cache[x.id] = False; st.pop(); continue
            if q.id not in cache: st.append(q); continue
            cache[x.id] = cache[q.id]; st.pop(); continue
        if x.op == 'select': raise MPUndef()
        todo = [a for a in x.args if type(a) is T and a.id not in cache]
        if todo: st.extend(todo); continue
        a = [cache[y.id] if type(y) is T else y for y in x.args]
        o = x.op; s = x.sort
        if s == 'R':
            if o == 'c': r = mp.mpf(x.args[0].numerator) / x.args[0].denominator
            elif o == 'v':
                v = vals(x.args[0], s)
                r = mp.mpf(v.numerator) / v.denominator if isinstance(v, Fraction) else mp.mpf(v)
            elif o == '+': r = a[0] + a[1]
            elif o == '*': r = a[0] * a[1]
            elif o == '/': 
                if a[1] == 0: raise MPUndef()
                r = a[0] / a[1]
            elif o == 'i2r':
                w = x.args[0].sort; r = mp.mpf(sgn(a[0], w) if a[1] else a[0])
            elif o == 'floor': r = mp.floor(a[0])
            elif o == 'uf':
                from .numeval import _h
                h = _h(a[0]); k = mp.mpf(0)
                for i, v in enumerate(a[1:]): k += v * (mp.mpf(0.37) + mp.mpf((h >> (5 * i)) & 31) / 29)
                r = mp.sin(k + (h & 255)) + mp.mpf(0.3) * mp.cos(mp.mpf(1.7) * k) + mp.mpf(0.1) * k
            elif o in ('f32', 'bits2f'): raise MPUndef()
            elif o == 'cbrt': r = mp.sign(a[0]) * mp.cbrt(abs(a[0]))
            elif o == 'pow': r = mp.power(a[0], a[1])
            else: r = getattr(mp, o)(*a)
            if isinstance(r, mp.mpc):
                if abs(r.imag) < mp.mpf(10) ** -40 and o in ('sqrt',): r = mp.mpf(0)
                else: raise MPUndef()
            if not mp.isfinite(r): raise MPUndef()
        elif s == 'B':
            if o == 'c': r = x.args[0]
            elif o == 'v': r = bool(vals(x.args[0], s))
            elif o == '<':
                d = a[1] - a[0]; m = max(abs(a[0]), abs(a[1]), 1)
                if abs(d) < m * mp.mpf(10) ** -14: r = None if d != 0 else False
                else: r = d > 0
                if r is None: raise MPUndef()
            elif o == 'r=':
                d = abs(a[1] - a[0]); m = max(abs(a[0]), abs(a[1]))
                if d <= m * mp.mpf(10) ** -13 or d < mp.mpf(10) ** -30: r = True
                elif d <= max(m, 1) * mp.mpf(10) ** -9 : raise MPUndef()
                else: r = False
            elif o == 'not': r = not a[0]
            else:
                from .numeval import _ev1
                r = _ev1(x, [int(v) if type(v) is not bool and hasattr(v, '__int__') else v for v in a], None) if o != 'ovf' else ovf_ev(x, a)
        else:
            if o == 'r2i': r = int(mp.floor(a[0]) if a[0] >= 0 else mp.ceil(a[0])) & ((1 << s) - 1)
            elif o == 'v': r = int(vals(x.args[0], s)) & ((1 << s) - 1)
            elif o == 'c': r = x.args[0]
            elif o == 'f2bits': raise MPUndef()
            else:
                from .numeval import _ev1
                r = _ev1(x, a, None)
        cache[x.id] = r; st.pop()
    return cache[t.id]
def ovf_ev(x, a):
    w = x.args[1].sort; p, q = sgn(a[1], w), sgn(a[2], w)
    r = p + q if a[0] == 'add' else p - q if a[0] == 'sub' else p * q
    return not (-(1 << (w - 1)) <= r < (1 << (w - 1)))

def confirm_refuted(pc, goal, vals):
    """pc true and goal false under vals, in high precision with margins"""
    with mpmath.workdps(60):
        cache = {}
        try:
            if mp_ev(goal, vals, cache) is not False: return False
            for c in pc:
                if mp_ev(c, vals, cache) is not True: return False
            return True
        except MPUndef: return False
        except Exception: return False

def getter(env):
    if isinstance(env, Env): return lambda n, s: env.get(n, s)
    def g(n, s):
        if n in env: return env[n]
        if s == 'R': return Fraction(0)
        return 0 if s != 'B' else False
    return g

# ------------------------------------------------------------------ forked solver calls with a hard time limit
def forked(f, limit):
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        os.close(r)
        try:
            try: out = f()
            except BaseException as e: out = ('unknown', 'exception %s: %s' % (type(e).__name__, e))
            data = pickle.dumps(out)
            with os.fdopen(w, 'wb') as p: p.write(data)
        finally: os._exit(0)
    os.close(w)
    buf = b''; end = time.time() + limit
    while True:
        left = end - time.time()
        if left <= 0: break
        rl, _, _ = _select.select([r], [], [], left)
        if not rl: break
        d = os.read(r, 1 << 16)
        if not d: break
        buf += d
    os.close(r)
    try: os.kill(pid, signal.SIGKILL)
    except ProcessLookupError: pass
    os.waitpid(pid, 0)
    try: return pickle.loads(buf)
    except Exception: return ('unknown', 'time limit %gs' % limit)

# ------------------------------------------------------------------ the prover
def conj(g):
    if g.op == 'and': return conj(g.args[0]) + conj(g.args[1])
    return [g]
def ite_conds(ts):
    out = {}
    for x in subterms(ts).values():
        if x.op == 'ite': out[x.args[0].id] = x.args[0]
    return list(out.values())

class Prover:
    def __init__(self, tier='quick', log=None):
        self.tier = tier; self.memo = {}; self.nn = {}; self.stats = {}; self.time = {}
        self.scale = 1 if tier == 'quick' else 4
        self.notes = set(); self.budget = None; self.short = False
    def add(self, k, dt=0):
        self.stats[k] = self.stats.get(k, 0) + 1; self.time[k] = self.time.get(k, 0) + dt
    def smt(self, pc, g, t, backend='z3', mode=None, tactic=None, full=False):
        t = t * self.scale
        t0 = time.time()
        r = forked(lambda: smt.solve(pc, g, int(t * 1000), backend, mode, tactic, full), t + 2)
        k = backend + (':nlsat' if tactic else '')
        self.time[k] = self.time.get(k, 0) + time.time() - t0
        return r
    def quick(self, pc, g, t=2):
        k = ('q', g.id, tuple(c.id for c in smt.slice_pc(pc, g)))
        r = self.memo.get(k)
        if r is None:
            r = self.smt(pc, g, t)[0]
            if r != 'proved': r = 'proved' if self.smt(pc, g, t, tactic='nlsat')[0] == 'proved' else 'no'
            self.memo[k] = r
        return r == 'proved'
    def nonneg(self, pc):
        def f(t):
            if t.op == 'sqrt' or t.op == 'exp': return True
            k = (t.id, 'nn', id(pc))
            r = self.memo.get(k)
            if r is None: r = self.memo[k] = self.quick(pc, rle(R0, t), 1)
            return r
        return f
    # ---- equalities
    def eq_poly(self, pc, a, b, deep=True):
        eqs = [(c.args[0], c.args[1]) for c in pc if c.op == 'r=']
        sl = set(c.id for c in smt.slice_pc(pc, req(a, b)))
        eqs = [(c.args[0], c.args[1]) for c in pc if c.op == 'r=' and c.id in sl]
        why = ''
        for lit in (False, True):
            t0 = time.time()
            try:
                ok, nz, used, (n, N) = poly.prove_eq(a, b, eqs, lit, self.nonneg(pc))
                if not ok and os.environ.get('VC_DEBUG') == '2': print('RESID', lit, len(N), [(show(n.atoms[i],4), k, show(n.topoly_term(r),4)) for i,(k,r) in n.rules.items()], show(n.topoly_term(N), 14)[:1200], flush=True)
            except poly.TooBig: why = 'polynomial too big'; ok = False
            except poly.Fail as e: why = str(e); ok = False
            self.time['poly'] = self.time.get('poly', 0) + time.time() - t0
            if ok:
                self.notes |= set(used)
                if lit: self.notes.add('decimal literals in the source denote the constants they round (relative 1e-11 coefficient tolerance in the polynomial normal form)')
                for p in nz:
                    g = bnot(req(p, R0))
                    if g is TRUE: continue
                    if not self.nonzero(pc, p): return False, 'side condition not proved: %s != 0' % show(p, 5), lit
                return True, '', lit
        return False, why or 'normal form not zero', False
    def nonzero(self, pc, p):
        if p.op == 'c': return p.args[0] != 0
        if p.op == '*': return self.nonzero(pc, p.args[0]) and self.nonzero(pc, p.args[1])
        if p.op == 'sqrt': return self.quick(pc, rlt(R0, p.args[0]), 3)
        if p.op == 'exp': return True
        if self.nonzero_fact(pc, p): return True
        g = bnot(req(p, R0))
        return self.quick(pc, g, 4)
    def nonzero_fact(self, pc, p):
        """p is, up to a constant, a product of quantities the path condition says are not zero"""
        k = ('nzf', tuple(c.id for c in pc))
        ent = self.memo.get(k)
        if ent is None:
            n = poly.Norm(False, 3000); n.maxops = 2000000; facts = set()
            for c in pc:
                d = c.args[0] if c.op == 'not' and c.args[0].op == 'r=' else c if c.op == '<' else None
                if d is None or ite_conds([d]): continue
                try:
                    N = n.rat(rsub(d.args[0], d.args[1]))[0]
                    if N:
                        l, mc, key, q = n.fkey(N); facts.add(key)
                        i = 0
                        while mc:   # every factor of a non-zero product is non-zero
                            if mc & ((1 << poly.SH) - 1): facts.add(('a', i))
                            mc >>= poly.SH; i += 1
                except (poly.TooBig, poly.Fail): continue
            ent = self.memo[k] = (n, facts)
        n, facts = ent
        try:
            N = n.rat(p)[0]
            if not N: return False
            l, mc, key, q = n.fkey(N)
        except (poly.TooBig, poly.Fail) as e:
            if os.environ.get("VC_DEBUG") == "3": print("NZF", type(e), e)
            return False
        if os.environ.get("VC_DEBUG") == "3": print("NZF", key in facts, len(facts), len(q), [show(c, 6) for c in pc])
        if not (len(q) == 1 and 0 in q) and key not in facts: return False
        i = 0
        while mc:
            if mc & ((1 << poly.SH) - 1) and ('a', i) not in facts and n.fkey(n.avarp(i))[2] not in facts:
                if not self.quick(pc, bnot(req(n.topoly_term(n.avarp(i)), R0)), 2): return False
            mc >>= poly.SH; i += 1
        return True
    def split_ite(self, pc, g, depth=0):
        """case split on ite conditions: list of (pc', goal') or None"""
        cs = [c for c in ite_conds([g])]
        # innermost first: conditions that contain no ite
        cs = [c for c in cs if not ite_conds([c])] or cs
        if not cs: return None
        c = cs[0]
        out = []
        for v in (True, False):
            lit = c if v else bnot(c)
            if smt.check_quick(pc, lit, 500) == 'unsat': continue
            m = {c.id: Bc(v)}
            g2 = TM.subst(g, m)
            pc2 = list(pc)
            for k in conj(lit): 
                if k not in pc2: pc2.append(k)
            out.append((pc2, g2))
        return out
    def prove(self, pc, goal, num=None, depth=0):
        """('proved', how) | ('refuted', assignment) | ('unknown', why)"""
        hows = set()
        for g in conj(goal):
            if g is TRUE: continue
            r = self.prove1(list(pc), g, num, depth)
            if r[0] != 'proved': return r
            hows |= r[1]
        return ('proved', hows or {'trivial'})
    def prove1(self, pc, g, num, depth):
        key = (g.id, tuple(sorted(c.id for c in smt.slice_pc(pc, g))))
        r = self.memo.get(key)
        if r is not None: return r
        r = self.prove2(pc, g, num, depth)
        self.memo[key] = r
        return r
    def prove2(self, pc, g, num, depth):
        if num is not None and confirm_refuted(pc, g, getter(num)):
            return ('refuted', assignment(pc, g, num))
        why = ''
        isreal = g.op == 'r=' and not ite_conds([g])
        if isreal:
            ok, why, lit = self.eq_poly(pc, g.args[0], g.args[1])
            if ok: return ('proved', {'polynomial normal form' + (' (literal tolerance)' if lit else '')})
            if os.environ.get('VC_DEBUG'): print('POLY', why, 'GOAL', show(g, 12), 'PC', [show(c, 8) for c in smt.slice_pc(pc, g)], 'ALL', [show(c, 4) for c in pc], flush=True)
        hasite = g.op in ('r=', '<') and ite_conds([g])
        if hasite and g.op == 'r=' and depth < 10:
            sp = self.split_ite(pc, g)
            if sp is not None:
                hows = {'case split'}; bad = None
                for pc2, g2 in sp:
                    r = self.prove(pc2, g2, num, depth + 1)
                    if r[0] == 'refuted': return r
                    if r[0] != 'proved': bad = r; break
                    hows |= r[1]
                if bad is None: return ('proved', hows)
                why = bad[1]
        last = None
        sl = smt.slice_pc(pc, g)
        if os.environ.get('VC_DEBUG') == '4': print('GOAL', show(g, 8), 'PC', [show(c, 8) for c in pc], flush=True)
        modes = smt.choose_mode(sl + [g])
        r = self.smt(pc, g, 1)
        if r[0] == 'unknown' and len(modes) > 1:
            r2 = self.smt(pc, g, 1, mode=modes[1])
            if r2[0] != 'unknown': r = r2
        if r[0] == 'proved': return ('proved', {'z3'})
        if r[0] == 'sat' and confirm_refuted(pc, g, getter(r[1])): return ('refuted', {k: str(v) for k, v in r[1].items()})
        if r[0] != 'sat' and not isreal:
            q = forked(lambda: polysimp.simplify(sl, g), 20)
            if isinstance(q, tuple) and len(q) == 3:
                q = polysimp.simplify(sl, g)
                pc2, g2, nz = q
                r = ('proved', 'normal form') if g2 is TRUE or any(c is FALSE for c in pc2) else self.smt(pc2, g2, 3)
                if r[0] != 'proved' and not any(type(x.sort) is int or x.op == 'floor' for x in subterms([g2] + pc2).values()): r = self.smt(pc2, g2, 6, tactic='nlsat')
                if r[0] != 'proved': r = self.smt(pc2, g2, 6, backend='cvc5')
                if r[0] == 'proved' and all(self.nonzero(pc, p) for p in nz if not (p.op == 'sqrt')): return ('proved', {'polynomial normal form + ' + r[1]})
        plan = [('z3', modes[0], None, 3)]
        plan.append(('z3', modes[0], 'nlsat', 6))
        if len(modes) > 1: plan.append(('z3', modes[1], None, 10))
        plan.append(('cvc5', modes[0], None, 8))
        plan.append(('z3', modes[0], None, 25))
        if len(modes) > 1: plan.append(('cvc5', modes[1], None, 15))
        if isreal: plan = [p for p in plan if p[3] < 25]
        if self.short: plan = plan[:2]
        for be, m, tac, t in plan:
            if tac and any(type(x.sort) is int or x.op == 'floor' for x in subterms([g] + smt.slice_pc(pc, g)).values()): continue
            r = self.smt(pc, g, t, be, m, tac)
            if r[0] == 'proved':
                return ('proved', {be + (' (nlsat)' if tac else '')})
            if r[0] == 'sat':
                env = r[1]
                if confirm_refuted(pc, g, getter(env)): return ('refuted', {k: str(v) for k, v in env.items()})
                if not r[2] and not has_abs([g] + smt.slice_pc(pc, g)): return ('refuted', {k: str(v) for k, v in env.items()})
                why = 'solver model does not survive exact evaluation'
                break
            why = (why + '; ' if why else '') + str(r[1])
        return ('unknown', why)

def has_abs(ts):
    return any(x.op in ('/', 'uf', 'select', 'f2bits', 'bits2f') or x.op in smt.TRANS for x in subterms(ts).values())

def assignment(pc, g, env):
    out = {}
    for x in subterms(list(pc) + [g]).values():
        if x.op == 'v':
            v = env.get(x.args[0], x.sort)
            out[x.args[0]] = repr(v) if not isinstance(v, bool) else str(int(v))
    for n, v in env.vals.items():
        out.setdefault(n, repr(v) if not isinstance(v, bool) else str(int(v)))
    return out
