"""Rewrites the real comparisons of a query to polynomial normal form (modulo the query's own equations) before SMT."""
from .term import *
from . import term as TM
from . import poly
from .smt import slice_pc

def atoms_of(ts):
    out = {}
    for x in subterms(ts).values():
        if x.op in ('<', 'r=') and x.args[0].sort == 'R': out[x.id] = x
    return out

def simplify(pc, goal, limit=3000):
    """returns (pc', goal', nonzero terms) or None when nothing changes"""
    ts = list(pc) + [goal]
    ats = atoms_of(ts)
    if not ats: return None
    if any(x.op == 'ite' and x.sort == 'R' for x in subterms(list(ats.values())).values()): pass
    eqs = [(c.args[0], c.args[1]) for c in pc if c.op == 'r=']
    hypids = set(c.id for c in pc if c.op == 'r=')
    n = poly.Norm(False, limit)
    n.maxops = 3000000
    try:
        n.scan_angles([y for x in ats.values() for y in x.args])
        n.reset_after_scan()
        for a, b in eqs: n.add_hyp(a, b)
    except (poly.TooBig, poly.Fail): return None
    n.rc = {}; n.nz = {}
    m = {}; ch = False
    for i, x in ats.items():
        if i in hypids: continue
        a, b = x.args
        n.ops = 0
        try:
            ra, rb = n.rat(a), n.rat(b)
            N, D = n.radd(rb, (n.pneg(ra[0]), ra[1]))
            N = n.reduce(N)
            if len(N) > 400: continue
            num = n.topoly_term(N)
            for k, (p, e) in D.items():
                if e % 2:
                    pt = n.topoly_term(p)
                    if not n.nonneg(p): num = rmul(num, pt)
        except (poly.TooBig, poly.Fail): continue
        y = rlt(R0, num) if x.op == '<' else req(num, R0)
        if y is not x: m[i] = y; ch = True
    if not ch: return None
    cache = {}
    pc2 = [TM.subst(c, m, cache) for c in pc]
    g2 = TM.subst(goal, m, cache)
    nz = [n.topoly_term(p) for p in n.nz.values()]
    return pc2, g2, nz
