#!/usr/bin/env -S python3-vt
"""check.py <property id>: generates the obligations of the property's contracts from /repo's current source and discharges
them.  Exit 0: all proved.  Exit 1 + VIOLATION line: an obligation is refuted.  Anything else: no verdict."""
import sys, os, re, json, time, zlib, subprocess, tempfile, shutil, glob, pickle, argparse, traceback, signal
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.setrecursionlimit(20000)
REPO = os.environ.get('VC_REPO', '/repo')
CXX = ['clang++', '-std=c++17', '-w', '-I' + HERE + '/include', '-I' + REPO + '/src', '-I' + REPO + '/example/src', '-I' + REPO + '/src/environment/local', '-I' + HERE + '/include/stubs', '-I' + REPO + '/ExtLibraries/inih',
       '-DCORE_DIR_FROM_EXE="%s"' % REPO, '-DEXT_LIB_DIR_FROM_EXE="%s/ExtLibraries"' % REPO, '-DSETTINGS_DIR_FROM_EXE="%s/example/settings"' % REPO]
BCFLAGS = ['-O1', '-Xclang', '-disable-llvm-passes', '-g1', '-ffp-contract=off', '-D_GLIBCXX_EXTERN_TEMPLATE=0', '-fno-access-control', '-fno-vectorize', '-fno-slp-vectorize', '-emit-llvm', '-c']
NATFLAGS = ['-O1', '-g', '-ffp-contract=off', '-fno-access-control', '-fsanitize=address,undefined,float-cast-overflow', '-fno-sanitize=vptr,float-divide-by-zero', '-fno-sanitize-recover=all', '-DVC_NATIVE']
NPROC = os.cpu_count() or 4

class CheckError(Exception): pass

def sh(cmd, **k): return subprocess.run(cmd, capture_output=True, text=True, **k)
def runmany(cmds):
    ps = []; out = []
    it = iter(cmds); live = []
    def reap(block):
        for p in list(live):
            if p[0].poll() is not None or block:
                o, e = p[0].communicate(); live.remove(p); out.append((p[1], p[0].returncode, e)); return True
        return False
    for c in it:
        while len(live) >= NPROC:
            if not reap(False): time.sleep(0.01)
        live.append((subprocess.Popen(c, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True), c))
    while live:
        if not reap(False): time.sleep(0.01)
    return out

def ensure_irdump():
    exe = HERE + '/build/irdump'; src = HERE + '/vc/irdump.cpp'
    if os.path.exists(exe) and os.path.getmtime(exe) >= os.path.getmtime(src): return exe
    os.makedirs(HERE + '/build', exist_ok=True)
    tmp = exe + '.%d' % os.getpid()
    r = sh(['clang++', '-O1', '-std=c++17', '-fno-rtti', '-I/usr/include/llvm-18', '-I/usr/include/llvm-c-18', '-w', src, '-o', tmp, '-L/usr/lib/llvm-18/lib', '-lLLVM-18'])
    if r.returncode: raise CheckError('irdump build failed: ' + r.stderr[-2000:])
    os.rename(tmp, exe)
    return exe

def directives(path):
    d = {'sources': [], 'replace': [], 'loops': [], 'flags': []}
    for l in open(path):
        m = re.match(r'//\s*VC-SOURCES:\s*(.*)', l)
        if m: d['sources'] += m.group(1).split()
        m = re.match(r'//\s*VC-REPLACE:\s*(.*?)\s+WITH\s+(\S+)', l)
        if m: d['replace'].append((m.group(1), m.group(2)))
        m = re.match(r'//\s*VC-LOOP:\s*(.*?)\s+WITH\s+(\S+)', l)
        if m: d['loops'].append((m.group(1), m.group(2)))
        m = re.match(r'//\s*VC-FLAGS:\s*(.*)', l)
        if m: d['flags'] += m.group(1).split()
    return d

def all_sources():
    out = []
    for r, ds, fs in os.walk(REPO + '/src'):
        for f in fs:
            if f.endswith('.cpp') and not f.startswith('test_') and f != 'sample_main.cpp':
                out.append(os.path.relpath(os.path.join(r, f), REPO + '/src'))
    return sorted(out)

NEEDS_EXT = ('nrlmsise-00.h', 'SpiceUsr.h')
DONE = {}   # compiled files of this run -> '' or the compiler's message
class Unit:
    """one contract file: compiled together with the real sources it depends on"""
    def __init__(self, path, work):
        self.path = path; self.name = os.path.basename(path)[:-4]; self.work = os.path.join(work, self.name); os.makedirs(self.work)
        self.d = directives(path)
    def compile_bc(self):
        srcs = [s for s in self.d['sources']]
        missing = [s for s in srcs if not os.path.exists(REPO + '/src/' + s)]
        srcs = [s for s in srcs if s not in missing]
        self.compiled = {}
        self._comp(srcs, True)
        dump = self._dump()
        und = self.undefined(dump)
        if os.environ.get("VC_DEBUG"): print("undefined:", und[:12])
        if und or missing:
            rest = [s for s in all_sources() if s not in self.compiled]
            self._comp(rest, False)
            dump = self._dump()
            und = self.undefined(dump)
        self.undef = und
        return dump
    def undefined(self, dump):
        m = json.load(open(dump)); out = []
        for n, dn in m['decls'].items():
            if n in m['globals']: continue
            if 's2e::' in dn.split('(')[0] or dn.startswith('ini') or 'INIReader' in dn: out.append(dn)
        return out
    def _comp(self, srcs, must):
        cmds = []; names = {}
        for s in srcs:   # sources compiled with the same flags are shared by the contracts of one run
            o = os.path.join(os.path.dirname(self.work), 'src%08x_' % zlib.crc32(repr(self.d['flags']).encode()) + s.replace('/', '__') + '.bc')
            if o in DONE:
                if DONE[o]: self.compiled[s] = None
                else: self.compiled[s] = o
                if DONE[o] and must: raise CheckError('does not compile: %s\n%s' % (s, DONE[o]))
                continue
            cmds.append(CXX + self.d['flags'] + BCFLAGS + [REPO + '/src/' + s, '-o', o]); names[o] = s
        if '_contract' not in self.compiled:
            o = os.path.join(self.work, '_contract.bc')
            cmds.append(CXX + self.d['flags'] + BCFLAGS + [self.path, '-o', o]); names[o] = '_contract'
            o = os.path.join(self.work, '_string.bc')
            cmds.append(CXX + BCFLAGS + [HERE + '/include/vc_string.cpp', '-o', o]); names[o] = '_string'
        for c, rc, err in runmany(cmds):
            o = c[-1]
            if names[o] not in ('_contract', '_string'): DONE[o] = err[:3000] if rc else ''
            if rc:
                if must or names[o] == '_contract': raise CheckError('does not compile: %s\n%s' % (names[o], err[:3000]))
                self.compiled[names[o]] = None; continue
            self.compiled[names[o]] = o
    def _dump(self):
        out = os.path.join(self.work, 'dump.json')
        bcs = [o for s, o in self.compiled.items() if o]
        # the contract comes last: a function it defines (a stand-in for one outside reach) overrides the sources' own
        bcs.sort(key=lambda o: o.endswith('_contract.bc'))
        reps = ','.join(w for _, w in self.d['replace'])
        r = sh([ensure_irdump(), out, 'vc_'] + bcs)
        if r.returncode: raise CheckError('irdump: ' + r.stderr[-2000:])
        return out
    def native(self):
        exe = os.path.join(self.work, 'native')
        if os.path.exists(exe): return exe
        roots = self.roots
        with open(os.path.join(self.work, 'vc_roots.inc'), 'w') as f:
            for r in roots: f.write('X(%s)\n' % r)
        srcs = [s for s, o in self.compiled.items() if s not in ('_contract', '_string') and o]
        cmds = []; objs = []
        for s in srcs:
            o = os.path.join(os.path.dirname(self.work), 'src%08x_' % zlib.crc32(repr(self.d['flags']).encode()) + s.replace('/', '__') + '.o'); objs.append(o)
            if o in DONE: continue
            cmds.append(CXX + self.d['flags'] + NATFLAGS + ['-c', REPO + '/src/' + s, '-o', o])
        for p in (self.path, HERE + '/vc/vc_native.cpp'):
            o = os.path.join(self.work, '_' + os.path.basename(p) + '.o'); objs.append(o)
            cmds.append(CXX + self.d['flags'] + NATFLAGS + ['-I' + self.work, '-c', p, '-o', o])
        for c, rc, err in runmany(cmds):
            if rc: raise CheckError('native compile: ' + err[:3000])
            DONE[c[-1]] = ''
        # functions no path of the contract reaches may stay undefined: they abort if they are called
        r = sh(['clang++', '-fsanitize=address,undefined', '-Wl,--unresolved-symbols=ignore-all', '-Wl,--allow-multiple-definition', '-no-pie'] + objs[::-1] + ['-o', exe])
        if r.returncode: raise CheckError('native link: ' + r.stderr[-3000:])
        return exe

NATENV = dict(os.environ, ASAN_OPTIONS='detect_leaks=0:abort_on_error=0', UBSAN_OPTIONS='print_stacktrace=0')
def native_run(exe, root, seed, trials, given=None, work=None, timeout=60):
    cmd = [exe, root, str(seed), str(trials)]
    if given is not None:
        p = os.path.join(work, 'given.txt')
        with open(p, 'w') as f:
            for k, v in given.items():
                if any(ch in k for ch in ' !') and '!' in k and not re.search(r'!\d+\.', k): continue
                f.write('%s %s\n' % (k, v))
        cmd.append(p)
    try: r = subprocess.run(cmd, capture_output=True, text=True, timeout=timeout, env=NATENV, errors='replace', cwd=work)
    except subprocess.TimeoutExpired: return None, ''
    o = r.stdout
    if 'FAIL root' in o or 'CRASH' in o or r.returncode not in (0,):
        return o, r.stderr[-1500:]
    return None, o

# ------------------------------------------------------------------ worker: one root
def root_worker(dump, root, d, tier, seed, deadline, outpath, sem, filt=None):
    from vc import symex, prove, smt
    res = {'root': root, 'error': None, 'obls': [], 'paths': 0}
    t0 = time.time()
    sem.acquire()
    try:
        m = symex.Module(dump)
        cache = {}
        def chk(pc, c):
            k = (c.id, tuple(x.id for x in smt.slice_pc(pc, c)))
            r = cache.get(k)
            if r is None: r = cache[k] = smt.check_quick(pc, c, 300)
            return r
        rp = {}
        for pat, w in d['replace']:
            mt = (lambda dn, q=re.compile(pat[1:]): bool(q.match(dn))) if pat[0] == '~' else (lambda dn: dn.startswith(pat))
            hits = [n for n, f in m.funcs.items() if mt(f['dn'])] + [n for n, dn in m.decls.items() if mt(dn)]
            for h in hits:
                if h != w: rp[h] = w
        lmod = {}
        def attempt(n=0):
            ex = symex.Executor(m, root, chk, rp, seed=1, deadline=deadline)
            ex.loops = dict(d['loops']); ex.loop_mod = lmod
            try: return ex, ex.run(), None
            except symex.Restart:
                if n > 8: return ex, ex.obls, 'loop frame not found'
                return attempt(n + 1)
            except Exception as e: return ex, ex.obls, e
        ex, obls, err = attempt()
        try:
            if isinstance(err, Exception): raise err
            if err: res['error'] = err
        except symex.Unsupported as e: res['error'] = 'unsupported: ' + str(e); obls = ex.obls
        except KeyError as e: res['error'] = 'internal: KeyError %s\n%s' % (e, traceback.format_exc()[-800:]); obls = ex.obls
        except Exception as e: res['error'] = 'internal: %s\n%s' % (e, traceback.format_exc()[-1500:]); obls = ex.obls
        res['paths'] = ex.paths; res['completed'] = ex.completed; res['fns'] = sorted(ex.fns_executed); res['assumptions'] = sorted(ex.assumptions)
        res['replaced'] = sorted(ex.replaced); res['covers'] = dict(ex.cover_reached); res['exec_s'] = time.time() - t0; res['ended'] = dict(ex.ended)
        res['externals'] = sorted(ex.externals)
    finally: sem.release()
    # deduplicate
    uniq = {}; order = []
    for o in obls:
        if o.pc is None:
            k = ('T', o.label, o.loc)
            if k in uniq: uniq[k][1] += 1; continue
            uniq[k] = [o, 1]; order.append(k); continue
        k = (o.label, o.loc, o.goal.id, tuple(c.id for c in smt.slice_pc(o.pc, o.goal)))
        if k in uniq:
            uniq[k][1] += 1
            if o.num is not None and uniq[k][0].num is None: uniq[k][0].num = o.num; uniq[k][0].pc = o.pc
            continue
        uniq[k] = [o, 1]; order.append(k)
    items = [(uniq[k][0], uniq[k][1]) for k in order]
    res['nraw'] = len(obls)
    for i, (o, n) in enumerate(items):
        if o.pc is None: res['obls'].append((o.label, o.kind, o.loc, n, 'proved', ['trivial (simplification)'], 0.0, None))
    todo = [(o, n) for o, n in items if o.pc is not None]
    # batches in forked children
    from vc.prove import Prover, forked
    nb = min(NPROC * 2, max(1, len(todo) // 3 + 1)) if len(todo) > 4 else 1
    batches = [todo[i::nb] for i in range(nb)]
    pids = []
    for bi, b in enumerate(batches):
        f = outpath + '.b%d' % bi
        pid = os.fork()
        if pid == 0:
            sem.acquire(); out = []; pv = Prover(tier)
            try:
                bad = {}; seen_ref = set()
                for o, n in b:
                    t1 = time.time()
                    pv.short = bad.get(o.label, 0) >= 1
                    if o.label in seen_ref or bad.get(o.label, 0) >= 6: r = ('unknown', 'skipped: same label already failed')
                    elif time.time() > deadline: r = ('unknown', 'overall time limit')
                    else:
                        try: r = pv.prove(o.pc, o.goal, o.num)
                        except Exception as e: r = ('unknown', 'internal: %s %s' % (e, traceback.format_exc()[-600:]))
                    extra = None
                    if r[0] == 'unknown': bad[o.label] = bad.get(o.label, 0) + 1
                    if r[0] == 'refuted': seen_ref.add(o.label)
                    if r[0] != 'proved':
                        from vc.term import show
                        extra = {'goal': show(o.goal, 7)[:3000], 'pc': [show(c, 5)[:400] for c in smt.slice_pc(o.pc, o.goal)][:40]}
                    out.append((o.label, o.kind, o.loc, n, r[0], sorted(r[1]) if r[0] == 'proved' else r[1], time.time() - t1, extra))
                pickle.dump((out, pv.time, pv.notes), open(f, 'wb'))
            except BaseException:
                traceback.print_exc()
            finally:
                sem.release(); os._exit(0)
        pids.append((pid, f, b))
    res['solver_time'] = {}; notes = set()
    for pid, f, b in pids:
        os.waitpid(pid, 0)
        try: out, tm, nt = pickle.load(open(f, 'rb'))
        except Exception:
            out = [(o.label, o.kind, o.loc, n, 'unknown', 'prover process died', 0.0, None) for o, n in b]; tm = {}; nt = set()
        res['obls'] += out; notes |= nt
        for k, v in tm.items(): res['solver_time'][k] = res['solver_time'].get(k, 0) + v
    res['notes'] = sorted(notes); res['wall'] = time.time() - t0
    pickle.dump(res, open(outpath, 'wb'))

def labels_in(path):
    s = open(path).read()
    return set(re.findall(r'vc_(?:check|eq|eqs|lemma)\(\s*"([^"]+)"', s))

def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop', nargs='?'); ap.add_argument('--setup', action='store_true'); ap.add_argument('--root'); ap.add_argument('--native', type=int, default=0); ap.add_argument('--keep', action='store_true'); ap.add_argument('-v', action='store_true')
    ap.add_argument('--only'); ap.add_argument('--deadline', type=float, default=None)
    a = ap.parse_args()
    if a.setup: print('built', ensure_irdump()); return 0
    t0 = time.time()
    pid = a.prop; tier = os.environ.get('VERIF_TIER', 'quick'); seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    limit = a.deadline or (720 if tier == 'quick' else 3000)
    deadline = t0 + limit
    files = sorted(glob.glob(HERE + '/contracts/%s_*.cpp' % pid))
    if a.only: files = [f for f in files if a.only in f]
    if not files: print('no contracts for', pid); return 2
    work = tempfile.mkdtemp(prefix='vc_%s_' % pid)
    try: return run(a, pid, tier, seed, deadline, files, work, t0)
    finally:
        if not a.keep: shutil.rmtree(work, ignore_errors=True)
        else: print('work dir', work)

def known_findings(pid):
    out = []
    p = HERE + '/known_findings.txt'
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            m = re.match(r'KNOWN property=(\S+) root=(\S+) label="([^"]*)" :: (.*)', l)
            if m and m.group(1) == pid: out.append((m.group(2), m.group(3), m.group(4)))
    return out

def run(a, pid, tier, seed, deadline, files, work, t0):
    import multiprocessing as mp
    units = []; jobs = []
    for f in files:
        u = Unit(f, work); u.dump = u.compile_bc()
        m = json.load(open(u.dump))
        u.roots = [r for r in m['roots'] if r.startswith('vc_prop_')]
        u.allroots = u.roots
        if a.root: u.roots = [r for r in u.roots if a.root in r]
        units.append(u)
    tc = time.time() - t0
    sem = mp.Semaphore(NPROC)
    procs = []
    for u in units:
        for r in u.roots:
            out = os.path.join(u.work, r + '.res')
            p = mp.Process(target=root_worker, args=(u.dump, r, u.d, tier, seed, deadline - 60, out, sem))
            p.daemon = False
            p.start(); procs.append((p, u, r, out))
    results = []
    for p, u, r, out in procs:
        p.join()
        try: res = pickle.load(open(out, 'rb'))
        except Exception: res = {'root': r, 'error': 'worker died', 'obls': [], 'paths': 0, 'covers': {}, 'assumptions': [], 'fns': [], 'replaced': [], 'solver_time': {}, 'notes': [], 'completed': 0}
        res['unit'] = u; results.append(res)
    # ------------------------------------------------------------ classify
    nob = ndis = 0; backends = {}; refuted = []; unknown = []; errors = []
    fns = set(); assumptions = set(); replaced = set(); st = {}; per_root = []; maxt = 0
    for res in results:
        if res['error']: errors.append('%s: %s' % (res['root'], res['error']))
        c = 0
        for (label, kind, loc, n, verdict, how, t, extra) in res['obls']:
            nob += n; maxt = max(maxt, t)
            if verdict == 'proved':
                ndis += n; c += n
                for h in how: backends[h] = backends.get(h, 0) + n
            elif verdict == 'refuted': refuted.append((res, label, kind, loc, how, extra))
            else: unknown.append((res, label, kind, loc, how, extra))
        if not res['error'] and res.get('completed', 0) == 0: errors.append('%s: no path reaches the end of the contract (vacuous)' % res['root'])
        if not res['error'] and not any(o[1] == 'post' for o in res['obls']): errors.append('%s: no postcondition obligations' % res['root'])
        fns |= set(res.get('fns', [])); assumptions |= set(res.get('assumptions', [])) | set(res.get('notes', [])); replaced |= set(res.get('replaced', []))
        for k, v in res.get('solver_time', {}).items(): st[k] = st.get(k, 0) + v
        per_root.append({'contract': res['root'], 'paths': res['paths'], 'obligations': sum(o[3] for o in res['obls']), 'discharged': c, 'wall_s': round(res.get('wall', 0), 2)})
        if a.v:
            print('%-60s paths %d/%d obls %d proved %d exec %.1fs wall %.1fs %s' % (res['root'], res.get('completed', 0), res['paths'], sum(o[3] for o in res['obls']), c, res.get('exec_s', 0), res.get('wall', 0), res.get('ended')))
    # vacuity: every postcondition label of the contracts is reached on a completed path
    if not a.root:
        for u in units:
            seen = set()
            for res in results:
                if res['unit'] is u: seen |= set(res.get('covers', {}))
            if not any(res['error'] for res in results if res['unit'] is u) and not refuted:
                miss = [l for l in labels_in(u.path) if l not in seen]
                if miss: errors.append('%s: postconditions never reached: %s' % (u.name, ', '.join(sorted(miss))))
    if a.v or errors or unknown or refuted:
        for e in errors: print('ERROR', e)
        shown = {}
        for (res, label, kind, loc, how, extra) in unknown:
            shown[(res['root'], label)] = shown.get((res['root'], label), 0) + 1
            if shown[(res['root'], label)] > 1: continue
            print('UNKNOWN %s [%s] %s at %s: %s' % (res['root'], label, kind, loc, str(how)[:300]))
            if a.v and extra: print('   goal', extra['goal'][:600])
        for (res, label, kind, loc, how, extra) in refuted:
            print('REFUTED %s [%s] %s at %s: %s' % (res['root'], label, kind, loc, str(how)[:400]))
            if a.v and extra: print('   goal', extra['goal'][:600]); print('   pc', [c[:150] for c in extra['pc'][:8]])
    # ------------------------------------------------------------ violations
    known = known_findings(pid); viol = []; kf = {}
    os.makedirs(HERE + '/replay', exist_ok=True)
    def is_known(root, label):
        for r, l, d in known:
            if r == root and (l == label or l == '*'): return d
        return None
    groups = {}
    for kind_, lst in (('refuted', refuted), ('unknown', unknown)):
        for x in lst: groups.setdefault((x[0]['root'], x[1]), []).append((kind_, x))
    for res in results:
        if res['error'] and not any(k[0] == res['root'] for k in groups): groups[(res['root'], '*error*')] = [('error', (res, '*error*', 'error', '?', res['error'], None))]
    still = []; tried_roots = {}
    for (root, label), lst in groups.items():
        d = is_known(root, label)
        if d is not None: kf[(root, label)] = d; continue
        res = lst[0][1][0]; u = res['unit']; found = None; err = ''
        if deadline - time.time() > 20:
            try:
                exe = u.native()
                for k, x in lst[:6]:
                    if k == 'refuted' and isinstance(x[4], dict):
                        o, e = native_run(exe, root, seed, 3, x[4], u.work, 40)
                        if o: found = (o, e, x); break
                if not found:
                    if root not in tried_roots: tried_roots[root] = native_run(exe, root, seed, 100000, None, u.work, 60)
                    o, e = tried_roots[root]
                    if o: found = (o, e, lst[0][1])
            except CheckError as ex: err = str(ex)
        ref = [x for k, x in lst if k == 'refuted']
        if found or ref:
            x = found[2] if found else ref[0]
            rp = '%s/replay/%s_%s.txt' % (HERE, pid, re.sub(r'\W+', '_', root + '_' + label)[:120])
            flab = re.search(r'label (.*?) :', found[0]).group(1) if found and 'label ' in found[0] else label
            if found and is_known(root, flab) is not None and not ref: kf[(root, flab)] = is_known(root, flab); continue
            with open(rp, 'w') as f:
                f.write('property %s\ncontract %s (%s)\nfailed obligation: %s [%s] at %s\n' % (pid, root, u.path, x[1], x[2], x[3]))
                f.write('verifier verdict: %s\n' % ('refuted' if ref else lst[0][0] + ' ' + str(x[4])[:500]))
                if ref:
                    f.write('verifier counterexample:\n')
                    for k, v in sorted(ref[0][4].items()) if isinstance(ref[0][4], dict) else []: f.write('  %s = %s\n' % (k, v))
                    if ref[0][5]: f.write('goal: %s\npath condition:\n%s\n' % (ref[0][5]['goal'], '\n'.join('  ' + c for c in ref[0][5]['pc'])))
                if found: f.write('replay on the real code (native build, AddressSanitizer/UBSan):\n%s\n%s\n' % (found[0][:6000], found[1][:3000]))
                else: f.write('no failing input found natively. %s\n' % err)
            viol.append((root, label, rp, bool(found)))
        else: still.append((root, label, str(lst[0][1][4])[:300] + ' ' + err[:1500]))
    for (root, label), d in kf.items(): pass
    for d in sorted(set(kf.values())): print('KNOWN-FINDING: property=%s %s' % (pid, d))
    if a.native and not viol:
        for u in units:
            exe = u.native()
            o, e = native_run(exe, a.root and u.roots[0] or '*', seed, a.native, None, u.work, 600)
            print('NATIVE', u.name, 'ok' if o is None else 'FAIL', (e if o is None else o)[:6000], '' if o is None else e)
    # ------------------------------------------------------------ evidence
    wall = time.time() - t0
    structural = [e for e in errors if 'vacuous' in e or 'never reached' in e or 'no postcondition' in e]
    repofns = sorted(f for f in fns if 's2e::' in f.split('(')[0] or f.startswith('gnss') or 'libra' in f or re.match(r'(field|tcoef|tyear|mfld[gc]|[gs]igrf|igrfc|fcalc|TransMagaxisToECI|IgrfCalc|Rotation[XYZ])\(', f))
    ev = {'property': pid, 'tier': tier, 'seed': seed, 'level': 'proof',
          'coverage': {'obligations': nob, 'discharged': ndis, 'checker_cmd': 'python3-vt /verif/check.py ' + pid,
                       'trusted_base': ['clang 18 front end (C++ to LLVM IR, -O1 without passes) and the LLVM passes sroa, simplifycfg, early-cse, dce', 'vc/irdump.cpp (IR extraction)', 'vc/symex.py (obligation generator)', 'vc/poly.py (polynomial normal form)', 'z3 5.3 (python), cvc5 1.1.2'],
                       'functions_under_contract': repofns, 'replaced_by_contract': sorted(replaced), 'contracts': per_root, 'back_ends': backends,
                       'solver_time_s': {k: round(v, 2) for k, v in st.items()}, 'slowest_obligation_s': round(maxt, 2), 'compile_s': round(tc, 2),
                       'known_findings': len(kf)},
          'assumptions': sorted(assumptions | {'floating point arithmetic is treated as exact real arithmetic (rounding, overflow to infinity and NaN are outside the proof)'}),
          'wall_s': round(wall, 2), 'violations': len(viol)}
    os.makedirs(HERE + '/evidence', exist_ok=True)
    if not a.root and not a.only:
        with open(HERE + '/evidence/%s.json' % pid, 'w') as f: json.dump(ev, f, indent=1)
    print('%s: %d contracts, %d obligations, %d discharged, %d functions, back ends %s, %.1fs' % (pid, len(results), nob, ndis, len(repofns), backends, wall))
    if viol:
        for root, label, rp, f in viol: print('VIOLATION property=%s replay=%s%s' % (pid, rp, '' if f else ' no-failing-input-found'))
        return 1
    if still or structural:
        for s in still: print('UNDECIDED %s [%s]: %s' % s)
        for s in structural: print('STRUCTURAL', s)
        return 2
    return 0

if __name__ == '__main__':
    try: rc = main()
    except CheckError as e:
        print('CHECK ERROR', e); rc = 3
    sys.stdout.flush()
    sys.exit(rc)
