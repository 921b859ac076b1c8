#!/usr/bin/env python3
"""Driver of the solver-based checks of ircu2 (see DESIGN.md).
   vp.py setup            build the engine and the bitcode of the current /repo
   vp.py check ID [tier]  decide one property
   vp.py replay HARNESS[:label] INPUTS   replay recorded inputs natively
"""
import sys, os, re, json, time, hashlib, subprocess, glob, shutil, threading, fcntl
from concurrent.futures import ThreadPoolExecutor
ROOT = os.path.dirname(os.path.abspath(__file__)); REPO = os.environ.get('VP_REPO', '/repo'); B = os.path.join(ROOT, 'build'); LIB = ROOT + '/lib'
CLANG, OPT, LINK = 'clang-18', 'opt-18', 'llvm-link-18'
PASSES = 'function(sroa,early-cse,instcombine<no-verify-fixpoint>,simplifycfg,adce)'
CF = ['-DHAVE_CONFIG_H', '-w', '-g']
BCF = ['-O0', '-Xclang', '-disable-O0-optnone', '-fno-builtin', '-c', '-emit-llvm']
NF = ['-O0', '-fsanitize=address', '-fno-inline', '-fno-omit-frame-pointer', '-fno-builtin', '-std=gnu17', '-c']
SKIP = {'table_gen.c', 'convert-conf.c', 'umkpasswd.c'}
NCPU = os.cpu_count() or 4
SAN = {'ASAN_OPTIONS': 'detect_leaks=0:detect_odr_violation=0:exitcode=43:detect_stack_use_after_return=0:allocator_may_return_null=1', 'TZ': 'UTC', 'LC_ALL': 'C'}

def sh(cmd, **kw): return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace', **kw)
def must(cmd, **kw):
    r = sh(cmd, **kw)
    if r.returncode: raise SystemExit2('build step failed: %s\n%s' % (' '.join(cmd), r.stdout[-3000:]))
    return r.stdout
class SystemExit2(Exception): pass
def h(*parts):
    m = hashlib.sha256()
    for p in parts: m.update(p if isinstance(p, bytes) else str(p).encode()); m.update(b'\0')
    return m.hexdigest()[:24]
def rd(p):
    with open(p, 'rb') as f: return f.read()
def put(path, fn):
    """produce path atomically with fn(tmp)"""
    if os.path.exists(path): return path
    tmp = '%s.%d.%d.tmp' % (path, os.getpid(), threading.get_ident()); fn(tmp); os.replace(tmp, path); return path

class Build:
    def __init__(self):
        os.makedirs(B + '/cache', exist_ok=True); os.makedirs(B + '/run', exist_ok=True)
        self.cfg = REPO if os.path.exists(REPO + '/config.h') else LIB + '/gen_fallback'
        hs = sorted(glob.glob(REPO + '/include/*.h') + glob.glob(REPO + '/ircd/*.h')) + [self.cfg + '/config.h']
        self.hdr = h(*[x for p in hs if not p.endswith('ircd_parser.h') for x in (p, rd(p))], *CF)
        am = open(REPO + '/ircd/Makefile.am').read().replace('\\\n', ' ')
        m = re.search(r'^ircd_SOURCES\s*=\s*(.*)$', am, re.M); self.srcs = [s for s in m.group(1).split() if s.endswith('.c') and s not in SKIP]
        for s in sorted(os.path.basename(p) for p in glob.glob(REPO + '/ircd/*.c')):   # conditionally added sources
            pass
        self.y = REPO + '/ircd/ircd_parser.y'; self.gen = None
    def engine(self):
        def mk(tmp): must(['make', '-s', '-C', ROOT + '/engine', 'OUT=' + os.path.dirname(tmp) + '/' + os.path.basename(tmp) + '.d']); os.replace(tmp + '.d/sx', tmp); shutil.rmtree(tmp + '.d', ignore_errors=True)
        key = h(*[rd(ROOT + '/engine/' + f) for f in ('sx.cpp', 'expr.cpp', 'expr.h', 'builtins.inc', 'Makefile')])
        self.sx = put('%s/cache/sx-%s' % (B, key), mk); return self.sx
    def generate(self):
        """chattr tables and the configuration parser, from their sources"""
        key = h(self.hdr, rd(REPO + '/ircd/table_gen.c'), rd(self.y)); d = '%s/cache/gen-%s' % (B, key); self.gen = d
        if os.path.exists(d + '/ok'): return
        t = d + '.%d' % os.getpid(); shutil.rmtree(t, ignore_errors=True); os.makedirs(t)
        must(['gcc'] + CF + self.inc() + [REPO + '/ircd/table_gen.c', '-o', t + '/table_gen'])
        open(t + '/chattr.tab.c', 'w').write(must([t + '/table_gen'])); must(['bison', '-y', '-d', '-o', t + '/ircd_parser.c', self.y])
        for l in sorted(glob.glob(REPO + '/ircd/*.l')): pass
        shutil.copy(LIB + '/gen_fallback/version.c', t + '/version.c'); open(t + '/ok', 'w').close()
        try: os.rename(t, d)
        except OSError: shutil.rmtree(t, ignore_errors=True)
    def inc(self, gen=True): return (['-I' + self.gen] if gen and self.gen else []) + ['-I' + self.cfg, '-I' + REPO, '-I' + REPO + '/include', '-I' + REPO + '/ircd', '-I' + LIB]
    def units(self):
        """(name, path) of every translation unit of the ircd"""
        us = []
        for s in self.srcs:
            p = REPO + '/ircd/' + s
            if os.path.exists(p): us.append((s, p))
        us += [('ircd_parser.c', self.gen + '/ircd_parser.c'), ('version.c', self.gen + '/version.c')]
        out = []
        for n, p in us:
            txt = rd(p)
            if p.startswith(REPO) and (b'"ircd_parser.h"' in txt or b'"chattr.tab.c"' in txt):   # must see the regenerated files, not stale ones beside it
                q = self.gen + '/' + h(txt) + '-' + n; put(q, lambda t: open(t, 'wb').write(txt)); p = q
            out.append((n, p))
        return out
    def bc(self, path, extra=(), name=None, useh=True):
        key = h(self.hdr if useh else '', self.gen, rd(path), *(list(extra) + BCF + [PASSES])); o = '%s/cache/%s-%s.bc' % (B, os.path.basename(path).split('.')[0][-30:], key)
        def mk(tmp): must([CLANG] + BCF + CF + self.inc() + list(extra) + [path, '-o', tmp + '.0']); must([OPT, '-passes=' + PASSES, tmp + '.0', '-o', tmp]); os.unlink(tmp + '.0')
        return put(o, mk)
    def ex(self, name): return ['-Dmain=ircd_main'] if name == 'ircd.c' else []
    def libs(self): return [LIB + '/world.c', LIB + '/libc.c']
    def libkey(self): return h(*[rd(p) for p in sorted(glob.glob(LIB + '/*.[chi]*')) if os.path.isfile(p)])
    def all_bc(self, replace):
        us = [u for u in self.units() if u[0] not in replace]
        with ThreadPoolExecutor(NCPU) as ex:
            fs = list(ex.map(lambda u: self.bc(u[1], self.ex(u[0])), us)) + list(ex.map(lambda p: self.bc(p, ['-DVPLIB=' + self.libkey()]), self.libs()))
        o = '%s/cache/all-%s.bc' % (B, h(*fs)); return put(o, lambda t: must([LINK] + fs + ['-o', t]))
    # ---- native objects for replay
    def obj(self, path, extra=(), redef=True, cc='gcc'):
        key = h(self.hdr, self.gen, rd(path), rd(LIB + '/redefine.txt'), redef, *(list(extra) + NF)); o = '%s/cache/%s-%s.o' % (B, os.path.basename(path).split('.')[0][-30:], key)
        def mk(tmp):
            must(['nice', cc] + NF + CF + self.inc() + list(extra) + [path, '-o', tmp])
            if redef: must(['objcopy', '--redefine-syms=' + LIB + '/redefine.txt', tmp])
        return put(o, mk)
    def native_lib(self, replace):
        us = [u for u in self.units() if u[0] not in replace]
        with ThreadPoolExecutor(NCPU) as ex: fs = list(ex.map(lambda u: self.obj(u[1], self.ex(u[0])), us))
        k = '-DVPLIB=' + self.libkey()
        return fs + [self.obj(LIB + '/world.c', [k], False), self.obj(LIB + '/vp_native.c', [k], False), self.obj(LIB + '/native_sys.c', [k], False)]
    def native(self, hs, defs):
        k = '-DVPLIB=' + self.libkey(); fs = [self.obj(hs.path, defs + [k, '-DHSRC=' + hs.key])] + self.native_lib(hs.replace)
        o = '%s/cache/n-%s' % (B, h(*fs)); return put(o, lambda t: must(['gcc', '-fsanitize=address', '-no-pie', '-Wl,--allow-multiple-definition'] + fs + ['-o', t, '-lcrypt', '-lcrypto']))
    def harness_bc(self, hs, defs):
        base = self.all_bc(hs.replace); hb = self.bc(hs.path, defs + ['-DVPLIB=' + self.libkey(), '-DHSRC=' + hs.key])
        o = '%s/cache/p-%s.bc' % (B, h(base, hb)); return put(o, lambda t: must([LINK, base, '--override=' + hb, '-o', t]))

class Harness:
    def __init__(self, path):
        self.path = path; self.name = os.path.basename(path)[:-2]; txt = open(path).read(); self.text = txt
        head = txt[:txt.index('*/')] if txt.startswith('/*') else ''
        g = lambda k: [l.strip() for l in re.findall(r'^[ */]*@%s\b[ \t]*(.*)$' % k, head, re.M)]
        self.props = ' '.join(g('property')).split(); self.replace = set(' '.join(g('replace')).split()); self.reach = ' '.join(g('reach')).replace(',', ' ').split()
        self.runs = {'quick': g('quick') or [''], 'thorough': g('thorough') or g('quick') or ['']}; self.bounds = ' '.join(g('bounds')); self.outside = ' '.join(g('outside')); self.assume = g('assume'); self.known = g('known')
        dep = ''.join(open(ROOT + '/harness/' + i).read() for i in re.findall(r'#include "(\w+\.inc)"', txt) if os.path.exists(ROOT + '/harness/' + i))
        self.key = h(dep, *[rd(REPO + '/ircd/' + r) for r in sorted(self.replace) if os.path.exists(REPO + '/ircd/' + r)])
    def jobs(self, tier):
        out = []
        for spec in self.runs[tier]:
            d = {'time': 60, 'j': NCPU, 'defs': [], 'instr': 80000000, 'label': '', 'reach': None, 'z': 5000, 'f': 300}
            for w in spec.split():
                if '=' in w and w.split('=')[0] in ('time', 'j', 'instr', 'label', 'reach', 'z', 'f'): k, v = w.split('=', 1); d[k] = v if k in ('label', 'reach') else int(v)
                else: d['defs'].append('-D' + w)
            d['label'] = d['label'] or '_'.join(x[2:] for x in d['defs']) or 'main'; out.append(d)
        return out

def parse_inputs(path): return path
def write_inputs(path, inputs):
    with open(path, 'w') as f:
        for n, w, v in inputs: f.write('%s %d %d\n' % (re.sub(r'\s', '_', n), w, v))
def run_native(exe, inp, timeout=60):
    d = B + '/run/cwd-%d-%d' % (os.getpid(), threading.get_ident()); os.makedirs(d, exist_ok=True)
    try: r = subprocess.run([exe, inp], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, cwd=d, env=dict(os.environ, **SAN)); rc, out = r.returncode, r.stdout.decode('latin-1')
    except subprocess.TimeoutExpired as e: rc, out = -14, (e.stdout or b'').decode('latin-1')
    shutil.rmtree(d, ignore_errors=True); return rc, out
def verdict(rc, out):
    """(reproduced, description)"""
    m = re.search(r'VP-ASSERT-FAIL (.*)', out)
    if rc == 40: return True, 'assertion: ' + (m.group(1) if m else '?')
    if rc in (41, 42): return False, 'replay diverged'
    if rc == 43:
        m = re.search(r'ERROR: AddressSanitizer: (.*)', out); return True, 'AddressSanitizer: ' + (m.group(1)[:120] if m else '?')
    if rc in (-14, 142): return True, 'does not terminate'
    if rc < 0: m = re.search(r'Assertion `(.*)', out); return True, 'killed by signal %d%s' % (-rc, ' (assertion ' + m.group(1) if m else '')
    if 'VP-END' not in out: return True, 'process exited with status %d' % rc
    return False, 'completed normally'

def human(inputs):
    """compact rendering of an input assignment: consecutive bytes of one name become a string"""
    out = []; i = 0
    while i < len(inputs):
        n, w, v = inputs[i]
        if w == 8:
            j = i; bs = []
            while j < len(inputs) and inputs[j][0] == n and inputs[j][1] == 8: bs.append(inputs[j][2]); j += 1
            out.append('%s=%s' % (n, repr(bytes(bs))[1:] if len(bs) > 1 else bs[0])); i = j
        else: out.append('%s=%d' % (n, v)); i += 1
    return ' '.join(out)

def run_job(b, hs, job, tier, seed, rdir):
    defs = job['defs'] + ['-DVP_TIER_' + tier.upper()]; bc = b.harness_bc(hs, defs); pre = '%s/%s-%s' % (rdir, hs.name, re.sub(r'\W', '_', job['label']))
    for f in glob.glob(pre + '.*'): os.unlink(f)
    t0 = time.time(); cmd = [b.sx, bc, '-o', pre, '-t', str(job['time']), '-j', str(job['j']), '-f', str(job['f']), '-i', str(job['instr']), '-z', str(job['z']), '-s', str(seed)]
    r = sh(cmd); res = {'harness': hs.name, 'label': job['label'], 'rc': r.returncode, 'log': r.stdout[-2000:], 'viol': [], 'wit': [], 'reach': {}, 'assert': {}, 'err': {}, 'errs': [], 'fn': {}, 'st': {}, 'wall': time.time() - t0, 'complete': True}
    for f in sorted(glob.glob(pre + '.[0-9]*')):
        for line in open(f, errors='replace'):
            try: o = json.loads(line)
            except ValueError: continue
            t = o['t']
            if t == 'viol': res['viol'].append(o)
            elif t == 'wit': res['wit'].append(o)
            elif t == 'err': res['errs'].append(o)
            elif t == 'reach': res['reach'][o['tag']] = res['reach'].get(o['tag'], 0) + o['n']
            elif t == 'assert': res['assert'][o['msg']] = res['assert'].get(o['msg'], 0) + o['n']
            elif t == 'errsum': res['err'][o['msg']] = res['err'].get(o['msg'], 0) + o['n']
            elif t == 'fn': k = o['name']; p = res['fn'].get(k); res['fn'][k] = {'file': os.path.basename(o['file']), 'instrs': o['instrs'], 'hit': max(o['hit'], p['hit'] if p else 0)}
            elif t == 'stats':
                for k, v in o.items():
                    if k == 'complete': res['complete'] = res['complete'] and v
                    elif k == 'maxrss_mb': res['st'][k] = max(res['st'].get(k, 0), v)
                    elif k not in ('t', 'wall'): res['st'][k] = res['st'].get(k, 0) + v
    if r.returncode: res['complete'] = False
    return res

def check(pid, tier, seed):
    t0 = time.time(); b = Build(); b.generate()
    hss = [x for x in (Harness(p) for p in sorted(glob.glob(ROOT + '/harness/*.c'))) if pid in x.props]
    if not hss: print('no harness for', pid); return 2
    rdir = '%s/run/%s-%d' % (B, pid, os.getpid()); os.makedirs(rdir, exist_ok=True)
    man = {c['property']: c for c in json.load(open(ROOT + '/MANIFEST.json'))['checks']} if os.path.exists(ROOT + '/MANIFEST.json') else {}
    known = [k for k in json.load(open(ROOT + '/known_findings.json'))['findings'] if k['property'] == pid] if os.path.exists(ROOT + '/known_findings.json') else []
    errbox = []
    eng = threading.Thread(target=lambda: guard(b.engine, errbox)); eng.start()
    for hs in hss:
        try: b.all_bc(hs.replace)
        except SystemExit2 as e: print('BUILD-ERROR', e); return 2
    eng.join()
    if errbox: print('BUILD-ERROR', errbox[0]); return 2
    natt = threading.Thread(target=lambda: guard(lambda: [b.native_lib(x.replace) for x in hss], errbox)); natt.start()
    jobs = [(hs, j) for hs in hss for j in hs.jobs(tier)]
    # jobs asking for fewer than all cores run side by side
    sem = threading.Semaphore(NCPU); lk = threading.Lock(); results = [None] * len(jobs)
    def one(i):
        hs, j = jobs[i]; n = min(j['j'], NCPU)
        with lk:
            for _ in range(n): sem.acquire()
        try: results[i] = run_job(b, hs, j, tier, seed, rdir)
        except SystemExit2 as e: results[i] = {'buildfail': str(e), 'harness': hs.name, 'label': j['label']}
        finally:
            for _ in range(n): sem.release()
    with ThreadPoolExecutor(NCPU) as ex: list(ex.map(one, range(len(jobs))))
    natt.join(); bad = []; viols = []; unconf = []; knownhit = []; validated = 0; diverged = []; samples = []
    for (hs, job), r in zip(jobs, results):
        if 'buildfail' in r: bad.append('%s: %s' % (hs.name, r['buildfail'])); continue
        if r['rc'] not in (0,): bad.append('%s/%s: engine exit %d %s' % (hs.name, job['label'], r['rc'], r['log'][-400:]))
        exe = None; r['native'] = None
        def native():
            nonlocal exe
            if not exe: exe = b.native(hs, job['defs'] + ['-DVP_TIER_' + tier.upper()])
            return exe
        seen = {}
        for v in r['viol']:
            if seen.get(v["key"], 0) >= 2: continue
            seen[v['key']] = seen.get(v['key'], 0) + 1
            k = len(viols) + len(unconf); fi = '%s/cex-%d.inputs' % (rdir, k); write_inputs(fi, v['inputs'])
            try: rc, out = run_native(native(), fi)
            except SystemExit2 as e: bad.append('%s: %s' % (hs.name, e)); break
            ok, desc = verdict(rc, out)
            rec = {'property': pid, 'harness': hs.name, 'label': job['label'], 'defs': job['defs'], 'kind': v['kind'], 'msg': v['msg'], 'loc': v['loc'], 'stack': v['stack'], 'inputs': v['inputs'], 'readable': human(v['inputs']), 'native': desc, 'native_output': out[-3000:]}
            if not ok: unconf.append(rec); continue
            kk = [x for x in known if x['harness'] == hs.name and x['msg'] == v['msg'] and re.search(x.get('inputs', ''), rec['readable'])]
            if kk: knownhit.append((kk[0], rec)); continue
            rp = '%s/violation-%s-%d.json' % (rdir, pid, len(viols)); rec['replay_cmd'] = '%s/vp.py replay %s' % (ROOT, rp); rec['path'] = rp; json.dump(rec, open(rp, 'w'), indent=1); viols.append(rec)
        need = [t.split(":", 1)[-1] for t in (job["reach"].split(",") if job["reach"] else hs.reach) if ":" not in t or t.split(":", 1)[0] == job["label"]]
        miss = [t for t in need if not r['reach'].get(t)]
        if miss: bad.append('%s/%s: never reached: %s' % (hs.name, job['label'], ','.join(miss)))
        if not r['st'].get('paths') and not r['viol']: bad.append('%s/%s: no path completed (%s)' % (hs.name, job['label'], '; '.join(list(r['err'])[:3])))
        for w in r['wit'][:2 if tier == 'quick' else 6]:
            fi = '%s/wit.inputs' % rdir; write_inputs(fi, w['inputs'])
            try: rc, out = run_native(native(), fi)
            except SystemExit2 as e: bad.append('%s: %s' % (hs.name, e)); break
            tr = [(m[0], int(m[1])) for m in re.findall(r'^VP-TRACE (.*) (\d+)$', out, re.M)]; want = [(t, int(v)) for t, v in w['trace']]
            if rc == 0 and [(t, v & (2**64 - 1)) for t, v in tr] == [(t, v & (2**64 - 1)) for t, v in want]: validated += 1; samples.append({'harness': hs.name, 'run': job['label'], 'inputs': human(w['inputs'])[:300], 'trace': want[:8]})
            else: diverged.append({'harness': hs.name, 'run': job['label'], 'inputs': human(w['inputs'])[:400], 'rc': rc, 'native': tr[:20], 'engine': want[:20], 'out': out[-1500:] if rc else ''})
    ok = [r for r in results if 'buildfail' not in r]; tot = {}
    for r in ok:
        for k, v in r['st'].items(): tot[k] = max(tot.get(k, 0), v) if k == 'maxrss_mb' else tot.get(k, 0) + v
    fns = {}
    for r in ok:
        for n, f in r['fn'].items():
            if f['file'] in ('world.c', 'libc.c') or n.startswith('vp_') or n.startswith('w_'): continue
            p = fns.get(n); fns[n] = {'file': f['file'], 'ir_instructions': f['instrs'], 'covered': max(f['hit'], p['covered'] if p else 0)}
    exh = all(r['complete'] and not r['st'].get('qunknown') and not r['err'] for r in ok) and not bad
    level = man.get(pid, {}).get('level', 'model_checking')
    cov = {'states': tot.get('paths', 0) + tot.get('infeasible', 0) + tot.get('errors', 0) + tot.get('cut', 0) + tot.get('forks', 0), 'transitions': tot.get('instr', 0), 'traces_validated_against_impl': validated, 'samples': samples[:6] or [{'none': 'no witness'}],
           'exhaustive': bool(exh), 'explanation': 'Symbolic execution of the LLVM IR compiled from /repo in this run; every branch on symbolic data and every assertion is decided for all values of the inputs, by Z3 or, where a condition concerns one finite-domain input, by exact evaluation over its domain; those decisions, the condition of each finished path and the conjunction of the assertions on it are given to Z3 again, within a fifth of the run time. states = symbolic states (paths and fork points), transitions = IR instructions interpreted.',
           'paths_completed': tot.get('paths', 0), 'assertions_evaluated': tot.get('asserts', 0), 'assertion_queries': tot.get('assertq', 0), 'queries': tot.get('queries', 0), 'queries_sat': tot.get('qsat', 0), 'queries_unsat': tot.get('qunsat', 0), 'queries_unknown': tot.get('qunknown', 0), 'paths_confirmed_satisfiable_by_solver': tot.get('pathq', 0), 'paths_whose_assertions_solver_proved_together': tot.get('pathproved', 0), 'infeasible_branches_confirmed_by_solver': tot.get('prunq', 0), 'decided_by_domain_reasoning': tot.get('domdec', 0) + tot.get('localsat', 0), 'solver_seconds': round(tot.get('ztime', 0), 2), 'max_rss_mb': tot.get('maxrss_mb', 0),
           'runs': [{'harness': r['harness'], 'run': r['label'], 'complete': r['complete'], 'paths': r['st'].get('paths', 0), 'wall_s': round(r['wall'], 1), 'reached': r['reach'], 'assertions': r['assert'], 'path_errors': r['err'], 'error_samples': r['errs'][:3]} for r in ok],
           'bounds': [{'harness': x.name, 'bounds': x.bounds, 'outside': x.outside, 'runs': x.runs[tier]} for x in hss], 'functions_encoded': fns, 'unconfirmed_candidates': unconf[:5], 'replay_divergences': diverged[:5], 'problems': bad}
    ev = {'property': pid, 'tier': tier, 'seed': seed, 'level': level, 'coverage': cov, 'assumptions': [a for x in hss for a in x.assume] + ['clang -O0 IR, mem2reg-class simplification, the engine and Z3 are trusted; memory allocation never fails', 'operating system, clock and (where used) TLS are the in-memory model of lib/world.c'], 'wall_s': round(time.time() - t0, 1), 'violations': len(viols)}
    os.makedirs(ROOT + '/evidence', exist_ok=True); tmp = ROOT + '/evidence/.%s.%d' % (pid, os.getpid()); json.dump(ev, open(tmp, 'w'), indent=1); os.replace(tmp, ROOT + '/evidence/%s.json' % pid)
    for k, rec in {k['id']: (k, rec) for k, rec in knownhit}.values(): print('KNOWN-FINDING: property=%s %s' % (pid, k['what']))
    print('%s %s: paths=%d forks=%d asserts=%d queries=%d unknown=%d complete=%s validated=%d diverged=%d unconfirmed=%d wall=%.1fs solver=%.1fs' % (pid, tier, tot.get('paths', 0), tot.get('forks', 0), tot.get('asserts', 0), tot.get('queries', 0), tot.get('qunknown', 0), exh, validated, len(diverged), len(unconf), time.time() - t0, tot.get('ztime', 0)))
    for r in ok: print('  %s/%s: paths=%d infeasible=%d err=%d complete=%s %.1fs %s' % (r['harness'], r['label'], r['st'].get('paths', 0), r['st'].get('infeasible', 0), r['st'].get('errors', 0), r['complete'], r['wall'], dict(list(r['reach'].items())[:12])), *(['  ERR ' + e + ' x%d' % n for e, n in list(r['err'].items())[:3]]))
    for d in diverged[:3]: print('  DIVERGED', json.dumps(d)[:1500])
    for u in unconf[:3]: print('  UNCONFIRMED', u['harness'], u['label'], u['kind'], u['msg'], u['loc'], '|', u['readable'][:300], '|', u['native'])
    for v in viols: print('VIOLATION property=%s replay=%s' % (pid, v['path'])); print('   %s/%s %s: %s at %s | inputs: %s | native: %s' % (v['harness'], v['label'], v['kind'], v['msg'], v['loc'], v['readable'][:400], v['native'])); print('   ', v['stack'][:300])
    for x in bad: print('PROBLEM', x)
    if viols: return 1
    return 2 if bad else 0
def guard(f, box):
    try: f()
    except SystemExit2 as e: box.append(str(e))
    except Exception as e: box.append(repr(e))

def main():
    a = sys.argv[1:]; seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    if a[:1] == ['setup']:
        b = Build(); b.generate(); b.engine(); b.all_bc(set()); b.native_lib(set()); print('ok'); return 0
    if a[:1] == ['check']:
        tier = a[2] if len(a) > 2 else os.environ.get('VERIF_TIER', 'quick'); return check(a[1], tier, seed)
    if a[:1] == ['replay']:
        a[1] = os.path.abspath(a[1]); rec = json.load(open(a[1])); b = Build(); b.generate(); hs = Harness(ROOT + '/harness/' + rec['harness'] + '.c'); fi = a[1] + '.inputs'; write_inputs(fi, rec['inputs'])
        exe = b.native(hs, rec['defs'] + ['-DVP_TIER_QUICK']); rc, out = run_native(exe, fi); print(out); print(verdict(rc, out)); return 1 if verdict(rc, out)[0] else 0
    print(__doc__); return 2
if __name__ == '__main__':
    try: sys.exit(main())
    except SystemExit2 as e: print('BUILD-ERROR', e); sys.exit(2)
