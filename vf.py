#!/usr/bin/env python3
"""Driver: builds bitcode of /repo's current tree, runs the symbolic executor on the harnesses of a property,
replays counterexamples natively against the real code, writes evidence and the verdict."""
import sys, os, re, json, glob, time, hashlib, subprocess, shutil, fcntl, threading
import concurrent.futures as cf
ROOT = os.path.dirname(os.path.abspath(__file__)); REPO = os.environ.get('BSYM_REPO', '/repo'); BUILD = os.path.join(ROOT, '.build')
CXX = '/usr/bin/clang++'; LLVM = '/usr/lib/llvm-18/bin'
NPROC = max(1, os.cpu_count() or 8)
BASE = ['-I' + REPO, '-std=c++17', '-DNDEBUG', '-DBL_STATIC', '-DBL_BUILD_OPT_AVX512', '-DBL_BUILD_NO_JIT', '-DBL_BUILD_NO_STDCXX', '-fno-math-errno', '-fno-threadsafe-statics', '-fno-exceptions', '-fno-rtti', '-fno-trapping-math', '-fno-strict-aliasing', '-ffp-contract=off', '-fno-pic', '-fno-pie', '-w']
IRFL = ['-O1', '-fno-vectorize', '-fno-slp-vectorize', '-fno-unroll-loops', '-gline-tables-only', '-emit-llvm']
EXTRA = {'ssse3': ['-mssse3'], 'sse4_1': ['-msse4.1'], 'sse4_2': ['-mpopcnt', '-mpclmul', '-msse4.2'], 'avx': ['-mpopcnt', '-mpclmul', '-mavx'], 'avx2': ['-mpopcnt', '-mpclmul', '-mbmi', '-mbmi2', '-mavx2', '-DBL_TARGET_OPT_POPCNT', '-DBL_TARGET_OPT_BMI2'],
         'avx512': ['-mpopcnt', '-mpclmul', '-mbmi', '-mbmi2', '-mavx2', '-mavx512f', '-mavx512bw', '-mavx512dq', '-mavx512cd', '-mavx512vl', '-DBL_TARGET_OPT_POPCNT', '-DBL_TARGET_OPT_BMI2']}
WRAPS = ['malloc', 'calloc', 'realloc', 'free']
def sh(cmd, timeout=900, **kw): return subprocess.run(cmd, capture_output=True, text=True, timeout=timeout, errors='replace', **kw)
def die(msg, code=2): print('ERROR: ' + msg, flush=True); sys.exit(code)
def file_hash(paths):
    h = hashlib.sha256()
    for p in paths:
        h.update(p.encode()); h.update(b'\0')
        with open(p, 'rb') as f: h.update(f.read())
        h.update(b'\0')
    return h.hexdigest()[:20]
class Lock:
    def __init__(self, name): os.makedirs(BUILD, exist_ok=True); self.f = open(os.path.join(BUILD, name + '.lock'), 'w')
    def __enter__(self): fcntl.flock(self.f, fcntl.LOCK_EX); return self
    def __exit__(self, *a): fcntl.flock(self.f, fcntl.LOCK_UN); self.f.close()

def build_engine():
    src = sorted(glob.glob(ROOT + '/engine/*')); key = file_hash(src); stamp = BUILD + '/engine.key'
    with Lock('engine'):
        if os.path.exists(BUILD + '/bsym') and os.path.exists(stamp) and open(stamp).read() == key: return BUILD + '/bsym'
        r = sh(['make', '-C', ROOT + '/engine', '-B', '-j4', 'OUT=' + BUILD])
        if r.returncode: die('engine build failed:\n' + r.stderr[-3000:])
        open(stamp, 'w').write(key)
    return BUILD + '/bsym'

def lib_sources():
    out = []
    for p in sorted(glob.glob(REPO + '/blend2d/**/*.cpp', recursive=True)):
        b = os.path.basename(p)
        if '/jit/' in p or '_test' in b: continue
        out.append(p)
    return out
def extra_flags(p):
    m = re.search(r'_(ssse3|sse4_1|sse4_2|avx|avx2|avx512)\.cpp$', p)
    return EXTRA[m[1]] if m else []
def tree_key():
    fs = [p for p in sorted(glob.glob(REPO + '/blend2d/**/*', recursive=True)) if os.path.isfile(p) and not re.search(r'_test[^/]*\.cpp$', p)]
    return file_hash(fs)
def build_lib():
    """bitcode (linked) + native objects generated from that same bitcode. Cached by the content of the tree."""
    key = tree_key(); d = f'{BUILD}/lib-{key}'
    with Lock('lib'):
        if os.path.exists(d + '/ok'): return d
        for o in sorted(glob.glob(BUILD + '/lib-*'), key=os.path.getmtime)[:-2]: shutil.rmtree(o, ignore_errors=True)
        shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
        srcs = lib_sources()
        srcs.sort(key=lambda p: -os.path.getsize(p)); big = [p for p in srcs if 'pipeline' in p or 'pixelconverter' in p]; srcs = big + [p for p in srcs if p not in big]
        def one(p):
            n = p[len(REPO) + 1:].replace('/', '__')[:-4]; bc = f'{d}/{n}.bc'
            r = sh([CXX] + BASE + extra_flags(p) + IRFL + ['-c', p, '-o', bc])
            if r.returncode: return p, r.stderr
            r = sh([CXX, '-O1', '-fno-pic', '-w', '-c', bc, '-o', f'{d}/{n}.o'])
            return p, r.stderr if r.returncode else None
        with cf.ThreadPoolExecutor(NPROC) as ex: res = list(ex.map(one, srcs))
        bad = [(p, e) for p, e in res if e is not None]
        if bad: die('library does not compile to bitcode: ' + bad[0][0] + '\n' + bad[0][1][:3000])
        r = sh([LLVM + '/llvm-link', '-o', d + '/all.bc'] + sorted(glob.glob(d + '/*__*.bc')))
        if r.returncode: die('llvm-link: ' + r.stderr[:3000])
        for p in glob.glob(d + '/*__*.bc'): os.unlink(p)
        open(d + '/ok', 'w').write('')
    return d
def build_asan_lib():
    key = tree_key(); d = f'{BUILD}/asan-{key}'
    with Lock('asan'):
        if os.path.exists(d + '/ok'): return d
        for o in glob.glob(BUILD + '/asan-*'): shutil.rmtree(o, ignore_errors=True)
        os.makedirs(d)
        def one(p):
            n = p[len(REPO) + 1:].replace('/', '__')[:-4]
            r = sh([CXX] + BASE + extra_flags(p) + ['-O1', '-g1', '-fsanitize=address', '-fno-omit-frame-pointer', '-c', p, '-o', f'{d}/{n}.o']); return r.stderr if r.returncode else None
        with cf.ThreadPoolExecutor(NPROC) as ex: res = list(ex.map(one, lib_sources()))
        if any(res): die('asan build failed: ' + [x for x in res if x][0][:2000])
        open(d + '/ok', 'w').write('')
    return d
def harness_flags(src):
    m = re.search(r'^// *FLAGS: *(.*)$', open(src).read(), re.M); return m[1].split() if m else []
def stubs(src): return sorted(set(re.findall(r'\bSTUB\((\w+)\)', open(src).read())))
def build_harness(lib, src, tier, workdir):
    n = os.path.basename(src)[:-4]; hb = f'{workdir}/{n}.bc'; out = f'{workdir}/{n}.all.bc'
    fl = BASE + harness_flags(src) + [f'-DTHOROUGH={1 if tier == "thorough" else 0}', '-I' + ROOT + '/harness']
    r = sh([CXX] + fl + IRFL + ['-c', src, '-o', hb])
    if r.returncode: return None, 'harness does not compile: ' + r.stderr[:3000]
    r = sh([LLVM + '/llvm-link', '-o', out, lib + '/all.bc', hb])
    if r.returncode: return None, 'link: ' + r.stderr[:3000]
    return out, None
def build_native(lib, src, tier, workdir, asan=False):
    n = os.path.basename(src)[:-4]; out = f'{workdir}/{n}.{"asan" if asan else "nat"}'
    if os.path.exists(out): return out
    st = stubs(src); objs = sorted(glob.glob(lib + '/*.o'))
    fl = BASE + harness_flags(src) + [f'-DTHOROUGH={1 if tier == "thorough" else 0}', '-DBSYM_NATIVE=1', '-I' + ROOT + '/harness', '-O1', '-g1'] + (['-fsanitize=address'] if asan else [])
    wr = [f'-Wl,--wrap={w}' for w in WRAPS + st]
    r = sh([CXX] + fl + [src, ROOT + '/runtime/native.cpp'] + objs + ['-o', out, '-no-pie', '-rdynamic', '-lpthread', '-ldl', '-lm'] + wr)
    if r.returncode: print('native build failed: ' + r.stderr[-2000:]); return None
    return out
def write_inputs(path, ins):
    with open(path, 'w') as f:
        for n, w, v in ins: f.write(f'{n} {v}\n')
def run_native(exe, entry, inp, fill='165', timeout=20):
    env = dict(os.environ, BSYM_FILL=fill, ASAN_OPTIONS='detect_leaks=0:allocator_may_return_null=1:detect_stack_use_after_return=1')
    try: r = sh([exe, entry, inp], timeout=timeout, env=env); return r.returncode, r.stdout, r.stderr
    except subprocess.TimeoutExpired: return 'timeout', '', ''

def load_checks():
    sys.path.insert(0, ROOT); import checks; return checks.PROPS
def known_findings():
    p = ROOT + '/known_findings.json'
    return json.load(open(p)) if os.path.exists(p) else {'findings': [], 'fixed': []}

def check(pid, tier):
    t0 = time.time(); P = load_checks()[pid]; seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    work = f'{BUILD}/work-{pid}-{os.getpid()}'; shutil.rmtree(work, ignore_errors=True); os.makedirs(work)
    rep = f'{BUILD}/replay/{pid}'; shutil.rmtree(rep, ignore_errors=True); os.makedirs(rep)
    try: return _check(pid, tier, P, t0, seed, work, rep)
    finally: shutil.rmtree(work, ignore_errors=True)
def merge_shards(res):
    out = {}
    for e, j, err, dt in res:
        n = e['entry']
        if n not in out: out[n] = [e, j, err, dt]; continue
        o = out[n]; o[3] = max(o[3], dt)
        if j is None: o[1] = None; o[2] = err
        if o[1] is None: continue
        a = o[1]
        for k, v in j.items():
            if isinstance(v, (int, float)) and not isinstance(v, bool): a[k] = a.get(k, 0) + v
        for k, v in j['solver'].items(): a['solver'][k] += v
        for k, v in j['incomplete'].items(): a['incomplete'][k] = v if not isinstance(v, (int, float)) else a['incomplete'].get(k, 0) + v
        a['reach'] = sorted(set(a['reach']) | set(j['reach'])); a['functions'] = a['functions'] + j['functions']; a['traces'] = a['traces'] + j['traces'][:1]
        for x in j['errors']:
            if not any((x['kind'], x['msg'], x['loc'], x['fn']) == (y['kind'], y['msg'], y['loc'], y['fn']) for y in a['errors']): a['errors'].append(x)
        if isinstance(a['assert_sites'], dict):
            for k, v in j['assert_sites'].items(): a['assert_sites'][k] = a['assert_sites'].get(k, 0) + v
    return [tuple(x) for x in out.values()]
def _check(pid, tier, P, t0, seed, work, rep):
    with cf.ThreadPoolExecutor(2) as ex: fe = ex.submit(build_engine); fl = ex.submit(build_lib); engine = fe.result(); lib = fl.result()
    t_build = time.time() - t0
    ents = [dict(e) for e in P['entries'] if tier in e.get('tiers', ['quick', 'thorough'])]
    hs = sorted(set(e['harness'] for e in ents)); mods = {}
    with cf.ThreadPoolExecutor(NPROC) as ex:
        for h, (m, err) in zip(hs, ex.map(lambda h: build_harness(lib, f'{ROOT}/harness/{h}.cpp', tier, work), hs)):
            if err: print(err); die(f'harness {h}')
            mods[h] = m
    budget = P.get('time', {}).get(tier, 60 if tier == 'quick' else 420)
    def run_entry(e):
        sh_k, sh_n, sh_d = e.get('_shard', (0, 1, 2)); o = f'{work}/{e["entry"]}.{sh_k}.json'; mt = e.get('time', {}).get(tier, budget)
        cmd = [engine, '--entry', e['entry'], '--out', o, '--max-time', str(mt), '--tmp', work, '--heavy-timeout', str(e.get('heavy', {}).get(tier, 20 if tier == 'quick' else 120)), '--mem', str(e.get('mem', 6000))] + e.get('opts', []) + e.get('opts_' + tier, []) + (['--shard', f'{sh_k}/{sh_n}@{sh_d}'] if sh_n > 1 else []) + [mods[e['harness']]]
        t = time.time()
        try: r = sh(cmd, timeout=mt + 120)
        except subprocess.TimeoutExpired: return e, None, 'engine timeout', time.time() - t
        if not os.path.exists(o) or r.returncode not in (0, 1): return e, None, f'engine failed rc={r.returncode}: ' + r.stderr[-1500:], time.time() - t
        return e, json.load(open(o)), r.stderr[-3000:], time.time() - t
    order = []
    for e in sorted(ents, key=lambda e: -e.get('cost', 1)):
        n = e.get('shards', 1)
        if isinstance(n, dict): n = n.get(tier, 1)
        order += [dict(e, _shard=(k, n, e.get('shard_depth', 2))) for k in range(n)] if n > 1 else [e]
    with cf.ThreadPoolExecutor(NPROC) as ex: results = merge_shards(list(ex.map(run_entry, order)))
    kf = [k for k in known_findings()['findings'] if k['property'] == pid]
    viol, known, problems, incomplete = [], [], [], []
    cov = dict(states=0, transitions=0, traces_validated_against_impl=0, forks=0, merges=0, assertions_checked=0, assertion_queries=0, bounds_queries=0, solver_queries=0, solver_unsat=0, solver_sat=0, solver_unknown=0, portfolio_queries=0, fp_queries=0, solver_time_s=0.0, own_sat_unsat=0, own_sat_crosschecked=0, solver_disagreements=0, symbolic_inputs=0, schedule_points=0)
    funcs = {}; samples = []; per = []; abstr = set()
    for e, j, err, dt in results:
        if j is None: problems.append(f'{e["entry"]}: {err}'); continue
        s = j['solver']
        cov['states'] += j['paths'] + j['killed'] + j['merges']; cov['transitions'] += j['instr']; cov['forks'] += j['forks']; cov['merges'] += j['merges']; cov['assertions_checked'] += j['asserts']; cov['assertion_queries'] += j['assert_queries']; cov['bounds_queries'] += j['bounds_queries']
        cov['solver_queries'] += s['queries']; cov['solver_unsat'] += s['unsat']; cov['solver_sat'] += s['sat']; cov['solver_unknown'] += s['unknown']; cov['portfolio_queries'] += s['portfolio']; cov['fp_queries'] += s['fp']; cov['solver_time_s'] += s['time']; cov['own_sat_unsat'] += s.get('own', 0); cov['own_sat_crosschecked'] += s.get('xcheck', 0); cov['solver_disagreements'] += s.get('disagree', 0); cov['symbolic_inputs'] += j['symbols']; cov['schedule_points'] += j['sched_points']
        for n, h, fk in j['functions']:
            if not n.startswith('h_'): funcs[n] = funcs.get(n, 0) + h
        inc = {k: v for k, v in j['incomplete'].items()}
        for k in list(inc):
            if k.startswith('abstracted:'): abstr.add(k); del inc[k]
        hard = [k for k in inc if k.startswith('unsupported')]
        if hard: problems.append(f'{e["entry"]}: {hard}')
        if inc: incomplete.append(dict(entry=e['entry'], reasons=inc))
        miss = [l for l in e.get('reach', ['end']) if l not in j['reach']]
        if miss and not inc and not j['errors']: problems.append(f'{e["entry"]}: vacuous, never reached {miss}')
        per.append(dict(entry=e['entry'], bounds=e.get('bounds', ''), paths=j['paths'], assumed_away=j['killed'], instructions=j['instr'], assertions=j['assert_sites'], reached=j['reach'], solver_time_s=round(s['time'], 2), wall_s=round(dt, 2), complete=not inc, errors=len(j['errors'])))
        for k, er in enumerate(j['errors']):
            inp = f'{rep}/{e["entry"]}.{k}.inputs'; write_inputs(inp, er['inputs'])
            hit = [f for f in kf if f['entry'] == e['entry'] and re.search(f['match'], er['kind'] + ': ' + er['msg'] + ' @ ' + er['loc'] + ' in ' + er['fn'])]
            if hit: known.append((hit[0], er)); continue
            viol.append((e, er, inp))
    # replay counterexamples on the real code
    confirmed = []
    for e, er, inp in viol:
        src = f'{ROOT}/harness/{e["harness"]}.cpp'; how = None
        if er['kind'] in ('race', 'deadlock', 'lock') or e.get('replay') == 'interp' or any(n.startswith('sched') for n, _, _ in er['inputs']):
            r = sh([engine, '--entry', e['entry'], '--replay', inp, '--max-time', '60', '--out', work + '/r.json'] + e.get('opts', []) + e.get('opts_' + tier, []) + [mods[e['harness']]], timeout=200)
            if r.returncode == 1 and any(x['kind'] == er['kind'] for x in json.load(open(work + '/r.json'))['errors']): how = 'schedule re-executed concretely'
        else:
            nat = build_native(lib, src, tier, work)
            if nat:
                for fill in ('165', '0', '255', '1'):
                    rc, out, serr = run_native(nat, e['entry'], inp, fill)
                    if er['kind'] == 'assert' and rc == 43: how = 'native: ' + out.strip().split('\n')[-1]
                    elif rc == 'timeout' and er['kind'] == 'hang': how = 'native run does not terminate'
                    elif isinstance(rc, int) and (rc < 0 or rc >= 128): how = f'native run crashes (rc={rc})'
                    if how: break
            if not how and er['kind'] in ('memory', 'divzero', 'unreachable', 'abort', 'hang', 'assert'):
                asan = build_native(build_asan_lib(), src, tier, work, asan=True)
                if asan:
                    rc, out, serr = run_native(asan, e['entry'], inp, timeout=60)
                    m = re.search(r'(ERROR: AddressSanitizer: [^\n]*|runtime error: [^\n]*)', serr)
                    if m: how = m[1]
                    elif rc == 'timeout' and er['kind'] == 'hang': how = 'native run does not terminate'
                    elif isinstance(rc, int) and (rc < 0 or rc >= 128 or rc == 43): how = f'sanitizer build rc={rc}'
        if how: confirmed.append((e, er, inp, how))
        else: problems.append(f'{e["entry"]}: counterexample not reproduced natively: {er["kind"]}: {er["msg"]} @ {er["loc"]} in {er["fn"]} inputs={inp}')
    # validate complete paths of the encoding against the native build
    nval = 0; want = P.get('traces', 3)
    vjobs = [(e, j) for e, j, err, dt in results if j and j['traces'] and not e.get('threads') and e.get('validate', True)]
    bysrc = {}
    for e, j in vjobs: bysrc.setdefault(e['harness'], []).append((e, j))
    def val_h(h):
        nat = build_native(lib, f'{ROOT}/harness/{h}.cpp', tier, work); n = 0; bad = []
        if not nat: return 0, ['native build failed for ' + h]
        for e, j in bysrc[h]:
            for k, tr in enumerate(j['traces'][:want]):
                inp = f'{work}/{e["entry"]}.t{k}'; write_inputs(inp, tr); rc, out, serr = run_native(nat, e['entry'], inp, timeout=60)
                if rc == 0 and 'DONE' in out: n += 1
                else: bad.append(f'{e["entry"]}: trace {k} of the encoding disagrees with the native run (rc={rc}, {out[-300:]!r})')
        return n, bad
    if not confirmed:
        with cf.ThreadPoolExecutor(NPROC) as ex:
            for n, bad in ex.map(val_h, sorted(bysrc)): nval += n; problems += bad
    for e, j in vjobs[:6]: samples.append(dict(entry=e['entry'], path_inputs=j['traces'][-1][:40]))
    for e, er, inp, how in confirmed: samples.insert(0, dict(entry=e['entry'], violation=er['msg'], inputs=er['inputs'][:200], replay=how))
    cov['traces_validated_against_impl'] = nval; cov['solver_time_s'] = round(cov['solver_time_s'], 2)
    if cov['solver_disagreements']: problems.append('the built-in SAT solver and z3 disagree')
    repo_funcs = sorted(funcs, key=lambda n: -funcs[n])
    try:
        d = sh(['c++filt'] + repo_funcs[:60]).stdout.split('\n')
    except Exception: d = repo_funcs[:60]
    cov.update(functions_encoded=len(funcs), functions_sample=[x[:160] for x in d if x], entries=per, incomplete=incomplete, exhaustive=not incomplete and not problems, samples=samples or [dict(note='no symbolic inputs')], build_s=round(t_build, 1), known_findings=[k['id'] for k, _ in known])
    ev = dict(property=pid, tier=tier, seed=seed, level=P.get('level', 'model_checking'), coverage=cov, assumptions=P.get('assumptions', []) + sorted(abstr) + COMMON, wall_s=round(time.time() - t0, 2), violations=len(confirmed))
    os.makedirs(ROOT + '/evidence', exist_ok=True)
    with open(f'{ROOT}/evidence/{pid}.json', 'w') as f: json.dump(ev, f, indent=1)
    for i in incomplete: print(f'INCOMPLETE {i["entry"]}: {i["reasons"]}')
    seen = set()
    for k, er in known:
        if k['id'] not in seen: seen.add(k['id']); print(f'KNOWN-FINDING: property={pid} {k["what"]}')
    for e, er, inp, how in confirmed:
        print(f'  {er["kind"]}: {er["msg"]} at {er["loc"]} in {er["fn"]} [{how}]')
        print(f'VIOLATION property={pid} replay={inp}')
    for p in problems: print('PROBLEM ' + p)
    print(f'{pid} {tier}: entries={len(results)} paths={cov["states"]} instr={cov["transitions"]} asserts={cov["assertions_checked"]} queries={cov["solver_queries"]} solver={cov["solver_time_s"]}s validated={nval} wall={ev["wall_s"]}s build={t_build:.1f}s')
    if confirmed: return 1
    return 2 if problems else 0
COMMON = ['IR of clang -O1 stands for the shipped gcc build (same sources, same configuration macros: BL_BUILD_NO_JIT)', 'sequentially consistent interleaving semantics', 'malloc may return NULL only where the harness enables it', 'x86-64 baseline CPU features at dispatch (the build without AsmJit never selects more)']
if __name__ == '__main__':
    a = sys.argv[1:]
    if a and a[0] == 'setup': build_engine(); d = build_lib(); print('ok', d); sys.exit(0)
    if a and a[0] == 'check':
        tier = a[2] if len(a) > 2 else os.environ.get('VERIF_TIER', 'quick'); rc = check(a[1], tier); sys.stdout.flush(); sys.exit(rc)
    if a and a[0] == 'all':
        bad = 0
        for p in load_checks():
            if len(a) > 2 and p not in a[2:]: continue
            rc = check(p, a[1] if len(a) > 1 else 'quick'); bad |= rc; print('rc', rc, flush=True)
        sys.exit(bad)
    print(__doc__); sys.exit(3)
