#!/usr/bin/env python3
"""Runs one property check: compiles /repo's current source to LLVM IR, executes it symbolically (engine/sx + Z3),
replays what the solver finds against a native build of the same source, and writes evidence/<id>.json."""
import argparse, concurrent.futures as cf, fcntl, glob, json, os, re, shutil, subprocess, sys, tempfile, threading, time

V = os.path.dirname(os.path.abspath(__file__))
R = '/repo'
sys.path.insert(0, V)
import checks  # noqa: E402

LLVM = '-18'
CPUS = max(1, os.cpu_count() or 8)


def sh(cmd, timeout=600, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace', timeout=timeout, **kw)


def build_engine():
    d = os.path.join(V, 'engine')
    os.makedirs(os.path.join(d, 'build'), exist_ok=True)
    with open(os.path.join(d, 'build', '.lock'), 'w') as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        r = sh(['make', '-s', '-j4', '-C', d])
        if r.returncode:
            print(r.stdout)
            sys.exit(2)
    return os.path.join(d, 'build', 'sx')


def make_shim(w):
    s = os.path.join(w, 'shim')
    os.makedirs(s + '/uthash/src')
    os.makedirs(s + '/lib842')
    for h in ('uthash.h', 'utlist.h'):
        os.symlink('/usr/include/' + h, s + '/uthash/src/' + h)
    have = {'LIB842_HAVE_OPENCL'}
    out = []
    for line in open(R + '/include/lib842/config.h.in'):
        m = re.match(r'#cmakedefine\s+(\w+)', line)
        out.append(('#define %s\n' % m.group(1)) if m and m.group(1) in have else ('/* %s */\n' % line.strip() if m else line))
    open(s + '/lib842/config.h', 'w').write(''.join(out))
    return s


def hlist(hs):
    return [(h, ()) if isinstance(h, str) else (h[0], tuple(h[1])) for h in hs]


class Builder:
    """Compiles each distinct (source, flags) once, to bitcode and to an ASan object."""

    def __init__(self, w, pool):
        self.w, self.pool, self.shim, self.fut, self.n, self.lock = w, pool, make_shim(w), {}, 0, threading.Lock()
        self.inc = ['-I' + self.shim, '-I' + R + '/include', '-I' + R + '/src/common', '-I' + R + '/src', '-I' + V + '/harness']

    def name(self, ext):
        with self.lock:
            self.n += 1
            return os.path.join(self.w, 'c%d%s' % (self.n, ext))

    def configured(self, spec, rel):
        sw = [x.split('=') for x in spec.split(',')]
        d = os.path.join(self.w, 'cfg_' + re.sub(r'\W', '_', spec))
        with self.lock:
            if not os.path.isdir(d):
                shutil.copytree(R + '/src', d + '/src')
                for f in [os.path.join(p, x) for p, _, fs in os.walk(d) for x in fs]:
                    s = s0 = open(f, errors='surrogateescape').read()
                    for n, v in sw:
                        s = re.sub(r'(?m)^([ \t]*)(//[ \t]*)?#[ \t]*define[ \t]+%s\b(\\\n|.)*$' % n, r'\1#undef ' + n + ('\n#define %s %s' % (n, v) if v else ''), s)
                    if s != s0:
                        open(f, 'w', errors='surrogateescape').write(s)
        return os.path.join(d, rel), ['-D%s=%s' % (n, v) if v else '-U' + n for n, v in sw]

    def compile(self, kind, src, flags, prep):
        key = (kind, src, tuple(flags), prep)
        with self.lock:
            if key not in self.fut:
                self.fut[key] = cf.Future()
                mine = True
            else:
                mine = False
        if not mine:
            return self.fut[key].result()
        try:
            o = self._compile(kind, src, flags, prep)
        except Exception as e:  # noqa
            o = ('error', str(e))
        self.fut[key].set_result(o)
        return o

    def _compile(self, kind, src, flags, prep):
        path = src if src.startswith('/') else (os.path.join(V, 'harness', src[2:]) if src.startswith('H:') else os.path.join(R, src))
        lang = []
        if prep and prep.startswith('cfg:'):  # a build switch set in a private copy of the tree: cfg:NAME=VALUE or cfg:NAME= (undefined)
            path, fl = self.configured(prep[4:].split(';')[0], os.path.relpath(path, R))
            flags, prep = fl + list(flags), (prep.split(';') + [None])[1]
        if prep == 'cl':  # OpenCL kernel: what cl2c + the host code concatenate
            p = self.name('.cl')
            open(p, 'w').write('#line 1 "842.h"\n' + open(R + '/src/common/842.h').read() + '\n#line 1 "%s"\n' % path + open(path).read())
            path = p
            mk = re.search(r'LIB842_COMPRESSED_CHUNK_MARKER\[16\]\s*=\s*(\{[^}]*\})', open(R + '/include/lib842/common.h').read())
            flags = list(flags) + (['-DLIB842_COMPRESSED_CHUNK_MARKER_DEF=' + re.sub(r'\s+', '', mk.group(1))] if mk else [])
            lang = ['-x', 'cl', '-cl-std=CL1.2', '-target', 'x86_64-unknown-linux-gnu', '-Xclang', '-finclude-default-header']
        if prep == 'cu':  # CUDA kernel: preprocessed, inline PTX translated
            import ptx
            r = sh(['clang++' + LLVM, '-E', '-x', 'c++', '-std=c++17', '-DLIB842_HAVE_CUDA', '-D__CUDA_ARCH__=600', '-include', V + '/harness/fake/cuda/ptx.h'] + self.inc + list(flags) + [path])
            p = self.name('.cpp')
            try:
                if r.returncode:
                    raise ValueError(r.stdout[-1500:])
                open(p, 'w').write(ptx.translate(r.stdout))
            except ValueError as e:
                return ('error', '%s: %s' % (os.path.basename(path), e))
            path = p
        cpp = path.endswith('.cpp')
        std = [] if lang else (['-std=c++17'] if cpp else ['-std=gnu11'])
        if kind in ('bc', 'raw', 'full'):
            o = self.name('.bc')
            cmd = [('clang++' if cpp else 'clang') + LLVM] + std + lang + (['-Xclang', '-disable-llvm-passes'] if kind in ('raw', 'full') else []) + ['-O1', '-fno-vectorize', '-fno-slp-vectorize', '-fno-unroll-loops', '-gline-tables-only', '-emit-llvm', '-c', '-w'] + self.inc + list(flags) + [path, '-o', o]
        else:
            o = self.name('.o')
            opt = '-O0' if kind in ('o0', 'msan') else '-O1'
            flags = [f for f in flags if not f.startswith('-DHASH_FUNCTION')]
            san = [] if '-DSX_THREADS' in flags else ['-fsanitize=memory'] if kind == 'msan' else ['-fsanitize=address']
            if san == [] and ('nthreads' in path or path.endswith('native.c')):
                flags.remove('-fsanitize=thread')
            if lang:
                cmd = ['clang' + LLVM] + lang + [opt, '-g'] + san + ['-c', '-w'] + list(flags) + [path, '-o', o]
            else:
                cmd = [('clang++' if cpp else 'clang') + LLVM] + std + [opt, '-g'] + san + ['-DSX_NATIVE', '-c', '-w'] + self.inc + list(flags) + [path, '-o', o]
        r = sh(cmd)
        if kind == 'raw' and r.returncode == 0:  # only promote local variables to registers: every memory access of the source stays
            r = sh(['opt' + LLVM, '-passes=function(sroa,simplifycfg)', o, '-o', o])
        return ('ok', o) if r.returncode == 0 else ('error', '%s: %s' % (os.path.basename(path), r.stdout[-1500:]))

    def sources(self, t):
        out = []
        for s in t['src']:
            flags, prep = (), None
            if isinstance(s, tuple):
                s, flags, prep = (list(s) + [None])[:3]
            paths = sorted(glob.glob(os.path.join(R, s))) if '*' in s else [s]
            for p in paths:
                p = os.path.relpath(p, R) if p.startswith(R + '/') else p
                if p in t.get('skip', ()):
                    continue
                out.append((p, tuple(flags) + tuple(t.get('flags', ())), prep))
        return out

    def bitcode(self, t):
        objs = [self.compile(('full' if t['raw'] == 'full' else 'raw') if t.get('raw') and not s.startswith('H:') else 'bc', s, f + tuple(t.get('bcflags', ())), p) for s, f, p in self.sources(t) + [('H:' + h, hf + tuple(t.get('flags', ())) + tuple(t.get('bcflags', ())), None) for h, hf in hlist(t['harness'])]]
        bad = [o[1] for o in objs if o[0] != 'ok']
        if bad:
            return None, '\n'.join(bad)
        o = self.name('.linked.bc')
        r = sh(['llvm-link' + LLVM] + [x[1] for x in objs] + ['-o', o])
        return (o, '') if r.returncode == 0 else (None, r.stdout[-1500:])

    def native(self, t, msan=False):  # msan: to confirm a dependence on uninitialised variables
        wrap = t.get('wrap', True)
        hs = hlist(list(t['harness']) + ['native.c'] + list(t.get('nharness', ())))
        fl = tuple(t.get('flags', ())) + tuple(t.get('nflags', ()))
        objs = [self.compile('msan' if msan else 'o0' if t.get('raw') else 'o', s, f + tuple(t.get('nflags', ())), p) for s, f, p in self.sources(t)]
        objs += [self.compile('msan' if msan else 'o', 'H:' + h, hf + fl + (('-DSX_WRAP', '-DSX_WRAP_CXX') if wrap and h == 'native.c' else ()), None) for h, hf in hs]
        bad = [o[1] for o in objs if o[0] != 'ok']
        if bad:
            return None, '\n'.join(bad)
        o = self.name('.exe')
        w = []
        if wrap:
            w = ['-Wl,' + ','.join('--wrap=' + x for x in 'malloc calloc realloc free _Znwm _Znam _ZdlPv _ZdaPv _ZdlPvm _ZdaPvm'.split())]
        thr = '-DSX_THREADS' in fl
        if thr:
            w += ['-Wl,' + ','.join('--wrap=' + x for x in 'aligned_alloc pthread_mutex_lock pthread_mutex_trylock pthread_mutex_unlock _ZNSt18condition_variable4waitERSt11unique_lockISt5mutexE _ZNSt18condition_variable10notify_oneEv _ZNSt18condition_variable10notify_allEv _ZNSt6thread15_M_start_threadESt10unique_ptrINS_6_StateESt14default_deleteIS1_EEPFvvE _ZNSt6thread4joinEv _ZNSt6thread20hardware_concurrencyEv sched_yield'.split())]
        r = sh(['clang++' + LLVM] + ([] if thr else ['-fsanitize=memory' if msan else '-fsanitize=address']) + ['-g', '-o', o] + [x[1] for x in objs] + w + list(t.get('ldflags', ())) + ['-lpthread', '-lm'])
        return (o, '') if r.returncode == 0 else (None, r.stdout[-1500:])


CONFIRM = {77: 'property assertion failed', 99: 'sanitizer report', 134: 'abort', 135: 'SIGBUS', 136: 'SIGFPE', 139: 'SIGSEGV', 132: 'SIGILL', 133: 'SIGTRAP'}


def replay(exe, files, tmo=10):
    """[(code, file, msg)]"""
    env = dict(os.environ, ASAN_OPTIONS='exitcode=99:detect_leaks=0:abort_on_error=0:allocator_may_return_null=1:redzone=512:max_redzone=2048:detect_stack_use_after_return=0:handle_abort=0', MSAN_OPTIONS='exit_code=99:abort_on_error=0:handle_abort=0')
    out = []
    for i in range(0, len(files), 64):
        try:
            r = subprocess.run([exe, '-T', str(tmo)] + files[i:i + 64], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True, errors='replace', env=env, timeout=600)
        except subprocess.TimeoutExpired:
            continue
        for line in r.stdout.splitlines():
            m = re.match(r'(\d+) (\S+) ?(.*)', line)
            if m and m.group(2) in files:
                out.append((int(m.group(1)), m.group(2), m.group(3)))
    return out


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('id')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--only', help='run only jobs whose name contains this')
    ap.add_argument('--keep', action='store_true')
    ap.add_argument('-v', action='store_true')
    a = ap.parse_args()
    t0 = time.time()
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    chk = checks.CHECKS[a.id]
    sx = build_engine()
    w = tempfile.mkdtemp(prefix='sx842.')
    try:
        rc = run(a, chk, sx, w, t0, seed)
    finally:
        if not a.keep:
            shutil.rmtree(w, ignore_errors=True)
        else:
            print('kept', w)
    sys.exit(rc)


def known_findings(pid):
    try:
        return [k for k in json.load(open(os.path.join(V, 'known_findings.json')))['findings'] if k['property'] == pid and k.get('status') == 'known']
    except FileNotFoundError:
        return []


def rep_info(f):
    d = {'msg': '', 'syms': [], 'params': {}, 'obs': []}
    for line in open(f, errors='replace'):
        p = line.split()
        if line.startswith('# '):
            d['msg'] = d['msg'] or line[2:].strip()
        elif p and p[0] == 'sym':
            d['syms'].append((p[1], p[3] if len(p) > 3 else ''))
        elif p and p[0] == 'param':
            d['params'][p[1]] = p[2]
        elif p and p[0] == 'obs':
            d['obs'].append((p[1], p[2]))
    return d


def run(a, chk, sx, w, t0, seed):
    tier = 'thorough' if a.tier == 'thorough' else 'quick'
    jobs = [j for j in chk['jobs'] if tier in j['tiers'] and (not a.only or a.only in j['name'])]
    pool = cf.ThreadPoolExecutor(16)
    b = Builder(w, pool)
    targets = sorted({j['target'] for j in jobs})
    bcf = {t: pool.submit(b.bitcode, checks.TARGETS[t]) for t in targets}
    ntf = {t: pool.submit(b.native, checks.TARGETS[t]) for t in targets}
    errors = []
    cond = threading.Condition()
    free = [CPUS]
    budget = chk.get('budget', {}).get(tier, 240 if tier == 'quick' else 780)
    tstart = [None]

    def runjob(i, j):
        bc, err = bcf[j['target']].result()
        if not bc:
            return j, None, 'bitcode: ' + err
        n = min(j['j'], CPUS)
        with cond:
            while free[0] < n:
                cond.wait()
            free[0] -= n
            if tstart[0] is None:
                tstart[0] = time.time()
        try:
            left = budget - (time.time() - tstart[0])
            if left < 3:
                return j, [], 'skipped: time budget of this tier used up'
            T = min(j['t'], left)
            od = os.path.join(w, 'o%d' % i)
            os.makedirs(od)
            cmd = [sx, bc, '-o', od, '-t', str(int(max(2, T))), '-j', str(n), '--tag', 'J', '--samples', str(j.get('samples', 6)), '--max-viol', str(j.get('max_viol', 12))]
            for k, v in sorted(j['params'].items()):
                cmd += ['-p', '%s=%d' % (k, v)]
            cmd += j.get('args', [])
            log = od + '/log.txt'
            with open(log, 'w') as lf:
                p = subprocess.Popen(cmd, stdout=lf, stderr=subprocess.STDOUT, stdin=subprocess.DEVNULL, cwd=od, start_new_session=True)
                try:
                    p.wait(timeout=T + 40)
                    msg = '' if p.returncode in (0, 1) else 'engine exit %d: ' % p.returncode
                except subprocess.TimeoutExpired:
                    msg = 'engine did not stop in time'
                try:
                    os.killpg(p.pid, 9)
                except OSError:
                    pass
                p.wait()
            if msg:
                msg += open(log, errors='replace').read()[-400:]
            st = []
            for f in glob.glob(od + '/stats_*.json'):
                try:
                    st.append(json.load(open(f)))
                except ValueError:
                    msg += ' bad stats file'
            if not st and not msg:
                msg = 'no statistics: ' + open(log, errors='replace').read()[-300:]
            return j, (od, st), msg
        finally:
            with cond:
                free[0] += n
                cond.notify_all()

    order = sorted(enumerate(jobs), key=lambda ij: -ij[1]['j'] * ij[1]['t'] if not ij[1].get('first') else -1e9)
    futs = [pool.submit(runjob, i, j) for i, j in order]
    results = []
    for f in cf.as_completed(futs):
        results.append(f.result())
        if a.v:
            j, res, msg = results[-1]
            print('[%6.1f] %s %s' % (time.time() - t0, j['name'], summary(res) if res else ''), msg[:300], flush=True)

    known = known_findings(a.id)
    tot = dict.fromkeys('paths ok violations incomplete truncated forks inst asserts assertSolver memChecks memSolver schedChoices queries z3 z3sat z3unsat z3unknown cacheHits modelHits defHits refined'.split(), 0)
    tot['solver_s'] = 0.0
    funcs, perjob, violations, known_hit, unconf, samples = set(), [], [], {}, [], []
    validated = diverged = 0
    for j, res, msg in sorted(results, key=lambda x: x[0]['name']):
        pj = {'job': j['name'], 'params': j['params'], 'bound': j.get('bound', '')}
        if msg:
            errors.append('%s: %s' % (j['name'], msg))
            pj['error'] = msg[:600]
        perjob.append(pj)
        if not res:
            pj['explored'] = 'nothing'
            continue
        od, st = res
        reach, ends, reasons = {}, {}, {}
        for s in st:
            for k in tot:
                if k != 'solver_s':
                    tot[k] += s.get(k, 0)
            tot['solver_s'] += s.get('solverTime', 0)
            funcs.update(s.get('functions', []))
            for src, dst in ((s['reach'], reach), (s['ends'], ends), (s['reasons'], reasons)):
                for k, v in src.items():
                    dst[k] = dst.get(k, 0) + v
        pj.update(paths=sum(s['paths'] for s in st), wall_s=round(max([s['wall'] for s in st] or [0]), 2), reached=reach, ends=ends, incomplete_reasons=reasons, z3_queries=sum(s['z3'] for s in st), solver_s=round(sum(s['solverTime'] for s in st), 2))
        pj['exhaustive_within_bounds'] = bool(st) and not any(s['incomplete'] or s['truncated'] for s in st) and not msg
        missing = [r for r in j.get('need', []) if not reach.get(r)]
        if missing:
            pj['not_reached'] = missing
        vf = sorted(glob.glob(od + '/viol_*.rep'))
        of = sorted(glob.glob(od + '/ok_*.rep'))
        if not (vf or of):
            continue
        exe, err = ntf[j['target']].result()
        if not exe:
            errors.append('%s: native build: %s' % (j['name'], err))
            continue
        for code, f, m in replay(exe, of):
            if code == 0:
                validated += 1
                if len(samples) < 6 and pj.get('_s', 0) < 2:
                    pj['_s'] = pj.get('_s', 0) + 1
                    d = rep_info(f)
                    samples.append({'job': j['name'], 'symbolic_bytes_chosen_by_solver': [(n, h[:160]) for n, h in d['syms'][:12]], 'observed': d['obs'][:6], 'native_replay': 'same observations'})
            elif code in CONFIRM and code != 134 or code == 134 and 'Assertion' in m:
                violations.append((f, code, m, 'native run of an explored path: ' + m, j))
            else:
                diverged += 1
                unconf.append({'job': j['name'], 'sample': os.path.basename(f), 'native': '%d %s' % (code, m[:200])})
        # an endless loop takes the native run's whole time limit: a few of them per job are enough
        slow = [f for f in vf if re.search('budget|deadlock|instruction limit', rep_info(f)['msg'])]
        slow = slow[1 if len(violations) > 8 else 4:]
        vf = [f for f in vf if f not in slow]
        for code, f, m in replay(exe, vf, tmo=j.get('replay_t', 10)):
            d = rep_info(f)
            kind = d['msg'].split(':')[0]
            good = code in CONFIRM or (code == 142 and ('budget' in d['msg'] or 'deadlock' in d['msg'] or 'instruction limit' in d['msg']))
            if good:
                violations.append((f, code, m, d['msg'], j))
            elif checks.TARGETS[j['target']].get('raw') and (mexe := b.native(checks.TARGETS[j['target']], True)[0]) and (mr := replay(mexe, [f])) and mr[0][0] in (77, 99):
                violations.append((f, mr[0][0], mr[0][2], d['msg'] + ' (depends on uninitialised variables)', j))
            else:
                unconf.append({'job': j['name'], 'engine': d['msg'][:200], 'native': '%d %s' % (code, m[:200])})
    rdir = os.path.join(V, 'evidence', 'replay', a.id)
    shutil.rmtree(rdir, ignore_errors=True)
    os.makedirs(rdir, exist_ok=True)
    shown, n_new = {}, 0
    for f, code, m, msg, j in violations:
        k = next((k for k in known if re.search(k['match'], msg + ' | ' + m) and (not k.get('job') or re.search(k['job'], j['name']))), None)
        if k:
            known_hit[k['id']] = k
            continue
        n_new += 1
        key = (j['name'], re.sub(r'0x[0-9a-f]+|\d+', 'N', msg))
        shown[key] = shown.get(key, 0) + 1
        if shown[key] > 1 or len(shown) > 25:
            continue
        dst = os.path.join(rdir, '%s_%d.rep' % (re.sub(r'\W+', '_', j['name']), n_new))
        shutil.copy(f, dst)
        with open(dst, 'a') as o:
            o.write('# target %s\n# native exit %d %s\n' % (j['target'], code, m))
        print('  %s: %s [native: %d %s]' % (j['name'], msg[:300], code, m[:200]))
        print('VIOLATION property=%s replay=%s' % (a.id, dst))
    for k in known:
        if k['id'] in known_hit or k.get('always'):
            print('KNOWN-FINDING: property=%s %s' % (a.id, k['what']))
    for pj in perjob:
        pj.pop('_s', None)
    repofuncs = sorted(funcs)
    ev = {
        'property': a.id, 'tier': tier, 'seed': seed, 'level': chk['level'], 'wall_s': round(time.time() - t0, 2), 'violations': n_new,
        'assumptions': checks.COMMON_ASSUMPTIONS + chk.get('assumptions', []),
        'coverage': {
            'states': tot['paths'], 'transitions': tot['inst'], 'traces_validated_against_impl': validated, 'samples': samples or ['no path finished in this run'],
            'meaning_of_counts': 'states = symbolic paths explored (each stands for every input satisfying its path condition); transitions = LLVM instructions executed symbolically; traces = solver models of finished paths whose native replay produced exactly the predicted observations',
            'functions_encoded': repofuncs, 'bounds': chk['bounds'], 'outside_bounds': chk.get('outside', ''),
            'assertion_obligations': tot['asserts'], 'assertions_needing_solver': tot['assertSolver'], 'memory_access_obligations': tot['memChecks'], 'memory_access_needing_solver': tot['memSolver'],
            'solver_queries': tot['queries'], 'smt_calls': tot['z3'], 'smt_sat': tot['z3sat'], 'smt_unsat': tot['z3unsat'], 'smt_unknown': tot['z3unknown'], 'answered_from_cache': tot['cacheHits'], 'answered_by_model': tot['modelHits'] + tot['defHits'], 'solver_s': round(tot['solver_s'], 2),
            'paths_finished': tot['ok'], 'paths_violating': tot['violations'], 'paths_incomplete': tot['incomplete'], 'work_left_at_time_limit': tot['truncated'], 'scheduling_choices': tot['schedChoices'],
            'exhaustive': bool(perjob) and all(p.get('exhaustive_within_bounds') for p in perjob), 'jobs': perjob,
            'not_confirmed_natively': unconf[:20], 'native_divergences': diverged, 'errors': errors[:20], 'known_findings_seen': sorted(known_hit),
        },
    }
    os.makedirs(os.path.join(V, 'evidence'), exist_ok=True)
    tmp = os.path.join(V, 'evidence', '.%s.tmp' % a.id)
    json.dump(ev, open(tmp, 'w'), indent=1)
    os.replace(tmp, os.path.join(V, 'evidence', a.id + '.json'))
    print('%s %s: %d paths, %d finished, %d assertions, %d memory checks, %d SMT calls, %d native traces validated (%d diverged), %d unconfirmed, exhaustive=%s, %.1f s' % (
        a.id, tier, tot['paths'], tot['ok'], tot['asserts'], tot['memChecks'], tot['z3'], validated, diverged, len(unconf), ev['coverage']['exhaustive'], time.time() - t0))
    if errors:
        print('\n'.join('note: ' + e[:500] for e in errors[:5]))
    if n_new:
        return 1
    dead = [t for t in targets if not bcf[t].result()[0]] or (jobs and not any(r[1] and r[1][1] for r in results))
    return 2 if dead else 0  # nothing could be encoded: no verdict


def summary(r):
    st = r[1]
    f = lambda k: sum(s[k] for s in st)  # noqa
    rs = {}
    for s in st:
        for k, v in s['reasons'].items():
            rs[k] = rs.get(k, 0) + v
    return 'paths=%d ok=%d viol=%d inc=%d trunc=%d z3=%d unk=%d solver=%.0fs wall=%.1f %s' % (f('paths'), f('ok'), f('violations'), f('incomplete'), f('truncated'), f('z3'), f('z3unknown'), f('solverTime'), max([s['wall'] for s in st] or [0]), rs or '')


if __name__ == '__main__':
    main()
