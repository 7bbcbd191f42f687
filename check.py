#!/usr/bin/env python3
"""Runs one property's simulation campaign against /repo's working tree.

  check.py C08 [--tier quick|thorough] [--seconds N]     explore; exit 0 held, 1 violated, 2 no answer
  check.py C08 --replay FILE                             run one replay file
  check.py --setup                                       build everything once (also a self-test)
"""
import sys, os, re, json, time, subprocess, hashlib, fcntl, shutil, tempfile, concurrent.futures as cf
HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('VERIF_REPO', '/repo')
SIM = os.path.join(HERE, 'sim')
BUILD = os.path.join(HERE, 'build')
REPLAYS = os.path.join(HERE, 'replays')
EVID = os.path.join(HERE, 'evidence')
sys.path.insert(0, HERE)
from plans import PLANS, COMPONENTS
JOBS = os.cpu_count() or 4
MAPS = ['robin', 'group15', 'group16']
CXX = ['g++', '-std=c++17', '-fconcepts', '-O1', '-fno-lifetime-dse', '-fno-strict-aliasing', '-DNDEBUG', '-w', '-I' + REPO + '/src', '-I' + SIM]
VARIANTS = {  # name -> per-map architecture flags
  'a': {0: ['-march=native'], 1: ['-march=native'], 2: ['-march=native'], None: []},
  'b': {0: ['-march=x86-64-v3'], 1: ['-msse2'], 2: ['-msse2'], None: []},
  's': {m: ['-march=native', '-fsanitize-coverage=trace-pc'] for m in (0, 1, 2)} | {None: []},   # counting basic blocks
  't': {0: ['-march=x86-64-v3', '-fsanitize-coverage=trace-pc'], 1: ['-msse2', '-fsanitize-coverage=trace-pc'], 2: ['-msse2', '-fsanitize-coverage=trace-pc'], None: []},
  'd': {0: ['-march=native', '-UNDEBUG'], 1: ['-march=native', '-UNDEBUG'], 2: ['-march=native', '-UNDEBUG'], None: []},   # with assertions
}

def tree_hash():
    h = hashlib.sha256(' '.join(CXX).encode())
    try: h.update(subprocess.run(['g++', '-march=native', '-Q', '--help=target'], capture_output=True).stdout)
    except OSError: pass
    for root in (os.path.join(REPO, 'src'), SIM):
        for d, ds, fs in os.walk(root):
            ds.sort()
            for f in sorted(fs):
                p = os.path.join(d, f)
                if not os.path.isfile(p): continue
                h.update(os.path.relpath(p, root).encode()); h.update(open(p, 'rb').read())
    return h.hexdigest()[:20]

def run(cmd, timeout=None):
    try:
        r = subprocess.run(cmd, capture_output=True, text=True, errors='replace', timeout=timeout)
        return r.returncode, r.stdout, r.stderr
    except subprocess.TimeoutExpired: return -99, '', 'timeout'

class Builder:
    def __init__(self):
        os.makedirs(BUILD, exist_ok=True)
        self.lock = open(os.path.join(BUILD, '.lock'), 'w'); fcntl.flock(self.lock, fcntl.LOCK_EX)
        self.key = tree_hash(); self.dir = os.path.join(BUILD, self.key); os.makedirs(self.dir, exist_ok=True); os.utime(self.dir)
        old = sorted((d for d in os.listdir(BUILD) if os.path.isdir(os.path.join(BUILD, d)) and d != self.key), key=lambda d: os.path.getmtime(os.path.join(BUILD, d)))
        for d in old[:-1]: shutil.rmtree(os.path.join(BUILD, d), ignore_errors=True)
        self.failed = {}; self.absent = []
    def compile(self, job):
        out, cmd = job
        mark = out + '.absent'
        if os.path.exists(out):
            if os.path.exists(mark): self.absent.append(open(mark).read())
            return None
        rc, so, se = run(cmd + ['-o', out + '.tmp'], timeout=600)
        if rc != 0 and out.endswith('/clock.o'):      # is it only the duration readings of the stopwatches?
            e = se; rc, so, se = run(cmd + ['-DSIM_NO_DURATION', '-o', out + '.tmp'], timeout=600)
            if rc == 0: open(mark, 'w').write(next((l for l in e.splitlines() if 'error' in l), 'error')); self.absent.append(open(mark).read())
        if rc != 0: return se or so or 'rc %d' % rc
        os.rename(out + '.tmp', out); return None
    def build(self, wants):
        """wants: list of (binary name, variant, engines [(map, cfg)], extra sources) -> {name: path}"""
        jobs, bins, s_of = {}, {}, {}
        for name, var, engs, srcs in wants:
            objs = []
            for s in ['core.cpp', 'main.cpp', 'clock.cpp'] + srcs:
                o = os.path.join(self.dir, s.replace('.cpp', '') + '.o')
                if s in srcs: s_of[o] = s
                jobs[o] = CXX + ['-O2', '-c', os.path.join(SIM, s)]; objs.append((o, None))
            for m, c in engs:
                o = os.path.join(self.dir, '%s_%d_%s.o' % (var, m, c)); jobs[o] = CXX + VARIANTS[var][m] + ['-DTU_MAP=%d' % m, '-DTU_CFG=%s' % c, '-c', os.path.join(SIM, 'tu.cpp')]; objs.append((o, (m, c, var)))
            bins[name] = objs
        with cf.ThreadPoolExecutor(JOBS) as ex: res = dict(zip(jobs, ex.map(self.compile, jobs.items())))
        out = {}
        for name, objs in bins.items():
            ok = []
            for o, e in objs:
                if res[o] is None: ok.append(o)
                elif s_of.get(o): self.failed['headers of ' + s_of[o]] = res[o]
                elif e is None: raise SystemExit(fail('harness source does not compile: %s\n%s' % (o, res[o][-3000:])))
                else: self.failed['%s/%s' % (MAPS[e[0]], e[1])] = res[o]
            exe = os.path.join(self.dir, 'sim_' + hashlib.sha256('\n'.join(ok).encode()).hexdigest()[:12])
            if not os.path.exists(exe):
                rc, so, se = run(['g++', '-Wl,--allow-multiple-definition', '-o', exe + '.tmp'] + ok, timeout=300)
                if rc != 0: raise SystemExit(fail('link failed\n' + se[-3000:]))
                os.rename(exe + '.tmp', exe)
            out[name] = exe
        return out
    def close(self): fcntl.flock(self.lock, fcntl.LOCK_UN); self.lock.close()

def fail(msg): print('ERROR: ' + msg, file=sys.stderr); return 2

VIOL = re.compile(r'^VIOL (\S+) (\d+) ([0-9a-f]+) (.*)$', re.M)
def replay(exe, path, hang=40):
    rc, so, se = run([exe, 'replay', path, str(hang)], timeout=hang * 4 + 60)
    m = VIOL.search(so)
    if m: return (m.group(1), m.group(3), m.group(4))
    if rc == 0: return None
    return ('error', '', 'replay ended with %d: %s' % (rc, (se or so)[-300:]))

def split(text):
    head, worlds, cur = [], [], None
    for l in text.splitlines():
        if l.startswith('world '): cur = [l]; worlds.append(cur)
        elif l.startswith('op '): cur.append(l)
        elif l.strip(): head.append(l)
    return head, worlds
def join(head, worlds): return '\n'.join(head) + '\n' + ''.join('\n'.join(w) + '\n' for w in worlds)

def minimise(exe, text, cls, budget=60):
    """ddmin over operations and faults, keeping the violation class."""
    t0 = time.time(); head, worlds = split(text)
    hang = 8 if cls == 'hang' else 40
    tmp = tempfile.mkdtemp(prefix='simmin')
    def bad_many(cands):
        def one(iv):
            i, (h, w) = iv; p = os.path.join(tmp, 'c%d' % i); open(p, 'w').write(join(h, w)); r = replay(exe, p, hang); return r is not None and r[0] == cls
        with cf.ThreadPoolExecutor(JOBS) as ex: return list(ex.map(one, enumerate(cands)))
    for wi in range(len(worlds)):                       # whole worlds first
        if len(worlds) > 1 and wi < len(worlds):
            c = [[w if i != wi else w[:1] for i, w in enumerate(worlds)]]
            if bad_many([(head, c[0])])[0]: worlds = c[0]
    for wi in range(len(worlds)):
        ops = worlds[wi][1:]; n = 2
        while len(ops) >= 1 and time.time() - t0 < budget:
            size = max(1, len(ops) // n); cands = [ops[:i] + ops[i + size:] for i in range(0, len(ops), size)]
            res = bad_many([(head, [w if i != wi else w[:1] + c for i, w in enumerate(worlds)]) for c in cands])
            if any(res): ops = cands[res.index(True)]; worlds[wi] = worlds[wi][:1] + ops; n = max(2, n - 1)
            elif size == 1: break
            else: n = min(len(ops), n * 2)
    def tryall(gen):
        nonlocal worlds, head
        changed = True
        while changed and time.time() - t0 < budget:
            changed = False; cands = gen()
            if not cands: return
            res = bad_many(cands)
            if any(res): head, worlds = cands[res.index(True)]; changed = True
    def faults():
        out = []
        for wi, w in enumerate(worlds):
            for i, l in enumerate(w):
                f = l.split()
                if f[0] == 'op' and f[9] != '0': g = f[:8] + ['0', '0', '0']; out.append((head, [x if k != wi else x[:i] + [' '.join(g)] + x[i + 1:] for k, x in enumerate(worlds)]))
        return out
    tryall(faults)
    def shrink_b():
        out = []
        for wi, w in enumerate(worlds):
            for i, l in enumerate(w):
                f = l.split()
                if f[0] == 'op' and int(f[6]) > 3 and f[1] in ('fill', 'drain', 'churn', 'reserve', 'rehash', 'new', 'range_new', 'range_insert'):
                    for nb in (int(f[6]) // 2, int(f[6]) - 1): g = f[:]; g[6] = str(nb); out.append((head, [x if k != wi else x[:i] + [' '.join(g)] + x[i + 1:] for k, x in enumerate(worlds)]))
        return out[:64]
    if time.time() - t0 < budget / 2: tryall(shrink_b)
    def cfgs():
        out = []
        for i, l in enumerate(head):
            f = l.split()
            if f[0] == 'cfg' and f[1] in ('narena', 'nslots', 'yield', 'guard', 'U') and int(f[2]) > 1:
                nv = {'U': int(f[2]) * 3 // 4, 'guard': 0}.get(f[1], int(f[2]) // 2 or 1); out.append((head[:i] + ['cfg %s %d' % (f[1], nv)] + head[i + 1:], worlds))
        return out
    if time.time() - t0 < budget / 2: tryall(cfgs)
    shutil.rmtree(tmp, ignore_errors=True)
    return join(head, worlds)

def known_findings(prop):
    out = []
    p = os.path.join(HERE, 'known-findings.jsonl')
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith('{'):
                d = json.loads(l)
                if d.get('property') == prop: out.append(d)
    return out

def campaign(prop, tier, seconds, seed):
    t0 = time.time(); plan = PLANS[prop]; b = Builder()
    va = plan.get('variant', 'a'); wants = [('a', va, plan['a'], plan.get('src', []))] + ([('b', plan.get('variant_b', 'b'), plan['b'], plan.get('src', []))] if plan.get('b') else [])
    exes = b.build(wants); failed = b.failed; absent = b.absent; b.close(); t_build = time.time() - t0
    os.makedirs(REPLAYS, exist_ok=True); os.makedirs(EVID, exist_ok=True)
    if failed:
        for e, msg in failed.items():
            first = next((l for l in msg.splitlines() if 'error' in l), msg[:200]); print('note: engine %s does not compile: %s' % (e, first), file=sys.stderr)
        if plan.get('must_compile'):
            p = os.path.join(REPLAYS, '%s-compile.txt' % prop); open(p, 'w').write('\n\n'.join('%s\n%s' % x for x in failed.items()))
            evidence(prop, tier, seed, [], t0, t_build, 1, {}, ['code the interface admits does not compile'], exes)
            print('VIOLATION property=%s replay=%s' % (prop, p)); return 1
    work = tempfile.mkdtemp(prefix='simrun'); kf = known_findings(prop); kf_seen = set(); results = []; violations = []
    if prop == 'C20':
        for msg in absent:
            k = next((k for k in kf if k['class'] == 'compile' and re.search(k['match'], msg)), None)
            if k: kf_seen.add(k['what']); continue
            p = os.path.join(REPLAYS, '%s-compile.txt' % prop); open(p, 'w').write(msg)
            evidence(prop, tier, seed, [], t0, t_build, 1, {}, ['the duration readings do not compile: ' + msg], exes); print('VIOLATION property=%s replay=%s' % (prop, p)); return 1
    nb = 2 if 'b' in exes else 0; na = JOBS - nb if JOBS > nb else 1
    base = seed * 1000000007 % (1 << 40); hang = 30
    workers = [('a', i, na) for i in range(na)] + [('b', i, nb) for i in range(nb)]
    deadline = time.time() + seconds
    def start(w, frm):
        v, i, n = w; out = os.path.join(work, '%s%d_%d.json' % (v, i, frm)); left = max(1.0, deadline - time.time())
        return subprocess.Popen([exes[v], 'run', prop, str(frm), str(n), str(plan.get('max_runs', 10**9)), '%.1f' % left, str(hang), out], stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors='replace'), out
    def drive(w):
        frm = base + w[1] + (500000000 if w[0] == 'b' else 0); tries = 0
        while True:
            p, out = start(w, frm); procs.append(p); so, se = p.communicate()
            try: results.append((w[0], json.load(open(out))))
            except (OSError, ValueError): pass          # stopped before or while it wrote its counts
            m = VIOL.search(so)
            if m:
                cls, s, h, msg = m.group(1), int(m.group(2)), m.group(3), m.group(4)
                k = next((k for k in kf if k['class'] == cls and re.search(k['match'], msg)), None)
                if k: kf_seen.add(k['what']); frm = s + w[2]; tries += 1
                else: violations.append((w[0], s, cls, h, msg)); stop_all(); return
                if time.time() > deadline or tries > 2000: return
                continue
            m = re.search(r'NONDET (\d+)', so)
            if m:                                       # reported unless a repeatable violation is found elsewhere
                errors.append('run of seed %s is not repeatable' % m.group(1)); frm = int(m.group(1)) + w[2]; tries += 1
                if time.time() > deadline or tries > 20: return
                continue
            if p.returncode not in (0, -9, -15): errors.append('worker ended with %s: %s' % (p.returncode, (se or so)[-400:])); stop_all()
            return
    procs, errors = [], []
    def stop_all():
        for p in procs:
            if p.poll() is None: p.kill()
    with cf.ThreadPoolExecutor(len(workers)) as ex:
        for f in [ex.submit(drive, w) for w in workers]:
            try: f.result()
            except Exception as e: errors.append('driver: %r' % (e,)); stop_all()
    shutil.rmtree(work, ignore_errors=True)
    rc = 0; notes = []; samples = []
    for v, s, cls, h, msg in violations:
        exe = exes[v]; r = run([exe, 'gen', prop, str(s)]); path = os.path.join(REPLAYS, '%s-%d.txt' % (prop, s)); open(path, 'w').write('# variant %s\n' % v + r[1])
        r1, r2 = replay(exe, path), replay(exe, path)
        soft = cls in ('hang', 'crash', 'abort')       # the log is cut at a wall-clock point or by the kernel
        def same(x, y): return bool(x and y and x[0] == y[0] and (soft or x == y))
        if not (same(r1, r2) and r1[0] == cls):           # a code under test that depends on addresses gives another log in a fresh process
            errors.append('violation of seed %d (%s: %s) does not replay: %s / %s' % (s, cls, msg, r1, r2)); continue
        small = minimise(exe, open(path).read(), cls); mp = os.path.join(REPLAYS, '%s-%d-min.txt' % (prop, s)); open(mp, 'w').write('# variant %s\n# %s: %s\n' % (v, cls, msg) + small)
        m1, m2 = replay(exe, mp), replay(exe, mp)
        if not (same(m1, m2) and m1[0] == cls): mp = path; m1 = r1
        print('%s: %s (seed %d, %s)\n%s' % (prop, m1[2], s, m1[0], open(mp).read())); notes.append('%s: %s' % (m1[0], m1[2]))
        print('VIOLATION property=%s replay=%s' % (prop, mp)); rc = 1; break
    if rc == 0 and errors:
        for e in errors: print('ERROR: ' + e, file=sys.stderr)
        rc = 2
    for k in sorted(kf_seen): print('KNOWN-FINDING: property=%s %s' % (prop, k))
    evidence(prop, tier, seed, results, t0, t_build, 1 if rc == 1 else 0, failed, notes, exes)
    tot = sum(r['runs'] for _, r in results)
    print('%s %s: %d simulated runs in %.1f s (build %.1f s), %s' % (prop, tier, tot, time.time() - t0 - t_build, t_build, ['held', 'VIOLATED', 'no answer'][rc]))
    return rc

def evidence(prop, tier, seed, results, t0, t_build, nviol, failed, notes, exes):
    plan = PLANS[prop]; wall = time.time() - t0
    def add(key): return sum(r[key] for _, r in results)
    def merge(key):
        o = {}
        for _, r in results:
            for k, v in r[key].items(): o[k] = o.get(k, 0) + v
        return {k: v for k, v in o.items() if v}
    hashes = set(); sigs = set()
    for _, r in results: hashes.update(r['hashes']); sigs.update(r['sigs'])
    runs = add('runs') if results else 0; simwall = max([r['wall'] for _, r in results] + [0.001])
    samples = []
    for s in (seed * 1000000007 % (1 << 40), seed * 1000000007 % (1 << 40) + 1):
        r = run([exes['a'], 'gen', prop, str(s)])
        if r[0] == 0: samples.append({'seed': s, 'scenario': r[1][:1500]})
    cov = {'evaluations': runs, 'distinct_nontrivial': min(len(hashes), add('nontrivial') if results else 0),
      'rule': plan['rule'], 'samples': samples or ['none'],
      'runs_per_hour': int(runs / simwall * 3600) if runs else 0, 'seeds': runs, 'operations': add('ops') if results else 0,
      'distinct_event_logs': len(hashes), 'distinct_event_logs_note': 'counted over the first 400000 runs of each worker', 'distinct_table_states_sampled_1_in_16': len(sigs), 'state_measure': 'signature of (bucket count, key ids in traversal order) taken at every full comparison; the 1/16 of signatures whose low 4 bits are zero are counted',
      'runs_repeated_with_equal_log': add('twice') if results else 0, 'schedule_switches': add('switches') if results else 0, 'simulated_seconds': (add('sim_ns') if results else 0) / 1e9,
      'faults_fired': merge('faults') if results else {}, 'exceptions_delivered': add('exceptions') if results else 0, 'storage_growths_or_rebuilds': add('rehashes') if results else 0, 'full_comparisons': add('full_checks') if results else 0,
      'probes': merge('probes') if results else {}, 'operations_by_kind': merge('opk') if results else {}, 'runs_by_engine': merge('engines') if results else {}, 'runs_by_binary': {v: sum(r['runs'] for x, r in results if x == v) for v in ('a', 'b')},
      'highest_average_basic_blocks': dict(zip(('find_absent', 'find_present', 'update_with_rebuilds'), (max((r['cost'][i] for _, r in results), default=0) / 100 for i in range(3)))), 'slowest_run_s': max(((r['slowest'], r['slowest_seed']) for _, r in results), default=(0, 0)), 'components': COMPONENTS.get(plan.get('kind', 'map')), 'build_s': round(t_build, 1), 'engines_not_compiling': sorted(failed), 'notes': notes}
    json.dump({'property': prop, 'tier': tier, 'seed': seed, 'level': 'exploration', 'coverage': cov, 'assumptions': plan['assumptions'], 'wall_s': round(wall, 2), 'violations': nviol}, open(os.path.join(EVID, prop + '.json'), 'w'), indent=1)

def main():
    a = sys.argv[1:]
    if '--setup' in a:
        b = Builder(); b.close(); print('compiler: ' + run(['g++', '--version'])[1].splitlines()[0]); return 0
    prop = a[0]; tier = os.environ.get('VERIF_TIER', 'quick')
    if '--tier' in a: tier = a[a.index('--tier') + 1]
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    if '--replay' in a:
        path = a[a.index('--replay') + 1]; text = open(path).read(); v = 'b' if re.search(r'^# variant b', text, re.M) else PLANS[prop].get('variant', 'a')
        if path.endswith('-compile.txt'):              # what does not compile is built again
            pl = PLANS[prop]; b = Builder(); b.build([('a', pl.get('variant', 'a'), pl['a'], pl.get('src', []))] + ([('b', 'b', pl['b'], pl.get('src', []))] if pl.get('b') else [])); bad = list(b.failed.items()) + [('duration readings', m) for m in b.absent if prop == 'C20']; b.close()
            for e, m in bad: print('%s does not compile: %s' % (e, next((l for l in m.splitlines() if 'error' in l), m[:200])))
            if bad: print('VIOLATION property=%s replay=%s' % (prop, path)); return 1
            print('the replay holds'); return 0
        engs = sorted({tuple(l.split()[1].split('/')) for l in text.splitlines() if l.startswith('world ')}); engs = [(MAPS.index(m), c) for m, c in engs if m in MAPS]
        b = Builder(); exe = b.build([('x', v, engs, PLANS[prop].get('src', []))])['x']; b.close()
        r = replay(exe, path)
        if r is None: print('the replay holds'); return 0
        if r[0] == 'error': return fail(r[2])
        print('%s: %s (log %s)' % (r[0], r[2], r[1])); print('VIOLATION property=%s replay=%s' % (prop, path)); return 1
    seconds = float(a[a.index('--seconds') + 1]) if '--seconds' in a else PLANS[prop].get(tier, {'quick': 25, 'thorough': 600}[tier])
    return campaign(prop, tier, seconds, seed)
if __name__ == '__main__': sys.exit(main())
