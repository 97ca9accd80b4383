#!/usr/bin/env python3
"""Deterministic simulation checks for /repo.

  check.py C01 [TIER]     run the check (VERIF_SEED; TIER or VERIF_TIER is quick or thorough)
  check.py --replay FILE  rebuild from /repo and replay a violation, with its trace
  check.py --setup        build the harness once and replay a few seeds, as a self test

Exit 0: held on everything explored.  1: VIOLATION line printed.  2: the check itself failed.
"""
import sys, os, subprocess, hashlib, json, struct, time, re, glob, shutil, signal, concurrent.futures as cf

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('VERIF_REPO', '/repo')
SIM = os.path.join(HERE, 'sim')
OUT = os.environ.get('VERIF_OUT', HERE)          # development only: where build/, replays/ and evidence/ go
BUILD = os.path.join(OUT, 'build')
CPUS = max(2, min(8, os.cpu_count() or 2))
CXX_UNITS = ['core', 'world', 'main', 'hooks', 'props', 'aesref'] + [os.path.basename(f)[:-4] for f in sorted(glob.glob(SIM + '/worlds*.cpp'))]
LIBC = 'read write vsnprintf snprintf vsprintf sprintf malloc calloc realloc free'.split()
LIBMEM = 'memcpy memmove memset memcmp memchr memrchr mempcpy memmem strlen strnlen strchr strrchr strcmp strncmp strncasecmp strcpy strncpy strcat'.split()
CC = {'hook': 'clang -std=gnu99 -O1 -g -w -fno-builtin -fno-pie -fsanitize=thread -fno-stack-protector -ftrivial-auto-var-init=pattern -U_FORTIFY_SOURCE -Wno-incompatible-function-pointer-types -Wno-int-conversion -Wno-implicit-function-declaration -Wno-implicit-int',
      'asan': 'gcc -std=gnu99 -O2 -g -w -fno-pie -fsanitize=address --param asan-globals=1 -U_FORTIFY_SOURCE'}
DEF = '-DSTRBUF_PROVIDE_PRINTF -DSTRBUF_PROVIDE_PRNF'
STD = '-DSTRBUF_DEFAULT_ALLOCATOR_STDLIB'
ASSERT = STD + ' -DSTRBUF_ASSERT_DEFAULT_ALLOCATOR_STDLIB'
GROW = '-DSTRBUF_CAPACITY_GROW_STEP='

def variants(prop, thorough):
    """(instrumentation, extra defines) pairs; the index in the list is part of a run's identity"""
    if prop == 'C21':
        return [(s, d) for d in (ASSERT, STD, '', '-DSIM_APPDEF') for s in ('hook', 'asan')]
    if prop in ('C12', 'C14', 'C23'): return [('hook', ''), ('asan', '')]
    if prop == 'C22': return [('hook', ''), ('asan', ''), ('hook', ASSERT), ('asan', STD)]
    v = [('hook', ''), ('asan', ''), ('hook', GROW + '1'), ('asan', GROW + '7')]
    if prop in ('C03', 'C11'): v = v[:2]
    if prop == 'C08' or thorough: v += [('asan', GROW + '32'), ('hook', GROW + '1000')]
    return v

# --------------------------------------------------------------------------------------------- building
class BuildError(Exception): pass
def sh(cmd):
    r = subprocess.run(cmd, shell=isinstance(cmd, str), stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if r.returncode: raise BuildError('%s\n%s' % (cmd if isinstance(cmd, str) else ' '.join(cmd), r.stdout.decode(errors='replace')[-4000:]))
def filehash(files, extra=''):
    h = hashlib.sha256(extra.encode())
    for f in files:
        h.update(f.encode()); h.update(open(f, 'rb').read())
    return h.hexdigest()[:20]
def repo_sources():
    src = sorted(glob.glob(REPO + '/*.c')) + sorted(glob.glob(REPO + '/accessories/**/*.c', recursive=True))
    inc = ['-I' + REPO, '-I' + REPO + '/accessories', '-I' + REPO + '/test', '-I' + SIM]
    return src + [REPO + '/test/prnf.c', SIM + '/shim_pack.c'], ' '.join(inc)
def harness_objs(pool):
    """C++ part: does not depend on /repo, cached by content"""
    cache = os.path.join(os.environ.get('VERIF_CACHE', BUILD), 'cache'); os.makedirs(cache, exist_ok=True); out = {}; jobs = []
    hdrs = sorted(glob.glob(SIM + '/*.hpp')) + [SIM + '/shim.h']
    for kind, d in (('hook', '-DSIM_HOOK'), ('asan', '-DSIM_ASAN')):
        for u in CXX_UNITS:
            flags = 'g++ -std=c++17 -O2 -g1 -w -fno-pie -U_FORTIFY_SOURCE %s -I%s' % (d, SIM)
            o = '%s/%s-%s-%s.o' % (cache, u, kind, filehash([SIM + '/' + u + '.cpp'] + hdrs, flags))
            out.setdefault(kind, []).append(o)
            if not os.path.exists(o): jobs.append(pool.submit(lambda o=o, u=u, flags=flags: (sh('%s -c %s/%s.cpp -o %s.%d' % (flags, SIM, u, o, os.getpid())), os.rename('%s.%d' % (o, os.getpid()), o))))
    for j in jobs: j.result()
    return out
def build(vs, outdir):
    """one simulator binary per variant from /repo's working tree"""
    shutil.rmtree(outdir, ignore_errors=True); os.makedirs(outdir)
    src, inc = repo_sources(); bins = []
    with cf.ThreadPoolExecutor(CPUS) as pool:
        objs = []; jobs = []
        for i, (san, defs) in enumerate(vs):
            d = '%s/v%d' % (outdir, i); os.makedirs(d); mine = []
            for k, f in enumerate(src):
                o = '%s/r%02d.o' % (d, k); mine.append(o)
                jobs.append(pool.submit(sh, '%s %s %s %s -c %s -o %s' % (CC[san], DEF, defs, inc, f, o)))
            for f in ('shim', 'refprnf'):
                jobs.append(pool.submit(sh, 'gcc -std=gnu99 -O1 -g1 -w -fno-pie %s %s %s -c %s/%s.c -o %s/%s.o' % (DEF, defs, inc, SIM, f, d, f)))
            objs.append(mine)
        h = harness_objs(pool)
        for j in jobs: j.result()
        def link(i):
            san, d = vs[i][0], '%s/v%d' % (outdir, i)
            ren = ' '.join('--redefine-sym %s=simw_%s' % (s, s) for s in LIBC + (LIBMEM if san == 'hook' else []))
            sh('ld -r -o %s/repo0.o %s' % (d, ' '.join(objs[i])))
            sh('objcopy %s --redefine-sym __assert_fail=simw_assert_fail %s/repo0.o %s/repo.o' % (ren, d, d))
            sh('objcopy --rename-section .data=repodata,alloc,load,data,contents --rename-section .bss=repobss,alloc,load,data,contents --set-section-flags .bss=alloc,load,contents %s/repo.o %s/repo.o' % (d, d))
            L = '-fsanitize=address' if san != 'hook' else ''
            sh('g++ -no-pie %s -o %s/sim %s %s/shim.o %s/refprnf.o %s/repo.o -lm' % (L, d, ' '.join(h['hook' if san == 'hook' else 'asan']), d, d, d))
            for o in objs[i] + [d + '/repo0.o', d + '/repo.o']: os.unlink(o)
            return d + '/sim'
        bins = list(pool.map(link, range(len(vs))))
    return bins

# --------------------------------------------------------------------------------------------- running
ENV = dict((k, v) for k, v in os.environ.items() if not k.endswith('SAN_OPTIONS'))
def read_progress(path):
    d = open(path, 'rb').read(2160 + (8 << 20) + 64)
    magic, state, idx, h, nc, ns, steps = struct.unpack_from('<IIQQQQQ', d, 0)
    tag = d[48:112].split(b'\0')[0].decode(errors='replace'); msg = d[112:112 + 2048].split(b'\0')[0].decode(errors='replace')
    nc = min(nc, 1 << 21)
    return dict(state=state, index=idx, hash='%016x' % h, tag=tag, msg=msg, choices=struct.unpack_from('<%dI' % nc, d, 112 + 2048))
def write_replay(path, v, choices, extra='', trace=''):
    with open(path, 'w') as f:
        f.write('tag: %s\nhash: %s\nmessage: %s\n%schoices:\n' % (v['tag'], v['hash'], v['msg'].replace('\n', ' '), extra))
        for i in range(0, len(choices), 40): f.write(' '.join(map(str, choices[i:i + 40])) + '\n')
        if trace: f.write('end\ntrace:\n' + trace)
def replay_once(binary, prop, file, outdir, trace=False, timeout=120):
    pg = '%s/replay.%d.pg' % (outdir, os.getpid())
    if os.path.exists(pg): os.unlink(pg)
    cmd = [binary, '--prop', prop, '--replay', file, '--progress', pg] + (['--trace'] if trace else [])
    try: r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=ENV, timeout=timeout)
    except subprocess.TimeoutExpired: return None, ''
    v = read_progress(pg) if r.returncode == 71 else None
    if os.path.exists(pg): os.unlink(pg)
    return v, r.stdout.decode(errors='replace')
def same(a, b):
    return a is not None and b is not None and a['tag'] == b['tag'] and (a['tag'] == 'hang' or a['hash'] == b['hash'])

def known_findings():
    """open findings only: lines 'finding: property=<id> tag=<tag> match=<regex> :: <what fails>'"""
    out = []
    p = os.path.join(HERE, 'known_findings.txt')
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r'finding: property=(\S+) tag=(\S+) match=(.*?) :: (.*)', l)
            if m: out.append(m.groups())
    return out

class Worker:
    def __init__(self, k, vi, binary, prop, seed, start, stride, end, outdir, thorough):
        self.k, self.vi, self.binary, self.prop, self.seed, self.next, self.stride, self.end, self.outdir, self.thorough = k, vi, binary, prop, seed, start, stride, end, outdir, thorough
        self.parts = 0; self.stats = []; self.proc = None; self.errors = []; self.launch()
    def launch(self):
        self.pg = '%s/w%d.pg' % (self.outdir, self.k); self.parts += 1; self.out = '%s/w%d.%d.json' % (self.outdir, self.k, self.parts)
        if os.path.exists(self.pg): os.unlink(self.pg)
        secs = max(1.0, self.end - time.time()); self.err = open('%s/w%d.err' % (self.outdir, self.k), 'wb')
        cmd = [self.binary, '--prop', self.prop, '--seed', str(self.seed), '--variant', str(self.vi), '--start', str(self.next), '--stride', str(self.stride), '--secs', '%.1f' % secs, '--progress', self.pg, '--out', self.out] + (['--thorough'] if self.thorough else [])
        self.proc = subprocess.Popen(cmd, stdout=self.err, stderr=self.err, env=ENV)
    def stop(self):
        if self.proc and self.proc.poll() is None: self.proc.kill(); self.proc.wait()

def check(prop, tier, seed):
    t0 = time.time(); thorough = tier == 'thorough'; vs = variants(prop, thorough)
    outdir = os.path.join(BUILD, prop); repdir = os.path.join(OUT, 'replays'); os.makedirs(repdir, exist_ok=True)
    try: bins = build(vs, outdir)
    except BuildError as e:
        print('cannot build the simulator:\n%s' % e); return 2
    tb = time.time() - t0
    secs = float(os.environ.get('VERIF_SECS', 600 if thorough else 24)); end = time.time() + secs
    nw = CPUS; groups = {}; ws = []
    for k in range(nw): groups.setdefault(k % len(vs), []).append(k)
    for vi, ks in groups.items():
        for j, k in enumerate(ks): ws.append(Worker(k, vi, bins[vi], prop, seed, j, len(ks), end, outdir, thorough))
    findings = [f for f in known_findings() if f[0] == prop]; hit = {}; irreproducible = []; harness = []; result = None
    hard = end + 150
    while result is None and any(w.proc for w in ws):
        time.sleep(0.05)
        for w in ws:
            if not w.proc: continue
            rc = w.proc.poll()
            if rc is None:
                if time.time() > hard: w.stop(); harness.append('worker %d did not end' % w.k); w.proc = None
                continue
            w.proc = None
            if rc == 0: w.stats.append(json.load(open(w.out))); w.outs = getattr(w, 'outs', []) + [w.out]; continue
            v = read_progress(w.pg) if os.path.exists(w.pg) else None
            if rc == 71 and v and v['state'] == 2:
                f = next((f for f in findings if f[1] == v['tag'] and re.search(f[2], v['msg'])), None)
                if f: hit[f] = hit.get(f, 0) + 1
                else:
                    raw = '%s/raw.%d' % (outdir, w.k); write_replay(raw, v, v['choices'])
                    a, _ = replay_once(w.binary, prop, raw, outdir); b, _ = replay_once(w.binary, prop, raw, outdir)
                    if same(v, a) and same(a, b): result = (w, v, raw); break
                    irreproducible.append('%s at run %d of variant %d: %s' % (v['tag'], v['index'], w.vi, v['msg']))
            else:
                harness.append('worker %d ended with %s: %s %s' % (w.k, rc, v and (v['tag'], v['msg'], v['index']), open('%s/w%d.err' % (outdir, w.k), errors='replace').read()[-1500:]))
            if v and time.time() < end - 1 and len(harness) + len(irreproducible) < 40:
                w.next = v['index'] + w.stride; w.launch()
    for w in ws: w.stop()
    for f, n in hit.items(): print('KNOWN-FINDING: property=%s %s' % (prop, f[3]))
    if result:
        w, v, raw = result; small = '%s/min' % outdir; best, bv = raw, v
        subprocess.run([w.binary, '--prop', prop, '--secs', '60' if thorough else '25', '--shrink', raw, '--out', small], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, env=ENV)
        if os.path.exists(small):
            a, _ = replay_once(w.binary, prop, small, outdir); b, _ = replay_once(w.binary, prop, small, outdir)
            if same(a, b) and a['tag'] == v['tag']: best, bv = small, a
        _, trace = replay_once(w.binary, prop, best, outdir, trace=True)
        final = '%s/%s-%d-%s.replay' % (repdir, prop, seed, bv['hash'])
        extra = 'property: %s\ntier: %s\nseed: %d\nvariant: %d %s %s\nrun: %d\n' % (prop, tier, seed, w.vi, vs[w.vi][0], vs[w.vi][1] or '-', v['index'])
        ch = re.search(r'choices:([\s\d]*)', open(best).read()).group(1).split()
        write_replay(final, bv, ch, extra, trace)
        print('seed %d, run %d, build %s %s: %s: %s' % (seed, v['index'], vs[w.vi][0], vs[w.vi][1], bv['tag'], bv['msg'])); print(trace[-3000:])
        evidence(prop, tier, seed, vs, ws, bins, tb, secs, t0, 1, {}, outdir)
        print('VIOLATION property=%s replay=%s' % (prop, final)); return 1
    if irreproducible:
        print('violations that do not replay (not reported):'); print('\n'.join(irreproducible[:5])); return 2
    if harness:
        print('\n'.join(harness[:5])); return 2
    det = determinism(prop, vs, bins, seed, thorough)
    evidence(prop, tier, seed, vs, ws, bins, tb, secs, t0, 0, det, outdir)
    if det['differences']: print('runs are not deterministic: %s' % det); return 2
    tot = sum(s['runs'] for w in ws for s in w.stats)
    print('%s held on %d runs (%s, seed %d, %.0f s)' % (prop, tot, tier, seed, time.time() - t0)); return 0

def determinism(prop, vs, bins, seed, thorough):
    """the same runs in other processes, split differently, have to give the same event hashes"""
    n = 400 if thorough else 60; diff = 0; compared = 0
    def hashes(vi, start, stride, runs):
        r = subprocess.run([bins[vi], '--prop', prop, '--seed', str(seed), '--variant', str(vi), '--start', str(start), '--stride', str(stride), '--runs', str(runs), '--secs', '60', '--hashes'] + (['--thorough'] if thorough else []), stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, env=ENV)
        return dict(l.split() for l in r.stdout.decode().splitlines() if re.match(r'\d+ [0-9a-f]{16}$', l))
    with cf.ThreadPoolExecutor(CPUS) as pool:
        jobs = [(pool.submit(hashes, vi, 0, 1, n), [pool.submit(hashes, vi, j, 3, n // 3) for j in range(3)]) for vi in range(len(vs))]
        for a, bs in jobs:
            x = a.result(); y = {}
            for b in bs: y.update(b.result())
            for k in x:
                if k in y: compared += 1; diff += x[k] != y[k]
    return dict(runs_repeated_in_other_processes=compared, differences=diff)

def evidence(prop, tier, seed, vs, ws, bins, tb, secs, t0, violations, det, outdir):
    info = json.load(open(os.path.join(HERE, 'info.json')))
    st = [(w, s) for w in ws for s in w.stats]; tot = lambda k: sum(s[k] for _, s in st)
    cov = set(); nt = set(); counters = {}
    for w in ws:
        for o in getattr(w, 'outs', []):
            for ext, acc in (('.cov', cov), ('.nt', nt)):
                d = open(o + ext, 'rb').read(); 
                for x in struct.unpack('<%dQ' % (len(d) // 8), d): acc.add((x, w.vi if ext == '.nt' else 0))
    for _, s in st:
        for k, n in s['counters'].items(): counters[k] = counters.get(k, 0) + n
    faults = {k: n for k, n in sorted(counters.items()) if k.startswith(('fault.', 'alloc.'))}; other = {k: n for k, n in sorted(counters.items()) if k not in faults}
    samples = []
    for vi in (0, min(1, len(vs) - 1)):
        for run in (1, 4):
            r = subprocess.run([bins[vi], '--prop', prop, '--seed', str(seed), '--variant', str(vi), '--start', str(run), '--runs', '1', '--trace'], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, env=ENV)
            samples.append({'seed': seed, 'variant': '%s %s' % vs[vi], 'run': run, 'trace': [l[:240] for l in r.stdout.decode(errors='replace').splitlines()[:40]]})
    cpu = sum(s['seconds'] for _, s in st) or 1e-9; wall = max(secs, 1e-9); p = info.get(prop, {})
    ev = dict(property=prop, tier=tier, seed=seed, level='exploration', violations=violations, wall_s=round(time.time() - t0, 2), assumptions=info['assumptions'] + p.get('assumptions', []),
        coverage=dict(evaluations=tot('runs'), distinct_nontrivial=len(nt), rule=p.get('rule', ''), samples=samples,
            seeds=tot('runs'), runs_per_hour=int(tot('runs') / wall * 3600), simulated_seconds=round(tot('sim_us') / 1e6, 3), random_choices=tot('choices'),
            instrumented_accesses_or_seams=tot('steps'), task_switches=tot('switches'), task_switches_inside_a_library_call=tot('midcall'),
            faults_injected=faults, other_counters=other, distinct_situations=len(cov), situation_measure='distinct tuples of (operation, state class, environment, outcome) recorded by the oracle; distinct_nontrivial counts distinct event-log hashes per build variant',
            build_variants=['%s %s' % v for v in vs], build_seconds=round(tb, 2), determinism=det, components_real=info['real'], components_stubbed=info['stub']))
    os.makedirs(os.path.join(OUT, 'evidence'), exist_ok=True)
    json.dump(ev, open(os.path.join(OUT, 'evidence', prop + '.json'), 'w'), indent=1)
    for w in ws:
        for o in glob.glob('%s/w%d.*' % (outdir, w.k)): os.unlink(o)

def replay(file):
    t = open(file).read(); g = lambda k: re.search(r'^%s: (.*)$' % k, t, re.M).group(1)
    prop, tier, vi = g('property'), g('tier'), int(g('variant').split()[0]); v = variants(prop, tier == 'thorough')[vi]
    out = os.path.join(BUILD, 'replay')
    try: b = build([v], out)[0]
    except BuildError as e: print(e); return 2
    r, trace = replay_once(b, prop, file, out, trace=True); print(trace)
    want = dict(tag=g('tag'), hash=g('hash'))
    if r is None: print('replay: no violation'); return 0
    print('replay: %s, recorded: %s' % ((r['tag'], r['hash']), (want['tag'], want['hash'])))
    print('VIOLATION property=%s replay=%s' % (prop, file)); return 1

def setup():
    for tool in ('clang', 'gcc', 'g++', 'ld', 'objcopy'):
        if not shutil.which(tool): print('missing: ' + tool); return 2
    try: b = build([('hook', ''), ('asan', '')], os.path.join(BUILD, 'setup'))
    except BuildError as e: print(e); return 2
    for x in b:
        r = subprocess.run([x, '--prop', 'C01', '--runs', '50'], env=ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        if r.returncode not in (0, 71): print(r.stdout.decode(errors='replace')); return 2
    print('simulator builds and runs'); return 0

def main():
    a = sys.argv[1:]
    if a[:1] == ['--replay']: return replay(a[1])
    if a[:1] == ['--setup']: return setup()
    return check(a[0], a[1] if len(a) > 1 else os.environ.get('VERIF_TIER') or 'quick', int(os.environ.get('VERIF_SEED') or 1))
if __name__ == '__main__': sys.exit(main())
