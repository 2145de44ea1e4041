#!/usr/bin/env python3
"""Decides one property: builds its harness against /repo's working tree in several
configurations, searches generated cases in each, writes evidence, reports violations.

  check.py P01 [--tier quick|thorough] [--seed N]
  check.py P01 --replay FILE
  check.py --setup
"""
import argparse, concurrent.futures as cf, glob, hashlib, importlib.util, json, os, re, resource, shutil, subprocess, sys, tempfile, time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('VERIF_REPO', '/repo')
INC = os.path.join(REPO, 'include')
GCC, CLANG = 'g++-13', 'clang++-18'
if not shutil.which(GCC): GCC = 'g++'
if not shutil.which(CLANG): CLANG = 'clang++'
SAN = ['-O1', '-g', '-fsanitize=address,undefined', '-fno-sanitize-recover=all', '-fno-omit-frame-pointer']
COMMON = ['-Wno-everything'] 
# g++ 13 miscompiles the merge of a partly indeterminate pair with its SLP vectorizer (DESIGN.md, 'Compilers')
NOSLP = '-fno-tree-slp-vectorize'

# name -> (compiler, flags)
CONFIGS = {
    'gcc17san':   (GCC,   ['-std=c++17', '-w'] + SAN),
    'clang20san': (CLANG, ['-std=c++20', '-w', '-fconstexpr-steps=50000000'] + SAN),
    'gcc20o2n':   (GCC,   ['-std=c++20', '-w', '-O2', NOSLP, '-g1', '-DNDEBUG']),
    'clang17o2n': (CLANG, ['-std=c++17', '-w', '-O2', '-g1', '-DNDEBUG']),
    'clang17san': (CLANG, ['-std=c++17', '-w'] + SAN),
    'gcc20san':   (GCC,   ['-std=c++20', '-w'] + SAN),
    'gcc17o2n':   (GCC,   ['-std=c++17', '-w', '-O2', NOSLP, '-g1', '-DNDEBUG']),
    'clang20o2n': (CLANG, ['-std=c++20', '-w', '-O2', '-g1', '-DNDEBUG', '-fconstexpr-steps=50000000']),
    'gcc17o0':    (GCC,   ['-std=c++17', '-w', '-O0']),
    'gcc20o3':    (GCC,   ['-std=c++20', '-w', '-O3', NOSLP]),
    'clang20o0':  (CLANG, ['-std=c++20', '-w', '-O0', '-fconstexpr-steps=50000000']),
    'nobuiltin':  (GCC,   ['-std=c++17', '-w', '-DOPTION_USE_BUILTIN_TRAITS=0'] + SAN),
    'nopfr':      (GCC,   ['-std=c++17', '-w', '-DOPTION_USE_PFR=0'] + SAN),
    'nofwd':      (CLANG, ['-std=c++20', '-w', '-DOPTION_FORWARD_DECLARE_STD=0'] + SAN),
    'qnan':       (GCC,   ['-std=c++17', '-w', '-DOPTION_USE_QUIET_NAN=1'] + SAN),
    'gcc23o2':    (GCC,   ['-std=c++23', '-w', '-O2', NOSLP]),
    'clang23o2':  (CLANG, ['-std=c++23', '-w', '-O2', '-fconstexpr-steps=50000000']),
    # the documented switches, in combinations, for the comparison of configurations
    'nobuiltin1': (GCC,   ['-std=c++17', '-w', '-O1', '-DOPTION_USE_BUILTIN_TRAITS=0']),
    'nopfr20':    (GCC,   ['-std=c++20', '-w', '-O0', '-DOPTION_USE_PFR=0', '-DOPTION_VERIFY(expression,message)=((expression)?static_cast<void>(0):__builtin_abort())']),
    'switches':   (CLANG, ['-std=c++17', '-w', '-O0', '-DOPTION_FORWARD_DECLARE_STD=0', '-DOPTION_USE_QUIET_NAN=1', '-DOPTION_CONSUMED_ANNOTATION_CHECKING=1', '-include', 'opt/option_fwd.hpp']),
    'nobuiltinc': (CLANG, ['-std=c++20', '-w', '-O3', '-DOPTION_USE_BUILTIN_TRAITS=0', '-DOPTION_USE_PFR=0', '-DOPTION_USE_LIBASSERT=1', '-DOPTION_LIBASSERT_FILE=<assert_stub.hpp>', '-fconstexpr-steps=50000000']),
    # configuration without optimisation or sanitizers, for generated programs whose cost is compilation
    'gcc17':      (GCC,   ['-std=c++17', '-w', '-O0']),
    'clang20':    (CLANG, ['-std=c++20', '-w', '-O0', '-fconstexpr-steps=50000000']),
}
QUICK = ['gcc17san', 'clang20san', 'gcc20o2n', 'clang17o2n']
THOROUGH = QUICK + ['clang17san', 'gcc20san', 'gcc17o2n', 'clang20o2n', 'nobuiltin', 'nopfr', 'nofwd', 'gcc23o2', 'clang23o2']

def load_spec():
    with open(os.path.join(HERE, 'checks.json')) as f:
        return json.load(f)

def run(cmd, timeout, cwd=None, env=None):
    try:
        p = subprocess.run(cmd, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout)
        return p.returncode, p.stdout.decode('utf8', 'replace'), p.stderr.decode('utf8', 'replace')
    except subprocess.TimeoutExpired as e:
        return -999, (e.stdout or b'').decode('utf8', 'replace'), 'timed out after %ss' % timeout

def compile_one(cfg, src, obj, extra, timeout):
    comp, flags = CONFIGS[cfg]
    cmd = [comp] + flags + ['-I' + INC, '-I' + os.path.join(HERE, 'engine'), '-I' + os.path.join(HERE, 'harness')] + extra + ['-c', src, '-o', obj]
    rc, out, err = run(cmd, timeout)
    return rc, ' '.join(cmd), err

def short_errors(err, n=12):
    ls = [l for l in err.splitlines() if re.search(r'error|assert', l)]
    return '\n'.join((ls or err.splitlines())[:n])

class Check:
    def __init__(self, pid, tier, seed):
        self.pid, self.tier, self.seed = pid, tier, seed
        self.spec = load_spec()[pid]
        self.work = tempfile.mkdtemp(prefix='%s-' % pid, dir=self.mk(os.path.join(HERE, '.work')))
        self.replays = self.mk(os.path.join(HERE, 'replays'))
        self.t0 = time.time()
        self.stats, self.notes, self.violations = {}, [], []
        self.pool = cf.ThreadPoolExecutor(max_workers=os.cpu_count() or 8)

    @staticmethod
    def mk(d):
        os.makedirs(d, exist_ok=True)
        return d

    def configs(self):
        if self.tier == 'thorough':
            return self.spec.get('thorough_configs') or self.spec.get('configs_all') or THOROUGH
        return self.spec.get('configs') or QUICK

    def sources(self):
        """[(name, path, extra flags, configs or None)]"""
        out = []
        for pat in self.spec.get('sources', ['%s*.cpp' % self.pid.lower()]):
            for p in sorted(glob.glob(os.path.join(HERE, 'harness', pat))):
                out.append(p)
        gen = self.spec.get('generator')
        if gen:
            sp = importlib.util.spec_from_file_location('gen_' + self.pid, os.path.join(HERE, 'gen', gen))
            m = importlib.util.module_from_spec(sp); sys.path.insert(0, os.path.join(HERE, 'gen')); sp.loader.exec_module(m)
            d = self.mk(os.path.join(self.work, 'gen'))
            self.genmod = m
            out += m.generate(d, self.seed, self.tier)
        return out

    def report(self, what, text, files=()):
        h = hashlib.sha1(text.encode()).hexdigest()[:10]
        base = os.path.join(self.replays, '%s-%s' % (self.pid, h))
        path = base + '.txt'
        with open(path, 'w') as f: f.write(text)
        for fn in files:
            dst = base + '-' + os.path.basename(fn)
            shutil.copy(fn, dst)
        self.violations.append((what, path))
        return path

    def build(self, cfg, sources, engine_obj=None):
        """compile and link; returns (exe, None) or (None, failure text)"""
        timeout = 800
        objs, futs = [], []
        d = self.mk(os.path.join(self.work, cfg))
        extra = self.spec.get('flags', []) + (['-DPBT_THOROUGH'] if self.tier == 'thorough' else [])
        for s in sources + [os.path.join(HERE, 'engine', 'pbt_main.cpp')]:
            o = os.path.join(d, os.path.basename(s).replace('.cpp', '.o'))
            futs.append((s, o, self.pool.submit(compile_one, cfg, s, o, extra, timeout)))
        bad = []
        for s, o, f in futs:
            rc, cmd, err = f.result()
            if rc != 0: bad.append((s, rc, cmd, err))
            objs.append(o)
        if bad: return None, bad
        exe = os.path.join(d, 'run')
        comp, flags = CONFIGS[cfg]
        rc, out, err = run([comp] + flags + objs + ['-o', exe], timeout)
        if rc != 0: return None, [('link', rc, 'link', err)]
        return exe, None

    def compiler_works(self, cfg):
        d = self.mk(os.path.join(self.work, cfg)); s = os.path.join(d, 'trivial.cpp')
        with open(s, 'w') as f: f.write('#include <string>\n#include <vector>\n#include <optional>\nint main(){ std::optional<std::string> s; return s.has_value(); }\n')
        rc, cmd, err = compile_one(cfg, s, os.path.join(d, 'trivial.o'), [], 300)
        return rc == 0

    def one_config(self, cfg, sources, seed, cases, tlimit):
        t0 = time.time()
        exe, bad = self.build(cfg, sources)
        if exe is None:
            # environment trouble (memory, disk) is not a verdict: try again, and check that the compiler works at all
            exe, bad = self.build(cfg, sources)
            if exe is None:
                if not self.compiler_works(cfg) or all(b[1] in (-999, -9) or 'Killed' in b[3] for b in bad):
                    return cfg, 'error', 'cannot compile in %s: %s' % (cfg, bad[0][3][:2000]), None
                txt = 'property %s\nconfig %s\nThe documented interface used by the check no longer compiles.\n' % (self.pid, cfg)
                files = []
                for s, rc, cmd, err in bad:
                    txt += '--- source %s\n--- command %s\n%s\n' % (os.path.basename(s), cmd, short_errors(err))
                    if s.startswith(self.work): files.append(s)
                return cfg, 'fail', 'does not compile: ' + short_errors(bad[0][3], 1)[:300], (txt, files)
        tb = time.time() - t0
        out = os.path.join(self.work, cfg, 'replay.txt'); st = os.path.join(self.work, cfg, 'stats.json')
        # weak scaling when several configurations share the cores
        rc, o, e = run([exe, '--seed', str(seed), '--cases', str(cases), '--time', str(tlimit), '--stats', st, '--out', out], tlimit + 700)
        stats = None
        if os.path.exists(st):
            stats = json.load(open(st)); stats['build_s'] = round(tb, 1)
        if rc == 0: return cfg, 'ok', o.strip(), stats
        if rc == 1 and os.path.exists(out):
            line = [l for l in o.splitlines() if l.startswith('FAIL')]
            body = open(out).read()
            return cfg, 'fail', (line or ['FAIL'])[0], ('property %s\nconfig %s\n' % (self.pid, cfg) + body, [s for s in sources if s.startswith(self.work)], stats)
        return cfg, 'error', 'runner ended with %s\n%s\n%s' % (rc, o[-1500:], e[-1500:]), stats

    def fuzz(self, sources, seconds):
        """coverage-guided search over the same cases (thorough tier)"""
        d = self.mk(os.path.join(self.work, 'fuzz')); corpus = self.mk(os.path.join(d, 'corpus'))
        flags = [CLANG, '-std=c++20', '-w', '-O1', '-g', '-fsanitize=fuzzer,address,undefined', '-fno-sanitize-recover=all', '-DPBT_FUZZ', '-I' + INC, '-I' + os.path.join(HERE, 'engine'), '-I' + os.path.join(HERE, 'harness')] + self.spec.get('flags', [])
        exe = os.path.join(d, 'fuzz')
        objs, futs = [], []
        for s in sources + [os.path.join(HERE, 'engine', 'pbt_main.cpp')]:
            o = os.path.join(d, os.path.basename(s).replace('.cpp', '.o')); objs.append(o)
            futs.append(self.pool.submit(run, flags + ['-c', s, '-o', o], 800))
        for f in futs:
            if f.result()[0] != 0: return None
        if run([CLANG, '-fsanitize=fuzzer,address,undefined'] + objs + ['-o', exe], 300)[0] != 0: return None
        rc, o, e = run([exe, corpus, '-max_total_time=%d' % seconds, '-seed=%d' % (self.seed % 2**31 or 1), '-max_len=600', '-artifact_prefix=' + d + '/crash-', '-print_final_stats=1', '-rss_limit_mb=4096', '-detect_leaks=0', '-timeout=60'], seconds + 300)
        m = re.search(r'stat::number_of_executed_units:\s*(\d+)', e); n = int(m.group(1)) if m else 0
        m = re.findall(r'cov: (\d+)', e); cov = int(m[-1]) if m else 0
        res = {'executions': n, 'edges': cov, 'corpus': len(os.listdir(corpus)), 'crash': None}
        crashes = [c for c in glob.glob(d + '/crash-*') if os.path.isfile(c) and ('crash-crash' in c or 'crash-timeout' not in c) and 'oom' not in c and 'slow' not in c]
        if crashes: res['crash'] = crashes[0]
        return res

    def main(self):
        spec, pid = self.spec, self.pid
        thorough = self.tier == 'thorough'
        sources = self.sources()
        cfgs = self.configs()
        cases = spec.get('cases_thorough', 400000) if thorough else spec.get('cases', 4000)
        tl = spec.get('time_thorough', 240) if thorough else spec.get('time', 12)
        results = []
        # at most four configurations at a time: compilations are parallel inside each
        with cf.ThreadPoolExecutor(max_workers=4) as ex:
            futs = [ex.submit(self.one_config, c, sources, self.seed * 1000 + i, cases, tl) for i, c in enumerate(cfgs)]
            for f in futs: results.append(f.result())
        fz = None
        if thorough and spec.get('fuzz') and all(r[1] == 'ok' for r in results):
            fz = self.fuzz(sources, spec.get('fuzz_seconds', 240))
            if fz and fz['crash']:
                # confirm and shrink with the ordinary runner
                cfg = 'clang20san'
                exe = os.path.join(self.work, cfg, 'run')
                out = os.path.join(self.work, 'fuzz', 'replay.txt')
                if os.path.exists(exe):
                    rc, o, e = run([exe, '--bytes', fz['crash'], '--out', out], 300)
                    if rc == 1: results.append((cfg, 'fail', o.strip(), ('property %s\nconfig %s\n' % (pid, cfg) + open(out).read(), [], None)))
                    else: self.notes.append('a fuzzing artifact did not reproduce outside the fuzzer')
        errors = [r for r in results if r[1] == 'error']
        known = self.known()
        for cfg, status, line, info in results:
            if status == 'ok': self.stats[cfg] = info
            elif status == 'fail':
                if len(info) > 2 and info[2]: self.stats[cfg] = info[2]
                kf = [k for k in known if re.search(k['match'], info[0])]
                if kf: print('KNOWN-FINDING: property=%s %s' % (pid, kf[0]['what'])); continue
                p = self.report(line, info[0], info[1])
                print('%s [%s]' % (line[:600], cfg)); print('VIOLATION property=%s replay=%s' % (pid, p))
        self.evidence(fz)
        shutil.rmtree(self.work, ignore_errors=True)
        if self.violations: return 1
        if errors:
            for e in errors: print('ERROR in %s: %s' % (e[0], e[2]), file=sys.stderr)
            return 2
        tot = self.totals()
        print('%s held: %d cases, %d distinct non-trivial, %d configurations, %.0f s' % (pid, tot[0], tot[1], len(self.stats), time.time() - self.t0))
        return 0

    def known(self):
        p = os.path.join(HERE, 'known-findings.json')
        if not os.path.exists(p): return []
        return [k for k in json.load(open(p)).get('open', []) if k['property'] == self.pid]

    def totals(self):
        ev = sum(s['evaluations'] for s in self.stats.values() if s)
        # the same seed stream is different per configuration, but enumerated spaces repeat: count those once
        nt = sum(s['distinct'] for s in self.stats.values() if s) + max([s['enumerated_nontrivial'] for s in self.stats.values() if s] or [0])
        return ev, nt

    def evidence(self, fz):
        ev, nt = self.totals()
        samples = []
        for s in self.stats.values():
            if s: samples += s['samples']
            if len(samples) > 12: break
        seen, uniq = set(), []
        for s in samples:
            if s not in seen: seen.add(s); uniq.append(s[:900])
        labels = {}
        for c, s in self.stats.items():
            if s:
                for k, v in s['labels'].items(): labels[k] = labels.get(k, 0) + v
        per = {}
        for c, s in self.stats.items():
            if s:
                for k, v in s['tests'].items(): per[k] = per.get(k, 0) + v
        cov = {'evaluations': ev, 'distinct_nontrivial': nt, 'rule': self.spec['rule'], 'samples': uniq[:10] or ['(none)'],
               'discarded': sum(s['discarded'] for s in self.stats.values() if s),
               'classes': labels, 'cases_per_test': per,
               'configurations': {c: {'evaluations': s['evaluations'], 'build_s': s.get('build_s'), 'run_s': s['wall']} for c, s in self.stats.items() if s}}
        if fz: cov['coverage_guided'] = {k: v for k, v in fz.items() if k != 'crash'}
        if getattr(self, 'genmod', None) is not None and hasattr(self.genmod, 'SUMMARY'): cov['generated_programs'] = self.genmod.SUMMARY
        e = {'property': self.pid, 'tier': self.tier, 'seed': self.seed, 'level': 'exploration', 'coverage': cov,
             'assumptions': self.spec.get('assumptions', ['x86-64 Linux, libstdc++ 13, g++ 13 and clang++ 18']) + self.notes,
             'wall_s': round(time.time() - self.t0, 1), 'violations': len(self.violations)}
        self.mk(os.path.join(HERE, 'evidence'))
        with open(os.path.join(HERE, 'evidence', self.pid + '.json'), 'w') as f: json.dump(e, f, indent=1)

    def replay(self, path):
        txt = open(path).read()
        cfg = re.search(r'^config (\S+)', txt, re.M).group(1)
        self.seed = self.seed
        srcs = sorted(glob.glob(path[:-4] + '-*.cpp'))
        if not srcs:
            gen = self.spec.pop('generator', None)
            srcs = self.sources()
        else:
            srcs = [p for pat in self.spec.get('sources', ['%s*.cpp' % self.pid.lower()]) for p in sorted(glob.glob(os.path.join(HERE, 'harness', pat)))] + srcs
        exe, bad = self.build(cfg, srcs)
        rc = 1
        if exe is None: print('does not compile: ' + short_errors(bad[0][3]))
        else:
            rc, o, e = run([exe, '--replay', path, '--out', os.path.join(self.work, 'r')], 600)
            print(o, e)
        shutil.rmtree(self.work, ignore_errors=True)
        return rc

class Differential(Check):
    """the same generated histories in every configuration; what they observed is compared"""
    def sources(self):
        out = super().sources()
        self.extra_inc = ['-I' + os.path.join(self.work, 'gen')]
        return [os.path.join(HERE, 'runner', self.spec['runner'])] + out

    def compile_all(self, cfg, sources):
        d = self.mk(os.path.join(self.work, cfg)); objs, futs, bad = [], [], []
        for s in sources:
            o = os.path.join(d, os.path.basename(s).replace('.cpp', '.o')); objs.append(o)
            futs.append((s, self.pool.submit(compile_one, cfg, s, o, self.spec.get('flags', []) + self.extra_inc, 800)))
        for s, f in futs:
            rc, cmd, err = f.result()
            if rc: bad.append((s, rc, cmd, err))
        if bad: return None, bad
        exe = os.path.join(d, 'run'); comp, flags = CONFIGS[cfg]
        rc, o, e = run([comp] + flags + objs + ['-o', exe], 800)
        return (exe, None) if rc == 0 else (None, [('link', rc, 'link', e)])

    def run_config(self, cfg, sources, cases):
        t0 = time.time()
        for attempt in range(2):
            exe, bad = self.compile_all(cfg, sources)
            if exe: break
        if not exe:
            if not self.compiler_works(cfg) or all(b[1] in (-999, -9) or 'Killed' in b[3] for b in bad): return cfg, 'error', 'cannot compile: ' + bad[0][3][:1500]
            txt = 'property %s\nconfig %s\nA program using the documented interface, which other configurations accept, does not compile.\n' % (self.pid, cfg)
            for s, rc, cmd, err in bad: txt += '--- source %s\n--- command %s\n%s\n' % (os.path.basename(s), cmd, short_errors(err))
            return cfg, 'nocompile', (txt, 'does not compile: ' + short_errors(bad[0][3], 1)[:300])
        tb = time.time() - t0
        rc, o, e = run([exe, '--seed', str(self.seed), '--cases', str(cases)], 600)
        res = {}; ended = None; distinct = 0
        for l in o.splitlines():
            p = l.split('\t')
            if p[0] == 'T' and len(p) == 5: res[p[1]] = (p[2], int(p[3]), int(p[4]))
            elif p[0] == 'T' and len(p) >= 2: ended = p[1]
            elif p[0] == 'END': distinct = int(p[1])
        return cfg, 'ok' if rc == 0 else 'crash', (exe, res, ended, rc, e, distinct, round(tb, 1), round(time.time() - t0 - tb, 1))

    def case_hashes(self, exe, test, cases):
        rc, o, e = run([exe, '--seed', str(self.seed), '--cases', str(cases), '--mode', 'cases', '--test', test], 600)
        return {int(l.split('\t')[0]): (l.split('\t') + [''])[1] for l in o.splitlines() if l and l[0].isdigit()}

    def transcript(self, exe, test, case, ops=60):
        rc, o, e = run([exe, '--seed', str(self.seed), '--mode', 'one', '--test', test, '--case', str(case), '--ops', str(ops)], 120)
        return rc, o, e

    def main(self):
        sources = self.sources(); cfgs = self.configs(); thorough = self.tier == 'thorough'
        cases = self.spec.get('cases_thorough', 20000) if thorough else self.spec.get('cases', 2000)
        with cf.ThreadPoolExecutor(max_workers=4) as ex: results = list(ex.map(lambda c: self.run_config(c, sources, cases), cfgs))
        errors = [r for r in results if r[1] == 'error']; good = [r for r in results if r[1] in ('ok', 'crash')]
        gen = [s for s in sources if s.startswith(self.work)] + glob.glob(os.path.join(self.work, 'gen', '*.hpp'))
        for cfg, st, info in results:
            if st == 'nocompile': self.say(info[1], cfg, info[0], gen)
            if st == 'crash':
                exe, res, ended, rc, err = info[:5]
                hs = self.case_hashes(exe, ended, cases) if ended else {}; k = max(hs) if hs else 0; ops = 60
                for n in range(1, 61):
                    if self.transcript(exe, ended, k, n)[0] != 0: ops = n; break
                rc2, o, e = self.transcript(exe, ended, k, ops)
                self.say('%s: the program ended with %s' % (ended, rc), cfg, 'property %s\nconfig %s\nseed %d\ntest %s\ncase %d\nops %d\nended with %s\n%s\n%s\n' % (self.pid, cfg, self.seed, ended, k, ops, rc, o[-3000:], (e or err)[:3000]), gen)
        ref = {}; reported = 0
        for cfg, st, info in good:
            for t, (h, n, steps) in info[1].items(): ref.setdefault(t, {}).setdefault(h, []).append((cfg, info[0]))
        for t, hs in ref.items():
            if len(hs) < 2 or reported >= 3: continue
            groups = sorted(hs.values(), key=len, reverse=True); (ca, ea), (cb, eb) = groups[0][0], groups[1][0]
            a, b = self.case_hashes(ea, t, cases), self.case_hashes(eb, t, cases)
            k = min([k for k in a if a[k] != b.get(k)] or [0]); ops = 60
            hash_of = lambda o: (o.rsplit('= ', 1) + [''])[1].split('\n')[0]
            for n in range(0, 61):
                if hash_of(self.transcript(ea, t, k, n)[1]) != hash_of(self.transcript(eb, t, k, n)[1]): ops = n; break
            ta, tb = self.transcript(ea, t, k, ops)[1], self.transcript(eb, t, k, ops)[1]
            dif = [(x, y) for x, y in zip(ta.splitlines(), tb.splitlines()) if x != y][:1] or [('', '')]
            self.say('%s: case %d differs between %s and %s: "%s" / "%s"' % (t, k, ca, cb, dif[0][0][:200], dif[0][1][:200]), cb,
                     'property %s\nconfig %s %s\nseed %d\ntest %s\ncase %d\nops %d\nThe same history observes different things.\n--- %s (as %s)\n%s\n--- %s (as %s)\n%s\n' % (self.pid, ca, cb, self.seed, t, k, ops, ca, ' '.join(x[0] for x in groups[0]), ta, cb, ' '.join(x[0] for x in groups[1]), tb), gen)
            reported += 1
        ev = sum(n for g in good for h, n, s in g[2][1].values()); nt = max([g[2][5] for g in good] or [0]); samples = []
        if good:
            exe, res = good[0][2][0], good[0][2][1]
            for i, t in enumerate(sorted(res)):
                if i % max(1, len(res) // 8) == 0: samples.append((t + ', case 1:' + self.transcript(exe, t, 1, 4)[1]).replace('\n', ' | ')[:700])
        cov = {'evaluations': ev, 'distinct_nontrivial': nt, 'rule': self.spec['rule'], 'samples': samples[:10] or ['(none)'],
               'tests': len(ref), 'operations': sum(s for g in good[:1] for h, n, s in g[2][1].values()),
               'compared': {str(n): sum(1 for t in ref.values() if sum(map(len, t.values())) == n) for n in range(1, len(cfgs) + 1)},
               'configurations': {g[0]: {'evaluations': sum(n for h, n, s in g[2][1].values()), 'build_s': g[2][6], 'run_s': g[2][7], 'flags': ' '.join([CONFIGS[g[0]][0]] + CONFIGS[g[0]][1])} for g in good},
               'generated_programs': getattr(self.genmod, 'SUMMARY', {})}
        e = {'property': self.pid, 'tier': self.tier, 'seed': self.seed, 'level': 'exploration', 'coverage': cov,
             'assumptions': self.spec.get('assumptions', ['x86-64 Linux, libstdc++ 13, g++ 13 and clang++ 18']) + self.notes, 'wall_s': round(time.time() - self.t0, 1), 'violations': len(self.violations)}
        with open(os.path.join(self.mk(os.path.join(HERE, 'evidence')), self.pid + '.json'), 'w') as f: json.dump(e, f, indent=1)
        shutil.rmtree(self.work, ignore_errors=True)
        if self.violations: return 1
        if errors:
            for x in errors: print('ERROR in %s: %s' % (x[0], x[2]), file=sys.stderr)
            return 2
        print('%s held: %d cases, %d distinct non-trivial histories, %d configurations, %.0f s' % (self.pid, ev, nt, len(good), time.time() - self.t0))
        return 0

    def say(self, what, cfg, txt, files):
        kf = [k for k in self.known() if re.search(k['match'], txt)]
        if kf: print('KNOWN-FINDING: property=%s %s' % (self.pid, kf[0]['what'])); return
        p = self.report(what, txt, files); print('%s [%s]' % (what[:600], cfg)); print('VIOLATION property=%s replay=%s' % (self.pid, p))

    def replay(self, path):
        txt = open(path).read(); cfgs = re.search(r'^config (.*)$', txt, re.M).group(1).split()
        get = lambda k, d: (re.search(r'^%s (.*)$' % k, txt, re.M) or [0, d])[1]
        self.seed = int(get('seed', '1')); test, case, ops = get('test', None), get('case', '0'), get('ops', '60')
        g = self.mk(os.path.join(self.work, 'gen')); srcs = [os.path.join(HERE, 'runner', self.spec['runner'])]; self.extra_inc = ['-I' + g]
        for f in glob.glob(path[:-4] + '-*'):
            if f.endswith('.txt'): continue
            n = os.path.join(g, os.path.basename(f)[len(os.path.basename(path)) - 3:]); shutil.copy(f, n)
            if n.endswith('.cpp'): srcs.append(n)
        outs = []
        for c in cfgs:
            exe, bad = self.compile_all(c, srcs)
            if not exe: print('%s does not compile: %s' % (c, short_errors(bad[0][3]))); shutil.rmtree(self.work, ignore_errors=True); return 1
            rc, o, e = self.transcript(exe, test, case, ops) if test else (0, '', ''); print('--- %s ended with %s\n%s\n%s' % (c, rc, o, e[:2000])); outs.append((rc, o))
        shutil.rmtree(self.work, ignore_errors=True)
        return 1 if any(r for r, o in outs) or len({o for r, o in outs}) > 1 else 0

def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('property', nargs='?'); ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--seed', type=int, default=int(os.environ.get('VERIF_SEED', '1') or 1)); ap.add_argument('--replay'); ap.add_argument('--setup', action='store_true')
    a = ap.parse_args()
    if a.setup:
        for c in (GCC, CLANG):
            rc, o, e = run([c, '--version'], 60)
            print(o.splitlines()[0] if o else e)
            if rc: return 1
        load_spec(); return 0
    c = (Differential if load_spec()[a.property].get('differential') else Check)(a.property, a.tier, abs(a.seed))
    if a.replay: return c.replay(a.replay)
    try: return c.main()
    finally: shutil.rmtree(c.work, ignore_errors=True)

if __name__ == '__main__': sys.exit(main())
