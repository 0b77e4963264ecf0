#!/usr/bin/env python3
"""Contract check for one property:  check.py C01 [--thorough] [--keep]

1. compiles the contract file /verif/contracts/<id>.cpp together with the sources of /repo it names to LLVM bitcode,
2. generates and discharges the proof obligations of every vp_contract_* function (tool/engine.py),
3. confirms / replays on the natively compiled code,
4. writes evidence/<id>.json; exit 0 = held, exit 1 + VIOLATION line = broken.
"""
import argparse
import concurrent.futures as cf
import glob
import hashlib
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile
import time

V = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('VP_DEV_REPO', '/repo')   # the override is for trying planted bugs in a scratch copy
PY = '/opt/veriftools/pyvenv/bin/python' if os.path.exists('/opt/veriftools/pyvenv/bin/python') else 'python3-vt'
COMPAT = os.path.join(V, 'native', 'pcl_shared_ptr_compat.hpp')
INC = [os.path.join(REPO, d, 'include') for d in
       ('eigen_ext', 'eigen_gtsam', 'pointcloud_tools', 'serpent', 'eigen_ros', 'imu_tools', 'camera_tools', 'navigation_tools')]
SYS = ['/usr/include/eigen3', '/usr/include/pcl-1.14', '/usr/include/opencv4']
NCPU = os.cpu_count() or 4


def directives(path):
    d = {}
    for line in open(path):
        m = re.match(r'//\s*@(\w+):\s*(.*)', line)
        if m:
            d.setdefault(m.group(1), []).append(m.group(2).strip())
    return d


def base_flags(d):
    f = ['-std=c++17', '-DNDEBUG', '-DPCL_NO_PRECOMPILE', '-w', '-I' + os.path.join(V, 'contracts')]
    for s in d.get('prepend_include', []):
        f.append('-I' + os.path.join(V, s))
    f += ['-I' + i for i in INC if os.path.isdir(i)]
    for i in SYS:
        f += ['-isystem', i]
    f += ['-include', COMPAT, '-include', 'functional', '-include', 'stdexcept']
    for s in d.get('flags', []):
        f += ['-I' + os.path.join(V, x[2:]) if x.startswith('-Icontracts') else x for x in s.split()]
    return f


def run(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace', **kw)


def irdump_bin():
    src = os.path.join(V, 'tool', 'irdump.cpp')
    h = hashlib.sha1(open(src, 'rb').read()).hexdigest()[:12]
    b = os.path.join(V, '_build', 'irdump-' + h)
    if os.path.exists(b):
        return b
    os.makedirs(os.path.dirname(b), exist_ok=True)
    cxx = run(['llvm-config-18', '--cxxflags']).stdout.split()
    cxx = [x for x in cxx if x != '-fno-exceptions']
    ld = run(['llvm-config-18', '--ldflags']).stdout.split()
    tmp = b + '.%d' % os.getpid()
    r = run(['clang++-18'] + cxx + ['-O1', src, '-o', tmp] + ld + ['-lLLVM-18'])
    if r.returncode:
        sys.stderr.write(r.stdout)
        raise SystemExit(3)
    os.rename(tmp, b)
    return b


class Check:
    def __init__(self, pid, tier, keep=False):
        self.pid = pid
        self.tier = tier
        self.seed = int(os.environ.get('VERIF_SEED', '1') or 1)
        self.t0 = time.time()
        self.src = os.path.join(V, 'contracts', pid + '.cpp')
        self.d = directives(self.src)
        self.work = tempfile.mkdtemp(prefix='vp_%s_' % pid)
        self.keep = keep
        self.limit = 780 if tier == 'quick' else 3000
        self.budget = float(self.d.get('budget', ['240'])[0]) * (1 if tier == 'quick' else 4)
        self.native_secs = float(self.d.get('native', ['3'])[0]) * (1 if tier == 'quick' else 15)
        self.stop = False
        self.procs = []

    def left(self):
        return self.limit - (time.time() - self.t0)

    # ---------------------------------------------------------------- builds
    def sources(self):
        out = [self.src]
        for s in self.d.get('sources', []):
            for x in s.split():
                out.append(os.path.join(REPO, x))
        return out

    def build_ir(self):
        flags = base_flags(self.d) + ['-O0', '-Xclang', '-disable-O0-optnone', '-g1', '-emit-llvm', '-c', '-DVP_SYMBOLIC',
                                      '-DEIGEN_DONT_VECTORIZE', '-DEIGEN_DONT_PARALLELIZE', '-ffp-contract=off',
                                      '-fno-use-cxa-atexit', '-fno-threadsafe-statics']
        # assumed contracts of external libraries, written as C++ bodies; part of the verifier's module only
        srcs = self.sources() + [os.path.join(V, 'contracts', 'assumed', x) for s in self.d.get('assumed', []) for x in s.split()]
        outs = [os.path.join(self.work, 'm%d.bc' % i) for i in range(len(srcs))]

        def one(a):
            return run(['clang++-18'] + flags + [a[0], '-o', a[1]])
        with cf.ThreadPoolExecutor(NCPU) as ex:
            rs = list(ex.map(one, zip(srcs, outs)))
        for s, r in zip(srcs, rs):
            if r.returncode:
                return None, 'compilation of %s failed:\n%s' % (s, r.stdout[-3000:])
        js = os.path.join(self.work, 'm.json')
        r = run([irdump_bin(), js] + outs)
        if r.returncode:
            return None, 'irdump failed: ' + r.stdout[-2000:]
        return js, None

    def build_native(self):
        flags = base_flags(self.d) + ['-O1', '-g1', '-fsanitize=address,return', '-fno-sanitize-recover=all', '-fno-omit-frame-pointer',
                                      '-ftrivial-auto-var-init=pattern', '-ffp-contract=off', '-c']
        srcs = self.sources() + [os.path.join(V, 'native', 'vp_native.cpp')]
        outs = [os.path.join(self.work, 'n%d.o' % i) for i in range(len(srcs))]

        def one(a):
            return run(['clang++-18'] + flags + [a[0], '-o', a[1]])
        with cf.ThreadPoolExecutor(NCPU) as ex:
            rs = list(ex.map(one, zip(srcs, outs)))
        for s, r in zip(srcs, rs):
            if r.returncode:
                return None, 'native compilation of %s failed:\n%s' % (s, r.stdout[-3000:])
        libs = []
        for l in self.d.get('libs', []):
            libs += l.split()
        exe = os.path.join(self.work, 'native')
        r = run(['clang++-18', '-fsanitize=address,return', '-rdynamic'] + outs + ['-o', exe, '-ldl'] + libs)
        if r.returncode:
            return None, 'native link failed:\n' + r.stdout[-3000:]
        return exe, None

    # ---------------------------------------------------------------- native
    def nenv(self):
        e = dict(os.environ)
        e['ASAN_OPTIONS'] = 'detect_leaks=0:abort_on_error=0:max_malloc_fill_size=65536:malloc_fill_byte=202:detect_odr_violation=0:allocator_may_return_null=1'
        if 'strings' in self.d:
            e['VP_STRINGS'] = '|'.join(self.d['strings'])
        return e

    @staticmethod
    def parse_fail(out, rc):
        m = re.search(r'FAIL entry=(\S+) label=(\S+) seed=(\d+) why=(.*)', out)
        if m:
            tail = out[m.start():]
            ins = re.findall(r'^INPUT (\S+) (\S+)$', tail, re.M)
            return {'entry': m.group(1), 'label': m.group(2), 'seed': int(m.group(3)), 'why': m.group(4), 'inputs': ins,
                    'output': out[-3000:]}
        if rc not in (0, 2):
            return {'entry': '?', 'label': 'safety/crash', 'seed': 0, 'why': 'exit status %s' % rc, 'inputs': [], 'output': out[-3000:]}
        return None

    def native_rand(self, exe, entry, seed, secs, runs=1000000):
        try:
            r = run([exe, entry, 'rand', str(seed), str(secs), str(runs)], env=self.nenv(), timeout=secs + 60)
        except subprocess.TimeoutExpired:
            return None, 'timeout'
        return self.parse_fail(r.stdout, r.returncode), r.stdout

    def native_replay(self, exe, entry, values):
        p = os.path.join(self.work, 'replay_%s.txt' % entry)
        with open(p, 'w') as f:
            for k, v in values.items():
                f.write('%s %.17g\n' % (k, v))
        try:
            r = run([exe, entry, 'replay', p], env=self.nenv(), timeout=60)
        except subprocess.TimeoutExpired:
            return None
        return self.parse_fail(r.stdout, r.returncode)

    # ---------------------------------------------------------------- verifier
    def verify(self, js, entry, mode, lens, budget):
        out = os.path.join(self.work, 'r_%s_%s_%s.json' % (entry, mode, hashlib.md5(json.dumps(lens).encode()).hexdigest()[:6]))
        if self.stop:
            return {'entry': entry, 'mode': mode, 'error': 'stopped: a violation was already found', 'obligations': [], 'covers': []}
        p = subprocess.Popen([PY, os.path.join(V, 'tool', 'worker.py'), js, entry, mode, json.dumps(lens), str(budget), out],
                             stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace')
        self.procs.append(p)
        try:
            so, _ = p.communicate(timeout=budget + 120)
            if os.path.exists(out):
                return json.load(open(out))
            return {'entry': entry, 'mode': mode, 'error': 'worker died: ' + so[-500:], 'obligations': [], 'covers': []}
        except subprocess.TimeoutExpired:
            p.kill()
            return {'entry': entry, 'mode': mode, 'error': 'time limit', 'obligations': [], 'covers': []}

    def halt(self):
        """a violation with a failing input is established: end the verifier processes that still run"""
        self.stop = True
        for p in self.procs:
            if p.poll() is None:
                p.kill()

    def entries(self):
        txt = open(self.src).read()
        out = []
        for m in re.finditer(r'^(?:CONTRACT\((\w+)\)|extern "C" void vp_contract_(\w+)\(\))', txt, re.M):
            out.append('vp_contract_' + (m.group(1) or m.group(2)))
        for m in re.finditer(r'^//\s*@entries:\s*(.*)$', txt, re.M):
            out += ['vp_contract_' + x for x in m.group(1).split()]
        return sorted(set(out))

    def undischarged(self, r):
        return [o for o in r.get('obligations', []) if o['status'] != 'proved']

    def run(self):
        ents = self.entries()
        res, bounded, undecided, native, violations, degraded = {}, {}, {}, {}, [], []
        lens_sets = [json.loads(x) for x in self.d.get('bounded', ['{}'])]
        bonly = {'vp_contract_' + x for l in self.d.get('boundedonly', []) for x in l.split()}
        pool = cf.ThreadPoolExecutor(NCPU)
        npool = cf.ThreadPoolExecutor(max(2, NCPU // 2))
        fn = pool.submit(self.build_native)
        js, err = self.build_ir()
        fs = {}
        if js is not None:
            fs = {pool.submit(self.verify, js, e, 'unbounded', {}, self.budget): ('u', e) for e in ents if e not in bonly}
            for e in ents:
                if e in bonly:     # contracts stated with a bound: never counted as proved
                    undecided[e] = res[e] = {'error': 'bounded contract (lengths fixed)', 'obligations': []}
                    for ls in lens_sets:
                        fs[pool.submit(self.verify, js, e, 'bounded', ls, self.budget)] = ('b', e)
        exe, nerr = fn.result()
        if js is None:
            degraded.append({'entry': '*', 'reason': err})
        if exe is None:
            degraded.append({'entry': '*', 'reason': nerr})
            if js is None:
                # nothing can be decided about a tree that does not compile with the contracts
                print(err)
                print(nerr)
                self.evidence(res, {}, degraded, [], {})
                return 4

        def nat(e, secs, seed):
            if self.stop:
                return None, ''
            return self.native_rand(exe, e, seed, secs)

        def replays(e, r):
            for o in self.undischarged(r)[:6]:
                if o.get('model') and exe is not None and not self.stop:
                    v = self.native_replay(exe, e, o['model'])
                    if v:
                        v['from'] = 'counterexample of obligation ' + o['label']
                        return v, ''
            return None, ''

        wait_for = []

        def violated(e, v):
            v['entry'] = e
            violations.append(v)
            # give the verifier a little time to name the obligation that fails, then stop
            wait_for.append((e, time.time() + 60))
            if js is None or e in res:
                self.halt()
        if exe is not None:
            for e in ents:
                fs[npool.submit(nat, e, self.native_secs, self.seed)] = ('n', e)
        pending = set(fs)
        while pending:
            done, pending = cf.wait(pending, timeout=2, return_when=cf.FIRST_COMPLETED)
            if wait_for and not self.stop and any(e in res or time.time() > t for e, t in wait_for):
                self.halt()
            for f in done:
                kind, e = fs[f]
                r = f.result()
                if kind == 'n':
                    v, out = r
                    m = re.search(r'OK runs=(\d+) evaluated=(\d+) ensures=(\d+)', out or '')
                    if m:
                        n = native.setdefault(e, {'runs': 0, 'evaluated': 0, 'checks': 0})
                        for k, x in zip(('runs', 'evaluated', 'checks'), m.groups()):
                            n[k] += int(x)
                    if v:
                        violated(e, v)
                    continue
                if kind == 'u':
                    res[e] = r
                else:
                    bounded.setdefault(e, []).append(r)
                if self.stop or violations:
                    continue
                if r['error'] or self.undischarged(r) or not r['obligations']:
                    if exe is not None and self.undischarged(r):
                        g = npool.submit(replays, e, r)
                        fs[g] = ('n', e)
                        pending.add(g)
                    if kind == 'u':
                        undecided[e] = r
                        if self.left() > 60:
                            for ls in lens_sets:
                                g = pool.submit(self.verify, js, e, 'bounded', ls, min(self.budget, max(30, self.left() / 3)))
                                fs[g] = ('b', e)
                                pending.add(g)
                        if exe is not None:
                            g = npool.submit(nat, e, self.native_secs * 4, self.seed + 1000)
                            fs[g] = ('n', e)
                            pending.add(g)
        pool.shutdown()
        npool.shutdown()
        # undischarged without a failing input
        noinput = []
        for e, r in undecided.items():
            if violations:
                break
            bs = bounded.get(e, [])
            if e in bonly:
                r = dict(r, obligations=[o for b in bs for o in b.get('obligations', [])])
                slow = any(b['error'] for b in bs)
            bref = [o for b in bs for o in b.get('obligations', []) if o['status'] == 'refuted']
            bok = bs and all(not b['error'] and b['obligations'] and not self.undischarged(b) for b in bs)
            uref = [o for o in r.get('obligations', []) if o['status'] == 'refuted']
            slow = e in bonly and slow or any(x in str(r['error'] or '') for x in ('time limit', 'stopped', 'time budget'))
            if bref or (uref and not bok and not any(not b['error'] for b in bs)):
                noinput.append((e, (bref or uref)))
            elif not bok and not slow and self.undischarged(r):
                # an obligation that is discharged on the unchanged tree is not discharged here, and no failing input is known;
                # a construct the verifier does not support (no obligation generated) is a limit of the tool, not a violation
                noinput.append((e, self.undischarged(r)))
            else:
                degraded.append({'entry': e, 'reason': r['error'] or ('undischarged: ' + ', '.join(sorted({o['label'] for o in self.undischarged(r)})) if self.undischarged(r) else 'no obligations generated'),
                                 'bounded': [{'lens': b.get('lens'), 'obligations': len(b.get('obligations', [])),
                                              'discharged': sum(o['status'] == 'proved' for o in b.get('obligations', [])),
                                              'error': b['error']} for b in bs]})
        rc = self.report(violations, noinput, res)
        self.evidence(res, bounded, degraded, violations + [{'entry': e, 'label': o[0]['label']} for e, o in noinput], native)
        return rc

    def report(self, violations, noinput, res):
        rc = 0
        rdir = os.path.join(V, 'evidence', 'replay')
        if violations or noinput:
            os.makedirs(rdir, exist_ok=True)
        if violations:
            v = violations[0]
            p = os.path.join(rdir, '%s.txt' % self.pid)
            with open(p, 'w') as f:
                f.write('property %s: obligation %s of %s fails on the real code\n%s\n' % (self.pid, v['label'], v['entry'], v['why']))
                f.write('found by: %s\n' % v.get('from', 'seeded execution (seed %s)' % v['seed']))
                f.write('failing input (replay: build with check.py --keep, then native %s replay FILE):\n' % v['entry'])
                for k, x in v['inputs']:
                    f.write('%s %s\n' % (k, x))
                f.write('\n--- output\n' + v['output'])
                for e, r in res.items():
                    for o in self.undischarged(r)[:20]:
                        f.write('\n--- undischarged obligation %s in %s: %s\n%s\n' % (o['label'], e, o['status'], o['detail']))
            print('obligation failed: %s in %s: %s' % (v['label'], v['entry'], v['why']))
            print('VIOLATION property=%s replay=%s' % (self.pid, p))
            rc = 1
        elif noinput:
            p = os.path.join(rdir, '%s.txt' % self.pid)
            with open(p, 'w') as f:
                for e, os_ in noinput:
                    for o in os_[:20]:
                        f.write('obligation %s in %s: %s\nverifier output: %s\ncounter-model: %s\n\n' % (o['label'], e, o['status'], o['detail'], o['model']))
            print('obligation not discharged: ' + ', '.join('%s in %s' % (o[0]['label'], e) for e, o in noinput))
            print('VIOLATION property=%s replay=%s no-failing-input-found' % (self.pid, p))
            rc = 1
        return rc

    def evidence(self, res, bounded, degraded, violations, native):
        obl = [o for r in res.values() for o in r.get('obligations', [])]
        disc = [o for o in obl if o['status'] == 'proved']
        by = {}
        for o in disc:
            by[o['method'] or '?'] = by.get(o['method'] or '?', 0) + 1
        fns = sorted({tuple(f) for r in res.values() for f in r.get('functions', []) if '/repo/' in f[1]})
        stats = {}
        for r in res.values():
            for k, v in (r.get('stats') or {}).items():
                stats[k] = round(stats.get(k, 0) + v, 3)
        ass = {'IEEE floating point is treated as exact real arithmetic in the proof (rounding, overflow and signed zero are not modelled)',
               'machine integers are treated as mathematical integers',
               'denominators met in the exact polynomial back end are assumed to be non-zero (0/0 is outside the contract)'}
        for r in res.values():
            ass |= set(r.get('assumptions', []))
        covers_need = set()
        for m in re.finditer(r'vp_cover\("([^"]+)"\)', open(self.src).read()):
            covers_need.add(m.group(1))
        covers_got = {c for r in res.values() for c in r.get('covers', [])}
        missing = sorted(covers_need - covers_got)
        if missing and not degraded:
            degraded.append({'entry': '*', 'reason': 'vacuity guard: not reached: ' + ', '.join(missing)})
        cov = {
            'obligations': len(obl), 'discharged': len(disc),
            'checker_cmd': 'python3 /verif/check.py %s%s' % (self.pid, '' if self.tier == 'quick' else ' --thorough'),
            'trusted_base': ['clang 18 front end (C++ to LLVM IR at -O0)', 'tool/irdump.cpp, tool/engine.py, tool/icomp.py, tool/loops.py (verification-condition generator)',
                             'tool/logic.py polynomial normal form', 'Z3 4.x (python bindings)',
                             'contracts assumed for libm, operator new/delete, exceptions, std::string, std::max/min (tool/builtins_vc.py)'],
            'contracts': sorted(res), 'functions_under_contract': ['%s (%s:%d)' % (n, f.replace('/repo/', ''), l) for n, f, l in fns],
            'discharged_by_back_end': by, 'solver_seconds': {'z3': stats.get('z3_time', 0), 'polynomial': stats.get('poly_time', 0)},
            'z3_queries': stats.get('z3_calls', 0), 'paths': sum(r.get('paths', 0) for r in res.values()),
            'ir_instructions_executed': sum(r.get('instructions', 0) for r in res.values()),
            'loops_cut_by_inferred_invariant': sorted({l for r in res.values() for l in r.get('loops', [])}),
            'assumed_external_contracts_used': sorted({c for r in res.values() for c in r.get('contracts_used', [])}),
            'vacuity_covers_reached': sorted(covers_got), 'vacuity_covers_missing': missing,
            'degraded_to_bounded_or_native': degraded,
            'bounded_runs': [{'entry': e, 'lens': b.get('lens'), 'obligations': len(b.get('obligations', [])),
                              'discharged': sum(o['status'] == 'proved' for o in b.get('obligations', [])), 'error': b['error']}
                             for e, bs in bounded.items() for b in bs],
            'native_confirmation': native,
        }
        # evidence level: proof only when every obligation was discharged without a bound
        level = 'proof' if (obl and len(obl) == len(disc) and not degraded and not violations) else 'other'
        if level == 'other':
            cov['explanation'] = ('NOT a complete proof on this run: some contracts were only decided in bounded mode (fixed '
                                  'lengths, all other inputs symbolic) or by native execution; see degraded_to_bounded_or_native')
        ev = {'property': self.pid, 'tier': self.tier, 'seed': self.seed, 'level': level, 'coverage': cov,
              'assumptions': sorted(ass), 'wall_s': round(time.time() - self.t0, 2), 'violations': len(violations)}
        os.makedirs(os.path.join(V, 'evidence'), exist_ok=True)
        with open(os.path.join(V, 'evidence', self.pid + '.json'), 'w') as f:
            json.dump(ev, f, indent=1)
        print('%s: %d/%d obligations discharged, level %s, %.1f s' % (self.pid, len(disc), len(obl), level, ev['wall_s']))
        for d in degraded:
            print('  degraded %s: %s' % (d['entry'], str(d['reason'])[:600]))
            for b in d.get('bounded', []):
                print('     bounded', b)
        for e, n in native.items():
            print('  native %s %s' % (e, n))


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('pid')
    ap.add_argument('--thorough', action='store_true')
    ap.add_argument('--keep', action='store_true')
    a = ap.parse_args()
    tier = 'thorough' if a.thorough or os.environ.get('VERIF_TIER') == 'thorough' else 'quick'
    if a.pid == 'setup':
        irdump_bin()
        return 0
    c = Check(a.pid, tier, a.keep)
    try:
        return c.run()
    except Exception:
        import traceback
        traceback.print_exc()
        return 2
    finally:
        if a.keep:
            print('work directory', c.work)
        else:
            shutil.rmtree(c.work, ignore_errors=True)


if __name__ == '__main__':
    sys.exit(main())
