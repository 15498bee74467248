#!/usr/bin/env python3
"""Decides one property of /repo by symbolic execution of its compiled code (see DESIGN.md).

  check.py setup                     build the executor
  check.py PROPERTY [quick|thorough] run the check of that property
  check.py replay FILE               run a recorded counterexample natively
"""
import concurrent.futures as cf, glob, hashlib, json, os, re, shutil, subprocess, sys, tempfile, time
V = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('SYMX_REPO', '/repo')
JOBS = min(8, os.cpu_count() or 1)
sys.path.insert(0, V)
from checks import CHECKS

BCFLAGS = ['-std=c++17', '-O1', '-fno-vectorize', '-fno-slp-vectorize', '-fno-unroll-loops', '-D_GLIBCXX_EXTERN_TEMPLATE=0', '-DNDEBUG', '-w',
           '-isystem', V + '/engine/rt/inc']
NATFLAGS = ['-std=c++17', '-O1', '-w', '-DNDEBUG']

class Broken(Exception):
    """the check could not give an answer"""

def sh(cmd, **kw):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors='replace', **kw)
    return r

def must(cmd, what, **kw):
    r = sh(cmd, **kw)
    if r.returncode: raise Broken('%s failed:\n%s' % (what, (r.stderr or r.stdout)[-3000:]))
    return r

def engine():
    """path of the executor, built when missing or out of date"""
    src = [V + '/engine/symx.cpp', V + '/engine/expr.h']
    h = hashlib.sha256(b''.join(open(p, 'rb').read() for p in src)).hexdigest()[:16]
    out = '%s/build/symx-%s' % (V, h)
    if os.path.exists(out): return out
    os.makedirs(V + '/build', exist_ok=True)
    tmp = '%s.%d' % (out, os.getpid())
    must(['g++', '-std=c++17', '-O2', '-fno-rtti', '-I/usr/lib/llvm-18/include', '-D__STDC_CONSTANT_MACROS', '-D__STDC_LIMIT_MACROS', '-D__STDC_FORMAT_MACROS', '-w',
          src[0], '-o', tmp, '-L/usr/lib/llvm-18/lib', '-lLLVM-18', '-lz3'], 'building the executor')
    os.rename(tmp, out)
    return out

def harnesses(c):
    """the harness files of a check, from its entries harness.entry"""
    return sorted({e.split('.')[0] for e in c['quick'] + c.get('thorough', [])})

class Build:
    """one translation of the current tree into bitcode and into native objects"""
    def __init__(self, work, check):
        self.work, self.check = work, check
        self.inc = ['-I' + V + '/standin', '-I' + REPO + '/include', '-I' + REPO + '/src', '-I' + work + '/gen']
        self.defs = ['-D' + d for d in check.get('defines', [])]
        self.pool = cf.ThreadPoolExecutor(JOBS)

    def generate(self):
        g = self.work + '/gen/mizugaki/parser'; os.makedirs(g, exist_ok=True)
        a = self.pool.submit(must, ['bison', '-d', '-Wno-all', '--no-lines', '-o', 'mizugaki/parser/sql_parser_generated.cpp', REPO + '/src/mizugaki/parser/sql_parser.yy'], 'bison', cwd=self.work + '/gen')
        b = self.pool.submit(must, ['flex', '-Cfe', '-L', '-o', 'mizugaki/parser/sql_scanner_generated.cpp', REPO + '/src/mizugaki/parser/sql_scanner.ll'], 'flex', cwd=self.work + '/gen')
        a.result(); b.result()

    def sources(self):
        if self.check.get('sources') == 'options':
            r = [REPO + '/src/mizugaki/parser/sql_parser_options.cpp', REPO + '/src/mizugaki/ast/statement/identity_column_restart_option.cpp']
            return [p for p in r if os.path.exists(p)]
        if self.check.get('sources') == 'none': return []
        r = []
        for d in ('ast', 'parser'): r += glob.glob('%s/src/mizugaki/%s/**/*.cpp' % (REPO, d), recursive=True)
        r += glob.glob(REPO + '/src/mizugaki/*.cpp')
        r += glob.glob(self.work + '/gen/mizugaki/parser/*.cpp')
        for extra in self.check.get('extra', []): r += glob.glob(REPO + '/' + extra, recursive=True)
        # largest first: better balance over the cores
        return sorted(set(r), key=lambda p: -os.path.getsize(p))

    def needs_grammar(self): return self.check.get('sources') not in ('options', 'none')

    def headers(self):
        """hash of every header a translation unit may read"""
        if not getattr(self, 'hh', None):
            h = hashlib.sha256()
            roots = [V + '/standin', V + '/engine/rt/inc', REPO + '/include', REPO + '/src', self.work + '/gen']
            for root in roots:
                for p in sorted(glob.glob(root + '/**/*', recursive=True)):
                    if os.path.isfile(p) and not p.endswith(('.cpp', '.yy', '.ll')): h.update((p[len(root):] + '\0').encode()); h.update(open(p, 'rb').read())
            self.hh = h.hexdigest()
        return self.hh

    def compile_cached(self, cmd, src, out, what):
        """compiles src to out, reusing an object of identical source, headers and flags"""
        k = hashlib.sha256((self.headers() + '\0' + '\0'.join(c.replace(self.work, '') for c in cmd)).encode() + open(src, 'rb').read()).hexdigest()[:32]
        c = '%s/build/obj/%s' % (V, k)
        try:
            shutil.copyfile(c, out); return
        except OSError: pass
        must(cmd, what)
        try:
            os.makedirs(V + '/build/obj', exist_ok=True)
            tmp = '%s.%d' % (c, os.getpid()); shutil.copyfile(out, tmp); os.rename(tmp, c)
        except OSError: pass

    def compile_all(self, mode, extra=()):
        """mode: bc or nat"""
        d = '%s/%s' % (self.work, mode); os.makedirs(d, exist_ok=True)
        jobs = []
        for s in self.sources():
            o = '%s/%s.%s' % (d, s.replace('/', '_'), 'bc' if mode == 'bc' else 'o')
            fl = (BCFLAGS + ['-emit-llvm'] if mode == 'bc' else NATFLAGS) + self.inc + self.defs + list(extra)
            jobs.append((o, ['clang++'] + fl + ['-c', s, '-o', o], s))
        for n in reversed(harnesses(self.check)):
            hs = '%s/harness/%s.cpp' % (V, n); pre = self.inc + self.defs + ['-DSYMX_PREFIX=' + n]
            if mode == 'bc': jobs.insert(0, ('%s/h-%s.bc' % (d, n), ['clang++'] + BCFLAGS + ['-emit-llvm'] + pre + ['-c', hs, '-o', '%s/h-%s.bc' % (d, n)], hs))
            else: jobs.insert(0, ('%s/h-%s.o' % (d, n), ['clang++'] + NATFLAGS + pre + list(extra) + ['-c', hs, '-o', '%s/h-%s.o' % (d, n)], hs))
        if mode == 'bc':
            jobs.insert(0, (d + '/rt.bc', ['clang++'] + BCFLAGS + ['-emit-llvm', '-fno-builtin', '-c', V + '/engine/rt/runtime.cpp', '-o', d + '/rt.bc'], 'runtime'))
        else:
            jobs.insert(0, (d + '/rt.o', ['clang++'] + NATFLAGS + list(extra) + ['-c', V + '/engine/replay_rt.cpp', '-o', d + '/rt.o'], 'replay runtime'))
        if self.sources(): self.headers()
        fs = [(o, self.pool.submit(self.compile_cached, c, n, o, 'compiling ' + n) if os.path.exists(n) and '/harness/' not in n else self.pool.submit(must, c, 'compiling ' + n)) for o, c, n in jobs]
        return [(o, f) for o, f in fs]

    def bitcode(self):
        if self.needs_grammar(): self.generate()
        objs = self.compile_all('bc')
        for _, f in objs: f.result()
        out = self.work + '/prog.bc'
        must(['llvm-link'] + [o for o, _ in objs] + ['-o', out], 'llvm-link')
        return out

    def native(self, extra=(), name='replay'):
        objs = self.compile_all('nat' if not extra else 'san', extra)
        for _, f in objs: f.result()
        out = '%s/%s' % (self.work, name)
        must(['clang++', '-rdynamic'] + list(extra) + [o for o, _ in objs] + ['-ldl', '-o', out], 'linking the native program')
        return out

def run_native(prog, entry, values, work, timeout=60, trace=False):
    fd, p = tempfile.mkstemp(dir=work); os.write(fd, ''.join('%d\n' % v for _, v in values).encode()); os.close(fd)
    env = dict(os.environ, ASAN_OPTIONS='detect_leaks=0:halt_on_error=1', UBSAN_OPTIONS='halt_on_error=1:print_stacktrace=0')
    if trace: env['SYMX_TRACE'] = '1'
    try: r = sh([prog, entry, p], timeout=timeout, env=env, cwd=work)
    except subprocess.TimeoutExpired: return 'timeout', ''
    finally: os.unlink(p)
    return r.returncode, r.stdout + (r.stderr if trace or r.returncode not in (0, 1, 77) else '')

def known_findings(prop):
    """entries 'finding: property=<id> entry=<entry> message=<message>' of known-findings.txt"""
    out = []
    p = V + '/known-findings.txt'
    if os.path.exists(p):
        for line in open(p):
            m = re.match(r'finding: property=(\S+) entry=(\S+) message="(.*?)"(?: when (\S+)=(\S+))? -- (.*)', line.strip())
            if m and m.group(1) == prop: out.append(m.groups())
    return out

def check(prop, tier):
    t0 = time.time(); c = CHECKS[prop]
    if not c: raise Broken('no such property')
    entries = [e.replace('.', '__') for e in c['quick'] + (c.get('thorough', []) if tier == 'thorough' else [])]
    budget = 760 if tier == 'quick' else 3000
    work = tempfile.mkdtemp(prefix='symx-')
    try:
        b = Build(work, c)
        eng_f = b.pool.submit(engine)
        prog = b.bitcode(); eng = eng_f.result()
        nat_f = cf.ThreadPoolExecutor(1).submit(b.native)   # builds while the executor runs
        t1 = time.time(); out = work + '/out.json'
        left = budget - (t1 - t0) - 120
        lim = c.get('limits', [])
        r = sh([eng, '-j', str(JOBS), '-t', str(int(left)), '--samples', '6', '-o', out] + lim + [prog] + entries)
        if r.returncode or not os.path.exists(out): raise Broken('executor failed (%s): %s' % (r.returncode, r.stderr[-2000:]))
        d = json.load(open(out)); t2 = time.time()
        if d['incomplete'] and ('unsupported' in d['incomplete'] or 'died' in d['incomplete']) and not d['violations']: raise Broken('exploration incomplete: ' + d['incomplete'])
        nat = nat_f.result()
        confirmed, known, dropped = [], [], []
        for v in d['violations']:
            if any(x['entry'] == v['entry'] and x['message'] == v['message'] for x in confirmed): continue
            rc, txt = run_native(nat, v['entry'], v['values'], work)
            if rc == 0 and ('memory' in v['message'] or 'free' in v['message'] or 'undefined' in v['message'] or 'overflow' in v['message']):
                san = ['-fsanitize=address,undefined', '-fno-sanitize-recover=all', '-fno-omit-frame-pointer']
                nat2 = getattr(b, 'san', None) or b.native(san, 'replay-san'); b.san = nat2
                rc, txt = run_native(nat2, v['entry'], v['values'], work)
            if rc in (0, 77): dropped.append((v, rc)); continue
            v['native'] = {'exit': rc, 'output': txt[-600:]}
            k = [f for f in known_findings(prop) if f[1] == v['entry'] and f[2] == v['message'] and (not f[3] or any(n == f[3] and str(x) == f[4] for n, x in v['values']))]
            if k: known.append((v, k[0]))
            else: confirmed.append(v)
        # sampled paths: the native program has to agree with the executor
        validated, mism, samples = 0, [], []
        with cf.ThreadPoolExecutor(JOBS) as ex:
            for m, (rc, txt) in zip(d['samples'], ex.map(lambda m: run_native(nat, m['entry'], m['values'], work), d['samples'])):
                trail = ''.join(l[6:] + ';' for l in txt.splitlines() if l.startswith('REACH '))
                if rc == 0 and trail == m['trail']: validated += 1
                else: mism.append({'sample': m, 'native': (rc, txt[-400:])})
                if len(samples) < 12: samples.append({'entry': m['entry'], 'values': {'%s#%d' % (n, i): x for i, (n, x) in enumerate(m['values'])}, 'trail': m['trail']})
        missing = [e for e in entries if not any(k.startswith(e + ':') for k in d['reach'])]
        need = [x for x in c.get('reach', []) if x.split(':')[0] in entries and x not in d['reach']]
        fn = sorted(f for f in d['functions'] if 'mizugaki' in f)
        ev = {'property': prop, 'tier': tier, 'seed': int(os.environ.get('VERIF_SEED', '1') or 1), 'level': 'model_checking',
              'coverage': {'states': d['paths'], 'transitions': d['instructions'], 'traces_validated_against_impl': validated, 'samples': samples,
                           'meaning': 'states: feasible path classes of the symbolic execution, each standing for every input that satisfies its path condition; transitions: LLVM instructions executed symbolically; traces_validated_against_impl: solver models of finished paths run on the natively compiled code with the same outcome',
                           'entries': entries, 'reached': d['reach'], 'bounds': c['bounds'], 'outside': c.get('outside', ''),
                           'functions_encoded': len(fn), 'functions_encoded_sample': fn[:60], 'complete_within_bounds': d['complete'], 'incomplete_reason': d['incomplete'],
                           'solver': {'name': 'z3', 'queries': d['queries'], 'path_split_obligations_discharged': d['certified'], 'unknown': d['unknown'], 'seconds': round(d['solver_s'], 3)},
                           'assertions_checked': d['asserts'], 'assertions_with_symbolic_condition': d['symbolic_asserts'],
                           'forks': d['forks'], 'inputs_excluded_by_assumptions': d['assume_ends'], 'max_symbolic_inputs_on_a_path': d['max_symbols'],
                           'known_findings_seen': len(known), 'unconfirmed': len(dropped), 'executor_s': round(t2 - t1, 2), 'build_s': round(t1 - t0, 2)},
              'assumptions': c.get('assumptions', []) + COMMON_ASSUMPTIONS, 'wall_s': round(time.time() - t0, 2), 'violations': len(confirmed)}
        os.makedirs(V + '/evidence', exist_ok=True)
        with open('%s/evidence/%s.json' % (V, prop), 'w') as f: json.dump(ev, f, indent=1)
        for v, k in known: print('KNOWN-FINDING: property=%s %s' % (prop, k[5]))
        if confirmed:
            os.makedirs(V + '/replays', exist_ok=True)
            for i, v in enumerate(confirmed):
                p = '%s/replays/%s-%d.json' % (V, prop, i)
                with open(p, 'w') as f: json.dump({'property': prop, **v}, f, indent=1)
                print('%s: %s\n  inputs: %s\n  at: %s\n  native run: exit %s %s' % (v['entry'], v['message'], ' '.join('%s=%s' % (n, x) for n, x in v['values'][:60]), v['where'][:300], v['native']['exit'], v['native']['output'].strip()[-200:]))
                print('VIOLATION property=%s replay=%s' % (prop, p))
            return 1
        if dropped: raise Broken('a counterexample does not reproduce natively (%s): %s' % (dropped[0][1], json.dumps(dropped[0][0])[:1500]))
        if mism: raise Broken('the executor and the native program disagree: ' + json.dumps(mism[0])[:1500])
        if missing or need: raise Broken('vacuous: never reached %s' % (missing + need))
        if d['unknown']: raise Broken('the solver gave up on %d queries' % d['unknown'])
        print('%s held: %d path classes, %d instructions, %d assertions, %d solver queries (%.1f s), %d native validations, complete=%s, %.0f s' % (prop, d['paths'], d['instructions'], d['asserts'], d['queries'], d['solver_s'], validated, d['complete'], time.time() - t0))
        return 0
    finally:
        shutil.rmtree(work, ignore_errors=True)

COMMON_ASSUMPTIONS = [
    'takatori headers are absent from this sandbox: /verif/standin implements the interfaces that the parser and the tree use',
    'clang 18 at -O1 translates the C++ to LLVM IR; libstdc++ headers are executed as compiled, iostreams and ctype in the C locale are replaced by engine/rt',
    'allocation never fails; single thread',
]

def replay(path):
    v = json.load(open(path)); c = CHECKS[v['property']]; work = tempfile.mkdtemp(prefix='symx-')
    try:
        b = Build(work, c)
        if b.needs_grammar(): b.generate()
        san = ['-fsanitize=address,undefined', '-fno-sanitize-recover=all'] if v['native']['exit'] != 1 else []
        rc, txt = run_native(b.native(san), v['entry'], v['values'], work, trace=True)
        print(txt); print('exit', rc); return 1 if rc not in (0, 77) else 0
    finally: shutil.rmtree(work, ignore_errors=True)

def setup():
    """builds the executor and fills the object cache for the current tree"""
    print(engine())
    work = tempfile.mkdtemp(prefix='symx-')
    try:
        for c in {json.dumps([x.get('defines', []), x.get('sources'), x.get('extra', [])]): x for x in CHECKS.values()}.values():
            b = Build(work, c)
            if b.needs_grammar(): b.generate()
            for mode in ('bc', 'nat'):
                for _, f in b.compile_all(mode): f.result()
    except Broken as e: print('warning: %s' % e)   # the checks report what does not build
    finally: shutil.rmtree(work, ignore_errors=True)
    return 0

def main():
    a = sys.argv[1:]
    try:
        if a[:1] == ['setup']: return setup()
        if a[:1] == ['replay']: return replay(a[1])
        return check(a[0], a[1] if len(a) > 1 else os.environ.get('VERIF_TIER', 'quick'))
    except Broken as e:
        print('CHECK-ERROR: %s' % e, file=sys.stderr); return 2
if __name__ == '__main__': sys.exit(main())
