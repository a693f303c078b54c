"""Shared driver code: builds blend2d from /repo's working tree, compiles a harness, runs it on all cores,
confirms every violation by replaying it, writes the evidence file and decides the exit code."""
import os, sys, re, glob, json, time, subprocess, fcntl, signal, tempfile, shutil, struct, mmap, hashlib

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.environ.get("VERIF_BUILD", os.path.join(VERIF, "build"))
NCPU = int(os.environ.get("VERIF_JOBS", "8"))
TIER = os.environ.get("VERIF_TIER", "quick")
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)

BASE = ("-std=c++17 -DNDEBUG -DBL_STATIC -DBL_BUILD_NO_JIT -DBL_BUILD_NO_STDCXX -DBL_BUILD_OPT_AVX512 "
        "-fno-exceptions -fno-rtti -fno-math-errno -fno-threadsafe-statics -fno-trapping-math -w")
ARCH = {'sse2': '-msse2', 'sse3': '-msse3', 'ssse3': '-mssse3', 'sse4_1': '-msse4.1',
        'sse4_2': '-mpopcnt -mpclmul -msse4.2 -DBL_TARGET_OPT_POPCNT',
        'avx': '-mpopcnt -mpclmul -mavx -DBL_TARGET_OPT_POPCNT',
        'avx2': '-mpopcnt -mpclmul -mbmi -mbmi2 -mavx2 -DBL_TARGET_OPT_POPCNT -DBL_TARGET_OPT_BMI2',
        'avx2fma': '-mpopcnt -mpclmul -mbmi -mbmi2 -mavx2 -mfma -DBL_TARGET_OPT_POPCNT -DBL_TARGET_OPT_BMI2',
        'avx512': '-mpopcnt -mpclmul -mbmi -mbmi2 -mavx512f -mavx512bw -mavx512dq -mavx512cd -mavx512vl -DBL_TARGET_OPT_POPCNT -DBL_TARGET_OPT_BMI2',
        'asimd': '', 'asimd_crypto': ''}
# Slow-to-compile rasterizer units; harnesses that do not render build them without optimization.
HEAVY = re.compile(r'pipeline/reference/fixedpiperuntime|raster/rastercontextops|raster/rastercontext\.|raster/workerproc')

VARIANTS = {
    # name: (compiler, flags, flags of HEAVY units or None for the same)
    'rel':   ('g++', '-O2 -g0', None),
    'asan':  ('clang++', '-O1 -g1 -fsanitize=address -fno-omit-frame-pointer', None),
    'asanl': ('clang++', '-O1 -g1 -fsanitize=address -fno-omit-frame-pointer', '-O0 -g0'),
    'rell':  ('g++', '-O2 -g0', '-O0 -g0'),
    'clang': ('clang++', '-O1 -g0', None),
    'tsan':  ('clang++', '-O1 -g1 -fsanitize=thread -fno-omit-frame-pointer -mllvm -tsan-instrument-memintrinsics=1', None),
    'mc':    ('clang++', '-O1 -g1 -fno-pie -fsanitize=thread -fno-omit-frame-pointer -mllvm -tsan-instrument-memintrinsics=1', None),
    'msan':  ('clang++', '-O1 -g1 -fsanitize=memory -fno-omit-frame-pointer', None),
    'msanl': ('clang++', '-O1 -g1 -fsanitize=memory -fno-omit-frame-pointer', '-O0 -g0 -fsanitize=memory'),
}
HARNESS_FLAGS = {'tsan': '-O1 -g1'}

T0 = time.time()


class CheckError(Exception):
    pass


def log(*a):
    print(*a, flush=True)


def sources():
    out = []
    for s in glob.glob(REPO + '/blend2d/**/*.cpp', recursive=True):
        if re.search(r'_test(_\w+)?\.cpp$', s) or '/jit/' in s:
            continue
        out.append(s)
    return sorted(out, key=lambda s: (0 if HEAVY.search(s) else 1 if '/codec/' in s or 'pngops' in s else 2, s))


def write_if_changed(path, text):
    try:
        if open(path).read() == text:
            return
    except OSError:
        pass
    with open(path, 'w') as f:
        f.write(text)


def build(variant, harnesses=(), defs='', suffix='', harness_flags=None, ldflags='', libflags=''):
    """Builds the library variant and the given harnesses ({name: [sources]}); returns the output directory."""
    cxx, flags, heavy = VARIANTS[variant]
    d = os.path.join(BUILD, variant + suffix)
    os.makedirs(d, exist_ok=True)
    with open(d + '/.lock', 'w') as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        L = [f"rule cxx\n command = {cxx} {BASE} {libflags} -I{REPO} $x -MMD -MF $out.d -c $in -o $out\n depfile = $out.d\n deps = gcc\n description = $out",
             "rule ar\n command = rm -f $out && ar rcs $out $in\n",
             f"rule hcxx\n command = {cxx} -std=c++17 -DBL_STATIC -DNDEBUG -DBL_BUILD_OPT_AVX512 -DBL_BUILD_NO_JIT -fno-exceptions -fno-rtti -w -I{REPO} -I{VERIF}/harness $x -MMD -MF $out.d -c $in -o $out\n depfile = $out.d\n deps = gcc\n",
             f"rule link\n command = {cxx} $x $in -o $out libbl.a -lpthread -lm -lrt $l\n"]
        objs = []
        for s in sources():
            m = re.search(r'_(sse2|sse3|ssse3|sse4_1|sse4_2|avx|avx2|avx2fma|avx512|asimd|asimd_crypto)\.cpp$', s)
            o = 'o_' + s[len(REPO) + 1:].replace('/', '_')[:-4] + '.o'
            fl = heavy if (heavy is not None and HEAVY.search(s)) else flags
            if variant in ('asanl', 'asanr') and s.endswith('/otlayout.cpp'):
                fl = fl.replace('-O1', '-O0')   # contextual lookups match without using the result: keep the reads
            L.append(f"build {o}: cxx {s}\n x = {fl} {ARCH[m[1]] if m else ''}")
            objs.append(o)
        L.append("build libbl.a: ar " + ' '.join(objs))
        hs = dict(harnesses)
        # keep the other harnesses' rules out: ninja only builds what this check needs
        hf = harness_flags if harness_flags is not None else HARNESS_FLAGS.get(variant, flags)
        lf = {'tsan': '-O1', 'mc': '-no-pie'}.get(variant, flags)
        for name, srcs in hs.items():
            ho = []
            for s in srcs:
                p = s if s.startswith('/') else os.path.join(VERIF, 'harness', s)
                o = f"h_{name}_{os.path.basename(p)[:-4]}.o"
                # The model checker's own runtime is never instrumented.
                L.append(f"build {o}: hcxx {p}\n x = {'-O2 -g1 -fno-pie' if p.endswith('mc_rt.cpp') else hf} {defs}")
                ho.append(o)
            L.append(f"build {name}: link {' '.join(ho)} | libbl.a\n x = {lf}\n l = {ldflags}")
        bf = d + '/build_' + ('_'.join(sorted(hs)) or 'lib') + '.ninja'
        write_if_changed(bf, '\n'.join(L) + '\n')
        t = time.time()
        r = subprocess.run(['ninja', '-C', d, '-f', bf, '-j', str(NCPU)] + list(hs) + ['libbl.a'],
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode != 0:
            log('\n'.join([l[:300] for l in r.stdout.split('\n') if 'error' in l or 'FAILED' in l or 'undefined' in l][:15]) or r.stdout[-3000:])
            raise CheckError('build failed')
        log(f"[build {variant}{suffix}: {time.time() - t:.1f} s]")
    return d


ENV = dict(os.environ)
ENV['ASAN_OPTIONS'] = 'detect_leaks=0:abort_on_error=0:exitcode=99:allocator_may_return_null=1:handle_abort=1:detect_stack_use_after_return=0:max_malloc_fill_size=1048576:malloc_fill_byte=190'
ENV['MSAN_OPTIONS'] = 'exitcode=98:abort_on_error=0'
ENV['LC_ALL'] = 'C'


class Result:
    def __init__(self):
        self.stats = {}
        self.samples = []
        self.viols = []     # (key, case, msg)
        self.outcomes = set()
        self.capped = False
        self.hashes = None
        self.notes = []

    def add_stat(self, k, v):
        if k.startswith('max_'):
            self.stats[k] = max(self.stats.get(k, 0), v)
        else:
            self.stats[k] = self.stats.get(k, 0) + v


def _limit():
    import resource
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))


def parse_out(text, res):
    done = False
    for l in text.split('\n'):
        if not l.startswith('@'):
            continue
        p = l.split('\t')
        if p[0] == '@STAT':
            res.add_stat(p[1], int(p[2]))
        elif p[0] == '@SAMPLE':
            if len(res.samples) < 12:
                res.samples.append(p[1])
        elif p[0] == '@VIOL':
            res.viols.append((p[1], p[2], '\t'.join(p[3:])))
        elif p[0] == '@CAPPED':
            res.capped = True
        elif p[0] == '@OUTCOME':
            res.outcomes.add(p[1])
        elif p[0] == '@NOTE':
            if p[1] not in res.notes:
                res.notes.append(p[1])
        elif p[0] == '@DONE':
            done = True
    return done


def run_replay(cmd, case, timeout=120, env=None):
    """Runs one case alone. Returns (kind, key, text): kind is 'ok', 'viol', 'crash' or 'hang'."""
    e = dict(ENV)
    e.update(env or {})
    try:
        r = subprocess.run(cmd + ['--replay', case], stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                           timeout=timeout, env=e, preexec_fn=_limit, errors='replace')
    except subprocess.TimeoutExpired as x:
        o = x.stdout or b''
        if isinstance(o, bytes):
            o = o.decode('utf-8', 'replace')
        return 'hang', 'hang', o
    res = Result()
    done = parse_out(r.stdout, res)
    if res.viols:
        return 'viol', res.viols[0][0], r.stdout
    if not done or r.returncode != 0:
        return 'crash', 'crash', r.stdout
    return 'ok', '', r.stdout


class Check:
    def __init__(self, pid, level='model_checking'):
        self.pid = pid
        self.level = level
        self.res = Result()
        self.viol = []       # confirmed
        self.known_hit = {}
        self.extra = {}
        self.known = []
        kf = os.path.join(VERIF, 'known_findings.jsonl')
        if os.path.exists(kf):
            for l in open(kf):
                l = l.strip()
                if l.startswith('{'):
                    k = json.loads(l)
                    if k.get('property') == pid and k.get('status') == 'known':
                        self.known.append(k)
        self.rundir = tempfile.mkdtemp(prefix=f'vf_{pid}_', dir=os.path.join(VERIF, 'build') if os.path.isdir(BUILD) else None)

    def run(self, binary, args=(), shards=None, timeout=600, env=None, label=''):
        """Runs `binary` in `shards` parallel processes, confirms violations. Returns merged Result of this run."""
        shards = shards or NCPU
        t = time.time()
        base = [binary] + list(args) + ['--tier', TIER, '--seed', str(SEED)]
        merged = Result()
        e = dict(ENV)
        e.update(env or {})

        def start(i):
            prog = os.path.join(self.rundir, f'prog_{label}_{i}')
            with open(prog, 'wb') as f:
                f.truncate(65536)
            outp = open(os.path.join(self.rundir, f'out_{label}_{i}'), 'wb')
            cmd = base + ['--shard', str(i), '--nshards', str(shards), '--progress', prog]
            p = subprocess.Popen(cmd, stdout=outp, stderr=subprocess.STDOUT, env=e, preexec_fn=_limit, start_new_session=True)
            return p, prog, outp

        def finish(p, prog, outp, deadline):
            hang = False
            try:
                p.wait(timeout=max(0.1, deadline - time.time()))
            except subprocess.TimeoutExpired:
                hang = True
            try:
                os.killpg(p.pid, signal.SIGKILL)
            except OSError:
                pass
            p.wait()
            outp.close()
            with open(outp.name, errors='replace') as f:
                text = f.read()
            raw = open(prog, 'rb').read()
            case = raw.split(b'\0', 1)[0].decode('latin1')
            return hang, p.returncode, text, case

        deadline = time.time() + timeout
        ps = [start(i) for i in range(shards)]
        fin = [finish(*x, deadline) for x in ps]
        for i, (hang, rc, text, case) in enumerate(fin):
            r1 = Result()
            done = parse_out(text, r1)
            self._merge(merged, r1)
            for v in r1.viols:
                self._confirm(base, v, env)
            if hang or not done or rc != 0:
                why = 'hang' if hang else f'crash(rc={rc})'
                log(f"[{label} shard {i}: {why} in case {case!r}]")
                kind, key, out = run_replay(base, case, timeout=180 if hang else 120, env=env) if case else ('ok', '', '')
                if kind != 'ok':
                    self._record(key if kind == 'viol' else kind, base, case, f"{why}; replay: {kind}\n" + out[-3000:])
                else:
                    # the case alone is fine: repeat the whole shard, since the failure may need its history
                    x = start(i)
                    hang2, rc2, text2, case2 = finish(*x, time.time() + timeout)
                    r2 = Result()
                    done2 = parse_out(text2, r2)
                    for v in r2.viols:
                        self._confirm(base, v, env)
                    if hang2 or not done2 or rc2 != 0:
                        self._record('crash' if not hang2 else 'hang', base + ['--shard', str(i), '--nshards', str(shards)], '',
                                     f"{why}, reproduced by repeating the shard; case {case2}\n" + text2[-3000:])
                    else:
                        self._merge(merged, r2)
        if merged.capped:
            self.res.capped = True
        self._merge(self.res, merged)
        log(f"[run {label or os.path.basename(binary)}: {time.time() - t:.1f} s, " +
            ', '.join(f'{k}={v}' for k, v in sorted(merged.stats.items())) + (' CAPPED' if merged.capped else '') + ']')
        return merged

    def _merge(self, a, b):
        for k, v in b.stats.items():
            a.add_stat(k, v)
        for s in b.samples:
            if len(a.samples) < 12:
                a.samples.append(s)
        a.outcomes |= b.outcomes
        a.capped |= b.capped
        for n in b.notes:
            if n not in a.notes:
                a.notes.append(n)

    def is_known(self, key, case):
        for k in self.known:
            if k['key'] == key and (k.get('case') in (None, case)):
                return k
        return None

    def _confirm(self, base, v, env=None):
        key, case, msg = v
        k = self.is_known(key, case)
        if k:
            self.known_hit[k['key'] + '|' + str(k.get('case'))] = k
            return
        if sum(1 for x in self.viol) >= 5:
            return
        kind, key2, out = run_replay(base, case, env=env)
        if kind == 'ok':
            log(f"[not reproduced alone: {key} case {case}: {msg}]")
            self.unreproduced = getattr(self, 'unreproduced', []) + [(base, v)]
            return
        self._record(key, base, case, msg + '\n' + out[-3000:])

    def _record(self, key, base, case, text):
        k = self.is_known(key, case)
        if k:
            self.known_hit[k['key'] + '|' + str(k.get('case'))] = k
            return
        self.viol.append((key, base, case, text))

    def finish(self, coverage):
        """Writes evidence, prints the verdict, exits."""
        # Violations that need the preceding history of their process (not reproducible alone).
        for base, v in getattr(self, 'unreproduced', []):
            if not self.viol:
                self.viol.append((v[0], base, v[1], v[2] + ' (needs the preceding history of the shard)'))
        rdir = os.path.join(VERIF, 'evidence', 'replay')
        nviol = len(self.viol)
        cov = dict(coverage)
        cov.setdefault('samples', self.res.samples[:8] or ['(none)'])
        for k, v in self.res.stats.items():
            cov.setdefault(k, v)
        cov['exhaustive_within_bounds'] = not self.res.capped
        if self.res.notes:
            cov['notes'] = self.res.notes
        cov.update(self.extra)
        ev = dict(property=self.pid, tier=TIER if TIER in ('quick', 'thorough') else 'quick', seed=SEED, level=self.level,
                  coverage=cov, wall_s=round(time.time() - T0, 2), violations=nviol)
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        with open(os.path.join(VERIF, 'evidence', self.pid + '.json'), 'w') as f:
            json.dump(ev, f, indent=1)
        shutil.rmtree(self.rundir, ignore_errors=True)
        for k in self.known_hit.values():
            log(f"KNOWN-FINDING: property={self.pid} {k['what']}")
        if self.viol:
            os.makedirs(rdir, exist_ok=True)
            for i, (key, base, case, text) in enumerate(self.viol[:5]):
                path = os.path.join(rdir, f"{self.pid}-{i}.txt")
                with open(path, 'w') as f:
                    f.write(f"property: {self.pid}\nkey: {key}\ncase: {case}\nreplay command: {' '.join(base)} --replay '{case}'\n\n{text}\n")
                log(f"  key={key} case={case} :: {text.splitlines()[0][:300] if text else ''}")
                log(f"VIOLATION property={self.pid} replay={path}")
            sys.exit(1)
        log(f"OK property={self.pid} wall={time.time() - T0:.1f}s")
        sys.exit(0)


def main(pid, fn, level='model_checking'):
    os.makedirs(BUILD, exist_ok=True)
    c = Check(pid, level)
    try:
        cov = fn(c)
    except CheckError as x:
        shutil.rmtree(c.rundir, ignore_errors=True)
        log(f"CHECK-ERROR {x}")
        sys.exit(2)
    c.finish(cov)
