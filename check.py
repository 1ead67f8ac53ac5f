#!/usr/bin/env python3
"""Driver: check.py <property> [quick|thorough] | --replay <file> | --build <property>...

Builds /repo's current sources with ASan+UBSan together with the harness of one
property, lets it enumerate its bounded space of executions, and reports."""
import concurrent.futures, hashlib, json, os, re, shutil, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('GC_REPO', '/repo')
BUILD = os.path.join(VERIF, 'build')
EVID = os.path.join(VERIF, 'evidence')
REPLAY = os.path.join(VERIF, 'replay')
KNOWN = os.path.join(VERIF, 'known_findings.txt')
HARN = os.path.join(VERIF, 'harness')

SAN = ['-fsanitize=address,undefined', '-fno-sanitize-recover=undefined', '-fno-omit-frame-pointer']
TSAN = ['-fsanitize=thread', '-fno-omit-frame-pointer']
TSAN_PROPS = ('P28',)
CXXF = ['-std=c++17', '-O1', '-g1', '-w', '-I' + REPO + '/include', '-I' + REPO + '/src_yaml_interface',
        '-I' + REPO + '/src_json_interface', '-I' + HARN] + SAN
LUADIR = REPO + '/src_lua_interface/lua-5.4.6/src'

# property -> modules of the library it needs, extra harness sources
CONF = {
    'P01': ['core'], 'P02': ['core'], 'P03': ['core'], 'P04': ['core'], 'P05': ['core'],
    'P06': ['core'], 'P07': ['core'], 'P08': ['core'], 'P09': ['core'], 'P10': ['core'],
    'P11': ['core'], 'P12': ['core'], 'P13': ['core'], 'P14': ['core', 'json', 'yaml', 'toml'], 'P15': ['core'],
    'P16': ['core', 'json'], 'P17': ['core', 'json'], 'P18': ['core', 'yaml'], 'P19': ['core', 'toml'],
    'P20': ['core', 'lua'], 'P21': ['core'], 'P22': ['core'], 'P23': ['core', 'matlab'], 'P24': ['core', 'json'], 'P25': ['core', 'ruby'], 'P26': ['core'], 'P27': ['core'], 'P28': ['core', 'json', 'yaml', 'toml', 'lua'], 'P29': ['core', 'toml'], 'P30': ['core', 'yaml'], 'P31': ['core'],
}
ASSUME = [
    'values outside the enumerated bounds behave like those inside (the enumeration is complete only within its stated bounds)',
    'the reference model in /verif/harness states the intended behaviour',
    'g++ and its Address/UndefinedBehaviorSanitizer runtime are trusted',
]


def sh_hash(*parts):
    h = hashlib.sha256()
    for p in parts:
        h.update(p if isinstance(p, bytes) else p.encode())
        h.update(b'\0')
    return h.hexdigest()[:32]


def read(p):
    with open(p, 'rb') as f:
        return f.read()


def glob(d, ext):
    return sorted(os.path.join(d, f) for f in os.listdir(d) if f.endswith(ext)) if os.path.isdir(d) else []


def tree_hash(dirs):
    """Hash of everything that a translation unit may include."""
    h = hashlib.sha256()
    src = hashlib.sha256()
    src_included = False
    for d in dirs:
        for base, sub, files in os.walk(d):
            sub.sort()
            for f in sorted(files):
                ext = os.path.splitext(f)[1]
                if ext in ('.o', '.a', '.so', '.md', '.txt', '.m', '.rb', '.html', '.gif', '.css', '.png'):
                    continue
                p = os.path.join(base, f)
                t = read(p)
                if ext in ('.cc', '.c', '.cpp', '.cxx'):
                    src.update(p.encode() + b'\0' + t)
                    src_included = src_included or re.search(rb'#\s*include\s*["<][^">]+\.(cc|c|cpp|cxx)[">]', t) is not None
                else:
                    h.update(p.encode() + b'\0' + t)
    if src_included:
        h.update(src.digest())
    return h.hexdigest()


def module_sources(m):
    if m == 'core':
        return glob(REPO + '/src', '.cc')
    if m == 'matlab':  # without the MEX entry points
        return [s for s in glob(REPO + '/src_matlab_interface', '.cc') if b'mexFunction' not in read(s)]
    return glob(REPO + '/src_%s_interface' % m, '.cc')


def build(prop):
    mods = CONF[prop]
    if 'ruby' in mods:
        return build_ruby(prop)
    os.makedirs(BUILD + '/obj', exist_ok=True)
    hdr = tree_hash([REPO + '/include', REPO + '/src', REPO + '/src_yaml_interface', REPO + '/src_json_interface',
                     REPO + '/src_toml_interface', REPO + '/src_lua_interface', REPO + '/src_matlab_interface', HARN])
    jobs = []
    inc_lua = ['-I' + LUADIR]
    # the vendored fkYAML and toml++ negate INT64_MIN (harmless)
    NOOVF = ['-fno-sanitize=signed-integer-overflow']
    inc_mock = ['-I' + HARN + '/mock']
    EXTRA = {'lua': inc_lua, 'matlab': inc_mock, 'yaml': NOOVF, 'toml': NOOVF}
    for m in mods:
        for s in module_sources(m):
            jobs.append((s, ['g++'] + CXXF + EXTRA.get(m, [])))
    if 'lua' in mods:
        for s in glob(LUADIR, '.c'):
            if os.path.basename(s) not in ('lua.c', 'luac.c'):
                jobs.append((s, ['gcc', '-O1', '-g1', '-w', '-DLUA_USE_LINUX', '-DLUA_USE_APICHECK', '-fsanitize=address']))
    jobs.append((HARN + '/core.cc', ['g++'] + CXXF))
    jobs.append((HARN + '/' + prop.lower() + '.cc', ['g++'] + CXXF + inc_lua + inc_mock))
    # longest first
    jobs.sort(key=lambda j: -os.path.getsize(j[0]))
    san = SAN
    if prop in TSAN_PROPS:  # races instead of addresses
        san = TSAN + ['-pthread']
        jobs = [(src, [c for c in cmd if not c.startswith(('-fsanitize', '-fno-sanitize'))] + TSAN) for src, cmd in jobs]

    def comp(j):
        src, cmd = j
        o = BUILD + '/obj/' + sh_hash(src, ' '.join(cmd), read(src), hdr) + '.o'
        if not os.path.exists(o):
            t = o + '.%d.tmp' % os.getpid()
            r = subprocess.run(cmd + ['-c', src, '-o', t], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
            if r.returncode:
                return src, None, r.stdout.decode('utf8', 'replace')
            os.replace(t, o)
        return src, o, ''
    with concurrent.futures.ThreadPoolExecutor(8) as ex:
        res = list(ex.map(comp, jobs))
    for s, o, e in res:
        if o is None:
            print('BUILD FAILED: %s\n%s' % (s, e[-3000:]))
            sys.exit(2)
    exe = BUILD + '/' + prop + '.' + sh_hash(*[o for _, o, _ in res])
    if not os.path.exists(exe):
        t = exe + '.%d.tmp' % os.getpid()
        r = subprocess.run(['g++'] + san + [o for _, o, _ in res] + ['-o', t] + (['-ldl', '-lm'] if 'lua' in mods else []),
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        if r.returncode:
            print('LINK FAILED\n' + r.stdout.decode('utf8', 'replace')[-3000:])
            sys.exit(2)
        os.replace(t, exe)
    return [exe]


def build_ruby(prop):
    """The library as the Ruby interface loads it (no sanitizer: the interpreter is not instrumented), plus the driver script."""
    os.makedirs(BUILD + '/obj', exist_ok=True)
    hdr = tree_hash([REPO + '/include', REPO + '/src'])
    cmd = ['g++', '-std=c++17', '-O1', '-fPIC', '-w', '-I' + REPO + '/include', '-I' + REPO + '/src']

    def comp(src):
        o = BUILD + '/obj/' + sh_hash(src, ' '.join(cmd), read(src), hdr) + '.o'
        if not os.path.exists(o):
            t = o + '.%d.tmp' % os.getpid()
            r = subprocess.run(cmd + ['-c', src, '-o', t], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
            if r.returncode:
                print('BUILD FAILED: %s\n%s' % (src, r.stdout.decode('utf8', 'replace')[-3000:]))
                return None
            os.replace(t, o)
        return o
    with concurrent.futures.ThreadPoolExecutor(8) as ex:
        res = list(ex.map(comp, module_sources('core')))
    if None in res:
        sys.exit(2)
    so = BUILD + '/libGC.' + sh_hash(*res) + '.so'
    if not os.path.exists(so):
        t = so + '.%d.tmp' % os.getpid()
        r = subprocess.run(['g++', '-shared'] + res + ['-o', t], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        if r.returncode:
            print('LINK FAILED\n' + r.stdout.decode('utf8', 'replace')[-3000:])
            sys.exit(2)
        os.replace(t, so)
    return ['ruby', HARN + '/p25.rb', so, REPO + '/src_ruby_interface/GenericContainer_ffi.rb']


ALLOC_MB = {'P05': 16}


def env(prop):
    e = dict(os.environ)
    e['ASAN_OPTIONS'] = ('detect_leaks=0:quarantine_size_mb=48:max_allocation_size_mb=%d:allocator_may_return_null=0:'
                         'detect_stack_use_after_return=0:handle_abort=1:max_malloc_fill_size=65536:malloc_fill_byte=190:'
                         'strict_init_order=0:print_suppressions=0:symbolize=1:fast_unwind_on_malloc=1:malloc_context_size=6') % ALLOC_MB.get(prop, 1024)
    e['TSAN_OPTIONS'] = 'halt_on_error=0:suppress_equal_stacks=0:suppress_equal_addresses=0:report_signal_unsafe=0:exitcode=0:history_size=4:report_thread_leaks=0'
    e['UBSAN_OPTIONS'] = 'print_stacktrace=1'
    e['LC_ALL'] = 'C'
    return e


def known():
    out = []
    if os.path.exists(KNOWN):
        for l in open(KNOWN, encoding='utf8'):
            m = re.match(r'known: property=(\S+) match=(.*?) \|\| (.*)$', l.strip())
            if m:
                out.append((m.group(1), m.group(2), m.group(3)))
    return out


def tail_err(out, w):
    try:
        t = open('%s/err.%d' % (out, w), errors='replace').read()
    except OSError:
        return ''
    m = [x for x in re.findall(r'(?:ERROR: AddressSanitizer[^\n]*|runtime error:[^\n]*|SUMMARY:[^\n]*|terminate called[^\n]*|what\(\)[^\n]*)', t)]
    return ' / '.join(m[-4:])[:600]


def describe(prop, exe, tier, i):
    r = subprocess.run(exe + ['--only', str(i), '--describe'] + (['--thorough'] if tier == 'thorough' else []),
                       stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, env=env(prop), timeout=600)
    return r.stdout.decode('utf8', 'replace').strip()


def run(prop, tier):
    t0 = time.time()
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    exe = build(prop)
    tb = time.time()
    out = tempfile.mkdtemp(prefix='gcmc-' + prop + '-')
    try:
        cmd = exe + ['--out', out, '--workers', '8'] + (['--thorough'] if tier == 'thorough' else [])
        r = subprocess.run(cmd, env=env(prop), cwd=out)
        if not os.path.exists(out + '/summary.json'):
            print('harness did not finish (exit %d)' % r.returncode)
            sys.exit(2)
        summ = json.load(open(out + '/summary.json'))
        fails = []
        for w in range(8):
            p = '%s/fail.%d' % (out, w)
            if os.path.exists(p):
                for l in open(p, errors='replace'):
                    f = l.rstrip('\n').split('\t')
                    if len(f) == 3:
                        fails.append((int(f[0]), f[1], f[2]))
        hung = False  # one confirmed hang is enough
        for c in summ['crashes']:
            if c['how'] == 'hang' and not hung:
                # confirm alone, with a longer limit
                o2 = out + '/alone'
                os.makedirs(o2, exist_ok=True)
                r2 = subprocess.run(exe + ['--out', o2, '--only', str(c['id']), '--hang', '120'] +
                                    (['--thorough'] if tier == 'thorough' else []), env=env(prop), cwd=o2)
                if r2.returncode == 0:
                    print('note: case %d was slow but finished alone' % c['id'])
                    summ['complete'] = False
                    continue
                hung = True
            fails.append((c['id'], describe(prop, exe, tier, c['id']), 'crash: %s %s' % (c['how'], tail_err(out, c['worker']))))
        states = set()
        for w in range(8):
            p = '%s/states.%d' % (out, w)
            if os.path.exists(p):
                b = read(p)
                states.update(b[i:i + 8] for i in range(0, len(b), 8))
        samples = []
        for w in range(8):
            p = '%s/samples.%d' % (out, w)
            if os.path.exists(p):
                samples += [l.strip() for l in open(p, errors='replace')][:3]
        kf = [k for k in known() if k[0] == prop]
        seen, viol = {}, []
        for f in sorted(fails):
            k = [x for x in kf if x[1] in f[1]]
            if k:
                seen[k[0][1]] = k[0]
            else:
                viol.append(f)
        for k in seen.values():
            print('KNOWN-FINDING: property=%s %s' % (prop, k[2]))
        ev = {
            'property': prop, 'tier': tier, 'seed': seed, 'level': 'model_checking',
            'coverage': {
                'states': len(states), 'transitions': summ['trans'], 'traces_validated_against_impl': summ['done'],
                'exhaustive': bool(summ['complete'] and not viol), 'rule': summ['rule'],
                'samples': samples[:12],
                'conformance': 'every enumerated trace is executed on the real code built from /repo and its observable result compared with the reference model',
            },
            'assumptions': ASSUME, 'wall_s': round(time.time() - t0, 2), 'violations': len(viol),
        }
        os.makedirs(EVID, exist_ok=True)
        with open(EVID + '/' + prop + '.json', 'w') as f:
            json.dump(ev, f, indent=1)
        print('%s %s: %d traces, %d states, %d transitions, build %.1fs, total %.1fs' %
              (prop, tier, summ['done'], len(states), summ['trans'], tb - t0, time.time() - t0))
        if viol:
            os.makedirs(REPLAY, exist_ok=True)
            for n, (i, d, m) in enumerate(viol[:5]):
                p = '%s/%s-%d.json' % (REPLAY, prop, n)
                json.dump({'property': prop, 'tier': tier, 'case': i, 'input': d, 'observed': m,
                           'replay_cmd': 'python3 %s/check.py --replay %s' % (VERIF, p)}, open(p, 'w'), indent=1)
                print('  case %d: %s\n    -> %s' % (i, d[:400], m[:600]))
                print('VIOLATION property=%s replay=%s' % (prop, p))
            return 1
        if not summ['complete']:
            print('exploration incomplete')
            return 2
        return 0
    finally:
        shutil.rmtree(out, ignore_errors=True)


def replay(path):
    r = json.load(open(path))
    exe = build(r['property'])
    out = tempfile.mkdtemp(prefix='gcmc-replay-')
    try:
        p = subprocess.run(exe + ['--out', out, '--only', str(r['case'])] + (['--thorough'] if r['tier'] == 'thorough' else []),
                           env=env(r['property']), cwd=out)
        print(describe(r['property'], exe, r['tier'], r['case']))
        for f in ('fail.0', 'err.0'):
            if os.path.exists(out + '/' + f):
                print(open(out + '/' + f, errors='replace').read()[-4000:])
        return p.returncode
    finally:
        shutil.rmtree(out, ignore_errors=True)


if __name__ == '__main__':
    a = sys.argv[1:]
    if a and a[0] == '--replay':
        sys.exit(replay(a[1]))
    if a and a[0] == '--build':
        for p in a[1:]:
            build(p)
        sys.exit(0)
    tier = a[1] if len(a) > 1 else os.environ.get('VERIF_TIER', 'quick')
    sys.exit(run(a[0], tier))
