"""Second engine: executes the storage's functions symbolically from MIR of the current source (mirsym.py, mirspec.py),
for all configurations, states, arguments and element types at once, and replays what z3 finds natively."""
import json, os, re, shutil, subprocess, sys, time
from concurrent.futures import ThreadPoolExecutor
from run_common import *

HERE = os.path.dirname(os.path.abspath(__file__))

def dump(chk, mode):
    """MIR of the crate as text file, or None"""
    env = base_env()
    env['RUSTUP_TOOLCHAIN'] = 'nightly'
    target = os.path.join(BUILD, 'mir-%s-%s' % (chk.mod, mode))
    env['CARGO_TARGET_DIR'] = target
    onoff = 'on' if mode == 'dev' else 'off'
    rc, out, to, _ = run(['cargo', 'rustc', '--offline', '--ignore-rust-version', '--lib', '-p', 'ser_raw', '--', '--emit=mir', '-Zmir-opt-level=0',
                          '-C', 'overflow-checks=' + onoff, '-C', 'debug-assertions=' + onoff, '-A', 'warnings'],
                         env, HARNESS, min(300, chk.left()))
    found = []
    for d, _, fs in os.walk(target):
        found += [os.path.join(d, f) for f in fs if f.startswith('ser_raw-') and f.endswith('.mir')]
    if rc != 0 or not found:
        chk.log.append('MIR dump %s failed\n%s' % (mode, out[-4000:]))
        return None
    return max(found, key=os.path.getmtime)

def native_lib(chk, mode='dev'):
    """(path of rlib, path of dependencies) of the crate, compiled with the pinned compiler"""
    env = base_env()
    sub = 'debug' if mode == 'dev' else 'release'
    env['RUSTUP_TOOLCHAIN'], env['RUSTC'] = '1.70.0', PINNED + '/rustc'
    target = os.path.join(BUILD, 'mir-%s-native' % chk.mod)
    env['CARGO_TARGET_DIR'] = target
    rc, out, to, _ = run(['cargo', 'build', '--offline', '--ignore-rust-version', '--lib', '-p', 'ser_raw'] + ([] if mode == 'dev' else ['--release']), env, HARNESS,
                         min(300, chk.left()))
    deps = os.path.join(target, sub, 'deps')
    libs = [f for f in os.listdir(deps) if re.match(r'libser_raw-\w+\.rlib$', f)] if os.path.isdir(deps) else []
    if rc != 0 or not libs:
        chk.log.append('native library failed\n' + out[-4000:])
        return None
    return max((os.path.join(deps, f) for f in libs), key=os.path.getmtime), deps

def rustc(lib, src, out, mode='dev', emit='link', timeout=120):
    onoff = 'on' if mode == 'dev' else 'off'
    return run([PINNED + '/rustc', '--edition', '2021', '--emit=' + emit, '-C', 'debug-assertions=' + onoff, '-C', 'overflow-checks=' + onoff, '-A', 'warnings',
                '-L', 'dependency=' + lib[1], '--extern', 'ser_raw=' + lib[0], src, '-o', out], base_env(), BUILD, timeout)

CTOR = {'validity': 'storage::AlignedVec::<{SA}, {MVA}, {VA}, {MAX}> as storage::Storage>::new()'}

def ctor_source(label, v):
    g = '{SA}, {MVA}, {VA}, {MAX}'.format(**v)
    typ, fn = ('AlignedVec', 'new') if label == 'validity' else label.split('::')
    if typ == 'AlignedVec':
        e = '<storage::AlignedVec<%s> as storage::Storage>::%s' % (g, fn)
    else:
        e = '%s::<%s, storage::AlignedVec<%s>>::%s' % (typ, g, g, fn)
    e += '()' if fn == 'new' else '(%d)' % v.get('n', 64)
    if fn.endswith('unchecked'):
        e = 'unsafe { %s }' % e
    return ('// %s with an arbitrary configuration\n#![allow(unused)]\nuse ser_raw::*;\nfn main() {\n    std::hint::black_box(&%s);\n}\n' % (label, e))

PUSH = {'push': 's.push::<T>(unsafe { &*(64 as *const T) })', 'push_slice': 's.push_slice::<T>(&[])', 'push_empty': 's.push_empty::<T>()',
        'push_empty_slice': 's.push_empty_slice::<T>(1)', 'align_for': 's.align_for::<T>()'}

def type_source(label, v):
    fn = label.split('::')[-1]
    return ('#![allow(unused)]\nuse ser_raw::storage::*;\n#[repr(C, align(%d))] struct T([u8; %d]);\nfn main() {\n    let mut s = AlignedVec::<%d, %d, %d, %d>::new();\n'
            '    std::hint::black_box(%s);\n}\n' % (v['T_align'], v['T_size'], v['SA'], v['MVA'], v['VA'], v['MAX'], PUSH[fn]))

def valid(v):
    p2 = lambda x: x > 0 and x & (x - 1) == 0
    return (p2(v['SA']) and v['SA'] <= 2**62 and p2(v['MVA']) and v['MVA'] <= v['SA'] and p2(v['VA']) and v['VA'] <= v['MVA'] and
            0 < v['MAX'] <= 2**63 - v['SA'] and v['MAX'] % v['MVA'] == 0)

def compiles(chk, lib, name, text):
    """True / False / None (other error), message"""
    src = os.path.join(BUILD, 'mir-%s-%s.rs' % (chk.mod, name))
    with open(src, 'w') as f:
        f.write(text)
    rc, out, to, _ = rustc(lib, src, src[:-3] + '.o', emit='obj')
    for p in (src, src[:-3] + '.o'):
        if os.path.exists(p):
            os.unlink(p)
    if to:
        return None, 'timeout'
    if rc == 0:
        return True, ''
    if 'E0080' in out:
        m = re.search(r'the evaluated program panicked at \'(.*?)\',', out)
        return False, m.group(1) if m else 'E0080'
    return None, out[-1500:]

def confirm_compile(chk, lib, cand, i):
    """Candidate about acceptance of a configuration"""
    v, label = cand['values'], cand['fn']
    if label.startswith('type::'):
        text, want = type_source(label, v), v['T_align'] <= v['MVA']
    else:
        text, want = ctor_source(label, v), valid(v)
    got, msg = compiles(chk, lib, str(i), text)
    if got is None or got == want:
        chk.log.append('candidate %r: compiles: %r %s' % (cand, got, msg))
        return None
    d = os.path.join(VERIF, 'replays', chk.prop)
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, 'mir-%s-%d.rs' % (re.sub(r'\W+', '-', label), i))
    with open(path, 'w') as f:
        f.write(text + '// %s\n// compiled with the pinned compiler against ser_raw: %s, but should be %s\n' % (
            ' '.join('%s=%d' % x for x in v.items()), 'accepted' if got else 'rejected: ' + msg, 'accepted' if want else 'rejected'))
    return path, 'pinned compiler: ' + ('accepted' if got else 'rejected: ' + msg)

def confirm_run(chk, lib, cand, i):
    v = dict(cand['values'])
    fn = cand['fn']
    oom = fn.startswith('oom-')
    if oom:
        fn = fn[4:]
    if fn not in PUSH and not fn.startswith(('push', 'write', 'read', 'align_')):
        v['T_size'], v['T_align'] = 1, 1
    if fn == 'push_bytes':
        v['T_size'], v['T_align'] = 1, 1
    if not (v['T_align'] and v['T_align'] <= 2**29):
        v['T_size'], v['T_align'] = 1, 1
    consts = ''.join('const %s: usize = %d;\n' % (r, v[k]) for r, k in (('SA', 'SA'), ('MVA', 'MVA'), ('VA', 'VA'), ('MAX', 'MAX'), ('TS', 'T_size'), ('TA', 'T_align'),
                     ('CAP', 'cap'), ('POS', 'pos'), ('N', 'n'), ('AT', 'at'), ('A', 'a')))
    consts += 'const FN: &str = "%s";\nconst FAIL: bool = %s;\n' % (fn, 'true' if oom else 'false')
    with open(os.path.join(HERE, 'mir_replay.rs')) as f:
        text = f.read().replace('@CONSTS@', consts).replace('@TA@', str(v['T_align']))
    d = os.path.join(VERIF, 'replays', chk.prop)
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, 'mir-%s-%d.rs' % (cand['fn'], i))
    with open(path, 'w') as f:
        f.write(text)
    exe = os.path.join(BUILD, 'mir-%s-replay-%d' % (chk.mod, i))
    release = None
    for mode in ('dev', 'release'):
        if mode == 'release':
            release = native_lib(chk, 'release') or lib
        rc, out, to, _ = rustc(release or lib, path, exe, mode)
        if rc != 0:
            chk.log.append('replay of %r does not compile: %s' % (cand, out[-3000:]))
            continue
        rc, out, to, _ = run([exe], base_env(), BUILD, 60)
        os.unlink(exe)
        chk.log.append('replay %s of %r: %s %s' % (mode, cand, rc, out[-500:]))
        if oom and rc < 0 and not to:
            rc, out = 101, out + '\nproperty does not hold: signal %d after a failed allocation' % -rc
        if rc == 101 and 'property does not hold' in out:
            how = '%s: %s' % (mode, out.strip().splitlines()[-1])
            with open(path, 'a') as f:
                f.write('// solver: %s\n// reproduced natively: %s\n' % (cand['label'], how))
            return path, how
    os.unlink(path)
    return None

# Boundary configurations, with which the engine's verdict is compared to the compiler's
TABLE = [(16, 16, 8, 2**63 - 16), (16, 16, 8, 2**63), (16, 16, 8, 0), (16, 16, 32, 64), (16, 32, 8, 64), (1, 1, 1, 1), (1, 1, 1, 2**63 - 1),
         (24, 8, 8, 64), (16, 12, 4, 48), (16, 16, 3, 64), (0, 16, 8, 64), (16, 0, 8, 64), (16, 16, 0, 64), (16, 8, 8, 24), (16, 8, 4, 20), (64, 32, 4, 96),
         (4096, 1, 1, 1), (2**62, 1, 1, 2**62), (2**62, 2**62, 1, 2**62), (2**63, 1, 1, 64)]

def check(chk):
    t0 = time.time()
    res = dict(engine='z3 over MIR of the current source (tools/mirsym.py)', modes=[], functions=[], decided=[], undecided=[], queries=0, solver_seconds=0.0,
               paths=0, replays_tried=0, unconfirmed=[])
    modes = {}
    with ThreadPoolExecutor(3) as ex:
        fd, fr = ex.submit(dump, chk, 'dev'), ex.submit(dump, chk, 'release')
        fl = ex.submit(native_lib, chk)
        modes = {'dev': fd.result(), 'release': fr.result()}
        lib = fl.result()
    env = base_env()
    cases = list_cases(chk.prop)
    budget = max(30, min(chk.cfg.get('smt_budget', 300), chk.left() - 60))
    if chk.tier == 'thorough':
        budget = max(30, min(3600, chk.left() - 60))
    jobs = []
    for mode, path in modes.items():
        if not path:
            res['undecided'].append('no MIR for ' + mode)
            continue
        res['modes'].append(mode)
        for c in cases:
            if mode == 'release' and c in ('%validity', '%constructors', '%types'):
                continue
            jobs.append((mode, path, c))
    # Longest first
    jobs.sort(key=lambda j: 0 if 'push' in j[2] else 1)
    def one(j):
        mode, path, c = j
        e = dict(env, MIR_ONLY=c)
        rc, out, to, _ = run(['python3-vt', os.path.join(HERE, 'mirspec.py'), path, str(budget), chk.prop], e, HERE, budget + 30)
        try:
            return mode, c, json.loads(out[out.index('{'):out.rindex('}') + 1])
        except ValueError:
            return mode, c, dict(stats={}, functions=[], candidates=[], undecided=['%s: engine failed: %s' % (c, out[-300:] if not to else 'out of time')], decided=[])
    cands, fns = [], set()
    with ThreadPoolExecutor(8) as ex:
        for mode, c, r in ex.map(one, jobs):
            res['queries'] += r['stats'].get('queries', 0)
            res['solver_seconds'] += r['stats'].get('solver_s', 0)
            res['paths'] += r['stats'].get('paths', 0)
            res['z3'] = r.get('z3', res.get('z3'))
            fns |= set(r['functions'])
            res['decided'] += ['%s %s' % (mode, x) for x in r['decided']]
            res['undecided'] += ['%s %s' % (mode, x) for x in r['undecided']]
            for x in r['candidates']:
                x['mode'] = mode
                cands.append(x)
    res['functions'] = sorted(re.sub(r'<impl at (\S*/)?(\w+\.rs)[^>]*>', r'<impl in \2>', f) for f in fns)
    res['solver_seconds'] = round(res['solver_seconds'], 2)
    if cands and not lib:
        chk.problems.append('counterexamples found, but the library does not build natively')
    seen = {}
    # Failures of a kind not seen yet first
    first = {}
    for c in cands:
        first.setdefault(c['fn'], []).append(c)
    cands = [l[k] for k in range(max(map(len, first.values()), default=0)) for l in first.values() if k < len(l)]
    for i, c in enumerate(cands):
        if not lib or chk.violations or seen.get(c['fn'], 0) >= 4 or chk.left() < 30:
            continue
        seen[c['fn']] = seen.get(c['fn'], 0) + 1
        res['replays_tried'] += 1
        compile_time = c['fn'] == 'validity' or '::' in c['fn']
        got = (confirm_compile if compile_time else confirm_run)(chk, lib, c, i)
        if got:
            chk.violations.append(dict(harness='MIR of ' + c['fn'], replay=got[0], how=got[1], check=c['label']))
        else:
            res['unconfirmed'].append('%s: %s' % (c['fn'], c['label']))
    if chk.prop == 'C21' and lib:
        table(chk, lib, res)
    res['wall_s'] = round(time.time() - t0, 1)
    chk.say('  MIR engine: %d functions/claims decided, %d undecided, %d candidates, %d queries, %.0f s of solver, %.0f s' % (
        len(res['decided']), len(res['undecided']), len(cands), res['queries'], res['solver_seconds'], res['wall_s']))
    for u in res['undecided'][:5] + res['unconfirmed'][:5]:
        chk.say('    not decided: ' + u[:300])
    if not res['decided'] and not chk.cfg.get('kani', True) and not (chk.prop == 'C21' and lib):
        chk.problems.append('nothing could be decided')
    return res

def list_cases(prop):
    rc, out, _, _ = run(['python3-vt', os.path.join(HERE, 'mirspec.py'), '--list', prop], base_env(), HERE, 60)
    return json.loads(out)

def table(chk, lib, res):
    """Compile boundary configurations"""
    def one(t):
        i, c = t
        v = dict(zip(('SA', 'MVA', 'VA', 'MAX'), c))
        return v, compiles(chk, lib, 'table%d' % i, ctor_source('AlignedVec::new', v))
    n = 0
    with ThreadPoolExecutor(8) as ex:
        for v, (got, msg) in ex.map(one, enumerate(TABLE)):
            if got is None:
                chk.log.append('table %r: %s' % (v, msg))
                continue
            n += 1
            if got != valid(v) and not chk.violations:
                r = confirm_compile(chk, lib, dict(fn='AlignedVec::new', values=v, label='boundary configuration'), 1000)
                if r:
                    chk.violations.append(dict(harness='boundary configuration', replay=r[0], how=r[1], check='acceptance of configuration %r' % v))
    res['compiled_configurations'] = n
    if n == 0:
        chk.problems.append('no configuration could be compiled')
