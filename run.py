#!/usr/bin/env python3
"""Decide one property: run its symbolic harnesses, replay what the solver finds.

    run.py C01 [--tier quick|thorough] [--only HARNESS]
    run.py setup

Exit 0: the property holds within the stated bounds. Exit 1, after a line
`VIOLATION property=<id> replay=<path>`: a counterexample which reproduces
natively. Exit 2: no answer (harness does not build, ran out of time, or a
counterexample did not reproduce). Harnesses which the solver cannot decide within
time, memory and loop bounds (none, on the unchanged tree) are not explored: they
are listed, and count for nothing.
"""
import argparse, json, os, re, shutil, signal, subprocess, sys, time

VERIF = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(VERIF, 'tools'))
from run_common import *

class Check:
    def __init__(self, prop, tier, only=None):
        import config
        self.prop, self.tier, self.only = prop, tier, only
        self.mod = prop.lower()
        self.cfg = config.CHECKS[prop]
        self.start = time.time()
        self.deadline = self.start + (config.QUICK_BUDGET if tier == 'quick' else config.THOROUGH_BUDGET)
        self.harness_timeout = config.QUICK_HARNESS if tier == 'quick' else config.THOROUGH_HARNESS
        self.results = []      # per harness
        self.problems = []     # reasons for no answer
        self.undecided = []    # what the solver did not decide within time, memory and loop bounds: not explored
        self.violations = []
        self.known = []
        self.log = []
        self.tools = {}
        self.replays_tried = 0
        self.smt = None

    def left(self):
        return self.deadline - time.time()

    def say(self, msg):
        print(msg, flush=True)

    # -- Kani ---------------------------------------------------------------

    def features(self):
        return self.mod + (',thorough' if self.tier == 'thorough' else '')

    def kani_env(self, nodebug):
        env = base_env()
        env['CARGO_TARGET_DIR'] = os.path.join(BUILD, 'kani-' + self.mod + ('-nd' if nodebug else ''))
        if nodebug:
            env['CARGO_PROFILE_DEV_DEBUG_ASSERTIONS'] = 'false'
        return env

    def kani(self, nodebug, filters, exact=False, extra=(), jobs=8, timeout=None):
        """Returns (parsed json or None, output)."""
        js = os.path.join(BUILD, 'out-%s-%d.json' % (self.mod, os.getpid()))
        os.makedirs(BUILD, exist_ok=True)
        if os.path.exists(js):
            os.unlink(js)
        cmd = ['cargo', 'kani', '--lib', '--features', self.features(), '-Z', 'stubbing', '-Z', 'unstable-options',
               '--no-assertion-reach-checks', '--export-json', js,
               '--harness-timeout', str(int(timeout or self.harness_timeout))]
        for f in filters:
            cmd += ['--harness', f]
        if exact:
            cmd += ['--exact']
        if jobs > 1:
            cmd += ['--output-format', 'terse', '-j', str(jobs)]
        cmd += list(extra)
        rc, out, timed_out, secs = run(cmd, self.kani_env(nodebug), HARNESS, self.left(), soft=max(10, self.left() * 0.6))
        self.log.append('$ %s\n%s' % (' '.join(cmd), out[-20000:]))
        data = None
        if os.path.exists(js):
            try:
                data = json.load(open(js))
            except ValueError:
                data = None
            os.unlink(js)
        if data is None and timed_out:
            self.problems.append('out of time')
        return data, out

    def collect(self, data, nodebug):
        if not self.tools:
            self.tools = {k: data['tools'].get(k) for k in ('kani', 'rustc', 'cbmc')}
        stats = {c['harness_id']: (c.get('cbmc_stats') or {}, c.get('configuration') or {}) for c in data.get('cbmc', [])}
        meta = {m['pretty_name']: m for m in data.get('harness_metadata', [])}
        out = []
        for r in data['verification_results']['results']:
            hid = r['harness_id']
            s, conf = stats.get(hid, ({}, {}))
            out.append(dict(id=hid, status=r['status'], ms=r['duration_ms'], checks=r.get('checks') or [], stats=s,
                            solver=conf.get('solver'), nodebug=nodebug, meta=meta.get(hid, {})))
        return out

    @staticmethod
    def kind(h):
        return 'panics' if h['id'].split('::')[-1].startswith(('p_', 'tp_')) else 'holds'

    def judge(self, h):
        """('ok'|'bad'|'unwind'|'none', reason, list of suspicious checks)."""
        checks = h['checks']
        if not checks:
            return 'none', 'no result from the solver (time or memory)', []
        fails = [c for c in checks if c['status'] == 'Failure']
        undet = [c for c in checks if c['status'] in ('Undetermined', 'Unknown', 'Error', 'SolverError')]
        covers = [c for c in checks if c['category'] == 'cover']
        unwind = [c for c in fails if 'unwind' in c['category'] or 'unwinding assertion' in c['description']]
        unsupp = [c for c in fails if 'unsupported' in c['category'] or 'is not currently supported' in c['description']]
        fails = [c for c in fails if c not in unwind and c not in unsupp and c['category'] != 'cover']
        if self.kind(h) == 'panics':
            fine = [c for c in fails if c['category'] == 'assertion' and not c['description'].startswith('attempt to')]
            odd = [c for c in fails if c not in fine]
            back = [c for c in covers if c['description'] == 'returned' and c['status'] == 'Satisfied']
            if odd or back:
                return 'bad', 'does not always panic', odd + back
            if unwind:
                return 'unwind', 'loop bound too small', []
            if unsupp:
                return 'none', unsupp[0]['description'], []
            if not fine:
                return 'none', 'vacuous: no panic reached', []
            if undet or not covers:
                return 'none', 'undetermined checks', []
            return 'ok', '', []
        if fails:
            return 'bad', fails[0]['description'], fails
        if unwind:
            return 'unwind', 'loop bound too small', []
        if unsupp:
            return 'none', unsupp[0]['description'], []
        if undet:
            return 'none', 'undetermined checks', []
        if not covers or any(c['status'] != 'Satisfied' for c in covers):
            return 'none', 'vacuous: witness not reached', []
        if h['status'] != 'Success':
            return 'none', 'solver reports ' + h['status'], []
        return 'ok', '', []

    # -- native replay --------------------------------------------------------

    def native(self, variant):
        """Build replay binary. Returns path or None."""
        env = base_env()
        target = os.path.join(BUILD, 'native-%s-%s' % (self.mod, variant))
        env['CARGO_TARGET_DIR'] = target
        feats = self.features()
        args, sub = [], 'debug'
        if variant in ('dev', 'release', 'asan'):
            env['RUSTUP_TOOLCHAIN'] = '1.70.0'
            env['RUSTC'] = PINNED + '/rustc'
        else:
            env['RUSTUP_TOOLCHAIN'] = 'nightly'
        if variant == 'release':
            args, sub = ['--release'], 'release'
        if variant == 'asan':
            env['RUSTFLAGS'] = '-Zsanitizer=address'
            env['RUSTC_BOOTSTRAP'] = '1'
            args, sub = ['--target', 'x86_64-unknown-linux-gnu'], 'x86_64-unknown-linux-gnu/debug'
            feats += ',plain_alloc'
        rc, out, to, _ = run(['cargo', 'build', '--offline', '--ignore-rust-version', '--bin', 'replay', '--features', feats] + args,
                             env, HARNESS, min(400, self.left()))
        exe = os.path.join(target, sub, 'replay')
        if rc != 0 or not os.path.exists(exe):
            self.log.append('native build %s failed\n%s' % (variant, out[-5000:]))
            return None
        return exe

    def replay_one(self, exe, hid, path, timeout=60):
        rc, out, to, _ = run([exe, 'run', hid, path], base_env(), HARNESS, timeout)
        return rc, out, to

    def replay_miri(self, hid, path):
        env = base_env()
        env['RUSTUP_TOOLCHAIN'] = 'nightly'
        env['CARGO_TARGET_DIR'] = os.path.join(BUILD, 'miri-' + self.mod)
        env['MIRIFLAGS'] = '-Zmiri-disable-isolation -Zmiri-permissive-provenance -Zmiri-disable-stacked-borrows -Zmiri-ignore-leaks'
        rc, out, to, _ = run(['cargo', 'miri', 'run', '--offline', '--bin', 'replay', '--features', self.features() + ',plain_alloc',
                              '--', 'run', hid, path], env, HARNESS, min(400, self.left()))
        return rc, out, to

    def reproduces(self, h, path):
        """Name of the native build in which the counterexample shows, or None."""
        panics = self.kind(h) == 'panics'
        order = ['release', 'dev'] if panics else ['dev', 'release', 'nightly', 'asan', 'miri']
        for variant in order:
            if self.left() < 20:
                return None
            if variant == 'miri':
                rc, out, to = self.replay_miri(h['id'], path)
                if 'imaginary memory' in out:
                    h['imaginary'] = True
                    continue
                if 'Undefined Behavior' in out:
                    m = re.search(r'error: (Undefined Behavior.*)', out)
                    return 'miri: ' + (m.group(1) if m else 'undefined behaviour')
                continue
            exe = self.exes.get(variant)
            if variant not in self.exes:
                exe = self.exes[variant] = self.native(variant)
            if not exe:
                continue
            rc, out, to = self.replay_one(exe, h['id'], path)
            self.log.append('replay %s %s: %s\n%s' % (variant, h['id'], rc, out[-2000:]))
            if 'imaginary memory' in out:
                h['imaginary'] = True
            if rc in (77, 78, 79):
                continue
            if panics:
                if rc == 0:
                    return variant + ': returned instead of panicking'
                if rc < 0 and rc != -signal.SIGKILL:
                    return '%s: signal %d' % (variant, -rc)
                continue
            if rc == 101 or rc == 134 or (variant == 'asan' and rc not in (0,)):
                return '%s: %s' % (variant, (re.findall(r"panicked at.*(?:\n.*)?", out) or [out.strip()[-300:]])[0].strip())
            if rc < 0 and not to and not self.cfg.get('fake_memory'):
                return '%s: signal %d %s' % (variant, -rc, out.strip()[-200:])
            if rc < 0 and 'allocator:' in out:
                return '%s: %s' % (variant, out.strip()[-200:])
        return None

    def hangs(self, h):
        """Does the native build not end either on values for which a loop bound was exceeded?"""
        if self.left() < 200:
            return False
        d = os.path.join(VERIF, 'replays', self.prop)
        os.makedirs(d, exist_ok=True)
        path = os.path.join(d, '%s-hang.txt' % h['id'].replace('::', '.'))
        # There is no trace for a loop bound: how many values there are comes from the witness, what they are is tried
        got = self.playback(h, 150)
        if not got:
            return False
        shapes = got[0][2]
        size = lambda v: len(v.split(','))
        number = lambda n, k: ', '.join(str(b) for b in (n % 256 ** k).to_bytes(k, 'little'))
        tries = [shapes]
        if shapes:
            tries += [[number(n, size(v)) for v in shapes] for n in (2**64 - 1, 2**63 - 1, 2**63, 2**40, 2**63 - 16)]
        for vals in tries:
            self.write_values(h, path, 'unwind', 'loop bound exceeded', vals)
            for variant in ('dev', 'release'):
                if variant not in self.exes:
                    self.exes[variant] = self.native(variant)
                if self.exes[variant] and self.left() > 60 and self.replay_one(self.exes[variant], h['id'], path, 20)[2]:
                    self.violations.append(dict(harness=h['id'], replay=path, how='%s build still running after 20 s' % variant,
                                                check='does not end'))
                    return True
            os.unlink(path)
        return False

    def playback(self, h, timeout):
        """Concrete values for each failed assertion of a harness: (category, description, values)"""
        extra = ['-Z', 'concrete-playback', '--concrete-playback=print', '--no-slice-formula']
        if h.get('unwind'):
            extra += ['--unwind', str(h['unwind'])]
        data, out = self.kani(h['nodebug'], [h['id']], exact=True, jobs=1, extra=extra, timeout=timeout)
        found = []
        for m in re.finditer(r'/// Check for `([^`]*)`: (.*)\n(?:.*\n)*?\s*let concrete_vals: Vec<Vec<u8>> = vec!\[\n((?:.*\n)*?)\s*\];', out):
            cat, desc, body = m.group(1), m.group(2), m.group(3)
            vals = re.findall(r'vec!\[([0-9, ]*)\]', body)
            found.append((cat, desc, vals))
        return found

    def write_values(self, h, path, cat, desc, vals):
        with open(path, 'w') as f:
            f.write('# property %s, harness %s\n# solver: %s: %s\n# one symbolic value per line, bytes little endian\n' % (self.prop, h['id'], cat, desc))
            f.write('# replay: cd /verif/harness && cargo run --features %s --bin replay -- run %s <this file>\n' % (self.features(), h['id']))
            for v in vals:
                f.write(v.replace(' ', '') + '\n')

    def confirm(self, h, suspicious):
        """Get concrete values for a failed harness and replay them."""
        self.say('  counterexample in %s: %s' % (h['id'], suspicious[0]['description'] if suspicious else '?'))
        found = self.playback(h, max(60, min(600, self.left())))
        wanted = [c['description'].strip('"') for c in suspicious]
        def rank(f):
            return 0 if f[1].strip('"') in wanted or any(w in f[1] for w in wanted) else 1
        if self.kind(h) == 'panics':
            found = [f for f in found if rank(f) == 0]
        else:
            found = [f for f in found if f[0] != 'cover']
        found.sort(key=rank)
        if not found:
            # Failed without symbolic input: still run it natively
            found = [('assertion', suspicious[0]['description'] if suspicious else '?', [])]
        seen = set()
        d = os.path.join(VERIF, 'replays', self.prop)
        os.makedirs(d, exist_ok=True)
        for i, (cat, desc, vals) in enumerate(found[:6]):
            if tuple(vals) in seen:
                continue
            seen.add(tuple(vals))
            self.replays_tried += 1
            path = os.path.join(d, '%s-%d.txt' % (h['id'].replace('::', '.'), i))
            self.write_values(h, path, cat, desc, vals)
            how = self.reproduces(h, path)
            if how:
                with open(path, 'a') as f:
                    f.write('# reproduced natively: %s\n' % how.replace('\n', ' '))
                return path, how, desc
            os.unlink(path)
        return None

    def rejected(self):
        """Are programs which the property says are legal rejected by the pinned compiler, though all the rest compiles?"""
        def build(feats):
            env = base_env()
            env['CARGO_TARGET_DIR'] = os.path.join(BUILD, 'native-%s-dev' % self.mod)
            env['RUSTUP_TOOLCHAIN'], env['RUSTC'] = '1.70.0', PINNED + '/rustc'
            rc, out, to, _ = run(['cargo', 'build', '--offline', '--ignore-rust-version', '--lib', '--features', feats], env,
                                 HARNESS, min(300, self.left()))
            return rc, out
        rc, out = build(self.features())
        where = re.findall(r'^error.*\n\s*--> (\S+?):\d+', out, re.M)
        if rc == 0 or not where or any(w != 'src/%s.rs' % self.mod for w in where):
            return False
        if build('default')[0] != 0:
            return False
        d = os.path.join(VERIF, 'replays', self.prop)
        os.makedirs(d, exist_ok=True)
        path = os.path.join(d, 'rejected.txt')
        with open(path, 'w') as f:
            f.write('# replay: cd /verif/harness && cargo build --lib --features %s\n%s' % (self.features(), out[-20000:]))
        err = re.search(r'^error.*(?:\n.*){0,3}', out, re.M).group(0)
        self.violations.append(dict(harness='(none)', replay=path, how='pinned compiler: ' + err.replace('\n', ' '), check='legal program is rejected'))
        return True

    # -- all ------------------------------------------------------------------

    def run_kani(self):
        self.exes = {}
        runs = []
        for nodebug, prefix in self.cfg.get('runs', [(False, 'q_')]):
            prefixes = [prefix]
            if self.tier == 'thorough':
                prefixes.append('t' + prefix[0:1].replace('q', '') + '_')
            runs.append((nodebug, prefixes))
        suspects = []
        for nodebug, prefixes in runs:
            filters = ['::' + p for p in prefixes]
            if self.only:
                filters = ['::' + self.only]
            data, out = self.kani(nodebug, filters)
            if data is None or 'verification_results' not in data:
                if 'no harnesses matched' in out.lower():
                    continue
                err = re.findall(r'^error.*(?:\n.*){0,4}', out, re.M)
                if self.cfg.get('must_compile') and self.rejected():
                    continue
                self.problems.append('harness does not build or Kani failed: ' + (err[0] if err else out[-600:]))
                continue
            hs = self.collect(data, nodebug)
            if not hs:
                self.problems.append('no harnesses ran for ' + ','.join(filters))
            for h in hs:
                self.results.append(h)
                h['verdict'], h['reason'], sus = self.judge(h)
                if h['verdict'] == 'bad':
                    suspects.append((h, sus))
        # loop bounds which were too small: perhaps a loop does not end, otherwise raise them
        for h in [h for h in self.results if h['verdict'] == 'unwind'][:2]:
            if self.hangs(h):
                break
        for h in [h for h in self.results if h['verdict'] == 'unwind']:
            if self.violations:
                break
            for bound in (40, 140):
                if self.left() < 60:
                    break
                data, out = self.kani(h['nodebug'], [h['id']], exact=True, jobs=1, extra=['--unwind', str(bound)],
                                      timeout=min(self.left() - 10, 300))
                if data and data.get('verification_results', {}).get('results'):
                    n = self.collect(data, h['nodebug'])[0]
                    h['checks'], h['stats'], h['status'], h['unwind'] = n['checks'], n['stats'], n['status'], bound
                    h['verdict'], h['reason'], sus = self.judge(h)
                    if h['verdict'] == 'bad':
                        suspects.append((h, sus))
                    if h['verdict'] != 'unwind':
                        break
        # confirm, cheapest first, until one reproduces
        suspects.sort(key=lambda x: x[0]['ms'])
        unconfirmed = 0
        for h, sus in suspects:
            k = self.known_finding(h, sus)
            if k:
                h['verdict'] = 'known'
                if k not in self.known:
                    self.known.append(k)
                continue
            if self.violations:
                continue
            if self.left() < 30 or unconfirmed >= 8:
                break
            got = self.confirm(h, sus)
            if not got and self.imaginary(h, sus):
                h['verdict'], h['reason'] = 'skipped', 'code accesses imaginary memory directly: ' + sus[0]['description']
                self.say('  %s skipped: %s' % (h['id'], h['reason']))
                continue
            if got:
                path, how, desc = got
                self.violations.append(dict(harness=h['id'], replay=path, how=how, check=desc))
            else:
                unconfirmed += 1
                h['verdict'], h['reason'] = 'none', 'counterexample did not reproduce natively: ' + h['reason']
        for h in self.results:
            if h['verdict'] in ('none', 'unwind', 'bad') and not self.violations:
                beyond = h['verdict'] == 'unwind' or h['verdict'] == 'none' and not h['checks']
                (self.undecided if beyond else self.problems).append('%s: %s' % (h['id'], h['reason']))
        if self.undecided and not any(h['verdict'] == 'ok' for h in self.results):
            self.problems.append('nothing was decided')

    @staticmethod
    def imaginary(h, sus):
        """Storage in the harness has no memory at the address it reports, and code was found to access it directly,
        which is legitimate, but not something the harness can decide."""
        name = h['id'].split('::')[-1]
        return (h.get('imaginary') or '_rec_' in name or '_model_' in name or '_pattern_' in name) and all(
            'pointer' in c['category'] or 'dereference' in c['description'] for c in sus)

    def known_finding(self, h, sus):
        for line in open(os.path.join(VERIF, 'known_findings.txt')):
            m = re.match(r'finding: property=(\S+) harness=(\S+) check="(.*?)" (.*)', line)
            if m and m.group(1) == self.prop and m.group(2) == h['id'] and all(m.group(3) in c['description'] for c in sus):
                return m.group(4).strip()
        return None

    def evidence(self):
        fns = {}
        for h in self.results:
            for c in h['checks']:
                f = c.get('function') or ''
                if 'ser_raw::' in f or 'ser_raw' in (c.get('location') or {}).get('file', ''):
                    fns[f] = fns.get(f, 0) + 1
        S = lambda k: sum((h['stats'].get(k) or 0) for h in self.results)
        n_checks = sum(len([c for c in h['checks'] if c['category'] != 'cover']) for h in self.results)
        ok = [h for h in self.results if h['verdict'] == 'ok']
        cov = dict(
            explanation='Bounded symbolic checking: each harness is compiled together with the current source of /repo to a CBMC '
                        'program by Kani, unrolled within its bounds, and decided by the SAT back end for all values of its symbolic '
                        'inputs. Loop bounds are checked (unwinding assertions), and each harness has a reachability witness which '
                        'has to be satisfiable. Counterexamples are replayed natively before being reported.',
            symbolic=self.cfg['symbolic'], bounds=self.cfg['bounds'], outside=self.cfg['outside'],
            harnesses=len(self.results), harnesses_decided=len(ok),
            queries_discharged=sum(len([c for c in h['checks'] if c['status'] in ('Success', 'Unreachable') and c['category'] != 'cover']) for h in ok),
            assertions_checked=n_checks, vccs_generated=S('vccs_generated'), vccs_to_solver=S('vccs_remaining'),
            witnesses_satisfied=sum(len([c for c in h['checks'] if c['category'] == 'cover' and c['status'] == 'Satisfied']) for h in self.results),
            solver_seconds=round(S('runtime_decision_procedure_s'), 3), symex_seconds=round(S('runtime_symex_s'), 3),
            program_steps=S('size_program_expression'),
            functions_encoded=sorted(fns), functions_encoded_count=len(fns),
            replays_tried=self.replays_tried, tools=self.tools,
            per_harness=[dict(harness=h['id'], verdict=h['verdict'], debug_assertions=not h['nodebug'],
                              checks=len(h['checks']), vccs=h['stats'].get('vccs_remaining'),
                              solver_s=h['stats'].get('runtime_decision_procedure_s'), ms=h['ms']) for h in self.results],
        )
        if self.smt is not None:
            cov['smt'] = self.smt
        ev = dict(property=self.prop, tier=self.tier, seed=int(os.environ.get('VERIF_SEED', '1')), level='other', coverage=cov,
                  assumptions=self.cfg['assumptions'] + COMMON_ASSUMPTIONS, wall_s=round(time.time() - self.start, 2),
                  violations=len(self.violations))
        if self.problems:
            cov['no_answer'] = self.problems
        if self.undecided:
            cov['undecided'] = self.undecided
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        with open(os.path.join(VERIF, 'evidence', self.prop + '.json'), 'w') as f:
            json.dump(ev, f, indent=1)

    def main(self):
        shutil.rmtree(os.path.join(VERIF, 'replays', self.prop), ignore_errors=True)
        try:
            if self.cfg.get('kani', True):
                self.run_kani()
            if self.cfg.get('smt'):
                import mir_smt
                self.smt = mir_smt.check(self)
        finally:
            self.evidence()
            with open(os.path.join(BUILD, 'log-%s.txt' % self.prop), 'w') as f:
                f.write('\n\n'.join(self.log))
        for k in self.known:
            self.say('KNOWN-FINDING: property=%s %s' % (self.prop, k))
        ok = sum(h['verdict'] == 'ok' for h in self.results)
        self.say('%s %s: %d of %d harnesses hold, %d violations, %d without answer, %.0f s' % (
            self.prop, self.tier, ok, len(self.results), len(self.violations), len(self.problems) + len(self.undecided), time.time() - self.start))
        if self.violations:
            for v in self.violations:
                self.say('  %s: %s\n  native: %s' % (v['harness'], v['check'], v['how']))
                self.say('VIOLATION property=%s replay=%s' % (self.prop, v['replay']))
            return 1
        for u in self.undecided[:20]:
            self.say('  not decided: ' + u[:600])
        if self.problems:
            for p in self.problems[:20]:
                self.say('  no answer: ' + p[:600])
            return 2
        return 0

COMMON_ASSUMPTIONS = [
    'Kani/CBMC model of Rust (MIR of a newer compiler than the pinned one, 64-bit little endian), and its model of malloc/free/memcpy',
    'allocation succeeds (failure of the allocator is out of scope)',
    'single thread',
]

def setup():
    env = base_env()
    for cmd in (['cargo', 'kani', '--version'], ['cbmc', '--version'], ['python3-vt', '-c', 'import z3; print(z3.get_version_string())']):
        rc, out, _, _ = run(cmd, env, HARNESS, 120)
        print(' '.join(cmd), '->', rc, out.strip().splitlines()[-1:] )
        if rc != 0:
            return 1
    return 0

if __name__ == '__main__':
    ap = argparse.ArgumentParser()
    ap.add_argument('what')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--only')
    a = ap.parse_args()
    if a.what == 'setup':
        sys.exit(setup())
    sys.exit(Check(a.what, a.tier, a.only).main())
