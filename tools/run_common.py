"""Shared by run.py and mir_smt.py"""
import os, signal, subprocess, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
HARNESS = os.path.join(VERIF, 'harness')
BUILD = os.path.join(VERIF, '.build')
REPO = '/repo'

PINNED = '/root/.rustup/toolchains/nightly-2023-01-28-x86_64-unknown-linux-gnu/bin'

def base_env():
    env = dict(os.environ)
    env.setdefault('HOME', '/root')
    env['PATH'] = '/root/.cargo/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin'
    for k in ('RUSTUP_TOOLCHAIN', 'RUSTC', 'RUSTDOC', 'RUSTFLAGS', 'RUSTC_WRAPPER', 'CARGO_ENCODED_RUSTFLAGS',
              'CARGO_INCREMENTAL', 'CARGO_PROFILE_DEV_DEBUG', 'CARGO_BUILD_TARGET'):
        env.pop(k, None)
    env['CARGO_NET_OFFLINE'] = 'true'
    env['CARGO_TERM_COLOR'] = 'never'
    env['RUST_BACKTRACE'] = '0'
    return env

def solvers(group):
    """Solver processes of a process group: (pid, age in seconds, resident bytes)"""
    with open('/proc/uptime') as f:
        up = float(f.read().split()[0])
    res = []
    for pid in os.listdir('/proc'):
        if not pid.isdigit():
            continue
        try:
            with open('/proc/%s/stat' % pid) as f:
                st = f.read()
        except OSError:
            continue
        if st[st.index('(') + 1:st.rindex(')')] != 'cbmc':
            continue
        fs = st[st.rindex(')') + 2:].split()
        if int(fs[2]) == group:
            res.append((int(pid), up - int(fs[19]) / os.sysconf('SC_CLK_TCK'), int(fs[21]) * os.sysconf('SC_PAGE_SIZE')))
    return res

def available():
    with open('/proc/meminfo') as f:
        for line in f:
            if line.startswith('MemAvailable:'):
                return int(line.split()[1]) * 1024
    return 1 << 40

def run(cmd, env, cwd, timeout, soft=None, grace=20):
    """Run in its own process group, so that a timeout ends everything it started. Solvers which would use up memory, or
    which have run for `grace` seconds when `soft` seconds are over, are ended, so that there are results of the others."""
    t = time.time()
    p = subprocess.Popen(cmd, env=env, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                         stdin=subprocess.DEVNULL, start_new_session=True)
    timed_out = False
    while True:
        left = max(1, timeout) - (time.time() - t)
        try:
            out, _ = p.communicate(timeout=max(0.1, min(2, left) if soft is not None else left))
            break
        except subprocess.TimeoutExpired:
            if time.time() - t >= max(1, timeout):
                os.killpg(p.pid, signal.SIGKILL)
                out, _ = p.communicate()
                timed_out = True
                break
            if soft is None:
                continue
            ps = solvers(p.pid)
            victims = [x for x in ps if x[1] > grace] if time.time() - t > soft else []
            if not victims and ps and available() < 4 << 30:
                victims = [max(ps, key=lambda x: x[2])]
            for x in victims:
                try:
                    os.kill(x[0], signal.SIGKILL)
                except OSError:
                    pass
    return p.returncode, out.decode('utf8', 'replace'), timed_out, time.time() - t
