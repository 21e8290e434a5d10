"""Builds the harness against /repo's working tree."""
import fcntl, hashlib, os, subprocess
from tlc import ToolError

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = '/repo'
TARGET = os.path.join(VERIF, 'build', 'target')
BINARY = os.path.join(TARGET, 'debug', 'harness')


def _sources():
    for top in (os.path.join(REPO, 'src'), os.path.join(VERIF, 'harness')):
        for d, ds, fs in os.walk(top):
            ds[:] = sorted(x for x in ds if x != 'target')
            for f in sorted(fs):
                yield os.path.join(d, f)
    for f in ('Cargo.toml', 'Cargo.lock', 'build.rs'):
        p = os.path.join(REPO, f)
        if os.path.exists(p):
            yield p


def stamp():
    h = hashlib.sha256()
    for p in _sources():
        h.update(p.encode() + b'\0')
        with open(p, 'rb') as f:
            h.update(f.read() + b'\0')
    return h.hexdigest()


def build():
    os.makedirs(TARGET, exist_ok=True)
    mark = os.path.join(VERIF, 'build', 'stamp')
    with open(os.path.join(VERIF, 'build', 'lock'), 'w') as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        now = stamp()
        if os.path.exists(mark) and os.path.exists(BINARY) and open(mark).read() == now:
            return BINARY
        if os.path.exists(mark):
            os.remove(mark)
        env = dict(os.environ, CARGO_TARGET_DIR=TARGET, CARGO_NET_OFFLINE='true', RUSTFLAGS='',
                   CARGO_TERM_COLOR='never')
        man = ['--offline', '--manifest-path', os.path.join(VERIF, 'harness', 'Cargo.toml')]
        # cargo goes by file times, which copies of the tree do not keep: start the crate anew
        subprocess.run(['cargo', 'clean', '-p', 'scilla-parser'] + man, env=env, capture_output=True)
        p = subprocess.run(['cargo', 'build'] + man, env=env, capture_output=True)
        if p.returncode:
            raise ToolError('the harness does not build:\n' + p.stderr.decode('utf-8', 'replace')[-3000:])
        if stamp() != now:
            raise ToolError('the sources changed while building')
        with open(mark, 'w') as f:
            f.write(now)
    return BINARY
