"""Runs requests through the real code."""
import json, os, resource, signal, subprocess
import build
from tlc import ToolError


def _limit():
    resource.setrlimit(resource.RLIMIT_AS, (20 << 30, 20 << 30))
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))


def _once(lines, threads, limit, stack, cwd, verbose):
    cmd = [build.BINARY, '-j', str(threads), '-t', str(limit), '-k', str(stack)] + (['-v'] if verbose else [])
    env = dict(os.environ, RUST_BACKTRACE='0')
    p = subprocess.run(cmd, input='\n'.join(lines).encode() + b'\n', capture_output=True, env=env,
                       preexec_fn=_limit, cwd=cwd)
    got = {}
    for line in p.stdout.split(b'\n'):
        if not line:
            continue
        try:
            r = json.loads(line)
        except ValueError:
            continue                      # cut off by an abort
        got[r['id']] = r
    begun = [x[6:] for x in p.stderr.decode('utf-8', 'replace').split('\n') if x.startswith('BEGIN ')]
    return p.returncode, got, begun


def run(requests, threads=8, limit=20, stack=8192, cwd=None):
    """requests: (op, arg, input text) -> results in the same order. A request under which the
    process dies or hangs gets the result {"res": "abort" or "hang"}."""
    build.build()
    lines = {}
    for i, (op, arg, inp) in enumerate(requests):
        lines[str(i)] = '%d\t%s\t%s\t%s' % (i, op, arg, inp)
    res, left = {}, list(lines)
    crashes = 0
    while left:
        code, got, _ = _once([lines[i] for i in left], threads, limit, stack, cwd, False)
        res.update(got)
        left = [i for i in left if i not in res]
        if code == 0:
            if left:
                raise ToolError('the harness lost requests')
            break
        if not left:
            break
        # find out which request ends the process, one thread at a time
        code, got, begun = _once([lines[i] for i in left], 1, limit, stack, cwd, True)
        res.update(got)
        left2 = [i for i in left if i not in res]
        if code != 0 and left2 and begun and begun[-1] in left2:
            res[begun[-1]] = {'id': begun[-1], 'res': 'abort', 'out': 'abort',
                              'msg': 'process ended with %d' % code}
            left2.remove(begun[-1])
        left = left2
        crashes += 1
        if crashes >= 5:
            for i in left:
                res[i] = {'id': i, 'res': 'unknown', 'out': 'unknown', 'msg': 'not run'}
            break
    return [res[str(i)] for i in range(len(requests))]


def hexed(text):
    return text.encode('utf-8').hex()
