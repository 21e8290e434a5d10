"""Runs TLC and reads its verdict."""
import os, re, subprocess, tempfile, shutil, time

SPEC = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'spec')
JARS = '/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar'


class ToolError(Exception):
    pass


class Result:
    def __init__(self, code, out, wall):
        self.code, self.out, self.wall = code, out, wall
        m = re.findall(r'(\d+) states generated, (\d+) distinct states found', out)
        m = m or re.findall(r'Progress.*?: ([\d,]+) states checked', out)
        self.generated = self.distinct = 0
        if m:
            if isinstance(m[-1], tuple):
                self.generated, self.distinct = int(m[-1][0]), int(m[-1][1])
            else:
                self.generated = int(m[-1].replace(',', ''))
        self.violated = None
        if 'Temporal properties were violated' in out:
            self.violated = 'Temporal'
        v = re.search(r'Invariant (\w+) is violated|Action property (\w+) is violated', out)
        if v:
            self.violated = v.group(1) or v.group(2)
        elif 'Deadlock reached' in out:
            self.violated = 'Deadlock'

    def last_state(self):
        """The variables of the last state of the counterexample, as text."""
        i = self.out.rfind('\nState ')
        if i < 0:
            i = self.out.find('is violated by the initial state')
            if i < 0:
                return {}
        part = self.out[i:]
        part = part[part.index('\n', 1):] if part.startswith('\n') else part[part.index('\n'):]
        part = re.split(r'\n\n|\nThe |\n\d+ states generated', part.strip('\n') + '\n\n')[0]
        res, cur = {}, None
        for line in part.split('\n'):
            m = re.match(r'(?:/\\ )?(\w+) = (.*)', line)
            if m and (line.startswith('/\\') or cur is None):
                cur = m.group(1)
                res[cur] = m.group(2)
            elif cur:
                res[cur] += ' ' + line.strip()
        return res

    def printed(self, tag):
        """Strings printed as PrintT(<<tag, json>>) or PrintT("tag json")."""
        pre = '"%s ' % tag
        return [unquote(x[len(pre):-1]) for x in self.out.split('\n') if x.startswith(pre)]


def unquote(s):
    return s.replace('\\"', '"').replace('\\\\', '\\')


def run(module, cfg=None, env=None, workers=8, simulate=None, depth=None, seed=None, heap='12g',
        timeout=800, extra=(), deadlock=True, dfs=False):
    d = tempfile.mkdtemp(prefix='tlc-')
    try:
        cmd = ['java', '-Xss512m', '-Xmx' + heap, '-XX:+UseParallelGC', '-Dfile.encoding=UTF-8',
               '-Dstdout.encoding=UTF-8', '-Djava.io.tmpdir=' + d,
               '-cp', JARS, 'tlc2.TLC', '-metadir', os.path.join(d, 'states'), '-workers', str(workers),
               '-config', os.path.join(SPEC, cfg or module + '.cfg'), '-noGenerateSpecTE']
        if not deadlock:
            cmd.append('-deadlock')
        if simulate:
            cmd += ['-simulate', 'num=%d' % simulate]
        if depth:
            cmd += ['-depth', str(depth)]
        if seed is not None:
            cmd += ['-seed', str(seed)]
        cmd += list(extra) + [os.path.join(SPEC, module + '.tla')]
        e = dict(os.environ)
        e.update(env or {})
        t = time.time()
        try:
            p = subprocess.run(cmd, cwd=d, env=e, capture_output=True, timeout=timeout)
        except subprocess.TimeoutExpired:
            raise ToolError('TLC did not finish within %d s on %s' % (timeout, module))
        out = p.stdout.decode('utf-8', 'replace') + p.stderr.decode('utf-8', 'replace')
        out = '\n'.join(x for x in out.split('\n') if not x.startswith(('Parsing file', 'Semantic processing')))
        r = Result(p.returncode, out, time.time() - t)
        if p.returncode not in (0, 11, 12, 13):
            raise ToolError('TLC failed on %s (%d):\n%s' % (module, p.returncode, out[-1500:]))
        if p.returncode in (11, 12, 13) and not r.violated:
            raise ToolError('TLC failed on %s (%d):\n%s' % (module, p.returncode, out[-1500:]))
        return r
    finally:
        shutil.rmtree(d, ignore_errors=True)
