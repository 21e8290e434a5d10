"""What all checks share: seeds, TLC runs with their counts, violations, evidence."""
import hashlib, json, os, re, shutil, sys, tempfile, time
import build, real, tlc
from tlc import ToolError

VERIF = build.VERIF
EVIDENCE = os.path.join(VERIF, 'evidence')
CACHE = os.path.join(VERIF, 'build', 'cache')


class Check:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.thorough = tier == 'thorough'
        self.salt = seed % 1000
        self.t0 = time.time()
        self.violations, self.known = [], []
        self.states = self.transitions = self.traces = 0
        self.samples, self.notes, self.counts = [], [], {}
        self.gave_up = False
        self.dir = tempfile.mkdtemp(prefix='verif-%s-' % prop)
        self.findings = load_findings(prop)

    # --- running -----------------------------------------------------------
    def tlc(self, module, env=None, **kw):
        r = tlc.run(module, env=env, **kw)
        self.states += r.distinct
        self.transitions += r.generated
        self.say('%s: %d states, %.1f s%s' % (module, r.distinct, r.wall, ', ' + r.violated if r.violated else ''))
        return r

    def say(self, what):
        print('[%6.1f s] %s' % (time.time() - self.t0, what), flush=True)

    def real(self, requests, **kw):
        t = time.time()
        r = real.run(requests, **kw)
        self.say('real code: %d requests, %.1f s' % (len(requests), time.time() - t))
        return r

    def cases(self, name, rows):
        p = os.path.join(self.dir, name + '.ndjson')
        with open(p, 'w') as f:
            for x in rows:
                f.write(json.dumps(x) + '\n')
        return p

    def conform(self, module, rows, what, env=None, origin=None, per_case=2, chunk=None, max_reports=3):
        """Validates recorded executions against a conformance specification, all of them even when
        some fail. Returns how many conform. origin(row index) describes the case of a violation."""
        left = list(range(len(rows)))
        good = 0
        reports = 0
        while left:
            p = self.cases(module, [rows[i] for i in left])
            r = self.tlc(module, env=dict(env or {}, CASES=p))
            if not r.violated:
                if r.distinct < per_case * len(left):
                    raise ToolError('%s explored only %d states for %d cases' % (module, r.distinct, len(left)))
                good += len(left)
                break
            st = r.last_state()
            k = int(st['caseNo']) - 1
            i = left[k]
            d = {'kind': 'specification %s: %s' % (module, what), 'verdict': st.get('verdict', r.violated), 'state': st}
            d.update(origin(i) if origin else {})
            self.violation(d)
            left = left[:k] + left[k + 1:]
            reports += 1
            if reports >= max_reports:
                self.gave_up = True
                self.notes.append('further cases of %s not examined after %d violations' % (module, reports))
                break
        self.traces += good
        return good

    # --- results -----------------------------------------------------------
    def violation(self, detail):
        for f in self.findings:
            if all(str(detail.get(k)) == v for k, v in f['match'].items()):
                if f['what'] not in self.known:
                    self.known.append(f['what'])
                return
        if len(self.violations) >= 5:
            self.violations.append(None)
            return
        d = os.path.join(EVIDENCE, 'replay')
        os.makedirs(d, exist_ok=True)
        p = os.path.join(d, '%s-%d.json' % (self.prop, len(self.violations) + 1))
        with open(p, 'w') as f:
            json.dump(detail, f, indent=1, ensure_ascii=True)
        self.violations.append(p)
        print('VIOLATION property=%s replay=%s' % (self.prop, p))
        print('   ' + json.dumps(detail, ensure_ascii=True)[:1500], flush=True)

    def count(self, name, n):
        self.counts[name] = self.counts.get(name, 0) + n

    def need(self, ok, what):
        """A vacuity guard: the check did not exercise what it is meant to."""
        if not ok and not self.violations:
            raise ToolError('vacuous: ' + what)

    def sample(self, x):
        if len(self.samples) < 6:
            self.samples.append(x)

    def finish(self):
        shutil.rmtree(self.dir, ignore_errors=True)
        os.makedirs(EVIDENCE, exist_ok=True)
        cov = {'states': self.states, 'transitions': self.transitions,
               'traces_validated_against_impl': self.traces, 'samples': self.samples}
        cov.update(self.counts)
        ev = {'property': self.prop, 'tier': self.tier, 'seed': self.seed, 'level': 'model_checking',
              'coverage': cov, 'assumptions': ASSUMPTIONS + self.notes, 'wall_s': round(time.time() - self.t0, 2),
              'violations': len(self.violations)}
        with open(os.path.join(EVIDENCE, self.prop + '.json'), 'w') as f:
            json.dump(ev, f, indent=1)
        for k in self.known:
            print('KNOWN-FINDING: property=%s %s' % (self.prop, k))
        if not self.violations:
            print('OK property=%s states=%d traces=%d wall=%.1fs' % (self.prop, self.states, self.traces, ev['wall_s']))
        return 1 if self.violations else 0


ASSUMPTIONS = [
    'TLC evaluates the specification correctly',
    'the harness in /verif/harness reports tokens, trees, callbacks and results as the public API gives them',
]


def load_findings(prop):
    """known: property=<id> match=<json> <what fails>   (lines beginning with fixed: suppress nothing)"""
    res = []
    p = os.path.join(VERIF, 'known_findings.txt')
    if os.path.exists(p):
        for line in open(p):
            m = re.match(r'known: property=(\S+) match=(\{.*?\}) (.*)', line)
            if m and m.group(1) == prop:
                res.append({'match': json.loads(m.group(2)), 'what': m.group(3)})
    return res
