"""C14 (files) and C15 (history, threads) against Session.tla."""
import json, os, random, shutil, tempfile
import corpus, real
from real import hexed
from syntax_checks import mutate

BASE = '''scilla_version 0
(* %s *)
import IntUtils
library Lib%s
let one = Uint32 1
contract %s
(%s : Uint32, other : ByStr20 with contract field a : Uint64 end)
field %s : Map ByStr20 (List String) = Emp ByStr20 (List String)
transition %s (p : Pair Bool (Option BNum))
  accept
end
procedure q (z : Uint32)
  throw
end
'''


def base(tag='note', lib='A', name='Alpha', par='owner', field='store', trans='Go'):
    return BASE % (tag, lib, name, par, field, trans)


def readable():
    """Groups of texts; the first ones of a group have the same length."""
    same = [base(), base(name='Gamma'), base(field='stock'), base(trans='Do'), base(par='owned'), base(tag='Note'), base(lib='B')]
    failing = [base().replace('contract Alpha', 'contract 1lpha'), base().replace('accept', 'accep;'), base()[:-4] + 'enx\n',
               base().replace('Pair Bool', 'Pair Bo$l'), base().replace('scilla_version 0', 'scilla_version x'),
               base().replace('Option BNum', 'Option \'Num'), base().replace('(z :', '(1 :')]
    typed = [base().replace('Map ByStr20 (List String) =', 'Uint32 -> (List String) =  '), base().replace(': Uint32, other', ": 'A, other"),
             base().replace('Pair Bool (Option BNum)', 'forall \'A. (Option BNum)')]
    big = '(* ' + 'x' * 8183 + '\u00e9' * 5 + ' *)'
    huge = '(* ' + '\u4e2d' * 30000 + ' *)'
    odd = ['', ' ', '\n', '\ufeff' + base(), base() + '\ufeff', base().replace('\n', '\r\n'), base() + '\x00', base().rstrip('\n'),
           base() + 'x', '#!/bin/scilla\n' + base(), big + base(), base() + big, huge + base(), base() + huge[:-2],
           base(tag='\u00e9\u4e2d\U0001f600'), base().replace('note', 'n\x00te'), 'a.scilla', '/etc/hostname', 'sub/a.scilla', '\n\n' + base(),
           base().encode('utf-16-le').decode('utf-8', 'replace'), base() * 2, '(*', '"', base().replace('Uint32 1', 'Uint32 \u00b2'),
           base(tag='"'), base(tag='a' * 65536), '\x1a' + base(), base() + '\x1a', base() + '(* end', base(tag='\r\r'), base(tag='\u2028'),
           base().replace('IntUtils', 'Missing'), base().replace('Alpha', 'Alph\u00e9'), base().replace('\n', '\r'), base() + '\n' * 5000]
    return same, failing, typed, odd


def unreadable():
    b = base().encode()
    big = b'(* ' + b'x' * 70000 + b' *)'
    return [b.replace(b'note', b'n\xffte'), b + b'\xff', b'\xff\xfe' + base().encode('utf-16-le'), b.replace(b'note', b'n\xe9te'),
            b[:40] + b'\xc3', b + b'\xe4\xb8', b.replace(b'note', b'\xed\xa0\x80'), b.replace(b'note', b'\xc0\x80'), b'\x80', b'\xff',
            big + b + b'\xfe', b + b'(* \xf8\x88 *)', b.replace(b'Alpha', b'Alph\xe9'), b'\x1f\x8b\x08' + b, b.replace(b'note', b'\xf4\x90\x80\x80'),
            b'\xfe\xff' + base().encode('utf-16-be'), b.replace(b'note', b'\xe9\n'), b'$' + b + b'\xff']


NAMES = ['a', 'a.scilla', 'b.txt', 'with%20space.scilla', '\u00e9\u4e2d.scilla', 'sub/a.scilla', '.hidden', 'UPPER.SCILLA', 'x' * 200,
         'sub/../c.scilla', 'n.scilla~', '-x', '%27%22.scilla', '%FF%FE.scilla', 'a%3Ab', '%0A.scilla', 'sub/deep/d.scilla', 'IntUtils.scillib',
         'c.scillib', '%2A', '~', 'b.scilla%20', './e.scilla', 'f.json', 'g.SCILLA.gz', '%09', 'Alpha', 'sub/deep/../../h', 'A.scilla', 'a.scilla.bak']

LETTER = {'write': 'w', 'keep': 'm', 'replace': 'r'}


def fresh(ck, texts):
    """What a process of its own gives for each text, twice."""
    from concurrent.futures import ThreadPoolExecutor

    def one(x):
        a, b = [real.run([('sum', ':', hexed(x))], threads=1)[0] for _ in (1, 2)]
        va, vb = [(r['out'], json.dumps(r['sum'] if r['out'] == 'ok' else r.get('msg', ''))) for r in (a, b)]
        return va, vb
    with ThreadPoolExecutor(8) as ex:
        got = list(ex.map(one, texts))
    for x, (a, b) in zip(texts, got):
        if a != b:
            ck.violation({'kind': 'two processes give different results for one text', 'text': x[:2000], 'got': [a, b]})
    ck.say('fresh processes: %d' % (2 * len(texts)))
    return [a for a, _ in got]


class Life:
    """A history over numbered names and texts, made concrete."""

    def __init__(self, ops, names, texts, bad):
        self.ops, self.names, self.texts, self.bad = ops, names, texts, bad     # texts: bytes, 1-based via k - 1

    def script(self, threads=4):
        out = ['k sub', 'k sub/deep']
        h = [x.hex() for x in self.texts]
        n = self.names
        good = [k for k in range(len(self.texts)) if k + 1 not in self.bad]
        self.thread_jobs = {}
        for i, (w, f, g) in enumerate(self.ops):
            if w in LETTER:
                out.append('%s %s %s' % (LETTER[w], n[f - 1], h[g - 1]))
            elif w == 'remove':
                out.append('d ' + n[f - 1])
            elif w == 'mkdir':
                out.append('k ' + n[f - 1])
            elif w == 'rename':
                out.append('n %s %s' % (n[f - 1], n[g - 1]))
            elif w == 'link':
                out.append('y %s %s' % (n[f - 1], n[g - 1]))
            elif w == 'parse':
                out.append('p ' + n[f - 1])
            elif w == 'string':
                out.append('s ' + h[g - 1])
            elif w == 'strings':
                js = [g - 1] + good
                self.thread_jobs[i] = js
                out.append('t %d %s' % (threads, ','.join(h[j] for j in js)))
            elif w in ('laps', 'storm'):
                # laps: times over which texts (f.. times, g: list); storm: rounds, groups
                js = [j - 1 for grp in g for j in grp]
                self.thread_jobs[i] = js
                what = ';'.join(','.join(h[j - 1] for j in grp) for grp in g)
                out.append('l %d %s' % (f, what) if w == 'laps' else 'o %d %d %s' % (threads, f, what))
            elif w == 'files':
                js = list(range(len(n)))
                self.thread_jobs[i] = js
                out.append('T %d %s' % (threads, ','.join(n[j] for j in js)))
        return '\n'.join(out)

    def row(self, r, expected, number):
        """The case for SessionConform from what the harness reports."""
        evs = iter(r['evs'])
        got = []

        def num(out, val):
            return 0 if out == 'io' else number.setdefault((out, json.dumps(val)), len(number) + 1)
        for i, (w, f, g) in enumerate(self.ops):
            if w == 'parse':
                e = next(evs)
                got.append({'results': [[f, num(e[1], e[2])]], 'changed': e[3]})
            elif w == 'string':
                e = next(evs)
                got.append({'results': [[g, num(e[1], e[2])]], 'changed': e[3]})
            elif w in ('strings', 'files', 'laps', 'storm'):
                e = next(evs)
                js = self.thread_jobs[i]
                got.append({'results': [[js[j] + 1, num(o, v)] for j, o, v in e[1]], 'changed': e[3]})
            else:
                got.append({'results': [], 'changed': 'same'})
        plain = [[w, 1, 1] if w in ('laps', 'storm') else [w, f, g] for w, f, g in self.ops]
        return {'ops': plain, 'names': len(self.names), 'bad': sorted(self.bad), 'got': got, 'stable': r['stable'],
                'expect': [0 if k + 1 in self.bad else number.setdefault(expected[x], len(number) + 1) for k, x in enumerate(self.texts)]}


def live(ck, lives, expected, what, scope, threads=4):
    top = tempfile.mkdtemp(prefix='verif-lives-')
    try:
        reqs = []
        for i, v in enumerate(lives):
            d = 'l%d' % i if i % 2 else os.path.join(top, 'l%d' % i)        # relative and absolute paths
            os.mkdir(os.path.join(top, 'l%d' % i))
            reqs.append(('sess', d + ':', v.script(threads).encode().hex()))
        before = set(os.listdir(top))
        res = ck.real(reqs, cwd=top, limit=600 if ck.thorough else 240)
        if set(os.listdir(top)) != before:
            ck.violation({'kind': 'parsing left files behind', 'files': sorted(set(os.listdir(top)) - before)})
    finally:
        shutil.rmtree(top, ignore_errors=True)
    number = {}
    rows, keep = [], []
    for i, (v, r) in enumerate(zip(lives, res)):
        if 'evs' not in r:
            ck.violation({'kind': 'a history does not end', 'operations': v.ops, 'got': str(r)[:500]})
            continue
        rows.append(v.row(r, expected, number))
        keep.append(i)
    shown = {n: k for k, n in number.items()}

    def origin(j):
        v = lives[keep[j]]
        return {'operations': v.ops, 'names': v.names, 'texts': [x[:400].decode('latin-1') for x in v.texts], 'got': rows[j]['got'][-12:],
                'results': {str(n): str(shown[n])[:300] for e in rows[j]['got'] for _, n in e['results'] if n in shown}}
    ck.conform('SessionConform', rows, what, env={'CHECK': scope}, origin=origin, per_case=2)
    ck.count('histories', len(rows))
    ck.count('parses', sum(len(e['results']) for r in rows for e in r['got']))
    return rows


def pick_texts(rng, pools, bads):
    same, failing, typed, odd = pools
    a, b = rng.sample(same, 2)
    f = rng.choice(failing)
    g = rng.choice(failing + typed)
    h = rng.choice(odd)
    five = [a, b, f, g, h]
    rng.shuffle(five)
    return [x.encode() for x in five] + [rng.choice(bads)]


def exhaustive(ck, cfg):
    r = ck.tlc('SessionBfs', cfg=cfg, workers=1, deadlock=False)
    if r.violated:
        raise real.ToolError('Session.tla: ' + r.violated)
    res = []
    for x in r.printed('HIS'):
        h = json.loads(x)
        for op in h['after']:
            res.append(h['history'] + [op])
    return res


def generated(ck, runs, steps, salt):
    r = ck.tlc('SessionGen', env={'RUNS': str(runs), 'STEPS': str(steps), 'SALT': str(ck.salt + salt)}, deadlock=False)
    got = dict(json.loads(x) for x in r.printed('HIS'))
    return [got[i] for i in range(1, runs + 1)]


def distinct_names(rng, n):
    """Names of different files, none in a place that is made a directory."""
    res, seen = [], set()
    while len(res) < n:
        x = rng.choice(NAMES)
        k = os.path.normpath(x)
        if k not in seen:
            seen.add(k)
            res.append(x)
    return res


def histories(ck, salt):
    rng = random.Random(ck.seed + salt)
    pools, bads = readable(), unreadable()
    same, failing, typed, odd = pools
    lives = []
    one = exhaustive(ck, 'SessionBfs.cfg')
    two = exhaustive(ck, 'SessionBfs2.cfg')
    if not ck.thorough:
        two = rng.sample(two, 5000)
    for k, ops in enumerate(one * 3 + two):
        n = 1 if k < 3 * len(one) else 2
        names = distinct_names(rng, n)
        a, b = rng.sample(same, 2) if k % 2 else (rng.choice(same), rng.choice(failing + typed + odd))
        if k % 3 == 2:
            a, b = b, a
        # at the end every name is parsed
        lives.append(Life(ops + [['parse', f, 0] for f in range(1, n + 1)], names, [a.encode(), b.encode(), rng.choice(bads)], {3}))
    for ops in generated(ck, 2500 if ck.thorough else 300, 60 if not ck.thorough else 100, salt):
        lives.append(Life(ops, distinct_names(rng, 4), pick_texts(rng, pools, bads), {6}))
    return lives, [x for g in pools for x in g]


def expectations(ck, texts):
    return dict(zip([x.encode() for x in texts], fresh(ck, texts)))


def c14(ck):
    lives, texts = histories(ck, 81)
    # every text in a file of every name, every unreadable one too
    rng = random.Random(ck.seed)
    bads = unreadable()
    every = texts + [x for _, x in corpus.contracts() if len(x) < 60000]
    for i, x in enumerate(every):
        lives.append(Life([['write', 1, 1], ['parse', 1, 0], ['write', 1, 2], ['parse', 1, 0], ['write', 1, 1], ['parse', 1, 0]],
                          [NAMES[i % len(NAMES)]], [x.encode(), bads[i % len(bads)]], {2}))
    for nm in NAMES:
        lives.append(Life([['parse', 1, 0], ['write', 1, 1], ['parse', 1, 0], ['keep', 1, 2], ['parse', 1, 0], ['remove', 1, 0],
                           ['parse', 1, 0], ['mkdir', 1, 0], ['parse', 1, 0]], [nm], [texts[0].encode(), texts[1].encode()], set()))
    exp = expectations(ck, list(dict.fromkeys(every)))
    rows = live(ck, lives, exp, 'files', 'files')
    ck.need(len(set(n for r in rows for e in r['got'] for _, n in e['results'])) > 30, 'few different results')
    ck.sample({'operations': lives[len(lives) // 3].ops, 'names': lives[len(lives) // 3].names})
    ck.sample({'operations': lives[1500].ops, 'names': lives[1500].names})


def long_lives(ck, rng, small, exp):
    """Histories of many thousand parses: of one text, of failures, of ever new names."""
    mini = 'scilla_version 0 contract %s ()'
    tiny = [mini % 'C', mini % '1', 'scilla_version 0 contract D (p : Uint32)', mini % 'C' + ' $', 'scilla_version', '(*', '', 'contract D ()',
            "scilla_version 0 contract D (p : 'A)", 'scilla_version 0 contract D () transition T () x = "a', mini % 'C' + ' transition T () accept',
            'scilla_version 0 import A library L let x = y contract E (q : Map ByStr20 (List Bool)) field f : String = x']
    tiny += [mini % ('N%x' % k) for k in range(1500 if ck.thorough else 400)]
    exp.update(expectations(ck, tiny))
    texts = [x.encode() for x in tiny] + [x.encode() for x in rng.sample(small, 24)]
    n = len(tiny)
    one = lambda k: [['string', 1, k]]
    res = []
    far = 140000 if ck.thorough else 70000
    for k in (1, 2, 9):                                     # more often than 16 bits count
        res.append([['laps', far if k != 9 else far // 4, [[k]]]] + one(3) + one(k) + one(12))
    for k in (2, 4, 5, 6, 7, 8, 9, 10, 11):                 # failures, then a good text
        for m in (7, 40, 300, 2500):
            res.append([['laps', m, [[k]]]] + one(12) + one(1) + one(k) + one(3))
    res.append([['laps', 1, [list(range(13, n + 1))]], ['laps', 2, [list(range(n, 12, -1))]]] + one(1) + one(3))
    res.append([['laps', 300, [list(range(1, 13))]]])
    for k in range(6):
        ks = rng.sample(range(1, len(texts) + 1), 30)
        res.append([['laps', 5, [ks]], ['laps', 12, [ks[:5]]], ['laps', 1, [ks[::-1]]]])
    return [Life(ops, ['a'], texts, set()) for ops in res]


def storms(ck, rng, pool, small, exp):
    """Long and short calls at the same time, the short ones over and over."""
    tiny = ['scilla_version 0 contract C ()', 'scilla_version 0 contract 1 ()', 'scilla_version 0 contract D (p : Uint32)', 'scilla_version 0 $']
    exp.update(expectations(ck, tiny))
    long = sorted(pool, key=len)[-12:]
    res = []
    for k in range(24 if ck.thorough else 8):
        texts = tiny + rng.sample(small, 4) + rng.sample(long, 2)
        groups = [[[1], [9]], [[1, 2], [9, 10]], [[3], [5, 6], [9]], [[1], [2], [3], [4]], [[5], [5], [6, 7]], [[4], [8], [10, 1]], [[2], [9]],
                  [[1, 3], [9, 5], [2]]][k % 8]
        ops = [['storm', 12 if ck.thorough else 6, groups], ['string', 1, groups[0][0]], ['string', 1, groups[-1][0]], ['string', 1, 3]]
        # the short ones as long as the long one takes
        times = 1 if max(j for g in groups for j in g) < 9 else max(1, len(texts[8]) // 600)
        ops[0][2] = [g if 9 in g or 10 in g else g * min(times, 60) for g in groups]
        res.append(Life(ops, ['a'], [x.encode() for x in texts], set()))
    return res


def schedules(ck, rng, pool, exp):
    """Every schedule of a few calls, forced upon threads that are suspended in the middle of a call."""
    plans = []
    for cfg in ['OverlapGen.cfg', 'OverlapGen2.cfg'] + (['OverlapGen3.cfg'] if ck.thorough else []):
        r = ck.tlc('OverlapGen', cfg=cfg, workers=1, deadlock=False)
        if r.violated:
            raise real.ToolError('Overlap.tla: ' + r.violated)
        plans += [json.loads(x) for x in r.printed('PLAN')]
    small = [x for x in pool if 40 < len(x) < 900]
    fails = [x for x in small if exp[x.encode()][0] != 'ok']
    goods = [x for x in small if exp[x.encode()][0] == 'ok']
    top = tempfile.mkdtemp(prefix='verif-plans-')
    reqs, runs = [], []
    try:
        for k, plan in enumerate(plans * (6 if ck.thorough else 3)):
            calls = max(e[2] for e in plan)
            a, b, c, d = rng.choice(goods), rng.choice(goods), rng.choice(fails), rng.choice(small)
            texts = [[a, a, b, a], [a, b, a, b], [a, c, a, c], [c, a, b, d], [a, b, c, d], [d, d, d, d]][rng.randrange(6)][:calls]
            rng.shuffle(texts)
            lines = ['%s %s' % ('f' if rng.random() < 0.2 else 't', hexed(x)) for x in texts]
            for w, j, t in plan:
                lines.append({'begin': 'b %d %d' % (j, t), 'pause': 'p %d %d' % (j, int(10 ** rng.uniform(1, 4))), 'resume': 'r %d' % j,
                              'end': 'e %d' % j}[w])
            d = os.path.join(top, 'p%d' % k)
            os.mkdir(d)
            reqs.append(('sched', d + ':', '\n'.join(lines).encode().hex()))
            runs.append((plan, texts))
        res = ck.real(reqs, threads=3)
    finally:
        shutil.rmtree(top, ignore_errors=True)
    number, rows, keep = {}, [], []
    num = lambda key: number.setdefault(key, len(number) + 1)
    hit = asked = within = 0
    for i, ((plan, texts), r) in enumerate(zip(runs, res)):
        if 'evs' not in r:
            ck.violation({'kind': 'a schedule does not end', 'plan': plan, 'texts': [x[:300] for x in texts], 'got': str(r)[:500]})
            continue
        evs = [[e[0], e[1], e[2], num((e[3], json.dumps(e[4]))) if e[0] == 'end' else 0] for e in r['evs']]
        asked += sum(e[0] == 'pause' for e in plan)
        hit += sum(e[0] == 'pause' for e in evs)
        paused = set()
        for e in evs:
            if e[0] == 'pause':
                paused.add(e[1])
            elif e[0] == 'resume':
                paused.discard(e[1])
            elif e[0] == 'end' and paused:
                within += 1
        rows.append({'threads': 4, 'events': evs, 'stable': r['stable'], 'expect': [num(exp[x.encode()]) for x in texts]})
        keep.append(i)
    shown = {n: k for k, n in number.items()}

    def origin(j):
        plan, texts = runs[keep[j]]
        return {'plan': plan, 'events': rows[j]['events'], 'texts': [x[:400] for x in texts],
                'results': {str(e[3]): str(shown[e[3]])[:300] for e in rows[j]['events'] if e[3]}}
    ck.conform('OverlapConform', rows, 'calls suspended in the middle', origin=origin, per_case=3)
    ck.count('schedules', len(rows))
    ck.count('schedules_enumerated', len(plans))
    ck.count('suspensions', hit)
    ck.count('suspensions_too_late', asked - hit)
    ck.count('calls_that_ended_within_another', within)
    ck.need(hit > asked // 2 and within > 200, 'calls were hardly ever suspended')
    ck.sample({'schedule': plans[len(plans) // 3]})


def c15(ck):
    rng = random.Random(ck.seed)
    lives, texts = histories(ck, 91)
    if not ck.thorough:
        lives = rng.sample(lives, 1500)
    # long lives of many texts, in one thread and in several
    sen = corpus.sentences(ck, 200 if ck.thorough else 60, budget=80, salt=92)
    sen += corpus.sentences(ck, 100 if ck.thorough else 30, budget=80, salt=93, kinded=False)
    more = [corpus.spaced(s) for s in sen]
    for s in sen:
        m = mutate(rng, s)
        if m:
            more.append(corpus.spaced(m))
    more += [x for _, x in corpus.contracts() if len(x) < (60000 if ck.thorough else 15000)]
    pool = list(dict.fromkeys(texts + more))
    small = [x for x in pool if len(x) < 1500]
    exp = expectations(ck, pool)
    for k in range(40 if ck.thorough else 8):
        order = rng.sample(pool, min(len(pool), 120))
        ops = [['string', 1, j + 1] for j in range(len(order))]
        back = list(reversed(ops))
        again = [['string', 1, rng.randrange(len(order)) + 1] for _ in range(100)]
        lives.append(Life(ops + back + again, ['a'], [x.encode() for x in order], set()))
    for k in range(40 if ck.thorough else 8):
        order = rng.sample(small, 40)
        ops = [['strings', 1, rng.randrange(40) + 1] for _ in range(4)] + [['string', 1, j + 1] for j in range(40)] + [['strings', 1, 1]]
        lives.append(Life(ops, ['a'], [x.encode() for x in order], set()))
    # one text over and over, and two in turn
    for k in range(6):
        a, b = rng.sample(small, 2)
        lives.append(Life([['string', 1, 1 + (j % 2 if k % 2 else 0)] for j in range(700)], ['a'], [a.encode(), b.encode()], set()))
    lives += storms(ck, rng, pool, small, exp)
    lives = long_lives(ck, rng, small, exp) + lives           # the longest first
    rows = live(ck, lives, exp, 'history and threads', 'all', threads=8)
    schedules(ck, rng, pool, exp)
    ck.need(ck.counts['parses'] > 10000, 'few parses')
    ck.sample({'operations': lives[0].ops})
    ck.sample({'operations': lives[-1].ops[:10], 'texts': [x.decode()[:200] for x in lives[-1].texts]})
