"""C01: every parse returns."""
import json, os, random, shutil, tempfile
import corpus
from real import hexed
from syntax_checks import KEYWORDS, mutate
from lex_checks import lex_texts, construct_sentences, CLUTTER
from session_checks import readable, unreadable, NAMES

ODD = ['\u00e9', '\u4e2d', '\U0001f600', '"', '\\', '(*', '*)', '\x00', '\u00b2', "'", '\u2028', '\ufeff', '$', '\n', '\r', '\u0301', '0x', '-', '_',
       '=>', '.', '(', ')', '{', '}', ';', '|', 'end', 'Map', 'ByStr', 'ByStr20', '\u0660', '\uff11', '\u00a0', 'e\u0301', '\u200b', '\x7f', '\t',
       'List', 'Pair', 'Option', 'with contract end', 'with contract field a : ', "'A", 'forall', '->', '"\\"', '\u0130', '\u00df', '\U0010ffff', '\ud7ff',
       '\ue000', '\u01c5', '\u2160', '\u0e01', '\u202e', '\ufffd']


def spoil(rng, x):
    """One to three changes anywhere in a text."""
    for _ in range(rng.choice([1, 1, 1, 2, 3])):
        k = rng.randrange(len(x) + 1)
        w = rng.randrange(8)
        if w == 0:
            x = x[:k]
        elif w == 1:
            x = x[:k] + x[k + 1:]
        elif w in (2, 3):
            x = x[:k] + rng.choice(ODD) + x[k:]
        elif w in (4, 5):
            x = x[:k] + rng.choice(ODD) + x[k + 1:]
        elif w == 6:
            j = min(len(x), k + rng.randrange(40))
            x = x[:j] + x[k:]
        else:
            x = x[k:]
    return x


HEADS = ['List', 'Option', 'Pair', 'Map', 'ByStr20', 'ByStr', 'ByStr0', 'ByStr32', 'ByStr99999999999999999999999', 'Uint32', 'Int256', 'Bool', 'String',
         'BNum', 'Foo', 'Event', "'A", 'A.B', '0x12.C', '(List)', '(Pair A)', 'ByStr20 with contract end', 'ByStr20 with library end',
         'ByStr20 with Foo end', 'ByStr20 with end', 'ByStr20 with contract field a : List end', 'Map A', 'Map A B', '(Map A B)', 'Map List Pair',
         'Uint32 -> Uint32', "forall 'A. 'A", '(forall \'A. \'A)', '(Uint32 -> A)', 'ByStr30 with contract end', 'Foo with contract end',
         'Map (ByStr20 with contract end) (List)', 'Map (A) (List A B)', '()', '\u00c9t\u00e9', 'Uint8', 'Int', 'ByStr 20', 'ByStr020', 'Message', 'Emp']

PLACES = ['scilla_version 0 contract C (p : @) field f : Uint32 = x',
          'scilla_version 0 contract C () field f : @ = x',
          'scilla_version 0 contract C () transition T (p : @) end',
          'scilla_version 0 contract C () procedure P (p : @) end',
          'scilla_version 0 library L let x : @ = y type T = | A of @ contract C ()',
          'scilla_version 0 contract C (p : ByStr20 with contract field q : @ end)',
          'scilla_version 0 contract C (p : Map ByStr20 (@)) transition T (q : List (@)) end',
          'scilla_version 0 contract C () transition T () x <- & y as @; y = Emp (@) (@); z = let a : @ = b in a end']


def odd_types(rng, n):
    res = list(HEADS)
    for a in HEADS:
        for b in HEADS:
            res.append('%s %s' % (a, b))
            res.append('%s (%s)' % (a, b))
    for _ in range(n):
        res.append(' '.join(rng.choice(HEADS) if rng.random() < 0.6 else '(%s)' % ' '.join(rng.choice(HEADS) for _ in range(rng.randrange(1, 4)))
                            for _ in range(rng.randrange(1, 5))))
    return res


def nests(ck, rng, levels):
    r = ck.tlc('Pump', deadlock=False, workers=1)
    if r.violated:
        raise Exception('Pump: ' + r.violated)
    around = {x['at']: x for x in map(json.loads, r.printed('AROUND'))}
    within = {x['at']: x for x in map(json.loads, r.printed('WITHIN'))}
    nest = [json.loads(x) for x in r.printed('NEST')]
    by = {}
    for x in nest:
        by.setdefault(x['at'], []).append(x)
    text = lambda ks, j=0: corpus.spaced(corpus.texts_for(ks, ck.salt + j))
    shells = [(a, [], []) for a in around]
    res = []
    for x in nest:
        a = around[x['at']]
        for depth in (3, 60, levels):
            body = x['left'] * depth, a['least'], x['right'] * depth
            res.append(text(a['left'] + body[0] + body[1] + body[2] + a['right']))
            if x['at'] in within:
                t = within[x['at']]
                inner = text(t['left'] + body[0] + body[1] + body[2] + t['right'])
                res += [p.replace('@', inner) for p in PLACES]
            if depth == levels:                     # broken off, or with one end too few or too many
                for cut in (body[0], body[0] + body[1], body[0] + body[1] + body[2][:-1], body[0] + body[1] + body[2] + x['right'][:1]):
                    res.append(text(a['left'] + cut))
                    res.append(text(a['left'] + cut + a['right']))
    for at, xs in by.items():                       # constructs mixed at random
        for j in range(40 if ck.thorough else 6):
            l, rt = [], []
            for _ in range(levels):
                x = rng.choice(xs)
                l, rt = l + x['left'], x['right'] + rt
            res.append(text(around[at]['left'] + l + around[at]['least'] + rt + around[at]['right'], j))
    for a in around.values():                       # what may be repeated, often
        for x in a['lists']:
            for many in (2, 500, 4000 if not ck.thorough else 20000):
                res.append(text(a['left'] + x['left'] + x['item'] * many + x['right'] + a['right']))
    res += ['(' * levels, '(*' * levels, '(*' * 20000, '[' * 5000, 'Map ' * levels, 'scilla_version 0 contract C ' + '(' * levels]
    return res


def long_texts():
    n = 300000
    pre, post = 'scilla_version 0 contract C () ', ' transition T () end'
    res = [' ' * n, '\n' * n, '(**)' * (n // 10), '(*' + 'x' * n + '*)', '(*' + '\u00e9' * n, '"' + 'x' * n, '"' + '\\"' * n, '"' + '\u4e2d' * n + '"',
           'x' * n, 'X' * n, '1' * n, '-' + '1' * n, '0x' + 'a' * n, 'ByStr' + '1' * n, "'" + 'A' * n, '_' * n, '-' * 20000, '=' * 20000, ':' * 20000,
           '\u00e9' * 50000, '*' * 50000, '$' * 20000, '"' * 20001, '\\' * 50000, '(*)' * 20000, '\r\n' * n, '\u2028' * 50000]
    return res + [pre + x + post for x in res] + [pre + post + x for x in res[:4]]


def calls(ck, named, results):
    """named: (entry, what identifies the input); 500 calls to a case."""
    rows = []
    size = 500
    for at in range(0, len(named), size):
        evs = []
        for i in range(at, min(at + size, len(named))):
            evs.append(['call', i, named[i][0]])
            evs.append(['return', i, results[i].get('out') or results[i].get('res', 'nothing')])
        rows.append({'events': evs})
    bad = [i for i in range(len(named)) if results[i].get('out') not in ('ok', 'parse', 'visit', 'io')]

    def origin(j):
        inside = [i for i in bad if at_of(j) <= i < at_of(j) + size] or [i for i in range(at_of(j), min(at_of(j) + size, len(named)))
                  if (results[i].get('out') == 'io') != (named[i][0] == 'unreadable')]
        i = inside[0] if inside else at_of(j)
        return {'entry': named[i][0], 'text': str(named[i][1])[:3000], 'length': len(named[i][1]), 'got': results[i]}
    at_of = lambda j: j * size
    ck.conform('Calls', rows, 'calls and returns', origin=origin)
    ck.traces += len(named) - len(rows)
    ck.count('calls', len(named))


def c01(ck):
    rng = random.Random(ck.seed)
    deep = ck.thorough
    texts = lex_texts(ck, deep, rng)
    sen = corpus.sentences(ck, 600 if deep else 150, budget=120, salt=61)
    sen += corpus.sentences(ck, 600 if deep else 150, budget=120, salt=62, kinded=False)
    lay = corpus.layouts(ck, [[k for k, _ in s] for s in sen], 1, salt=63)
    whole = [corpus.join(s, lay[(i, 1)]) for i, s in enumerate(sen)]
    cs = [x for _, x in corpus.contracts()]
    same, failing, typed, odd = readable()
    whole += same + failing + typed + odd + cs
    # everything the grammar can do, with a foreign character in it
    kinds = construct_sentences(ck, 1, 3 if deep else 2)
    toks = [corpus.texts_for(k, ck.salt + i) for i, k in enumerate(kinds)]
    whole += [corpus.spaced(t) for t in toks]
    small = [x for x in whole if 0 < len(x) < 3000]
    texts += whole
    for _ in range(150000 if deep else 15000):
        texts.append(spoil(rng, rng.choice(small)))
    for x in cs:
        for _ in range(60 if deep else 12):
            texts.append(spoil(rng, x))
    for s in sen + toks:
        m = mutate(rng, s)
        if m:
            texts.append(corpus.spaced(m))
    # one contract cut off everywhere, and with every character replaced
    x = same[0]
    for k in range(len(x) + 1):
        texts.append(x[:k])
        texts.append(x[k:])
        for c in ODD if deep else rng.sample(ODD, 8):
            texts.append(x[:k] + c + x[k + 1:])
            texts.append(x[:k] + c + x[k:])
    # every character, in the places where it matters
    code = list(range(0, 0xd800)) + list(range(0xe000, 0x110000))
    for c in (code if deep else rng.sample(code, 2500) + list(range(0x250))):
        texts.append(chr(c))
        for p in (['x%s', '(*%s*)"%s"', '%sx end%s', 'ByStr%s', '-%s'] if not deep else ['x%s', 'end%s']):
            texts.append(p.replace('%s', chr(c)))
        if not deep:
            texts.append(same[1].replace('Gamma', 'G' + chr(c)).replace('note', chr(c)).replace('end\n', 'end' + chr(c) + '\n'))
    # types of every shape in every place
    for t in corpus.types(ck, 6 if deep else 5):
        for _ in range(3):
            u = ' '.join(rng.choice(HEADS[:16]) if k == 'cid' and rng.random() < 0.7 else w for k, w in t)
            texts.append(rng.choice(PLACES).replace('@', u))
    for t in odd_types(rng, 20000 if deep else 1500):
        texts.append(rng.choice(PLACES).replace('@', t))
        texts.append(PLACES[1].replace('@', t))
    for n in ['0', '-1', '99999999999999999999999999999999', '0x', '00', '4294967296', '18446744073709551616', '-', '1.0']:
        texts.append(same[0].replace('scilla_version 0', 'scilla_version ' + n))
        texts.append(same[0].replace('Uint32 1', 'Uint32 ' + n))
    texts = list(dict.fromkeys(texts))
    results = ck.real([('sum', ':', hexed(t)) for t in texts])
    named = [('string', t) for t in texts]
    heavy = list(dict.fromkeys(nests(ck, rng, 200)))
    results += ck.real([('sum', ':', hexed(t)) for t in heavy], limit=60)
    named += [('string', t) for t in heavy]
    long = long_texts()
    results += ck.real([('sum', ':', hexed(t)) for t in long], limit=120)
    named += [('string', t) for t in long]
    # files
    top = tempfile.mkdtemp(prefix='verif-c01-')
    try:
        reqs = []
        pick = rng.sample(texts, 3000 if deep else 600) + rng.sample(heavy, 60) + odd
        for i, t in enumerate(pick):
            p = os.path.join(top, '%d.scilla' % i)
            with open(p, 'wb') as f:
                f.write(t.encode())
            reqs.append(('file', ':', hexed(p)))
            named.append(('file', t))
        for i, b in enumerate(unreadable()):
            p = os.path.join(top, 'bad%d' % i)
            with open(p, 'wb') as f:
                f.write(b)
            reqs.append(('file', ':', hexed(p)))
            named.append(('unreadable', repr(b)))
        os.mkdir(os.path.join(top, 'dir'))
        os.symlink(os.path.join(top, 'loop'), os.path.join(top, 'loop'))
        for p in [top, top + '/dir', top + '/missing', top + '/dir/', top + '/loop', top + '/0.scilla/x', '', top + '/a\x00b', top + '/' + 'x' * 5000,
                  top + '/\u00e9', '.', '/', top + '/0.scilla/']:
            reqs.append(('file', ':', hexed(p)))
            named.append(('unreadable', p))
        results += ck.real(reqs)
    finally:
        shutil.rmtree(top, ignore_errors=True)
    calls(ck, named, results)
    for k in ('ok', 'parse', 'io'):
        n = sum(r.get('out') == k for r in results)
        ck.count('returned_' + k, n)
        ck.need(n > 20, 'hardly any result of kind ' + k)
    for k in (100, len(texts) // 2, len(texts) - 5):
        ck.sample({'text': texts[k][:300]})
