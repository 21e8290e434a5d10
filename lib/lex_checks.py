"""C05 (tokens), C06 (positions), C08 (tree), C04 (layout)."""
import itertools, random
import corpus
from real import hexed
from syntax_checks import KEYWORDS, TERMINALS, CLASSES, DAMAGE, mutate

# one character of every class the lexical rules tell apart
COVER = ['a', 'f', 'Z', 'A', '0', '7', 'x', 'X', '_', "'", '"', '\\', '(', ')', '*', '-', '>', '=', ':', '<', '+', '.', ';',
         ' ', '\n', '\r', '\t', '\u00e9', '\u00b2', '\u00a0', '$', '|']
SMALL = ['a', 'Z', '0', 'x', '_', "'", '"', '(', ')', '*', '-', '>', '=', ':', ' ', '\n', '\u00e9', '\u00b2', '$']


def words(alphabet, length):
    for n in range(length + 1):
        for w in itertools.product(alphabet, repeat=n):
            yield ''.join(w)


def keyword_texts():
    res = []
    for k in KEYWORDS + ['ByStr20', 'ByStr0', 'ByStr1234567890123']:
        for a, b in [('', ''), ('', 'x'), ('', '_'), ('', '1'), ('', 'X'), ('x', ''), ('X', ''), ('_', ''), ('1', ''), ('', '\u00e9'),
                     ('\u00e9', ''), ('', '\u00b2'), ('', '\u03b1\u03b2'), ("'", ''), ('', "'"), ('"', '"'), ('', '"a"'), ('"a"', ''),
                     ('(', ')'), ('', '.'), ('.', ''), ('', '(*c*)x'), ('(*c*)', ''), ('', '-1'), ('-', ''), ('', '\u00a0x'),
                     ('', '\u200b'), ('', '\u0300'), ('0x', ''), ('', '0x12'), ('', ' x'), ('', '\n'), ('', '\ufeff'), ('@', '{'),
                     ('', '=>'), ('<-', ''), (':', '='), ('', '\u20ac'), ('', '\U0001d49c')]:
            res.append(a + k + b)
        for j in range(1, len(k)):
            res.append(k[:j])
            res.append(k[j:])
            res.append(k[:j] + ' ' + k[j:])
            res.append(k[:j] + k[j].swapcase() + k[j + 1:])
        res += [k.upper(), k.capitalize(), k.lower(), k + k, k + ' ' + k, k + '_' + k, k[:-1] + '\u00e9', k[0] + '\u00e9' + k[1:]]
    for a, b in itertools.permutations(['end', 'in', 'Map', 'ByStr', 'ByStr20', 'Event', 'of', 'tfun', 'fun'], 2):
        res += [a + b, a + '_' + b, a + ' ' + b, a + '(**)' + b]
    for x in ['scilla_versionx', 'scilla_version1', 'scilla_version_', 'scilla_versio', 'scilla_version 0', 'Events', 'Eventx', 'event',
              'EVENT', 'ByStr20x', 'ByStr20_', 'ByStr_20', 'ByStrX', 'ByStr20X', 'xByStr20', '_ByStr20', 'ByStr2\u00e9', 'ByStr20\u00e9',
              'ByStr20\u00b2', 'ByStr\u0660', 'ByStr\uff11', 'ByStr20.', 'ByStr20with', 'bystr20', 'ByStr-1', 'ByStr+1', 'ByStr 20',
              'forallx.', 'forall\'A', 'Emp\u00e9', 'Map(', 'typeof', 'asin', 'ofof', 'inin', 'endend', 'letlet', 'withend']:
        res.append(x)
    return res


def lex_texts(ck, thorough, rng):
    res = []
    if thorough:
        res += list(words(COVER, 3))
        res += [w for w in words(SMALL, 4) if len(w) == 4]
    else:
        res += list(words(COVER, 2))
        res += [w for w in words(SMALL, 3) if len(w) == 3]
    # strings and their escapes, comments and their ends
    res += ['"' + w for w in words(['"', '\\', 'a', '\n', '\u00e9'], 6 if thorough else 5)]
    res += ['(*' + w for w in words(['(', '*', ')', 'a', '\n', '\u00e9'] if thorough else ['(', '*', ')', 'a', '\u00e9'], 6 if thorough else 5)]
    res += ['x"' + w + '"(*' + v + '*)y' for w in words(['\\"', 'a', '\\\\', '(*', '*)'], 2) for v in words(['"', '\\', '*', '(', ')', '\r\n'], 2)]
    # numbers
    res += list(words(['0', 'x', 'X', '1', 'a', 'F', 'g', '-', '_', '\u00b2'], 4 if thorough else 3))
    res += ['0x' + w for w in words(['0', 'a', 'F', 'g', 'G', '_', ' ', '"'], 4 if thorough else 3)]
    # every single character that is classified, in every kind of neighbourhood
    wide = [133, 160, 5760] + list(range(8192, 8203)) + [8232, 8233, 8239, 8287, 12288, 178, 189, 1632, 8544, 65297, 170, 223, 233,
            246, 945, 1046, 20013, 65313, 119964, 128, 173, 768, 8203, 8230, 8364, 65279, 65533, 128512, 127]
    for c in [chr(x) for x in list(range(128)) + wide]:
        for a, b in [('', ''), ('a', 'b'), ('Z', 'y'), ('1', '2'), ('_', 'x'), ("'A", 'B'), ('-', '5'), ('0x1', '2'), ('"', '"'),
                     ('(*', '*)'), ('end', ''), ('', 'end'), (' ', ' '), ('\n', '\n'), ('=', '>'), ('<', '-'), ('ByStr', '2'), ("'", 'A'),
                     ('"\\', '"'), ('x = ', ';')]:
            res.append(a + c + b)
    res += keyword_texts()
    # longer mixtures
    bits = COVER + KEYWORDS + list(CLASSES.values()) + ['(* c *)', '(*', '*)', '"s t"', '"', '\\"', '=>', '->', '<-', ':=', '\r\n', '  ',
            '(* "x" *)', '"(* *)"', "'A", "'", '0x12', '-12', '-\u00b2', '\u3000', '\u00e9t\u00e9', '\U0001f600', 'ByStr20', 'end_', '\u2028']
    for _ in range(6000 if thorough else 1200):
        res.append(''.join(rng.choice(bits) for _ in range(rng.randrange(4, 26))))
    return list(dict.fromkeys(res))


def lex_conform(ck, texts, positions, what):
    res = ck.real([('syn', 'Program:tn', hexed(x)) for x in texts])
    rows, keep = [], []
    for x, r in zip(texts, res):
        if 'toks' not in r:
            ck.violation({'kind': 'cutting a text into tokens did not end', 'text': x, 'got': r})
            continue
        keep.append(x)
        rows.append({'cps': [ord(c) for c in x],
                     'toks': [[t[0], [ord(c) for c in t[2]] if t[0] != 'unknown' else []] + t[3:] for t in r['toks']]})
    ck.conform('LexConform', rows, what, env={'CHECK_POSITIONS': 'yes' if positions else 'no'},
               origin=lambda i: {'text': keep[i], 'tokens': rows[i]['toks'][:60]}, per_case=1)
    ck.count('texts_cut', len(texts))
    ck.count('tokens', sum(len(r['toks']) for r in rows))
    return {x: r for x, r in zip(keep, rows)}


def c05(ck):
    rng = random.Random(ck.seed)
    texts = lex_texts(ck, ck.thorough, rng)
    sen = corpus.sentences(ck, 600 if ck.thorough else 120, budget=120, salt=21)
    lay = corpus.layouts(ck, [[k for k, _ in s] for s in sen], 2, salt=22)
    laid = [corpus.join(s, lay[(i, v)]) for i, s in enumerate(sen) for v in (1, 2)]
    real = [x for _, x in corpus.contracts()]
    if not ck.thorough:
        real = [x for x in real if len(x) < 20000]
    long = max(corpus.contracts(), key=lambda z: len(z[1]))[1]
    real.append(long[len(long) // 2:len(long) // 2 + 9000])
    lex_conform(ck, real + laid + texts, False, 'tokens')
    for k in (100, 5000, -1):
        ck.sample({'text': texts[k]})
    # an unknown token makes the parse fail, wherever it stands
    broken = []
    for s in sen[:60 if not ck.thorough else 400]:
        for _ in range(4):
            k = rng.randrange(len(s) + 1)
            broken.append(' '.join([t[1] for t in s[:k]] + [rng.choice(['$', '(* open', '"open', "'a", '<', '\u00e9', '\x00', '\ufeff', '?',
                                   '(*', '~', '\\', '/'])] + [t[1] for t in s[k:]]))
    toks = corpus.spec_tokens(ck, broken)
    res = ck.real([('syn', 'Program:s', hexed(x)) for x in broken])
    n = 0
    for x, tk, r in zip(broken, toks, res):
        if any(t[0] == 'unknown' for t in tk):
            n += 1
            if r['res'] != 'err' or r.get('out') not in ('parse', 'visit'):
                ck.violation({'kind': 'a text with an unknown token does not fail', 'text': x, 'got': r})
    ck.count('texts_with_unknown_tokens', n)
    ck.need(n > 100 and ck.counts['tokens'] > 10000, 'too few texts')


# --- C06, C08 ---------------------------------------------------------------

def construct_sentences(ck, view, shape, limit=10 ** 9):
    """A sentence for every situation of the grammar and every token that may follow in it, and
    a contract around every shape of every production."""
    out, seen = [], set()
    walks = []
    for s in corpus.situations(ck, view):
        walks += [s['prefix'] + [x] + a['more'] for x, a in (s['after'].items() if isinstance(s['after'], dict) else [])]
    if len(walks) > limit:
        walks = random.Random(ck.seed).sample(walks, limit)
    for w in [w for _, _, w in corpus.shapes(ck, shape) if w] + walks:
        if tuple(w) not in seen:
            seen.add(tuple(w))
            out.append(list(w))
    return out


def tree_rows(ck, named, toklists):
    res = ck.real([('syn', 'Program:a', hexed(x)) for _, x in named])
    rows, keep = [], []
    for i, ((name, x), tk, r) in enumerate(zip(named, toklists, res)):
        if r['res'] != 'ok':
            if r['res'] != 'err':
                ck.violation({'kind': 'no answer', 'text': x, 'got': r})
            continue
        keep.append(i)
        rows.append({'entry': 'Program', 'kinds': [t[0] for t in tk], 'texts': [t[1] for t in tk],
                     'pos': [t[2:] for t in tk], 'ast': r['ast']})
    return rows, keep


def trees(ck, named, toklists, spans):
    rows, keep = tree_rows(ck, named, toklists)
    ck.conform('TreeConform', rows, 'spans' if spans else 'tree', env={'CHECK_SPANS': 'yes' if spans else 'no'},
               origin=lambda i: {'case': named[keep[i]][0], 'text': named[keep[i]][1], 'tree': rows[i]['ast'][:400]})
    ck.count('trees', len(rows))
    ck.count('nodes', sum(sum(e[0] == 'o' for e in r['ast']) for r in rows))
    return rows


def c08(ck):
    rng = random.Random(ck.seed)
    cs = corpus.contracts()
    trees(ck, cs, corpus.spec_tokens(ck, [x for _, x in cs]), False)
    kinds = construct_sentences(ck, *((2, 3, 15000) if ck.thorough else (1, 2)))
    toks = [corpus.texts_for(k, ck.salt + i) for i, k in enumerate(kinds)]
    named = [('construct', corpus.spaced(t)) for t in toks]
    a = trees(ck, named, toks, False)
    ck.need(len(a) > 0.9 * len(named), 'most sentences of the grammar are refused')
    for kw in (dict(salt=31), dict(salt=32, kinded=False), dict(salt=33, kinded=False, repeat=8, budget=250, depth=30)):
        sen = corpus.sentences(ck, 1500 if ck.thorough else 200, **kw)
        b = trees(ck, [('sentence', corpus.spaced(s)) for s in sen], sen, False)
    labels = set(e[1] for r in a for e in r['ast'] if e[0] == 'o')
    ck.count('kinds_of_node', len(labels))
    ck.need(len(labels) > 100, 'not all kinds of node occur')
    ck.sample({'text': named[len(named) // 2][1], 'tree': a[len(a) // 2]['ast'][:40]})
    ck.sample({'text': named[-1][1][:300]})


CLUTTER = ['\n', '\r\n', '\n\n', '\t', '  ', '(* a\nb *)', '(*\r\n*)', '(* \u00e9\n \u4e2d *)', '\u00a0', '\u3000', '\u2028', '(**)',
           ' (* \U0001f600 *)\n  ', '\r', '\x0b', '\x0c', '\x85', '\n\r', '(* ) *)', '(* "\n" *)']


def c06(ck):
    rng = random.Random(ck.seed)
    # tokens: texts full of line ends of every kind
    bits = CLUTTER + ['"a\nb"', '"\r\n"', '"\u00e9\u4e2d\n\U0001f600"', '"\\"\n"', 'x', 'Foo', '42', '-1', '0xAB', '_s', "'A", '=>', '->', '(',
                      ')', ';', 'end', 'ByStr20', '$', '\u00e9', '"', '(* open', ':=', '_']
    texts = []
    for _ in range(8000 if ck.thorough else 1500):
        texts.append(''.join(rng.choice(bits) + rng.choice(['', '', ' ', '\n', rng.choice(CLUTTER)]) for _ in range(rng.randrange(1, 22))))
    texts += [''.join(w) for n in (1, 2, 3) for w in itertools.product(['\n', '\r\n', '"\n"', '(*\n*)', 'x', '\u00e9', ' '], repeat=n)]
    texts += [a + 'x' + b + 'y' + c for a in CLUTTER for b in CLUTTER for c in ('', '\n')]
    sen = corpus.sentences(ck, 900 if ck.thorough else 150, budget=120, salt=41, kinded=False)
    lay = corpus.layouts(ck, [[k for k, _ in s] for s in sen], 3, salt=42)
    laid = [('sentence', corpus.join(s, lay[(i, v)])) for i, s in enumerate(sen) for v in (1, 2, 3)]
    cs = corpus.contracts()
    small = [x for _, x in cs if len(x) < (10 ** 6 if ck.thorough else 12000)]
    lex_conform(ck, small + [x for _, x in laid[::2]] + texts, True, 'positions of tokens')
    # nodes: every construct of the grammar, with line ends between the tokens
    kinds = construct_sentences(ck, *((2, 3, 12000) if ck.thorough else (1, 2)))
    toks = [corpus.texts_for(k, ck.salt + i) for i, k in enumerate(kinds)]
    lay = corpus.layouts(ck, kinds, 1, salt=43)
    named = [('construct', corpus.join(t, lay[(i, 1)])) for i, t in enumerate(toks)] + laid + cs
    # the same contracts with Windows line ends and with wide characters in comments
    named += [(n + ' CRLF', x.replace('\n', '\r\n')) for n, x in cs if len(x) < (10 ** 6 if ck.thorough else 9000)]
    a = trees(ck, named, corpus.spec_tokens(ck, [x for _, x in named]), True)
    ck.need(len(a) > 0.9 * len(named), 'most texts are refused')
    ck.sample({'text': named[0][1]})
    ck.sample({'text': laid[5][1][:300]})


# --- C04 ---------------------------------------------------------------------

def bare(ast):
    """The tree apart from positions."""
    return [e[:2] for e in ast]


def outcome(r):
    if r['res'] == 'ok':
        return ('accepted', r.get('out'), r.get('sum'), bare(r['ast']))
    return (r['res'] if r['res'] != 'err' else 'refused', 'refused' if r.get('out') == 'parse' else r.get('out'), None, None)


def c04(ck):
    rng = random.Random(ck.seed)
    n = 500 if ck.thorough else 110
    sen = corpus.sentences(ck, n, budget=100, salt=51)
    sen += corpus.sentences(ck, n // 2, budget=80, salt=52, kinded=False, repeat=7)
    bad = []
    for _ in range(n):
        m = mutate(rng, rng.choice(sen[:n]))
        if m:
            bad.append(m)
    kinds = construct_sentences(ck, 1, 3 if ck.thorough else 2)
    if not ck.thorough:
        rng.shuffle(kinds)
        kinds = kinds[:600]
    lists = sen + bad + [corpus.texts_for(k, ck.salt + i) for i, k in enumerate(kinds)]
    cs = corpus.contracts()
    ctoks = corpus.spec_tokens(ck, [x for _, x in cs])
    for (name, x), tk in zip(cs, ctoks):
        if len(tk) < (10 ** 6 if ck.thorough else 1500):
            lists.append([t[:2] for t in tk])
    variants = 12 if ck.thorough else 6
    lay = corpus.layouts(ck, [[k for k, _ in s] for s in lists], variants, salt=53)
    texts, where = [], []
    for i, s in enumerate(lists):
        texts.append(corpus.spaced(s))
        where.append((i, 0))
        for v in range(1, variants + 1):
            texts.append(corpus.join(s, lay[(i, v)]))
            where.append((i, v))
    # the contracts as they were written
    first = len(texts)
    for (name, x), tk in zip(cs, ctoks):
        texts.append(corpus.spaced(tk))
        where.append((name, 0))
        for v, y in enumerate([x, x.replace('\n', '\r\n'), '\n\n' + x + '\n(* end *)', x.replace('\n', ' \n\t'),
                               '(* contract X () *)' + x + '(**)', x.replace('\n', '\n\n'), '\u3000' + x + '\u00a0\r']):
            texts.append(y)
            where.append((name, v + 1))
    res = ck.real([('syn', 'Program:as', hexed(x)) for x in texts])
    base, suspects = None, []
    for j, ((i, v), r) in enumerate(zip(where, res)):
        if v == 0:
            base = (j, outcome(r))
        elif outcome(r) != base[1]:
            suspects.append((base[0], j))
    # the specification must read both texts as the same tokens
    if suspects:
        pairs = suspects[:200]
        flat = [texts[k] for p in pairs for k in p]
        tk = corpus.spec_tokens(ck, flat)
        same = lambda a, b: [t[:2] for t in a] == [t[:2] for t in b]
        for q, (b, j) in enumerate(pairs):
            if not same(tk[2 * q], tk[2 * q + 1]):
                ck.need(False, 'Layout gave a text with other tokens: %r / %r' % (texts[b], texts[j]))
                continue
            o1, o2 = outcome(res[b]), outcome(res[j])
            diff = 'acceptance' if o1[:2] != o2[:2] else 'contract' if o1[2] != o2[2] else 'tree'
            ck.violation({'kind': 'another layout changes the ' + diff, 'text': texts[j], 'plain': texts[b],
                          'got': str(o2)[:1500], 'got for plain': str(o1)[:1500]})
    # a sample of the layouts against the lexical rules, so that silence means something
    pick = rng.sample(range(first), min(first, 1500 if ck.thorough else 250))
    tk = corpus.spec_tokens(ck, [texts[j] for j in pick])
    for j, t in zip(pick, tk):
        ck.need([x[:2] for x in t] == [list(x) for x in lists[where[j][0]]], 'Layout changed the tokens of %r' % texts[j])
    ck.traces += len(texts) - len(suspects)
    ck.count('texts', len(texts))
    ck.count('token_sequences', len(lists) + len(cs))
    ck.count('accepted', sum(r['res'] == 'ok' for r in res))
    for j in (3, 10, 17):
        ck.sample({'text': texts[j][:300]})
    ck.need(ck.counts['accepted'] > len(texts) // 3, 'few texts are accepted')
