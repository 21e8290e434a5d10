"""Texts: the contracts of the repository and sentences the specification generates."""
import glob, hashlib, json, os, re
import tlc
from checkbase import CACHE
from tlc import SPEC, ToolError


def contracts():
    """The contracts that come with the repository: (name, text)"""
    res = []
    for p in sorted(glob.glob('/repo/tests/contracts/**/*.scilla', recursive=True)):
        with open(p, encoding='utf-8', newline='') as f:
            res.append((os.path.basename(p), f.read()))
    return res


def decode(text):
    return re.sub(r'\^([0-9a-f]+);', lambda m: chr(int(m.group(1), 16)), text)


def sentences(ck, runs, entry='Program', kinded=True, budget=150, depth=60, salt=0, repeat=6):
    """Random derivations: lists of [kind, text]."""
    r = ck.tlc('SyntaxGen', env={'ENTRY': entry, 'RUNS': str(runs), 'SALT': str(ck.salt + salt), 'BUDGET': str(budget),
                                 'DEPTH': str(depth), 'REPEAT': str(repeat), 'KINDED': 'yes' if kinded else 'no'})
    got = dict(json.loads(x) for x in r.printed('SEN'))
    if len(got) != runs:
        raise ToolError('SyntaxGen gave %d of %d sentences' % (len(got), runs))
    return [[[k, decode(x)] for k, x in got[i]] for i in range(1, runs + 1)]


def types(ck, tokens):
    """All types of the specification up to a number of tokens: lists of [kind, text]."""
    r = ck.tlc('TypeEnum', env={'MAXTOKENS': str(tokens), 'SALT': str(ck.salt)}, deadlock=False)
    got = sorted((json.loads(x) for x in r.printed('TYP')), key=lambda x: (len(x), str(x)))
    res, seen = [], set()
    for x in got:
        if str(x) not in seen:
            seen.add(str(x))
            res.append([[k, decode(t)] for k, t in x])
    return res


def situations(ck, depth, entry='Program', length=60):
    """All situations of the reader, each with a shortest way there and what may follow."""
    got = _situations(ck, 'SyntaxBfs', entry, 'Spec', depth, length, 0, 'Situation', 'Sane Report')
    if len(got) < 100 and entry == 'Program':
        raise ToolError('SyntaxBfs found only %d situations' % len(got))
    return got


def shape_situations(ck, depth, entry='Program'):
    """The situations along the shapes of all productions, in whole contracts or (entry `parts`) on their own."""
    got = _situations(ck, 'ShapeWalk', entry, 'WalkSpec', 1, 1000, depth, 'Place', 'Sane Report Legal')
    if len(got) < 500:
        raise ToolError('ShapeWalk found only %d situations' % len(got))
    return got


def _situations(ck, module, entry, spec, depth, length, shapes, view, invariants):
    cfg = os.path.join(ck.dir, module + '.cfg')
    with open(cfg, 'w') as f:
        f.write('SPECIFICATION %s\nCONSTANTS ViewDepth = %d\n          MaxTokens = %d\n' % (spec, depth, length))
        if shapes:
            f.write('          ShapeDepth = %d\n' % shapes)
        f.write('VIEW %s\nINVARIANTS %s\n' % (view, invariants))
    r = ck.tlc(module, cfg=cfg, env={'ENTRY': entry}, workers=1, deadlock=False, heap='16g')
    if r.violated:
        raise ToolError('the grammar has a dead end: %s' % r.last_state())
    return [json.loads(x) for x in r.printed('SIT')]


def shapes(ck, depth):
    """The shapes of every nonterminal: (nonterminal, kinds, whole contract or None)."""
    r = ck.tlc('ShapeList', env={'SHAPEDEPTH': str(depth)}, workers=1, deadlock=False)
    res = []
    for x in r.printed('SHP'):
        name, kinds, around = json.loads(x)
        res.append((name, kinds, around[0] + kinds + around[1] if around else None))
    if len(res) < 200:
        raise ToolError('ShapeList gave only %d shapes' % len(res))
    res.sort(key=lambda z: (z[0], len(z[1]), z[1]))
    return res


def pools():
    """The texts of Leaves.tla by kind of token."""
    s = open(os.path.join(SPEC, 'Leaves.tla')).read()
    res = {}
    for m in re.finditer(r'(\w+)\s*\|-> <<(.*?)>>', s, re.S):
        # TLA+ strings; the escapes are those of the tokens
        res[m.group(1)] = [decode(json.loads('"%s"' % x.replace('\n', '\\n'))) for x in
                           re.findall(r'"((?:[^"\\]|\\.)*)"', m.group(2))]
    return res


_POOLS = None


def texts_for(kinds, salt=0):
    """Gives every token of a sequence of kinds a text."""
    global _POOLS
    if _POOLS is None:
        _POOLS = pools()
    res = []
    for i, k in enumerate(kinds):
        p = _POOLS.get(k) if k in ('id', 'cid', 'sid', 'tid', 'num', 'hex', 'str', 'bystrn') else None
        res.append([k, p[(salt * 7 + i * 5 + len(kinds)) % len(p)] if p else k])
    return res


def layouts(ck, kindlists, variants, salt=0):
    """Gaps for token sequences: {(case, variant): [gap, ...]} with one more gap than tokens."""
    p = ck.cases('Layout', [{'kinds': k} for k in kindlists])
    r = ck.tlc('Layout', env={'CASES': p, 'VARIANTS': str(variants), 'SALT': str(ck.salt + salt)})
    res = {}
    for x in r.printed('LAY'):
        c, v, gaps = json.loads(x)
        res[(c - 1, v)] = [''.join(map(chr, g)) for g in gaps]
    if len(res) != len(kindlists) * variants:
        raise ToolError('Layout gave %d of %d layouts' % (len(res), len(kindlists) * variants))
    return res


def join(tokens, gaps):
    return gaps[0] + ''.join(t[1] + g for t, g in zip(tokens, gaps[1:]))


def spaced(tokens):
    return ' '.join(t[1] for t in tokens)


def _version():
    h = hashlib.sha256()
    for f in ('Lexer.tla', 'LexTokens.tla'):
        h.update(open(os.path.join(SPEC, f), 'rb').read())
    return h.hexdigest()[:16]


def spec_tokens(ck, texts):
    """Tokens by the lexical rules of the specification (not by the real lexer):
    per text a list of [kind, text, 6 positions]. Cached per text."""
    os.makedirs(CACHE, exist_ok=True)
    ver = _version()
    res, todo = [None] * len(texts), []
    for i, x in enumerate(texts):
        p = os.path.join(CACHE, hashlib.sha256((ver + x).encode('utf-8', 'surrogatepass')).hexdigest())
        if len(x) > 2000 and os.path.exists(p):
            with open(p) as f:
                res[i] = json.load(f)
        else:
            todo.append((i, p))
    if todo:
        todo.sort(key=lambda z: -len(texts[z[0]]))
        cases = ck.cases('LexTokens', [{'cps': [ord(c) for c in texts[i]]} for i, _ in todo])
        r = ck.tlc('LexTokens', env={'CASES': cases}, deadlock=False)
        rows = {}
        for x in r.printed('TOK'):
            v = json.loads(x)
            rows.setdefault(v[0] - 1, {})[v[1]] = v[2:]
        for k, (i, p) in enumerate(todo):
            m = rows.get(k, {})
            toks = [[m[j][0], texts[i][m[j][1] - 1:m[j][2] - 1]] + m[j][3:] for j in range(len(m))]
            res[i] = toks
            if len(texts[i]) > 2000:
                with open(p + '.%d' % os.getpid(), 'w') as f:
                    json.dump(toks, f)
                os.replace(p + '.%d' % os.getpid(), p)
    return res
