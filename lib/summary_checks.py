"""C02 (the summary is what the text declares), C03 (types), C13 (written form of types)."""
import random, re
import corpus
from real import hexed


def summary_rows(ck, named, toklists):
    """Parses texts; rows for SummaryConform from tokens that do not come from the real lexer."""
    res = ck.real([('sum', ':w', hexed(x)) for _, x in named])
    rows = []
    for (name, x), tk, r in zip(named, toklists, res):
        rows.append({'kinds': [t[0] for t in tk], 'texts': [t[1] for t in tk], 'out': r['out'],
                     'sum': r.get('sum', ['', [], [], []]),
                     'written': [normal(w) for w in r.get('written', [])]})
    return res, rows


def normal(w):
    """The tokens of a written type, one blank apart."""
    return ' '.join(re.findall(r'[A-Za-z0-9_.]+|[^\sA-Za-z0-9_.]', w))


def judge(ck, named, toklists, what):
    res, rows = summary_rows(ck, named, toklists)
    ck.conform('SummaryConform', rows, what, env={'CHECK': what},
               origin=lambda i: {'case': named[i][0], 'text': named[i][1],
                                 'got': {k: res[i].get(k) for k in ('out', 'sum', 'msg', 'written')}})
    ck.count('texts', len(named))
    ck.count('contracts_returned', sum(r['out'] == 'ok' for r in res))
    for i in (0, len(named) // 2, len(named) - 1):
        ck.sample({'text': named[i][1][:400], 'got': str(rows[i]['sum'])[:400]})
    return res


def plain(sentences):
    return [('sentence', corpus.spaced(s)) for s in sentences]


# --- C02 ------------------------------------------------------------------

def c02(ck):
    n = 1500 if ck.thorough else 250
    cs = corpus.contracts()
    judge(ck, cs, corpus.spec_tokens(ck, [x for _, x in cs]), 'names')
    for kw in (dict(salt=1), dict(salt=2, repeat=8, budget=300), dict(salt=3, repeat=9, budget=200, depth=25)):
        sen = corpus.sentences(ck, n, **kw)
        lay = corpus.layouts(ck, [[k for k, _ in s] for s in sen], 1, salt=5)
        named = [('sentence', corpus.join(s, lay[(i, 1)]) if i % 2 else corpus.spaced(s)) for i, s in enumerate(sen)]
        judge(ck, named, sen, 'names')
    # sequences of declarations: the parts that must not leak into each other
    sen = corpus.sentences(ck, n, entry='ContractDefinition', salt=4, repeat=9, budget=250, depth=14)
    sen = [[['scilla_version', 'scilla_version'], ['num', '0']] + s for s in sen]
    judge(ck, plain(sen), sen, 'names')
    sen = corpus.sentences(ck, n // 2, salt=6, kinded=False)
    judge(ck, plain(sen), sen, 'names')
    ck.need(ck.counts['contracts_returned'] > 4 * n // 2, 'too few contracts')


# --- C03 ------------------------------------------------------------------

T = lambda k: [k, k]
CID = lambda x: ['cid', x]


def atoms():
    """Every name of the pools as a type, alone and in each position."""
    p = corpus.pools()
    names = [[CID(x)] for x in sorted(set(p['prim'] + p['adt'] + p['int']))]
    names += [[T('ByStr')], [T('Event')]] + [[['bystrn', x]] for x in ('ByStr20', 'ByStr1', 'ByStr2', 'ByStr19', 'ByStr21',
                                                                       'ByStr32', 'ByStr200', 'ByStr64', 'ByStr4294967295')]
    for q in p['lib'][:3] + ['List', 'Pair', 'Option', 'String', 'Int32', 'Bool', 'BNum']:
        for x in ('Foo', 'Int32', 'Bool', 'List', 'Pair', 'Option', 'BNum', 'String', 'Uint256'):
            names.append([CID(q), T('.'), CID(x)])
        names.append([CID(q), T('.'), ['bystrn', 'ByStr20']])
        names.append([CID(q), T('.'), T('Event')])
    names.append([['hex', '0xAb'], T('.'), CID('Int32')])
    names.append([['hex', '0x'], T('.'), ['bystrn', 'ByStr20']])
    names.append([['bystrn', 'ByStr20'], T('.'), CID('Int32')])
    names.append([T('Event'), T('.'), CID('Int32')])
    return names


def contexts(ty):
    """A type in every position of a larger one."""
    par = [T('(')] + ty + [T(')')]
    i = [CID('Int32')]
    j = [CID('String')]
    M, L, O, P = [T('Map')], [CID('List')], [CID('Option')], [CID('Pair')]
    A = lambda x: [['bystrn', 'ByStr20'], T('with'), T('contract')] + x + [T('end')]
    F = lambda n, x: [T('field'), n, T(':')] + x
    simple = len(ty) in (1, 3)
    res = [ty, par, [T('(')] + par + [T(')')], L + par, O + par, P + par + i, P + i + par, P + par + j, P + j + par,
           M + i + par, L + [T('(')] + L + par + [T(')')],
           M + i + [T('(')] + M + j + par + [T(')')], O + [T('(')] + P + i + par + [T(')')],
           A(F(['id', 'a'], ty)), A(F(['id', 'a'], i) + [T(',')] + F(['sid', '_b'], ty)),
           A(F(['id', 'a'], ty) + [T(',')] + F(['id', 'b'], j) + [T(',')] + F(['id', 'a'], ty)),
           L + [T('(')] + A(F(['id', 'c'], par)) + [T(')')]]
    if simple:
        res += [M + ty + i, M + par + j, M + i + ty, P + ty + i, P + i + ty, L + ty, O + ty, M + i + M + ty + j,
                M + i + M + j + ty, M + i + [T('(')] + L + ty + [T(')')], M + i + [T('(')] + P + ty + j + [T(')')],
                M + i + [T('(')] + P + j + ty + [T(')')], M + i + [T('(')] + O + par + [T(')')], L + M + ty + j,
                P + M + i + ty + M + ty + i, M + ty + ty, P + ty + ty, M + i + [T('(')] + L + M + ty + j + [T(')')]]
    return res


def declare(types, k, at_once=12):
    """One contract that declares many types, in all three positions, beginning with the k-th."""
    n = len(types)
    pick = lambda d: types[(k + d) % n]
    toks = [T('scilla_version'), ['num', '0'], T('contract'), CID('C'), T('(')]
    many = min(at_once, n)
    for j in range(many):
        toks += ([T(',')] if j else []) + [['id', 'p%d' % j], T(':')] + pick(j)
    toks.append(T(')'))
    for j in range(many):
        toks += [T('field'), ['id', 'f%d' % j], T(':')] + pick(many + j) + [T('='), ['id', 'x']]
    for j in range(0, many, 3):
        toks += [T('transition'), ['id', 't%d' % j], T('(')]
        for d in range(3):
            toks += ([T(',')] if d else []) + [['id', 'q%d' % d], T(':')] + pick(2 * many + j + d)
        toks += [T(')'), T('end')]
    return toks


def packed(types, rng):
    """Contracts in which every type stands in every position at least once."""
    out = []
    types = list(types)
    for r in range(2):
        for k in range(0, len(types), 12):
            out.append(declare(types, k))
        rng.shuffle(types)
    return out


def bad_types(types, rng, n):
    """Types with a function type, a polymorphic type or a type variable somewhere inside."""
    evil = [[['tid', "'A"]], [T('forall'), ['tid', "'A"], T('.'), ['tid', "'A"]], [CID('Int32'), T('->'), CID('Int32')],
            [T('forall'), ['tid', "'B"], T('.'), CID('Int32')], [CID('List'), ['tid', "'A"]],
            [T('Map'), CID('Int32'), CID('Int32'), T('->'), CID('Int32')],
            [['bystrn', 'ByStr20'], T('with'), T('end'), T('->'), CID('Int32')],
            [CID('Foo'), ['tid', "'Z"]], [T('ByStr'), ['tid', "'A"]], [CID('L'), T('.'), CID('Foo'), ['tid', "'A"]]]
    res = []
    for e in evil:
        for c in contexts(e):
            res.append(c)
            if len(e) == 1:
                pass
    rng.shuffle(res)
    return res[:n]


def c03(ck):
    rng = random.Random(ck.seed)
    types = corpus.types(ck, 7 if ck.thorough else 6)
    ck.count('types_enumerated', len(types))
    if len(types) > 12000:
        rng.shuffle(types)
        types = types[:12000]
    more = corpus.sentences(ck, 3000 if ck.thorough else 800, entry='KType', budget=14, depth=30, salt=7)
    more += corpus.sentences(ck, 600 if ck.thorough else 150, entry='KType', budget=40, depth=40, salt=8, repeat=8)
    at = atoms()
    placed = [c for a in at for c in contexts(a)]
    deep = [[CID('Int32')]]
    for k in range(12):
        w = deep[-1]
        deep.append([CID('List'), T('(')] + w + [T(')')] if k % 3 == 0 else
                    [CID('Pair'), CID('String'), T('(')] + w + [T(')')] if k % 3 == 1 else
                    [T('Map'), CID('BNum'), T('(')] + w + [T(')')])
    al = packed(types + more, rng) + packed(placed, rng) + packed(at, rng) + packed(deep, rng)
    res = judge(ck, plain(al), al, 'types')
    ck.count('types_declared', len(types) + len(more) + len(placed))
    # types that no declaration can have, alone among good ones, in each position
    evil = bad_types(types, rng, 400 if ck.thorough else 170)
    good = [[CID('Int32')], [CID('List'), CID('String')]]
    one = []
    for e in evil:
        for k in range(3):
            ty = lambda j: e if j == k else good[j % 2]
            one.append([T('scilla_version'), ['num', '0'], T('contract'), CID('C'), T('('), ['id', 'p'], T(':')] + ty(0) +
                       [T(')'), T('field'), ['id', 'f'], T(':')] + ty(1) + [T('='), ['id', 'x'], T('transition'),
                       ['id', 't'], T('('), ['id', 'q'], T(':'), CID('Int32'), T(','), ['id', 'r'], T(':')] + ty(2) + [T(')'), T('end')])
    bad = judge(ck, plain(one), one, 'types')
    ck.count('refused_types', sum(r['out'] != 'ok' for r in bad))
    # the same elsewhere is none of the summary's business
    cs = corpus.contracts()
    judge(ck, cs, corpus.spec_tokens(ck, [x for _, x in cs]), 'types')
    sen = corpus.sentences(ck, 800 if ck.thorough else 150, kinded=False, salt=9)
    judge(ck, plain(sen), sen, 'types')
    ck.need(ck.counts['contracts_returned'] > 300 and ck.counts['refused_types'] > 100, 'too few contracts')


# --- C13 ------------------------------------------------------------------

def declared(s):
    """[type, ...] of a reported contract, in the order of its written forms."""
    return [t for _, t in s[1]] + [t for _, t in s[2]] + [t for tr in s[3] for _, t in tr[1]]


ODD = ['ByStr020', 'ByStr0', 'ByStr00032', 'ByStr99999999999999999999999', 'Option', 'List', 'Pair', 'Pair Int32', 'Foo Int32',
       'List Int32 String', 'Int32 Int32', 'ByStr Foo', 'Foo (List Bar)', 'Lib.Foo Int32', 'Option (Pair Int32)',
       'Map Option List', 'Map Foo (Bar Int32)', 'ByStr20 with contract field Lib.x : Int32 end',
       'ByStr20 with contract field x : Foo Int32, field y : Option end', '(((Int32)))', 'Map (Lib.Foo) (0x1F.Bar)',
       'ByStr32 with end', 'Foo with contract field x : Int32 end', 'List', 'Map Pair Option', 'ByStr020 with end']


def c13(ck):
    rng = random.Random(ck.seed)
    types = corpus.types(ck, 6 if ck.thorough else 5)
    more = corpus.sentences(ck, 3000 if ck.thorough else 700, entry='KType', budget=14, depth=30, salt=11)
    more += corpus.sentences(ck, 600 if ck.thorough else 150, entry='KType', budget=40, depth=40, salt=12, repeat=8)
    placed = [c for a in atoms() for c in contexts(a)]
    al = packed(types + more, rng) + packed(placed, rng)
    named = plain(al)
    odd = ['scilla_version 0 contract C (x : %s)' % o for o in ODD]
    named += [('unspecified', x) for x in odd]
    res = judge(ck, named, al + corpus.spec_tokens(ck, odd), 'written')
    cs = corpus.contracts()
    res += judge(ck, cs, corpus.spec_tokens(ck, [x for _, x in cs]), 'written')
    named = named + cs
    # what was written reads back as the same type, in every position
    seen = {}
    for (name, x), r in zip(named, res):
        if r['out'] != 'ok':
            continue
        ts = declared(r['sum'])
        if len(ts) != len(r['written']):
            ck.violation({'kind': 'written forms and types do not pair up', 'text': x})
            continue
        for t, w in zip(ts, r['written']):
            seen.setdefault((w, str(t)), (t, x))
    back = ['scilla_version 0\ncontract R (p : %s)\nfield f : %s = x\ntransition t (a : Int32, q : %s) end' % (w, w, w)
            for w, _ in seen]
    got = ck.real([('sum', ':w', hexed(x)) for x in back])
    for ((w, _), (t, origin)), x, r in zip(seen.items(), back, got):
        if r['out'] != 'ok':
            ck.violation({'kind': 'the written form of a type is refused', 'written': w, 'type': t, 'declared in': origin,
                          'msg': r.get('msg')})
            continue
        ts = declared(r['sum'])
        if len(ts) != 4 or ts[0] != t or ts[1] != t or ts[3] != t:
            ck.violation({'kind': 'the written form reads back as another type', 'written': w, 'type': t, 'read back': ts,
                          'declared in': origin})
    ck.count('types_read_back', len(seen))
    # and the specification agrees with what was read back
    part = list(range(len(back)))
    rng.shuffle(part)
    part = part[:3000 if ck.thorough else 300]
    texts = [back[i] for i in part]
    judge(ck, [('read back', x) for x in texts], corpus.spec_tokens(ck, texts), 'types')
    ck.need(len(seen) > 800, 'too few types')
