"""C07 (exactly the grammatical texts are accepted) and C09 (rejections name the first offending token)."""
import random
import corpus
from real import hexed

# the parsers that can be begun with
ENTRIES = ['Program', 'AddressType', 'ArgumentPattern', 'AtomicExpression', 'BlockchainFetchArguments', 'BuiltinArguments',
           'ComponentBody', 'ComponentDefinition', 'ComponentId', 'ComponentParameters', 'ContractDefinition', 'ContractField',
           'FullExpression', 'ImportDeclarations', 'ImportedName', 'LibraryDefinition', 'LibrarySingleDefinition', 'MapAccess',
           'MessageEntry', 'MetaIdentifier', 'ParameterPair', 'PatternMatchExpressionClause', 'Pattern', 'ProcedureDefinition',
           'ScillaType', 'StatementBlock', 'Statement', 'TransitionDefinition', 'TypeAlternativeClause', 'TypeAnnotation',
           'TypeArgument', 'TypeMapKey', 'TypeMapValueArguments', 'TypeMapValue', 'TypeNameIdentifier', 'TypedIdentifier',
           'VariableIdentifier', 'WithConstraint']
SYMBOLS = ["+", "*", ";", ":", ".", "|", "[", "]", "(", ")", "{", "}", ",", "=>", "->", "=", "&", "<-", ":=", "@",
           "-", "_"]
KEYWORDS = ["forall", "builtin", "library", "import", "let", "in", "match", "with", "end", "fun", "tfun", "contract",
            "transition", "send", "event", "Event", "field", "accept", "exists", "delete", "throw", "Map",
            "scilla_version", "type", "of", "as", "procedure", "Emp", "ByStr"]
CLASSES = {"bystrn": "ByStr7", "num": "3", "hex": "0xab", "str": '"s"', "id": "x", "sid": "_s", "cid": "X", "tid": "'A"}
TERMINALS = SYMBOLS + KEYWORDS + list(CLASSES)


def feed_text(kinds):
    return ' '.join('%s~%s' % (k, CLASSES.get(k, k)) for k in kinds)


def situation_replay(ck, errors):
    """Replays situations of the reader, each with every next token, into the real parser."""
    bad = sent = number = 0
    for what, sits in (('frames', corpus.situations(ck, 3 if ck.thorough else 2)),
                       ('shapes in contracts', corpus.shape_situations(ck, 3 if ck.thorough else 2)),
                       ('shapes alone', [s for s in corpus.shape_situations(ck, 3 if ck.thorough else 2, 'parts')
                                         if s['entry'] in ENTRIES])):
        number += len(sits)
        ck.count('situations of ' + what, len(sits))
        for at in range(0, len(sits), 2500):
            b, n, doubts = replay_some(ck, sits[at:at + 2500], errors, bad)
            if doubts:
                b += accepted_after_all(ck, doubts)
            bad += b
            sent += n
            if bad > 100:
                ck.notes.append('further situations not replayed after %d violations' % bad)
                break
        for s in sits[len(sits) // 2:len(sits) // 2 + 2]:
            ck.sample({'situation after': ' '.join(s['prefix']), 'in': s['entry'], 'may follow': sorted(s['exp']), 'may stop': s['stop']})
    ck.count('situations', number)
    ck.count('token_sequences_replayed', sent)
    ck.traces += sent - bad


def replay_some(ck, sits, errors, bad):
    reqs, exps = [], []
    for s in sits:
        pre, entry = s['prefix'], s['entry']
        follow = s['after'] if isinstance(s['after'], dict) else {}
        ptxt = feed_text(pre)
        reqs.append(('feed', entry + ':', ptxt))
        exps.append((pre, 'ok' if s['stop'] else 'end', s['exp'], s))
        for x in TERMINALS + ['unknown']:
            w = pre + [x]
            reqs.append(('feed', entry + ':', (ptxt + ' ' if pre else '') + feed_text([x])))
            if x in follow:
                a = follow[x]
                exps.append((w, 'ok' if a['stop'] else 'end', a['exp'], s))
                if not errors and a['more']:
                    w2 = w + a['more']
                    reqs.append(('feed', entry + ':', feed_text(w2)))
                    exps.append((w2, 'ok', [], s))
            else:
                exps.append((w, 'token', s['exp'], s))
    res = ck.real(reqs)
    before, doubts = bad, []
    for (w, want, exp, s), r in zip(exps, res):
        why = None
        if r['res'] not in ('ok', 'err'):
            why = 'no answer: ' + r['res']
        elif (want == 'ok') != (r['res'] == 'ok'):
            why = 'a sentence is refused' if want == 'ok' else 'accepted, but not a sentence'
        elif not errors and want == 'token' and r['err']['at'] != 'token':
            doubts.append((w, s))
        elif errors and want != 'ok':
            e = r['err']
            n = len(w)
            place = [2 * n - 2, 0, 2 * n - 2, 2 * n - 1, 0, 2 * n - 1]
            if want == 'token' and (e['at'] != 'token' or e['tok'][0] != w[-1] or e['tok'][3:] != place):
                why = 'the error is not at the last token: %r' % (e,)
            elif want == 'end' and (e['at'] != 'end' or (n and e['tok'][3] != 2 * n - 1)):
                why = 'the error is not at the end: %r' % (e,)
            elif not set(e['exp']) <= set(exp):
                why = 'listed but not possible: %s' % sorted(set(e['exp']) - set(exp))
            elif exp and not e['exp'] and (s['entry'] == 'Program' or want == 'end' or not s['stop']):
                why = 'nothing is listed'
            else:
                ck.count('lists_complete' if set(exp) == set(e['exp']) else 'lists_incomplete', 1)
        if why:
            bad += 1
            if bad <= 3:
                ck.violation({'kind': 'behaviour of the reader replayed into the parser %s' % s['entry'], 'tokens': w,
                              'expected': want, 'why': why, 'got': r})
    return bad - before, len(reqs), doubts


def accepted_after_all(ck, doubts):
    """Token sequences that no sentence begins with, but that the parser reads to their end: is there
    a continuation that it accepts?"""
    reqs = []
    for w, s in doubts[:300]:
        ends = {tuple(s['more'])} | {tuple(a['more']) for a in s['after'].values()}
        for c in {e[k:] for e in ends for k in range(len(e) + 1)}:
            reqs.append((w, list(c), s))
    res = ck.real([('feed', s['entry'] + ':', feed_text(w + c)) for w, c, s in reqs])
    bad = 0
    for (w, c, s), r in zip(reqs, res):
        if r['res'] != 'err':
            bad += 1
            if bad <= 3:
                ck.violation({'kind': 'behaviour of the reader replayed into the parser %s' % s['entry'], 'tokens': w + c,
                              'why': 'accepted, but no sentence begins like this: ' + ' '.join(w), 'got': r})
    ck.count('continuations_tried', len(reqs))
    return bad


def mutate(rng, toks):
    """One small damage to a token sequence."""
    toks = list(toks)
    n = len(toks)
    op = rng.choice(['delete', 'duplicate', 'replace', 'swap', 'insert', 'cut', 'append', 'move'])
    k = rng.randrange(n)
    some = lambda: (lambda x: [x, CLASSES.get(x, x)])(rng.choice(TERMINALS))
    if op == 'delete':
        del toks[k]
    elif op == 'duplicate':
        toks.insert(k, toks[k])
    elif op == 'replace':
        toks[k] = some()
    elif op == 'swap' and n > 1:
        k = rng.randrange(n - 1)
        toks[k], toks[k + 1] = toks[k + 1], toks[k]
    elif op == 'insert':
        toks.insert(k, some())
    elif op == 'cut':
        toks = toks[:k]
    elif op == 'append':
        toks.append(some())
    elif op == 'move':
        x = toks.pop(k)
        toks.insert(rng.randrange(len(toks) + 1), x)
    return toks


DAMAGE = ['$', '#', '%', '!', '?', '^', '~', '`', '\\', '<', '>', '/', '"', "'", '(*', '(* x', '\u00e9', '\u4e2d', '\x00',
          '\U0001f600', '\ufeff', '<', "'a", '"abc', '(*)', '\u00b2', '-\u00b2']


BLANKS = ['', ' ', '\n', '\n\n', '\r\n', '\t', '(* c *)', '(*\n*)', '  (* \u00e9 *)\n', '\u00a0', '\u3000\n', '\ufeff', '\n  \n']


def syntax_corpus(ck, sents, muts, seed):
    """Texts, legal and not: contracts, sentences, token and character damage."""
    rng = random.Random(seed)
    sen = corpus.sentences(ck, sents)
    texts = [('contract ' + n, x) for n, x in corpus.contracts()]
    texts += [('sentence', corpus.spaced(s)) for s in sen]
    small = [s for s in sen if len(s) < 160] or sen
    for _ in range(muts):
        s = rng.choice(small)
        m = mutate(rng, s)
        if rng.random() < 0.2 and m:
            m = mutate(rng, m)
        texts.append(('damaged sentence', corpus.spaced(m)))
    for _ in range(muts // 3):
        s = corpus.spaced(rng.choice(small))
        k = rng.randrange(len(s) + 1)
        op = rng.randrange(4)
        if op == 0:
            s = s[:k]
        elif op == 1:
            s = s[:k] + rng.choice(DAMAGE) + s[k:]
        elif op == 2:
            s = s[:k] + rng.choice(DAMAGE) + s[k + 1:]
        else:
            s = s + rng.choice(DAMAGE)
        texts.append(('damaged text', s))
    # the same in other layouts, with something before the first and after the last token
    some = [rng.choice(small) for _ in range(muts // 12)] + [m for m in (mutate(rng, rng.choice(small)) for _ in range(muts // 4)) if m]
    lay = corpus.layouts(ck, [[k for k, _ in m] for m in some], 1, salt=15)
    for i, m in enumerate(some):
        a, b = rng.choice(BLANKS), rng.choice(BLANKS)
        texts.append(('laid out', a + corpus.join(m, lay[(i, 1)]) + b))
    texts += [('damaged after blanks', a + 'scilla_version 0 contract C () field' + b) for a in BLANKS for b in BLANKS]
    texts += [('damaged after blanks', a + 'scilla_version 0 ' + b + 'contract ) C ()' + b) for a in BLANKS for b in BLANKS]
    texts += [('empty', ''), ('blank', ' \n\t'), ('comment only', '(* x *)'), ('open comment', '(* x')]
    return texts


def text_cases(ck, texts, entry='Program', flags='s'):
    """Parses texts and pairs the answers with the tokens of the specification."""
    toks = corpus.spec_tokens(ck, [x for _, x in texts])
    res = ck.real([('syn', '%s:%s' % (entry, flags), hexed(x)) for _, x in texts])
    rows = []
    for (name, x), tk, r in zip(texts, toks, res):
        e = r.get('err') or {'at': '', 'tok': ['', '', '', 0, 0, 0, 0, 0, 0], 'exp': []}
        rows.append({'id': name, 'entry': entry, 'kinds': [t[0] for t in tk], 'pos': [t[2:] for t in tk],
                     'res': r['res'], 'at': e['at'], 'etok': [e['tok'][0]] + e['tok'][3:], 'exp': e['exp']})
    return toks, res, rows


def text_conform(ck, texts, errors, entry='Program'):
    toks, res, rows = text_cases(ck, texts, entry)
    ck.conform('SyntaxConform', rows, 'acceptance' + (' and errors' if errors else ''),
               env={'CHECK_ERROR': 'yes' if errors else 'no'},
               origin=lambda i: {'case': texts[i][0], 'text': texts[i][1], 'got': {k: v for k, v in res[i].items() if k in ('res', 'err', 'out', 'msg')}})
    ck.count('texts', len(texts))
    ck.count('texts_accepted', sum(r['res'] == 'ok' for r in res))
    ck.count('texts_refused', sum(r['res'] == 'err' for r in res))
    for k in (25, -6):
        if len(texts) > 30:
            ck.sample({'text': texts[k][1][:300], 'answer': res[k]['res']})
    return toks, res


def c07(ck):
    situation_replay(ck, errors=False)
    texts = syntax_corpus(ck, 2000 if ck.thorough else 250, 6000 if ck.thorough else 900, ck.seed)
    toks, res = text_conform(ck, texts, errors=False)
    # through the public entry point: the declared types of these sentences are all representable
    for (name, x), r in zip(texts, res):
        if name.startswith(('sentence', 'contract')) and r.get('out') != 'ok':
            ck.violation({'kind': 'from_str refuses a legal text', 'text': x, 'got': r.get('out'), 'msg': r.get('msg')})
        if r['res'] == 'err' and r.get('out') == 'ok':
            ck.violation({'kind': 'from_str accepts an illegal text', 'text': x})
    ck.need(ck.counts.get('texts_accepted', 0) > 200 and ck.counts.get('texts_refused', 0) > 300, 'too few texts of either kind')


UNREPRESENTABLE = ['Int32 -> Int32', '(Int32 -> Int32)', "'A", "List 'A", "(List 'A)", "forall 'A. 'A",
                   "forall 'A. Int32", "Option (Int32 -> Int32)", "Pair Int32 'A", "Map Int32 (Int32)",
                   "Pair (forall 'A. 'A) Int32", "ByStr20 with contract field x: 'A end",
                   "ByStr20 with contract field x: Int32 -> Int32 end", "List (List (List 'B))",
                   "Option (Option (forall 'X. List 'X))", "Map Int32 (ByStr20 with contract field y: 'B end)"]


def c09(ck):
    situation_replay(ck, errors=True)
    texts = syntax_corpus(ck, 1000 if ck.thorough else 100, 8000 if ck.thorough else 1200, ck.seed + 17)
    toks, res = text_conform(ck, texts, errors=True)
    # an error of the grammar reaches the caller as such; no contract comes out of it
    for (name, x), r in zip(texts, res):
        if r['res'] != 'err':
            continue
        if r.get('out') == 'ok':
            ck.violation({'kind': 'a contract came out of a text with a syntax error', 'text': x})
        elif r.get('out') != 'parse' or r.get('named') != 'yes':
            ck.violation({'kind': 'the error does not tell the first offending token', 'text': x, 'got': r.get('msg'),
                          'out': r.get('out')})
    # errors raised after the syntax is accepted
    later = []
    for ty in UNREPRESENTABLE:
        if ty == "Map Int32 (Int32)":
            continue
        for a, b in (('contract C (x : %s)', ''), ('contract C ()\nfield x : %s = y', ''),
                     ('contract C ()\ntransition T (x : %s)', '\nend'),
                     ('contract C (a : Int32)\nfield b : Int32 = y\ntransition S (c: Int32) end transition T (d : String, x : %s)', '\nend transition U () end')):
            later.append('scilla_version 0\n' + a % ty + b)
    got = ck.real([('syn', 'Program:s', hexed(x)) for x in later])
    for x, r in zip(later, got):
        if r['res'] != 'ok':
            continue
        if r.get('out') == 'ok':
            ck.violation({'kind': 'a partial contract instead of an error', 'text': x, 'got': r.get('sum')})
        elif r.get('out') not in ('parse', 'visit'):
            ck.violation({'kind': 'no proper error after the syntax was accepted', 'text': x, 'got': r.get('out'), 'msg': r.get('msg')})
    ck.count('late_errors', len(later))
    ck.need(ck.counts.get('texts_refused', 0) > 500, 'too few refused texts')
