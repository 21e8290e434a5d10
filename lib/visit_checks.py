"""C10, C11, C12: traversals of real syntax trees against Visitor.tla."""
import random
import corpus
from real import hexed
from tlc import ToolError
from lex_checks import construct_sentences

ENTRIES = ['Statement', 'FullExpression', 'ScillaType', 'Pattern', 'TypeMapValueArguments', 'ComponentDefinition', 'ContractField',
           'LibrarySingleDefinition', 'ImportDeclarations', 'TypedIdentifier', 'AddressType', 'ComponentParameters', 'TypeArgument',
           'VariableIdentifier', 'MetaIdentifier', 'WithConstraint', 'ComponentBody', 'TypeMapKey', 'TypeMapValue', 'MessageEntry',
           'ArgumentPattern', 'AtomicExpression', 'MapAccess', 'BuiltinArguments', 'TypeAnnotation', 'TypeAlternativeClause',
           'PatternMatchExpressionClause', 'BlockchainFetchArguments', 'StatementBlock', 'ParameterPair', 'ImportedName',
           'TypeNameIdentifier', 'ComponentId', 'LibraryDefinition', 'ContractDefinition', 'ProcedureDefinition', 'TransitionDefinition']


def case_of(r):
    """The tree, and the traversals merged into one tree of events."""
    nodes = r['nodes']
    spans = {}
    num = lambda six: spans.setdefault(tuple(six), len(spans) + 1)
    size = len(nodes)
    last = list(range(1, size + 1))
    for k in range(size, 0, -1):
        p = nodes[k - 1][1]
        if p:
            last[p - 1] = max(last[p - 1], last[k - 1])
    tree = [[x[1], last[k], num(x[3:9]) if x[2] else 0] for k, x in enumerate(nodes)]
    events = [['start', 0, '', []]]
    index = {}
    for run in r['runs']:
        at = 0
        calls = 0
        told = None
        for e in run['evs'] + [None]:
            if e is None:
                res = run['res']
                ev = ('end', 1 if res == 'ok' else 2 if told is not None and res == told else 0, '')
            elif e[0] == 'push':
                ev = ('push', num(e[4:10]), '')
            elif e[0] == 'pop':
                ev = ('pop', 0, '')
            else:
                ev = (e[0], max(e[2], 0), e[3])
                if e[3] == 'e':
                    told = 'stop at call %d' % calls
                calls += 1
            k = index.get((at,) + ev)
            if k is None:
                events.append(list(ev) + [[]])
                k = len(events) - 1
                index[(at,) + ev] = k
                events[at][3].append(k + 1)
            at = k
    return {'tree': tree, 'events': events}


def visits(ck, texts, policies, what, check, batch=60000):
    """texts: (entry, text); policies: function of the number of the text."""
    res = ck.real([('visit', '%s:%s' % (e, policies(i)), hexed(x)) for i, (e, x) in enumerate(texts)])
    rows, keep = [], []
    kinds = set()
    for i, ((e, x), r) in enumerate(zip(texts, res)):
        if 'nodes' not in r:
            if r.get('res') not in ('err',):
                ck.violation({'kind': 'a traversal did not end', 'entry': e, 'text': x, 'got': str(r)[:500]})
            continue
        rows.append(case_of(r))
        keep.append(i)
        kinds |= set(n[0] for n in r['nodes'])
        ck.count('traversals', len(r['runs']))
        ck.count('calls', sum(sum(v[0] in ('enter', 'exit') for v in run['evs']) for run in r['runs']))
    ck.count('trees', len(rows))
    at, n = 0, 0
    while at < len(rows) and not ck.gave_up:                       # in portions TLC can hold
        end, size = at, 0
        while end < len(rows) and (size < batch * 10 or end == at):
            size += len(rows[end]['events'])
            end += 1

        def origin(j, at=at):
            i = keep[at + j]
            p = policies(i)
            return {'entry': texts[i][0], 'text': texts[i][1], 'policies': p, 'nodes': res[i]['nodes'][:200]}
        ck.conform('VisitConform', rows[at:end], what, env={'CHECK': check}, origin=origin)
        at = end
    return kinds, len(rows)


def parts(ck, depth, limit=10 ** 9):
    """Short texts of every construct, each through its own entry point."""
    out = [(e, k) for e, k, _ in corpus.shapes(ck, depth) if e in ENTRIES]
    if len(out) > limit:                             # all of the lesser depth, and some of the others
        near = set((e, tuple(k)) for e, k, _ in corpus.shapes(ck, depth - 1))
        more = random.Random(ck.seed).sample([x for x in out if (x[0], tuple(x[1])) not in near], limit)
        out = [x for x in out if (x[0], tuple(x[1])) in near] + more
    return [(e, corpus.spaced(corpus.texts_for(k, ck.salt + i))) for i, (e, k) in enumerate(out)]


def wholes(ck, runs, salt):
    """Whole contracts: every situation of the grammar, random derivations, the repository's own."""
    out = [('Program', corpus.spaced(corpus.texts_for(k, ck.salt + i)))
           for i, k in enumerate(construct_sentences(ck, 1, 3 if ck.thorough else 2))]
    for kw in (dict(salt=salt), dict(salt=salt + 1, kinded=False, repeat=8, budget=200, depth=30)):
        out += [('Program', corpus.spaced(s)) for s in corpus.sentences(ck, runs, **kw)]
    return out


def contracts(limit):
    return [('Program', x) for _, x in corpus.contracts() if len(x) < limit]


ALL_KINDS = 46


def machine(ck):
    """The state machine itself, on all trees up to a size with all answers."""
    r = ck.tlc('VisitorMC', cfg=None if not ck.thorough else 'VisitorMCdeep.cfg', deadlock=False)
    if r.violated:
        raise ToolError('Visitor.tla breaks its own promises: %s' % r.violated)


def random_policy(rng):
    """Several skips, and perhaps an error after them."""
    p = 's' + '.'.join(str(k) for k in sorted(rng.sample(range(1, 60), rng.randrange(1, 8))))
    return p + ('f%d' % rng.randrange(0, 60) if rng.random() < 0.6 else '')


def c10(ck):
    machine(ck)
    texts = parts(ck, *((4, 15000) if ck.thorough else (3,))) + wholes(ck, 800 if ck.thorough else 100, 71) + contracts(10 ** 7 if ck.thorough else 30000)
    kinds, n = visits(ck, texts, lambda i: '-', 'order of the calls of a visitor that continues', 'order')
    ck.count('kinds_of_node', len(kinds))
    ck.need(len(kinds) == ALL_KINDS and n > 0.9 * len(texts), 'only %d kinds of node, %d of %d texts' % (len(kinds), n, len(texts)))
    ck.sample({'entry': texts[50][0], 'text': texts[50][1], 'policy': 'always continue'})
    ck.sample({'entry': texts[-1][0], 'text': texts[-1][1][:300]})


def steered(ck, what, check):
    machine(ck)
    rng = random.Random(ck.seed)
    a = parts(ck, *((4, 15000) if ck.thorough else (3,)))
    b = wholes(ck, 300 if ck.thorough else 40, 73) + contracts(10 ** 7 if ck.thorough else 12000)
    mixed = [','.join(['-'] + [random_policy(rng) for _ in range(4)]) for _ in range(500)]

    def policies(i):
        if i < len(a):
            return mixed[i % 500] + ',S,F'
        return mixed[i % 500] + (',F' if i % 5 == 0 else '')
    kinds, n = visits(ck, a + b, policies, what, check)
    ck.count('kinds_of_node', len(kinds))
    ck.need(len(kinds) == ALL_KINDS and n > 0.9 * len(a + b), 'only %d kinds of node, %d of %d texts' % (len(kinds), n, len(a + b)))
    for k in (7, len(a) // 2, len(a) + 5):
        ck.sample({'entry': (a + b)[k][0], 'text': (a + b)[k][1][:300], 'policies': policies(k)})


def c11(ck):
    steered(ck, 'calls after skip and error answers, and the result', 'order')


def c12(ck):
    steered(ck, 'spans pushed and popped', 'spans')
