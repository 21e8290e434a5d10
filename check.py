#!/usr/bin/env python3
"""check.py <property> [--tier quick|thorough]: decides one property on /repo's working tree.
Exit 0: held on everything explored; 1: violated (VIOLATION line); 2: the check itself failed."""
import os, sys, traceback
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), 'lib'))
import build, checkbase
from tlc import ToolError


def registry():
    import syntax_checks, summary_checks, lex_checks, visit_checks, session_checks, total_checks
    return {'C01': total_checks.c01, 'C14': session_checks.c14, 'C15': session_checks.c15, 'C10': visit_checks.c10, 'C11': visit_checks.c11, 'C12': visit_checks.c12,
            'C04': lex_checks.c04, 'C05': lex_checks.c05, 'C06': lex_checks.c06, 'C08': lex_checks.c08,
            'C02': summary_checks.c02, 'C03': summary_checks.c03, 'C13': summary_checks.c13,
            'C07': syntax_checks.c07, 'C09': syntax_checks.c09}


def setup():
    """What all checks need: the harness, and the tokens of the long contracts."""
    build.build()
    import corpus
    ck = checkbase.Check('setup', 'quick', 1)
    corpus.spec_tokens(ck, [x for _, x in corpus.contracts()])
    return 0


def main():
    prop = sys.argv[1]
    if prop == 'setup':
        return setup()
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--tier' in sys.argv:
        tier = sys.argv[sys.argv.index('--tier') + 1]
    seed = int(os.environ.get('VERIF_SEED', '1'))
    ck = checkbase.Check(prop, tier, seed)
    try:
        build.build()
        ck.say('built')
        registry()[prop](ck)
        return ck.finish()
    except ToolError as e:
        print('TOOL ERROR: %s' % e)
    except Exception:
        traceback.print_exc()
    if ck.violations:
        return ck.finish()      # what was found stands
    return 2


if __name__ == '__main__':
    sys.exit(main())
