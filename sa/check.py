"""python3 sa/check.py <property id> [--thorough] -- decide one property from the source in /repo."""
import json
import os
import sys
import time
import traceback

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
sys.setrecursionlimit(20000)

from sa.core import VERIF, AnchorMissing, Budget, Ctx  # noqa: E402
from sa import rules  # noqa: E402

ASSUMPTIONS = [
    'Python semantics of the statement and expression kinds used in the package; decorators, metaclasses and monkey patching at run time are not followed',
    'Effects of callees outside the package are limited to their documented result and exceptions; an exception is considered at a call only where a handler is active',
    'Objects given as arguments are not aliased to one another unless passed as the same value',
]


def load_known():
    out = []
    p = os.path.join(VERIF, 'known_findings.txt')
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line.startswith('known:'):
                d = dict(x.split('=', 1) for x in line[6:].split(' | ')[0].split())
                out.append((d['property'], d['rule'], d['construct'], line.split(' | ', 1)[1] if ' | ' in line else ''))
    return out


def main():
    pid = sys.argv[1]
    tier = 'thorough' if '--thorough' in sys.argv or os.environ.get('VERIF_TIER') == 'thorough' else 'quick'
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    root = os.environ.get('VERIF_REPO', '/repo')
    t0 = time.time()
    err = None
    ctx = None
    try:
        ctx = Ctx(pid, tier, root)
        rules.RULES[pid](ctx)
        if ctx.obligations < rules.MIN_OBLIGATIONS.get(pid, 1) and not ctx.findings:
            err = 'only %d obligations found, expected at least %d' % (ctx.obligations, rules.MIN_OBLIGATIONS.get(pid, 1))
    except AnchorMissing as e:
        err = 'anchor missing: %s' % e
    except Budget as e:
        err = 'analysis budget exceeded: %s' % e
    except Exception:
        err = traceback.format_exc()
    known = [k for k in load_known() if k[0] == pid]
    viol, knownhits = [], []
    for f in (ctx.findings if ctx else ()):
        k = [x for x in known if x[1] == f['rule'] and x[2] == f['construct']]
        (knownhits if k else viol).append((f, k[0] if k else None))
    evd = os.environ.get('VERIF_EVIDENCE') or os.path.join(VERIF, 'evidence')
    os.makedirs(evd, exist_ok=True)
    if ctx is not None:
        cov = {
            'explanation': (rules.EXPLAIN.get(pid) or 'Path-sensitive interprocedural dataflow over the syntax tree of /repo/openid; '
                            'each obligation is a rule instance checked on an analysed path or construct.'),
            'obligations': ctx.obligations, 'discharged': ctx.passed,
            'modules_parsed': len(ctx.p.mods), 'functions_analysed': len(ctx.functions),
            'call_sites_followed': ctx.call_sites, 'path_outcomes': ctx.outcomes,
            'rules': {r: {'instances': a, 'held': b} for r, (a, b) in sorted(ctx.rules.items())},
            'entry_points': ctx.runs[:60], 'functions': sorted(ctx.functions)[:400], 'samples': ctx.samples,
            'source_digest': ctx.p.digest if isinstance(ctx.p.digest, str) else ctx.p.digest.hexdigest(),
        }
        ev = {'property': pid, 'tier': tier, 'seed': seed, 'level': 'other', 'coverage': cov, 'assumptions': ASSUMPTIONS,
              'wall_s': round(time.time() - t0, 3), 'violations': len(viol),
              'known_findings': [f['message'] for f, _ in knownhits]}
        with open(os.path.join(evd, pid + '.json'), 'w') as fh:
            json.dump(ev, fh, indent=1, sort_keys=True)
            fh.write('\n')
        print('%s: %d/%d obligations hold, %d rules, %d functions, %d path outcomes, %.1f s' % (
            pid, ctx.passed, ctx.obligations, len(ctx.rules), len(ctx.functions), ctx.outcomes, time.time() - t0))
    for f, k in knownhits:
        print('KNOWN-FINDING: property=%s %s at %s: %s' % (pid, f['rule'], f['construct'], f['message']))
    if viol:
        rp = os.path.join(evd, pid + '.violation.json')
        with open(rp, 'w') as fh:
            json.dump([f for f, _ in viol], fh, indent=1)
        for f, _ in viol[:20]:
            print('  %s [%s] %s: %s' % (f['where'], f['rule'], f['construct'], f['message']))
        print('VIOLATION property=%s replay=%s' % (pid, rp))
        return 1
    if err:
        print('ANALYSIS-ERROR property=%s %s' % (pid, err))
        return 2
    return 0


if __name__ == '__main__':
    sys.exit(main())
