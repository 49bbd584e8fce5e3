#!/usr/bin/env python3
'''check.py PROPERTY-ID   decide one property of /repo by abstract interpretation of its source.

exit 0: held on everything analysed (listed findings are printed as KNOWN-FINDING)
exit 1: at least one violation, one line "VIOLATION property=<id> replay=<path>" each
exit 2: the analysis itself is broken (vanished anchor, nothing decided, crash)
'''
import importlib
import json
import multiprocessing
import os
import signal
import sys
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.setrecursionlimit(60000)

from absint import harness                       # noqa: E402
from absint.values import AnalysisError, OutOfTime          # noqa: E402

_cases = []
LIMIT = {'quick': 120, 'thorough': 1800}      # seconds of processor time for an obligation
TOTAL = {'quick': 600, 'thorough': 1e9}       # seconds for the whole check
_clock = [0, 120, 600]


def _late(signum, frame):
    it = harness.interp()
    if it.journal is None:                    # between partitions
        signal.setitimer(signal.ITIMER_VIRTUAL, 0.1)
        return
    raise OutOfTime()


def _work(i):
    case = _cases[i]
    t = time.time()
    lines = os.environ.get('VERIF_LINES')     # development: where to note the statements analysed
    if lines:
        harness.interp().track_lines = True
        with open('%s.%d' % (lines, os.getpid()), 'w') as f:
            json.dump(sorted(harness.interp().lines), f)
    start, limit, total = _clock
    left = start + total - t
    if left < 1:
        return i, [harness.Verdict(case.key, 'undecided', 'out of time')], 0.0
    signal.signal(signal.SIGVTALRM, _late)
    signal.setitimer(signal.ITIMER_VIRTUAL, min(limit, left))
    try:
        vs = case.decide()
    except AnalysisError as e:
        vs = [harness.Verdict(case.key, 'undecided', 'not modelled: %s' % e)]
        harness.interp().reset_after_error()
    except RecursionError:
        vs = [harness.Verdict(case.key, 'undecided', 'analysis recursion')]
        harness.interp().reset_after_error()
    except Exception:
        vs = [harness.Verdict(case.key, 'broken', traceback.format_exc())]
        harness.interp().reset_after_error()
    except OutOfTime:
        vs = [harness.Verdict(case.key, 'undecided', 'out of time')]
        harness.interp().reset_after_error()
    finally:
        signal.setitimer(signal.ITIMER_VIRTUAL, 0)
    return i, vs, time.time() - t


def load_findings(pid):
    out = []
    p = os.path.join(HERE, 'known_findings.jsonl')
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line and not line.startswith('#'):
                d = json.loads(line)
                if d.get('status') == 'open' and d['property'] == pid:
                    out.append(d)
    return out


def main():
    pid = sys.argv[1]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--thorough' in sys.argv:
        tier = 'thorough'
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t0 = time.time()
    _clock[:] = [t0, LIMIT.get(tier, 120), TOTAL.get(tier, 600)]
    from checks import registry
    mod = importlib.import_module('checks.' + registry.CHECKS[pid])
    only = [a[5:] for a in sys.argv if a.startswith('only=')]
    verbose = '-v' in sys.argv
    try:
        it = harness.interp()
        cases = list(mod.cases(tier))
    except Exception as e:
        traceback.print_exc()
        v = getattr(e, 'value', None)
        if v is not None:
            print('ANALYSIS-BROKEN: the source cannot be loaded:', v, getattr(e, 'where', ''))
        return 2
    if only:
        cases = [c for c in cases if any(o in c.key for o in only)]
    _cases.extend(cases)
    nproc = int(os.environ.get('VERIF_JOBS', '8'))
    results = [None] * len(cases)
    order = list(range(len(cases)))
    if nproc > 1 and len(cases) > 8:
        with multiprocessing.get_context('fork').Pool(nproc) as pool:
            for i, vs, t in pool.imap_unordered(_work, order, chunksize=max(1, min(16, len(cases) // (nproc * 6) or 1))):
                results[i] = (vs, t)
    else:
        for i in order:
            _, vs, t = _work(i)
            results[i] = (vs, t)

    findings = load_findings(pid)
    used = set()
    proved = undecided = partitions = 0
    violations, known, und, broken = [], [], [], []
    for c, (vs, t) in zip(cases, results):
        bad = False
        partitions += len(vs)
        for v in vs:
            if v.kind == 'proved':
                continue
            bad = True
            if v.kind == 'violation':
                f = match_finding(findings, v)
                if f is not None:
                    known.append((f, v))
                    used.add(f['id'])
                else:
                    violations.append(v)
            elif v.kind == 'broken':
                broken.append(v)
            else:
                und.append(v)
        if not vs:
            und.append(harness.Verdict(c.key, 'undecided', 'no feasible partition'))
            bad = True
        if not bad:
            proved += 1

    rep_dir = os.environ.get('VERIF_EVIDENCE') or os.path.join(HERE, 'evidence')
    os.makedirs(rep_dir, exist_ok=True)
    rep = os.path.join(rep_dir, pid + '.report.txt')
    with open(rep, 'w') as f:
        f.write('property %s  tier %s\n' % (pid, tier))
        for v in violations:
            f.write('VIOLATION rule=%s\n  case: %s\n  what: %s\n  input: %s\n  construct: %s\n  path: %s\n' % (
                getattr(mod, 'RULE', ''), v.case, v.detail, v.witness, v.construct, ' -> '.join(v.trace)))
        for fd, v in known:
            f.write('KNOWN %s case %s: %s [%s] %s\n' % (fd['id'], v.case, v.detail, v.witness, v.construct))
        for v in und:
            f.write('UNDECIDED %s: %s %s\n' % (v.case, v.detail, v.construct))
        for v in broken:
            f.write('BROKEN %s: %s\n' % (v.case, v.detail))

    samples = []
    step = max(1, len(cases) // 6)
    for c, (vs, t) in list(zip(cases, results))[::step][:8]:
        samples.append({'case': c.key, 'class': c.describe(), 'partitions': len(vs),
                        'verdict': sorted({v.kind for v in vs})})
    funcs = sorted(set(x for c, (vs, t) in zip(cases, results) for v in vs for x in v.funcs))
    ev = {
        'property': pid, 'tier': tier, 'seed': seed, 'level': 'other',
        'coverage': {
            'explanation': getattr(mod, 'EXPLANATION', '').strip() + ' Rule applied: ' + getattr(mod, 'RULE', ''),
            'obligations': len(cases), 'discharged': proved,
            'undecided': len(set(v.case for v in und + broken)),
            'partitions_analysed': partitions,
            'functions_analysed': len(funcs), 'functions': funcs[:400],
            'known_findings': sorted(used),
            'samples': samples,
            'trusted_base': ['absint/ (abstract interpreter of the Python subset used by the repository)',
                             'checks/%s.py (specification tables)' % registry.CHECKS[pid]],
            'rule': getattr(mod, 'RULE', ''),
        },
        'assumptions': list(getattr(mod, 'ASSUMPTIONS', ())),
        'wall_s': round(time.time() - t0, 3),
        'violations': len(violations),
    }
    with open(os.path.join(rep_dir, pid + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)

    seen = set()
    for fd, v in known:
        if fd['id'] not in seen:
            seen.add(fd['id'])
            print('KNOWN-FINDING: property=%s %s' % (pid, fd['what']))
    shown = 0
    byc = {}
    for v in violations:
        byc.setdefault(v.case, v)
    for v in byc.values():
        print('VIOLATION property=%s replay=%s' % (pid, rep))
        print('  case      %s' % v.case)
        print('  rule      %s' % getattr(mod, 'RULE', ''))
        print('  construct %s' % v.construct)
        print('  what      %s' % v.detail)
        print('  input     %s' % v.witness)
        shown += 1
        if shown >= (200 if verbose else 10):
            print('  ... %d more, see the report' % (len(byc) - shown))
            break
    if verbose:
        for v in {v.case: v for v in und}.values():
            print('UNDECIDED', v.case, v.detail[:300], v.construct)
    for v in broken[:5]:
        print('ANALYSIS-ERROR (obligation counted as undecided)', v.case, v.detail)
    print('%s: %d obligations, %d discharged, %d violated, %d undecided, %d partitions, %.1fs' % (
        pid, len(cases), proved, len(set(v.case for v in violations)), len(set(v.case for v in und)), partitions, time.time() - t0))
    if verbose:
        slow = sorted(((t, c.key) for c, (vs, t) in zip(cases, results)), reverse=True)[:5]
        print('slowest', slow)
    if violations:
        return 1
    floor = getattr(mod, 'MIN_OBLIGATIONS', 1)
    if not only and len(cases) < floor:
        print('ANALYSIS-BROKEN: %d obligations, expected at least %d' % (len(cases), floor))
        return 2
    late = sum(any(v.detail == 'out of time' for v in vs) for vs, t in results)
    if late:
        print('%d obligations were not reached in time' % late)
    if not only and cases and proved + len(known) < max(1, getattr(mod, 'MIN_PROVED_RATIO', 0.1) * (len(cases) - late)) and late < len(cases):
        print('ANALYSIS-BROKEN: only %d of %d obligations decided' % (proved, len(cases)))
        return 2
    return 0


def match_finding(findings, v):
    for f in findings:
        if f['case'] == v.case and f.get('signature', '') in v.detail:
            return f
    return None


if __name__ == '__main__':
    sys.exit(main())
