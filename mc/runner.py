"""Command line driver: runs the suites of a check, writes evidence and replay files."""
import importlib
import json
import os
import resource
import signal
import sys
import tempfile
import time
import traceback
import warnings

from mc import boot, engine

VERIF = boot.VERIF


def known_findings(prop):
    path = os.path.join(VERIF, 'KNOWN_FINDINGS.txt')
    found = []
    if os.path.exists(path):
        with open(path, encoding='utf-8') as f:
            for line in f:
                line = line.strip()
                if line.startswith('finding: property=%s ' % prop):
                    head, _, text = line[len('finding: '):].partition(' :: ')
                    found.append((head.split(' ', 1)[1], text))
    return found


def load_check(prop):
    return importlib.import_module('checks.' + prop.lower())


def main(argv):
    warnings.simplefilter('ignore')
    prop = argv[0]
    tier = argv[1] if len(argv) > 1 else os.environ.get('VERIF_TIER', 'quick')
    t0 = time.time()
    try:
        boot.boot()
    except boot.BuildError as exc:
        print('BUILD FAILED', exc, file=sys.stderr)
        return 2
    import numpy as np
    np.seterr(all='ignore')
    check = load_check(prop)
    if tier == '--replay':
        return replay(prop, check, argv[2])
    if tier not in ('quick', 'thorough'):
        print(__doc__, file=sys.stderr)
        return 2
    try:
        engine.FACTOR = 10 if tier == 'thorough' else 1
        suites = check.suites(tier)
    except Exception as exc:  # pylint: disable=broad-except
        # the code under test failed while the enumeration was prepared, or the harness did
        traceback.print_exc()
        src = os.path.join(boot.REPO, 'src') + os.sep
        if any(f.filename.startswith(src) for f in traceback.extract_tb(exc.__traceback__)):
            rdir = os.path.join(VERIF, 'replays')
            os.makedirs(rdir, exist_ok=True)
            rpath = os.path.join(rdir, prop + '-preparation.txt')
            with open(rpath, 'w') as f:
                traceback.print_exc(file=f)
            print('VIOLATION property=%s replay=%s' % (prop, rpath))
            return 1
        return 2
    assert len({s.name for s in suites}) == len(suites)
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    workers = min(8, os.cpu_count() or 1)
    ex = engine.Explorer(suites, workers)
    try:
        results, crashes = ex.explore()
    except engine.HarnessError as exc:
        print('ERROR', exc, file=sys.stderr)
        return 2
    errors = [r['error'] for r in results if r['error']]
    violations = [v for r in results for v in r['violations']]
    for s, idx, status in crashes:
        if s < 0:
            errors.append('worker ended with status %d after its last case' % status)
            continue
        if os.WIFSIGNALED(status):
            sig = signal.Signals(os.WTERMSIG(status)).name
            what = 'the code under test hung' if sig == 'SIGKILL' else 'the interpreter was killed by %s' % sig
        else:
            what = 'the interpreter exited with status %d' % os.WEXITSTATUS(status)
        violations.append((s, idx, engine.nth(suites[s], idx), what, []))
    if errors and not violations:
        print('ERROR', errors[0], file=sys.stderr)
        return 2

    # ---- known findings --------------------------------------------------
    known = known_findings(prop)
    violations.sort(key=lambda v: (v[0], v[1]))

    # ---- coverage --------------------------------------------------------
    per, states, steps, cases, outcomes, skipped, samples = [], set(), 0, 0, {}, {}, []
    for s, suite in enumerate(suites):
        sc, ss, sst, so = 0, 0, set(), {}
        smp = []
        for r in results:
            if s < len(r['suites']):
                c, st, states_, outs, skips, sm = r['suites'][s]
                sc += c
                ss += st
                sst |= states_
                for k, v in outs.items():
                    so[k] = so.get(k, 0) + v
                for k, v in skips.items():
                    skipped[k] = skipped.get(k, 0) + v
                smp += sm
        smp.sort(key=lambda t: t[0])
        samples += [{'suite': suite.name, 'index': i, 'case': d} for i, d in smp[:3]]
        per.append({'suite': suite.name, 'bound': suite.bound, 'cases': sc, 'transitions': ss, 'states': len(sst),
                    'outcomes': dict(sorted(so.items(), key=lambda kv: -kv[1])[:40])})
        states |= {suite.name.encode() + k for k in sst}
        steps += ss
        cases += sc
        for k, v in so.items():
            outcomes[k] = outcomes.get(k, 0) + v
    wall = time.time() - t0
    level = check.LEVEL
    cov = {'samples': samples[:30], 'suites': per, 'exhaustive': not violations and not skipped,
           'distinct_outcomes': len(outcomes)}
    if skipped:
        cov['skipped'] = skipped
    if level == 'model_checking':
        cov.update(states=len(states), transitions=steps, traces_validated_against_impl=cases)
    else:
        cov.update(evaluations=cases, distinct_nontrivial=len(states), rule=check.RULE, comparisons=steps)
    evidence = {'property': prop, 'tier': tier, 'seed': int(os.environ.get('VERIF_SEED', '0') or 0), 'level': level,
                'coverage': cov, 'wall_s': round(wall, 3), 'violations': len(violations),
                'assumptions': check.ASSUMPTIONS}
    edir = os.environ.get('VERIF_EVIDENCE_DIR') or os.path.join(VERIF, 'evidence')
    os.makedirs(edir, exist_ok=True)
    path = os.path.join(edir, prop + '.json')
    with open('%s.%d.tmp' % (path, os.getpid()), 'w') as f:
        json.dump(evidence, f, indent=1)
    os.replace(f.name, path)

    print('%s %s: %d cases, %d states, %d transitions, %d distinct outcomes, %.1f s' %
          (prop, tier, cases, len(states), steps, len(outcomes), wall))
    for row in per:
        print('  %-28s cases=%d transitions=%d states=%d outcomes=%d' %
              (row['suite'], row['cases'], row['transitions'], row['states'], len(row['outcomes'])))
    for key, text in known:
        print('KNOWN-FINDING: property=%s %s' % (prop, text))
    if not violations:
        return 0
    s, idx, desc, msg, history = violations[0]
    suite = suites[s]
    rdir = os.path.join(VERIF, 'replays')
    try:
        os.makedirs(rdir, exist_ok=True)
        rpath = os.path.join(rdir, '%s-%s-%d.json' % (prop, suite.name, idx))
        with open(rpath, 'w') as f:
            json.dump({'property': prop, 'tier': tier, 'suite': suite.name, 'index': idx, 'case': desc, 'message': msg,
                       'history': history, 'how': 'python check.py %s --replay %s' % (prop, rpath)}, f, indent=1)
    except OSError:
        rpath = os.path.join(tempfile.gettempdir(), 'replay-%s.json' % prop)
    print('suite %s, case %d: %s' % (suite.name, idx, json.dumps(desc)[:2000]))
    print(msg[:4000])
    print('VIOLATION property=%s replay=%s' % (prop, rpath))
    return 1


def replay(prop, check, path):
    with open(path) as f:
        rec = json.load(f)
    suites = check.suites(rec.get('tier', 'thorough'))
    suite = {s.name: s for s in suites}[rec['suite']]
    base = engine.scratch_base()
    import shutil
    try:
        for attempt in ('alone', 'after the cases that preceded it'):
            if attempt != 'alone' and not rec.get('history'):
                break
            sys.stdout.flush()
            pid = os.fork()
            if pid == 0:
                code = 3
                try:
                    engine._set_scratch(os.path.join(base, attempt[:5]))
                    r = engine.Recorder()
                    if attempt != 'alone':
                        for s, start in rec['history']:
                            for i, d in enumerate(suites[s].cases()):
                                if i >= start + suites[s].block:
                                    break
                                if i >= start and (suites[s] is not suite or i < rec['index']):
                                    engine.run_case(suites[s], d, r)
                    msg = engine.run_case(suite, rec['case'], r)
                    if msg is None:
                        code = 0
                    else:
                        print(msg)
                        code = 1
                except BaseException:
                    traceback.print_exc()
                finally:
                    sys.stdout.flush()
                    os._exit(code)
            _, status = os.waitpid(pid, 0)
            if os.WIFSIGNALED(status):
                print('the interpreter was killed by signal', os.WTERMSIG(status))
            elif os.WEXITSTATUS(status) == 0:
                continue
            print('reproduced', attempt)
            print('VIOLATION property=%s replay=%s' % (prop, path))
            return 1
    finally:
        shutil.rmtree(base, ignore_errors=True)
    print('not reproduced')
    return 0
