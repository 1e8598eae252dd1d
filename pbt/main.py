"""Runs a property's facets in parallel worker processes and reports."""
import argparse
import importlib
import json
import os
import shutil
import signal
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
HANG = 90            # seconds one case may take before it counts as not terminating
HANG_CONFIRM = 150   # and this much when it is run again, alone


def spawn(cmd, cwd, log):
    env = dict(os.environ)
    env['TMPDIR'] = cwd
    return subprocess.Popen([sys.executable, '-X', 'faulthandler', '-m', 'pbt.worker'] + cmd, cwd=cwd,
                            env=env, stdout=log, stderr=subprocess.STDOUT, start_new_session=True)


def stop(p):
    try:
        os.killpg(p.pid, signal.SIGKILL)
    except (ProcessLookupError, PermissionError):
        pass
    try:
        p.wait(10)
    except subprocess.TimeoutExpired:
        pass


def confirm(pid, rec, scratch):
    """Re-run a case alone: 'fail', 'hang', 'crash' or 'pass'."""
    d = tempfile.mkdtemp(dir=scratch)
    path = os.path.join(d, 'case.json')
    json.dump(rec, open(path, 'w'))
    with open(os.path.join(d, 'log'), 'w') as log:
        p = spawn(['--replay', pid, path], d, log)
        try:
            rc = p.wait(HANG_CONFIRM)
        except subprocess.TimeoutExpired:
            stop(p)
            return 'hang'
        stop(p)
    if rc == 0:
        return 'pass'
    if rc == 1:
        tail = open(os.path.join(d, 'log')).read()
        return 'fail' if 'replay: violated:' in tail else 'error'
    return 'crash' if rc < 0 else 'error'


FATAL = [-x for x in (signal.SIGSEGV, signal.SIGABRT, signal.SIGBUS, signal.SIGFPE, signal.SIGILL)]    # not a kill from outside


def rerun(pid, name, tier, seed, s, n, scratch):
    """Run one shard of a facet again: (exit status, last case or None)."""
    d = tempfile.mkdtemp(dir=scratch)
    out, cur = os.path.join(d, 'out.json'), os.path.join(d, 'current.json')
    with open(os.path.join(d, 'log'), 'w') as log:
        p = spawn([pid, name, tier, str(seed), str(s), str(n), out, cur], d, log)
        try:
            rc = p.wait(400 if tier == 'quick' else 6 * 3600)
        except subprocess.TimeoutExpired:
            rc = None
        stop(p)
    return rc, json.load(open(cur)) if os.path.exists(cur) else None


def do_replay(pid, path):
    scratch = tempfile.mkdtemp(prefix='verif-replay-')
    try:
        rec = json.load(open(path))
        if 'sequence' in rec:
            rc, _ = rerun(pid, rec['facet'], *rec['sequence'], scratch)
            print('replay: the sequence of cases exits with %s' % rc)
            if rc in FATAL:
                print('VIOLATION property=%s replay=%s' % (pid, path))
            return 1 if rc in FATAL else 0 if rc == 0 else 2
        p = spawn(['--replay', pid, os.path.abspath(path)], scratch, None)
        rc = p.wait()
        stop(p)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    if rc == 1:
        print('VIOLATION property=%s replay=%s' % (pid, path))
    return rc


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('pid')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'), choices=('quick', 'thorough'))
    ap.add_argument('--seed', type=int, default=int(os.environ.get('VERIF_SEED', '1') or 1))
    ap.add_argument('--replay')
    ap.add_argument('--facet', action='append')
    ap.add_argument('--jobs', type=int, default=int(os.environ.get('VERIF_JOBS', '8')))
    ap.add_argument('--scale', type=float)
    ap.add_argument('-v', action='store_true')
    a = ap.parse_args()
    pid = a.pid
    if a.scale:
        os.environ['VERIF_SCALE'] = str(a.scale)
    if a.replay:
        sys.exit(do_replay(pid, a.replay))

    t0 = time.time()
    from pbt.worker import add_hypothesis
    add_hypothesis()
    mod = importlib.import_module('pbt.checks.' + pid)
    facets = [f for f in mod.FACETS if not a.facet or f.name in a.facet]
    limit = 600 if a.tier == 'quick' else 6 * 3600
    scratch = tempfile.mkdtemp(prefix='verif-%s-' % pid)
    replays = os.path.join(HERE, 'replays')
    results, failures, errors, running = {}, [], [], []
    signal.signal(signal.SIGTERM, lambda *a: sys.exit(143))
    try:
        todo = []
        for f in facets:
            n = f.nshards(a.tier)
            for s in range(n):
                todo.append((f, s, n))
        width = getattr(mod, 'WIDTH', 1)     # processes one worker uses
        jobs = max(1, a.jobs // width)
        while (todo or running) and not failures:
            while todo and len(running) < jobs:
                f, s, n = todo.pop(0)
                d = tempfile.mkdtemp(prefix='%s-%d-' % (f.name, s), dir=scratch)
                out, cur = os.path.join(d, 'out.json'), os.path.join(d, 'current.json')
                log = open(os.path.join(d, 'log'), 'w')
                p = spawn([pid, f.name, a.tier, str(a.seed), str(s), str(n), out, cur], d, log)
                running.append((p, f, s, d, out, cur, time.time()))
            time.sleep(0.05)
            for r in list(running):
                p, f, s, d, out, cur, start = r
                rc = p.poll()
                now = time.time()
                if rc is None:
                    hung = False
                    if os.path.exists(cur):
                        hung = now - os.path.getmtime(cur) > HANG * getattr(mod, 'SLOW', 1)
                    if not hung and now - start < limit:
                        continue
                    stop(p)
                    running.remove(r)
                    if hung:
                        rec = json.load(open(cur))
                        verdict = confirm(pid, rec, scratch)
                        if verdict in ('hang', 'fail', 'crash'):
                            rec['message'] = 'the case does not terminate (%s when run alone)' % verdict
                            failures.append(rec)
                        else:
                            errors.append('%s/%d: stalled, not reproduced (%s)' % (f.name, s, verdict))
                    else:
                        errors.append('%s/%d: ran out of its %d s' % (f.name, s, limit))
                    continue
                running.remove(r)
                stop(p)
                if os.path.exists(out):
                    res = json.load(open(out))
                    results[(f.name, s)] = res['stats']
                    if res['fail']:
                        failures.append(res['fail'])
                    continue
                text = open(os.path.join(d, 'log')).read()
                if rc is not None and (rc < 0 or 'Fatal Python error' in text) and os.path.exists(cur):
                    rec = json.load(open(cur))
                    verdict = confirm(pid, rec, scratch)
                    if verdict in ('crash', 'fail', 'hang'):
                        rec['message'] = 'the process dies on this case (exit %s; alone: %s)' % (rc, verdict)
                        failures.append(rec)
                        continue
                    # memory damaged by an earlier case shows later: the same sequence of cases has to die again
                    if rc in FATAL:
                        seq = [a.tier, a.seed, s, f.nshards(a.tier)]
                        again, last = rerun(pid, f.name, *seq, scratch)
                        if again in FATAL and last is not None:
                            last['sequence'] = seq
                            last['message'] = ('the process dies (exit %s) after a sequence of cases, of which this is the last; again in a second run '
                                               'of %s shard %d of %d with seed %d' % (rc, f.name, s, seq[3], a.seed))
                            failures.append(last)
                            continue
                errors.append('%s/%d: worker exit %s\n%s' % (f.name, s, rc, text[-3000:]))
    finally:
        for r in running:
            stop(r[0])
        shutil.rmtree(scratch, ignore_errors=True)

    # ------------------------------------------------------------------ report
    cov = {'evaluations': 0, 'distinct_nontrivial': 0, 'rule': '', 'samples': [], 'facets': {}}
    rules = []
    for f in facets:
        st = [v for (n, s), v in results.items() if n == f.name]
        ev = sum(x['evaluations'] for x in st)
        nt = set()
        classes, maxerr = {}, {}
        for x in st:
            nt.update(x['nontrivial'])
            for k, v in x['classes'].items():
                classes[k] = classes.get(k, 0) + v
            for k, v in x['maxerr'].items():
                maxerr[k] = max(v, maxerr.get(k, 0))
        cov['evaluations'] += ev
        cov['distinct_nontrivial'] += len(nt)
        cov['facets'][f.name] = {'evaluations': ev, 'distinct_nontrivial': len(nt),
                                 'discarded': sum(x['discarded'] for x in st),
                                 'classes': dict(sorted(classes.items())), 'largest_error_seen': maxerr}
        rules.append('%s: %s' % (f.name, f.rule))
        for x in st[:1]:
            cov['samples'] += [{'facet': f.name, 'case': c} for c in x['samples'][:1]]
    cov['rule'] = ' | '.join(rules)
    known = {}
    for x in results.values():
        for k, v in x['known'].items():
            known[k] = known.get(k, 0) + v
    ev = {'property': pid, 'tier': a.tier, 'seed': a.seed, 'level': getattr(mod, 'LEVEL', 'exploration'),
          'coverage': cov, 'assumptions': getattr(mod, 'ASSUMPTIONS', []),
          'wall_s': round(time.time() - t0, 2), 'violations': len(failures)}
    if known:
        cov['known_findings_hit'] = known
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    if not a.facet:
        with open(os.path.join(HERE, 'evidence', pid + '.json'), 'w') as f:
            json.dump(ev, f, indent=1)
    for e in errors:
        print('ERROR', pid, e)
    for k, v in sorted(known.items()):
        print('KNOWN-FINDING: property=%s %s (%d cases)' % (pid, k, v))
    if a.v:
        for k, v in cov['facets'].items():
            print(k, json.dumps(v))
    print('%s %s seed=%d: %d cases, %d distinct non-trivial, %.1f s' % (
        pid, a.tier, a.seed, cov['evaluations'], cov['distinct_nontrivial'], time.time() - t0))
    if failures:
        os.makedirs(replays, exist_ok=True)
        from pbt.core import digest
        for rec in failures[:3]:
            path = os.path.join(replays, '%s-%s-%s.json' % (pid, rec['facet'], digest(rec['case'])))
            with open(path, 'w') as f:
                json.dump(dict(rec, property=pid), f, indent=1)
            print('  ', rec['facet'], rec['message'][:600])
            print('   case:', json.dumps(rec['case'])[:800])
            print('VIOLATION property=%s replay=%s' % (pid, path))
        sys.exit(1)
    sys.exit(2 if errors else 0)


if __name__ == '__main__':
    main()
