import importlib
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile
import time
import traceback

from . import core
from . import props

EVID = os.path.join(core.VERIF, 'evidence')
REPLAYS = os.path.join(core.VERIF, 'replays')
KNOWN = os.path.join(core.VERIF, 'known_findings.json')


def nproc():
    return int(os.environ.get('DST_NPROC', os.cpu_count() or 4))


def known_for(pid):
    with open(KNOWN) as f:
        k = json.load(f)
    return [e for e in k.get('findings', []) if e['property'] == pid]


def matches(entry, viol):
    """A finding is identified by its probe scenario (exact cfg + run) and class."""
    return (entry['class'] == viol['class'] and
            entry['scenario'] == core.digest({'fam': viol['fam'], 'cfg': viol['cfg'],
                                              'run': viol['orig_run']}))


def import_repo():
    """Import the code under test once; children are forked from here."""
    import veriloggen  # noqa
    import veriloggen.thread  # noqa
    import veriloggen.stream  # noqa
    import veriloggen.dataflow  # noqa
    import veriloggen.types.axi  # noqa
    p = os.path.dirname(os.path.abspath(veriloggen.__file__))
    if not p.startswith(os.path.abspath(core.REPO) + os.sep):
        raise core.HarnessError('veriloggen imported from %s' % p)


def mkscratch():
    base = '/dev/shm' if os.access('/dev/shm', os.W_OK) and \
        shutil.disk_usage('/dev/shm').free > (1 << 30) else tempfile.gettempdir()
    d = tempfile.mkdtemp(prefix='dst.', dir=base)
    os.environ['DST_SCRATCH'] = d
    return d


def execute_jobs(pid, jobs, scratch, n):
    for i, j in enumerate(jobs):
        j['idx'] = i
    return core.fork_map(lambda j, wd: core.run_job(pid, j, wd), jobs, n, scratch)


def check(pid, tier):
    t0 = time.time()
    seed = int(os.environ.get('VERIF_SEED', '1'))
    print('seed=%d property=%s tier=%s' % (seed, pid, tier))
    sys.stdout.flush()
    P = props.REG[pid]
    import_repo()
    scratch = mkscratch()
    try:
        return _check(pid, tier, seed, P, scratch, t0)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def _check(pid, tier, seed, P, scratch, t0):
    known = known_for(pid)
    jobs = P['plan'](tier, seed)
    # one job per recorded finding: its exact scenario, outside the search
    kjobs = []
    for e in known:
        with open(os.path.join(core.VERIF, e['file'])) as f:
            sc = json.load(f)
        kjobs.append({'fam': sc['fam'], 'cfg': sc['cfg'], 'runs': [sc['run']]})
    nsearch = len(jobs)
    results = execute_jobs(pid, jobs + kjobs, scratch, nproc())
    errs = [(i, r['err']) for i, r in enumerate(results) if 'err' in r]
    for i, e in errs[:3]:
        sys.stderr.write('job %d failed: %s\n' % (i, e))
        sys.stderr.write('cfg: %s\n' % json.dumps((jobs + kjobs)[i]['cfg']))
    viols = [r['ok']['viol'] for r in results if 'ok' in r and r['ok']['viol']]

    # determinism self-check: first search jobs again, serially
    redo = []
    if not viols and not errs:
        redo_idx = list(range(0, nsearch, max(1, nsearch // P.get('selfcheck', 3))))[:P.get('selfcheck', 3)]
        sub = [dict(jobs[i]) for i in redo_idx]
        sc2 = os.path.join(scratch, 'redo')
        os.makedirs(sc2)
        r2 = core.fork_map(lambda j, wd: core.run_job(pid, j, wd), sub, nproc(), sc2)
        for i, r in zip(redo_idx, r2):
            if 'err' in r or r['ok']['logh'] != results[i]['ok']['logh']:
                errs.append((i, 'nondeterministic replay of job %d' % i))
                sys.stderr.write('nondeterministic job %d %s\n' % (i, r.get('err', '')[-500:]))
            else:
                redo.append(i)

    agg = {'runs': 0, 'cycles': 0, 'faults': {}, 'probes': {}}
    keys, nontriv, samples = set(), set(), []
    per_fam = {}
    for j, r in zip(jobs, results):
        if 'ok' not in r:
            continue
        o = r['ok']
        per_fam[j['fam']] = per_fam.get(j['fam'], 0) + o['runs']
        agg['runs'] += o['runs']
        agg['cycles'] += o['cycles']
        for f in ('faults', 'probes'):
            for k, n in o[f].items():
                agg[f][k] = agg[f].get(k, 0) + n
        keys.update(o['keys'])
        nontriv.update(o['nontrivial'])
        if len(samples) < 3:
            samples.extend(o['samples'])
    search_wall = time.time() - t0
    new, seen_known = [], []
    for v in viols:
        e = [e for e in known if matches(e, v)]
        if e:
            seen_known.append(e[0])
        else:
            new.append(v)
    missing = [p for p in P.get('need_probes', ()) if not agg['probes'].get(p)]
    if missing and not new and not errs:
        sys.stderr.write('probes never hit: %s\n' % missing)
        errs.append((-1, 'probes never hit: %s' % missing))

    ev = {'property': pid, 'tier': tier, 'seed': seed, 'level': P.get('level', 'exploration'),
          'coverage': {
              'evaluations': agg['runs'],
              'distinct_nontrivial': len(nontriv),
              'rule': P['rule'],
              'samples': samples,
              'designs_generated_and_compiled': nsearch,
              'runs_per_hour': int(agg['runs'] * 3600 / max(0.001, search_wall)),
              'simulated_clock_cycles': agg['cycles'],
              'simulated_time_ns': agg['cycles'] * 10,
              'faults_fired': agg['faults'],
              'probes': agg['probes'],
              'distinct_event_orders': len(keys),
              'runs_per_design_family': per_fam,
              'replayed_for_determinism': len(redo),
              'components_real': P.get('real', []),
              'components_stubbed': P.get('stub', []),
              'known_findings_reproduced': [e['id'] for e in seen_known]},
          'assumptions': P.get('assumptions', []),
          'wall_s': round(time.time() - t0, 2),
          'violations': len(new)}
    os.makedirs(EVID, exist_ok=True)
    with open(os.path.join(EVID, pid + '.json'), 'w') as f:
        json.dump(ev, f, indent=1, sort_keys=True)

    for e in known:
        if e in seen_known:
            print('KNOWN-FINDING: property=%s %s' % (pid, e['what']))
        else:
            print('note: recorded finding %s did not occur' % e['id'])
    if new:
        os.makedirs(REPLAYS, exist_ok=True)
        confirmed = 0
        for v in new[:3]:
            path = os.path.join(REPLAYS, '%s-%s.json' % (pid, core.digest([v['cfg'], v['run']])))
            ok = False
            for run in (v['run'], v['orig_run']):
                sc = {'property': pid, 'seed': seed, 'fam': v['fam'], 'cfg': v['cfg'], 'run': run,
                      'class': v['class'], 'msg': v['msg']}
                with open(path, 'w') as f:
                    json.dump(sc, f, indent=1)
                p = subprocess.run([os.path.join(core.VERIF, 'check'), '--replay', path],
                                   stdout=subprocess.PIPE, stderr=subprocess.PIPE)
                if p.returncode == 1:
                    ok = True
                    break
            print('%s: %s' % (v['class'], v['msg']))
            if ok:
                print('  minimised to %s ops, %s schedule events (%d trials)' % (
                    len(v['run'].get('ops', [])), len(v['run'].get('sched', [])), v['trials']))
                print('VIOLATION property=%s replay=%s' % (pid, path))
                confirmed += 1
            else:
                print('replay did not reproduce: harness error')
                sys.stderr.write(p.stderr.decode()[-2000:])
        return 1 if confirmed else 2
    if errs:
        return 2
    print('ok: %d runs, %d designs, %d cycles, %d distinct event orders, %.1fs' % (
        agg['runs'], nsearch, agg['cycles'], len(keys), time.time() - t0))
    return 0


def replay(path):
    with open(path) as f:
        sc = json.load(f)
    import_repo()
    scratch = mkscratch()
    try:
        wd = os.path.join(scratch, 'j')

        def one(job, wd):
            sim = core.make_sim(job, wd)
            return core.filter_v(sim.execute(job['run'])[0], sc['property'])
        r = core.fork_map(one, [sc], 1, scratch)[0]
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    if 'err' in r:
        sys.stderr.write(r['err'])
        return 2
    hit = [v for v in r['ok'] if v['class'] == sc['class']]
    for v in r['ok']:
        print('%s: %s' % (v['class'], v['msg']))
    if hit:
        print('VIOLATION property=%s replay=%s' % (sc['property'], path))
        return 1
    print('no violation of class %s' % sc['class'])
    return 0


def selftest(pid):
    """Print one hash over the logs of the whole quick plan."""
    seed = int(os.environ.get('VERIF_SEED', '1'))
    import_repo()
    scratch = mkscratch()
    try:
        jobs = props.REG[pid]['plan']('quick', seed)
        n = int(os.environ.get('DST_MAXJOBS', len(jobs)))
        res = execute_jobs(pid, jobs[:n], scratch, nproc())
        print(core.digest([r['ok']['logh'] if 'ok' in r else r for r in res]))
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    return 0


def main(argv):
    if argv and argv[0] == '--replay':
        return replay(argv[1])
    if argv and argv[0] == '--selftest':
        return selftest(argv[1])
    tier = argv[1] if len(argv) > 1 else os.environ.get('VERIF_TIER', 'quick')
    return check(argv[0], tier)


if __name__ == '__main__':
    try:
        rc = main(sys.argv[1:])
    except SystemExit:
        raise
    except BaseException:
        traceback.print_exc()
        rc = 2
    sys.stdout.flush()
    os._exit(rc)
