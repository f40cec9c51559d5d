"""Free exploration of one family: python -m dst.explore FAM NCFG NRUN [style-json] [seed]"""
import json
import os
import shutil
import sys
import time

from . import core, main


def run(fam, ncfg, nrun, style, seed, cfgs=None):
    F = core.load_family(fam)
    rng = core.rng_for('explore', fam, seed)
    jobs = []
    for i in range(ncfg):
        cfg = cfgs[i] if cfgs else F.gen_cfg(rng, i, style)
        jobs.append(core.make_job(F, fam, cfg, [core.rng_for(seed, i, k) for k in range(nrun)], style))
    t0 = time.time()
    scratch = main.mkscratch()
    try:
        res = main.execute_jobs(None, jobs, scratch, main.nproc())
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    os.makedirs('/tmp/w/x', exist_ok=True)
    for f in os.listdir('/tmp/w/x'):
        os.unlink('/tmp/w/x/' + f)
    pr, fl, runs = {}, {}, 0
    ws = []
    for i, r in enumerate(res):
        if 'err' in r:
            print('ERR', i, r['err'][-800:], json.dumps(jobs[i]['cfg']))
            continue
        o = r['ok']
        ws.append(o['wall'])
        runs += o['runs']
        for d, s in ((pr, o['probes']), (fl, o['faults'])):
            for k, n in s.items():
                d[k] = d.get(k, 0) + n
        v = o['viol']
        if v:
            print('VIOL job', i, v['class'], v['msg'][:300])
            print('   cfg', json.dumps(v['cfg'])[:400])
            json.dump({'property': None, 'fam': fam, 'cfg': v['cfg'], 'run': v['run'], 'class': v['class']},
                      open('/tmp/w/x/%d.json' % i, 'w'))
    print('runs', runs, 'wall %.1f' % (time.time() - t0), 'job wall %.2f..%.2f' % (min(ws or [0]), max(ws or [0])))
    print('probes', pr)
    print('faults', fl)


if __name__ == '__main__':
    main.import_repo()
    a = sys.argv[1:]
    run(a[0], int(a[1]), int(a[2]), json.loads(a[3]) if len(a) > 3 else {}, a[4] if len(a) > 4 else 0)
