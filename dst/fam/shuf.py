"""Every family again, with the concurrent processes of the generated text in another order.

A Verilog simulator may run the processes of one instant in any order.  The design of the
base family is compiled in its original order and in seeded permutations of its processes
(always, assign, initial, instances); the recorded history of every run has to be the same.
"""
import os
import re
import shutil
import sys

from .. import core
from ..core import V

MINIMISE = ('sched', 'ops')
BASES = [('axim', {}), ('aximlite', {}), ('axisreg', {}), ('axisraw', {}), ('memmodel', {}), ('axistream', {}), ('aximstream', {}),
         ('fifo', {}), ('sync', {}), ('life', {}), ('prog', {}), ('ram', {}), ('strm', {'mode': 'calc'}), ('strm', {'mode': 'fifo'}),
         ('strm', {'mode': 'ctl'}), ('skid', {}), ('seqf', {}), ('fsmf', {})]


def gen_cfg(rng, i=0, style={}):
    if 'base' in style:
        b, st = [x for x in BASES if x[0] == style['base']][0]
    else:
        b, st = BASES[i % len(BASES)]
    F = core.load_family(b)
    c = F.gen_cfg(rng, i, st)
    # two ports that write one word in one cycle are undefined in hardware as well
    while b == 'ram' and len(set((u['ram'], u['port']) for u in c['users'])) != len(set(u['ram'] for u in c['users'])):
        c = F.gen_cfg(rng, i, st)
    return {'base': b, 'style': st, 'cfg': c, 'perm': [rng.getrandbits(30) for _ in range(style.get('perms', 3))]}


def gen_run(cfg, rng, style={}):
    run = core.load_family(cfg['base']).gen_run(cfg['cfg'], rng, cfg['style'])
    if cfg['base'] == 'ram':
        run['ext'] = [[e[0], 0] + e[2:] for e in run['ext']]
    return run


def normalise(cfg, run):
    b = core.load_family(cfg['base'])
    return b.normalise(cfg['cfg'], run) if hasattr(b, 'normalise') else run


def canon(log):
    """Lines printed by different processes of one instant have no order."""
    return sorted(x for x in log.split("\n") if not re.match(r"(WARNING|ERROR): .*:\d+:", x))


class ShufSim:
    def __init__(self, cfg, wd):
        self.fam = sys.modules[__name__]
        self.cfg = cfg
        base = core.load_family(cfg['base'])
        self.base = base
        self.build_violation = None
        os.makedirs(wd, exist_ok=True)
        self.wd = wd
        self.sims = [core.Sim(base, cfg['cfg'], os.path.join(wd, 's0'))]
        self.k = 0
        if self.sims[0].build_violation:
            return
        with open(os.path.join(wd, 's0', 'dut.v')) as f:
            text = f.read()
        self.moved = 0
        for i, p in enumerate(cfg['perm']):
            d = os.path.join(wd, 's%d' % (i + 1))
            os.makedirs(d)
            t, n = core.shuffle_processes(text, core.rng_for('shuffle', p))
            self.moved = n
            with open(os.path.join(d, 'dut.v'), 'w') as f:
                f.write(t)
            for x in os.listdir(os.path.join(wd, 's0')):
                if x not in ('dut.v', 'sim.vvp') and os.path.isfile(os.path.join(wd, 's0', x)):
                    shutil.copy(os.path.join(wd, 's0', x), d)
            core.iverilog(['tb.v', 'dut.v'], 'sim.vvp', d)
            self.sims.append(d)

    def execute(self, run):
        if self.sims[0].build_violation:
            return [], {}
        self.k += 1
        logs = []
        viols = []
        for i in range(len(self.sims)):
            d = self.wd + '/s%d' % i
            rd = os.path.join(d, 'r%d' % self.k)
            os.makedirs(rd)
            try:
                self.base.files(self.cfg['cfg'], run, rd)
                try:
                    logs.append(core.vvp(os.path.join(d, 'sim.vvp'), rd))
                except (core.SimHang, core.CompileError) as e:
                    logs.append('FAIL %s' % type(e).__name__)
            finally:
                shutil.rmtree(rd)
        ref = canon(logs[0])
        for i, l in enumerate(logs[1:]):
            c = canon(l)
            if c != ref:
                a = [x for x in c if x not in set(ref)][:2]
                b = [x for x in ref if x not in set(c)][:2]
                viols.append(V('order-dependent', '%s: process order %d changes the history: %r instead of %r' % (self.cfg['base'], i, a, b)))
                break
        try:
            st = dict(self.base.check(self.cfg['cfg'], run, logs[0])[1])
        except Exception:
            st = {}
        st['probes'] = {'orders': len(logs) - 1, 'processes_moved': self.moved, 'lines_compared': len(ref)}
        st['key'] = core.digest(ref)
        st['nontrivial'] = self.moved > 1 and len(ref) > 4
        st['logh'] = core.digest(logs)
        return viols, st


def make_sim(cfg, wd):
    return ShufSim(cfg, wd)
