"""DUT family: SkidBuffer / make_skidbuffer, alone and chained, with any payload."""
from .. import core, genmod, vr
from ..core import V

SCH = vr.SCH
MINIMISE = ('sched',)


def ports(cfg):
    ins = [{'n': 's', 'd': [('s%d' % i, w) for i, w in enumerate(cfg['w'])], 'v': 'sv', 'r': 'sr'}]
    outs = [{'n': 'm', 'd': [('m%d' % i, w) for i, w in enumerate(cfg['w'])], 'v': 'mv', 'r': 'mr'}]
    return ins, outs


def build(cfg):
    L = [genmod.HEADER, 'from veriloggen.types.skidbuffer import SkidBuffer, make_skidbuffer', 'def mk():', '    m = Module("dut")',
         '    clk = m.Input("CLK")', '    rst = m.Input("RST")', '    sv = m.Input("sv")', '    sr = m.Output("sr")', '    mv = m.Output("mv")', '    mr = m.Input("mr")']
    a = L.append
    for i, w in enumerate(cfg['w']):
        a('    s%d = m.Input("s%d"%s)' % (i, i, ', %d' % w if w > 1 or cfg['one'] else ''))
        a('    m%d = m.Output("m%d"%s)' % (i, i, ', %d' % w if w > 1 or cfg['one'] else ''))
    d = ', '.join('s%d' % i for i in range(len(cfg['w'])))
    n = cfg['depth']
    for k in range(n + 1):
        a('    r%d = m.Wire("r%d")' % (k, k))
    a('    r%d.assign(mr)' % n)
    v = 'sv'
    for k in range(n):
        if cfg['raw'] and len(cfg['w']) == 1:
            a('    d%d, v%d, q%d = make_skidbuffer(m, clk, rst, %s, %s, r%d)' % (k, k, k, d, v, k + 1))
            a('    r%d.assign(q%d)' % (k, k))
            d = 'd%d' % k
            v = 'v%d' % k
        else:
            a('    b%d = SkidBuffer(m, clk, rst, %s, r%d, %s%s)' % (k, v, k + 1, d, ', prefix="sb%d"' % k if cfg['prefix'] else ''))
            a('    r%d.assign(b%d.ready)' % (k, k))
            d = ', '.join(('b%d[%d]' if cfg['prefix'] else 'b%d.values[%d]') % (k, i) for i in range(len(cfg['w'])))
            v = 'b%d.valid' % k
    a('    sr.assign(r0)')
    a('    mv.assign(%s)' % v)
    for i, x in enumerate(d.split(', ')):
        a('    m%d.assign(%s)' % (i, x))
    a('    return m')
    return genmod.load('\n'.join(L)).mk().to_verilog()


def tb(cfg):
    return vr.tb(*ports(cfg))


def gen_cfg(rng, i=0, style={}):
    return {'w': [rng.choice([1, 1, 8, 32, 7, 64, 3]) for _ in range(rng.choice([1, 1, 2, 3, 5]))], 'depth': rng.choice([1, 1, 1, 2, 3, 4]),
            'raw': rng.random() < 0.3, 'prefix': rng.random() < 0.5, 'one': rng.random() < 0.3}


def gen_run(cfg, rng, style={}):
    ins, outs = ports(cfg)
    return {'n': [rng.choice([0, 1, 2, 3, 10, 40, 150])], 'salt': rng.getrandbits(16), 'rmode': rng.choice([0, 0, 0, 1]),
            'sched': vr.gen_sched(rng, ins, outs, style), 'maxcyc': vr.SCH + 1200}


def want(cfg, run):
    ins, _ = ports(cfg)
    R = []
    for t in vr.inputs(ins, run)[0]:
        x = 0
        for v, w in zip(t, cfg['w']):
            x = x << w | v
        R.append(x)
    return [R]


def files(cfg, run, rd):
    w = want(cfg, run)
    vr.files(*ports(cfg), run, rd, [len(x) for x in w], run['n'])


def check(cfg, run, log):
    return vr.check(*ports(cfg), run, log, want(cfg, run), run['n'], throughput=0 if run.get('rmode', 0) == 0 else None)
