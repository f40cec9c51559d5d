"""DUT family: the simulation memory models (AxiMemoryModel,
AxiMultiportMemoryModel), driven by scheduled bus masters and one thread using
the read/write/read_word/write_word intrinsics."""
import os

from .. import bfm, core, genmod, opthread, linz
from ..core import V
from .axisreg import master_ports, master_inst, MParse, check_master

SCH = 3072
KINDS = ['aw_delay', 'w_delay', 'b_stall', 'ar_delay', 'r_stall']
R0 = 8
MAW = 10
WBITS = (1, 2, 4, 8, 16, 32)


def chans(cfg, style={}):
    return [('%s_p%d' % (k, i), 5 * i + j) for i in range(cfg['np']) for j, k in enumerate(KINDS) if k != 'b_stall' or style.get('b') or cfg.get('serial')]


def imgdata(cfg):
    im = cfg['img']
    n = im['n']
    bits = im['bits']
    return [bfm.dgen(im['s'], i, bits) & ((1 << (bits - 1)) - 1 if bits == 64 else (1 << bits) - 1) for i in range(n)]


def initial(cfg):
    """byte image"""
    im = cfg['img']
    if im['k'] == 'none':
        wb = cfg['mdw'] // 8
        out = []
        for w in range((1 << MAW) // wb):
            out += list((w & ((1 << (8 * wb)) - 1)).to_bytes(wb, 'little'))
        return out
    out = []
    for v in imgdata(cfg):
        out += list(v.to_bytes(im['bits'] // 8, 'little'))
    return out


def sites(cfg):
    s = [None, ('read', 0), ('write', 0)]
    for b in cfg['wbits']:
        s += [('rw', b), ('ww', b)]
    return s + [('sync', 0), ('delay', 0)]


def stmt(s):
    k, b = s
    return {'read': opthread.ret(0, 'mem.read(a)'), 'write': ['mem.write(a, c)'],
            'rw': opthread.ret(0, 'mem.read_word(b, a, %d)' % b), 'ww': ['mem.write_word(b, a, c, %d)' % b],
            'sync': ['while mi < c:', '    pass'], 'delay': ['for w in range(c):', '    pass']}[k]


def build(cfg):
    L = [genmod.HEADER, 'import numpy as np', 'def mk():', '    m = Module("dut")', '    clk = m.Input("CLK")', '    rst = m.Input("RST")',
         '    mi = m.Input("mi", 32)']
    a = [x for x in ['datawidth=%d' % cfg['dw'], 'mem_datawidth=%d' % cfg['mdw'], 'mem_addrwidth=%d' % MAW,
         'write_delay=%d' % cfg['wdly'], 'read_delay=%d' % cfg['rdly'], 'sleep_interval=%d' % cfg['sl'], 'keep_sleep=%d' % cfg['ks'],
         'req_fifo_addrwidth=%d' % cfg['rqa'], 'data_fifo_addrwidth=%d' % cfg['dqa']] if not (cfg.get('serial') and 'fifo' in x)]
    if cfg['wid']:
        a += ['waddr_id_width=%d' % cfg['wid'], 'wresp_id_width=%d' % cfg['wid']]
    if cfg['rid']:
        a += ['raddr_id_width=%d' % cfg['rid'], 'rdata_id_width=%d' % cfg['rid']]
    im = cfg['img']
    if im['k'] == 'none':
        a.append('memimg_name="mem.img"')
    elif im['k'] == 'file':
        L.append('    open("mem.img", "w").write("".join("%%02x\\n" %% x for x in %r))' % initial(cfg))
        a.append('memimg="mem.img"')
    else:
        L.append('    img = %s' % ('np.array(%r, dtype=np.int64)' % imgdata(cfg) if im['k'] == 'np' else repr(imgdata(cfg))))
        a += ['memimg=img', 'memimg_name="mem.img"']
        if im['bits'] != cfg['mdw']:
            a.append('memimg_datawidth=%d' % im['bits'])
    if cfg['multi']:
        a.append('numports=%d' % cfg['np'])
    L.append('    mem = axi.%s(m, "mm", clk, rst, %s)' % ('Axi%s%sMemoryModel' % ('Serial' if cfg.get('serial') else '', 'Multiport' if cfg['multi'] else ''), ', '.join(a)))
    I = [('awaddr', 32), ('awlen', 8), ('awsize', 3), ('awburst', 2), ('awlock', 1), ('awcache', 4), ('awprot', 3), ('awqos', 4), ('awuser', 2),
         ('awvalid', 1), ('wdata', cfg['dw']), ('wstrb', cfg['dw'] // 8), ('wlast', 1), ('wvalid', 1), ('bready', 1),
         ('araddr', 32), ('arlen', 8), ('arsize', 3), ('arburst', 2), ('arlock', 1), ('arcache', 4), ('arprot', 3), ('arqos', 4), ('aruser', 2),
         ('arvalid', 1), ('rready', 1)]
    O = [('awready', 1), ('wready', 1), ('bresp', 2), ('bvalid', 1), ('arready', 1), ('rdata', cfg['dw']), ('rresp', 2), ('rlast', 1), ('rvalid', 1)]
    if cfg['wid']:
        I.append(('awid', cfg['wid']))
        O.append(('bid', cfg['wid']))
    if cfg['rid']:
        I.append(('arid', cfg['rid']))
        O.append(('rid', cfg['rid']))
    for i in range(cfg['np']):
        L.append('    ports = {}')
        for n, w in I:
            L.append('    ports["p%d_%s"] = m.Input("p%d_%s"%s)' % (i, n, i, n, ', %d' % w if w > 1 else ''))
        for n, w in O:
            L.append('    ports["p%d_%s"] = m.Output("p%d_%s"%s)' % (i, n, i, n, ', %d' % w if w > 1 else ''))
        L.append('    mem.connect(%sports, "p%d")' % ('%d, ' % i if cfg['multi'] else '', i))
    L += ['    ' + x for x in opthread.decl(0)]
    st = [(c, stmt(s)) for c, s in enumerate(sites(cfg)) if s]
    L += ['    ' + x for x in opthread.worker(0, st, go=None, prog=cfg.get('prog'))]
    L += ['    ' + x for x in opthread.start(0, cfg, ', datawidth=64')]
    L.append('    return m')
    return genmod.load('\n'.join(L)).mk().to_verilog()


def tb(cfg):
    D, B, conn = [], [], ['.CLK(CLK)', '.RST(RST)', '.mi(mi)']
    for i in range(cfg['np']):
        p = 'p%d' % i
        d, b = master_inst(False, p, cfg['dw'], 'st[%d:%d]' % (5 * i + 4, 5 * i), 'opi0', cfg['wid'], 'mops%d.hex' % i, 'M%d' % i, ridw=cfg['rid'])
        D.append(d)
        B.append(b)
        conn += master_ports(False, p, cfg['dw'], cfg['wid'], cfg['rid'])
    D.append('wire [31:0] mi = %s;' % ' + '.join('p%d_mi' % i for i in range(cfg['np'])))
    d, b, c = opthread.tb(0)
    D.append(d)
    B.append(b)
    conn += c
    d, b = opthread.finish(1, ' && '.join('p%d_done' % i for i in range(cfg['np'])))
    D.append(d)
    B.append(b)
    B.append('dut uut(%s);' % ', '.join(conn))
    return bfm.VR_MON + bfm.AXI_MASTER + bfm.skeleton('\n'.join(B), '\n'.join(D), schlen=SCH)


def files(cfg, run, rd):
    ev = [{'bit': 31, 'at': 0, 'n': 4}] + [dict(e, at=e['at'] + R0) for e in run['sched']]
    core.write_hex(rd + '/sched.hex', core.expand_schedule(ev, SCH))
    p = [0] * 64
    p[0] = run['maxcyc']
    core.write_hex(rd + '/p.hex', p)
    opthread.write_ops(rd, run, 1)
    os.symlink('../mem.img', rd + '/mem.img')
    for i in range(cfg['np']):
        bfm.write_mops(rd, 'mops%d.hex' % i, run['mops'][i])


# BREADY is kept high in the search: the model drops BVALID without waiting for it
# (recorded finding; the repair changes text the existing tests compare exactly)
MINIMISE = ('sched',)


def gen_cfg(rng, i=0, style={}):
    multi = rng.random() < 0.6
    np_ = rng.choice([1, 2, 2, 3]) if multi else 1
    k = rng.choice(['none', 'none', 'np', 'list', 'file'])
    bits = rng.choice([8, 16, 32, 64])
    mdw = rng.choice([32, 32, 8, 16, 64, 128])
    return {'serial': int(rng.random() < style.get('p_serial', 0.25)), 'multi': int(multi), 'np': np_, 'dw': rng.choice([32, 32, 64, 128, 16, 8]), 'mdw': mdw,
            'wdly': rng.choice([0, 0, 1, 3, 10]), 'rdly': rng.choice([0, 0, 1, 3, 10]), 'sl': rng.choice([0, 2, 3, 4, 7, 16]),
            'ks': rng.choice([0, 1, 2, 4]), 'rqa': rng.choice([2, 3, 3, 4]), 'dqa': rng.choice([2, 3, 3, 4]),
            'wid': rng.choice([0, 0, 4]), 'rid': rng.choice([0, 0, 4, 6]),
            'img': {'k': k, 'bits': bits, 's': rng.getrandbits(16), 'n': 512 * 8 // bits if k != 'none' else 0},
            'wbits': rng.sample(WBITS, 2)}


def gen_run(cfg, rng, style):
    nb = cfg['dw'] // 8
    size = 512
    hot = rng.choice([64, 128, 512])
    mops = []
    for p in range(cfg['np']):
        l = []
        pw = rng.choice([0.3, 0.5, 0.7])
        base = rng.choice([0, size - hot])
        for i in range(rng.randint(2, 12 if cfg['np'] == 1 else 8)):
            n = min(rng.choice([1, 1, 2, 3, rng.randint(1, 16)]), hot // nb)
            wr = rng.random() < pw
            w = base // nb + rng.randrange(hot // nb - n + 1)
            o = {'k': 2 if wr else 1, 'a': w * nb, 'n': n, 's': rng.getrandbits(20), 'strb': 0,
                 'id': rng.getrandbits(cfg['wid'] if wr else cfg['rid']) if (cfg['wid'] if wr else cfg['rid']) else 0}
            if wr and nb > 1 and rng.random() < 0.5:
                o['strb'] = rng.getrandbits(16)
            if rng.random() < 0.4:
                o['nr'] = sum(1 for x in l if x['k'] == 1)
                o['nw'] = sum(1 for x in l if x['k'] == 2)
            l.append(o)
        mops.append(l)
    S = sites(cfg)
    ops = []
    tot = sum(len(l) for l in mops)
    for _ in range(rng.choice([0, 2, 6, 12])):
        c = rng.randrange(1, len(S))
        k, b = S[c]
        o = {'k': c, 'th': 0, 'a': rng.randrange(0, hot - 16)}
        if k == 'write':
            o['c'] = rng.getrandbits(31)
        elif k in ('rw', 'ww'):
            mx = hot * 8 // b
            o['a'] = rng.randrange(0, 16)
            o['b'] = rng.randrange(0, mx - 16 * 8 // b)
            if k == 'ww':
                o['c'] = rng.getrandbits(min(b, 31))
        elif k == 'sync':
            o['c'] = rng.randint(0, tot)
        elif k == 'delay':
            o['c'] = rng.randint(0, 20)
        ops.append(o)
    hor = rng.choice([120, 300, 900])
    sched = [] if rng.random() < 0.05 else core.gen_stalls(rng, chans(cfg, style), hor)
    if style.get('reset'):
        for _ in range(rng.choice([1, 1, 2])):
            sched.append({'k': 'reset', 'bit': 31, 'at': rng.randrange(0, rng.choice([40, 120, 300])), 'n': rng.choice([1, 1, 2, 5])})
    return {'mops': mops, 'ops': ops, 'sched': sched, 'maxcyc': SCH + 2000 + 100 * sum(o['n'] + 12 for l in mops for o in l) + 60 * len(ops)}


def step(state, o):
    if o['k'] == 'r':
        return state if state is None or (o['v'] ^ state) & o['m'] == 0 else None
    if state is None:
        return None
    return (state & ~o['m'] & 0xff) | (o['v'] & o['m'])


def check(cfg, run, log):
    viols = []
    has_reset = any(e['bit'] == 31 for e in run['sched'])

    def add(cls, msg):
        viols.append(V(cls, msg, props=['C24'] + (['C25'] if has_reset else [])))

    dw, nb = cfg['dw'], cfg['dw'] // 8
    H = opthread.Hist(1, cfg.get('prog'))
    Ms = [MParse('M%d' % i, run['mops'][i], dw, False) for i in range(cfg['np'])]
    dirty = set()
    for line in log.split('\n'):
        p = line.split()
        if not p:
            continue
        if p[0] == 'RESET':
            # memory content survives reset: anything possibly written is uncertain
            for M in Ms:
                M.clear()
        if H.feed(p):
            continue
        if p[0] in ('VS', 'VX', 'VD'):
            add({'VS': 'instability', 'VX': 'undefined-handshake', 'VD': 'undefined-payload'}[p[0]], ' '.join(p[1:]))
        else:
            for M in Ms:
                if M.feed(p):
                    H.order.append(p[0] + p[1])
    endc = abs(H.end) if H.end else run['maxcyc']
    S = sites(cfg)
    if not H.ok:
        add('deadlock', 'no completion by cycle %d: %s of %s; thread at %d of %d' % (
            run['maxcyc'], [(len(M.beats()), len(M.bh)) for M in Ms], [len(l) for l in run['mops']], max([0] + list(H.began[0])), len(run['ops'])))
    init = initial(cfg)
    hist = {}

    def acc(a, h):
        hist.setdefault(a, []).append(h)

    for i, M in enumerate(Ms):
        wr = check_master(M, lambda c, m, i=i: add(c, 'port %d: %s' % (i, m)), H.ok, cfg['wid'], cfg['rid'])
        if not H.ok or viols:
            continue
        nbeat = 0
        for j, w in enumerate(wr):
            o = run['mops'][i][w]
            for b in range(o['n']):
                v = bfm.dgen(o['s'], b, dw)
                for k in range(nb):
                    if bfm.wstrb_bit(o['strb'], b, k):
                        acc(o['a'] + b * nb + k, {'k': 'w', 'v': v >> (8 * k) & 0xff, 'm': 0xff, 'inv': max(M.awv[w], M.wh[nbeat] - 1), 'res': M.bh[j][0],
                                                  'n': 'p%d op%d' % (i, w)})
                nbeat += 1
        for w, bs in M.beats().items():
            o = run['mops'][i][w]
            for b, (c, d, l, rs, rid) in enumerate(bs):
                if 'x' in d:
                    add('undefined-payload', 'port %d read %d beat %d: %s' % (i, w, b, d))
                    continue
                v = int(d, 16)
                for k in range(nb):
                    acc(o['a'] + b * nb + k, {'k': 'r', 'v': v >> (8 * k) & 0xff, 'm': 0xff, 'inv': M.arv[w], 'res': c, 'n': 'p%d op%d' % (i, w)})
    undec = 0
    if H.ok and not viols:
        en = 0
        for i, o in enumerate(run['ops']):
            k, b = S[o['k']]
            if k in ('sync', 'delay'):
                continue
            inv = H.began[0].get(i, H.t_reset) - 2
            res = H.began[0].get(i + 1, endc)
            if k in ('read', 'write'):
                bits, bit0 = cfg['mdw'], o['a'] * 8
            else:
                bits, bit0 = b, o['a'] * 8 + o['b'] * b
            if k in ('read', 'rw'):
                if en >= len(H.evs[0]):
                    add('missing-result', 'thread op %d' % i)
                    break
                c, got, _n = H.evs[0][en]
                en += 1
                if 'x' in got:
                    add('undefined-read', 'thread op %d: %s' % (i, got))
                    continue
                v = int(got, 16) & ((1 << min(bits, 64)) - 1)
                bits = min(bits, 64)
            else:
                v = o['c'] & ((1 << bits) - 1)
            for x in range(bit0 // 8, (bit0 + bits - 1) // 8 + 1):
                lo, hi = max(bit0, x * 8), min(bit0 + bits, x * 8 + 8)
                m = ((1 << (hi - lo)) - 1) << (lo - x * 8)
                bv = ((v >> (lo - bit0)) & ((1 << (hi - lo)) - 1)) << (lo - x * 8)
                acc(x, {'k': 'r' if k in ('read', 'rw') else 'w', 'v': bv, 'm': m, 'inv': inv, 'res': res, 'n': 'thread op%d' % i})
    if H.ok and not viols:
        for a in sorted(hist):
            h = hist[a]
            if has_reset and any(x['k'] == 'w' for x in h):
                # the interrupted run may have written this byte: unknown start value among the ones it could have
                cand = {init[a]} | {x['v'] for x in h if x['k'] == 'w' and x['m'] == 0xff}
                if any(x['m'] != 0xff for x in h):
                    continue
                ok = any(linz.linearizable(h, s, step) is not False for s in cand)
            else:
                ok = linz.linearizable(h, init[a], step)
            if ok is None:
                undec += 1
            elif not ok:
                add('wrong-data', 'byte %x (initially %02x): no sequential order explains %s' % (
                    a, init[a], [(x['n'], x['k'], hex(x['v']), x['inv'], x['res']) for x in sorted(h, key=lambda z: z['inv'])][:12]))
                break
    fl = opthread.fired(run, endc, R0)
    return viols, opthread.stats(log, H, run, endc, H.order, fl, {
        'requests': sum(len(l) for l in run['mops']), 'thread_ops': len(run['ops']), 'undecided': undec, 'bytes_checked': len(hist)})
