"""DUT family: AXI4-Lite masters (AXIMLite / AXIMLiteVerify) shared by lock
protected threads, against a scheduled AXI4-Lite slave."""
from .. import bfm, core, genmod, opthread
from ..core import V

SCH = 2048
CHANS = [('aw_stall', 0), ('w_stall', 1), ('b_delay', 2), ('ar_stall', 3), ('r_delay', 4)]
R0 = 8


def sites(cfg):
    s = [None, 'read', 'write', 'fence', 'delay']
    if cfg.get('verify'):
        s += ['readd', 'writed']
    if cfg.get('base'):
        s += ['base']
    return s


def stmt(cfg, t, s):
    r = lambda x: opthread.ret(t, x)
    return {'read': r('myaxi.read(b)'), 'readd': r('myaxi.read_delayed(b, c)'),
            'write': ['myaxi.write(b, c)'], 'writed': ['myaxi.write_delayed(b, c, d)'],
            'fence': ['myaxi.write_fence(b, c)'], 'base': ['myaxi.set_global_base_addr(b)'],
            'delay': ['for w in range(c):', '    pass']}[s]


def build(cfg):
    nth = cfg['nth']
    L = [genmod.HEADER, 'def mk():', '    m = Module("dut")',
         '    clk = m.Input("CLK")', '    rst = m.Input("RST")', '    go = m.Input("go")']
    args = ['sb_depth=%d' % cfg['sb']]
    if cfg.get('base'):
        args.append('use_global_base_addr=True')
    L.append('    myaxi = vthread.%s(m, "myaxi", clk, rst, %d, 32, %s)' % (
        'AXIMLiteVerify' if cfg.get('verify') else 'AXIMLite', cfg['dw'], ', '.join(args)))
    if cfg.get('prog'):
        used = [sites(cfg)[o['k']] for o in cfg['prog']]
        if not any(s in ('read', 'readd') for s in used):
            L.append('    myaxi.disable_read()')
        if not any(s in ('write', 'writed', 'fence') for s in used):
            L.append('    myaxi.disable_write()')
    for t in range(nth):
        L += ['    ' + x for x in opthread.decl(t)]
        st = []
        for code, s in enumerate(sites(cfg)):
            if s is None:
                continue
            x = stmt(cfg, t, s)
            if nth > 1 and s != 'delay':
                x = ['myaxi.lock()'] + x + ['myaxi.unlock()']
            st.append((code, x))
        L += ['    ' + x for x in opthread.worker(t, st, prog=cfg.get('prog'))]
        L += ['    ' + x for x in opthread.start(t, cfg)]
    L.append('    return m')
    return genmod.load('\n'.join(L)).mk().to_verilog()


def tb(cfg):
    dw = cfg['dw']
    D, B, conn = [], [], ['.CLK(CLK)', '.RST(RST)', '.go(1\'b1)']
    D.append('wire [31:0] awaddr, araddr; wire [3:0] awcache, arcache; wire [2:0] awprot, arprot;'
             'wire awvalid, awready, wvalid, wready, bvalid, bready, arvalid, arready, rvalid, rready;'
             'wire [%d:0] wdata, rdata; wire [%d:0] wstrb; wire [1:0] bresp, rresp;' % (dw - 1, dw // 8 - 1))
    for p in ('awaddr awcache awprot awvalid awready wdata wstrb wvalid wready bresp bvalid bready '
              'araddr arcache arprot arvalid arready rdata rresp rvalid rready').split():
        conn.append('.myaxi_%s(%s)' % (p, p))
    B.append('axi_slave_bfm #(.DW(%d),.LITE(1)) slv(CLK, RST, cyc, st[4:0], prm[1][3:0], prm[2], awaddr, 8\'d0, 3\'d0, 2\'d0, awvalid, awready,'
             'wdata, wstrb, 1\'b1, wvalid, wready, bresp, bvalid, bready, araddr, 8\'d0, 3\'d0, 2\'d0, arvalid, arready,'
             'rdata, rresp, , rvalid, rready);' % dw)
    B.append('vr_mon #(39,"AW") m0(CLK,RST,cyc,awvalid,awready,{awaddr,awcache,awprot});')
    B.append('vr_mon #(39,"AR") m1(CLK,RST,cyc,arvalid,arready,{araddr,arcache,arprot});')
    B.append('vr_mon #(%d,"W") m2(CLK,RST,cyc,wvalid,wready,{wdata,wstrb});' % (dw + dw // 8))
    B.append('always @(posedge CLK) if(RST===0 && (bready===1\'bx || rready===1\'bx)) $display("VX BR %0d", cyc);')
    for t in range(cfg['nth']):
        d, b, c = opthread.tb(t)
        D.append(d)
        B.append(b)
        conn += c
    D.append('reg prst; initial prst=1; reg [7:0] dr; initial dr=0;')
    B.append('always @(posedge CLK) begin prst <= RST; if(prst && !RST) $display("RESET %%0d", cyc); '
             'if(RST) dr<=0; else if(%s) begin dr<=dr+1; if(dr==40) begin $display("END %%0d", cyc); $finish; end end end' %
             ' && '.join('done%d===1' % t for t in range(cfg['nth'])))
    B.append('dut uut(%s);' % ', '.join(conn))
    return bfm.VR_MON + bfm.AXI_SLAVE + bfm.skeleton('\n'.join(B), '\n'.join(D), schlen=SCH)


def files(cfg, run, rd):
    ev = [{'bit': 31, 'at': 0, 'n': 4}] + [dict(e, at=e['at'] + R0) for e in run['sched']]
    core.write_hex(rd + '/sched.hex', core.expand_schedule(ev, SCH))
    p = [0] * 64
    p[0], p[1], p[2] = run['maxcyc'], run['mode'], run['salt']
    core.write_hex(rd + '/p.hex', p)
    opthread.write_ops(rd, run, cfg['nth'])


def gen_cfg(rng, i=0, style={}):
    return {'dw': rng.choice([32, 32, 64, 16, 8]), 'nth': rng.choice([1, 1, 2, 3]), 'sb': rng.choice([1, 1, 2, 3]),
            'verify': rng.random() < 0.4, 'base': rng.random() < 0.4}


def gen_run(cfg, rng, style):
    S = sites(cfg)
    nb = cfg['dw'] // 8
    ops = []
    for t in range(cfg['nth']):
        n = rng.randint(3, 14)
        pool = [0x1000 + 0x4000 * t + nb * rng.randrange(256) for _ in range(rng.randint(1, 4))]
        base = 0
        if cfg.get('base') and t == 0 and rng.random() < 0.85:
            base = nb * rng.randrange(1, 512)
            ops.append({'k': S.index('base'), 'b': base, 'th': t})
        for _ in range(n):
            s = rng.choice([x for x in S if x not in (None, 'base')])
            if s == 'delay' and rng.random() < 0.6:
                continue
            o = {'k': S.index(s), 'th': t, 'b': 0, 'c': 0, 'd': 0}
            if s == 'delay':
                o['c'] = rng.randint(0, 20)
            elif s in ('read', 'readd'):
                o['b'] = rng.choice(pool)
                o['c'] = rng.randint(0, 12)
            else:
                o['b'] = rng.choice(pool)
                o['c'] = rng.getrandbits(31)
                o['d'] = rng.randint(0, 12)
            ops.append(o)
    if cfg.get('base') and cfg['nth'] > 1:
        # the base register is shared: set once, by thread 0, to zero
        ops = [o for o in ops if S[o['k']] != 'base']
    hor = rng.choice([150, 400, 1000])
    sched = [] if rng.random() < 0.05 else core.gen_stalls(rng, CHANS, hor)
    if style.get('reset'):
        for _ in range(rng.choice([1, 1, 2])):
            sched.append({'k': 'reset', 'bit': 31, 'at': rng.randrange(0, rng.choice([40, 120, 300])),
                          'n': rng.choice([1, 1, 2, 5])})
    # a slave that holds AWREADY back until WVALID starves AXIMLite writes: recorded as a
    # known finding (KF-C04-1), replayed by every check, and kept out of the search here
    modes = [0, 0, 2, 4, 6]
    if not any(S[o['k']] in ('write', 'writed', 'fence') for o in ops):
        modes += [1, 5]
    return {'ops': ops, 'sched': sched, 'mode': rng.choice(modes), 'salt': rng.getrandbits(31),
            'maxcyc': SCH + 1000 + 80 * len(ops)}


def check(cfg, run, log):
    viols = []
    has_reset = any(e['bit'] == 31 for e in run['sched'])
    nb = cfg['dw'] // 8
    nth = cfg['nth']
    S = sites(cfg)

    def add(cls, msg, props):
        viols.append(V(cls, msg, props=props + (['C25'] if has_reset else [])))

    H = opthread.Hist(nth, cfg.get('prog'))
    bus = []
    for line in log.split('\n'):
        p = line.split()
        if not p:
            continue
        if p[0] == 'RESET':
            bus = []
        if H.feed(p):
            continue
        if p[0] in ('VS', 'VX', 'VD', 'VR'):
            add({'VS': 'axi-instability', 'VX': 'axi-undefined-valid', 'VD': 'axi-undefined-payload',
                 'VR': 'axi-undefined-ready'}[p[0]], ' '.join(p[1:]), ['C01'])
        elif p[0] in ('AW', 'AR', 'W', 'B', 'R'):
            bus.append(p)
            H.order.append(p[0])
    endc = abs(H.end) if H.end else run['maxcyc']
    ops = {t: [o for o in run['ops'] if o.get('th', 0) == t] for t in range(nth)}
    if not H.ok:
        add('deadlock', 'no completion by cycle %d; thread positions %s of %s' % (
            run['maxcyc'], {t: max([0] + list(H.began[t])) for t in range(nth)}, {t: len(ops[t]) for t in ops}),
            ['C01', 'C04'])
    else:
        mem = {}
        expw, expr = {t: [] for t in range(nth)}, {t: [] for t in range(nth)}
        base = 0
        nw = nr = 0
        bt = [int(p[1]) for p in bus if p[0] == 'B']
        rt = [int(p[1]) for p in bus if p[0] == 'R']
        for t in range(nth):
            en = 0
            for i, o in enumerate(ops[t]):
                s = S[o['k']]
                if s == 'base':
                    base = o['b']
                    continue
                if s == 'delay':
                    continue
                a = (o['b'] + base) & 0xffffffff
                if s in ('read', 'readd'):
                    exp = sum(mem.get((a + j) & 0xffff, bfm.mem_init_byte((a + j) & 0xffff, run['salt'])) << (8 * j) for j in range(nb))
                    expr[t].append(a)
                    nr += 1
                    if en >= len(H.evs[t]):
                        add('missing-result', 'thread %d op %d' % (t, i), ['C04'])
                        break
                    c, got, _ = H.evs[t][en]
                    en += 1
                    if 'x' in got or (int(got, 16) & ((1 << cfg['dw']) - 1)) != exp:
                        add('wrong-read', 'thread %d op %d %s(%#x) at cycle %d: got %s expected %x' % (t, i, s, a, c, got, exp), ['C04'])
                    if nth == 1 and sum(1 for x in rt if x < c) < nr:
                        add('early-return', 'op %d %s returned at %d before its response' % (i, s, c), ['C04'])
                else:
                    v = o['c'] & ((1 << cfg['dw']) - 1)
                    for j in range(nb):
                        mem[(a + j) & 0xffff] = (v >> (8 * j)) & 255
                    expw[t].append((a, v))
                    nw += 1
                    t1 = H.began[t].get(i + 1)
                    if nth == 1 and t1 is not None and sum(1 for x in bt if x < t1) < nw:
                        add('early-return', 'op %d %s returned at %d with %d of %d responses' % (
                            i, s, t1, sum(1 for x in bt if x < t1), nw), ['C04'])
            if en != len(H.evs[t]):
                add('extra-result', 'thread %d' % t, ['C04'])
        aw = [int(p[2], 16) if 'x' not in p[2] else -1 for p in bus if p[0] == 'AW']
        w = [p for p in bus if p[0] == 'W']
        ar = [int(p[2], 16) if 'x' not in p[2] else -1 for p in bus if p[0] == 'AR']
        seg = lambda a: ((a & 0xffff) - 0x1000) // 0x4000
        if len(w) != len(aw) or len(bt) != len(aw):
            add('beat-count', '%d AW, %d W, %d B' % (len(aw), len(w), len(bt)), ['C01', 'C04'])
        else:
            full = (1 << nb) - 1
            got = [(a, int(p[2], 16) if 'x' not in p[2] else None) for a, p in zip(aw, w)]
            if any('x' in p[3] or int(p[3], 16) != full for p in w):
                add('wrong-strobe', str([p[3] for p in w][:4]), ['C04'])
            for t in range(nth):
                g = [x for x in got if nth == 1 or seg(x[0]) == t]
                if g != expw[t]:
                    add('wrong-write', 'thread %d: bus writes %s expected %s' % (t, [(hex(x), hex(y or 0)) for x, y in g][:6],
                                                                                 [(hex(x), hex(y)) for x, y in expw[t]][:6]), ['C04'])
            if nth > 1 and len(got) != sum(len(x) for x in expw.values()):
                add('wrong-write', 'extra writes', ['C04'])
        for t in range(nth):
            g = [x for x in ar if nth == 1 or seg(x) == t]
            if g != expr[t]:
                add('wrong-request', 'thread %d: AR %s expected %s' % (t, [hex(x) for x in g][:6], [hex(x) for x in expr[t]][:6]), ['C04'])
    fl = opthread.fired(run, endc, R0, [nm for bit, nm in ((1, 'awready_waits_wvalid'), (2, 'wready_waits_aw'), (4, 'ready_waits_valid'))
                                        if run['mode'] & bit])
    return viols, opthread.stats(log, H, run, endc, H.order, fl, {'lite_accesses': len(bus)})
