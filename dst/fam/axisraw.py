"""DUT family: raw AXI / AXI-Lite slave ports (AXIS, AXISLite) served by state
machines written against pull_request / pull_write_request / pull_read_request /
pull_write_data / push_read_data, as a small memory, with scheduled stalls of
the serving machine and a scheduled bus master."""
from .. import bfm, core, genmod, opthread, linz
from ..core import V
from .axisreg import master_ports, master_inst, MParse, check_master

SCH = 2048
CHANS = [('aw_delay', 0), ('w_delay', 1), ('b_stall', 2), ('ar_delay', 3), ('r_stall', 4),
         ('srv_req_stall', 5), ('srv_wdata_stall', 6), ('srv_rdata_stall', 7)]
R0 = 8
NW = 16


def init(cfg, i):
    return 0 if cfg['w'] else bfm.dgen(777, i, cfg['dw'])


def build(cfg):
    lite, dw = cfg['lite'], cfg['dw']
    sh = (dw // 8).bit_length() - 1
    L = [genmod.HEADER, 'def mk():', '    m = Module("dut")', '    clk = m.Input("CLK")', '    rst = m.Input("RST")',
         '    gq = m.Input("gq")', '    gw = m.Input("gw")', '    gr = m.Input("gr")']
    a = ''
    if not lite and cfg.get('idw'):
        a = ', ' + ', '.join('%s=%d' % (x, cfg['idw']) for x in ('waddr_id_width', 'wresp_id_width', 'raddr_id_width', 'rdata_id_width'))
    L.append('    s = vthread.%s(m, "s", clk, rst, %d, 32%s)' % ('AXISLite' if lite else 'AXIS', dw, a))
    L.append('    seq = Seq(m, "memseq", clk, rst)')
    L.append('    mem = [m.Reg("mem%%d" %% i, %d, initval=0) for i in range(%d)]' % (dw, NW))
    if not cfg['w']:
        L[-1] = '    mem = [Int(v, width=%d, base=16) for v in %r]' % (dw, [init(cfg, i) for i in range(NW)])
    L.append('    wi = m.Reg("wi", 4, initval=0)')
    L.append('    ri = m.Reg("ri", 4, initval=0)')
    L.append('    rc = m.Reg("rc", 16, initval=0)')
    L.append('    rmux = PatternMux([(ri == i, mem[i]) for i in range(%d)] + [(None, 0)])' % NW)
    for n, w in (('wqv', 1), ('wqa', 32), ('wql', 16), ('rqv', 1), ('rqa', 32), ('rql', 16), ('wdv', 1), ('wdd', dw), ('wdm', dw // 8), ('wdl', 1)):
        L.append('    o_%s = m.OutputReg("o_%s", %d, initval=0)' % (n, n, w))

    def cond(fsm, g):
        return {'f': 'cond=%s' % fsm, 'fg': 'cond=(%s, %s)' % (fsm, g)}[cfg['cnd']]

    g = lambda x: (x + ', ') if cfg['cnd'] == 'fg' else ''
    q, d, r = [], [], []

    def wdata(fsm, idx, back):
        o = []
        if lite:
            o.append('data, mask, valid = s.pull_write_data(%s)' % cond(fsm, 'gw'))
            o.append('last = Int(1, width=1)')
        else:
            o.append('data, mask, valid, last = s.pull_write_data(%s)' % cond(fsm, 'gw'))
        o.append('st = %s.state == %s.current' % (fsm, fsm))
        o.append('for i in range(%d):' % NW)
        o.append('    nd = Cat(*reversed([Mux(mask[b], data[b*8:b*8+8], mem[i][b*8:b*8+8]) for b in range(%d)]))' % (dw // 8))
        o.append('    seq.If(st, %svalid, wi == i)(mem[i](nd))' % g('gw'))
        o.append('seq(o_wdv(0))')
        o.append('seq.If(st, %svalid)(o_wdv(1), o_wdd(data), o_wdm(mask), o_wdl(last))' % g('gw'))
        o.append('%s.If(%svalid)(wi.inc())' % (fsm, g('gw')))
        o.append('%s.If(%svalid, last).%s' % (fsm, g('gw'), back))
        return o

    def rdata(fsm, back):
        o = []
        if lite:
            o.append('ack = s.push_read_data(rmux, %s)' % cond(fsm, 'gr'))
            o.append('rl = Int(1, width=1)')
        else:
            o.append('rl = rc <= 1')
            o.append('ack = s.push_read_data(rmux, rl, %s)' % cond(fsm, 'gr'))
        o.append('%s.If(%sack)(ri.inc(), rc.dec())' % (fsm, g('gr')))
        o.append('%s.If(%sack, rl).%s' % (fsm, g('gr'), back))
        return o

    C = []
    if cfg['split']:
        if cfg['w']:
            C.append('wf = FSM(m, "wf", clk, rst)')
            C.append('%s = s.pull_write_request(%s)' % ('wa, wv' if lite else 'wa, wl, wv', cond('wf', 'gq')))
            if lite:
                C.append('wl = 1')
            C += ['seq(o_wqv(wv), o_wqa(wa), o_wql(wl))', 'wf.If(wv)(wi(wa >> %d))' % sh, 'wf.If(wv).goto_next()']
            C += wdata('wf', 0, 'goto_init()')
        if cfg['r']:
            C.append('rf = FSM(m, "rf", clk, rst)')
            C.append('%s = s.pull_read_request(%s)' % ('ra, rv' if lite else 'ra, rlen, rv', cond('rf', 'gq')))
            if lite:
                C.append('rlen = 1')
            C += ['seq(o_rqv(rv), o_rqa(ra), o_rql(rlen))', 'rf.If(rv)(ri(ra >> %d), rc(rlen))' % sh, 'rf.If(rv).goto_next()']
            C += rdata('rf', 'goto_init()')
        if not cfg['w']:
            C.append('s.disable_write()')
        if not cfg['r']:
            C.append('s.disable_read()')
    else:
        C.append('f = FSM(m, "f", clk, rst)')
        C.append('%s = s.pull_request(%s)' % ('qa, rv, wv' if lite else 'qa, ql, rv, wv', cond('f', 'gq')))
        if lite:
            C.append('ql = 1')
        C += ['seq(o_wqv(wv), o_wqa(qa), o_wql(ql), o_rqv(rv), o_rqa(qa), o_rql(ql))',
              'f.If(rv)(ri(qa >> %d), rc(ql))' % sh, 'f.If(wv)(wi(qa >> %d))' % sh,
              'f.If(wv).goto(50)', 'f.If(rv).goto_next()']
        C += rdata('f', 'goto_init()')
        C += ['f.set_index(50)']
        C += wdata('f', 0, 'goto_init()')
    L += ['    ' + x for x in C]
    L.append('    return m')
    return genmod.load('\n'.join(L)).mk().to_verilog()


def tb(cfg):
    dw = cfg['dw']
    idw = 0 if cfg['lite'] else cfg.get('idw', 0)
    D, B, conn = [], [], ['.CLK(CLK)', '.RST(RST)', '.gq(!st[5])', '.gw(!st[6])', '.gr(!st[7])']
    d, b = master_inst(cfg['lite'], 's', dw, 'st[4:0]', "32'd0", idw)
    D.append(d)
    B.append(b)
    conn += master_ports(cfg['lite'], 's', dw, idw)
    for n, w in (('wqv', 1), ('wqa', 32), ('wql', 16), ('rqv', 1), ('rqa', 32), ('rql', 16), ('wdv', 1), ('wdd', dw), ('wdm', dw // 8), ('wdl', 1)):
        D.append('wire [%d:0] o_%s;' % (w - 1, n))
        conn.append('.o_%s(o_%s)' % (n, n))
    B.append('always @(posedge CLK) if(!RST) begin if(o_wqv===1) $display("SW %0d %0h %0d", cyc, o_wqa, o_wql); '
             'if(o_rqv===1) $display("SR %0d %0h %0d", cyc, o_rqa, o_rql); '
             'if(o_wdv===1) $display("SD %0d %0h %0h %0d", cyc, o_wdd, o_wdm, o_wdl); end')
    d, b = opthread.finish(0, 's_done')
    D.append(d)
    B.append(b)
    B.append('dut uut(%s);' % ', '.join(conn))
    return bfm.VR_MON + bfm.AXI_MASTER + bfm.skeleton('\n'.join(B), '\n'.join(D), schlen=SCH)


def files(cfg, run, rd):
    ev = [{'bit': 31, 'at': 0, 'n': 4}] + [dict(e, at=e['at'] + R0) for e in run['sched']]
    core.write_hex(rd + '/sched.hex', core.expand_schedule(ev, SCH))
    p = [0] * 64
    p[0] = run['maxcyc']
    core.write_hex(rd + '/p.hex', p)
    bfm.write_mops(rd, 'mops.hex', run['mops'])


MINIMISE = ('sched',)


def gen_cfg(rng, i=0, style={}):
    lite = rng.random() < 0.4
    split = rng.random() < 0.6
    w, r = rng.choice([(1, 1), (1, 1), (1, 1), (1, 0), (0, 1)]) if split else (1, 1)
    return {'lite': lite, 'dw': rng.choice([32, 32, 64, 16, 8, 128]) if not lite else rng.choice([32, 32, 64]), 'split': int(split),
            'w': w, 'r': r, 'cnd': rng.choice(['f', 'fg', 'fg']), 'idw': rng.choice([0, 0, 4])}


def gen_run(cfg, rng, style):
    nb = cfg['dw'] // 8
    mops = []
    hi = rng.choice([0, 0x40000000])
    pw = 0 if not cfg['w'] else 1 if not cfg['r'] else rng.choice([0.3, 0.5, 0.7])
    for i in range(rng.randint(3, 14)):
        n = 1 if cfg['lite'] else rng.choice([1, 1, 2, 3, rng.randint(1, 16), rng.choice([1, 40])])
        wr = rng.random() < pw
        o = {'k': 2 if wr else 1, 'a': hi | rng.randrange(64) * nb, 'n': n, 's': rng.getrandbits(20),
             'id': rng.getrandbits(cfg['idw']) if cfg['idw'] else 0, 'strb': 0}
        if wr and nb > 1 and rng.random() < 0.5:
            o['strb'] = rng.getrandbits(16)
        if rng.random() < 0.4:
            o['nr'] = sum(1 for x in mops if x['k'] == 1)
            o['nw'] = sum(1 for x in mops if x['k'] == 2)
        mops.append(o)
    hor = rng.choice([80, 200, 600])
    sched = [] if rng.random() < 0.05 else core.gen_stalls(rng, CHANS if cfg['cnd'] == 'fg' else CHANS[:5], hor)
    if style.get('reset'):
        for _ in range(rng.choice([1, 1, 2])):
            sched.append({'k': 'reset', 'bit': 31, 'at': rng.randrange(0, rng.choice([40, 120, 300])), 'n': rng.choice([1, 1, 2, 5])})
    return {'mops': mops, 'ops': [], 'sched': sched, 'maxcyc': SCH + 1500 + 60 * sum(o['n'] for o in mops)}


def mkstep(dw):
    def step(state, o):
        if o['k'] == 'r':
            return state if o['v'] == state else None
        return (state & ~o['m']) | (o['v'] & o['m'])
    return step


def check(cfg, run, log):
    viols = []
    has_reset = any(e['bit'] == 31 for e in run['sched'])

    def add(cls, msg):
        viols.append(V(cls, msg, props=['C06'] + (['C25'] if has_reset else [])))

    dw, nb = cfg['dw'], cfg['dw'] // 8
    idw = 0 if cfg['lite'] else cfg.get('idw', 0)
    H = opthread.Hist(0)
    M = MParse('M', run['mops'], dw, cfg['lite'])
    S = {'SW': [], 'SR': [], 'SD': []}
    for line in log.split('\n'):
        p = line.split()
        if not p:
            continue
        if p[0] == 'RESET':
            M.clear()
            S = {'SW': [], 'SR': [], 'SD': []}
        if H.feed(p):
            continue
        if p[0] in ('VS', 'VX', 'VD'):
            add({'VS': 'instability', 'VX': 'undefined-handshake', 'VD': 'undefined-payload'}[p[0]], ' '.join(p[1:]))
        elif p[0] in S:
            S[p[0]].append((int(p[1]), p[2], p[3], p[-1]))
            H.order.append(p[0])
        elif M.feed(p):
            H.order.append(p[0])
    endc = abs(H.end) if H.end else run['maxcyc']
    if not H.ok:
        add('deadlock', 'no completion by cycle %d: %d read beats, %d write responses; requests %s' % (
            run['maxcyc'], len(M.rh), len(M.bh), [(o['k'], o['n']) for o in run['mops']]))
    wr = check_master(M, add, H.ok, idw)
    rd = [i for i, o in enumerate(run['mops']) if o['k'] == 1]
    # requests and data as the serving machine saw them
    for nm, idx in (('SW', wr), ('SR', rd)):
        for n, (c, a, l, _) in enumerate(S[nm]):
            if n >= len(idx):
                add('phantom-request', '%s number %d at cycle %d was never issued' % (nm, n, c))
                break
            o = run['mops'][idx[n]]
            if 'x' in a or int(a, 16) != o['a'] or int(l) != (1 if cfg['lite'] else o['n']):
                add('wrong-request', '%s number %d at cycle %d: got %s,%s expected %x,%d' % (nm, n, c, a, l, o['a'], o['n']))
                break
        if H.ok and len(S[nm]) < len(idx):
            add('lost-request', '%s: %d of %d' % (nm, len(S[nm]), len(idx)))
    exp = []
    for i in wr:
        o = run['mops'][i]
        for j in range(o['n']):
            mk = 0
            for k in range(nb):
                mk |= bfm.wstrb_bit(o['strb'], j, k) << k
            exp.append((bfm.dgen(o['s'], j, dw), mk, 1 if j == o['n'] - 1 else 0, i, j))
    for n, (c, d, mk, l) in enumerate(S['SD']):
        if n >= len(exp):
            add('phantom-data', 'write beat %d at cycle %d was never sent' % (n, c))
            break
        e = exp[n]
        if 'x' in d or int(d, 16) != e[0] or int(mk, 16) != e[1] or (not cfg['lite'] and int(l) != e[2]):
            add('wrong-data', 'write beat %d at cycle %d: got %s/%s/%s expected %x/%x/%d' % (n, c, d, mk, l, e[0], e[1], e[2]))
            break
    if H.ok and len(S['SD']) < len(exp):
        add('lost-write-data', '%d of %d beats' % (len(S['SD']), len(exp)))
    undec = 0
    if H.ok and not viols:
        hist = {r: [] for r in range(NW)}
        for n, e in enumerate(exp):
            o = run['mops'][e[3]]
            w = ((o['a'] & 0xffffff) // nb + e[4]) % NW
            m = sum(0xff << (8 * k) for k in range(nb) if e[1] >> k & 1)
            hist[w].append({'k': 'w', 'v': e[0], 'm': m, 'inv': M.wh[n] - 1, 'res': M.bh[wr.index(e[3])][0]})
        for i, bs in M.beats().items():
            o = run['mops'][i]
            for j, (c, d, l, rs, rid) in enumerate(bs):
                hist[((o['a'] & 0xffffff) // nb + j) % NW].append({'k': 'r', 'v': int(d, 16), 'inv': M.arv[i], 'res': c})
        for w, h in hist.items():
            ok = linz.linearizable(h, init(cfg, w), mkstep(dw))
            if ok is None:
                undec += 1
            elif not ok:
                add('wrong-read-data', 'word %d: no sequential order explains %s' % (w, [(x['k'], hex(x['v']), x['inv'], x['res']) for x in h]))
    fl = opthread.fired(run, endc, R0)
    return viols, opthread.stats(log, H, run, endc, H.order, fl, {
        'requests': len(run['mops']), 'beats': len(exp) + len(M.rh), 'undecided': undec,
        'w_before_aw': sum(1 for n, i in enumerate(wr) if i in M.awh and n < len(M.wh) and M.wh and M.wh[0] < M.awh[i])})
