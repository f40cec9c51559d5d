"""DUT family: FIFO, FixedFIFO and ExtFIFO between threads, RTL ports and an
external FIFO.  The history of calls is judged against the FIFO specification
by the interval conditions that characterise queue linearizability when all
values are distinct."""
from .. import bfm, core, genmod, opthread
from ..core import V

SCH = 2048
R0 = 8
CHANS = [('producer_stall', 0), ('consumer_stall', 1), ('thread0_stall', 2), ('thread1_stall', 3), ('thread2_stall', 4), ('thread3_stall', 5),
         ('ext_full', 6), ('ext_empty', 7)]
NT = 4


def roles(cfg):
    """thread -> 'p' or 'c'"""
    return ['p'] * cfg['np'] + ['c'] * cfg['nc']


def sites(cfg):
    S = [None]
    pl, cl = cfg['np'] > 1, cfg['nc'] > 1
    for t, r in enumerate(roles(cfg)):
        S.append({'t': 'gate', 'th': t})
        if r == 'p':
            if not pl:
                S += [{'t': 'enq', 'th': t}, {'t': 'tenq', 'th': t}]
            else:
                S += [{'t': 'lenq', 'th': t}]
                if not cl:
                    S.append({'t': 'lenqb', 'th': t})
            S += [{'t': 'isaf', 'th': t}, {'t': 'isf', 'th': t}]
        else:
            if not cl:
                S += [{'t': 'deq', 'th': t}, {'t': 'tdeq', 'th': t}]
            else:
                S += [{'t': 'ldeq', 'th': t}]
                if not pl:
                    S.append({'t': 'ldeqb', 'th': t})
            S += [{'t': 'ise', 'th': t}, {'t': 'isae', 'th': t}]
        if cfg['kind'] != 'extfifo':
            S.append({'t': 'cnt', 'th': t})
            S.append({'t': 'spc', 'th': t})
    return S


def stmt(cfg, s):
    k, t = s['t'], s['th']
    r = lambda e: opthread.ret(t, e)
    raw = ', raw=True' if cfg['fixed'] else ''
    rr = 'raw=True' if cfg['fixed'] else ''

    def ind(x):
        return ['    ' + y for y in x]
    return {
        'gate': ['while stall%d:' % t, '    pass'],
        'enq': ['for w in range(a):', '    f.enq(b + w%s)' % raw] + ind(r('b + w')),
        'tenq': ['q = f.try_enq(b%s)' % raw, 'oko%d.value = q' % t] + r('b'),
        'lenq': ['q = 0', 'while q == 0:', '    while f.is_almost_full():', '        pass', '    f.lock()', '    q = f.try_enq(b%s)' % raw, '    f.unlock()'] + r('b'),
        'lenqb': ['f.lock()', 'f.enq(b%s)' % raw, 'f.unlock()'] + r('b'),
        'isaf': r('f.is_almost_full()'), 'isf': r('f.is_full()'), 'ise': r('f.is_empty()'), 'isae': r('f.is_almost_empty()'),
        'deq': ['for w in range(a):'] + ind(r('f.deq(%s)' % rr)),
        'tdeq': ['v, q = f.try_deq(%s)' % rr, 'oko%d.value = q' % t] + r('v'),
        'ldeq': ['q = 0', 'while q == 0:', '    while f.is_empty():', '        pass', '    f.lock()', '    v, q = f.try_deq(%s)' % rr, '    f.unlock()'] + r('v'),
        'ldeqb': ['f.lock()', 'v = f.deq(%s)' % rr, 'f.unlock()'] + r('v'),
        'cnt': r('f.count'), 'spc': r('f.space'),
    }[k]


def build(cfg):
    L = [genmod.HEADER, 'from veriloggen.core import vtypes', 'def mk():', '    m = Module("dut")', '    clk = m.Input("CLK")', '    rst = m.Input("RST")']
    a = L.append
    if cfg['kind'] == 'extfifo':
        a('    f = vthread.ExtFIFO(m, "f", clk, rst, %d, %d, sync=%s)' % (cfg['dw'], cfg['aw'], bool(cfg['sync'])))
    else:
        a('    f = vthread.%s(m, "f", clk, rst, %d, %d, %ssync=%s, external_write=%s, external_read=%s)' % (
            'FixedFIFO' if cfg['fixed'] else 'FIFO', cfg['dw'], cfg['aw'], 'point=4, ' if cfg['fixed'] else '', bool(cfg['sync']),
            not cfg.get('port') and cfg['kind'] in ('extw', 'ext'), not cfg.get('port') and cfg['kind'] in ('extr', 'ext')))
        if cfg.get('port') and cfg['kind'] in ('extw', 'ext'):
            for n, w in (('enq', None), ('wdata', cfg['dw'])):
                a('    p_%s = m.Input("g_%s", %s)' % (n, n, w))
            for n in ('full', 'almost_full'):
                a('    p_%s = m.Output("g_%s")' % (n, n))
            if cfg['port'] == 'con':
                a('    f.connect_enq_rtl(p_enq, p_wdata, p_full, p_almost_full)')
            else:
                a('    ack, rdy = f.enq_rtl(p_wdata, cond=p_enq)')
                a('    p_full.assign(vtypes.Not(rdy))')
                a('    p_almost_full.assign(f.almost_full)')
        if cfg.get('port') and cfg['kind'] in ('extr', 'ext'):
            a('    p_deq = m.Input("g_deq")')
            a('    p_rdata = m.Output("g_rdata", %d)' % cfg['dw'])
            for n in ('empty', 'almost_empty'):
                a('    p_%s = m.Output("g_%s")' % (n, n))
            if cfg['port'] == 'con':
                a('    f.connect_deq_rtl(p_deq, p_rdata, p_empty, p_almost_empty)')
            else:
                a('    data, valid, rdy = f.deq_rtl(cond=p_deq)')
                a('    p_rdata.assign(Mux(valid, data, vtypes.Int(0)))')
                a('    p_empty.assign(vtypes.Not(rdy))')
                a('    p_almost_empty.assign(f.almost_empty)')
        a('    cnto = m.Output("cnto", %d)' % (cfg['aw'] + 1))
        a('    cnto.assign(f.count)')
        a('    sp1 = m.Output("sp1")')
        a('    sp1.assign(f.has_space(1))')
        a('    sp2 = m.Output("sp2")')
        a('    sp2.assign(f.has_space(2))')
    S = sites(cfg)
    for t, r in enumerate(roles(cfg)):
        L += ['    ' + x for x in opthread.decl(t, 64)]
        a('    stall%d = m.Input("stall%d")' % (t, t))
        a('    oko%d = m.OutputReg("oko%d", initval=0)' % (t, t))
        L += ['    ' + x for x in opthread.worker(t, [(c, stmt(cfg, s)) for c, s in enumerate(S) if s and s['th'] == t], go=None, prog=cfg.get('prog'))]
        L += ['    ' + x for x in opthread.start(t, cfg)]
    a('    return m')
    return genmod.load('\n'.join(L)).mk().to_verilog()


EXTF = r'''
module extfifo #(parameter DW=32, parameter AW=3, parameter SYNC=1)
 (input CLK, input RST, input [31:0] cyc, input sf, input se, input enq, input [DW-1:0] wdata, output full, output almost_full,
  input deq, output [DW-1:0] rdata, output empty, output almost_empty);
  reg [DW-1:0] mem [0:4095]; integer h, t; reg [DW-1:0] rd;
  // occupancy limits as a real FIFO; a stall bit makes it look full / empty
  assign full = (h - t >= (1<<AW)-1); assign almost_full = (h - t >= (1<<AW)-2) || sf;
  assign empty = (h == t) || se; assign almost_empty = (h - t <= 1) || se;
  assign rdata = SYNC ? rd : ((h==t) ? {DW{1'bx}} : mem[t % 4096]);
  always @(posedge CLK) if(RST) begin h=0; t=0; rd <= {DW{1'bx}}; end else begin
    if(enq === 1'bx || deq === 1'bx) $display("VX EXTF %0d", cyc);
    rd <= {DW{1'bx}};
    if(enq === 1'b1) begin if(full) $display("OVER %0d", cyc); if((^wdata) === 1'bx) $display("VX EXTW %0d", cyc); end
    if(deq === 1'b1 && !empty) begin rd <= mem[t % 4096]; t = t + 1; end else if(deq === 1'b1) $display("UNDER %0d", cyc);
    if(enq === 1'b1 && !full) begin mem[h % 4096] = wdata; h = h + 1; end
  end
endmodule
'''


def tb(cfg):
    dw, aw = cfg['dw'], cfg['aw']
    D, B, conn = [], [], ['.CLK(CLK)', '.RST(RST)']
    D.append('wire full, afull, empty, aempty; wire [%d:0] rdata; wire [%d:0] cnto;' % (dw - 1, aw))
    if cfg['kind'] != 'extfifo':
        conn.append('.cnto(cnto)')
        D.append('wire sp1, sp2;')
        conn += ['.sp1(sp1)', '.sp2(sp2)']
    pf = 'g' if cfg.get('port') else 'f'
    nth = len(roles(cfg))
    fin = ['1']
    if cfg['kind'] in ('extw', 'ext'):
        D.append('integer pn; initial pn=0; wire [31:0] pval = 32\'h8000 + pn; '
                 'wire enq = !RST && !st[0] && (pn < prm[3]) && (prm[1][0] || !full); wire [%d:0] wdata = pval;' % (dw - 1))
        conn += [x % pf for x in ('.%s_enq(enq)', '.%s_wdata(enq ? wdata : {' + str(dw) + '{1\'bx}})', '.%s_full(full)', '.%s_almost_full(afull)')]
        B.append('always @(posedge CLK) if(RST) pn <= 0; else if(enq) begin if(full === 1\'b0) begin $display("PE %0d %0d", cyc, pval); pn <= pn + 1; end '
                 'else if(full !== 1\'b1) $display("VX FULL %0d", cyc); end')
        fin.append('pn == prm[3]')
    if cfg['kind'] in ('extr', 'ext'):
        D.append('integer cn; initial cn=0; reg dq1; initial dq1=0; wire deq = !RST && !st[1] && (cn < prm[4]) && (prm[1][1] || !empty);')
        conn += [x % pf for x in ('.%s_deq(deq)', '.%s_rdata(rdata)', '.%s_empty(empty)', '.%s_almost_empty(aempty)')]
        B.append('always @(posedge CLK) if(RST) begin cn <= 0; dq1 <= 0; end else begin dq1 <= 0; '
                 'if(%s) $display("CD %%0d %%0h", cyc, rdata); '
                 'if(deq) begin if(empty === 1\'b0) begin $display("CS %%0d", cyc); cn <= cn + 1; dq1 <= 1; end else if(empty !== 1\'b1) $display("VX EMPTY %%0d", cyc); end end'
                 % ('dq1' if cfg['sync'] else 'deq && empty === 1\'b0'))
        fin.append('cn == prm[4]')
    if cfg['kind'] == 'ext':
        C = 1 << aw
        lim = C - 1 if cfg.get('port') != 'rtl' else C - 2      # where `full` is reported
        B.append('integer occ; initial occ=0; always @(posedge CLK) if(RST) occ <= 0; else begin '
                 'if(cnto !== occ || empty !== (occ==0) || aempty !== (occ<=1) || full !== (occ>=%d) || afull !== (occ>=%d) || sp1 !== (occ+1<%d) || sp2 !== (occ+2<%d)) '
                 '$display("OCC %%0d occ=%%0d count=%%0d e=%%b ae=%%b f=%%b af=%%b sp=%%b%%b", cyc, occ, cnto, empty, aempty, full, afull, sp1, sp2); '
                 'occ <= occ + (enq && !full) - (deq && !empty); end' % (lim, C - 2, C - 1, C - 1))
    if cfg['kind'] == 'extfifo':
        D.append('wire enq, deq; wire [%d:0] wdata;' % (dw - 1))
        conn += ['.f_enq(enq)', '.f_wdata(wdata)', '.f_full(full)', '.f_almost_full(afull)', '.f_deq(deq)', '.f_rdata(rdata)', '.f_empty(empty)', '.f_almost_empty(aempty)']
        B.append('extfifo #(%d,%d,%d) xf(CLK, RST, cyc, st[6], st[7], enq, wdata, full, afull, deq, rdata, empty, aempty);' % (dw, aw, cfg['sync']))
    for t in range(nth):
        d, b, c = opthread.tb(t, 64)
        D.append(d + ' wire oko%d;' % t)
        B.append(b)
        B.append('always @(posedge CLK) if(!RST && ev%d !== ev%dp) $display("K %d %%0d", oko%d);' % (t, t, t, t))
        conn += c + ['.stall%d(st[%d])' % (t, 2 + t), '.oko%d(oko%d)' % (t, t)]
    d, b = opthread.finish(nth, ' && '.join(fin), 30)
    D.append(d)
    B.append(b)
    B.append('dut uut(%s);' % ', '.join(conn))
    return (EXTF if cfg['kind'] == 'extfifo' else '') + bfm.skeleton('\n'.join(B), '\n'.join(D), schlen=SCH)


def files(cfg, run, rd):
    ev = [{'bit': 31, 'at': 0, 'n': 4}] + [dict(e, at=e['at'] + R0) for e in run['sched']]
    core.write_hex(rd + '/sched.hex', core.expand_schedule(ev, SCH))
    p = [0] * 64
    p[0] = run['maxcyc']
    p[1] = run['mode']
    p[3] = run['pn']
    p[4] = run['cn']
    core.write_hex(rd + '/p.hex', p)
    opthread.write_ops(rd, run, len(roles(cfg)))


MINIMISE = ('sched', 'ops')


def gen_cfg(rng, i=0, style={}):
    k = style.get('kind') or rng.choice(['thread', 'thread', 'thread', 'extw', 'extr', 'ext', 'extfifo'])
    fixed = int(k != 'extfifo' and rng.random() < 0.2)
    cfg = {'kind': k, 'dw': rng.choice([16, 32, 64]) if not fixed else 32, 'aw': rng.choice([2, 2, 3, 4]), 'sync': int(rng.random() < 0.6), 'fixed': fixed,
           'np': rng.choice([1, 1, 2]), 'nc': rng.choice([1, 1, 2])}
    if k == 'extw':
        cfg['np'] = 0
    elif k == 'extr':
        cfg['nc'] = 0
    elif k == 'ext':
        cfg['np'] = cfg['nc'] = 0
    if k in ('extw', 'extr', 'ext') and rng.random() < 0.6:
        cfg['port'] = rng.choice(['con', 'rtl'])
    return cfg


def extra(cfg):
    """elements accepted beyond the limit of the threads"""
    return int(cfg['kind'] in ('extw', 'ext') and cfg.get('port') != 'rtl')


def gen_run(cfg, rng, style):
    S = sites(cfg)
    R = roles(cfg)
    ops = []
    tot = {'p': 0, 'c': 0}

    def code(th, t):
        for c, s in enumerate(S):
            if s and s['th'] == th and s['t'] == t:
                return c

    def add(th, t, a=0, b=0):
        c = code(th, t)
        if c is not None:
            ops.append({'k': c, 'a': a, 'b': b, 'c': 0, 'd': 0, 'e': 0, 'th': th})
        return c is not None

    mx = rng.choice([6, 14, 40])
    # at most this many non-blocking calls, so that the totals can be balanced (a quarter
    # of the runs may end with a starved caller)
    tries = (1 << cfg['aw']) - 2 if rng.random() < 0.75 else 99
    val = [0] * NT
    for t, r in enumerate(R):
        n = 0
        lim = rng.randint(1, mx)
        while n < lim and sum(1 for o in ops if o['th'] == t) < 50:
            x = rng.random()
            b = (t << 12) + val[t]
            if x < 0.15:
                add(t, 'gate')
            elif x < 0.3:
                add(t, rng.choice(['isaf', 'isf', 'ise', 'isae', 'cnt', 'spc']))
            elif r == 'p':
                if x < 0.6 and tries > 0 and add(t, 'tenq', b=b):
                    tries -= 1
                    val[t] += 1
                elif code(t, 'enq') is not None:
                    q = rng.choice([1, 1, 2, 3, 7])
                    add(t, 'enq', a=q, b=b)
                    val[t] += q
                    n += q
                else:
                    if x < 0.6 or not add(t, 'lenqb', b=b):
                        add(t, 'lenq', b=b)
                    val[t] += 1
                    n += 1
            else:
                if x < 0.6 and tries > 0 and add(t, 'tdeq'):
                    tries -= 1
                elif code(t, 'deq') is not None:
                    q = rng.choice([1, 1, 2, 3, 7])
                    add(t, 'deq', a=q)
                    n += q
                else:
                    if x < 0.6 or not add(t, 'ldeqb'):
                        add(t, 'ldeq')
                    n += 1
    pl, ph, cl, ch, C = must_finish(cfg, {'ops': ops, 'pn': 0, 'cn': 0})
    np_, nc_ = cfg['np'], cfg['nc']

    def more(t, n, k1, k2):
        if code(t, k1) is not None:
            add(t, k1, a=n, b=(t << 12) + val[t])
            val[t] += n
        else:
            for _ in range(min(n, 60 - sum(1 for o in ops if o['th'] == t))):
                add(t, k2, b=(t << 12) + val[t])
                val[t] += 1

    if np_ and nc_:
        if ch > pl:
            more(0, ch - pl, 'enq', 'lenq')
            ph += ch - pl
        if ph - cl > C:
            more(np_, ph - cl - C, 'deq', 'ldeq')
    hor = rng.choice([60, 200, 600])
    sched = [] if rng.random() < 0.06 else core.gen_stalls(rng, CHANS, hor)
    if style.get('reset'):
        for _ in range(rng.choice([1, 1, 2])):
            sched.append({'k': 'reset', 'bit': 31, 'at': rng.randrange(0, rng.choice([20, 60, 300])), 'n': rng.choice([1, 1, 2, 5])})
    run = {'ops': ops, 'sched': sched, 'mode': rng.choice([0, 1, 2, 3]), 'pn': 0, 'cn': 0, 'maxcyc': SCH + 3000}
    if cfg['kind'] in ('extw', 'ext'):
        run['pn'] = rng.choice([3, 20, 80])
    if cfg['kind'] in ('extr', 'ext'):
        run['cn'] = rng.choice([3, 20, 80])
    return normalise(cfg, run)


def normalise(cfg, run):
    """Balance blocking calls so that a correct FIFO lets every thread finish: the
    sides that can be adapted (external peers, extra blocking calls) are adapted."""
    S = sites(cfg)
    R = roles(cfg)
    C = (1 << cfg['aw']) - 2

    def cnt(o):
        t = S[o['k']]['t']
        return o['a'] if t in ('enq', 'deq') else 1 if t in ('lenq', 'lenqb', 'ldeq', 'ldeqb') else 0

    pmin = sum(cnt(o) for o in run['ops'] if R[o['th']] == 'p')           # certain enqueues
    pmay = pmin + sum(1 for o in run['ops'] if S[o['k']]['t'] == 'tenq')
    cmin = sum(cnt(o) for o in run['ops'] if R[o['th']] == 'c')
    cmay = cmin + sum(1 for o in run['ops'] if S[o['k']]['t'] == 'tdeq')
    run = dict(run)
    if cfg['kind'] == 'extw':
        run['pn'] = max(run['pn'], cmay)                  # enough for everybody
        run['pn'] = min(run['pn'], cmin + C + extra(cfg))           # and it fits at the end
        run['pn'] = max(run['pn'], cmay)
        if run['pn'] > cmin + C + extra(cfg):
            run['pn'] = cmay
            run['drain'] = 1
    elif cfg['kind'] == 'extr':
        run['cn'] = max(pmin - C, min(run['cn'], pmin))
    elif cfg['kind'] == 'ext':
        run['cn'] = min(run['cn'], run['pn'])
        if run['pn'] - run['cn'] > C + extra(cfg):
            run['cn'] = run['pn'] - rng_small(run)
    return run


def rng_small(run):
    return run['pn'] % 2


def must_finish(cfg, run):
    """Are all calls bound to return, whatever the non-blocking ones did?"""
    S = sites(cfg)
    R = roles(cfg)
    C = (1 << cfg['aw']) - 2

    def tot(side):
        lo = hi = 0
        for o in run['ops']:
            if R[o['th']] != side:
                continue
            t = S[o['k']]['t']
            if t in ('enq', 'deq'):
                lo += o['a']
                hi += o['a']
            elif t in ('lenq', 'lenqb', 'ldeq', 'ldeqb'):
                lo += 1
                hi += 1
            elif t in ('tenq', 'tdeq'):
                hi += 1
        return lo, hi
    pl, ph = tot('p')
    cl, ch = tot('c')
    if cfg['kind'] in ('extw', 'ext'):
        pl = ph = run['pn']
        C += extra(cfg)
    if cfg['kind'] in ('extr', 'ext'):
        cl = ch = run['cn']
    return pl, ph, cl, ch, C


def check(cfg, run, log):
    viols = []
    has_reset = any(e['bit'] == 31 for e in run['sched'])

    def add(cls, msg):
        viols.append(V(cls, msg, props=['C09'] + (['C25'] if has_reset else [])))

    S = sites(cfg)
    R = roles(cfg)
    H = opthread.Hist(len(R), cfg.get('prog'))
    pe, cs, cd = [], [], []
    ks = {t: [] for t in range(len(R))}
    for line in log.split('\n'):
        p = line.split()
        if not p:
            continue
        if p[0] == 'RESET':
            for x in [pe, cs, cd] + list(ks.values()):
                del x[:]
        if H.feed(p):
            continue
        if p[0] == 'VX':
            add('undefined', line)
        elif p[0] == 'OVER':
            add('overflow', 'external FIFO written while full at cycle %s' % p[1])
        elif p[0] == 'UNDER':
            add('underflow', 'external FIFO read while empty at cycle %s' % p[1])
        elif p[0] == 'OCC':
            add('wrong-status', line)
        elif p[0] == 'PE':
            pe.append((int(p[1]), int(p[2])))
            H.order.append('p')
        elif p[0] == 'CS':
            cs.append(int(p[1]))
        elif p[0] == 'CD':
            cd.append((int(p[1]), p[2]))
            H.order.append('c')
        elif p[0] == 'K':
            ks[int(p[1])].append(int(p[2]) if p[2] in '01' else 9)
    M = (1 << cfg['dw']) - 1
    INF = 1 << 30
    endc = abs(H.end) if H.end else run['maxcyc']
    # history: enq (start, end, value), deq (start, end, value), observations
    enq, deq, obs = [], [], []
    for (c, v) in pe:
        enq.append((c, c, v & M))
    if len(cd) > len(cs) or len(cd) < len(cs) - 1:
        add('harness-count', '%d starts %d data' % (len(cs), len(cd)))
    for i, (c, v) in enumerate(cd):
        if i < len(cs):
            deq.append((cs[i], cs[i], opthread.num(v), 'ext'))
    for c in cs[len(cd):]:
        deq.append((c, INF, None, 'ext'))
    for t, r in enumerate(R):
        ops = [o for o in run['ops'] if o['th'] == t]
        n = 0
        last = H.t_reset
        evs = H.evs[t]
        for i, o in enumerate(ops):
            s = S[o['k']]['t']
            b = H.began[t].get(i)
            if i == 0:
                b = last
            if b is None:
                break
            last = max(last, b)
            reps = o['a'] if s in ('enq', 'deq') else 0 if s == 'gate' else 1
            for k in range(reps):
                if n >= len(evs):
                    # in flight: may or may not have taken effect
                    if s in ('enq', 'tenq', 'lenq', 'lenqb'):
                        enq.append((last, INF, (o['b'] + k) & M))
                    elif s in ('deq', 'tdeq', 'ldeq', 'ldeqb'):
                        deq.append((last, INF, None, t))
                    break
                c, v, e = evs[n]
                ok = ks[t][n] if n < len(ks[t]) else 9
                iv = opthread.num(v)
                if s in ('enq', 'lenq', 'lenqb'):
                    enq.append((last, c, (o['b'] + k) & M))
                elif s == 'tenq':
                    if ok == 1:
                        enq.append((last, c, o['b'] & M))
                    elif ok == 0:
                        obs.append((last, c, 'af', 1))
                    else:
                        add('undefined', 'thread %d op %d: try_enq status undefined' % (t, i))
                elif s in ('deq', 'ldeq', 'ldeqb') or (s == 'tdeq' and ok == 1):
                    if iv < 0:
                        add('undefined', 'thread %d op %d at cycle %d: %s' % (t, i, c, v))
                        return viols, opthread.stats(log, H, run, endc, H.order, {}, {})
                    deq.append((last, c, iv & M, t))
                elif s == 'tdeq':
                    if ok == 0:
                        obs.append((last, c, 'e', 1))
                    else:
                        add('undefined', 'thread %d op %d: try_deq status undefined' % (t, i))
                else:
                    nm = {'isaf': 'af', 'isf': 'f', 'ise': 'e', 'isae': 'ae', 'cnt': 'cnt', 'spc': 'spc'}[s]
                    if iv < 0:
                        add('undefined', 'thread %d op %d at cycle %d: %s' % (t, i, c, v))
                    else:
                        obs.append((last, c, nm, iv))
                last = c
                n += 1
            if n >= len(evs) and i + 1 not in H.began[t]:
                break
    # ---- queue conditions (all values distinct)
    E = {}
    for (s, e, v) in enq:
        E[v] = (s, e)
    DQ = {}
    for (s, e, v, w) in deq:
        if v is None:
            continue
        if v not in E:
            add('phantom', 'dequeued %x at cycle %d which nobody enqueued' % (v, e))
            continue
        if v in DQ:
            add('duplicate', 'value %x dequeued twice (cycles %d and %d)' % (v, DQ[v][1], e))
            continue
        DQ[v] = (s, e)
        if e < E[v][0]:
            add('phantom', 'value %x dequeued at cycle %d before its enqueue began (%d)' % (v, e, E[v][0]))
    pend_deq = [s for (s, e, v, w) in deq if v is None]
    if not viols:
        vs = sorted(E, key=lambda v: E[v][1])
        # order: enq(a) before enq(b) entirely => not deq(b) entirely before deq(a)
        dl = [v for v in vs if v in DQ]
        for b in dl:
            for a in vs:
                if E[a][1] >= E[b][0]:
                    break
                if a not in DQ:
                    if not any(s <= DQ[b][1] for s in pend_deq):
                        add('lost-or-reordered', '%x (enqueued by cycle %d) was never dequeued but %x (enqueued from cycle %d) was, by cycle %d' % (
                            a, E[a][1], b, E[b][0], DQ[b][1]))
                        break
                elif DQ[b][1] < DQ[a][0]:
                    add('reordered', '%x enqueued before %x but dequeued after it (cycles %d.. and ..%d)' % (a, b, DQ[a][0], DQ[b][1]))
                    break
            if viols:
                break
    pl, ph, cl, ch, C = must_finish(cfg, run)
    full = (1 << cfg['aw']) - 1

    if cfg['kind'] == 'extfifo':
        stalled = any(e['k'] in ('ext_full', 'ext_empty') for e in run['sched'])
    else:
        stalled = False

    def bounds(s, e):
        """minimum and maximum occupancy possible at some instant of [s, e]"""
        lo = hi = 0
        for v, (a, b) in E.items():
            d = DQ.get(v, (INF, INF))
            if b < s and d[0] > e:
                lo += 1
            if a <= e and d[1] >= s:
                hi += 1
        lo -= sum(1 for x in pend_deq if x <= e)
        return max(0, lo), hi

    if not viols:
        for (s, e, k, v) in obs:
            lo, hi = bounds(s, e)
            bad = None
            thr = {'af': C - extra(cfg), 'f': full}
            if k in thr:
                if v and hi < thr[k] and not (stalled and k == 'af'):
                    bad = 'reported %s though at most %d elements were stored' % (k, hi)
                elif not v and lo >= thr[k]:
                    bad = 'reported not %s though at least %d elements were stored' % (k, lo)
            elif k == 'e':
                if v and lo > 0 and not stalled:
                    bad = 'reported empty though at least %d elements were stored' % lo
                elif not v and hi == 0:
                    bad = 'reported not empty though nothing was stored'
            elif k == 'ae':
                if v and lo > 1 and not stalled:
                    bad = 'reported almost empty though at least %d elements were stored' % lo
                elif not v and hi <= 1:
                    bad = 'reported not almost empty though at most %d elements were stored' % hi
            elif k == 'cnt' and not lo <= v <= hi:
                bad = 'count %d outside [%d,%d]' % (v, lo, hi)
            elif k == 'spc' and not lo <= full - (v & 0xffff if v < 1 << 31 else v) <= hi:
                bad = 'space %d, but occupancy within [%d,%d]' % (v, lo, hi)
            if bad:
                add('wrong-status', 'cycles %d..%d: %s' % (s, e, bad))
                break
        for (s, e, v) in enq:
            if e == INF:
                continue
            lo, hi = bounds(s, e)
            if lo > full:
                add('overflow', '%x accepted in cycles %d..%d with %d elements stored' % (v, s, e, lo))
                break
    # ---- progress: a wait that can never end legally is not the FIFO's fault
    if not H.ok:
        nE = sum(1 for x in enq if x[1] < INF)
        nD = sum(1 for x in deq if x[2] is not None)
        pw = [x for x in enq if x[1] == INF]
        cw = [x for x in deq if x[2] is None]
        cap = C
        excuse = True
        if not pw and not cw:
            excuse = False                     # nobody waits for the FIFO, yet no completion
        if pw and nE - nD < cap:
            excuse = False
        if cw and nE - nD > 0:
            excuse = False
        ext_waiting_p = cfg['kind'] in ('extw', 'ext') and len(pe) < run['pn']
        ext_waiting_c = cfg['kind'] in ('extr', 'ext') and len(cs) < run['cn']
        if ext_waiting_p and nE - nD < full:
            excuse = False
        if ext_waiting_c and nE - nD > 0:
            excuse = False
        if not pw and not cw and (ext_waiting_p or ext_waiting_c):
            excuse = True if not ((ext_waiting_p and nE - nD < full) or (ext_waiting_c and nE - nD > 0)) else False
        if not excuse:
            add('deadlock', 'no completion by cycle %d with %d enqueued, %d dequeued, %d producers and %d consumers waiting' % (
                run['maxcyc'], nE, nD, len(pw), len(cw)))
    fl = opthread.fired(run, endc, R0)
    return viols, opthread.stats(log, H, run, endc, H.order, fl, {
        'elements': len(enq), 'was_full': int(any(o[2] == 'af' and o[3] for o in obs)), 'was_empty': int(any(o[2] == 'e' and o[3] for o in obs)),
        'starved_end': int(not H.ok)})
