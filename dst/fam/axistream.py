"""DUT family: AXI-Stream ports (AXIStreamIn/Out, AXIStreamInFifo/OutFifo) used
word by word and by DMA to and from RAMs and FIFOs."""
from .. import bfm, core, genmod, opthread
from ..core import V

SCH = 2048
R0 = 8
CHANS = [('in_gap', 0), ('out_stall', 1), ('thread0_stall', 2), ('thread1_stall', 3)]
RAMW = 32


def sites(cfg):
    """code -> call; 'th' is the thread that may use it (None: every)"""
    S = [None]
    two = cfg['nth'] == 2
    for ri, r in enumerate(cfg['rams']):
        gi, go = (not two or r['side'] == 'i'), (not two or r['side'] == 'o')
        th = (0 if r['side'] == 'i' else 1) if two else 0
        for asy in (0, 1):
            if gi:
                S.append({'t': 'din', 'r': ri, 'a': asy, 'th': th})
            if go:
                S.append({'t': 'dout', 'r': ri, 'a': asy, 'th': th})
        S.append({'t': 'rrd', 'r': ri, 'th': th})
        S.append({'t': 'rwr', 'r': ri, 'th': th})
        S.append({'t': 'dump', 'r': ri, 'th': th})
    for fi, f in enumerate(cfg['fifos']):
        if f['role'] != 'out':
            for asy in (0, 1):
                S.append({'t': 'fin', 'f': fi, 'a': asy, 'th': 0})
        else:
            S.append({'t': 'enq', 'f': fi, 'th': 0})
        if f['role'] != 'in':
            for asy in (0, 1):
                S.append({'t': 'fout', 'f': fi, 'a': asy, 'th': 1})
        else:
            S.append({'t': 'deq', 'f': fi, 'th': 1})
    S.append({'t': 'read', 'th': 0})
    S.append({'t': 'write', 'th': cfg['nth'] - 1})
    S.append({'t': 'win', 'th': 0})
    S.append({'t': 'wout', 'th': cfg['nth'] - 1})
    S.append({'t': 'gate'})
    return S


def stmt(cfg, s, t):
    k = s['t']
    rw = max([64] + [r['dw'] for r in cfg['rams']] + [f['dw'] for f in cfg['fifos']])
    if k == 'din':
        return ['si.dma_read%s(ram%d, a, b, local_stride=c, port=0)' % ('_async' if s['a'] else '', s['r'])]
    if k == 'dout':
        return ['so.dma_write%s(ram%d, a, b, local_stride=c, port=%d)' % ('_async' if s['a'] else '', s['r'], 1 if cfg['nth'] == 1 else 0)]
    if k == 'rrd':
        return opthread.ret(t, 'ram%d.read(a, port=2)' % s['r'])
    if k == 'rwr':
        return ['ram%d.write(a, b, port=2)' % s['r']]
    if k == 'dump':
        return ['for w in range(a, b):'] + ['    ' + x for x in opthread.ret(t, 'ram%d.read(w, port=2)' % s['r'])]
    if k == 'fin':
        return ['si.dma_read%s(f%d, a)' % ('_async' if s['a'] else '', s['f'])]
    if k == 'fout':
        return ['so.dma_write%s(f%d, a)' % ('_async' if s['a'] else '', s['f'])]
    if k == 'enq':
        return ['for w in range(a):', '    f%d.enq(b + w)' % s['f']]
    if k == 'deq':
        return ['for w in range(a):'] + ['    ' + x for x in opthread.ret(t, 'f%d.deq()' % s['f'])]
    if k == 'read':
        return ['v, l = si.read()'] + (['lasto.value = l'] if cfg['last'] else []) + opthread.ret(t, 'v')
    if k == 'write':
        return ['so.write(a, b)'] if cfg['last'] else ['so.write(a)']
    if k == 'win':
        return ['si.dma_wait_read()']
    if k == 'wout':
        return ['so.dma_wait_write()']
    return ['while stall%d:' % t, '    pass']


def build(cfg):
    x = 'Fifo' if cfg['fifos'] else ''
    L = [genmod.HEADER, 'def mk():', '    m = Module("dut")', '    clk = m.Input("CLK")', '    rst = m.Input("RST")']
    a = L.append
    arg = ', '.join(['with_last=%s' % bool(cfg['last']), 'with_strb=%s' % bool(cfg['strb']), 'req_fifo_addrwidth=%d' % cfg['rq'],
                     'id_width=%d' % cfg['idw'], 'user_width=%d' % cfg['usw'], 'dest_width=%d' % cfg['dsw']])
    a('    si = vthread.AXIStreamIn%s(m, "si", clk, rst, %d, %s)' % (x, cfg['idw_'], arg))
    a('    so = vthread.AXIStreamOut%s(m, "so", clk, rst, %d, %s)' % (x, cfg['odw'], arg))
    for i, r in enumerate(cfg['rams']):
        if r['nb']:
            a('    ram%d = vthread.MultibankRAM(m, "ram%d", clk, rst, %d, 5, numports=3, numbanks=%d)' % (i, i, r['dw'], r['nb']))
        else:
            a('    ram%d = vthread.RAM(m, "ram%d", clk, rst, %d, 5, numports=3)' % (i, i, r['dw']))
    for i, f in enumerate(cfg['fifos']):
        a('    f%d = vthread.FIFO(m, "f%d", clk, rst, %d, %d, sync=%s)' % (i, i, f['dw'], f['aw'], bool(f['sync'])))
    rw = resw(cfg)
    if cfg['last']:
        a('    lasto = m.OutputReg("lasto", initval=0)')
    S = sites(cfg)
    for t in range(cfg['nth']):
        L += ['    ' + x for x in opthread.decl(t, rw)]
        a('    stall%d = m.Input("stall%d")' % (t, t))
        st = [(c, stmt(cfg, s, t)) for c, s in enumerate(S) if s and s.get('th', t) == t]
        pro = []
        for ri, r in enumerate(cfg['rams']):
            if (t == (0 if r['side'] == 'i' else 1)) if cfg['nth'] == 2 else True:
                pro += ['for w in range(%d):' % ramsize(r), '    ram%d.write(w, w * 40503 + %d, port=2)' % (ri, ri + 1)]
        L += ['    ' + x for x in opthread.worker(t, st, go=None, prologue=pro, prog=cfg.get('prog'))]
        L += ['    ' + x for x in opthread.start(t, cfg)]
    a('    return m')
    return genmod.load('\n'.join(L)).mk().to_verilog()


def resw(cfg):
    return max([64, cfg['idw_'], cfg['odw']] + [r['dw'] for r in cfg['rams']] + [f['dw'] for f in cfg['fifos']])


def src_model():
    return r'''
module axis_src #(parameter DW=32) (input CLK, input RST, input [31:0] cyc, input st, input [31:0] seed, input [31:0] lastp,
  output reg [DW-1:0] tdata, output reg tvalid, output reg tlast, input tready);
  integer n;
  function [DW-1:0] dgen(input [31:0] seed, input [31:0] b);
    reg [31:0] h; integer q;
    for(q=0;q<(DW+31)/32;q=q+1) begin
      h = seed ^ (b * 32'h9E3779B1) ^ (q * 32'h7F4A7C15); h = h ^ (h >> 16); h = h * 32'h85EBCA6B; h = h ^ (h >> 13); h = h * 32'hC2B2AE35; h = h ^ (h>>16);
      dgen = (DW > 32) ? {h, dgen} >> ((DW > 32) ? 32 : 0) : h;
    end
  endfunction
  always @(posedge CLK) if(RST) begin n=0; tvalid<=0; tdata<={DW{1'bx}}; tlast<=1'bx; end
  else begin
    if(tready === 1'bx || tready === 1'bz) $display("VX SI %0d", cyc);
    if(tvalid && tready === 1'b1) begin $display("SI %0d %0h", cyc, tdata); n = n + 1; end
    if(!tvalid || tready === 1'b1) begin
      if(!st) begin tvalid<=1; tdata<=dgen(seed, n); tlast<=(lastp==0) ? 0 : (n % lastp == lastp-1); end
      else begin tvalid<=0; tdata<={DW{1'bx}}; tlast<=1'bx; end
    end
  end
endmodule
'''


def tb(cfg):
    D, B, conn = [], [], ['.CLK(CLK)', '.RST(RST)']
    iw, ow, rw = cfg['idw_'], cfg['odw'], resw(cfg)
    D.append('wire [%d:0] sid; wire siv, sir, sil; wire [%d:0] sod; wire sov, sol; wire sor = !RST && !st[1] && (!prm[1][0] || sov===1);' % (iw - 1, ow - 1))
    conn += ['.si_tdata(sid)', '.si_tvalid(siv)', '.si_tready(sir)', '.so_tdata(sod)', '.so_tvalid(sov)', '.so_tready(sor)']
    pay = 'sod'
    if cfg['last']:
        conn += ['.si_tlast(sil)', '.so_tlast(sol)', '.lasto(lasto)']
        D.append('wire lasto;')
        pay = '{sol,sod}'
    else:
        D.append('assign sol = 1; wire lasto = 0;')
    if cfg['strb']:
        D.append('wire [%d:0] sos;' % (ow // 8 - 1))
        conn += ['.si_tstrb({%d{1\'b1}})' % (iw // 8), '.so_tstrb(sos)']
        B.append('always @(posedge CLK) if(!RST && sov===1 && sos !== {%d{1\'b1}}) $display("STRB %%0d %%0h", cyc, sos);' % (ow // 8))
    side = []
    for n, w in (('id', cfg['idw']), ('user', cfg['usw']), ('dest', cfg['dsw'])):
        if w:
            D.append('wire [%d:0] so_%s;' % (w - 1, n))
            conn += ['.si_t%s(%d\'d1)' % (n, w), '.so_t%s(so_%s)' % (n, n)]
            side.append('so_' + n)
    if side:
        B.append('always @(posedge CLK) if(!RST && sov===1 && {%s} !== 0) $display("SIDE %%0d %%0h", cyc, {%s});' % (', '.join(side), ', '.join(side)))
    B.append('axis_src #(%d) src(CLK, RST, cyc, st[0], prm[2], prm[3], sid, siv, sil, sir);' % iw)
    B.append('vr_mon #(%d,"SO") mo(CLK, RST, cyc, sov, sor, %s);' % (ow + cfg['last'], pay))
    B.append('always @(posedge CLK) if(!RST && sov===1 && sor===1) $display("SO %0d %0h %0d", cyc, sod, sol);')
    B.append('reg lp; initial lp=0; always @(posedge CLK) lp <= lasto;')
    for t in range(cfg['nth']):
        d, b, c = opthread.tb(t, rw)
        D.append(d)
        B.append(b)
        conn += c + ['.stall%d(st[%d])' % (t, 2 + t)]
    B.append('always @(posedge CLK) if(!RST && ev0 !== ev0p) $display("L %0d %0d", cyc, lasto);')
    d, b = opthread.finish(cfg['nth'], 'sov!==1', 60)
    D.append(d)
    B.append(b)
    B.append('dut uut(%s);' % ', '.join(conn))
    return bfm.VR_MON + src_model() + bfm.skeleton('\n'.join(B), '\n'.join(D), schlen=SCH)


def files(cfg, run, rd):
    ev = [{'bit': 31, 'at': 0, 'n': 4}] + [dict(e, at=e['at'] + R0) for e in run['sched']]
    core.write_hex(rd + '/sched.hex', core.expand_schedule(ev, SCH))
    p = [0] * 64
    p[0] = run['maxcyc']
    p[1] = run['mode']
    p[2] = run['seed']
    p[3] = run['lastp']
    core.write_hex(rd + '/p.hex', p)
    opthread.write_ops(rd, run, cfg['nth'])


MINIMISE = ('sched', 'ops')


def lin_ok(cfg, run):
    # an unused stream port has no defined outputs: both directions must appear in the program
    t = [sites(cfg)[o['k']]['t'] for o in run['ops']]
    return any(x in ('din', 'fin', 'read') for x in t) and any(x in ('dout', 'fout', 'write') for x in t)



def gen_cfg(rng, i=0, style={}):
    dws = [8, 16, 32, 32, 64]
    iw = rng.choice(dws)
    ow = iw if rng.random() < 0.4 else rng.choice(dws)

    def near(w):
        return max(8, min(128, rng.choice([w, w, w * 2, w * 4, w // 2, w // 4])))
    cfg = {'idw_': iw, 'odw': ow, 'last': int(rng.random() < style.get('p_last', 0.8)), 'strb': int(rng.random() < 0.3) if style.get('side') else 0, 'rq': rng.choice([3, 3, 2, 4]),
           'idw': rng.choice([0, 0, 0, 2]) if style.get('side') else 0, 'usw': rng.choice([0, 0, 0, 2]) if style.get('side') else 0,
           'dsw': rng.choice([0, 0, 0, 2]) if style.get('side') else 0, 'rams': [], 'fifos': []}
    if rng.random() < style.get('p_fifo', 0.5):
        cfg['nth'] = 2
        for _ in range(style.get('nf') or rng.choice([1, 1, 2, 3])):
            role = style.get('role') or rng.choice(['in', 'out', 'loop', 'loop'])
            w = near(iw if role != 'out' else ow)
            if style.get('same'):
                w = ow = cfg['odw'] = iw
            if role == 'loop' and max(w, ow) % min(w, ow):
                w = ow
            cfg['fifos'].append({'dw': w, 'aw': rng.choice([2, 3, 4]), 'sync': int(rng.random() < style.get('p_sync', 0.6)), 'role': role})
        if cfg['fifos'][0]['role'] == 'out' and len(cfg['fifos']) == 1 and not style.get('nf'):
            cfg['fifos'].append({'dw': near(iw), 'aw': rng.choice([2, 3, 4]), 'sync': int(rng.random() < 0.6), 'role': 'in'})
    else:
        cfg['nth'] = rng.choice([1, 2])
        n = rng.choice([1, 1, 2])
        for k in range(n if cfg['nth'] == 1 else n + 1):
            side = 'i' if k % 2 == 0 else 'o'
            w = near(iw if side == 'i' else ow)
            cfg['rams'].append({'dw': w, 'nb': rng.choice([0, 0, 0, 2, 4]), 'side': side})
        if cfg['nth'] == 1:
            for r in cfg['rams']:
                r['dw'] = max(8, min(128, r['dw']))
    return cfg


def ramsize(r):
    return RAMW * (r['nb'] or 1)


def pk(a, b):
    return max(1, a // b)


def gen_run(cfg, rng, style):
    S = sites(cfg)
    ops = []
    iw, ow = cfg['idw_'], cfg['odw']

    def code(th, **kw):
        for c, s in enumerate(S):
            if s and s.get('th', th) == th and all(s.get(k) == v for k, v in kw.items()):
                return c
        return None

    def add(th, kw, **f):
        c = code(th, **kw)
        if c is None:
            return
        ops.append(dict({'k': c, 'a': 0, 'b': 0, 'c': 0, 'd': 0, 'e': 0, 'th': th}, **f))

    for th in range(cfg['nth']):
        pass
    if cfg['fifos']:
        n = rng.randint(2, 7)
        for _ in range(n):
            fi = rng.randrange(len(cfg['fifos']))
            f = cfg['fifos'][fi]
            unit = 1
            if f['role'] != 'out':
                unit = max(unit, pk(iw, f['dw']))
            if f['role'] != 'in':
                unit = max(unit, pk(ow, f['dw']))
            q = unit * rng.choice([1, 1, 2, 3, rng.randint(1, 12)])
            if rng.random() < 0.3:
                add(0, {'t': 'gate'})
            if rng.random() < 0.3:
                add(1, {'t': 'gate'})
            if f['role'] != 'out':
                add(0, {'t': 'fin', 'f': fi, 'a': int(rng.random() < 0.5)}, a=q)
            else:
                add(0, {'t': 'enq', 'f': fi}, a=q, b=rng.getrandbits(16))
            if f['role'] != 'in':
                add(1, {'t': 'fout', 'f': fi, 'a': int(rng.random() < 0.5)}, a=q)
            else:
                add(1, {'t': 'deq', 'f': fi}, a=q)
            if rng.random() < 0.25:
                add(0, {'t': 'win'})
            if rng.random() < 0.25:
                add(1, {'t': 'wout'})
            if rng.random() < 0.2:
                add(0, {'t': 'read'})
            if rng.random() < 0.2:
                add(1, {'t': 'write'}, a=rng.getrandbits(31), b=rng.getrandbits(1))
    else:
        for th in range(cfg['nth']):
            rl = [i for i, r in enumerate(cfg['rams']) if cfg['nth'] == 1 or (0 if r['side'] == 'i' else 1) == th]
            pend_i, pend_o = [], []      # footprints of transfers in flight

            def clash(ri, ws, wr):
                ws = set(ws)
                for p, w in [(p, True) for p in pend_i] + [(p, False) for p in pend_o]:
                    if p[0] == ri and (w or wr) and ws & p[1]:
                        return True
                return False

            def settle():
                if pend_i:
                    add(th, {'t': 'win'})
                    del pend_i[:]
                if pend_o:
                    add(th, {'t': 'wout'})
                    del pend_o[:]

            for _ in range(rng.randint(3, 9)):
                ch = rng.random()
                ri = rng.choice(rl) if rl else None
                if ch < 0.6 and rl:
                    r = cfg['rams'][ri]
                    N = ramsize(r)
                    d = [x for x in ('din', 'dout') if code(th, t=x, r=ri) is not None]
                    d = rng.choice(d)
                    n = rng.choice([1, 2, 3, 4, rng.randint(1, 16)])
                    sw = iw if d == 'din' else ow
                    stride = rng.choice([1, 1, 1, 2, 3]) if not r['nb'] else 1
                    a = rng.randrange(N)
                    nr = n
                    if d == 'dout':
                        u = pk(sw, r['dw'])
                        nr = (n + u - 1) // u * u
                    if a + (nr - 1) * stride >= N:
                        a = 0
                    if (nr - 1) * stride >= N:
                        continue
                    ws = [a + k * stride for k in range(nr)]
                    asy = int(rng.random() < 0.5)
                    if clash(ri, ws, d == 'din'):
                        settle()
                    add(th, {'t': d, 'r': ri, 'a': asy}, a=a, b=n, c=stride)
                    if asy:
                        (pend_i if d == 'din' else pend_o).append((ri, set(ws)))
                    else:
                        del (pend_i if d == 'din' else pend_o)[:]
                elif ch < 0.7 and rl:
                    w = rng.randrange(ramsize(cfg['rams'][ri]))
                    if clash(ri, [w], True):
                        settle()
                    if rng.random() < 0.5:
                        add(th, {'t': 'rwr', 'r': ri}, a=w, b=rng.getrandbits(31))
                    else:
                        add(th, {'t': 'rrd', 'r': ri}, a=w)
                elif ch < 0.8:
                    x = rng.choice(['read', 'write'])
                    if x == 'read' and code(th, t='read'):
                        add(th, {'t': 'read'})
                        del pend_i[:]
                    elif code(th, t='write'):
                        add(th, {'t': 'write'}, a=rng.getrandbits(31), b=rng.getrandbits(1))
                        del pend_o[:]
                elif ch < 0.9:
                    x = rng.choice(['win', 'wout'])
                    if code(th, t=x):
                        add(th, {'t': x})
                        del (pend_i if x == 'win' else pend_o)[:]
                else:
                    add(th, {'t': 'gate'})
            settle()
            for ri in rl:
                if rng.random() < 0.7:
                    N = ramsize(cfg['rams'][ri])
                    a = rng.randrange(N)
                    add(th, {'t': 'dump', 'r': ri}, a=a, b=min(N, a + 16))
    hor = rng.choice([100, 300, 900])
    sched = [] if rng.random() < 0.06 else core.gen_stalls(rng, CHANS[:2 + cfg['nth']], hor)
    off = 4 * sum(ramsize(r) for r in cfg['rams']) // cfg['nth']
    sched = [dict(e, at=e['at'] + off) for e in sched]
    if style.get('reset'):
        for _ in range(rng.choice([1, 1, 2])):
            sched.append({'k': 'reset', 'bit': 31, 'at': off + rng.randrange(0, rng.choice([40, 120, 400])), 'n': rng.choice([1, 1, 2, 5])})
    return normalise(cfg, {'ops': ops, 'sched': sched, 'seed': rng.getrandbits(30), 'lastp': rng.choice([0, 1, 3, 5]), 'mode': rng.choice([0, 0, 1]),
                           'maxcyc': SCH + 4000})


def normalise(cfg, run):
    """None when an operation list is not a legal program (used by minimisation)."""
    if cfg['fifos']:
        # every element enqueued must be dequeued, in the same order of chunks
        S = sites(cfg)
        pr = [(S[o['k']]['f'], o['a']) for o in run['ops'] if S[o['k']]['t'] in ('fin', 'enq')]
        co = [(S[o['k']]['f'], o['a']) for o in run['ops'] if S[o['k']]['t'] in ('fout', 'deq')]
        if pr != co:
            return None
    else:
        S = sites(cfg)
        for th in range(cfg['nth']):
            pend = {'din': [], 'dout': []}
            for o in run['ops']:
                if o['th'] != th:
                    continue
                s = S[o['k']]
                t = s['t']
                if t in ('win', 'read'):
                    pend['din'] = []
                elif t in ('wout', 'write'):
                    pend['dout'] = []
                ws = wr = None
                if t in ('din', 'dout'):
                    u = pk(cfg['odw'], cfg['rams'][s['r']]['dw']) if t == 'dout' else 1
                    ws = {o['a'] + k * o['c'] for k in range((o['b'] + u - 1) // u * u)}
                    wr = t == 'din'
                elif t in ('rrd', 'rwr'):
                    ws, wr = {o['a']}, t == 'rwr'
                elif t == 'dump':
                    ws, wr = set(range(o['a'], o['b'])), False
                if ws is not None:
                    for d in pend:
                        for (ri, x) in pend[d]:
                            if ri == s['r'] and (wr or d == 'din') and x & ws:
                                return None
                if t in ('din', 'dout'):
                    if s['a']:
                        pend[t].append((s['r'], ws))
                    else:
                        pend[t] = []
    return run


def check(cfg, run, log):
    viols = []
    has_reset = any(e['bit'] == 31 for e in run['sched'])

    def add(cls, msg):
        viols.append(V(cls, msg, props=['C07'] + (['C25'] if has_reset else [])))

    S = sites(cfg)
    iw, ow = cfg['idw_'], cfg['odw']
    H = opthread.Hist(cfg['nth'], cfg.get('prog'))
    si, so, lasts = [], [], []
    for line in log.split('\n'):
        p = line.split()
        if not p:
            continue
        if p[0] == 'RESET':
            si, so, lasts = [], [], []
        if H.feed(p):
            continue
        if p[0] in ('VS', 'VX', 'VD'):
            add({'VS': 'instability', 'VX': 'undefined-handshake', 'VD': 'undefined-payload'}[p[0]], ' '.join(p[1:]))
        elif p[0] in ('STRB', 'SIDE'):
            add('wrong-sideband', line)
        elif p[0] == 'SI':
            si.append(int(p[1]))
            H.order.append('i')
        elif p[0] == 'SO':
            so.append((int(p[1]), p[2], p[3]))
            H.order.append('o')
        elif p[0] == 'L':
            lasts.append(int(p[2]) if p[2] in '01' else 9)
    # reference
    ram = {}
    for ri, r in enumerate(cfg['rams']):
        ram[ri] = [(w * 40503 + ri + 1) & ((1 << r['dw']) - 1) for w in range(ramsize(r))]
    ff = {i: [] for i in range(len(cfg['fifos']))}
    nin = 0
    exp_o = []          # (data, mask, last)
    exp_e = {t: [] for t in range(cfg['nth'])}
    need = {t: [] for t in range(cfg['nth'])}    # (op index, beats needed before the next op)
    beat = lambda n: bfm.dgen(run['seed'], n, iw)
    lastb = lambda n: int(run['lastp'] != 0 and n % run['lastp'] == run['lastp'] - 1)

    def take(nw, w):
        nonlocal nin
        if w >= iw:
            k = w // iw
            out = []
            for _ in range(nw):
                v = 0
                for j in range(k):
                    v |= beat(nin) << (j * iw)
                    nin += 1
                out.append(v)
            return out
        k = iw // w
        nb = (nw + k - 1) // k
        out = []
        for _ in range(nb):
            v = beat(nin)
            nin += 1
            out += [(v >> (j * w)) & ((1 << w) - 1) for j in range(k)]
        return out[:nw]

    def give(words, w):
        if w >= ow:
            k = w // ow
            for n, v in enumerate(words):
                for j in range(k):
                    m = (1 << ow) - 1
                    exp_o.append((((v or 0) >> (j * ow)) & m, m if v is not None else 0, int(n == len(words) - 1 and j == k - 1)))
        else:
            k = ow // w
            for n in range(0, len(words), k):
                v = mk = 0
                for j, x in enumerate(words[n:n + k]):
                    if x is not None:
                        v |= x << (j * w)
                        mk |= ((1 << w) - 1) << (j * w)
                exp_o.append((v, mk, int(n + k >= len(words))))

    def model(th):
        n = 0
        for o in run['ops']:
            if o['th'] != th:
                continue
            s = S[o['k']]
            t = s['t']
            if t == 'din':
                r = cfg['rams'][s['r']]
                for k, v in enumerate(take(o['b'], r['dw'])):
                    ram[s['r']][o['a'] + k * o['c']] = v
                if not s['a']:
                    need[th].append((n + 1, nin))
            elif t == 'dout':
                r = cfg['rams'][s['r']]
                give([ram[s['r']][o['a'] + k * o['c']] for k in range(o['b'])], r['dw'])
            elif t == 'rrd':
                exp_e[th].append((ram[s['r']][o['a']], cfg['rams'][s['r']]['dw'], n, None))
            elif t == 'rwr':
                ram[s['r']][o['a']] = o['b'] & ((1 << cfg['rams'][s['r']]['dw']) - 1)
            elif t == 'dump':
                for w in range(o['a'], o['b']):
                    exp_e[th].append((ram[s['r']][w], cfg['rams'][s['r']]['dw'], n, None))
            elif t == 'fin':
                ff[s['f']] += take(o['a'], cfg['fifos'][s['f']]['dw'])
                if not s['a']:
                    need[th].append((n + 1, nin))
            elif t == 'enq':
                ff[s['f']] += [(o['b'] + w) & ((1 << cfg['fifos'][s['f']]['dw']) - 1) for w in range(o['a'])]
            elif t == 'fout':
                give(ff[s['f']][:o['a']], cfg['fifos'][s['f']]['dw'])
                del ff[s['f']][:o['a']]
            elif t == 'deq':
                for w in range(o['a']):
                    exp_e[th].append((ff[s['f']][w], cfg['fifos'][s['f']]['dw'], n, None))
                del ff[s['f']][:o['a']]
            elif t == 'read':
                exp_e[th].append((beat(nin), min(iw, 32), n, lastb(nin) if cfg['last'] else None))
                nin_inc()
                need[th].append((n + 1, nin))
            elif t == 'write':
                exp_o.append((o['a'] & ((1 << ow) - 1), (1 << ow) - 1, o['b'] & 1))
            elif t == 'win':
                need[th].append((n + 1, nin))
            n += 1

    def nin_inc():
        nonlocal nin
        nin += 1

    for th in range(cfg['nth']):
        model(th)
    endc = abs(H.end) if H.end else run['maxcyc']
    if not H.ok:
        add('deadlock', 'no completion by cycle %d: %d of %d input beats, %d of %d output beats' % (run['maxcyc'], len(si), nin, len(so), len(exp_o)))
    if len(si) > nin:
        add('phantom-input', '%d beats taken, %d asked for' % (len(si), nin))
    if H.ok and len(si) < nin:
        add('lost-input', '%d beats taken, %d asked for' % (len(si), nin))
    for n, (c, d, l) in enumerate(so):
        if n >= len(exp_o):
            add('phantom-output', 'output beat %d at cycle %d: %s' % (n, c, d))
            break
        v, mk, el = exp_o[n]
        if any(ch in d for ch in 'xXzZ') and mk == (1 << ow) - 1:
            add('wrong-output', 'beat %d at cycle %d is %s' % (n, c, d))
            break
        dv = int(''.join(ch if ch not in 'xXzZ' else '0' for ch in d), 16)
        if (dv ^ v) & mk:
            add('wrong-output', 'beat %d at cycle %d: %s, expected %x (mask %x)' % (n, c, d, v, mk))
            break
        if cfg['last'] and l != str(el):
            add('wrong-last', 'beat %d at cycle %d: TLAST %s, expected %d' % (n, c, l, el))
            break
    if H.ok and len(so) < len(exp_o):
        add('lost-output', '%d of %d beats' % (len(so), len(exp_o)))
    for th in range(cfg['nth']):
        for n, (c, v, e) in enumerate([x for x in H.evs[th] if x[2] >= 0]):
            if n >= len(exp_e[th]):
                add('phantom-result', 'thread %d result %d' % (th, n))
                break
            ev, w, oi, el = exp_e[th][n]
            if ev is not None and ('x' in v or (int(v, 16) ^ ev) & ((1 << w) - 1)):
                add('wrong-result', 'thread %d result %d (op %d) at cycle %d: %s, expected %x' % (th, n, oi, c, v, ev))
                break
            if el is not None and th == 0 and n < len(lasts) and lasts[n] != el:
                add('wrong-last-in', 'thread %d result %d: last %d, expected %d' % (th, n, lasts[n], el))
                break
        if H.ok and len(H.evs[th]) < len(exp_e[th]):
            add('lost-result', 'thread %d: %d of %d' % (th, len(H.evs[th]), len(exp_e[th])))
        for i, k in need[th]:
            b = H.began[th].get(i)
            if b is not None and k and (len(si) < k or si[k - 1] > b):
                add('early-return', 'thread %d passed op %d at cycle %d before input beat %d was exchanged' % (th, i - 1, b, k - 1))
                break
    fl = opthread.fired(run, endc, R0)
    return viols, opthread.stats(log, H, run, endc, H.order, fl, {'in_beats': len(si), 'out_beats': len(so)})
