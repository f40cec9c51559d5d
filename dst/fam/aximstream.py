"""DUT family: AXI master engines that feed / drain AXI-Stream ports
(AXIM_for_AXIStreamIn, AXIM_for_AXIStreamOut) with RAM or FIFO on the stream side."""
from .. import bfm, core, genmod, opthread
from ..core import V

SCH = 3072
R0 = 8
CHANS = [('ar_stall', 3), ('r_delay', 4), ('aw_stall', 5), ('w_stall', 6), ('b_delay', 7), ('thread0_stall', 10), ('thread1_stall', 11)]
RAMAW = 6
RAMN = 1 << RAMAW


def sites(cfg):
    S = [None]
    for th, e in ((0, 'reng'), (1, 'weng')):
        S.append({'t': e, 'th': th})
    if cfg['fifo']:
        for asy in (0, 1):
            S.append({'t': 'fin', 'a': asy, 'th': 0})
            S.append({'t': 'fout', 'a': asy, 'th': 1})
    else:
        for asy in (0, 1):
            S.append({'t': 'din', 'a': asy, 'th': 0})
            S.append({'t': 'dout', 'a': asy, 'th': 1})
        S.append({'t': 'dump', 'th': 0})
        S.append({'t': 'rwr', 'th': 1})
    S.append({'t': 'read', 'th': 0})
    S.append({'t': 'write', 'th': 1})
    S.append({'t': 'sin', 'th': 0})
    S.append({'t': 'sout', 'th': 1})
    S.append({'t': 'rwait', 'th': 0})
    S.append({'t': 'rwait2', 'th': 0})
    S.append({'t': 'wwait', 'th': 1})
    S.append({'t': 'wwait2', 'th': 1})
    S.append({'t': 'widle', 'th': 1})
    S.append({'t': 'wresp', 'th': 1})
    if cfg['base']:
        S.append({'t': 'rbase', 'th': 0})
        S.append({'t': 'wbase', 'th': 1})
    S.append({'t': 'gate', 'th': 0})
    S.append({'t': 'gate', 'th': 1})
    return S


def stmt(cfg, s):
    k, t = s['t'], s['th']
    asy = '_async' if s.get('a') else ''
    return {
        'reng': ['rdm.dma_read_async(b, a)'],
        'weng': ['wrm.dma_write_async(b, a)'],
        'fin': ['si.dma_read%s(ff, a)' % asy],
        'fout': ['so.dma_write%s(ff, a)' % asy],
        'din': ['si.dma_read%s(ra, a, b, local_stride=c, port=0)' % asy],
        'dout': ['so.dma_write%s(rb, a, b, local_stride=c, port=0)' % asy],
        'dump': ['for w in range(a, b):'] + ['    ' + x for x in opthread.ret(t, 'ra.read(w, port=1)')],
        'rwr': ['rb.write(a, b, port=1)'],
        'read': ['v, l = si.read()'] + (['lasto.value = l'] if cfg['last'] else []) + opthread.ret(t, 'v'),
        'write': ['so.write(a, b)'] if cfg['last'] else ['so.write(a)'],
        'sin': ['si.dma_wait_read()'],
        'sout': ['so.dma_wait_write()'],
        'rwait': ['rdm.dma_wait_read()'],
        'rwait2': ['rdm.dma_wait()'],
        'wwait': ['wrm.dma_wait_write()'],
        'wwait2': ['wrm.dma_wait()'],
        'widle': ['wrm.dma_wait_write_idle()'],
        'wresp': ['wrm.dma_wait_write_response()'],
        'rbase': ['rdm.set_global_base_addr(b)'],
        'wbase': ['wrm.set_global_base_addr(b)'],
        'gate': ['while stall%d:' % t, '    pass'],
    }[k]


def build(cfg):
    x = 'Fifo' if cfg['fifo'] else ''
    dw = cfg['dw']
    L = [genmod.HEADER, 'def mk():', '    m = Module("dut")', '    clk = m.Input("CLK")', '    rst = m.Input("RST")']
    a = L.append
    arg = 'with_last=%s, with_strb=%s, noio=True, req_fifo_addrwidth=%d' % (bool(cfg['last']), bool(cfg['strb']), cfg['srq'])
    a('    si = vthread.AXIStreamIn%s(m, "si", clk, rst, %d, %s)' % (x, dw, arg))
    a('    so = vthread.AXIStreamOut%s(m, "so", clk, rst, %d, %s)' % (x, dw, arg))
    b = 'use_global_base_addr=%s, req_fifo_addrwidth=%d, fsm_as_module=%s' % (bool(cfg['base']), cfg['rq'], bool(cfg.get('fam')))
    a('    rdm = vthread.AXIM_for_AXIStreamIn(si, "rdm", %s)' % b)
    a('    wrm = vthread.AXIM_for_AXIStreamOut(so, "wrm", %s)' % b)
    if cfg['fifo']:
        a('    ff = vthread.FIFO(m, "ff", clk, rst, %d, %d, sync=%s)' % (cfg['iw'], cfg['faw'], bool(cfg['sync'])))
    else:
        a('    ra = vthread.RAM(m, "ra", clk, rst, %d, %d, numports=2)' % (cfg['iw'], RAMAW))
        a('    rb = vthread.RAM(m, "rb", clk, rst, %d, %d, numports=2)' % (cfg['ow'], RAMAW))
    if cfg['last']:
        a('    lasto = m.OutputReg("lasto", initval=0)')
    S = sites(cfg)
    rw = max(64, dw, cfg['iw'], cfg['ow'])
    for t in range(2):
        L += ['    ' + x for x in opthread.decl(t, rw)]
        a('    stall%d = m.Input("stall%d")' % (t, t))
        st = [(c, stmt(cfg, s)) for c, s in enumerate(S) if s and s['th'] == t]
        pro = []
        if not cfg['fifo']:
            pro = ['for w in range(%d):' % RAMN, '    r%s.write(w, w * 40503 + %d, port=1)' % ('ab'[t], t + 1)]
        L += ['    ' + x for x in opthread.worker(t, st, go=None, prologue=pro, prog=cfg.get('prog'))]
        L += ['    ' + x for x in opthread.start(t, cfg)]
    a('    return m')
    return genmod.load('\n'.join(L)).mk().to_verilog()


PORTS = ('awaddr awlen awsize awburst awlock awcache awprot awqos awuser awvalid awready wdata wstrb wlast wvalid wready '
         'bresp bvalid bready araddr arlen arsize arburst arlock arcache arprot arqos aruser arvalid arready '
         'rdata rresp rlast rvalid rready').split()


def tb(cfg):
    dw = cfg['dw']
    D, B, conn = [], [], ['.CLK(CLK)', '.RST(RST)']
    W = dict(awaddr=32, araddr=32, awlen=8, arlen=8, awsize=3, arsize=3, awburst=2, arburst=2, wdata=dw, rdata=dw, wstrb=dw // 8,
             bresp=2, rresp=2, awlock=1, arlock=1, awcache=4, arcache=4, awqos=4, arqos=4, awprot=3, arprot=3, awuser=2, aruser=2)
    for n, sb in (('rdm', '{1\'b0,st[4:3],3\'b0}'), ('wrm', '{2\'b0,st[7:5]}')):
        for p in PORTS:
            D.append('wire [%d:0] %s_%s;' % (W.get(p, 1) - 1, n, p))
            conn.append('.%s_%s(%s_%s)' % (n, p, n, p))
        sig = ', '.join('%s_%s' % (n, p) for p in ('awaddr awlen awsize awburst awvalid awready wdata wstrb wlast wvalid wready bresp bvalid bready '
                                                   'araddr arlen arsize arburst arvalid arready rdata rresp rlast rvalid rready').split())
        salt = 'prm[2]'
        B.append('axi_slave_bfm #(.DW(%d)) s%s(CLK, RST, cyc, %s, prm[1][3:0], %s, %s);' % (
            dw, n, 'st[4:0]' if n == 'rdm' else '{2\'b0,st[7:5]}', salt, sig))
        for ch, pl in (('aw', '{%(n)s_awaddr,%(n)s_awlen,%(n)s_awsize,%(n)s_awburst,%(n)s_awlock,%(n)s_awcache,%(n)s_awprot,%(n)s_awqos,%(n)s_awuser}'),
                       ('ar', '{%(n)s_araddr,%(n)s_arlen,%(n)s_arsize,%(n)s_arburst,%(n)s_arlock,%(n)s_arcache,%(n)s_arprot,%(n)s_arqos,%(n)s_aruser}')):
            B.append('vr_mon #(59,"%s%s") m_%s%s(CLK,RST,cyc,%s_%svalid,%s_%sready,%s);' % (n, ch, n, ch, n, ch, n, ch, pl % {'n': n}))
        B.append('vr_mon #(%d,"%sw") m_%sw(CLK,RST,cyc,%s_wvalid,%s_wready,{%s_wdata,%s_wstrb,%s_wlast});' % (dw + dw // 8 + 1, n, n, n, n, n, n, n))
    B.append('always @(posedge CLK) if(!RST && (rdm_awvalid!==0 || rdm_wvalid!==0 || wrm_arvalid!==0)) $display("GHOST %0d", cyc);')
    if cfg['last']:
        conn.append('.lasto(lasto)')
        D.append('wire lasto;')
        B.append('always @(posedge CLK) if(!RST && ev0 !== ev0p) $display("L %0d %0d", cyc, lasto);')
    rw = max(64, dw, cfg['iw'], cfg['ow'])
    for t in range(2):
        d, b, c = opthread.tb(t, rw)
        D.append(d)
        B.append(b)
        conn += c + ['.stall%d(st[%d])' % (t, 10 + t)]
    d, b = opthread.finish(2, 'wrm_wvalid!==1 && wrm_awvalid!==1 && rdm_arvalid!==1 && rdm_rvalid!==1 && wrm_bvalid!==1', 60)
    D.append(d)
    B.append(b)
    B.append('dut uut(%s);' % ', '.join(conn))
    return bfm.VR_MON + bfm.AXI_SLAVE + bfm.skeleton('\n'.join(B), '\n'.join(D), schlen=SCH)


def files(cfg, run, rd):
    ev = [{'bit': 31, 'at': 0, 'n': 4}] + [dict(e, at=e['at'] + R0) for e in run['sched']]
    core.write_hex(rd + '/sched.hex', core.expand_schedule(ev, SCH))
    p = [0] * 64
    p[0] = run['maxcyc']
    p[1] = run['mode']
    p[2] = run['salt']
    core.write_hex(rd + '/p.hex', p)
    opthread.write_ops(rd, run, 2)


MINIMISE = ('sched', 'ops')
LIN_VARY = ('sched', 'salt')        # what a legal program may queue depends on the mode


def gen_cfg(rng, i=0, style={}):
    dw = rng.choice([8, 32, 32, 64, 16])
    fifo = int(rng.random() < 0.4)

    def near(w):
        return max(8, min(128, rng.choice([w, w, w * 2, w * 4, w // 2, w // 4])))
    iw = near(dw)
    return {'dw': dw, 'last': int(rng.random() < 0.7), 'strb': int(rng.random() < 0.2), 'srq': rng.choice([3, 3, 2, 4]), 'rq': rng.choice([3, 3, 2, 4]),
            'base': int(rng.random() < 0.3), 'fifo': fifo, 'iw': iw, 'ow': iw if fifo else near(dw), 'faw': rng.choice([2, 3, 5]), 'sync': int(rng.random() < 0.6),
            'fam': int(rng.random() < 0.2)}


def beats(n, w, dw):
    """stream words needed for n local words of width w"""
    return n * (w // dw) if w >= dw else -(-n // (dw // w))


def nburst(a, n, nb):
    k = 0
    while n > 0:
        m = min(n, 256, (4096 - (a & 4095)) // nb)
        a += m * nb
        n -= m
        k += 1
    return k


def gen_run(cfg, rng, style):
    S = sites(cfg)
    ops = []
    dw, nb = cfg['dw'], cfg['dw'] // 8

    def code(th, **kw):
        for c, s in enumerate(S):
            if s and s['th'] == th and all(s.get(k) == v for k, v in kw.items()):
                return c

    def mk(th, kw, **f):
        return dict({'k': code(th, **kw), 'a': 0, 'b': 0, 'c': 0, 'd': 0, 'e': 0, 'th': th}, **f)

    def addr(n):
        if rng.random() < 0.5:
            a = 4096 * rng.randint(1, 12) - rng.randint(0, n + 2) * nb
        else:
            a = rng.randrange(256, 58000)
        if rng.random() < 0.85:
            a = a // nb * nb
        return max(0, min(58000, a))

    long = rng.random() < style.get('p_long', 0.06)
    mxb = 300 if long else 40
    base = [0, 0]
    # a slave may accept an address only once data is offered: then a program that queues a
    # second write request before it supplies the data of the first one blocks itself
    mode = rng.choice([0, 0, 0, 1, 2, 4])

    def local_ops(th, w, nmax):
        """one local-side transfer -> (op, stream words)"""
        if rng.random() < 0.2:
            return (mk(0, {'t': 'read'}) if th == 0 else mk(1, {'t': 'write'}, a=rng.getrandbits(31), b=rng.getrandbits(1))), 1
        n = rng.choice([1, 2, 3, 5, rng.randint(1, 16)])
        if long:
            n = rng.randint(1, RAMN)
        stride = rng.choice([1, 1, 1, 2, 3])
        r = max(1, dw // w)
        a = rng.randrange(RAMN)
        nr = -(-n // r) * r
        if a + (nr - 1) * stride >= RAMN:
            a, stride = 0, 1
        if nr > RAMN:
            n = RAMN
        return mk(th, {'t': 'din' if th == 0 else 'dout', 'a': int(rng.random() < 0.5)}, a=a, b=n, c=stride), beats(n, w, dw)

    if cfg['fifo']:
        plans = [None, None]
        chunks = []
        tot = 0
        for _ in range(rng.randint(1, 6)):
            r = max(1, dw // cfg['iw'])
            q = r * rng.choice([1, 1, 2, 3, rng.randint(1, 12)])
            chunks.append(q)
        for th in (0, 1):
            loc = []
            cs = list(chunks)
            if th == 1 and rng.random() < 0.4 and len(cs) > 1:
                cs = [sum(cs)]
            for q in cs:
                loc.append((mk(th, {'t': 'fin' if th == 0 else 'fout', 'a': int(rng.random() < 0.5)}, a=q), beats(q, cfg['iw'], dw)))
            plans[th] = loc
    else:
        plans = [[local_ops(th, cfg['iw'] if th == 0 else cfg['ow'], 0) for _ in range(rng.randint(1, 6))] for th in (0, 1)]
    for th in (0, 1):
        loc = plans[th]
        out = []
        if cfg['base'] and rng.random() < 0.8:
            base[th] = rng.randrange(1, 1 << 10) * nb
            out.append(mk(th, {'t': 'rbase' if th == 0 else 'wbase'}, b=base[th]))
        i = 0
        dirty = False
        while i < len(loc):
            g = loc[i:i + rng.choice([1, 1, 1, 2, 3])]
            i += len(g)
            tot = sum(x[1] for x in g)
            # partition of the stream words into engine requests
            parts = []
            rest = tot
            while rest:
                p = rest if rng.random() < 0.7 or len(parts) >= 2 else rng.randint(1, rest)
                parts.append(p)
                rest -= p
            eng = []
            ent = 0
            for p in parts:
                ga = addr(p)
                ent += 1 + nburst(ga // nb * nb, p, nb)
                eng.append(mk(th, {'t': 'reng' if th == 0 else 'weng'}, a=p, b=(ga - base[th]) & 0xffffffff))
            if len(eng) > 1 and (ent > (1 << cfg['rq']) - 3 or (mode & 1 and th == 1)):
                p = tot
                ga = addr(p)
                eng = [mk(th, {'t': 'reng' if th == 0 else 'weng'}, a=p, b=(ga - base[th]) & 0xffffffff)]
            ls = [x[0] for x in g]
            if ls and S[ls[0]['k']].get('a') and rng.random() < 0.3:
                out += [ls[0]] + eng + ls[1:]
            else:
                out += eng + ls
            if not cfg['fifo'] and th == 0 and S[ls[-1]['k']]['t'] == 'din' and rng.random() < 0.3:
                o = ls[-1]
                if S[o['k']]['a']:
                    out.append(mk(0, {'t': 'sin'}))
                out.append(mk(0, {'t': 'dump'}, a=o['a'], b=min(RAMN, o['a'] + min(16, o['b'] * o['c']))))
            ch = rng.random()
            if ch < 0.4:
                out.append(mk(th, {'t': rng.choice(['sin', 'rwait', 'rwait2'] if th == 0 else ['sout', 'wwait', 'wwait', 'wwait2', 'widle', 'wresp'])}))
            if rng.random() < 0.3:
                out.append(mk(th, {'t': 'gate'}))
            if not cfg['fifo'] and th == 1 and rng.random() < 0.3:
                out.append(mk(1, {'t': 'sout'}))
                out.append(mk(1, {'t': 'rwr'}, a=rng.randrange(RAMN), b=rng.getrandbits(31)))
        if th == 1:
            out.append(mk(1, {'t': 'sout'}))
            out.append(mk(1, {'t': 'wwait'}))
        elif not cfg['fifo']:
            out.append(mk(0, {'t': 'sin'}))
            out.append(mk(0, {'t': 'dump'}, a=0, b=RAMN))
        else:
            out.append(mk(0, {'t': 'sin'}))
        ops += out
    hor = rng.choice([100, 300, 900])
    sched = [] if rng.random() < 0.06 else core.gen_stalls(rng, CHANS, hor)
    off = 0 if cfg['fifo'] else 3 * RAMN
    sched = [dict(e, at=e['at'] + off) for e in sched]
    if style.get('reset'):
        for _ in range(rng.choice([1, 1, 2])):
            sched.append({'k': 'reset', 'bit': 31, 'at': off + rng.randrange(0, rng.choice([40, 120, 400])), 'n': rng.choice([1, 1, 2, 5])})
    r = {'ops': ops, 'sched': sched, 'salt': rng.getrandbits(30), 'mode': mode, 'maxcyc': SCH + 6000}
    assert normalise(cfg, r) is not None
    return r


def normalise(cfg, run):
    """None when an operation list is not a legal program (used by minimisation)."""
    S = sites(cfg)
    dw = cfg['dw']
    chunks = [[], []]
    for th in (0, 1):
        avail = want = 0
        pend = []
        ents = []
        for o in run['ops']:
            if o['th'] != th:
                continue
            s = S[o['k']]
            t = s['t']
            w = cfg['iw'] if th == 0 else cfg['ow']
            n = 0
            if t in ('reng', 'weng'):
                avail += o['a']
                ents.append(o['a'])
            elif t in ('din', 'dout'):
                n = beats(o['b'], w, dw)
                r = max(1, dw // w)
                nr = -(-o['b'] // r) * r
                ws = {o['a'] + k * o['c'] for k in range(nr if t == 'dout' else o['b'])}
                if t == 'din' and s['a']:
                    pend.append(ws)
                elif t == 'dout' and s['a']:
                    pend.append(ws)
                else:
                    pend = []
            elif t in ('fin', 'fout'):
                n = beats(o['a'], cfg['iw'], dw)
                chunks[th].append(o['a'])
            elif t in ('read', 'write'):
                n = 1
                pend = []
            elif t in ('sin', 'sout'):
                pend = []
            elif t == 'dump' or t == 'rwr':
                x = set(range(o['a'], o['b'])) if t == 'dump' else {o['a']}
                if any(x & p for p in pend):
                    return None
            want += n
            blocking = t in ('din', 'dout', 'fin', 'fout') and not s['a'] or t in ('read', 'sin') or t in ('sout',)
            if blocking and want > avail:
                return None
            if t in ('rwait', 'rwait2', 'wwait', 'wwait2', 'widle', 'wresp', 'rbase', 'wbase') and want != avail:
                return None
            if want == avail:
                ents = []
            if len(ents) > 1 and want < sum(ents[:-1]) and len(ents) > 3:
                return None
            if len(ents) > 1 and run['mode'] & 1 and th == 1 and want < avail - ents[-1] and t == 'weng':
                return None
        if want != avail:
            return None
    if cfg['fifo'] and sum(chunks[0]) != sum(chunks[1]):
        return None
    return run


def check(cfg, run, log):
    viols = []
    has_reset = any(e['bit'] == 31 for e in run['sched'])

    def add(cls, msg):
        viols.append(V(cls, msg, props=['C08'] + (['C25'] if has_reset else [])))

    S = sites(cfg)
    dw, nb = cfg['dw'], cfg['dw'] // 8
    H = opthread.Hist(2, cfg.get('prog'))
    ar, aw, w, r, b = [], [], [], [], []
    lasts = []
    for line in log.split('\n'):
        p = line.split()
        if not p:
            continue
        if p[0] == 'RESET':
            for x in (ar, aw, w, r, b, lasts):
                del x[:]
        if H.feed(p):
            continue
        if p[0] in ('VS', 'VX', 'VD', 'VR', 'VL'):
            add({'VS': 'axi-instability', 'VX': 'axi-undefined-valid', 'VD': 'axi-undefined-payload', 'VR': 'axi-undefined-ready', 'VL': 'axi-wlast'}[p[0]],
                ' '.join(p[1:]))
        elif p[0] == 'GHOST':
            add('axi-ghost-channel', line)
        elif p[0] in ('AR', 'AW'):
            (ar if p[0] == 'AR' else aw).append((int(p[1]), opthread.num(p[2]), int(p[3]), int(p[4]), int(p[5])))
            H.order.append(p[0])
        elif p[0] == 'W':
            w.append((int(p[1]), p[2], p[3]))
            H.order.append('w')
        elif p[0] == 'R':
            r.append(int(p[1]))
            H.order.append('r')
        elif p[0] == 'B':
            b.append(int(p[1]))
            H.order.append('b')
        elif p[0] == 'L':
            lasts.append(int(p[2]) if p[2] in '01' else 9)
    size = nb.bit_length() - 1
    for nm, lst in (('AR', ar), ('AW', aw)):
        for (c, a, ln, sz, bu) in lst:
            if a < 0:
                add('axi-undefined-payload', '%s at %d' % (nm, c))
                continue
            if a % nb or sz != size or bu != 1:
                add('axi-size', '%s at %d: addr %x size %d burst %d' % (nm, c, a, sz, bu))
            if (a & 4095) + (ln + 1) * nb > 4096:
                add('axi-4kb', '%s at %d: %x + %d bytes' % (nm, c, a, (ln + 1) * nb))
    # ---- reference
    base = [0, 0]
    inq, lastq, outq = [], [], []       # stream words (in: values; out: (value, mask))
    rreq, wreq = [], []          # (op index, addr, words)
    for th in (0, 1):
        n = -1
        for o in run['ops']:
            if o['th'] != th:
                continue
            n += 1
            t = S[o['k']]['t']
            if t in ('rbase', 'wbase'):
                base[th] = o['b']
            elif t in ('reng', 'weng'):
                a = ((o['b'] + base[th]) & 0xffffffff) // nb * nb
                (rreq if th == 0 else wreq).append((n, a, o['a']))
                if th == 0:
                    for k in range(o['a']):
                        inq.append(sum(bfm.mem_init_byte((a + k * nb + j) & 0xffff, run['salt']) << (8 * j) for j in range(nb)))
                        lastq.append(int(k == o['a'] - 1))
    ram = [[(x * 40503 + t + 1) & ((1 << (cfg['iw'], cfg['ow'])[t]) - 1) for x in range(RAMN)] for t in (0, 1)]
    ff, exp_e, need_r, need_b = [], [], [], []
    nin = 0

    def take(nw, wd):
        nonlocal nin
        k = nin
        nin += beats(nw, wd, dw)
        ws = inq[k:nin]
        if wd >= dw:
            q = wd // dw
            return [sum(ws[i * q + j] << (j * dw) for j in range(q)) for i in range(nw)]
        q = dw // wd
        return [(ws[i // q] >> (i % q * wd)) & ((1 << wd) - 1) for i in range(nw)]

    def give(words, wd):
        M = (1 << dw) - 1
        if wd >= dw:
            for v in words:
                for j in range(wd // dw):
                    outq.append(((v >> (j * dw)) & M, M))
        else:
            q = dw // wd
            for i in range(0, len(words), q):
                v = m = 0
                for j, x in enumerate(words[i:i + q]):
                    v |= x << (j * wd)
                    m |= ((1 << wd) - 1) << (j * wd)
                outq.append((v, m))

    rdone = wdone = 0
    for th in (0, 1):
        n = -1
        for o in run['ops']:
            if o['th'] != th:
                continue
            n += 1
            s = S[o['k']]
            t = s['t']
            if t == 'reng':
                rdone += o['a']
            elif t == 'weng':
                wdone += 1
            elif t == 'din':
                for k, v in enumerate(take(o['b'], cfg['iw'])):
                    ram[0][o['a'] + k * o['c']] = v
            elif t == 'dout':
                give([ram[1][o['a'] + k * o['c']] for k in range(o['b'])], cfg['ow'])
            elif t == 'fin':
                ff += take(o['a'], cfg['iw'])
            elif t == 'fout':
                give(ff[:o['a']], cfg['iw'])
                del ff[:o['a']]
            elif t == 'dump':
                for k in range(o['a'], o['b']):
                    exp_e.append((ram[0][k], cfg['iw'], n, None))
            elif t == 'rwr':
                ram[1][o['a']] = o['b'] & ((1 << cfg['ow']) - 1)
            elif t == 'read':
                exp_e.append((inq[nin], min(dw, 32), n, lastq[nin] if cfg['last'] else None))
                nin += 1
            elif t == 'write':
                outq.append((o['a'] & ((1 << dw) - 1), (1 << dw) - 1))
            if (t in ('din', 'fin') and not s['a']) or t in ('read', 'sin'):
                need_r.append((n + 1, nin))
            elif t in ('rwait', 'rwait2'):
                need_r.append((n + 1, rdone))
            elif t in ('wwait', 'wwait2'):
                need_b.append((n + 1, wdone))
    endc = abs(H.end) if H.end else run['maxcyc']
    if not H.ok:
        add('deadlock', 'no completion by cycle %d: read beats %d of %d, write beats %d of %d, responses %d of %d; progress %s' % (
            run['maxcyc'], len(r), len(inq), len(w), len(outq), len(b), len(aw), [max([0] + list(H.began[t])) for t in (0, 1)]))
    # ---- bursts are exactly the requested ranges, in order
    bend = []
    for nm, lst, req in (('AR', ar, rreq), ('AW', aw, wreq)):
        pos = 0
        for (n, a, k) in req:
            cur = a
            while cur < a + k * nb and pos < len(lst) and lst[pos][1] == cur & 0xffffffff:
                cur += (lst[pos][2] + 1) * nb
                pos += 1
            if cur != a + k * nb and (H.ok or pos < len(lst)):
                add('wrong-request', '%s bursts cover [%x,%x) of requested [%x,%x) (op %d); next %s' % (
                    nm, a, cur, a, a + k * nb, n, lst[pos] if pos < len(lst) else None))
                break
            if nm == 'AW':
                bend.append(pos)
        else:
            if pos != len(lst):
                add('extra-request', '%d %s bursts more than requested' % (len(lst) - pos, nm))
    if H.ok:
        if len(r) != len(inq):
            add('wrong-read-beats', '%d of %d' % (len(r), len(inq)))
        if len(b) != len(aw):
            add('missing-response', '%d B for %d AW' % (len(b), len(aw)))
        if len(w) != len(outq):
            add('wrong-write-beats', '%d of %d' % (len(w), len(outq)))
    for n, (c, d, st) in enumerate(w):
        if n >= len(outq):
            break
        v, m = outq[n]
        if st != '%x' % ((1 << nb) - 1):
            add('wrong-strobe', 'W beat %d strobe %s' % (n, st))
            break
        if any(ch in 'xXzZ' for ch in d) and m == (1 << dw) - 1 or (opthread.num(d) ^ v) & m:
            add('wrong-write-data', 'W beat %d at cycle %d: %s expected %x mask %x' % (n, c, d, v, m))
            break
    ev0 = [x for x in H.evs[0]]
    for n, (c, v, e) in enumerate(ev0):
        if n >= len(exp_e):
            add('phantom-result', 'result %d' % n)
            break
        ev, wd, oi, el = exp_e[n]
        if 'x' in v or (int(v, 16) ^ ev) & ((1 << wd) - 1):
            add('wrong-result', 'result %d (op %d) at cycle %d: %s expected %x' % (n, oi, c, v, ev))
            break
        if el is not None and n < len(lasts) and lasts[n] != el:
            add('wrong-last', 'result %d (op %d): last %d expected %d' % (n, oi, lasts[n], el))
            break
    if H.ok and len(ev0) < len(exp_e):
        add('lost-result', '%d of %d' % (len(ev0), len(exp_e)))
    for i, k in need_r:
        t1 = H.began[0].get(i)
        if t1 is not None and sum(1 for x in r if x < t1) < k:
            add('early-return', 'thread 0 passed op %d at cycle %d before read beat %d' % (i - 1, t1, k))
            break
    for i, k in need_b:
        t1 = H.began[1].get(i)
        if t1 is not None and k and len(bend) >= k and sum(1 for x in b if x < t1) < bend[k - 1]:
            add('early-return', 'thread 1 passed op %d at cycle %d before response %d' % (i - 1, t1, bend[k - 1]))
            break
    fl = opthread.fired(run, endc, R0, [x for q, x in ((1, 'awready_waits_wvalid'), (2, 'wready_waits_aw'), (4, 'ready_waits_valid')) if run['mode'] & q])
    return viols, opthread.stats(log, H, run, endc, H.order, fl, {
        'read_beats': len(r), 'write_beats': len(w), 'ends_at_4kb': int(any((x[1] & 4095) + (x[2] + 1) * nb == 4096 for x in ar + aw)),
        'burst_256': int(any(x[2] == 255 for x in ar + aw))})
