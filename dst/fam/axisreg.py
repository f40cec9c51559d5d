"""DUT family: AXI / AXI-Lite register slaves (AXISRegister, AXISLiteRegister)
shared by a scheduled bus master and one or two hardware threads."""
from .. import bfm, core, genmod, opthread, linz
from ..core import V

SCH = 2048
CHANS = [('aw_delay', 0), ('w_delay', 1), ('b_stall', 2), ('ar_delay', 3), ('r_stall', 4)]
R0 = 8


def sites(cfg):
    """code -> (kind, constant register or None)"""
    s = [None]
    for k in ('read', 'write', 'flag', 'wait', 'waitn', 'wflag', 'wflagn'):
        s.append((k, None))
        if k in ('read', 'wait', 'wflag', 'write'):
            for r in range(min(cfg['length'], 2)):
                s.append((k, r))
    s += [('sync', None), ('delay', None)]
    return s


def stmt(t, s):
    k, r = s
    b = 'b' if r is None else str(r)
    return {'read': opthread.ret(t, 'saxi.read(%s)' % b), 'write': ['saxi.write(%s, c)' % b],
            'flag': ['saxi.write_flag(%s, c, d)' % b], 'wait': ['saxi.wait(%s, c)' % b],
            'waitn': ['saxi.wait(%s, c, polarity=False)' % b],
            'wflag': ['saxi.wait_flag(%s, c, d)' % b], 'wflagn': ['saxi.wait_flag(%s, c, d, polarity=False)' % b],
            'sync': ['while mi < c:', '    pass'], 'delay': ['for w in range(c):', '    pass']}[k]


def build(cfg):
    L = [genmod.HEADER, 'def mk():', '    m = Module("dut")',
         '    clk = m.Input("CLK")', '    rst = m.Input("RST")', '    mi = m.Input("mi", 32)']
    args = ['length=%d' % cfg['length']]
    if cfg.get('asmod'):
        args.append('fsm_as_module=True')
    if not cfg['lite'] and cfg.get('idw'):
        args += ['%s=%d' % (x, cfg['idw']) for x in ('waddr_id_width', 'wresp_id_width', 'raddr_id_width', 'rdata_id_width')]
    L.append('    saxi = vthread.%s(m, "s", clk, rst, %d, 32, %s)' % (
        'AXISLiteRegister' if cfg['lite'] else 'AXISRegister', cfg['dw'], ', '.join(args)))
    for t in range(cfg['nth']):
        L += ['    ' + x for x in opthread.decl(t)]
        st = [(c, stmt(t, s)) for c, s in enumerate(sites(cfg)) if s]
        L += ['    ' + x for x in opthread.worker(t, st, go=None, prog=cfg.get('prog'))]
        L += ['    ' + x for x in opthread.start(t, cfg, ', datawidth=%d' % max(32, cfg['dw']))]
    L.append('    return m')
    return genmod.load('\n'.join(L)).mk().to_verilog()


def master_ports(lite, p, dw, idw=0, ridw=None):
    """connections of the DUT slave port p_ to wires named p_*"""
    if lite:
        names = 'awaddr awvalid awready wdata wstrb wvalid wready bresp bvalid bready araddr arvalid arready rdata rresp rvalid rready'.split()
    else:
        names = ('awaddr awlen awvalid awready wdata wstrb wlast wvalid wready bresp bvalid bready '
                 'araddr arlen arvalid arready rdata rresp rlast rvalid rready').split()
        ridw = idw if ridw is None else ridw
        if idw:
            names += ['awid', 'bid']
        if ridw:
            names += ['arid', 'rid']
    conn = ['.%s_%s(%s_%s)' % (p, n, p, n) for n in names]
    if not lite:
        size = (dw // 8).bit_length() - 1
        for c in ('aw', 'ar'):
            conn += ['.%s_%ssize(3\'d%d)' % (p, c, size), '.%s_%sburst(2\'d1)' % (p, c), '.%s_%slock(1\'b0)' % (p, c),
                     '.%s_%sqos(4\'d0)' % (p, c), '.%s_%suser(2\'d0)' % (p, c)]
    for c in ('aw', 'ar'):
        conn += ['.%s_%scache(4\'d3)' % (p, c), '.%s_%sprot(3\'d0)' % (p, c)]
    return conn


def master_inst(lite, p, dw, st, hwp, idw=0, file='mops.hex', name='M', rst='RST', ridw=None):
    ridw = idw if ridw is None else ridw
    D = ('wire [31:0] %(p)s_awaddr, %(p)s_araddr; wire [7:0] %(p)s_awlen, %(p)s_arlen; wire [15:0] %(p)s_awid, %(p)s_arid; '
         'wire [%(i)d:0] %(p)s_bid; wire [%(ri)d:0] %(p)s_rid; '
         'wire %(p)s_awvalid, %(p)s_awready, %(p)s_wlast, %(p)s_wvalid, %(p)s_wready, %(p)s_bvalid, %(p)s_bready, '
         '%(p)s_arvalid, %(p)s_arready, %(p)s_rlast, %(p)s_rvalid, %(p)s_rready; wire [%(d)d:0] %(p)s_wdata, %(p)s_rdata; '
         'wire [%(s)d:0] %(p)s_wstrb; wire [1:0] %(p)s_bresp, %(p)s_rresp; wire [31:0] %(p)s_mi; wire %(p)s_done;' % dict(
             p=p, d=dw - 1, s=dw // 8 - 1, i=max(idw, 1) - 1, ri=max(ridw, 1) - 1))
    sigs = ('awid awaddr awlen awvalid awready wdata wstrb wlast wvalid wready bid bresp bvalid bready '
            'arid araddr arlen arvalid arready rid rdata rresp rlast rvalid rready').split()
    cs = ['%s_%s' % (p, s) for s in sigs]
    if not idw:
        cs = [c if not c.endswith('_bid') else "16'd0" for c in cs]
    if not ridw:
        cs = [c if not c.endswith('_rid') else "16'd0" for c in cs]
    B = ('axi_master_bfm #(.DW(%d),.FILE("%s"),.N("%s"),.LITE(%d)) mst_%s(CLK, %s, cyc, %s, %s, %s_mi, %s_done, %s);\n' % (
        dw, file, name, 1 if lite else 0, p, rst, st, hwp, p, p, ', '.join(cs)))
    B += 'vr_mon #(%d,"%sB") mb_%s(CLK,%s,cyc,%s_bvalid,%s_bready,{%s_bresp%s});\n' % (
        2 + idw, name, p, rst, p, p, p, ', %s_bid' % p if idw else '')
    B += 'vr_mon #(%d,"%sR") mr_%s(CLK,%s,cyc,%s_rvalid,%s_rready,{%s_rdata,%s_rresp%s%s});\n' % (
        dw + 2 + (0 if lite else 1) + ridw, name, p, rst, p, p, p, p, '' if lite else ', %s_rlast' % p, ', %s_rid' % p if ridw else '')
    B += ('always @(posedge CLK) if(%s===0 && (%s_awready===1\'bx || %s_wready===1\'bx || %s_arready===1\'bx)) '
          '$display("VX %s %%0d ready undefined", cyc);\n' % (rst, p, p, p, name))
    return D, B


def tb(cfg):
    dw = cfg['dw']
    idw = 0 if cfg['lite'] else cfg.get('idw', 0)
    D, B, conn = [], [], ['.CLK(CLK)', '.RST(RST)', '.mi(s_mi)']
    d, b = master_inst(cfg['lite'], 's', dw, 'st[4:0]', 'opi0', idw)
    D.append(d)
    B.append(b)
    conn += master_ports(cfg['lite'], 's', dw, idw)
    for t in range(cfg['nth']):
        d, b, c = opthread.tb(t)
        D.append(d)
        B.append(b)
        conn += c
    d, b = opthread.finish(cfg['nth'], 's_done')
    D.append(d)
    B.append(b)
    B.append('dut uut(%s);' % ', '.join(conn))
    return bfm.VR_MON + bfm.AXI_MASTER + bfm.skeleton('\n'.join(B), '\n'.join(D), schlen=SCH)


def files(cfg, run, rd):
    ev = [{'bit': 31, 'at': 0, 'n': 4}] + [dict(e, at=e['at'] + R0) for e in run['sched']]
    core.write_hex(rd + '/sched.hex', core.expand_schedule(ev, SCH))
    p = [0] * 64
    p[0] = run['maxcyc']
    core.write_hex(rd + '/p.hex', p)
    opthread.write_ops(rd, run, cfg['nth'])
    bfm.write_mops(rd, 'mops.hex', run['mops'])


MINIMISE = ('sched',)


def gen_cfg(rng, i=0, style={}):
    lite = rng.random() < 0.5
    return {'lite': lite, 'dw': rng.choice([32, 32, 64, 16, 8]) if not lite else rng.choice([32, 32, 64]),
            'length': rng.choice([2, 3, 4, 4, 5, 8, 9]), 'asmod': rng.random() < 0.25, 'nth': rng.choice([1, 1, 2]),
            'idw': rng.choice([0, 0, 4])}


def gen_run(cfg, rng, style):
    S = sites(cfg)
    L, nb = cfg['length'], cfg['dw'] // 8
    m31 = (1 << min(cfg['dw'], 31)) - 1 if cfg['dw'] > 8 else 0x7f
    roles = [rng.choice(['mail', 'status', 'data', 'data']) for _ in range(L)]
    roles[rng.randrange(L)] = 'data'
    hi = rng.choice([0, 0x40000000])
    mops, ops = [], {t: [] for t in range(cfg['nth'])}
    cur = [0] * L
    gate = [0] * L           # hw progress before the host may write this mailbox again
    usedv = {0}

    def newv():
        while True:
            v = rng.getrandbits(31) & m31
            if v not in usedv or len(usedv) > 60:
                usedv.add(v)
                return v

    def site(k, r):
        c = [(i, s) for i, s in enumerate(S) if s and s[0] == k and (s[1] is None or s[1] == r)]
        return rng.choice(c)[0]

    def hop(kind, r, n=1, hw=0, s=0):
        nr = sum(1 for o in mops if o['k'] == 1)
        nw = sum(1 for o in mops if o['k'] == 2)
        o = {'k': kind, 'a': (r * nb) | hi, 'n': n, 's': s, 'hw': hw, 'id': rng.getrandbits(cfg['idw']) if cfg['idw'] else 0}
        if rng.random() < 0.45:
            o['nr'], o['nw'] = nr, nw
        mops.append(o)

    seedc = [rng.getrandbits(20)]
    nrand = rng.randint(6, 22)
    if rng.random() < style.get('p_focus', 0.4):
        # one status register, thread and bus taking turns on it
        nrand //= 3
        r = rng.randrange(L)
        roles[r] = 'status'
        if 'data' not in roles:
            roles[(r + 1) % L] = 'data'
        bus = rng.random() < 0.5          # the bus writes it, too
        if bus and rng.random() < 0.6:
            seedc[0] += 1
            hop(2, r, 1, 0, seedc[0])
            hop(1, r, 1)
            hop(1, r, 1)
            ops[0].append({'k': site('sync', None), 'c': len(mops), 'th': 0})
        for _ in range(rng.randint(2, 5)):
            if bus and rng.random() < 0.4:
                seedc[0] += 1
                hop(2, r, 1, len(ops[0]) if rng.random() < 0.8 else 0, seedc[0])
            for _ in range(rng.randint(1, 3)):
                if rng.random() < 0.5:
                    ops[0].append({'k': site('flag', r), 'b': r, 'c': newv(), 'd': newv() & 0xff, 'th': 0})
                else:
                    ops[0].append({'k': site('write', r), 'b': r, 'c': newv(), 'th': 0})
            for _ in range(rng.randint(1, 3)):
                hop(1, r, 1, len(ops[0]) if rng.random() < 0.8 else 0)
            if rng.random() < 0.7:
                ops[0].append({'k': site('sync', None), 'c': len(mops), 'th': 0})
            if rng.random() < 0.4:
                ops[0].append({'k': site('read', r), 'b': r, 'th': 0})
    for _ in range(nrand):
        x = rng.random()
        r = rng.randrange(L)
        t = rng.randrange(cfg['nth'])
        if x < 0.3 and 'mail' in roles:
            r = rng.choice([i for i in range(L) if roles[i] == 'mail'])
            # host writes v; hardware waits for it
            seedc[0] += 1
            v = bfm.dgen(seedc[0], 0, cfg['dw'])
            v32 = v & 0xffffffff
            if cfg['dw'] > 32 or v == cur[r] or (v >> (cfg['dw'] - 1)):
                # the thread compares signed values of the register width: keep to non-negative 32-bit constants
                while True:
                    seedc[0] += 1
                    v = bfm.dgen(seedc[0], 0, cfg['dw'])
                    if not v >> (cfg['dw'] - 1) and v != cur[r] and (cfg['dw'] <= 32 or True):
                        break
            neg = cfg['dw'] > 31 and rng.random() < 0.5 or cfg['dw'] > 32
            k = rng.choice(['wait', 'wflag'])
            if cfg['dw'] > 32 or rng.random() < 0.3:
                k += 'n'
                c = cur[r]
            else:
                c = v
            if cfg['dw'] > 32 and cur[r] > 0x7fffffff:
                continue
            d = newv() & 0xff
            if k.startswith('wflag'):
                while d == v or (k == 'wflagn' and False):
                    d = newv() & 0xff
            hop(2, r, 1, gate[r], seedc[0])
            ops[0].append({'k': site(k, r), 'b': r, 'c': c, 'd': d, 'th': 0})
            gate[r] = len(ops[0])
            cur[r] = d if k.startswith('wflag') else v
        elif x < 0.5:
            # host read, single or burst
            n = 1 if cfg['lite'] else rng.choice([1, 1, 2, 3, L])
            n = min(n, L - r)
            hop(1, r, n)
        elif x < 0.62:
            n = 1
            if roles[r] != 'data':
                continue
            if not cfg['lite']:
                want = rng.choice([1, 1, 2, 3, L])
                while n < want and r + n < L and roles[r + n] == 'data':
                    n += 1
            seedc[0] += 1
            hop(2, r, n, 0, seedc[0])
        elif x < 0.72:
            ops[t].append({'k': site('read', r), 'b': r, 'th': t})
        elif x < 0.86:
            if roles[r] == 'mail':
                continue
            if roles[r] == 'status' and rng.random() < 0.6:
                ops[t].append({'k': site('flag', r), 'b': r, 'c': newv(), 'd': newv() & 0xff, 'th': t})
            else:
                ops[t].append({'k': site('write', r), 'b': r, 'c': newv(), 'th': t})
        elif x < 0.93:
            ops[t].append({'k': site('sync', None), 'c': len(mops), 'th': t})
        else:
            ops[t].append({'k': site('delay', None), 'c': rng.randint(0, 15), 'th': t})
    hor = rng.choice([120, 300, 800])
    sched = [] if rng.random() < 0.05 else core.gen_stalls(rng, CHANS, hor)
    if style.get('reset'):
        for _ in range(rng.choice([1, 1, 2])):
            sched.append({'k': 'reset', 'bit': 31, 'at': rng.randrange(0, rng.choice([40, 120, 300])),
                          'n': rng.choice([1, 1, 2, 5])})
    allops = [o for t in range(cfg['nth']) for o in ops[t]]
    return {'ops': allops, 'mops': mops, 'sched': sched, 'maxcyc': SCH + 1000 + 60 * (len(mops) + len(allops)) + 200}


def step(state, o):
    v, flag, rv = state
    k = o['k']
    if k == 'bw':
        return (o['v'], flag, rv)
    if k == 'br':
        if o['v'] != v:
            return None
        return (rv, 0, rv) if flag else state
    if k == 'read':
        return state if o['v'] == v else None
    if k == 'write':
        return (o['v'], 0, rv)
    if k == 'flag':
        return (o['v'], 1, o['d'])
    if k == 'wait':
        return state if v == o['v'] else None
    if k == 'waitn':
        return state if v != o['v'] else None
    if k == 'wflag':
        return (o['d'], flag, rv) if v == o['v'] else None
    if k == 'wflagn':
        return (o['d'], flag, rv) if v != o['v'] else None


class MParse:
    """history of one axi_master_bfm"""

    def __init__(self, name, mops, dw, lite):
        self.name, self.mops, self.dw, self.lite = name, mops, dw, lite
        self.clear()

    def clear(self):
        self.awv, self.arv, self.awh, self.arh = {}, {}, {}, {}
        self.wh, self.bh, self.rh = [], [], []

    def feed(self, p):
        if len(p) < 2 or p[1] != self.name:
            return False
        k = p[0]
        if k in ('AWV', 'ARV', 'AWH', 'ARH'):
            getattr(self, k.lower())[int(p[2])] = int(p[3])
        elif k == 'WH':
            self.wh.append(int(p[3]))
        elif k == 'BH':
            self.bh.append((int(p[2]), p[3], p[4]))
        elif k == 'RH':
            self.rh.append((int(p[2]), p[3], p[4], int(p[5]), p[6], p[7]))
        else:
            return False
        return True

    def beats(self):
        """per read op: list of (cycle, data, last, resp, id)"""
        out = {}
        for (c, d, l, i, rs, rid) in self.rh:
            out.setdefault(i, []).append((c, d, l, rs, rid))
        return out


def check_master(M, add, complete, idw=0, ridw=None):
    """bus-level checks common to all slaves; returns per-op response cycle for writes"""
    ridw = idw if ridw is None else ridw
    beats = M.beats()
    wr = [i for i, o in enumerate(M.mops) if o['k'] == 2]
    for n, (c, rs, bid) in enumerate(M.bh):
        if n >= len(wr):
            add('extra-response', 'write response %d at cycle %d without a request' % (n, c))
            continue
        o = M.mops[wr[n]]
        if rs != '0':
            add('bad-response', 'BRESP %s at cycle %d' % (rs, c))
        if idw and ('x' in bid or int(bid, 16) != o.get('id', 0)):
            add('wrong-id', 'BID %s for AWID %x at cycle %d' % (bid, o.get('id', 0), c))
        # the response follows the last data beat and the address
        lastw = sum(M.mops[w]['n'] for w in wr[:n + 1])
        if len([x for x in M.wh if x <= c]) < lastw or M.awh.get(wr[n], 1 << 30) > c:
            add('early-response', 'write response %d at cycle %d before its address and data' % (n, c))
    for i, b in beats.items():
        if i >= len(M.mops) or M.mops[i]['k'] != 1:
            add('extra-data', 'read data without a request at cycle %d' % b[0][0])
            continue
        o = M.mops[i]
        if M.arh.get(i, 1 << 30) > b[0][0]:
            add('early-data', 'read data at cycle %d before its request was accepted' % b[0][0])
        if len(b) > o['n']:
            add('extra-data', 'op %d: %d beats for a burst of %d' % (i, len(b), o['n']))
        for j, (c, d, l, rs, rid) in enumerate(b):
            if not M.lite and l != ('1' if j == o['n'] - 1 else '0'):
                add('wrong-rlast', 'op %d beat %d of %d: RLAST=%s at cycle %d' % (i, j, o['n'], l, c))
            if rs != '0':
                add('bad-response', 'RRESP %s at cycle %d' % (rs, c))
            if ridw and ('x' in rid or int(rid, 16) != o.get('id', 0)):
                add('wrong-id', 'RID %s for ARID %x at cycle %d' % (rid, o.get('id', 0), c))
    if complete:
        if len(M.bh) != len(wr):
            add('lost-response', '%d responses for %d writes' % (len(M.bh), len(wr)))
        for i, o in enumerate(M.mops):
            if o['k'] == 1 and len(beats.get(i, [])) != o['n']:
                add('lost-data', 'op %d: %d of %d beats' % (i, len(beats.get(i, [])), o['n']))
    return wr


def check(cfg, run, log):
    viols = []
    has_reset = any(e['bit'] == 31 for e in run['sched'])

    def add(cls, msg):
        viols.append(V(cls, msg, props=['C05'] + (['C25'] if has_reset else [])))

    dw, nb, L = cfg['dw'], cfg['dw'] // 8, cfg['length']
    idw = 0 if cfg['lite'] else cfg.get('idw', 0)
    H = opthread.Hist(cfg['nth'], cfg.get('prog'))
    M = MParse('M', run['mops'], dw, cfg['lite'])
    for line in log.split('\n'):
        p = line.split()
        if not p:
            continue
        if p[0] == 'RESET':
            M.clear()
        if H.feed(p):
            continue
        if p[0] in ('VS', 'VX', 'VD'):
            add({'VS': 'instability', 'VX': 'undefined-handshake', 'VD': 'undefined-payload'}[p[0]], ' '.join(p[1:]))
        elif M.feed(p):
            H.order.append(p[0])
    endc = abs(H.end) if H.end else run['maxcyc']
    S = sites(cfg)
    ops = {t: [o for o in run['ops'] if o.get('th', 0) == t] for t in range(cfg['nth'])}
    if not H.ok:
        add('deadlock', 'no completion by cycle %d: bus %d reads/%d writes done of %d; threads at %s of %s' % (
            run['maxcyc'], len(M.rh), len(M.bh), len(run['mops']), {t: max([0] + list(H.began[t])) for t in H.began},
            {t: len(ops[t]) for t in ops}))
    wr = check_master(M, add, H.ok, idw)
    mask = (1 << dw) - 1
    undec = 0
    if H.ok and not viols:
        hist = {r: [] for r in range(L)}
        beats = M.beats()
        for i, o in enumerate(run['mops']):
            r0 = (o['a'] & 0xfffffff) // nb
            for j in range(o['n']):
                if o['k'] == 1:
                    c, d, l, rs, rid = beats[i][j]
                    if 'x' in d:
                        add('undefined-payload', 'read of register %d: %s' % (r0 + j, d))
                        continue
                    hist[r0 + j].append({'k': 'br', 'v': int(d, 16), 'inv': M.arv[i], 'res': c, 'n': 'bus op %d' % i})
                else:
                    c = M.bh[wr.index(i)][0]
                    hist[r0 + j].append({'k': 'bw', 'v': bfm.dgen(o['s'], j, dw), 'inv': 0, 'res': c, 'n': 'bus op %d' % i})
                    # data may arrive before the address; effect not before both were offered
                    wbeat = sum(run['mops'][w]['n'] for w in wr[:wr.index(i)]) + j
                    hist[r0 + j][-1]['inv'] = max(M.awv[i], 0)
                    hist[r0 + j][-1]['inv'] = max(hist[r0 + j][-1]['inv'], M.wh[wbeat] - 1)
        for t in range(cfg['nth']):
            en = 0
            for i, o in enumerate(ops[t]):
                k, _ = S[o['k']]
                inv = H.began[t].get(i, H.t_reset) - 2
                res = H.began[t].get(i + 1, endc)
                if k in ('sync', 'delay'):
                    continue
                h = {'k': k, 'v': o.get('c', 0) & mask, 'd': o.get('d', 0) & mask, 'inv': inv, 'res': res, 'n': 'thread %d op %d' % (t, i)}
                if k == 'read':
                    if en >= len(H.evs[t]):
                        add('missing-result', 'thread %d op %d' % (t, i))
                        break
                    c, got, _n = H.evs[t][en]
                    en += 1
                    if 'x' in got:
                        add('undefined-read', 'thread %d op %d: %s' % (t, i, got))
                        continue
                    h['v'] = int(got, 16) & mask
                    h['res'] = c
                hist[o['b']].append(h)
        for r in range(L):
            ok = linz.linearizable(hist[r], (0, 0, 0), step)
            if ok is None:
                undec += 1
            elif not ok:
                add('not-linearizable', 'register %d: %s' % (r, [(h['n'], h['k'], hex(h['v']), h['inv'], h['res']) for h in
                                                                  sorted(hist[r], key=lambda z: z['inv'])]))
    fl = opthread.fired(run, endc, R0)
    return viols, opthread.stats(log, H, run, endc, H.order, fl, {
        'bus_ops': len(run['mops']), 'thread_ops': len(run['ops']), 'undecided': undec,
        'waits': sum(1 for o in run['ops'] if S[o['k']][0].startswith(('wait', 'wflag')))})
