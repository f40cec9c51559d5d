"""DUT family: AXI4 masters (AXIM / AXIMVerify) driven by threads, against an
AXI slave memory whose every ready/valid decision is scheduled."""
from .. import bfm, core, genmod, opthread
from ..core import V

SCH = 4096
NOPS = 64


# --------------------------------------------------------------------------
# configuration
# --------------------------------------------------------------------------

def sites(cfg):
    """Every call statement in the generated thread: code -> description."""
    out = [None]
    for ri, r in enumerate(cfg['rams']):
        aw, rw = cfg['dw'], r['dw']
        meths = []
        if r['kind'] == 'ram':
            meths = ['']
        elif r['kind'] == 'mb':
            meths = list(r.get('meths', ['', 'bank', 'block', 'packed', 'bcast']))
        elif r['kind'] == 'nest':
            meths = list(r.get('meths', ['block']))
        for mth in meths:
            for d in ('read', 'write'):
                if mth == 'bcast' and d == 'write':
                    continue
                for asy in (False, True):
                    if asy and not cfg.get('asy', True):
                        continue
                    out.append({'t': 'dma', 'r': ri, 'm': mth, 'd': d, 'a': asy})
        if r['kind'] == 'ram' or (r['kind'] == 'mb' and r['nb'] & (r['nb'] - 1) == 0):
            out.append({'t': 'rd', 'r': ri})
            out.append({'t': 'wr', 'r': ri})
        if r['kind'] == 'mb':
            out.append({'t': 'rdb', 'r': ri})
            out.append({'t': 'wrb', 'r': ri})
    for k in ('read', 'write', 'fence'):
        out.append({'t': k})
    if cfg.get('verify'):
        out.append({'t': 'readd'})
        out.append({'t': 'writed'})
    for k in ('wait_read', 'wait_write', 'wait_write_idle', 'wait_write_response', 'wait'):
        out.append({'t': k})
    if cfg.get('base'):
        out.append({'t': 'base'})
    out.append({'t': 'delay'})
    return out


def stmt(cfg, s):
    t = s['t']
    ax = 'myaxi'
    p = ', port=%d' % cfg.get('port', 0)
    if t == 'dma':
        fn = 'dma_%s%s%s' % (s['d'], '_' + s['m'] if s['m'] else '', '_async' if s['a'] else '')
        r = 'ram%d' % s['r']
        if s['m'] == '' or s['m'] == 'bcast':
            return ['%s.%s(%s, a, b, c, d%s)' % (ax, fn, r, p)]
        if s['m'] == 'bank':
            return ['%s.%s(%s, e, a, b, c, d%s)' % (ax, fn, r, p)]
        if s['m'] == 'block':
            return ['%s.%s(%s, a, b, c, d%s)' % (ax, fn, r, p)]     # d = blocksize
        if s['m'] == 'packed':
            return ['%s.%s(%s, a, b, c%s)' % (ax, fn, r, p)]
    r = 'ram%d' % s.get('r', 0)
    if t == 'rd':
        return ['res.value = %s.read(a)' % r, 'ev.value = ev + 1']
    if t == 'wr':
        return ['%s.write(a, b)' % r]
    if t == 'rdb':
        return ['res.value = %s.read_bank(e, a)' % r, 'ev.value = ev + 1']
    if t == 'wrb':
        return ['%s.write_bank(e, a, b)' % r]
    if t == 'read':
        return ['res.value = myaxi.read(b)', 'ev.value = ev + 1']
    if t == 'readd':
        return ['res.value = myaxi.read_delayed(b, c)', 'ev.value = ev + 1']
    if t == 'write':
        return ['myaxi.write(b, c)']
    if t == 'writed':
        return ['myaxi.write_delayed(b, c, d)']
    if t == 'fence':
        return ['myaxi.write_fence(b, c)']
    if t == 'base':
        return ['myaxi.set_global_base_addr(b)']
    if t == 'delay':
        return ['for w in range(c):', '    pass']
    return ['myaxi.dma_%s()' % t]


def resw(cfg):
    return max([64, cfg['dw']] + [r['dw'] for r in cfg['rams']])


def build(cfg):
    L = [genmod.HEADER, 'def mk():', '    m = Module("dut")',
         '    clk = m.Input("CLK")', '    rst = m.Input("RST")', '    go = m.Input("go")']
    a = L.append
    args = ['sb_depth=%d' % cfg.get('sb', 1), 'req_fifo_addrwidth=%d' % cfg.get('rq', 3)]
    if cfg.get('base'):
        args.append('use_global_base_addr=True')
    if cfg.get('asmod'):
        args.append('fsm_as_module=True')
    a('    myaxi = vthread.%s(m, "myaxi", clk, rst, %d, 32, %s)' % (
        'AXIMVerify' if cfg.get('verify') else 'AXIM', cfg['dw'], ', '.join(args)))
    np_ = cfg.get('port', 0) + 2
    for i, r in enumerate(cfg['rams']):
        if r['kind'] == 'ram':
            a('    ram%d = vthread.RAM(m, "ram%d", clk, rst, %d, %d, numports=%d, external_ports=[%d])' % (
                i, i, r['dw'], r['aw'], np_, np_ - 1))
        elif r['kind'] == 'mb':
            a('    ram%d = vthread.MultibankRAM(m, "ram%d", clk, rst, %d, %d, numports=%d, numbanks=%d, external_ports=[%d])' % (
                i, i, r['dw'], r['aw'], np_, r['nb'], np_ - 1))
        else:
            for o in range(r['outer']):
                a('    ram%d_%d = vthread.MultibankRAM(m, "ram%d_%d", clk, rst, %d, %d, numports=%d, numbanks=%d, external_ports=[%d])' % (
                    i, o, i, o, r['dw'], r['aw'], np_, r['nb'], np_ - 1))
            a('    ram%d = vthread.to_multibank_ram([%s], keep_hierarchy=True)' % (
                i, ', '.join('ram%d_%d' % (i, o) for o in range(r['outer']))))
    nth = cfg.get('nth', 1)
    for t in range(nth):
        for p in 'kabcde':
            a('    op%s%d = m.Input("op%s%d", 32)' % (p, t, p, t))
        a('    opi%d = m.OutputReg("opi%d", 32, initval=0)' % (t, t))
        a('    ev%d = m.OutputReg("ev%d", 32, initval=0)' % (t, t))
        a('    res%d = m.OutputReg("res%d", %d, initval=0)' % (t, t, resw(cfg)))
        a('    done%d = m.OutputReg("done%d", initval=0)' % (t, t))
    S = sites(cfg)
    if cfg.get('prog'):
        used = [S[o['k']] for o in cfg['prog']]
        if not any(s.get('d') == 'read' or s['t'] in ('read', 'readd') for s in used):
            a('    myaxi.disable_read()')
        if not any(s.get('d') == 'write' or s['t'] in ('write', 'writed', 'fence') for s in used):
            a('    myaxi.disable_write()')
    for t in range(nth):
        lock = nth > 1
        st = []
        for code, x in enumerate(S):
            if x is None:
                continue
            y = [z.replace('ev', 'ev%d' % t, 2).replace('res.', 'res%d.' % t)
                 if z.startswith(('ev.', 'res.')) else z for z in stmt(cfg, x)]
            if lock and x['t'] not in ('rd', 'wr', 'rdb', 'wrb', 'delay'):
                y = ['myaxi.lock()'] + y + ['myaxi.unlock()']
            st.append((code, y))
        L += ['    ' + x for x in opthread.worker(t, st, prog=cfg.get('prog')) + opthread.start(t, cfg)]
    a('    return m')
    mod = genmod.load('\n'.join(L))
    return mod.mk().to_verilog()


def banks(cfg):
    """(ram index, bank index, verilog port prefix, dw, aw)"""
    p = cfg.get('port', 0) + 1
    out = []
    for i, r in enumerate(cfg['rams']):
        if r['kind'] == 'ram':
            out.append((i, 0, 'ram%d_%d' % (i, p), r['dw'], r['aw']))
        elif r['kind'] == 'mb':
            for b in range(r['nb']):
                out.append((i, b, 'ram%d_%d_%d' % (i, b, p), r['dw'], r['aw']))
        else:
            for o in range(r['outer']):
                for b in range(r['nb']):
                    out.append((i, o * r['nb'] + b, 'ram%d_%d_%d_%d' % (i, o, b, p), r['dw'], r['aw']))
    return out


def tb(cfg):
    dw = cfg['dw']
    nth = cfg.get('nth', 1)
    D, B = [], []
    conn = ['.CLK(CLK)', '.RST(RST)', '.go(go)']
    D.append('wire [31:0] awaddr, araddr; wire [7:0] awlen, arlen; wire [2:0] awsize, arsize; wire [1:0] awburst, arburst;'
             'wire awvalid, awready, wlast, wvalid, wready, bvalid, bready, arvalid, arready, rlast, rvalid, rready;'
             'wire [%d:0] wdata, rdata; wire [%d:0] wstrb; wire [1:0] bresp, rresp;'
             'wire [0:0] awlock, arlock; wire [3:0] awcache, arcache, awqos, arqos; wire [2:0] awprot, arprot; wire [1:0] awuser, aruser;'
             % (dw - 1, dw // 8 - 1))
    for p in ('awaddr awlen awsize awburst awlock awcache awprot awqos awuser awvalid awready wdata wstrb wlast wvalid wready '
              'bresp bvalid bready araddr arlen arsize arburst arlock arcache arprot arqos aruser arvalid arready '
              'rdata rresp rlast rvalid rready').split():
        conn.append('.myaxi_%s(%s)' % (p, p))
    B.append('axi_slave_bfm #(.DW(%d)) slv(CLK, RST, cyc, st[4:0], prm[1][3:0], prm[2], awaddr, awlen, awsize, awburst, awvalid, awready,'
             'wdata, wstrb, wlast, wvalid, wready, bresp, bvalid, bready, araddr, arlen, arsize, arburst, arvalid, arready,'
             'rdata, rresp, rlast, rvalid, rready);' % dw)
    B.append('vr_mon #(59,"AW") m0(CLK,RST,cyc,awvalid,awready,{awaddr,awlen,awsize,awburst,awlock,awcache,awprot,awqos,awuser});')
    B.append('vr_mon #(59,"AR") m1(CLK,RST,cyc,arvalid,arready,{araddr,arlen,arsize,arburst,arlock,arcache,arprot,arqos,aruser});')
    B.append('vr_mon #(%d,"W") m2(CLK,RST,cyc,wvalid,wready,{wdata,wstrb,wlast});' % (dw + dw // 8 + 1))
    B.append('always @(posedge CLK) if(RST===0 && (bready===1\'bx || rready===1\'bx)) $display("VX BR %0d", cyc);')
    rw = resw(cfg)
    for t in range(nth):
        D.append('reg [31:0] ops%d [0:%d]; initial $readmemh("ops%d.hex", ops%d);' % (t, NOPS * 8 - 1, t, t))
        D.append('wire [31:0] opi%d, ev%d; wire [%d:0] res%d; wire done%d; reg [31:0] opi%dp, ev%dp; reg done%dp; '
                 'initial begin opi%dp=0; ev%dp=0; done%dp=0; end' % (t, t, rw - 1, t, t, t, t, t, t, t, t))
        for j, p in enumerate('kabcde'):
            conn.append('.op%s%d(ops%d[(opi%d%%%d)*8+%d])' % (p, t, t, t, NOPS, j))
        for p in ('opi', 'ev', 'res', 'done'):
            conn.append('.%s%d(%s%d)' % (p, t, p, t))
        B.append('always @(posedge CLK) if(RST) begin opi%dp<=0; ev%dp<=0; done%dp<=0; end else begin '
                 'if(ev%d !== ev%dp) $display("E %d %%0d %%0h %%0h", cyc, ev%d, res%d); '
                 'if(opi%d !== opi%dp) $display("O %d %%0d %%0d", cyc, opi%d); '
                 'if(done%d !== done%dp) $display("F %d %%0d", cyc); '
                 'opi%dp <= opi%d; ev%dp <= ev%d; done%dp <= done%d; end' % (
                     (t,) * 21))
    bk = banks(cfg)
    amax = max(b[4] for b in bk)
    D.append('reg [31:0] pa; reg pwe, pen; reg [31:0] dumpst; initial begin pa=0; pwe=0; pen=0; dumpst=0; end')
    dump = []
    for n, (ri, b, px, w, aw) in enumerate(bk):
        D.append('reg [%d:0] init%d [0:%d]; initial $readmemh("ram%d.hex", init%d); wire [%d:0] rd%d;' % (
            w - 1, n, 2 ** aw - 1, n, n, w - 1, n))
        conn += ['.%s_addr(pa[%d:0])' % (px, aw - 1), '.%s_rdata(rd%d)' % (px, n),
                 '.%s_wdata(init%d[pa[%d:0]])' % (px, n, aw - 1),
                 '.%s_wenable(pwe && pa<%d)' % (px, 2 ** aw), '.%s_enable(pen)' % px]
        dump.append('if(pa-1 < %d) $display("D %d %%0d %%0h", pa-1, rd%d);' % (2 ** aw, n, n))
    alld = ' && '.join('done%d===1' % t for t in range(nth))
    # preload after reset while the threads wait for go, dump after the drain period
    D.append('reg [31:0] pre; reg prst; initial begin pre=0; prst=1; end wire go = pre >= %d;' % (2 ** amax + 2))
    B.append('always @(posedge CLK) begin prst <= RST; if(prst && !RST) $display("RESET %%0d", cyc); '
             'if(RST) begin pre<=0; pen<=0; pwe<=0; dumpst<=0; pa<=0; end '
             'else if(!go) begin pre<=pre+1; pen<=pre<%(n)d; pwe<=pre<%(n)d; pa<=pre; end '
             'else if(dumpst==0) begin pen<=0; pwe<=0; if(%(alld)s) dumpst<=1; end '
             'else if(dumpst < prm[3]) dumpst <= dumpst+1; '
             'else if(dumpst == prm[3]) begin pa<=0; pen<=1; dumpst<=dumpst+1; end '
             'else begin pa<=pa+1; if(pa>=1) begin %(dump)s end if(pa==%(n)d+2) begin $display("END %%0d", cyc); $finish; end end end' % dict(
                 n=2 ** amax, alld=alld, dump=' '.join(dump)))
    B.append('dut uut(%s);' % ', '.join(conn))
    return bfm.VR_MON + bfm.AXI_SLAVE + bfm.skeleton('\n'.join(B), '\n'.join(D), schlen=SCH)


def reset_len(cfg):
    return 2 ** max(b[4] for b in banks(cfg)) + 12


# --------------------------------------------------------------------------
# runs
# --------------------------------------------------------------------------

CHANS = [('aw_stall', 0), ('w_stall', 1), ('b_delay', 2), ('ar_stall', 3), ('r_delay', 4)]


def files(cfg, run, rd):
    n = reset_len(cfg)
    ev = [{'bit': 31, 'at': 0, 'n': 4}] + [dict(e, at=max(6, e['at'] + n)) for e in run['sched']]
    core.write_hex(rd + '/sched.hex', core.expand_schedule(ev, SCH))
    p = [0] * 64
    p[0] = run['maxcyc']
    p[1] = run['mode']
    p[2] = run['salt']
    p[3] = 64
    core.write_hex(rd + '/p.hex', p)
    for t in range(cfg.get('nth', 1)):
        w = []
        for o in run['ops']:
            if o.get('th', 0) == t:
                w += [o['k'], o['a'], o['b'], o['c'], o['d'], o['e'], 0, 0]
        w += [0] * (NOPS * 8 - len(w))
        core.write_hex('%s/ops%d.hex' % (rd, t), w, 32)
    for j, (ri, b, px, dw, aw) in enumerate(banks(cfg)):
        core.write_hex('%s/ram%d.hex' % (rd, j), ram_init(run, j, dw, aw))


def ram_init(run, j, dw, aw):
    r = core.rng_for('raminit', run['salt'], j)
    return [r.getrandbits(dw) for _ in range(2 ** aw)]


def align(cfg, ga):
    nb = cfg['dw'] // 8
    return ga // nb * nb


class Model:
    """Executes the operations sequentially."""

    def __init__(self, cfg, run):
        self.cfg = cfg
        self.run = run
        self.S = sites(cfg)
        self.bk = banks(cfg)
        self.ram = {}
        for j, (ri, b, px, dw, aw) in enumerate(self.bk):
            self.ram[(ri, b)] = ram_init(run, j, dw, aw)
        self.mem = {}
        self.base = 0

    def byte(self, a):
        a &= 0xffff
        if a not in self.mem:
            self.mem[a] = bfm.mem_init_byte(a, self.run['salt'])
        return self.mem[a]

    def fp(self, op):
        """footprint of a dma op: list of (kind, wordlist...)"""
        s = self.S[op['k']]
        cfg = self.cfg
        r = cfg['rams'][s['r']]
        rw = r['dw']
        la, c, d, e = op['a'], op['c'], op['d'], op['e']
        words = []          # list of list of (bank, addr) for each logical word, width W
        W = rw
        if r['kind'] == 'ram':
            words = [[[(0, (la + k * d) % 2 ** r['aw'])]] for k in range(c)]
        elif r['kind'] == 'nest':
            # la: address within inner packed space (shifted), block over outer, packed over inner
            nb, no = r['nb'], r['outer']
            W = rw * nb
            sh = (nb - 1).bit_length()
            c2 = -(-c // nb)
            bs = -(-d // nb)
            words = []
            for k in range(c2):
                blk = k // bs
                o = blk % no
                idx = (blk // no) * bs + k % bs
                ad = ((la + idx * nb) >> sh) % 2 ** r['aw']
                words.append([[(o * nb + i, ad) for i in range(nb)]])
        else:
            nb = r['nb']
            M = 2 ** r['aw']
            sh = (nb - 1).bit_length()
            if s['m'] == '':
                words = []
                for k in range(c):
                    ad = la + k * d
                    words.append([[(ad & ((1 << sh) - 1), (ad >> sh) % M)]])
            elif s['m'] == 'bank':
                words = [[[(e, (la + k * d) % M)]] for k in range(c)]
            elif s['m'] == 'bcast':
                words = [[[(i, (la + k * d) % M)] for i in range(nb)] for k in range(c)]
            elif s['m'] == 'block':
                words = []
                for k in range(c):
                    blk = k // d
                    words.append([[(blk % nb, (la + (blk // nb) * d + k % d) % M)]])
            elif s['m'] == 'packed':
                W = rw * nb
                c2 = -(-c // nb)
                words = [[[(i, ((la + k * nb) >> sh) % M) for i in range(nb)]] for k in range(c2)]
        return s, W, words

    def gaddr(self, op):
        return align(self.cfg, (op['b'] + (self.base if self.cfg.get('base') else 0)) & 0xffffffff)

    def bursts_bytes(self, op):
        s, W, words = self.fp(op)
        n = len(words) * W // 8
        nb = self.cfg['dw'] // 8
        return self.gaddr(op), -(-n // nb) * nb

    def step(self, op):
        """-> expected result value or None"""
        cfg = self.cfg
        s = self.S[op['k']]
        t = s['t']
        nb = cfg['dw'] // 8
        if t == 'dma':
            s, W, words = self.fp(op)
            rw = cfg['rams'][s['r']]['dw']
            ga = self.gaddr(op)
            if s['d'] == 'read':
                for k, copies in enumerate(words):
                    for parts in copies:
                        for i, (bnk, ad) in enumerate(parts):
                            o = ga + k * W // 8 + i * rw // 8
                            bs = [self.byte(o + j) for j in range(rw // 8)]
                            self.ram[(s['r'], bnk)][ad] = None if None in bs else sum(
                                x << (8 * j) for j, x in enumerate(bs))
            else:
                nbytes = len(words) * W // 8
                for k, copies in enumerate(words):
                    for i, (bnk, ad) in enumerate(copies[0]):
                        v = self.ram[(s['r'], bnk)][ad]
                        for j in range(rw // 8):
                            self.mem[(ga + k * W // 8 + i * rw // 8 + j) & 0xffff] = \
                                None if v is None else (v >> (8 * j)) & 255
                for i in range(nbytes, -(-nbytes // nb) * nb):
                    self.mem[(ga + i) & 0xffff] = None      # padding of the last beat: unspecified
            return None
        if t in ('rd', 'rdb'):
            r = cfg['rams'][s['r']]
            if t == 'rdb':
                v = self.ram[(s['r'], op['e'])][op['a']]
            elif r['kind'] == 'ram':
                v = self.ram[(s['r'], 0)][op['a']]
            else:
                sh = (r['nb'] - 1).bit_length()
                v = self.ram[(s['r'], op['a'] & (r['nb'] - 1))][op['a'] >> sh]
            return v, r['dw']
        if t in ('wr', 'wrb'):
            r = cfg['rams'][s['r']]
            m = (1 << r['dw']) - 1
            val = op['b']
            if t == 'wrb':
                self.ram[(s['r'], op['e'])][op['a']] = val & m
            elif r['kind'] == 'ram':
                self.ram[(s['r'], 0)][op['a']] = val & m
            else:
                sh = (r['nb'] - 1).bit_length()
                self.ram[(s['r'], op['a'] & (r['nb'] - 1))][op['a'] >> sh] = val & m
            return None
        if t in ('read', 'readd'):
            a = self.gaddr(op)
            bs = [self.byte(a + i) for i in range(nb)]
            return (None if None in bs else sum(x << (8 * i) for i, x in enumerate(bs))), cfg['dw']
        if t in ('write', 'fence', 'writed'):
            a = self.gaddr(op)
            val = op['c']
            for i in range(nb):
                self.mem[(a + i) & 0xffff] = (val >> (8 * i)) & 255
            return None
        if t == 'base':
            self.base = op['b']
        return None


def fits32(v, w):
    return v


def gen_ops(cfg, rng, nops, style):
    """Program-order operations; async ops are separated by waits whenever a
    later operation touches what an outstanding one reads or writes."""
    S = sites(cfg)
    idx = {}
    for c, s in enumerate(S):
        if s is not None:
            idx.setdefault(s['t'], []).append(c)
    ops = []
    dmas = idx['dma']
    dirty_r, dirty_w = False, False      # outstanding async reads / writes
    plain_w = False                      # AXIM.write issued without fence
    busy_ram = set()
    rd_ram = set()
    seen_ram = []
    base = 0

    def mk(k, a=0, b=0, c=0, d=1, e=0):
        o = {'k': k, 'a': a, 'b': b & 0xffffffff, 'c': c, 'd': d, 'e': e}
        ops.append(o)
        return o

    def wait(kind):
        mk(idx[kind][0])

    nb = cfg['dw'] // 8
    maxb = style.get('maxbeats', 40)

    def addr(nbytes):
        mode = rng.random()
        if mode < 0.45:      # near a 4 KB boundary
            a = 4096 * rng.randint(1, 12) - rng.randint(0, max(1, nbytes // nb + 2)) * nb
        elif mode < 0.55:
            a = 4096 * rng.randint(1, 12) + rng.randint(-3, 3) * nb
        else:
            a = rng.randrange(256, 60000)
        if rng.random() < 0.8:
            a = a // nb * nb
        return max(0, min(60000, a))

    if cfg.get('base'):
        if rng.random() < 0.8:
            base = rng.randrange(0, 1 << 14) * nb % 60000
            mk(idx['base'][0], b=base)
    while len(ops) < nops:
        x = rng.random()
        if x < style.get('p_dma', 0.5):
            k = rng.choice(dmas)
            s = S[k]
            if s['a'] and not style.get('asy', True):
                continue
            r = cfg['rams'][s['r']]
            M = 2 ** r['aw']
            dwr = r['dw']
            d, e = 1, 0
            if r['kind'] == 'ram':
                d = rng.choice([1, 1, 1, 2, 3])
                lim = M // d - 1
                W = dwr
            elif r['kind'] == 'nest':
                W = dwr
                d = r['nb'] * rng.randint(1, 4)
                lim = M * r['nb'] * r['outer'] // 2
            elif s['m'] == '':
                if r['nb'] & (r['nb'] - 1):
                    continue
                d = rng.choice([1, 1, 2, 3])
                lim = M * r['nb'] // d - 1
                W = dwr
            elif s['m'] in ('bank', 'bcast'):
                d = rng.choice([1, 1, 2])
                e = rng.randrange(r['nb'])
                lim = M // d - 1
                W = dwr
            elif s['m'] == 'block':
                d = rng.randint(1, 6)
                lim = M // 2 * r['nb']
                W = dwr
            else:
                W = dwr
                lim = M * r['nb'] // 2
            mx = max(1, min(lim, maxb * max(cfg['dw'], 8) // W))
            u = rng.random()
            c = (rng.randint(1, min(4, mx)) if u < 0.3 else rng.randint(1, mx) if u < 0.85
                 else rng.randint(max(1, mx - 3), mx))
            if style.get('long') and rng.random() < 0.4:
                c = min(lim, rng.choice([255, 256, 257, 300, 512, 513, 600]) * max(1, cfg['dw'] // W))
            q = 1
            if r['kind'] == 'nest' or s['m'] == 'packed':
                q = r['nb']
                if rng.random() < 0.6:
                    c = max(q, c // q * q)
            if r['kind'] == 'nest':
                # blocks must cover whole packed words
                c = max(d, c // d * d)
                while c > lim:
                    c -= d
            # local start
            used = c * d if s['m'] in ('', 'bank', 'bcast') and r['kind'] != 'nest' else None
            space = M * (r['nb'] if r['kind'] == 'mb' and s['m'] == '' else 1)
            if used is not None:
                la = rng.randint(0, max(0, space - used))
            elif s['m'] == 'block' and r['kind'] == 'mb':
                per = -(-c // (d * r['nb'])) * d
                la = rng.randint(0, max(0, M - per))
            elif r['kind'] == 'nest':
                per = -(-c // (d * r['outer'])) * d
                la = rng.randint(0, max(0, M - per // r['nb'] - 1)) * r['nb']
            else:
                la = rng.randint(0, max(0, M - -(-c // r['nb']) - 1)) * (1 << (r['nb'] - 1).bit_length())
            a = addr(c * W // 8)
            # hazards with outstanding asynchronous operations
            hz = False
            if s['d'] == 'read' and (dirty_w or plain_w):
                hz = True
            if s['d'] == 'write' and dirty_r:
                hz = True
            if hz:
                wait('wait')
                dirty_r = dirty_w = plain_w = False
                busy_ram.clear()
                rd_ram.clear()
            mk(k, la, a - base, c, d, e)
            if s['a']:
                if s['d'] == 'read':
                    dirty_r = True
                    busy_ram.add(s['r'])
                else:
                    dirty_w = True
                    rd_ram.add(s['r'])
            else:
                # a blocking call also drains everything queued before it
                if s['d'] == 'read':
                    dirty_r = False
                    busy_ram.clear()
                    seen_ram.append((s['r'], s['m'], la, c, d, e))
                else:
                    dirty_w = plain_w = False
                    rd_ram.clear()
        elif x < style.get('p_dma', 0.5) + style.get('p_single', 0.2):
            t = rng.choice(['read', 'write', 'fence'] + (['readd', 'writed'] if cfg.get('verify') else []))
            a = addr(nb) // nb * nb
            if t in ('read', 'readd'):
                if dirty_w or plain_w:
                    wait('wait')
                    dirty_r = dirty_w = plain_w = False
                    busy_ram.clear()
                    rd_ram.clear()
                mk(idx[t][0], 0, a - base, rng.randint(0, 20))
            else:
                if dirty_r:
                    wait('wait_read')
                    dirty_r = False
                    busy_ram.clear()
                mk(idx[t][0], 0, a - base, rng.getrandbits(31), rng.randint(0, 20))
                if t == 'fence':
                    pass
                plain_w = True if t != 'fence' else plain_w
                if t == 'fence' and not dirty_w:
                    plain_w = False
        elif x < 0.93:
            ri = rng.randrange(len(cfg['rams']))
            r = cfg['rams'][ri]
            cand = [c for c in idx.get('rd', []) + idx.get('wr', []) + idx.get('rdb', []) + idx.get('wrb', [])
                    if S[c]['r'] == ri]
            if not cand:
                continue
            k = rng.choice(cand)
            t = S[k]['t']
            if ri in busy_ram:
                wait('wait_read')
                dirty_r = False
                busy_ram.clear()
            if t in ('wr', 'wrb') and ri in rd_ram:
                wait(rng.choice(['wait_write', 'wait']))
                dirty_w = plain_w = False
                rd_ram.clear()
                if ops[-1]['k'] == idx['wait'][0]:
                    dirty_r = False
                    busy_ram.clear()
            if ri in rd_ram or ri in busy_ram:
                continue        # thread port is the DMA port while a transfer is in flight
            M = 2 ** r['aw'] * (r['nb'] if r['kind'] == 'mb' and t in ('rd', 'wr') else 1)
            a = rng.randrange(M)
            e = rng.randrange(r.get('nb', 1))
            ss = [z for z in seen_ram if z[0] == ri]
            if ss and rng.random() < 0.7:
                z = ss[-1]
                # the last word of the transfer: written latest
                kk = z[3] - 1 if rng.random() < 0.6 else rng.randrange(z[3])
                if z[1] in ('', 'bank', 'bcast'):
                    a = (z[2] + kk * z[4]) % M
                    e = z[5] if z[1] == 'bank' else e
            mk(k, a, rng.getrandbits(31), 0, 1, e)
        elif x < 0.96:
            w = rng.choice(['wait_read', 'wait_write', 'wait_write_idle', 'wait_write_response', 'wait'])
            wait(w)
            if w in ('wait_read', 'wait'):
                dirty_r = False
                busy_ram.clear()
            if w in ('wait_write', 'wait'):
                dirty_w = plain_w = False
                rd_ram.clear()
        else:
            mk(idx['delay'][0], c=rng.randint(0, 40))
    if dirty_r or dirty_w or plain_w:
        wait('wait')
    return ops


def gen_cfg(rng, i=0, style={}):
    dw = rng.choice([32, 32, 32, 64, 128, 16, 8] if i > 3 else [32, 64, 32, 128])
    rams = []
    for j in range(rng.choice([1, 2, 2, 3])):
        u = rng.random()
        rw = rng.choice([dw, dw, 8, 16, 32, 64, 128])
        if u < 0.55:
            rams.append({'kind': 'ram', 'dw': rw, 'aw': rng.randint(4, 8)})
        elif u < 0.92:
            nb = rng.choice([2, 4, 2, 3])
            rw = rng.choice([x for x in (8, 16, 32, 64) if x <= max(dw, 32)])
            meths = ['', 'bank', 'block', 'bcast'] if nb & (nb - 1) == 0 else ['bank', 'block', 'bcast']
            if nb & (nb - 1) == 0:
                meths.append('packed')
            rams.append({'kind': 'mb', 'dw': rw, 'aw': rng.randint(4, 6), 'nb': nb, 'meths': meths})
        else:
            rams.append({'kind': 'nest', 'dw': rng.choice([8, 16, 32]), 'aw': rng.randint(4, 6), 'nb': 2,
                         'outer': rng.choice([2, 3])})
    cfg = ({'dw': dw, 'rams': rams, 'sb': rng.choice([1, 1, 2, 3]), 'rq': rng.choice([3, 3, 2, 4]),
                'base': rng.random() < 0.3, 'asmod': rng.random() < 0.2, 'verify': rng.random() < 0.3,
                'port': rng.choice([0, 0, 1])})
    if style.get('nth'):
        cfg['nth'] = style['nth']
        cfg['base'] = False
        while len(cfg['rams']) < 2:
            cfg['rams'].append({'kind': 'ram', 'dw': rng.choice([8, dw, 64]), 'aw': rng.randint(4, 6)})
    if style.get('long'):
        cfg['rams'] = [{'kind': 'ram', 'dw': dw, 'aw': 10},
                       rng.choice([{'kind': 'ram', 'dw': max(8, dw // 2), 'aw': 10}, {'kind': 'ram', 'dw': dw * 2, 'aw': 9},
                                   {'kind': 'mb', 'dw': dw, 'aw': 9, 'nb': 2, 'meths': ['', 'block', 'packed']}])]
    return cfg


def gen_run(cfg, rng, style):
    run = gen_run_(cfg, rng, style)
    if style.get('lin') and cfg.get('nth', 1) == 1 and rng.random() < 0.5:
        # a design that uses one direction only
        S = sites(cfg)
        d = rng.choice(['read', 'write'])
        drop = ('write', 'writed', 'fence') if d == 'read' else ('read', 'readd')
        run['ops'] = [o for o in run['ops'] if S[o['k']].get('d', d) == d and S[o['k']]['t'] not in drop]
    return run


def gen_run_(cfg, rng, style):
    nth = cfg.get('nth', 1)
    nops = rng.randint(*style.get('nops', (3, 8) if style.get('long') else (6, 18)))
    if nth == 1:
        ops = gen_ops(cfg, rng, nops, style)
    else:
        ops = []
        for t in range(nth):
            st = dict(style)
            st['asy'] = False
            for o in gen_ops(cfg, rng, max(4, nops // nth), st):
                s = sites(cfg)[o['k']]
                if s['t'] in ('base', 'write', 'writed'):
                    continue
                ops.append(dict(o, th=t))
        # disjoint resources per thread: even/odd RAM, separate 32 KB halves
        ops2 = []
        for o in ops:
            s = sites(cfg)[o['k']]
            if 'r' in s and s['r'] % nth != o['th']:
                continue
            if s['t'] in ('dma', 'read', 'readd', 'fence'):
                o['b'] = (o['b'] % 24000) + (32768 if o['th'] else 0)
            ops2.append(o)
        ops = ops2
        for t in range(nth):
            if not any(o['th'] == t for o in ops):
                ops.append({'k': [i for i, s in enumerate(sites(cfg)) if s and s['t'] == 'delay'][0], 'a': 0, 'b': 0,
                            'c': 3, 'd': 1, 'e': 0, 'th': t})
    hor = style.get('horizon', rng.choice([300, 800, 1500, 2500]) + (1000 if style.get('long') else 0))
    sched = [] if rng.random() < style.get('p_clean', 0.05) else core.gen_stalls(rng, CHANS, hor)
    n0 = reset_len(cfg)
    if style.get('reset'):
        for _ in range(rng.choice([1, 1, 2])):
            sched.append({'k': 'reset', 'bit': 31, 'at': rng.randrange(-n0 // 3, rng.choice([60, 200, 500, 1200])),
                          'n': rng.choice([1, 1, 2, 5])})
    mode = rng.choice([0, 0, 0, 0, 1, 2, 4, 5, 6, 3])
    run = {'ops': ops, 'sched': sched, 'mode': mode, 'salt': rng.getrandbits(31)}
    m = Model(cfg, run)
    beats = 0
    for o in ops:
        s = m.S[o['k']]
        if s['t'] == 'dma':
            _, W, words = m.fp(o)
            beats += max(len(words) * W // cfg['dw'], len(words)) + 40
        elif s['t'] == 'delay':
            beats += 6 * o['c'] + 20
        else:
            beats += 40
    run['maxcyc'] = SCH + 2000 + n0 * (1 + (2 if style.get('reset') else 0)) + 16 * beats + 30 * len(ops)
    return run


# --------------------------------------------------------------------------
# oracle
# --------------------------------------------------------------------------

def parse(log):
    ev = []
    for line in log.split('\n'):
        p = line.split()
        if p:
            ev.append(p)
    return ev


PROTO, DATA, COMP, SINGLE, LIVE = 'proto', 'data', 'comp', 'single', 'live'
KMAP = {PROTO: ['C01'], DATA: ['C02'], COMP: ['C03'], SINGLE: ['C04'], LIVE: ['C01', 'C03', 'C04']}


def check(cfg, run, log):
    viols = []
    has_reset = any(e['bit'] == 31 for e in run['sched'])

    def add(kind, cls, msg):
        viols.append(V(cls, msg, props=KMAP[kind] + (['C25'] if has_reset else [])))

    ev = parse(log)
    nb = cfg['dw'] // 8
    nth = cfg.get('nth', 1)
    size = nb.bit_length() - 1
    aw, ar, w, b, r, com = [], [], [], [], [], []
    opt = {t: {} for t in range(nth)}     # op index -> cycle it began
    evs = {t: [] for t in range(nth)}
    dump = {}
    end = None
    order = []
    lin = int(bool(cfg.get('prog')))
    fin = {}
    nreset = 0
    t_reset = 0
    for p in ev:
        k = p[0]
        if k == 'AW':
            aw.append((int(p[1]), int(p[2], 16) if 'x' not in p[2] else -1, int(p[3]), int(p[4]), int(p[5])))
            order.append('a')
        elif k == 'AR':
            ar.append((int(p[1]), int(p[2], 16) if 'x' not in p[2] else -1, int(p[3]), int(p[4]), int(p[5])))
            order.append('r')
        elif k == 'W':
            w.append((int(p[1]), p[2], p[3], p[4]))
            order.append('w')
        elif k == 'B':
            b.append(int(p[1]))
            order.append('b')
        elif k == 'R':
            r.append((int(p[1]), p[2], p[3]))
            order.append('d')
        elif k == 'C':
            com.append(int(p[1]))
        elif k == 'E':
            evs[int(p[1])].append((int(p[2]), p[4]))
            order.append('e')
        elif k == 'O':
            opt[int(p[1])][int(p[3])] = int(p[2]) - lin
            order.append('o' + p[1])
        elif k == 'D':
            dump.setdefault(int(p[1]), {})[int(p[2])] = p[3]
        elif k in ('VS', 'VX', 'VD', 'VR', 'VL'):
            add(PROTO, {'VS': 'axi-instability', 'VX': 'axi-undefined-valid', 'VD': 'axi-undefined-payload',
                        'VR': 'axi-undefined-ready', 'VL': 'axi-wlast'}[k], ' '.join(p[1:]))
        elif k == 'F':
            fin[int(p[1])] = int(p[2])
        elif k == 'RESET':
            # everything observed before a reset is history of an abandoned execution
            for x in (aw, ar, w, b, r, com):
                del x[:]
            for t in range(nth):
                opt[t].clear()
                del evs[t][:]
            fin.clear()
            nreset += 1
            t_reset = int(p[1])
            order.append('X')
        elif k == 'END':
            end = int(p[1])
        elif k == 'TIMEOUT':
            end = -int(p[1])
    # ---- protocol: every burst
    for name, lst in (('AW', aw), ('AR', ar)):
        for (c, a, ln, sz, bu) in lst:
            nbytes = (ln + 1) * nb
            if a < 0:
                continue
            if a % nb:
                add(PROTO, 'axi-unaligned', '%s at cycle %d: address %#x not aligned to %d' % (name, c, a, nb))
            if (a & 4095) + nbytes > 4096:
                add(PROTO, 'axi-4kb', '%s at cycle %d: burst %#x + %d bytes crosses a 4 KB boundary' % (name, c, a, nbytes))
            if sz != size or bu != 1:
                add(PROTO, 'axi-size-burst', '%s at cycle %d: size=%d burst=%d for a %d-byte bus' % (name, c, sz, bu, nb))
    for (c, d, s, l) in w:
        if 'x' in d:
            add(PROTO, 'axi-undefined-payload', 'W at cycle %d: %s' % (c, d))
    ops = {t: [o for o in run['ops'] if o.get('th', 0) == t] for t in range(nth)}
    nop = sum(len(x) for x in ops.values())
    if end is None or end < 0:
        where = {t: max([0] + list(opt[t])) for t in range(nth)}
        add(LIVE, 'deadlock', 'no completion by cycle %s; thread positions %s of %s' % (
            run['maxcyc'], where, {t: len(ops[t]) for t in ops}))
    else:
        beats_w = sum(x[2] + 1 for x in aw)
        if len(w) != beats_w:
            add(PROTO, 'axi-beat-count', '%d W beats for bursts announcing %d' % (len(w), beats_w))
        if len(b) != len(aw):
            add(COMP, 'missing-response', '%d B for %d AW' % (len(b), len(aw)))
        if len(r) != sum(x[2] + 1 for x in ar):
            add(PROTO, 'axi-read-beats', 'R beats %d of %d taken' % (len(r), sum(x[2] + 1 for x in ar)))
    # ---- sequential model
    M = Model(cfg, run)
    S = M.S
    sawa = sara = 0
    expw, expr = [], []                    # expected byte intervals in program order (single thread)
    for t in range(nth):
        en = 0
        for i, o in enumerate(ops[t]):
            s = S[o['k']]
            if nth == 1 and end and end > 0:
                t0, t1 = opt[t].get(i, 0), opt[t].get(i + 1, 1 << 30)
                iv = None
                if s['t'] == 'dma':
                    iv = (s['d'],) + M.bursts_bytes(o)
                elif s['t'] in ('read', 'readd'):
                    iv = ('read', M.gaddr(o), nb)
                elif s['t'] in ('write', 'fence', 'writed'):
                    iv = ('write', M.gaddr(o), nb)
                if iv:
                    (expr if iv[0] == 'read' else expw).append((i, iv[1], iv[2]))
            res = M.step(o)
            if res is not None:
                if en >= len(evs[t]):
                    if end and end > 0:
                        add(DATA, 'missing-result', 'thread %d op %d (%s) produced no result' % (t, i, s))
                else:
                    cyc, got = evs[t][en]
                    exp, wd = res
                    if exp is not None:
                        # a read register is signed and as wide as the data; compare the low bits
                        ok = 'x' not in got and 'z' not in got and (int(got, 16) & ((1 << wd) - 1)) == exp
                        if not ok:
                            kind = SINGLE if s['t'] in ('read', 'readd') else DATA
                            add(kind, 'wrong-read', 'thread %d op %d %s(a=%d,b=%#x,e=%d) at cycle %d: got %s expected %x' % (
                                t, i, s, o['a'], o['b'], o['e'], cyc, got, exp))
                en += 1
        if end and end > 0 and en != len(evs[t]):
            add(DATA, 'extra-result', 'thread %d' % t)
    # ---- order and extent of requests (single thread)
    if nth == 1 and end and end > 0:
        for name, lst, exp, d in (('AW', aw, expw, 'write'), ('AR', ar, expr, 'read')):
            q = [(x[1], (x[2] + 1) * nb, x[0]) for x in lst]
            pos = 0
            last = {}
            for (i, a, n) in exp:
                s = S[ops[0][i]['k']]
                cur = a
                first = pos
                while cur < a + n and pos < len(q):
                    if q[pos][0] & 0xffffffff != cur & 0xffffffff:
                        break
                    cur += q[pos][1]
                    pos += 1
                if cur != a + n:
                    kind = SINGLE if s['t'] != 'dma' else DATA
                    add(kind, 'wrong-request', 'op %d %s: %s bursts cover up to %#x, requested [%#x,%#x); next burst %s' % (
                        i, s, name, cur, a, a + n, q[pos] if pos < len(q) else None))
                    break
                last[i] = pos - 1
            else:
                if pos != len(q):
                    add(DATA, 'extra-request', '%d %s bursts more than requested' % (len(q) - pos, name))
                # completion: when a blocking op or wait returns its traffic is over
                rb = []
                tot = 0
                for x in ar:
                    tot += x[2] + 1
                    rb.append(tot)
                pend_w, pend_r = -1, -1
                for i, o in enumerate(ops[0]):
                    s = S[o['k']]
                    if i in last:
                        if d == 'write':
                            pend_w = last[i]
                        else:
                            pend_r = last[i]
                    t1 = opt[0].get(i + 1)
                    if t1 is None:
                        continue
                    if d == 'write' and pend_w >= 0:
                        if (s['t'] == 'dma' and s['d'] == 'write' and not s['a']) or s['t'] in ('fence', 'wait_write', 'wait'):
                            nbr = sum(1 for x in b if x < t1)
                            if nbr < pend_w + 1:
                                add(SINGLE if s['t'] == 'fence' else COMP, 'early-return',
                                    'op %d %s returned at cycle %d with %d of %d write responses' % (i, s, t1, nbr, pend_w + 1))
                    if d == 'read' and pend_r >= 0:
                        if (s['t'] == 'dma' and s['d'] == 'read' and not s['a']) or s['t'] in ('read', 'readd', 'wait_read', 'wait'):
                            nr = sum(1 for x in r if x[0] < t1)
                            if nr < rb[pend_r]:
                                add(SINGLE if s['t'].startswith('read') else COMP, 'early-return',
                                    'op %d %s returned at cycle %d with %d of %d read beats' % (i, s, t1, nr, rb[pend_r]))
    # ---- final state
    if end and end > 0:
        for j, (ri, bnk, px, dw, a_w) in enumerate(M.bk):
            exp = M.ram[(ri, bnk)]
            got = dump.get(j, {})
            for a in range(2 ** a_w):
                g = got.get(a, 'x')
                if exp[a] is not None and ('x' in g or int(g, 16) != exp[a]):
                    add(DATA, 'wrong-ram', 'ram%d bank %d [%d] = %s expected %x' % (ri, bnk, a, g, exp[a]))
                    break
        # memory: replay the write channel as the slave saw it
        mem = {}
        wi = 0
        for (c, a, ln, sz, bu) in aw:
            for k in range(ln + 1):
                if wi >= len(w):
                    break
                _, d, st, l = w[wi]
                wi += 1
                if 'x' in d or 'x' in st:
                    continue
                dv, sv = int(d, 16), int(st, 16)
                for i in range(nb):
                    if sv >> i & 1:
                        mem[(a // nb * nb + k * nb + i) & 0xffff] = (dv >> (8 * i)) & 255
        for a in sorted(set(mem) | set(M.mem)):
            e = M.mem.get(a)
            if a in M.mem and e is None:
                continue
            g = mem.get(a, bfm.mem_init_byte(a, run['salt']))
            if e is None:
                e = bfm.mem_init_byte(a, run['salt'])
            if g != e:
                add(DATA if any(S[o['k']]['t'] == 'dma' for o in run['ops']) else SINGLE, 'wrong-memory',
                    'memory[%#x] = %02x expected %02x' % (a, g, e))
                break
    # ---- statistics
    fired = {}
    n0 = reset_len(cfg)
    endc = abs(end) if end else run['maxcyc']
    for e in run['sched']:
        if e['at'] + n0 < endc:
            fired[e['k']] = fired.get(e['k'], 0) + 1
    for bit, nm in ((1, 'awready_waits_wvalid'), (2, 'wready_waits_aw'), (4, 'ready_waits_valid')):
        if run['mode'] & bit:
            fired[nm] = fired.get(nm, 0) + 1
    probes = {}
    if any((x[1] & 4095) + (x[2] + 1) * nb == 4096 for x in aw + ar):
        probes['burst_ends_at_4kb'] = 1
    if any(x[2] == 255 for x in aw + ar):
        probes['burst_256'] = 1
    if any(S[o['k']].get('a') for o in run['ops']):
        probes['async'] = 1
    if sum(x[0] < bb for x in aw for bb in b[:1]) > 1:
        probes['outstanding_writes>1'] = 1
    probes['ops'] = nop
    import hashlib
    st = {'cycles': endc, 'faults': fired, 'probes': probes,
          'key': hashlib.sha256((''.join(order)).encode()).hexdigest()[:16],
          'nontrivial': bool(fired) and len(order) > 4,
          'logh': hashlib.sha256(log.encode()).hexdigest()[:16]}
    return viols, st
