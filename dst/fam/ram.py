"""On-chip RAMs: word, bank-wise, burst and external-port accesses from concurrent threads."""
from .. import bfm, core, genmod, linz, opthread
from ..core import V

SCH = 2048
R0 = 6
MINIMISE = ('sched', 'ops', 'ext')
LIN_VARY = ('sched', 'ext')
NEXT = 128


def nb_of(r):
    return r['nb'] if r['kind'] in ('multi', 'pack') else 1


def pow2(n):
    return n & (n - 1) == 0


def sites(cfg):
    """operation sites; every site belongs to one (ram, port) user"""
    S = [None]
    for u, x in enumerate(cfg['users']):
        r = cfg['rams'][x['ram']]
        if x['kind'] == 'w':
            ts = ['rd', 'wr', 'rw', 'wc'] if nb_of(r) == 1 or pow2(nb_of(r)) else []
            if nb_of(r) > 1:
                ts += ['rdb', 'wrb']
            if r['kind'] == 'fixed':
                ts += ['rdf', 'wrf']
        else:
            ts = ['b' + y for y in x['bm']]
        for t in ts:
            S.append({'t': t, 'u': u})
    S += [{'t': 'delay'}]
    return S


def stmt(cfg, s, t):
    r = lambda e: opthread.ret(t, e)
    k = s['t']
    if k == 'delay':
        return ['for w in range(c):', '    pass']
    x = cfg['users'][s['u']]
    o = 'ram%d' % x['ram']
    p = ', %d' % x['port'] if x['port'] or x['pa'] == 1 else ''
    if x['pa'] == 2:
        p = ', port=%d' % x['port']
    if k[0] == 'b':
        return ['g%d_%s(a, b, c, d)' % (s['u'], k[1:]), 'while not bd%d:' % s['u'], '    pass'] + r('1')
    raw = ', raw=True' if cfg['rams'][x['ram']]['kind'] == 'fixed' else ''
    L = {'rd': ['x = %s.read(a%s%s)' % (o, p, raw)], 'wr': ['%s.write(a, b%s%s)' % (o, p, raw)],
         'rw': ['x = %s.read(a%s%s)' % (o, p, raw), '%s.write(a, b%s%s)' % (o, p, raw)],
         'wc': ['%s.write(a, b, port=%d, cond=(d == 1)%s)' % (o, x['port'], raw)],
         'rdb': ['x = %s.read_bank(e, a%s)' % (o, p)], 'wrb': ['%s.write_bank(e, a, b%s)' % (o, p)],
         'rdf': ['x = fixed_to_int(%s.read(a%s), %d)' % (o, p, cfg['rams'][x['ram']].get('pt', 0))], 'wrf': ['%s.write(a, b%s)' % (o, p)]}[k]
    if x['lock']:
        L = ['%s.lock()' % o] + L + ['%s.unlock()' % o]
    return L + r('x' if k in ('rd', 'rdb', 'rdf', 'rw') else '1')


def build(cfg):
    L = [genmod.HEADER, 'def mk():', '    m = Module("dut")', '    clk = m.Input("CLK")', '    rst = m.Input("RST")']
    a = L.append
    for j, r in enumerate(cfg['rams']):
        ext = ', external_ports=[%s]' % ', '.join(str(x['port']) for x in cfg['exts'] if x['ram'] == j and not x.get('rtl')) if any(x['ram'] == j and not x.get('rtl') for x in cfg['exts']) else ''
        args = 'm, "%%s", clk, rst, %d, %d, numports=%d%s' % (r['dw'], r['aw'], r['np'], ext)
        iv = ', initvals=%r' % (r['init'],) if r.get('init') else ''
        if r['kind'] == 'ram':
            a('    ram%d = vthread.RAM(%s%s)' % (j, args % ('ram%d' % j), iv))
        elif r['kind'] == 'fixed':
            a('    ram%d = vthread.FixedRAM(%s, point=%d%s)' % (j, args % ('ram%d' % j), r['pt'], iv + ', noconvert_initvals=True' if iv else ''))
        elif r['kind'] == 'multi':
            a('    ram%d = vthread.MultibankRAM(%s, numbanks=%d)' % (j, args % ('ram%d' % j), r['nb']))
        elif r.get('nest'):
            for i in range(r['nb'] // 2):
                a('    ram%d_%d = vthread.MultibankRAM(%s, numbanks=2)' % (j, i, args % ('ram%d_%d' % (j, i))))
            a('    ram%d = vthread.to_multibank_ram([%s])' % (j, ', '.join('ram%d_%d' % (j, i) for i in range(r['nb'] // 2))))
        else:
            for i in range(r['nb']):
                a('    ram%d_%d = vthread.RAM(%s)' % (j, i, args % ('ram%d_%d' % (j, i))))
            a('    ram%d = vthread.to_multibank_ram([%s])' % (j, ', '.join('ram%d_%d' % (j, i) for i in range(r['nb']))))
    for k, x in enumerate(cfg['exts']):
        if x.get('rtl'):
            r = cfg['rams'][x['ram']]
            aw = r['aw'] + (nb_of(r) - 1).bit_length()
            a('    xa%d, xd%d, xw%d, xe%d, xq%d = m.Input("xa%d", %d), m.Input("xd%d", %d), m.Input("xw%d"), m.Input("xe%d"), m.Output("xq%d", %d)' % (
                (k,) * 6 + (aw, k, r['dw']) + (k,) * 3 + (r['dw'],)))
            a('    ram%d.connect_rtl(%d, xa%d, xd%d, xw%d, xq%d, xe%d)' % ((x['ram'], x['port']) + (k,) * 5))
    for u, x in enumerate(cfg['users']):
        if x['kind'] != 'b':
            continue
        r = cfg['rams'][x['ram']]
        for v in 'abcd':
            a('    b%s%d = m.OutputReg("b%s%d", 32, initval=0)' % (v, u, v, u))
        a('    bd%d = m.Input("bd%d")' % (u, u))
        for mi, meth in enumerate(x['bm']):
            a('    bg%d_%s = m.OutputReg("bg%d_%d", initval=0)' % (u, meth, u, mi))
            a('    def g%d_%s(fsm, a, b, c, d):' % (u, meth))
            a('        fsm(ba%d(a), bb%d(b), bc%d(c), bd_%d(d), bg%d_%s(1))' % (u, u, u, u, u, meth) if False else
              '        fsm(ba%d(a), bb%d(b), bc%d(c), bx%d(d), bg%d_%s(1))' % (u, u, u, u, u, meth))
            a('        fsm.goto_next()')
            a('        fsm(bg%d_%s(0))' % (u, meth))
            a('        fsm.goto_next()')
            a('        return 0')
            w = r['dw'] * (nb_of(r) if meth.endswith('packed') else 1)
            name = {'r': 'read_burst', 'w': 'write_burst'}[meth[0]] + meth[1:]
            if meth[0] == 'r':
                a('    rr%d_%d = m.Input("rr%d_%d")' % ((u, mi) * 2))
                a('    rd%d_%d = m.Output("rd%d_%d", %d)' % (u, mi, u, mi, w))
                a('    rv%d_%d = m.Output("rv%d_%d")' % (u, mi, u, mi))
                a('    rl%d_%d = m.Output("rl%d_%d")' % (u, mi, u, mi))
                a('    dv = ram%d.%s(ba%d, bb%d, bc%d, bx%d, rr%d_%d, port=%d, cond=bg%d_%s)' % (x['ram'], name, u, u, u, u, u, mi, x['port'], u, meth))
                for q, n in enumerate(('rd', 'rv', 'rl')):
                    a('    %s%d_%d.assign(dv[%d])' % (n, u, mi, q))
            else:
                a('    wd%d_%d = m.Input("wd%d_%d", %d)' % (u, mi, u, mi, w))
                a('    wv%d_%d = m.Input("wv%d_%d")' % (u, mi, u, mi))
                a('    wl%d_%d = m.Input("wl%d_%d")' % (u, mi, u, mi))
                a('    wr%d_%d = m.Output("wr%d_%d")' % (u, mi, u, mi))
                a('    wn%d_%d = m.Output("wn%d_%d")' % (u, mi, u, mi))
                a('    dv = ram%d.%s(ba%d, bb%d, bc%d, bx%d, wd%d_%d, wv%d_%d, wl%d_%d, port=%d, cond=bg%d_%s)' % (
                    x['ram'], name, u, u, u, u, u, mi, u, mi, u, mi, x['port'], u, meth))
                a('    wr%d_%d.assign(dv[0])' % (u, mi))
                a('    wn%d_%d.assign(dv[1])' % (u, mi))
    a('    def fixed_to_int(fsm, v, p): return vthread.fixed.fixed_to_int(fsm, v, p)')
    for t in range(cfg['nth']):
        L += ['    ' + x for x in opthread.decl(t)]
        st = [(c, stmt(cfg, s, t)) for c, s in enumerate(sites(cfg)) if s and allowed(cfg, s, t)]
        a('    stall%d = m.Input("stall%d")' % (t, t))
        pre = ['x = 0'] if not cfg.get('gate') else ['x = 0', 'while stall%d:' % t, '    pass']
        L += ['    ' + y for y in opthread.worker(t, st, go=None, prologue=pre, prog=cfg.get('prog'))]
        s = opthread.start(t, cfg, ', datawidth=64' if any(r['dw'] > 32 for r in cfg['rams']) else '')
        gs = ['g%d_%s' % (u, meth) for u, x in enumerate(cfg['users']) if x['kind'] == 'b' for meth in x['bm']]
        s.insert(1, 'th%d.add_intrinsics(%s)' % (t, ', '.join(gs + ['fixed_to_int'])))
        L += ['    ' + x for x in s]
    a('    return m')
    src = '\n'.join(L)
    for u, x in enumerate(cfg['users']):
        if x['kind'] == 'b':
            src = src.replace('bd%d = m.OutputReg("bd%d"' % (u, u), 'bx%d = m.OutputReg("bx%d"' % (u, u))
    return genmod.load(src).mk().to_verilog()


def allowed(cfg, s, t):
    return 'u' not in s or cfg['users'][s['u']]['th'] == t


def tb(cfg):
    D, B, conn = [bfm.VR_MON], [], ['.CLK(CLK)', '.RST(RST)']
    for t in range(cfg['nth']):
        d, b, c = opthread.tb(t)
        D.append(d)
        B.append(b)
        conn += c + ['.stall%d(st[%d])' % (t, t)]
    for u, x in enumerate(cfg['users']):
        if x['kind'] != 'b':
            continue
        r = cfg['rams'][x['ram']]
        D.append('wire [31:0] ba%d,bb%d,bc%d,bx%d; reg act%d; reg [31:0] bn%d; reg nbd%d; initial begin act%d=0; bn%d=0; nbd%d=0; end' % ((u,) * 10))
        conn += ['.b%s%d(b%s%d)' % (v, u, v, u) for v in 'abcx'] + ['.bd%d(!act%d && !(%s))' % (u, u, ' || '.join('bg%d_%d' % (u, mi) for mi in range(len(x['bm']))))]
        go, fin, log = [], [], []
        for mi, meth in enumerate(x['bm']):
            w = r['dw'] * (nb_of(r) if meth.endswith('packed') else 1)
            D.append('wire bg%d_%d; reg act%d_%d; initial act%d_%d=0;' % ((u, mi) * 3))
            conn.append('.bg%d_%d(bg%d_%d)' % ((u, mi) * 2))
            n = (u, mi)
            go.append('if(bg%d_%d) begin act%d<=(bc%d!=0); act%d_%d<=(bc%d!=0); bn%d<=0; $display("GO %d %d %%0d %%0d %%0d %%0d %%0d", cyc, ba%d, bb%d, bc%d, bx%d); end' % (u, mi, u, u, u, mi, u, u, u, mi, u, u, u, u))
            if meth[0] == 'r':
                D.append('wire [%d:0] rd%d_%d; wire rv%d_%d, rl%d_%d; wire rr%d_%d = act%d_%d && !RST && !st[%d];' % ((w - 1,) + n * 5 + (4 + u,)))
                conn += ['.%s%d_%d(%s%d_%d)' % ((q,) + n + (q,) + n) for q in ('rd', 'rv', 'rl', 'rr')]
                fin.append('if(rv%d_%d && rr%d_%d) begin $display("RB %d %d %%0d %%0h %%0d %%0d", cyc, rd%d_%d, rl%d_%d, bn%d); bn%d<=bn%d+1; if(rl%d_%d) begin act%d<=0; act%d_%d<=0; end end' % (
                    n + n + n + n + n + (u, u, u) + n + (u,) + n))
                D.append('vr_mon #(%d, "rburst%d_%d") mon%d_%d(CLK, RST, cyc, rv%d_%d, rr%d_%d, 1\'b0);' % ((1,) + n * 4))
            else:
                D.append('wire wr%d_%d, wn%d_%d; reg [31:0] sd%d_%d; initial sd%d_%d=0; wire wv%d_%d = act%d_%d && !RST && !st[%d];' % (n * 6 + (4 + u,)))
                words = (w + 31) // 32
                D.append('wire [%d:0] wd%d_%d = {%s};' % ((w - 1,) + n + (', '.join(
                    "(bn%d*32'd2654435761 + cyc*32'd40503 + 32'd%d) ^ (bn%d << 3)" % (u, 77 * q + u, u) for q in range(words)),)))
                D.append('wire wl%d_%d = (bn%d == bc%d-1);' % (n + (u, u)))
                conn += ['.%s%d_%d(%s%d_%d)' % ((q,) + n + (q,) + n) for q in ('wd', 'wv', 'wl', 'wr', 'wn')]
                fin.append('if(wv%d_%d && wr%d_%d) begin $display("WB %d %d %%0d %%0h %%0d", cyc, wd%d_%d, bn%d); if(wl%d_%d) begin act%d<=0; act%d_%d<=0; end bn%d<=bn%d+1; nbd%d<=1; end' % (
                    n + n + n + n + (u,) + n + (u,) + n + (u, u, u)))
                # the cycle after the last beat done must be up
                B.append('reg ld%d_%d; initial ld%d_%d=0; always @(posedge CLK) begin ld%d_%d <= !RST && wv%d_%d && wr%d_%d && wl%d_%d; if(!RST && ld%d_%d && wn%d_%d !== 1) $display("WN %d %d %%0d", cyc); end' % (n * 9))
        B.append('always @(posedge CLK) if(RST) begin act%d<=0; %s end else begin %s %s end' % (u, ' '.join('act%d_%d<=0;' % (u, mi) for mi in range(len(x['bm']))), ' '.join(fin), ' '.join(go)))
    for k, x in enumerate(cfg['exts']):
        r = cfg['rams'][x['ram']]
        D.append('reg [31:0] ext%d [0:%d]; initial $readmemh("ext%d.hex", ext%d); reg [31:0] ei%d; initial ei%d=0; reg lr%d; initial lr%d=0; wire [%d:0] xq%d;' % (
            k, NEXT * 4 - 1, k, k, k, k, k, k, r['dw'] - 1, k))
        D.append('wire xe%d = !RST && !st[%d] && ext%d[(ei%d%%%d)*4] != 0; wire xw%d = xe%d && ext%d[(ei%d%%%d)*4]==2; wire [31:0] xa%d = ext%d[(ei%d%%%d)*4+1]; wire [31:0] xd%d = ext%d[(ei%d%%%d)*4+2];' % (
            k, 12 + k, k, k, NEXT, k, k, k, k, NEXT, k, k, k, NEXT, k, k, k, NEXT))
        B.append('always @(posedge CLK) begin if(lr%(k)d) $display("XR %(k)d %%0d %%0h", cyc, xq%(k)d); lr%(k)d <= xe%(k)d && !xw%(k)d; '
                 'if(xe%(k)d) begin $display("XI %(k)d %%0d %%0d", cyc, ei%(k)d); ei%(k)d <= ei%(k)d+1; end end' % {'k': k})
        if x.get('rtl'):
            conn += ['.xa%d(xa%d[%d:0])' % (k, k, r['aw'] + (nb_of(r) - 1).bit_length() - 1), '.xd%d(xd%d[%d:0])' % (k, k, min(32, r['dw']) - 1)] + ['.x%s%d(x%s%d)' % (q, k, q, k) for q in 'weq']
            continue
        n = 'ram%d%s_%d_' % (x['ram'], '_%d' % x['bank'] if nb_of(r) > 1 and not r.get('nest') else '_%d_%d' % (x['bank'] // 2, x['bank'] % 2) if nb_of(r) > 1 else '', x['port'])
        conn += ['.%saddr(xa%d[%d:0])' % (n, k, r['aw'] - 1), '.%swdata(%s)' % (n, 'xd%d[%d:0]' % (k, min(32, r['dw']) - 1)), '.%swenable(xw%d)' % (n, k), '.%senable(xe%d)' % (n, k), '.%srdata(xq%d)' % (n, k)]
    # other external bank ports of a multibank RAM stay idle
    for j, r in enumerate(cfg['rams']):
        for x in cfg['exts']:
            if x['ram'] == j and nb_of(r) > 1 and not x.get('rtl'):
                for b in range(nb_of(r)):
                    if b not in [y['bank'] for y in cfg['exts'] if y['ram'] == j and y['port'] == x['port']]:
                        n = 'ram%d%s_%d_' % (j, '_%d' % b if not r.get('nest') else '_%d_%d' % (b // 2, b % 2), x['port'])
                        conn += ['.%saddr(0)' % n, '.%swdata(0)' % n, '.%swenable(1\'b0)' % n, '.%senable(1\'b0)' % n]
    d, b = opthread.finish(cfg['nth'], '1', 30)
    D.append(d)
    B.append(b)
    B.append('dut uut(%s);' % ', '.join(conn))
    return bfm.skeleton('\n'.join(B), '\n'.join(D[1:]), schlen=SCH) + bfm.VR_MON


def files(cfg, run, rd):
    ev = [{'bit': 31, 'at': 0, 'n': 4}] + [dict(e, at=e['at'] + R0) for e in run['sched']]
    core.write_hex(rd + '/sched.hex', core.expand_schedule(ev, SCH))
    p = [0] * 64
    p[0] = run['maxcyc']
    core.write_hex(rd + '/p.hex', p)
    opthread.write_ops(rd, run, cfg['nth'])
    for k in range(len(cfg['exts'])):
        w = []
        for x in run['ext']:
            if x[0] == k:
                w += [1 + x[1], x[2], x[3], 0]
        w += [0] * (NEXT * 4 - len(w))
        core.write_hex('%s/ext%d.hex' % (rd, k), w, 32)


def gen_cfg(rng, i=0, style={}):
    nth = rng.choice([1, 2, 2, 3])
    rams, users, exts = [], [], []
    for j in range(rng.choice([1, 1, 2])):
        kind = rng.choice(['ram', 'ram', 'multi', 'multi', 'pack', 'fixed'])
        r = {'kind': kind, 'dw': rng.choice([8, 16, 32, 32, 40, 64]), 'aw': rng.choice([2, 3, 4]), 'nb': 1}
        if kind == 'multi':
            r['nb'] = rng.choice([2, 2, 3, 4, 5])
        elif kind == 'pack':
            r['nb'] = rng.choice([2, 3, 4])
            r['nest'] = int(r['nb'] == 4 and rng.random() < 0.5)
        elif kind == 'fixed':
            r['pt'] = rng.choice([1, 4, 8])
            r['dw'] = 32
        if kind in ('ram', 'fixed') and rng.random() < 0.6:
            r['init'] = [rng.getrandbits(r['dw'] - 1) for _ in range(rng.choice([1, 3, 2 ** r['aw']]))]
        np = rng.choice([1, 2, 2, 3, 4])
        r['np'] = np
        rams.append(r)
        ths = list(range(nth))
        for p in range(np):
            u = rng.random()
            if u < 0.25 and len(exts) < 4 and p:
                exts.append({'ram': j, 'port': p, 'bank': rng.randrange(r['nb']), 'rtl': int(pow2(r['nb']) and rng.random() < 0.5)})
            elif u < 0.5 and p and len(users) < 8:
                ms = ['r', 'w'] if r['nb'] == 1 or pow2(r['nb']) else []
                if r['nb'] > 1:
                    ms += ['r_block', 'w_block', 'w_bcast'] + (['r_packed', 'w_packed'] if pow2(r['nb']) else [])
                elif rng.random() < 0.3:
                    ms = ['r_block', 'w_packed', 'w_bcast', 'r_packed', 'w_block']
                users.append({'ram': j, 'port': p, 'th': rng.randrange(nth), 'kind': 'b', 'bm': rng.sample(ms, min(len(ms), rng.randint(1, 4))), 'lock': 0, 'pa': 0})
            else:
                who = rng.sample(ths, 1 if rng.random() < 0.7 else min(2, nth))
                for t in who:
                    if len(users) < 8:
                        users.append({'ram': j, 'port': p, 'th': t, 'kind': 'w', 'lock': int(len(who) > 1), 'pa': rng.randint(0, 2)})
    return {'nth': nth, 'rams': rams, 'users': users, 'exts': exts, 'gate': int(rng.random() < 0.5)}


def gen_run(cfg, rng, style):
    S = sites(cfg)
    ops = []
    hot = [rng.randrange(2 ** r['aw']) for r in cfg['rams']]
    nz = rng.choice([2, 4, 1 << 10])
    for t in range(cfg['nth']):
        W = [(c, s) for c, s in enumerate(S) if s and allowed(cfg, s, t)]
        for _ in range(rng.choice([6, 20, 40, 55])):
            c, s = rng.choice(W)
            if s['t'] == 'delay' and rng.random() < 0.7:
                continue
            o = {'k': c, 'a': 0, 'b': rng.getrandbits(31), 'c': rng.randint(0, 9), 'd': rng.randint(0, 1), 'e': 0, 'th': t}
            if 'u' in s:
                x = cfg['users'][s['u']]
                r = cfg['rams'][x['ram']]
                n, nb = 2 ** r['aw'], nb_of(r)
                bankwise = s['t'] in ('rdb', 'wrb') or s['t'].endswith('block') or s['t'].endswith('bcast')
                lim = n if bankwise else n * nb
                o['a'] = (hot[x['ram']] * (1 if bankwise else nb) + rng.randrange(nz)) % lim if rng.random() < 0.7 else rng.randrange(lim)
                o['e'] = rng.randrange(nb)
                if s['t'][0] == 'b':
                    o['b'] = rng.choice([1, 1, 1, 2, 3, 0])
                    o['c'] = rng.choice([1, 2, 3, 4, 7, 8, n, 2 * n]) if s['t'] != 'delay' else o['c']
                    o['d'] = rng.choice([1, 1, 2, 3, 4])
                    if s['t'].endswith('packed'):
                        o['b'] *= nb
                        o['a'] = o['a'] // nb * nb
                elif s['t'] == 'wrf':
                    o['b'] &= 0x7fff
            ops.append(o)
    ext = []
    for k, x in enumerate(cfg['exts']):
        r = cfg['rams'][x['ram']]
        for _ in range(rng.choice([10, 60, 120])):
            n = 2 ** r['aw'] * (r['nb'] if x.get('rtl') else 1)
            ext.append([k, rng.randint(0, 1), (hot[x['ram']] * (r['nb'] if x.get('rtl') else 1) + rng.randrange(nz)) % n if rng.random() < 0.7 else rng.randrange(n), rng.getrandbits(31)])
    hor = rng.choice([60, 200, 600])
    chans = [('thread%d_stall' % t, t) for t in range(cfg['nth'])]
    chans += [('burst%d_stall' % u, 4 + u) for u, x in enumerate(cfg['users']) if x['kind'] == 'b']
    chans += [('external%d_gap' % k, 12 + k) for k in range(len(cfg['exts']))]
    sched = [] if rng.random() < 0.1 else core.gen_stalls(rng, chans, hor)
    if style.get('reset'):
        for _ in range(rng.choice([1, 1, 2])):
            sched.append({'k': 'reset', 'bit': 31, 'at': rng.randrange(0, rng.choice([30, 100, 300])), 'n': rng.choice([1, 1, 2, 5])})
    return {'ops': ops, 'ext': ext, 'sched': sched, 'maxcyc': SCH + 3000 + 100 * len(ops)}


def words_of(r, meth, a, stride, i, bs):
    """the (bank, word) places beat i of a burst names"""
    n, nb = 2 ** r['aw'], nb_of(r)
    if meth in ('', ) or nb == 1:
        x = (a + i * stride) % (n * nb)
        return [(x % nb, x // nb)]
    if meth == '_block':
        g = i // bs
        return [(g % nb, (a + (g // nb * bs + i % bs) * stride) % n)]
    if meth == '_packed':
        x = ((a + i * stride) % (n * nb)) // nb
        return [(b, x) for b in range(nb)]
    return [(b, (a + i * stride) % n) for b in range(nb)]     # bcast


def step(s, o):
    """state: frozenset of possible values (None: never written)"""
    if o['w']:
        return frozenset([o['v']]) if not o.get('opt') else s | {o['v']}
    return frozenset([o['v']]) if o['v'] in s else None


def check(cfg, run, log):
    viols = []
    has_reset = any(e['bit'] == 31 for e in run['sched'])

    def add(cls, msg):
        viols.append(V(cls, msg, props=['C14'] + (['C25'] if has_reset else [])))
    S = sites(cfg)
    nth = cfg['nth']
    H = opthread.Hist(nth, cfg.get('prog'))
    words = {}          # (ram, bank, word) -> history since the last reset
    past = {}           # values written before it
    xi, xr, bst = [], {}, {}
    extops = [[x for x in run['ext'] if x[0] == k] for k in range(len(cfg['exts']))]
    nbeats = 0

    def mask(j):
        return (1 << cfg['rams'][j]['dw']) - 1

    def ev(j, b, w, wr, v, t0, t1, what):
        words.setdefault((j, b, w), []).append({'w': wr, 'v': v, 'inv': t0, 'res': t1, 'what': what})
    pend = {}

    def flush(final):
        """thread operations of the epoch that ends"""
        endc = abs(H.end) if final and H.end else 1 << 30
        for t in range(nth):
            n, over = 0, False
            es = H.evs[t]
            for i, o in enumerate([o for o in run['ops'] if o['th'] == t]):
                s = S[o['k']]
                k = s['t']
                b = H.began[t].get(i, H.t_reset if i == 0 else None)
                if b is None:
                    # the next operation may have taken effect in the reset cycle itself
                    if final or over:
                        break
                    over, b = True, H.t_reset
                if k == 'delay':
                    continue
                e = es[n] if n < len(es) else None
                n += 1
                if k[0] == 'b':
                    continue
                x = cfg['users'][s['u']]
                j = x['ram']
                r = cfg['rams'][j]
                nb = nb_of(r)
                if k in ('rdb', 'wrb'):
                    pl = (j, o['e'], o['a'])
                else:
                    pl = (j, o['a'] % nb, o['a'] // nb)
                val = (o['b'] << (r.get('pt', 0) if k == 'wrf' else 0)) & mask(j)
                what = 'thread %d op %d %s' % (t, i, k)
                if k in ('rd', 'rdb', 'rdf', 'rw') and e:
                    v = opthread.num(e[1])
                    if v >= 0:
                        v &= mask(j)
                    if k == 'rdf' and v >= 0:
                        # the integer part is visible: compare against all possible words
                        ev(*pl, 0, ('int', v), b, e[0], what)
                    else:
                        ev(*pl, 0, v if v >= 0 else None, b, e[0], what)
                if k in ('wr', 'wrb', 'wrf', 'rw') or (k == 'wc' and o['d'] == 1):
                    words.setdefault(pl, []).append({'w': 1, 'v': val, 'inv': b, 'res': e[0] if e else endc, 'opt': not e, 'what': what})
        for (j, b, w), hist in words.items():
            r = cfg['rams'][j]
            init = frozenset([r['init'][w] & mask(j) if w < len(r['init']) else 0] if r.get('init') else [None])
            p = past.get((j, b, w))
            if p is not None:
                init = p
            for o in hist:
                if o['v'].__class__ is tuple:
                    # an integer read from a fixed point word
                    z = [q for q in [y['v'] for y in hist if y['w']] + list(init) if q is not None and fint(q, r) == o['v'][1]]
                    o['v'] = ('any', frozenset(z))
            res = linz.linearizable(hist, init, step2)
            if res is False:
                hist.sort(key=lambda o: (o['inv'], o['res']))
                add('wrong-value', 'ram%d (%s) bank %d word %d: no order of these accesses explains the values read: %s' % (
                    j, r['kind'], b, w, '; '.join('[%d,%s] %s %s=%s' % (o['inv'], o['res'], o['what'], 'W' if o['w'] else 'R',
                                                                         '%x' % o['v'] if isinstance(o['v'], int) else o['v']) for o in hist[:14])))
        for pl, hist in words.items():
            r = cfg['rams'][pl[0]]
            init = past.get(pl) or frozenset([r['init'][pl[2]] & mask(pl[0]) if pl[2] < len(r['init']) else 0] if r.get('init') else [None])
            past[pl] = init | {o['v'] for o in hist if o['w']}
        words.clear()

    def fint(q, r):
        # fixed_to_int: arithmetic shift of the signed word
        if q >> (r['dw'] - 1):
            q -= 1 << r['dw']
        return (q >> r['pt']) & mask_r(r)

    def mask_r(r):
        return (1 << r['dw']) - 1

    def step2(s, o):
        if not o['w'] and o['v'].__class__ is tuple:
            z = s & o['v'][1]
            return z or None
        return step(s, o)
    lines = log.split('\n')
    for line in lines:
        p = line.split()
        if not p:
            continue
        if p[0] == 'RESET' and int(p[1]) != H.t_reset:
            flush(False)
            bst.clear()
        if H.feed(p):
            continue
        k = p[0]
        if k == 'XI':
            e, c, i = int(p[1]), int(p[2]), int(p[3])
            x = extops[e][i]
            d = cfg['exts'][e]
            nb = nb_of(cfg['rams'][d['ram']]) if d.get('rtl') else 0
            if x[1]:
                ev(d['ram'], x[2] % nb if nb else d['bank'], x[2] // nb if nb else x[2], 1, x[3] & mask(d['ram']), c, c, 'external port %d op %d' % (e, i))
            else:
                xr[e] = (i, c, x[2])
            H.order.append('x%d' % e)
        elif k == 'XR':
            e = int(p[1])
            if e in xr:
                i, c, w = xr.pop(e)
                if c < H.t_reset:
                    continue        # overtaken by a reset
                d = cfg['exts'][e]
                v = opthread.num(p[3])
                nb = nb_of(cfg['rams'][d['ram']]) if d.get('rtl') else 0
                ev(d['ram'], w % nb if nb else d['bank'], w // nb if nb else w, 0, v if v >= 0 else None, c, c, 'external port %d op %d' % (e, i))
        elif k == 'GO':
            u = int(p[1])
            bst[u] = [int(p[2]), int(p[3])] + [int(z) for z in p[4:8]] + [0]
        elif k in ('RB', 'WB'):
            u, mi, c = int(p[1]), int(p[2]), int(p[3])
            x = cfg['users'][u]
            j = x['ram']
            r = cfg['rams'][j]
            meth = x['bm'][mi]
            nbeats += 1
            H.order.append(k + p[1])
            if u not in bst or bst[u][0] != mi:
                add('burst', 'burst %s of user %d moves data without a request at %d' % (meth, u, c))
                continue
            B = bst[u]
            i = B[6]
            B[6] += 1
            if i >= B[4]:
                add('burst', 'burst %s of user %d: beat %d of %d' % (meth, u, i, B[4]))
                continue
            pl = words_of(r, meth[1:], B[2], B[3], i, B[5])
            v = opthread.num(p[4])
            for q, (b, w) in enumerate(pl):
                if k == 'RB':
                    if len(p[4]) and v < 0:
                        # undefined bits: which banks are undefined is only visible for whole words
                        y = None if len(pl) == 1 or set(p[4]) == {'x'} else 'skip'
                    else:
                        y = (v >> (q * r['dw'])) & mask(j)
                    if y != 'skip':
                        ev(j, b, w, 0, y, B[1], c, 'burst %s user %d beat %d' % (meth, u, i))
                else:
                    y = (v >> (q * r['dw'] if meth.endswith('packed') else 0)) & mask(j)
                    ev(j, b, w, 1, y, c, c, 'burst %s user %d beat %d' % (meth, u, i))
            if k == 'RB':
                if int(p[5] == '1') != int(i == B[4] - 1):
                    add('burst', 'burst %s of user %d: last=%s at beat %d of %d' % (meth, u, p[5], i, B[4]))
        elif k == 'WN':
            add('burst', 'burst %s of user %s: done is not raised after the last beat at %s' % (cfg['users'][int(p[1])]['bm'][int(p[2])], p[1], p[3]))
        elif k in ('VS', 'VX', 'VR'):
            add('burst', line)
    if not H.ok:
        w = {t: max([0] + list(H.began[t])) for t in range(nth)}
        add('no-completion', 'no completion by cycle %d: threads at %s' % (run['maxcyc'], w))
    nops = sum(map(len, H.evs.values()))
    flush(True)
    endc = abs(H.end) if H.end else run['maxcyc']
    fl = opthread.fired(run, endc, R0)
    return viols, opthread.stats(log, H, run, endc, H.order, fl, {'accesses': nops, 'burst_beats': nbeats, 'external_accesses': H.order.count('x0')})
