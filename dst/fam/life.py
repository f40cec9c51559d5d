"""Thread life cycle: run/join/done/ret/reset of child threads and thread pools."""
from .. import bfm, core, genmod, opthread
from ..core import V

SCH = 2048
R0 = 6
MINIMISE = ('sched', 'ops')
LIN_VARY = ('sched',)
SLACK = 24


def kids(cfg):
    """list of (fsm name, kind, index in kind)"""
    K = [('ch%d' % c, 'c', c) for c in range(len(cfg['ch']))]
    if cfg['pool']:
        K += [('po_%d' % i, 'p', i) for i in range(cfg['pool']['n'])]
    if cfg['gc']:
        K.append(('gc', 'g', 0))
    return K


def sites(cfg):
    S = [None]
    for c, d in enumerate(cfg['ch']):
        # a call site may give up to na arguments, some of them by keyword
        for _, (npos, kw) in enumerate(d['runs']):
            S.append({'t': 'run', 'c': c, 'np': npos, 'kw': kw})
        for t in ('join', 'done', 'ret', 'reset', 'creset', 'all', 'rr', 'mx'):
            S.append({'t': t, 'c': c})
    if cfg['pool']:
        for t in ('prun', 'pjoin', 'pdone', 'pret', 'preset', 'pall'):
            S.append({'t': t})
    S += [{'t': 'args'}, {'t': 'delay'}]
    return S


def allowed(cfg, s, t):
    """which parent may use which site"""
    if s['t'] in ('args', 'delay'):
        return True
    if s['t'][0] == 'p':
        return cfg['powner'] == t
    if s['t'] == 'mx':
        return cfg['ch'][s['c']]['owner'] is None
    return cfg['ch'][s['c']]['owner'] == t


PN = ['p', 'q', 'r']
AV = ['a', 'b', 'c']


def callargs(d, np, kw):
    return ', '.join(AV[:np] + ['%s=%s' % (PN[k], AV[k]) for k in kw])


def argvals(d, np, kw, o):
    """the values the child must see"""
    v = []
    for k in range(d['na']):
        if k < np or k in kw:
            v.append(o.get(AV[k], 0))
        else:
            v.append(d['dflt'][k])
    return v


def result(v):
    x = 1
    for k, y in enumerate(v):
        x += (2 * k + 3) * y
    return x & 0xffffffff


def stmt(cfg, s, t):
    r = lambda e: opthread.ret(t, e)
    k = s['t']
    if k == 'run':
        d = cfg['ch'][s['c']]
        return ['ch%d.run(%s)' % (s['c'], callargs(d, s['np'], s['kw']))] + r('1')
    if k in ('join', 'reset'):
        return ['ch%d.%s()' % (s['c'], k)] + r('1')
    if k == 'creset':
        return ['if d:', '    ch%d.reset()' % s['c']] + r('1')
    if k in ('done', 'ret'):
        return ['x = ch%d.%s()' % (s['c'], k)] + r('x')
    if k in ('all', 'rr', 'mx'):
        d = cfg['ch'][s['c']]
        ch = 'ch%d' % s['c']
        full = ', '.join(AV[:d['na']])
        L = ['%s.run(%s)' % (ch, full), '%s.join()' % ch, 'x = %s.ret()' % ch, '%s.reset()' % ch]
        if k == 'rr':
            L += ['%s.run(%s)' % (ch, full), '%s.join()' % ch, 'x = x + %s.ret()' % ch, '%s.reset()' % ch]
        if k == 'mx':
            L = ['mx%d.lock()' % s['c']] + L + ['mx%d.unlock()' % s['c']]
        return L + r('x')
    if k == 'prun':
        return ['pool.run(%s)' % ', '.join(['d', 'a', 'b', 'c'][:1 + cfg['pool']['na']])] + r('1')
    if k in ('pjoin', 'preset'):
        return ['pool.%s(d)' % k[1:]] + r('1')
    if k in ('pdone', 'pret'):
        return ['x = pool.%s(d)' % k[1:]] + r('x')
    if k == 'pall':
        n = cfg['pool']['n']
        return (['for tid in range(%d):' % n, '    pool.run(%s)' % ', '.join(['tid', 'a + tid', 'b', 'c'][:1 + cfg['pool']['na']]), 'x = 0',
                 'for tid in range(%d):' % n, '    pool.join(tid)', '    x += pool.ret(tid)', 'for tid in range(%d):' % n, '    pool.reset(tid)'] + r('x'))
    if k == 'args':
        return r('base + off')
    return ['for w in range(c):', '    pass']


def childfun(name, na, dflt, gc):
    ps = [PN[k] if dflt[k] is None else '%s=%d' % (PN[k], dflt[k]) for k in range(na)]
    v = PN[:na]
    L = ['def %s(%s):' % (name, ', '.join(ps)), '    beg(%s)' % ', '.join(v + ['0'] * (3 - na)), '    wt()', '    for w in range(%s):' % ('%s & 7' % v[0] if v else '2'), '        pass', '    wt()']
    if gc:
        L += ['    gc.run(%s)' % (v[0] if v else '3'), '    gc.join()', '    g = gc.ret()', '    gc.reset()']
    L += ['    fin()', '    return 1%s%s' % (''.join(' + %d * %s' % (2 * k + 3, x) for k, x in enumerate(v)), ' + g' if gc else '')]
    return L


def build(cfg):
    L = [genmod.HEADER, 'def mk():', '    m = Module("dut")', '    clk = m.Input("CLK")', '    rst = m.Input("RST")']
    a = L.append
    nth = cfg['nth']
    K = kids(cfg)
    a('    R = {}')
    for i, (n, _, _) in enumerate(K):
        a('    R[%r] = [m.OutputReg("ca%d", 32, initval=0), m.OutputReg("cb%d", 32, initval=0), m.OutputReg("cc%d", 32, initval=0), m.OutputReg("cs%d", 32, initval=0), m.OutputReg("ce%d", 32, initval=0), m.Input("cst%d")]' % ((n,) + (i,) * 6))
    L += ['    ' + x for x in '''def beg(fsm, p, q, r):
    k = R[fsm.name]
    fsm(k[0](p), k[1](q), k[2](r), k[3].inc())
    fsm.goto_next()
    return 0
def fin(fsm):
    fsm(R[fsm.name][4].inc())
    fsm.goto_next()
    return 0
def wt(fsm):
    fsm.If(vtypes.Not(R[fsm.name][5])).goto_next()
    return 0'''.split('\n')]
    L[0] += 'import veriloggen.core.vtypes as vtypes\n'
    mod = lambda x: ', fsm_as_module=True' if x else ''
    if cfg['gc']:
        L += ['    ' + x for x in childfun('gcf', 1, [None], False)]
        a('    gc = vthread.Thread(m, "gc", clk, rst, gcf%s)' % mod(cfg['mod']))
        a('    gc.add_intrinsics(beg, fin, wt)')
    for c, d in enumerate(cfg['ch']):
        L += ['    ' + x for x in childfun('cf%d' % c, d['na'], d['dflt'], cfg['gc'] == c + 1)]
        a('    ch%d = vthread.Thread(m, "ch%d", clk, rst, cf%d%s)' % (c, c, c, mod(d['mod'])))
        a('    ch%d.add_intrinsics(beg, fin, wt)' % c)
        if d['owner'] is None:
            a('    mx%d = vthread.Mutex(m, "mx%d", clk, rst)' % (c, c))
    if cfg['pool']:
        p = cfg['pool']
        n = p['n']
        L += ['    ' + x for x in childfun('pf', p['na'], [None] * 3, False)]
        if p['kind'] == 'pool':
            a('    pool = vthread.ThreadPool(m, "po", clk, rst, pf, %d%s)' % (n, mod(p.get('mod'))))
        else:
            L += ['    ' + x for x in childfun('pf2', p['na'], [None] * 3, False)]
            a('    pool = vthread.to_thread_pool([vthread.Thread(m, "po_%%d" %% i, clk, rst, pf if i %% 2 else pf2) for i in range(%d)])' % n)
        a('    for x in pool.threads: x.add_intrinsics(beg, fin, wt)')
    for t in range(nth):
        L += ['    ' + x for x in opthread.decl(t)]
        st = [(c, stmt(cfg, s, t)) for c, s in enumerate(sites(cfg)) if s and allowed(cfg, s, t)]
        pre = ['while gate%d:' % t, '    pass']
        a('    gate%d = m.Input("gate%d")' % (t, t))
        L += ['    ' + x for x in opthread.worker(t, st, go=None, prologue=pre, params=cfg['wp'], prog=cfg.get('prog'))]
        s = opthread.start(t, cfg, mod(cfg['mod']))
        s[-1] = 'th%d.start(%s)' % (t, cfg['wa'])
        L += ['    ' + x for x in s]
    a('    return m')
    return genmod.load('\n'.join(L)).mk().to_verilog()


def tb(cfg):
    D, B, conn = [], [], ['.CLK(CLK)', '.RST(RST)']
    nth = cfg['nth']
    for t in range(nth):
        d, b, c = opthread.tb(t)
        D.append(d)
        B.append(b)
        conn += c + ['.gate%d(st[%d])' % (t, t)]
    for i, (n, _, _) in enumerate(kids(cfg)):
        D.append('wire [31:0] ca%d,cb%d,cc%d,cs%d,ce%d; reg [31:0] csp%d,cep%d; initial begin csp%d=0; cep%d=0; end' % ((i,) * 9))
        B.append('always @(posedge CLK) if(RST) begin csp%(i)d<=0; cep%(i)d<=0; end else begin csp%(i)d<=cs%(i)d; cep%(i)d<=ce%(i)d; '
                 'if(cs%(i)d!==csp%(i)d) $display("S %(i)d %%0d %%0d %%0d %%0d %%0d", cyc, cs%(i)d, ca%(i)d, cb%(i)d, cc%(i)d); '
                 'if(ce%(i)d!==cep%(i)d) $display("D %(i)d %%0d %%0d", cyc, ce%(i)d); end' % {'i': i})
        conn += ['.%s%d(%s%d)' % (x, i, x, i) for x in ('ca', 'cb', 'cc', 'cs', 'ce')] + ['.cst%d(st[%d])' % (i, 4 + i)]
    d, b = opthread.finish(nth, '1', 40)
    D.append(d)
    B.append(b)
    B.append('dut uut(%s);' % ', '.join(conn))
    return bfm.skeleton('\n'.join(B), '\n'.join(D), schlen=SCH)


def files(cfg, run, rd):
    ev = [{'bit': 31, 'at': 0, 'n': 4}] + [dict(e, at=e['at'] + R0) for e in run['sched']]
    core.write_hex(rd + '/sched.hex', core.expand_schedule(ev, SCH))
    p = [0] * 64
    p[0] = run['maxcyc']
    core.write_hex(rd + '/p.hex', p)
    opthread.write_ops(rd, run, cfg['nth'])


def gen_cfg(rng, i=0, style={}):
    nth = rng.choice([1, 1, 2, 3])
    ch = []
    for _ in range(rng.choice([0, 1, 1, 2, 3])):
        na = rng.randint(0, 3)
        nd = rng.randint(0, na) if rng.random() < 0.5 else 0
        dflt = [None] * (na - nd) + [rng.randint(0, 99) for _ in range(nd)]
        runs = []
        for _ in range(rng.choice([1, 2, 3])):
            npos = rng.randint(0, na)
            kw = [k for k in range(npos, na) if dflt[k] is None or rng.random() < 0.5]
            rng.shuffle(kw)
            runs.append([npos, kw])
        ch.append({'na': na, 'dflt': dflt + [None] * (3 - na), 'runs': runs, 'mod': int(rng.random() < 0.15),
                   'owner': rng.randrange(nth) if nth == 1 or rng.random() < 0.6 else None})
    pool = None
    if not ch or rng.random() < 0.4:
        pool = {'n': rng.choice([1, 2, 3, 4]), 'na': rng.randint(0, 3), 'kind': rng.choice(['pool', 'pool', 'to']), 'mod': int(rng.random() < 0.2)}
    wp, wa = rng.choice([('base, off', '3, 4'), ('base, off=9', '5'), ('base, off=9', 'base=6, off=8'), ('base=1, off=2', 'off=7'), ('base, off', '2, off=1')])
    gc = rng.randint(1, len(ch)) if ch and rng.random() < 0.3 else 0
    return {'nth': nth, 'ch': ch, 'pool': pool, 'powner': rng.randrange(nth), 'gc': gc, 'mod': int(pool is None and rng.random() < 0.2), 'wp': wp, 'wa': wa}


def base_off(cfg):
    d = {}
    exec('def f(%s): return base + off\nx = f(%s)' % (cfg['wp'], cfg['wa']), d)
    return d['x']


class Life:
    """what the parents of a run may do next"""

    def __init__(self, cfg):
        self.c = ['idle'] * len(cfg['ch'])
        self.p = ['idle'] * (cfg['pool']['n'] if cfg['pool'] else 0)

    def legal(self, cfg, s, o):
        k = s['t']
        if k in ('args', 'delay', 'mx'):
            return True
        if k == 'pall':
            return all(x == 'idle' for x in self.p)
        if k[0] == 'p':
            arr, i = self.p, o.get('d', 0)
            if i >= len(arr):
                return False
            k = k[1:]
        else:
            arr, i = self.c, s['c']
        x = arr[i]
        if k == 'run':
            if x != 'idle':
                return False
            arr[i] = 'running'
        elif k in ('all', 'rr'):
            return x == 'idle'
        elif k == 'join':
            if x == 'idle':
                return False
            arr[i] = 'done'
        elif k == 'done':
            return True
        elif k == 'ret':
            return x == 'done'
        elif k == 'reset':
            if x == 'running':
                return False
            arr[i] = 'idle'
        elif k == 'creset':
            if x == 'running':
                return False
            if o['d']:
                arr[i] = 'idle'
        return True


def gen_run(cfg, rng, style):
    S = sites(cfg)
    ops = []
    for t in range(cfg['nth']):
        W = []
        for c, s in enumerate(S):
            if s and allowed(cfg, s, t):
                W.append((c, s, {'run': 6, 'join': 5, 'done': 3, 'ret': 3, 'reset': 5, 'creset': 3, 'all': 2, 'rr': 1, 'mx': 4, 'prun': 9, 'pjoin': 8, 'pdone': 4, 'pret': 5, 'preset': 8, 'pall': 1,
                                 'args': 0.3, 'delay': 2}[s['t']]))
        lf = Life(cfg)
        ran = set()
        n = 0
        want = rng.choice([3, 8, 20, 40])
        for _ in range(300):
            if n >= want:
                break
            c, s, _w = rng.choices(W, [w for _, _, w in W])[0]
            o = {'k': c, 'a': rng.choice([0, 1, 5, rng.randint(0, 31), rng.getrandbits(16)]), 'b': rng.randint(0, 255), 'c': rng.randint(0, 9), 'd': 0, 'e': 0, 'th': t}
            if s['t'][0] == 'p' and cfg['pool']:
                o['d'] = rng.randrange(cfg['pool']['n'])
            elif s['t'] == 'creset':
                o['d'] = rng.randint(0, 1)
            key = 'p' if s['t'][0] == 'p' else s.get('c')
            if style.get('lin') and key is not None and key not in ran and s['t'] not in ('run', 'all', 'rr', 'mx', 'prun', 'pall'):
                continue
            if lf.legal(cfg, s, o):
                ran.add(key)
                ops.append(o)
                n += 1
    hor = rng.choice([60, 200, 600])
    chans = [('parent%d_stall' % t, t) for t in range(cfg['nth'])] + [('child_stall', 4 + i) for i in range(len(kids(cfg)))]
    sched = [] if rng.random() < 0.1 else core.gen_stalls(rng, chans, hor)
    if style.get('reset'):
        for _ in range(rng.choice([1, 1, 2])):
            sched.append({'k': 'reset', 'bit': 31, 'at': rng.randrange(0, rng.choice([30, 100, 300])), 'n': rng.choice([1, 1, 2, 5])})
    return {'ops': ops, 'sched': sched, 'maxcyc': SCH + 3000 + 120 * len(ops)}


def normalise(cfg, run):
    S = sites(cfg)
    for t in range(cfg['nth']):
        lf = Life(cfg)
        for o in run['ops']:
            if o['th'] == t and not lf.legal(cfg, S[o['k']], o):
                return None
    return run


def lin_ok(cfg, run):
    """in the program text, a run of a thread comes before its other operations"""
    S = sites(cfg)
    ran = set()
    for t in range(cfg['nth']):
        for o in run['ops']:
            if o['th'] != t:
                continue
            s = S[o['k']]
            k = 'p' if s['t'][0] == 'p' else s.get('c')
            if s['t'] in ('run', 'all', 'rr', 'mx', 'prun', 'pall'):
                ran.add(k)
            elif k is not None and k not in ran:
                return False
    return True


def check(cfg, run, log):
    viols = []
    has_reset = any(e['bit'] == 31 for e in run['sched'])

    def add(cls, msg):
        viols.append(V(cls, msg, props=['C12'] + (['C25'] if has_reset else [])))
    S = sites(cfg)
    nth = cfg['nth']
    K = kids(cfg)
    H = opthread.Hist(nth, cfg.get('prog'))
    st = [[] for _ in K]        # (cycle, a, b, c)
    en = [[] for _ in K]
    for line in log.split('\n'):
        p = line.split()
        if not p:
            continue
        if p[0] == 'RESET':
            st = [[] for _ in K]
            en = [[] for _ in K]
        if H.feed(p):
            continue
        if p[0] in 'SD' and not p[3].isdigit():
            continue        # a child that no operation ever runs
        if p[0] == 'S':
            st[int(p[1])].append((int(p[2]),) + tuple(opthread.num(x, 10) for x in p[4:7]))
            H.order.append('s' + p[1])
        elif p[0] == 'D':
            en[int(p[1])].append(int(p[2]))
            H.order.append('d' + p[1])
    endc = abs(H.end) if H.end else run['maxcyc']
    gi = len(K) - 1
    ops = {t: [o for o in run['ops'] if o['th'] == t] for t in range(nth)}
    if not H.ok:
        add('no-completion', 'no completion by cycle %d: %s' % (run['maxcyc'], {
            t: S[ops[t][max([0] + list(H.began[t]))]['k'] if False else ops[t][max([0] + list(H.began[t]))]['k']] if ops[t] and max([0] + list(H.began[t])) < len(ops[t]) else 'end' for t in range(nth)}))
    nrun = [0] * len(K)         # runs requested, per child owned by one parent
    cur = {}                    # child -> index of its current run
    exp = [[] for _ in K]       # expected arguments
    mxs = {}                    # shared children: calls (begin, end, args, result)
    first = len(cfg['ch'])
    ingc = cfg['gc'] - 1

    def res_of(k, v):
        x = result(v)
        if k == ingc and cfg['gc']:
            x = (x + result([v[0] if v else 3])) & 0xffffffff
        return x

    def want(k, i, v, b, e, what):
        """run i of child k was requested with v between b and e"""
        exp[k].append(v)
        if i < len(st[k]):
            s = st[k][i]
            if tuple(s[1:1 + len(v)]) != tuple(v):
                add('wrong-arguments', '%s: run %d of %s saw %s, passed %s' % (what, i, K[k][0], s[1:1 + len(v)], v))
            if s[0] < b:
                add('early-start', '%s: run %d of %s began at %d, requested after %d' % (what, i, K[k][0], s[0], b))
            if e is not None and s[0] > e + SLACK:
                add('late-start', '%s: run %d of %s began at %d, requested by %d' % (what, i, K[k][0], s[0], e))

    def fin(k, i):
        return en[k][i] if i < len(en[k]) else None

    for t in range(nth):
        ev = H.evs[t]
        n = 0
        slack = SLACK + (0 if cfg.get('prog') else 3 * len(S))
        for i, o in enumerate(ops[t]):
            s = S[o['k']]
            k = s['t']
            b = H.began[t].get(i, H.t_reset if i == 0 else None)
            if b is None:
                break
            if k == 'delay':
                continue
            e = ev[n] if n < len(ev) else None
            n += 1
            ec = e[0] if e else None
            val = opthread.num(e[1]) & 0xffffffff if e and opthread.num(e[1]) >= 0 else None
            what = 'thread %d op %d' % (t, i)
            if k == 'args':
                if e and val != base_off(cfg):
                    add('wrong-arguments', '%s: start arguments give %s instead of %d' % (what, e[1], base_off(cfg)))
                continue
            if k == 'mx':
                d = cfg['ch'][s['c']]
                mxs.setdefault(s['c'], []).append((b, ec, [o[x] for x in AV[:d['na']]], val, what))
                continue
            if k == 'pall':
                tot = 0
                for x in range(cfg['pool']['n']):
                    c = first + x
                    v = [(o['a'] + x), o['b'], o['c']][:cfg['pool']['na']]
                    want(c, nrun[c], v, b, None, what)
                    f = fin(c, nrun[c])
                    if e and (f is None or f > ec):
                        add('early-join', '%s: finished at %s before pool thread %d (%s)' % (what, ec, x, f))
                    nrun[c] += 1
                    cur[c] = None
                    tot += res_of(c, v)
                if e and val != tot & 0xffffffff:
                    add('wrong-result', '%s: pool results sum to %s instead of %d' % (what, val, tot & 0xffffffff))
                continue
            if k[0] == 'p':
                c = first + o['d']
                d = {'na': cfg['pool']['na'], 'dflt': [0] * 3}
                v = [o[x] for x in AV[:d['na']]]
                k = k[1:]
            else:
                c = s['c']
                d = cfg['ch'][c]
                v = argvals(d, s['np'], s['kw'], o) if k == 'run' else [o[x] for x in AV[:d['na']]]
            if k == 'run':
                want(c, nrun[c], v, b, ec, what)
                cur[c] = (nrun[c], v)
                nrun[c] += 1
            elif k in ('all', 'rr'):
                tot = 0
                for _ in range(2 if k == 'rr' else 1):
                    want(c, nrun[c], v, b, None, what)
                    f = fin(c, nrun[c])
                    if e and (f is None or f > ec):
                        add('early-join', '%s: finished at %s before the child (%s)' % (what, ec, f))
                    nrun[c] += 1
                    tot += res_of(c, v)
                if e and val != tot & 0xffffffff:
                    add('wrong-result', '%s: got %s instead of %d' % (what, val, tot & 0xffffffff))
                cur[c] = None
            elif k == 'join':
                if cur.get(c) is None:
                    continue
                f = fin(c, cur[c][0])
                if e and (f is None or f > ec):
                    add('early-join', '%s: join of %s returned at %d, the run ends at %s' % (what, K[c][0], ec, f))
                if f is not None and (ec or endc) > max(b, f) + slack:
                    add('late-join', '%s: join of %s returned at %s, the run ended at %d' % (what, K[c][0], ec, f))
            elif k == 'done':
                if e is None:
                    continue
                f = fin(c, cur[c][0]) if cur.get(c) else None
                if val not in (0, 1):
                    add('undefined-done', '%s: done gives %s' % (what, e[1]))
                elif val == 1 and (f is None or f > ec):
                    add('early-done', '%s: done of %s is true at %d, the run ends at %s' % (what, K[c][0], ec, f))
                elif val == 0 and f is not None and f + SLACK < b:
                    add('late-done', '%s: done of %s is false in [%d,%d], the run ended at %d' % (what, K[c][0], b, ec, f))
            elif k == 'ret':
                if e and val != res_of(c, cur[c][1]):
                    add('wrong-result', '%s: ret of %s is %s instead of %d' % (what, K[c][0], e[1], res_of(c, cur[c][1])))
            elif k == 'reset' or (k == 'creset' and o['d']):
                cur[c] = None
    for c, calls in mxs.items():
        nrun[c] = len(calls)
        # serialised by the mutex: match starts to calls
        todo = sorted(calls, key=lambda x: x[1] if x[1] is not None else 1 << 60)
        for i, (b, ec, v, val, what) in enumerate(todo):
            if i < len(st[c]) and tuple(st[c][i][1:1 + len(v)]) != tuple(v):
                add('wrong-arguments', '%s: run %d of %s saw %s, passed %s' % (what, i, K[c][0], st[c][i][1:], v))
            if ec is not None:
                f = fin(c, i)
                if f is None or f > ec:
                    add('early-join', '%s: finished at %s before the child (%s)' % (what, ec, f))
                if val != res_of(c, v):
                    add('wrong-result', '%s: got %s instead of %d' % (what, val, res_of(c, v)))
    open_ = [int(cur.get(k) is not None) for k in range(len(K))]      # the last run was never waited for
    for k in range(len(K)):
        lazy = open_[k]
        if cfg['gc'] and k == gi:
            nrun[k] = len(st[ingc])
            lazy = open_[ingc]
            got, exp_ = [x[1] for x in st[k]], [x[1] if cfg['ch'][ingc]['na'] else 3 for x in st[ingc]]
            if H.ok and (got != exp_[:len(got)] or len(got) < len(exp_) - lazy):
                add('wrong-arguments', 'runs of the grandchild %s, of the child %s' % (st[k], st[ingc]))
        if len(st[k]) > nrun[k] or (H.ok and (len(st[k]) < nrun[k] - (lazy if cfg['gc'] and k == gi else 0) or not nrun[k] - lazy <= len(en[k]) <= nrun[k])):
            add('run-count', '%s was run %d times, started %d and finished %d times' % (K[k][0], nrun[k], len(st[k]), len(en[k])))
    fl = opthread.fired(run, endc, R0)
    return viols, opthread.stats(log, H, run, endc, H.order, fl, {'runs_of_children': sum(map(len, st)), 'shared_child_calls': sum(map(len, mxs.values())),
                                                                  'pool_runs': sum(len(st[k]) for k in range(len(K)) if K[k][1] == 'p')})
