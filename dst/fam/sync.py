"""Mutexes and barriers among threads (vthread.Mutex/Lock/Barrier and the lock
methods of RAM, FIFO and Shared)."""
from .. import bfm, core, genmod, opthread
from ..core import V

SCH = 2048
R0 = 6
KINDS = ('Mutex', 'Lock', 'ram', 'fifo', 'shared')
MINIMISE = ('sched', 'ops')
LIN_VARY = ('sched',)
GAP = 16        # cycles a wanted lock may stay free


def sites(cfg):
    S = [None]
    for j, k in enumerate(cfg['mx']):
        for t in ('lock', 'try', 'unlock', 'inc', 'cs', 'xul') + (('acq', 'acqn', 'rel') if k in ('Mutex', 'Lock') else ()):
            S.append({'t': t, 'j': j})
    for j in range(len(cfg['bars'])):
        S.append({'t': 'bar', 'j': j})
    S += [{'t': 'gate'}, {'t': 'delay'}]
    return S


def stmt(cfg, s, t):
    k, j = s['t'], s.get('j')
    r = lambda e: opthread.ret(t, e)
    mx = 'mx%s' % j
    got = ['hold%d_%d(1)' % (t, j)] if j is not None else []
    rel = ['hold%d_%d(0)' % (t, j)] if j is not None else []

    def ind(x):
        return ['    ' + y for y in x]
    if k in ('lock', 'acq'):
        return [mx + ('.lock()' if k == 'lock' else '.acquire()')] + got + ['hq%d = 1' % j] + r('1')
    if k in ('try', 'acqn'):
        return ['q = ' + mx + ('.try_lock()' if k == 'try' else '.acquire(blocking=False)'), 'if q:'] + ind(got + ['hq%d = 1' % j]) + r('q')
    if k in ('unlock', 'rel'):
        return ['if hq%d == 1:' % j] + ind(['hq%d = 0' % j] + rel + [mx + ('.unlock()' if k == 'unlock' else '.release()')] + r('2'))
    if k == 'xul':  # a release by a thread that does not hold the lock has no effect
        return ['if hq%d == 0:' % j] + ind([mx + '.unlock()'] + r('3'))
    if k == 'inc':
        return ['if hq%d == 1:' % j] + ind(['x = cnt%d.read()' % j, 'for w in range(c):', '    pass', 'cnt%d.write(x + 1)' % j] + r('x + 4096'))
    if k == 'cs':
        return [mx + '.lock()'] + got + ['x = cnt%d.read()' % j, 'cnt%d.write(x + 1)' % j] + rel + [mx + '.unlock()'] + r('x + 4096')
    if k == 'bar':
        return r('7') + ['bar%d.wait()' % j] + r('8')
    if k == 'gate':
        return ['while stall%d:' % t, '    pass']
    return ['for w in range(c):', '    pass']


def allowed(cfg, s, t):
    return s['t'] != 'bar' or t in cfg['bars'][s['j']]


def build(cfg):
    L = [genmod.HEADER, 'def mk():', '    m = Module("dut")', '    clk = m.Input("CLK")', '    rst = m.Input("RST")']
    a = L.append
    nth = cfg['nth']
    for j, k in enumerate(cfg['mx']):
        a('    cr%d = m.Reg("cr%d", 32, initval=0)' % (j, j))
        a('    cnt%d = vthread.Shared(cr%d)' % (j, j))
        a('    co%d = m.Output("co%d", 32)' % (j, j))
        a('    co%d.assign(cr%d)' % (j, j))
        if k in ('Mutex', 'Lock'):
            a('    mx%d = vthread.%s(m, "mx%d", clk, rst%s)' % (j, k, j, ', width=%d' % cfg['mw'] if cfg['mw'] else ''))
        elif k == 'ram':
            a('    mx%d = vthread.RAM(m, "mx%d", clk, rst, 32, 4)' % (j, j))
        elif k == 'fifo':
            a('    mx%d = vthread.FIFO(m, "mx%d", clk, rst, 32, 4)' % (j, j))
        else:
            a('    mx%d = cnt%d' % (j, j))
    for j, p in enumerate(cfg['bars']):
        a('    bar%d = vthread.Barrier(m, "bar%d", clk, rst, %d)' % (j, j, len(p)))
    for t in range(nth):
        L += ['    ' + x for x in opthread.decl(t)]
        a('    stall%d = m.Input("stall%d")' % (t, t))
        for j in range(len(cfg['mx'])):
            a('    ho%d_%d = m.OutputReg("ho%d_%d", initval=0)' % (t, j, t, j))
            a('    def hold%d_%d(fsm, v):' % (t, j))
            a('        fsm(ho%d_%d(v))' % (t, j))
        st = [(c, stmt(cfg, s, t)) for c, s in enumerate(sites(cfg)) if s and allowed(cfg, s, t)]
        L += ['    ' + x for x in opthread.worker(t, st, go=None, prologue=['hq%d = 0' % j for j in range(len(cfg['mx']))] + ['hold%d_%d(0)' % (t, j) for j in range(len(cfg['mx']))],
                                                  prog=cfg.get('prog'))]
        st = opthread.start(t, cfg, ', fsm_as_module=True' if cfg['asmod'] else '')
        st.insert(1, 'th%d.add_intrinsics(%s)' % (t, ', '.join('hold%d_%d' % (t, j) for j in range(len(cfg['mx'])))))
        L += ['    ' + x for x in st]
    a('    return m')
    return genmod.load('\n'.join(L)).mk().to_verilog()


def tb(cfg):
    D, B, conn = [], [], ['.CLK(CLK)', '.RST(RST)']
    nth = cfg['nth']
    for t in range(nth):
        d, b, c = opthread.tb(t)
        D.append(d)
        B.append(b)
        conn += c + ['.stall%d(st[%d])' % (t, t)]
    for j in range(len(cfg['mx'])):
        D.append('wire [31:0] co%d; wire [%d:0] hv%d; reg [%d:0] hp%d; initial hp%d=0;' % (j, nth - 1, j, nth - 1, j, j))
        conn.append('.co%d(co%d)' % (j, j))
        for t in range(nth):
            conn.append('.ho%d_%d(hv%d[%d])' % (t, j, j, t))
        B.append('always @(posedge CLK) if(RST) hp%(j)d <= 0; else begin hp%(j)d <= hv%(j)d; '
                 'if(hv%(j)d !== hp%(j)d) $display("HV %(j)d %%0d %%b", cyc, hv%(j)d); '
                 'if((hv%(j)d & (hv%(j)d - 1)) !== 0) $display("OVL %(j)d %%0d %%b", cyc, hv%(j)d); end' % {'j': j})
    d, b = opthread.finish(nth, '1', 30)
    D.append(d)
    B.append(b)
    B.append('always @(posedge CLK) if(dr==20) begin %s end' % ' '.join('$display("CNT %d %%0d", co%d);' % (j, j) for j in range(len(cfg['mx']))))
    B.append('dut uut(%s);' % ', '.join(conn))
    return bfm.skeleton('\n'.join(B), '\n'.join(D), schlen=SCH)


def files(cfg, run, rd):
    ev = [{'bit': 31, 'at': 0, 'n': 4}] + [dict(e, at=e['at'] + R0) for e in run['sched']]
    core.write_hex(rd + '/sched.hex', core.expand_schedule(ev, SCH))
    p = [0] * 64
    p[0] = run['maxcyc']
    core.write_hex(rd + '/p.hex', p)
    opthread.write_ops(rd, run, cfg['nth'])


def gen_cfg(rng, i=0, style={}):
    f = style.get('focus') or rng.choice(['m', 'm', 'b', 'mb'])
    nth = rng.randint(2, 6) if f != 'b' or rng.random() < 0.9 else 1
    mx = [rng.choice(KINDS) for _ in range(rng.choice([1, 1, 2, 3]) if 'm' in f else 1)]
    bars = []
    if 'b' in f:
        for _ in range(rng.choice([1, 1, 2, 3])):
            if rng.random() < 0.6:
                bars.append(list(range(nth)))
            else:
                bars.append(sorted(rng.sample(range(nth), rng.randint(1, nth))))
    return {'nth': nth, 'mx': mx, 'bars': bars, 'mw': rng.choice([0, 0, nth.bit_length(), nth.bit_length() + 1]), 'asmod': int(rng.random() < 0.15)}


def gen_run(cfg, rng, style):
    S = sites(cfg)
    nth = cfg['nth']
    code = {(s['t'], s.get('j')): c for c, s in enumerate(S) if s}
    phases = []
    for j in range(len(cfg['bars'])):
        phases += [j] * rng.randint(1, 6)
    rng.shuffle(phases)
    ops = []
    for t in range(nth):
        mine = [j for j in phases if t in cfg['bars'][j]]
        held = []
        o = []

        def add(k, j=None, c=0):
            if (k, j) in code:
                o.append({'k': code[(k, j)], 'a': 0, 'b': 0, 'c': c, 'd': 0, 'e': 0, 'th': t})

        def unlock():
            j = held.pop(rng.randrange(len(held)))
            add('rel' if ('rel', j) in code and rng.random() < 0.4 else 'unlock', j)
        plan = []
        for j in mine:
            plan += [None] * rng.choice([0, 0, 1, 3]) + [j]
        plan += [None] * rng.choice([1, 3, 8, 14] if not cfg['bars'] else [0, 1, 3])
        for x in plan:
            if len(o) > 44:
                break
            if x is not None:
                while held:
                    unlock()
                add('bar', x)
                continue
            u = rng.random()
            j = rng.randrange(len(cfg['mx']))
            if u < 0.12:
                add('gate')
            elif u < 0.22:
                add('delay', c=rng.randint(0, 12))
            elif u < 0.4 and not any(h >= j for h in held):
                add('cs', j)
            elif u < 0.55 and not any(h >= j for h in held):
                add('acq' if ('acq', j) in code and rng.random() < 0.4 else 'lock', j)
                held.append(j)
            elif u < 0.72 and j not in held:
                add('acqn' if ('acqn', j) in code and rng.random() < 0.4 else 'try', j)
                held.append(j)
            elif u < 0.77 and j not in held:
                add('xul', j)
            elif u < 0.88 and held:
                add('inc', rng.choice(held), rng.choice([0, 0, 1, 3]))
            elif held:
                unlock()
        while held:
            unlock()
        ops += o
    # every thread must reach the barriers of the others: cut to the same number of rounds
    ops = balance(cfg, ops)
    hor = rng.choice([60, 200, 500])
    sched = [] if rng.random() < 0.1 else core.gen_stalls(rng, [('thread%d_stall' % t, t) for t in range(nth)], hor)
    if style.get('reset'):
        for _ in range(rng.choice([1, 1, 2])):
            sched.append({'k': 'reset', 'bit': 31, 'at': rng.randrange(0, rng.choice([30, 100, 300])), 'n': rng.choice([1, 1, 2, 5])})
    return {'ops': ops, 'sched': sched, 'maxcyc': SCH + 3000 + 60 * len(ops)}


def balance(cfg, ops):
    """Make the barrier calls match: every participant performs the same sequence of common barriers."""
    S = sites(cfg)
    if not cfg['bars']:
        return ops
    per = {t: [o for o in ops if o['th'] == t] for t in range(cfg['nth'])}
    # simulate the rendezvous; drop the barrier calls that can never complete
    pos = {t: 0 for t in per}
    keep = {t: [] for t in per}
    def isbar(o):
        return S[o['k']]['t'] == 'bar'
    while True:
        for t in per:
            while pos[t] < len(per[t]) and not isbar(per[t][pos[t]]):
                keep[t].append(per[t][pos[t]])
                pos[t] += 1
        at = {t: S[per[t][pos[t]]['k']]['j'] for t in per if pos[t] < len(per[t])}
        if not at:
            break
        ready = [j for j, p in enumerate(cfg['bars']) if all(at.get(t) == j for t in p)]
        if ready:
            for j in ready:
                for t in cfg['bars'][j]:
                    keep[t].append(per[t][pos[t]])
                    pos[t] += 1
        else:
            # stuck: the first thread's call is removed
            t = min(at)
            pos[t] += 1
    return [o for t in sorted(keep) for o in keep[t]]


def normalise(cfg, run):
    """well-formed programs: balanced barriers, ordered lock acquisition, no barrier or end while holding"""
    S = sites(cfg)
    out = []
    for t in range(cfg['nth']):
        held = set()
        for o in run['ops']:
            if o['th'] != t:
                continue
            s = S[o['k']]
            k, j = s['t'], s.get('j')
            if k in ('lock', 'acq', 'cs'):
                if any(h >= j for h in held):
                    return None
                if k != 'cs':
                    held.add(j)
            elif k in ('try', 'acqn'):
                if j in held:
                    return None
                held.add(j)
            elif k in ('unlock', 'rel'):
                held.discard(j)
            elif k == 'bar' and held:
                return None
            out.append(o)
        if held:
            return None
    return dict(run, ops=balance(cfg, out))


def check(cfg, run, log):
    viols = []
    has_reset = any(e['bit'] == 31 for e in run['sched'])

    def add(pid, cls, msg):
        viols.append(V(cls, msg, props=([pid] if isinstance(pid, str) else pid) + (['C25'] if has_reset else [])))

    S = sites(cfg)
    nth = cfg['nth']
    H = opthread.Hist(nth, cfg.get('prog'))
    hv = {j: [] for j in range(len(cfg['mx']))}
    cnt = {}
    for line in log.split('\n'):
        p = line.split()
        if not p:
            continue
        if p[0] == 'RESET':
            for x in hv.values():
                del x[:]
        if H.feed(p):
            continue
        if p[0] == 'OVL':
            add('C10', 'mutual-exclusion', 'mutex %s (%s) at cycle %s: holders %s' % (p[1], cfg['mx'][int(p[1])], p[2], p[3]))
        elif p[0] == 'HV':
            hv[int(p[1])].append((int(p[2]), p[3]))
            H.order.append('h' + p[1] + p[3])
        elif p[0] == 'CNT':
            cnt[int(p[1])] = int(p[2]) if p[2].isdigit() else -1
    endc = abs(H.end) if H.end else run['maxcyc']
    ops = {t: [o for o in run['ops'] if o['th'] == t] for t in range(nth)}
    if not H.ok:
        where = {t: (max([0] + list(H.began[t])), len(ops[t])) for t in range(nth)}
        stuck = [S[ops[t][w]['k']]['t'] for t, (w, n) in where.items() if w < n]
        only_bar = stuck and all(x == 'bar' for x in stuck)
        add(['C11'] if only_bar else ['C10', 'C11'] if 'bar' in stuck else ['C10'], 'deadlock',
            'no completion by cycle %d: threads at %s, blocked in %s' % (run['maxcyc'], where, stuck))
    incs = {j: [] for j in hv}
    own = {j: [] for j in hv}           # (thread, from, to) possible ownership
    tries = []
    acq = []                            # (thread, mutex, begin, end)
    rounds = {}
    nb = {}
    for t in range(nth):
        ev = H.evs[t]
        en = 0
        since = {}
        broken = False
        for i, o in enumerate(ops[t]):
            s = S[o['k']]
            k, j = s['t'], s.get('j')
            b = H.began[t].get(i, H.t_reset if i == 0 else None)
            if b is None:
                break

            def nxt():
                return ev[en] if en < len(ev) else None
            if k in ('gate', 'delay'):
                continue
            if k in ('unlock', 'rel', 'inc') and j not in since:
                continue
            if k == 'xul' and j in since:
                continue
            if k == 'bar':
                e = nxt()
                if e is None:
                    break
                en += 1
                r = nb.get((t, j), 0)
                nb[(t, j)] = r + 1
                d = rounds.setdefault((j, r), {})
                d[t] = [e[0], None]
                e = nxt()
                if e is None:
                    break
                en += 1
                d[t][1] = e[0]
                continue
            e = nxt()
            if e is None:
                if k in ('lock', 'acq', 'cs'):
                    own[j].append((t, b, endc))
                    acq.append((t, j, b, None))
                break
            en += 1
            v = opthread.num(e[1])
            if k in ('lock', 'acq'):
                since[j] = b
                acq.append((t, j, b, e[0]))
            elif k == 'cs':
                own[j].append((t, b, e[0]))
                incs[j].append(v - 4096)
                acq.append((t, j, b, e[0]))
            elif k in ('try', 'acqn'):
                if v == 1:
                    since[j] = b
                elif v == 0:
                    tries.append((t, j, b, e[0]))
                else:
                    add('C10', 'undefined-result', 'try_lock of thread %d returned %s' % (t, e[1]))
            elif k in ('unlock', 'rel'):
                own[j].append((t, since.pop(j), e[0]))
            elif k == 'xul':
                own[j].append((t, b, e[0]))     # a competing attempt in the same cycle may be refused
            elif k == 'inc':
                incs[j].append(v - 4096)
        for j, b in since.items():
            own[j].append((t, b, endc))
    for j in incs:
        if H.ok and (sorted(incs[j]) != list(range(len(incs[j]))) or (cnt.get(j) != len(incs[j]) and not (cnt.get(j) == -1 and not incs[j]))):
            add('C10', 'lost-update', 'counter %d under mutex %s: values %s, final %s' % (j, cfg['mx'][j], sorted(incs[j]), cnt.get(j)))
    for (t, j, b, e) in tries:
        if not any(x != t and s <= e and f >= b for (x, s, f) in own[j]):
            add('C10', 'spurious-failure', 'try_lock of mutex %d by thread %d failed in [%d,%d] although nobody used it: %s' % (j, t, b, e, own[j]))
    # a wanted lock does not stay free
    gap = GAP if cfg.get('prog') else GAP + 24 + 3 * len(S)
    for (t, j, b, e) in acq:
        up = [(c, x) for (c, x) in hv[j]]
        lim = e if e is not None else endc
        free = b
        holder = '0' * nth
        for (c, x) in up + [(lim, None)]:
            if c > lim:
                c = lim
            if '1' not in holder and c > b and c - max(free, b) > gap:
                add('C10', 'not-progressing', 'mutex %d wanted by thread %d stayed free from %d to %d' % (j, t, max(free, b), c))
                break
            if c >= lim:
                break
            if x is not None:
                if '1' in holder and '1' not in x:
                    free = c
                holder = x
    for (j, r), d in sorted(rounds.items()):
        n = len(cfg['bars'][j])
        arr = [x[0] for x in d.values()]
        for t, (a0, p0) in d.items():
            if p0 is None:
                continue
            if len(d) < n or p0 <= max(arr):
                add('C11', 'early-release', 'barrier %d round %d: thread %d passed at %d, arrivals %s of %d' % (j, r, t, p0, {x: y[0] for x, y in d.items()}, n))
                break
            if p0 > max(arr) + 12 * n + 12:
                add('C11', 'late-release', 'barrier %d round %d: thread %d passed at %d, last arrival %d' % (j, r, t, p0, max(arr)))
                break
    fl = opthread.fired(run, endc, R0)
    contended = sum(1 for (t, j, b, e) in acq if any(x != t and s <= (e or endc) and f >= b for (x, s, f) in own[j]))
    return viols, opthread.stats(log, H, run, endc, H.order, fl, {
        'acquisitions': len(acq), 'contended': contended, 'failed_tries': len(tries), 'barrier_rounds': len(rounds)})
