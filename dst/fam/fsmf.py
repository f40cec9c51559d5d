"""DUT family: FSMs from random scripts of the public API, checked cycle by cycle."""
from .. import core, ct, ex, genmod
from .seqf import conj, pexpr

SCH = ct.SCH
MINIMISE = ('sched', 'stim')


def target(op):
    t = op.get('tg')
    if t is None:
        return 'fs'
    if t[0] == 'when':
        return 'fs.When(%d)' % t[1]
    return 'S%d' % t[1]


def chain_src(op, q):
    cs = [ex.src(c) for c in op.get('c', ())]
    k = op['ch']
    if k == 'if':
        return q + (''.join('.If(%s)' % c for c in cs) if op.get('how') == 'nest' else '.If(%s)' % ', '.join(cs))
    if k == 'elif':
        return '%s.Elif(%s)' % (q, ', '.join(cs))
    if k == 'else':
        return q + '.Else'
    if k == 'then':
        return q + '.Then()'
    return q


def build(cfg):
    L = [genmod.HEADER, 'from veriloggen.core import vtypes', 'def mk():', '    m = Module("dut")', '    clk = m.Input("CLK")', '    rst = m.Input("RST")']
    a = lambda s: L.append('    ' + s)
    for n, w in cfg['inputs']:
        a('%s = m.Input("%s", %s)' % (n, n, w if w > 1 else None))
    for n, w, init in cfg['regs']:
        a('%s = m.%s("%s", %s, initval=%s)' % (n, 'OutputReg' if n in cfg['outs'] else 'Reg', n, w if w > 1 else None,
                                               init if n not in cfg['lp'] else 'm.Localparam("LP_%s", %d, %d)' % (n, init, w)))
    for x in ct.arr_src(cfg['arr']) if cfg.get('arr') else ():
        a(x)
    a('fs = FSM(m, "fs", clk, rst%s)' % (', as_module=True' if cfg['mod'] else ', nohook=True' if cfg['make'] != 'hook' else ''))
    a('stt = fs.state')
    st = {}
    for op in cfg['script']:
        k = op['k']
        t = op.get('tg')
        if t and t[0] == 'state' and t[1] not in st:
            st[t[1]] = 1
            a('S%d = fs.State(%d)' % (t[1], t[1]))
        if k == 'prev':
            a('%s = fs.Prev(%s, %d%s%s)' % (op['name'], ex.src(op['e']), op['n'], ', initval=%d' % op['init'] if op['init'] else '', ', cond=' + ex.src(op['pc']) if op.get('pc') else ''))
        elif k == 'act':
            a(ct.call(chain_src(op, target(op)), op))
        elif k == 'seq':
            a(ct.call(chain_src(op, 'fs.%s' % op['alias']), op))
        elif k == 'inc':
            a('fs.inc()')
        elif k == 'set':
            a('fs.set_index(%d)' % op['i'])
        else:
            args = []
            if k in ('goto', 'from'):
                args.append(str(op['dst']))
            if k == 'from':
                args.insert(0, str(op['src']))
            if op.get('arg') is not None:
                args.append('cond=' + ex.src(op['arg']))
            if op.get('els') is not None:
                args.append('else_dst=%d' % op['els'])
            meth = {'goto': 'goto', 'from': 'goto_from', 'next': 'goto_next', 'init': 'goto_init'}[k]
            a('%s.%s(%s)' % (chain_src(op, target(op)), meth, ', '.join(args)))
    if cfg['make'] == 'if':
        a('fs.make_always(case=False)')
    elif cfg['make'] == 'call':
        a('fs.make_always()')
    ws = widths(cfg)
    for op in cfg['script']:
        if op['k'] == 'prev':
            w = ws[op['name']]
            a('m.Wire("w%s", %s).assign(%s)' % (op['name'], w if w > 1 else None, op['name']))
    a('return m')
    return genmod.load('\n'.join(L)).mk().to_verilog()


def widths(cfg):
    ws = {n: w for n, w, *_ in cfg['regs'] + cfg['inputs']}
    if cfg.get('arr'):
        ws['ar0'] = cfg['arr']['w']
    ws['stt'] = 32
    for op in cfg['script']:
        if op['k'] == 'prev':
            ws[op['name']] = ex.width(op['e'], ws)
    return ws


def obs(cfg):
    ws = widths(cfg)
    return [('fs', 32)] + [(n, w) for n, w, _ in cfg['regs']] + [('w' + op['name'], ws[op['name']]) for op in cfg['script'] if op['k'] == 'prev']


def tb(cfg):
    return ct.tb(cfg['inputs'], obs(cfg))


def gen_cfg(rng, i=0, style={}):
    inputs = [['a0', 1], ['a1', 1], ['a2', 1], ['b0', 4], ['b1', 8]]
    ws = {n: w for n, w in inputs}
    mod = rng.random() < 0.2
    regs = []
    for k in range(rng.randint(1, 5)):
        w = rng.choice([1, 1, 4, 8, 13])
        regs.append(['r%d' % k, w, rng.choice([0, 0, 1, rng.getrandbits(w)]) & ((1 << w) - 1)])
        ws['r%d' % k] = w
    sregs = []
    if rng.random() < 0.4:
        sregs.append(['q0', 8, rng.choice([0, 5])])
        ws['q0'] = 8
    arr = ct.gen_arr(rng, mod)
    names = list(ws)
    if arr:
        ws['ar0'] = arr['w']
    mine = [r[0] for r in regs]
    if not mod:
        ws['stt'] = 32
    ns = rng.choice([1, 2, 3, 3, 4, 6])
    script = []
    np = 0
    cond = lambda: ex.cond(rng, names, ws)

    def act(tg, ch):
        op = {'k': 'act', 'tg': tg, 'ch': ch, 'c': [cond() for _ in range(rng.choice([1, 1, 2]))] if ch in ('if', 'elif') else [], 'how': rng.choice(['nest', 'multi'])}
        ct.gen_mods(rng, op)
        op['st'] = [ct.gen_st(rng, mine, names, ws, 1, True, bool(op.get('eager') or op.get('delay'))) for _ in range(rng.choice([1, 1, 2]))]
        return op

    def jump(tg, ch, cur):
        k = rng.choice(['goto', 'goto', 'goto', 'init', 'from'])
        op = {'k': k, 'tg': tg, 'ch': ch, 'c': [cond() for _ in range(rng.choice([1, 1, 2]))] if ch in ('if', 'elif') else []}
        if k in ('goto', 'from'):
            op['dst'] = rng.randrange(ns + (rng.random() < 0.1))
        if k == 'from':
            op['src'] = cur if tg is None else tg[1]
            op['tg'] = None
        if ch == 'plain' and rng.random() < 0.6:
            op['arg'] = cond()
        if k in ('goto', 'from') and (ch in ('if',) or op.get('arg')) and rng.random() < 0.3:
            op['els'] = rng.randrange(ns)
        return op

    def block(tg, cur, n):
        nonlocal np
        chain = False
        for _ in range(n):
            r = rng.random()
            if r < 0.12 and np < 5:
                e = ['v', rng.choice(names)] if rng.random() < 0.7 else pexpr(rng, [x for x in names if x != 'stt'], ws)
                op = {'k': 'prev', 'name': 'pv%d' % np, 'e': e, 'n': rng.choice([1, 1, 2, 3]), 'init': rng.choice([0, 0, 1])}
                if rng.random() < 0.3:
                    op['pc'] = cond()
                np += 1
                ws[op['name']] = ex.width(e, ws)
                names.append(op['name'])
                script.append(op)
                continue
            if r < 0.2 and sregs:
                ch = rng.choice(['plain', 'if'])
                op = {'k': 'seq', 'alias': rng.choice(['seq', 'Always']), 'ch': ch, 'c': [cond()] if ch == 'if' else [], 'how': 'nest', 'tg': None}
                ct.gen_mods(rng, op)
                op['st'] = [ct.gen_st(rng, ['q0'], names, ws, 0, True, bool(op.get('eager') or op.get('delay')))]
                script.append(op)
                continue
            ch = rng.choice(['elif', 'elif', 'else', 'then']) if chain and rng.random() < 0.6 else rng.choice(['if', 'if', 'plain'])
            op = act(tg, ch) if rng.random() < 0.65 else jump(tg, ch, cur)
            script.append(op)
            chain = ch in ('if', 'elif')

    for s in range(ns):
        block(None, s, rng.choice([0, 1, 2, 3, 4]))
        if s < ns - 1 or rng.random() < 0.3:
            r = rng.random()
            if r < 0.75:
                ch = rng.choice(['plain', 'plain', 'if'])
                script.append({'k': 'next', 'ch': ch, 'tg': None, 'c': [cond()] if ch == 'if' else [], 'arg': cond() if ch == 'plain' and rng.random() < 0.4 else None})
            elif r < 0.9:
                script.append({'k': 'inc'})
            else:
                script.append({'k': 'set', 'i': s + 1})
    for _ in range(rng.choice([0, 0, 1, 2])):
        s = rng.randrange(ns)
        block([rng.choice(['when', 'state']), s], s, rng.choice([1, 2, 3]))
    assigned = set()
    for o in script:
        for x in o.get('st', ()):
            assigned |= ct.dsts(x)
    allr = regs + sregs
    for n, w, v in allr:
        if n not in assigned:
            script.insert(0, {'k': 'seq' if n == 'q0' else 'act', 'alias': 'seq', 'tg': None, 'ch': 'plain', 'c': [], 'st': [['=', ['v', n], ['v', rng.choice(['a0', 'b1'])]]]})
    return {'inputs': inputs, 'regs': allr, 'script': script, 'mod': mod, 'arr': arr, 'make': 'hook' if mod else rng.choice(['hook', 'call', 'if']),
            'outs': [r[0] for r in allr if rng.random() < 0.3], 'lp': [r[0] for r in allr if rng.random() < 0.2]}


def gen_run(cfg, rng, style={}):
    return ct.gen_run(rng, cfg['inputs'], style)


def files(cfg, run, rd):
    ct.files(cfg['inputs'], run, rd)


def program(cfg):
    """-> (actions [state|None, delay, lazy, eager, guard, st], jumps {state: [(guard, dst, else)]})"""
    acts, jumps = [], {}
    cur = 0
    last = None
    for op in cfg['script']:
        k = op['k']
        if k == 'prev':
            continue
        if k == 'inc':
            cur += 1
            continue
        if k == 'set':
            cur = op['i']
            continue
        if k == 'seq':
            g = conj(op['c']) if op['ch'] == 'if' else ['c', 1]
            acts += [(None,) + x for x in ct.actions(op, g)]
            continue
        ch = op['ch']
        if ch == 'plain':
            g = op.get('arg') or ['c', 1]
        elif ch == 'if':
            g = conj(op['c'])
            last = [g]
        elif ch == 'elif':
            last = last[:-1] + [['!', last[-1]], conj(op['c'])]
            g = conj(last)
        elif ch == 'else':
            last = last[:-1] + [['!', last[-1]]]
            g = conj(last)
        else:
            g = conj(last)
        s = op['tg'][1] if op.get('tg') else cur
        if k == 'act':
            acts += [(s,) + x for x in ct.actions(op, g)]
        else:
            if k == 'from':
                s = op['src']
            dst = {'goto': op.get('dst'), 'from': op.get('dst'), 'init': 0, 'next': s + 1}[k]
            jumps.setdefault(s, []).append((g, dst, op.get('els')))
            if k == 'next':
                cur += 1
    return acts, jumps


def model(cfg, run):
    ws = widths(cfg)
    vals, rst, _ = ct.stimulus(cfg['inputs'], run)
    acts, jumps = program(cfg)
    pv = [op for op in cfg['script'] if op['k'] == 'prev']
    pvs = [{'e': p['e'], 'n': p['n'], 'init': p['init'], 'c': p.get('pc')} for p in pv]
    init = {n: v for n, w, v in cfg['regs']}
    regs = None
    arr = [0] * 16
    hist = []
    out = []
    for t in range(len(vals)):
        if regs is None:
            out.append({})
        else:
            env = dict(regs)
            env.update({n: v for (n, _), v in zip(cfg['inputs'], vals[t])})
            if cfg.get('arr'):
                env['ar0'] = list(arr)
            for p, q in zip(pv, pvs):
                env[p['name']] = ct.prev_value(q, hist, ws)
            row = dict(regs)
            row['fs'] = row.pop('stt')
            row.update({'w' + p['name']: env[p['name']] for p in pv})
            out.append(row)
        if cfg.get('arr') and (rst[t] or regs is not None):
            ct.arr_step(cfg['arr'], arr, env if regs is not None else None, rst[t])
        if rst[t]:
            regs = dict(init, stt=0)
            hist = []
            continue
        if regs is None:
            continue
        hist.append(env)
        nxt = dict(regs)
        for part in (0, 1):          # the independent block first, then the states
            for d in sorted({a[1] for a in acts}, reverse=True):
                for s, dd, lazy, eager, g, st in acts:
                    if (s is None) != (part == 0) or dd != d or len(hist) <= d:
                        continue
                    old = hist[-1 - d]
                    if s is not None and old['stt'] != s:
                        continue
                    if not ex.truth(g, env if lazy else old, ws):
                        continue
                    for x in st:
                        ct.st_run(x, env, old if eager else env, nxt, ws)
        for g, dst, els in jumps.get(env['stt'], ()):
            if ex.truth(g, env, ws):
                nxt['stt'] = dst
            elif els is not None:
                nxt['stt'] = els
        regs = nxt
    return out


def check(cfg, run, log):
    m = model(cfg, run)
    tr = [r.get('fs') for r in m]
    return ct.check(obs(cfg), run, log, m, {'states_visited': len(set(tr) - {None}), 'transitions': sum(1 for a, b in zip(tr, tr[1:]) if a is not None and a != b),
                                           'delayed': sum(1 for o in cfg['script'] if o.get('delay'))})
