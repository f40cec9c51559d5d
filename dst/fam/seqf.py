"""DUT family: Seq blocks from random scripts of the public API, checked cycle by cycle."""
from .. import core, ct, ex, genmod

SCH = ct.SCH
MINIMISE = ('sched', 'stim')


def build(cfg):
    L = [genmod.HEADER, 'from veriloggen.core import vtypes', 'def mk():', '    m = Module("dut")', '    clk = m.Input("CLK")', '    rst = m.Input("RST")']
    a = lambda s: L.append('    ' + s)
    for n, w, s in cfg['inputs']:
        a('%s = m.Input("%s", %s%s)' % (n, n, w if w > 1 else None, ', signed=True' if s else ''))
    for n, w, init, s in cfg['regs']:
        a('%s = m.%s("%s", %s, initval=%s%s)' % (n, 'OutputReg' if n in cfg['outs'] else 'Reg', n, w if w > 1 else None,
                                                 init if n not in cfg['lp'] else 'm.Localparam("LP_%s", %d, %d)' % (n, init, w), ', signed=True' if s else ''))
    for x in ct.arr_src(cfg['arr']) if cfg.get('arr') else ():
        a(x)
    for i, ops in enumerate(cfg['script']):
        q = 'sq%d' % i
        if cfg['mod'] and i == 0:
            a('%s = Seq(m, "%s", clk, rst, as_module=True)' % (q, q))
        else:
            a('%s = Seq(m, "%s", clk, rst%s)' % (q, q, ', nohook=True' if cfg['make'] == 'call' or (cfg['merge'] and i) else ''))
        for op in ops:
            k = op['k']
            if k == 'prev':
                a('%s = %s.Prev(%s, %d%s%s%s)' % (op['name'], q, ex.src(op['e']), op['n'], ', initval=%d' % op['init'] if op['init'] else '',
                                                  ', cond=' + ex.src(op['c']) if op.get('c') else '', ', prefix="%s"' % op['prefix'] if op.get('prefix') else ''))
                continue
            cs = [ex.src(c) for c in op.get('c', ())]
            if k == 'if':
                if op['how'] == 'nest':
                    o = q + ''.join('.If(%s)' % c for c in cs)
                elif op['how'] == 'multi':
                    o = '%s.If(%s)' % (q, ', '.join(cs))
                elif op['how'] == 'pre':
                    a('%s.If(%s)' % (q, cs[0]))
                    o = q + ''.join('.If(%s)' % c for c in cs[1:])
                else:
                    kw = ''.join(', %s=%s' % (x, op[y]) for x, y in (('delay', 'delay'), ('keep', 'keep'), ('lazy_cond', 'lazy'), ('eager_val', 'eager')) if op.get(y))
                    a('%s.add(%s, cond=%s%s)' % (q, ', '.join(map(ct.st_src, op['st'])), cs[0] if len(cs) == 1 else 'vtypes.Ands(%s)' % ', '.join(cs), kw))
                    continue
            elif k == 'elif':
                o = '%s.Elif(%s)' % (q, ', '.join(cs))
            elif k == 'else':
                o = q + '.Else'
            elif k == 'elseif':
                o = '%s.Else.If(%s)' % (q, ', '.join(cs))
            elif k == 'then':
                o = q + '.Then()'
            else:
                o = q
            a(ct.call(o, op))
    if cfg['merge']:
        for i in range(1, len(cfg['script'])):
            a('sq0.update(sq%d)' % i)
        if cfg['make'] == 'call':
            a('sq0.make_always()')
    elif cfg['make'] == 'call':
        for i in range(len(cfg['script'])):
            if not (cfg['mod'] and i == 0):
                a('sq%d.make_always()' % i)
    wd = {n: w for n, w, *_ in cfg['regs'] + cfg['inputs']}
    for ops in cfg['script']:
        for op in ops:
            if op['k'] == 'prev':
                w = ex.width(op['e'], wd)
                wd[op['name']] = w
                a('m.Wire("w%s", %s).assign(%s)' % (op['name'], w if w > 1 else None, op['name']))
    a('return m')
    return genmod.load('\n'.join(L)).mk().to_verilog()


def prevs(cfg):
    return [(i, op) for i, ops in enumerate(cfg['script']) for op in ops if op['k'] == 'prev']


def obs(cfg):
    ws = widths(cfg)
    return [(n, w) for n, w, *_ in cfg['regs']] + [('w' + op['name'], ws[op['name']]) for _, op in prevs(cfg)]


def widths(cfg):
    ws = {n: w for n, w, *_ in cfg['regs'] + cfg['inputs']}
    if cfg.get('arr'):
        ws['ar0'] = cfg['arr']['w']
    for _, op in prevs(cfg):
        ws[op['name']] = ex.width(op['e'], ws)
    return ws


def tb(cfg):
    return ct.tb([(n, w) for n, w, _ in cfg['inputs']], obs(cfg))


def pexpr(rng, names, ws):
    """expressions whose natural width is beyond dispute"""
    a, b = ['v', rng.choice(names)], ['v', rng.choice(names)]
    return rng.choice([['&', a, b], ['|', a, b], ['^', a, b], ['?', ex.cond(rng, names, ws, 0), a, b], ['==', a, b], ['<', a, b], ['bit', a[1], rng.randrange(ws[a[1]])] if ws[a[1]] > 1 else ['&', a, b]])


def gen_cfg(rng, i=0, style={}):
    inputs = [['a0', 1, 0], ['a1', 1, 0], ['a2', 1, 0], ['b0', 4, 0], ['b1', 8, 0], ['s0', 5, 1]]
    ws = {n: w for n, w, _ in inputs}
    regs = []
    nseq = rng.choice([1, 1, 1, 2, 3])
    mod = rng.random() < 0.2
    arr = ct.gen_arr(rng, mod)
    if arr:
        ws['ar0'] = arr['w']
    merge = not mod and nseq > 1 and rng.random() < 0.5
    owner = []
    for j in range(nseq):
        mine = []
        for k in range(rng.randint(1, 4)):
            n = 'r%d%d' % (j, k)
            w = rng.choice([1, 1, 4, 8, 13])
            regs.append([n, w, rng.choice([0, 0, 1, rng.getrandbits(w)]) & ((1 << w) - 1), 0])
            mine.append(n)
            ws[n] = w
        if rng.random() < 0.3:
            n = 'r%ds' % j
            regs.append([n, 11, rng.choice([0, 1000]), 1])
            ws[n] = 11
        owner.append(mine)
    base = [n for n in ws if n not in ('s0', 'ar0') and not n.endswith('s')]
    partial = set() if mod else {n for n, w, *_ in regs if w > 2 and rng.random() < 0.3}
    script = []
    np = 0
    allnames = list(base)
    for j in range(nseq):
        mine = owner[j]
        whole = mod and j == 0
        ops = []
        n = rng.randint(2, 7)
        chain = None       # None | 'open'
        seen = set()
        while len([o for o in ops if o['k'] != 'prev']) < n:
            if rng.random() < 0.25:
                cand = [x for x in allnames]
                e = ['v', rng.choice(cand)] if rng.random() < 0.7 else pexpr(rng, cand, ws)
                if rng.random() < 0.15:
                    e = ['v', 's0']
                if [o for o in ops if o['k'] == 'prev'] and rng.random() < 0.4:
                    e = rng.choice([o for o in ops if o['k'] == 'prev'])['e']
                op = {'k': 'prev', 'name': 'pv%d' % np, 'e': e, 'n': rng.choice([1, 1, 2, 3, 4]), 'init': rng.choice([0, 0, 1])}
                if rng.random() < 0.35:
                    op['c'] = ex.cond(rng, base, ws)
                if rng.random() < 0.15:
                    op['prefix'] = 'px%d_' % np
                np += 1
                ws[op['name']] = ex.width(e, ws)
                ops.append(op)
                if e == ['v', 's0']:
                    if any(x[0] == 'r%ds' % j for x in regs):
                        ops.append({'k': 'plain', 'st': [['=', ['v', 'r%ds' % j], ['sx', op['name']]]]})
                        chain = None
                else:
                    allnames.append(op['name'])
                continue
            r = rng.random()
            op = {'k': 'if', 'c': [ex.cond(rng, allnames, ws) for _ in range(rng.choice([1, 1, 1, 2, 3]))], 'how': rng.choice(['nest', 'nest', 'multi', 'pre', 'kw'])}
            if chain and r < 0.5:
                op = {'k': rng.choice(['elif', 'elif', 'else', 'then', 'elseif']), 'c': [ex.cond(rng, allnames, ws)]}
            elif r > 0.85:
                op = {'k': 'plain', 'c': []}
            ct.gen_mods(rng, op)
            simple = bool(op.get('eager'))
            op['st'] = [ct.gen_st(rng, mine, allnames, ws, 1, whole, simple or bool(op.get('delay')), partial) for _ in range(rng.choice([1, 1, 2]))]
            ops.append(op)
            if op['k'] == 'if' and op['how'] != 'kw' or op['k'] == 'elif':
                chain = 'open'
            else:
                chain = None
        done = set()
        for o in ops:
            for x in o.get('st', ()):
                if x[0] == '=' and x[1][0] == 'v' and o['k'] == 'plain' or not partial:
                    done |= ct.dsts(x)
        for x in mine + ['r%ds' % j] * any(q[0] == 'r%ds' % j for q in regs):
            if x not in done:      # bits that are never assigned are never reset: every register has a whole assignment
                ops.insert(0, {'k': 'plain', 'st': [['=', ['v', x], ['v', rng.choice(base)]]]} if rng.random() < 0.5 or x.endswith('s') else
                           {'k': 'if', 'how': 'nest', 'c': [ex.cond(rng, base, ws)], 'st': [['=', ['v', x], ex.gen(rng, base, ws, 1)]]})
        script.append(ops)
    return {'inputs': inputs, 'regs': regs, 'script': script, 'mod': mod, 'arr': arr, 'merge': merge, 'make': 'hook' if mod else rng.choice(['hook', 'call']),
            'outs': [n for n, *_ in regs if rng.random() < 0.3], 'lp': [n for n, *_ in regs if rng.random() < 0.2 and n not in partial]}


def gen_run(cfg, rng, style={}):
    return ct.gen_run(rng, [(n, w) for n, w, _ in cfg['inputs']], style)


def files(cfg, run, rd):
    ct.files([(n, w) for n, w, _ in cfg['inputs']], run, rd)


def conj(cs):
    e = cs[0]
    for c in cs[1:]:
        e = ['&&', e, c]
    return e


def program(ops):
    """-> list of actions in program order"""
    acts = []
    last = None          # list of conditions as the chain stands
    for op in ops:
        k = op['k']
        if k == 'prev':
            continue
        if k == 'plain':
            g = ['c', 1]
        elif k == 'if':
            g = conj(op['c'])
            last = [g]
        elif k == 'elif':
            last = last[:-1] + [['!', last[-1]], conj(op['c'])]
            g = conj(last)
        elif k == 'else':
            last = last[:-1] + [['!', last[-1]]]
            g = conj(last)
        elif k == 'elseif':
            g = conj(last[:-1] + [['!', last[-1]]] + op['c'])
        elif k == 'then':
            g = conj(last)
        acts += ct.actions(op, g)
    return acts


def model(cfg, run):
    ws = widths(cfg)
    vals, rst, _ = ct.stimulus([(n, w) for n, w, _ in cfg['inputs']], run)
    progs = [program(ops) for ops in cfg['script']]
    if cfg['merge']:
        progs = [[a for p in progs for a in p]]
    pv = prevs(cfg)
    init = {n: v for n, w, v, _ in cfg['regs']}
    assigned = set()
    for p in progs:
        for a in p:
            for s in a[4]:
                assigned |= ct.dsts(s)
    regs = None
    arr = [0] * 16
    hist = []
    out = []
    for t in range(len(vals)):
        if regs is None:
            out.append({})
        else:
            env = dict(regs)
            env.update({n: v for (n, _, _), v in zip(cfg['inputs'], vals[t])})
            if cfg.get('arr'):
                env['ar0'] = list(arr)
            for _, p in pv:
                env[p['name']] = ct.prev_value(p, hist, ws)
            row = {n: v for n, v in regs.items() if n in assigned}
            row.update({'w' + p['name']: env[p['name']] for _, p in pv})
            out.append(row)
        if cfg.get('arr') and (rst[t] or regs is not None):
            ct.arr_step(cfg['arr'], arr, env if regs is not None else None, rst[t])
        if rst[t]:
            regs = dict(init)
            hist = []
            continue
        if regs is None:
            continue
        hist.append(env)
        nxt = dict(regs)
        for p in progs:
            for d in sorted({a[0] for a in p}, reverse=True):
                for (dd, lazy, eager, g, st) in p:
                    if dd != d or len(hist) <= d:
                        continue
                    old = hist[-1 - d]
                    if not ex.truth(g, env if lazy else old, ws):
                        continue
                    for s in st:
                        ct.st_run(s, env, old if eager else env, nxt, ws)
        regs = nxt
    return out


def check(cfg, run, log):
    ops = [o for s in cfg['script'] for o in s]
    return ct.check(obs(cfg), run, log, model(cfg, run), {
        'delayed': sum(1 for o in ops if o.get('delay')), 'prevs': len(prevs(cfg)), 'chains': sum(1 for o in ops if o['k'] in ('elif', 'else'))})
