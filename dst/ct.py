"""Cycle traces: a design driven open-loop by scheduled input changes and resets,
every observed signal logged at every clock edge, compared with a cycle-exact model."""
import hashlib

from . import bfm, core, opthread
from .core import V

SCH = 1024
R0 = 4


def tb(inputs, obs, extra=''):
    """inputs: [(port, width)]; obs: [(hierarchical name, width)]"""
    W = sum(w for _, w in inputs)
    D = ['reg [%d:0] stim [0:%d]; initial $readmemh("stim.hex", stim); reg [%d:0] iv; initial iv = 0;' % (W - 1, SCH - 1, W - 1)]
    B = ['always @(posedge CLK) begin iv <= stim[cyc + 1]; if(cyc >= prm[1]) begin $display("END %0d", cyc); $finish; end end']
    C = ['.CLK(CLK)', '.RST(RST)']
    lsb = W
    for n, w in inputs:
        lsb -= w
        C.append('.%s(iv[%d:%d])' % (n, lsb + w - 1, lsb))
    B.append('dut uut(%s);' % ', '.join(C))
    if obs:
        B.append('always @(posedge CLK) $display("T %%0d%s", cyc, %s);' % (' %h' * len(obs), ', '.join('uut.%s' % n for n, _ in obs)))
    return bfm.skeleton('\n'.join(B) + extra, '\n'.join(D), schlen=SCH)


def arr_src(ar):
    """an array of 16 words: in every cycle the word selected by b0 takes the value of b1"""
    return ['ar0 = m.Reg("ar0", %d, %s)' % (ar['w'], '(16,)' if ar.get('tuple') else '16'),
            'm.Always(Posedge(clk))(If(rst)([ar0[i](0) for i in range(16)]).Else(ar0[b0](b1)))']


def arr_step(ar, arr, env, rst):
    if rst:
        arr[:] = [0] * 16
    else:
        arr[env['b0']] = env['b1'] & ((1 << ar['w']) - 1)


def gen_arr(rng, mod):
    return {'w': rng.choice([1, 4, 8]), 'tuple': int(rng.random() < 0.3)} if rng.random() < (0.6 if mod else 0.2) else None


def gen_run(rng, inputs, style={}, dens=None):
    n = rng.choice([40, 120, 250])
    stim = []
    for i, (_, w) in enumerate(inputs):
        mode = rng.choice(['dense', 'dense', 'mid', 'sparse', 'const'])
        p = {'dense': 0.6, 'mid': 0.3, 'sparse': 0.07, 'const': 0.01}[mode]
        one = rng.choice([0.5, 0.5, 0.2, 0.8])
        for t in range(n):
            if rng.random() < p:
                if w == 1:
                    v = int(rng.random() < one)
                else:
                    v = rng.choice([rng.getrandbits(w), rng.randrange(min(8, 1 << w)), (1 << w) - 1, 0])
                stim.append({'i': i, 'at': t, 'v': v})
    ev = []
    if rng.random() < (1 if style.get('reset') else 0.6):
        for _ in range(rng.choice([1, 1, 2, 4])):
            ev.append({'k': 'reset', 'bit': 31, 'at': rng.randrange(0, n), 'n': rng.choice([1, 1, 1, 2, 5])})
    return {'n': n, 'stim': stim, 'sched': ev, 'maxcyc': n + R0 + 50}


def stimulus(inputs, run):
    """-> per cycle the list of input values, and the per-cycle reset"""
    T = run['n'] + R0
    cur = [0] * len(inputs)
    by = {}
    for e in run['stim']:
        by.setdefault(e['at'] + R0, []).append(e)
    vals = []
    for t in range(T + 1):
        for e in by.get(t, ()):
            cur[e['i']] = e['v'] & ((1 << inputs[e['i']][1]) - 1)
        vals.append(list(cur))
    ev = [{'bit': 31, 'at': 0, 'n': R0}] + [dict(e, at=e['at'] + R0) for e in run['sched']]
    sch = core.expand_schedule(ev, SCH)
    return vals, [bool(w >> 31 & 1) for w in sch[:T + 1]], sch


def files(inputs, run, rd):
    vals, _, sch = stimulus(inputs, run)
    core.write_hex(rd + '/sched.hex', sch)
    words = []
    for v in vals + [vals[-1]] * (SCH - len(vals)):
        x = 0
        for q, (_, w) in zip(v, inputs):
            x = x << w | q
        words.append(x)
    core.write_hex(rd + '/stim.hex', words)
    p = [0] * 64
    p[0] = run['maxcyc']
    p[1] = run['n'] + R0
    core.write_hex(rd + '/p.hex', p)


def check(obs, run, log, model, probes=None):
    """model: per cycle {observed name: value or None}"""
    viols = []
    lines = {}
    end = None
    rst = {}
    for line in log.split('\n'):
        p = line.split()
        if not p:
            continue
        if p[0] == 'T':
            lines[int(p[1])] = [x.lower() for x in p[2:]]
        elif p[0] == 'END':
            end = int(p[1])
    h = hashlib.sha256()
    cmpd = 0
    if end is None:
        viols.append(V('no-completion', 'the simulation did not reach cycle %d' % (run['n'] + R0)))
    for t in range(len(model)):
        row = lines.get(t)
        if row is None:
            if end is not None and t < end:
                raise core.HarnessError('no trace line for cycle %d' % t)
            break
        h.update(' '.join(row).encode())
        if viols:
            continue
        for (n, w), x in zip(obs, row):
            m = model[t].get(n)
            if m is None:
                continue
            cmpd += 1
            if set(x) & set('xz') or int(x, 16) != m:
                viols.append(V('wrong-value', 'cycle %d: %s is %s, expected %x' % (t, n, x, m)))
                break
    fl = {}
    for e in run['sched']:
        if e['at'] < run['n']:
            fl[e['k']] = fl.get(e['k'], 0) + 1
    fl['input-change'] = len(run['stim'])
    st = {'cycles': end or 0, 'faults': fl, 'probes': dict(probes or {}, values=cmpd, resets=len(run['sched'])),
          'key': h.hexdigest()[:16], 'nontrivial': len(run['stim']) > 3 and cmpd > 20,
          'logh': hashlib.sha256(log.encode()).hexdigest()[:16]}
    return viols, st


# ---- statements -------------------------------------------------------------
# ['=', dst, e]  dst: ['v',n] | ['bit',n,i] | ['bitv',n,index expr] | ['sl',n,msb,lsb] | ['cat',[n..]]
# ['if', c, [..], [..]]   ['case', e, [[vals or [], [..]]..]]   ['inc', n]

def st_src(s):
    from . import ex
    if s[0] == 'inc':
        return '%s.inc()' % s[1]
    if s[0] == '=':
        d = s[1]
        t = {'v': lambda: d[1], 'bit': lambda: '%s[%d]' % (d[1], d[2]), 'bitv': lambda: '%s[%s]' % (d[1], ex.src(d[2])),
             'sl': lambda: '%s[%d:%d]' % (d[1], d[3], d[2] + 1), 'cat': lambda: 'Cat(%s)' % ', '.join(d[1])}[d[0]]()
        return '%s(%s)' % (t, ex.src(s[2]))
    if s[0] == 'if':
        r = 'If(%s)(%s)' % (ex.src(s[1]), ', '.join(map(st_src, s[2])))
        if s[3]:
            r += '.Else(%s)' % ', '.join(map(st_src, s[3]))
        return r
    if s[0] == 'case':
        return 'Case(%s)(%s)' % (ex.src(s[1]), ', '.join('When(%s)(%s)' % (', '.join(map(str, v)), ', '.join(map(st_src, b))) for v, b in s[2]))
    raise ValueError(s)


def st_run(s, env, venv, nxt, ws):
    """env decides conditions and indices, venv the assigned values"""
    from . import ex
    if s[0] == 'inc':
        nxt[s[1]] = (venv[s[1]] + 1) & ((1 << ws[s[1]]) - 1)
    elif s[0] == '=':
        d = s[1]
        w = {'v': lambda: ws[d[1]], 'bit': lambda: 1, 'bitv': lambda: 1, 'sl': lambda: d[2] - d[3] + 1, 'cat': lambda: sum(ws[x] for x in d[1])}[d[0]]()
        v = ex.ev(s[2], venv, ws, max(w, ex.width(s[2], ws))) & ((1 << w) - 1)
        if d[0] == 'v':
            nxt[d[1]] = v
        elif d[0] in ('bit', 'bitv'):
            i = d[2] if d[0] == 'bit' else ex.val(d[2], env, ws)
            if i < ws[d[1]]:
                nxt[d[1]] = nxt[d[1]] & ~(1 << i) | v << i
        elif d[0] == 'sl':
            m = ((1 << w) - 1) << d[3]
            nxt[d[1]] = nxt[d[1]] & ~m | v << d[3]
        else:
            for x in reversed(d[1]):
                nxt[x] = v & ((1 << ws[x]) - 1)
                v >>= ws[x]
    elif s[0] == 'if':
        for x in s[2] if ex.truth(s[1], env, ws) else s[3]:
            st_run(x, env, venv, nxt, ws)
    elif s[0] == 'case':
        v = ex.val(s[1], env, ws)
        for vals, body in s[2]:
            if not vals or v in vals:
                for x in body:
                    st_run(x, env, venv, nxt, ws)
                break


def dsts(s):
    if s[0] == 'inc':
        return {s[1]}
    if s[0] == '=':
        return set(s[1][1]) if s[1][0] == 'cat' else {s[1][1]}
    if s[0] == 'if':
        return set().union(*[dsts(x) for x in s[2] + s[3]])
    return set().union(*[dsts(x) for _, b in s[2] for x in b])


def gen_st(rng, mine, names, ws, depth=1, whole=False, simple=False, partial=()):
    """one statement assigning registers of mine from any of names"""
    from . import ex
    r = rng.random()
    if not simple and depth and r < 0.12:
        return ['if', ex.cond(rng, names, ws), [gen_st(rng, mine, names, ws, 0, whole, False, partial)],
                [gen_st(rng, mine, names, ws, 0, whole, False, partial)] if rng.random() < 0.6 else []]
    if not simple and depth and r < 0.2:
        big = [n for n in names if ws[n] > 1]
        if big:
            arms = []
            for v in rng.sample(range(4), rng.randint(1, 3)):
                arms.append([[v] if rng.random() < 0.8 else sorted({v, v + 4}), [gen_st(rng, mine, names, ws, 0, whole, False, partial)]])
            used = set()
            for a in arms:
                a[0] = [v for v in a[0] if v not in used]
                used |= set(a[0])
            arms = [a for a in arms if a[0]]
            if rng.random() < 0.5:
                arms.append([[], [gen_st(rng, mine, names, ws, 0, whole, False, partial)]])
            return ['case', ['v', rng.choice(big)], arms]
    n = rng.choice(mine)
    if r > 0.93 and not simple:
        return ['inc', n]
    if not whole and n in partial and ws[n] > 2:
        q = rng.random()
        if q < 0.35:
            return ['=', ['bit', n, rng.randrange(ws[n])], ex.gen(rng, names, ws, 1)]
        if q < 0.5 and not simple:
            idx = [x for x in names if 1 << ws[x] <= ws[n]]
            if idx:
                return ['=', ['bitv', n, ['v', rng.choice(idx)]], ex.gen(rng, names, ws, 1)]
        if q < 0.8:
            lo = rng.randrange(ws[n] - 1)
            return ['=', ['sl', n, rng.randrange(lo + 1, ws[n]), lo], ex.gen(rng, names, ws, 1)]
    if not whole and rng.random() < 0.1 and len(mine) > 1:
        return ['=', ['cat', rng.sample(mine, 2)], ex.gen(rng, names, ws, 1)]
    return ['=', ['v', n], ex.gen(rng, names, ws, rng.choice([0, 1, 2]))]


def actions(op, guard):
    """expand delay/keep -> list of (delay, lazy, eager, guard, statements)"""
    d = op.get('delay') or 0
    return [(d + i, bool(op.get('lazy')), bool(op.get('eager')), guard, op['st']) for i in range(op.get('keep') or 1)]


def call(obj, op, st=True):
    """source text of the modifiers and of the call"""
    s = obj
    if op.get('delay') is not None:
        s += '.Delay(%d)' % op['delay']
    if op.get('keep') is not None:
        s += '.Keep(%d)' % op['keep']
    if op.get('lazy'):
        s += '.LazyCond()'
    if op.get('eager'):
        s += '.EagerVal()'
    if st:
        s += '(%s)' % ', '.join(map(st_src, op['st']))
    return s


def gen_mods(rng, op):
    r = rng.random()
    if r < 0.4:
        op['delay'] = rng.choice([1, 1, 2, 3, 5, 0])
    if rng.random() < (0.3 if r < 0.4 else 0.1):
        op['keep'] = rng.choice([1, 2, 3])
    if r < 0.4:
        op['lazy'] = rng.random() < 0.3
        op['eager'] = rng.random() < 0.4


def prev_value(p, hist, ws):
    """value of a previous-value reference given the environments since reset"""
    from . import ex
    w = ex.width(p['e'], ws)
    vals = hist if p.get('c') is None else [h for h in hist if ex.truth(p['c'], h, ws)]
    if len(vals) < p['n']:
        return p['init'] & ((1 << w) - 1)
    return ex.val(p['e'], vals[-p['n']], ws)
