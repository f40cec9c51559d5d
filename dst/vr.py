"""Shared test bench for designs with valid/ready ports: a scheduled producer per
input group, a scheduled consumer per output group, stability monitors, and the
comparison of the produced sequences with the expected ones.

ins:  [{'n': name, 'd': [(port, width)...], 'v': port|None, 'r': port|None}]
outs: the same.  Input i is stalled by schedule bit i, output k by bit 16+k."""
from . import bfm, core, opthread
from .core import V

SCH = 2048
R0 = 8
MAXN = 512


def chans(ins, outs):
    return [('in%d_gap' % i, i) for i in range(len(ins))] + [('out%d_stall' % k, 16 + k) for k in range(len(outs)) if outs[k].get('r')]


def word(salt, i, j, w, special=True):
    """input word: mixes random values with corner values"""
    h = bfm.dgen((salt * 2654435761 + i * 977 + 5) & 0xffffffff, j, 96)
    if special and h % 5 == 0:
        return [0, 1, (1 << w) - 1, 1 << (w - 1), (1 << (w - 1)) - 1][(h >> 40) % 5] & ((1 << w) - 1)
    if special and h % 5 == 1:
        return (h >> 20) % 16 & ((1 << w) - 1)
    return (h >> 20) & ((1 << w) - 1) if w <= 64 else bfm.dgen((salt ^ i * 77) & 0xffffffff, j, w)


def tb(ins, outs, extra='', conn=()):
    D, B, C = [], [], ['.CLK(CLK)', '.RST(RST)'] + list(conn)
    for i, p in enumerate(ins):
        W = sum(w for _, w in p['d'])
        n = p['n']
        r = '1\'b1' if p['r'] is None else 'r_%s' % n
        D.append('reg [%d:0] mem_%s [0:%d]; initial $readmemh("in%d.hex", mem_%s); reg v_%s; integer pn_%s; initial begin v_%s = 0; pn_%s = 0; end wire r_%s;' % (
            W - 1, n, MAXN - 1, i, n, n, n, n, n, n))
        D.append('wire [%d:0] dat_%s = v_%s ? mem_%s[pn_%s] : {%d{cyc[0]}};' % (W - 1, n, n, n, n, W))
        B.append('always @(posedge CLK) if(RST) begin v_%(n)s <= 0; pn_%(n)s <= 0; end else begin '
                 'if(v_%(n)s && (%(r)s === 1\'b1)) begin $display("I %(i)d %%0d", cyc); pn_%(n)s <= pn_%(n)s + 1; end '
                 'if(v_%(n)s && (%(r)s === 1\'bx)) $display("RX %(i)d %%0d", cyc); '
                 'if(!v_%(n)s || (%(r)s === 1\'b1)) v_%(n)s <= !st[%(i)d] && (pn_%(n)s + ((v_%(n)s && %(r)s === 1\'b1) ? 1 : 0) < prm[%(q)d]); end' % {
                     'n': n, 'r': r, 'i': i, 'q': 8 + i})
        lsb = W
        for port, w in p['d']:
            lsb -= w
            C.append('.%s(dat_%s[%d:%d])' % (port, n, lsb + w - 1, lsb))
        if p['v']:
            C.append('.%s(v_%s)' % (p['v'], n))
        if p['r']:
            C.append('.%s(r_%s)' % (p['r'], n))
    done = []
    for k, p in enumerate(outs):
        W = sum(w for _, w in p['d'])
        n = p['n']
        D.append('wire [%d:0] dat_%s; wire v_%s; wire r_%s = !RST && !st[%d] && (!prm[2][%d] || v_%s === 1\'b1); integer gn_%s; initial gn_%s = 0;' % (W - 1, n, n, n, 16 + k, k, n, n, n))
        r = 'r_%s' % n if p['r'] else "1'b1"
        B.append('always @(posedge CLK) if(RST) gn_%(n)s <= 0; else begin if(v_%(n)s !== 1\'b0 && v_%(n)s !== 1\'b1) $display("VX out%(k)d %%0d", cyc); '
                 'if(v_%(n)s === 1\'b1 && %(r)s) begin $display("G %(k)d %%0d %%0h", cyc, dat_%(n)s); gn_%(n)s <= gn_%(n)s + 1; end end' % {'n': n, 'r': r, 'k': k})
        if p['r']:
            B.append('vr_mon #(.W(%d), .NAME("out%d")) mon_%s (CLK, RST, cyc, v_%s, r_%s, dat_%s);' % (W, k, n, n, n, n))
        lsb = W
        for port, w in p['d']:
            lsb -= w
            C.append('.%s(dat_%s[%d:%d])' % (port, n, lsb + w - 1, lsb))
        C.append('.%s(v_%s)' % (p['v'], n))
        if p['r']:
            C.append('.%s(r_%s)' % (p['r'], n))
        done.append('gn_%s >= prm[%d]' % (n, 24 + k))
    for i, p in enumerate(ins):
        if p['r']:
            done.append('pn_%s >= prm[%d]' % (p['n'], 40 + i))
    d, b = opthread.finish(0, ' && '.join(done), 40)
    D.append(d)
    B.append(b)
    B.append('dut uut(%s);' % ', '.join(C))
    return bfm.VR_MON + bfm.skeleton('\n'.join(B) + extra, '\n'.join(D), schlen=SCH)


def gen_sched(rng, ins, outs, style={}):
    ch = chans(ins, outs)
    ev = []
    if rng.random() > 0.1:
        ev = core.gen_stalls(rng, ch, rng.choice([60, 200, 600]), rng.choice([None, None, 0.2, 0.8]))
    if style.get('reset'):
        for _ in range(rng.choice([1, 1, 1, 2])):
            ev.append({'k': 'reset', 'bit': 31, 'at': rng.randrange(0, rng.choice([20, 60, 200])), 'n': rng.choice([1, 1, 2, 5])})
    return ev


def inputs(ins, run):
    """-> per input group the list of tuples of port values"""
    R = []
    for i, p in enumerate(ins):
        L = []
        for j in range(run['n'][i]):
            L.append(tuple(word(run['salt'], i * 8 + q, j, w) for q, (_, w) in enumerate(p['d'])))
        R.append(L)
    return R


def files(ins, outs, run, rd, expn, need):
    """expn: number of expected outputs per output; need: inputs that must be accepted before the end"""
    ev = [{'bit': 31, 'at': 0, 'n': 4}] + [dict(e, at=e['at'] + R0) for e in run['sched']]
    warm = run.get('warm', 0)       # cycles without input after every reset
    if warm:
        ev += [{'bit': i, 'at': e['at'], 'n': e['n'] + warm} for e in ev if e['bit'] == 31 for i in range(len(ins))]
    core.write_hex(rd + '/sched.hex', core.expand_schedule(ev, SCH))
    p = [0] * 64
    p[0] = run['maxcyc']
    p[2] = run.get('rmode', 0)
    for i, L in enumerate(inputs(ins, run)):
        p[8 + i] = len(L)
        p[40 + i] = need[i]
        words = []
        for t in L + [tuple(0 for _ in ins[i]['d'])] * (MAXN - len(L)):
            x = 0
            for v, (_, w) in zip(t, ins[i]['d']):
                x = x << w | v
            words.append(x)
        core.write_hex('%s/in%d.hex' % (rd, i), words)
    for k, n in enumerate(expn):
        p[24 + k] = n
    core.write_hex(rd + '/p.hex', p)


def same(got, want):
    """want: word, or (word, mask of the specified bits)"""
    if isinstance(want, int):
        return not set(got.lower()) & set('xz') and int(got, 16) == want
    val, mask = want
    for i, c in enumerate(reversed(got)):
        m = mask >> 4 * i & 15
        if c in 'xz' and m or c in 'XZ' and m == 15:
            return False
        if c not in 'xzXZ' and (int(c, 16) ^ val >> 4 * i) & m:
            return False
    return True


def check(ins, outs, run, log, want, need, throughput=None, undef_ok=False):
    """want: per output the list of expected packed words (None: unspecified)."""
    viols = []

    def add(cls, msg):
        if not any(v['class'] == cls for v in viols):
            viols.append(V(cls, msg))
    H = opthread.Hist(0)
    got = [[] for _ in outs]
    acc = [[] for _ in ins]
    for line in log.split('\n'):
        p = line.split()
        if not p:
            continue
        if p[0] == 'RESET' and int(p[1]) != H.t_reset:
            for x in got + acc:
                x.clear()
        if H.feed(p):
            continue
        if p[0] == 'G':
            got[int(p[1])].append((int(p[2]), p[3]))
            H.order.append('g' + p[1])
        elif p[0] == 'I':
            acc[int(p[1])].append(int(p[2]))
            H.order.append('i' + p[1])
        elif p[0] in ('VX', 'RX', 'VR'):
            add('undefined-handshake', line)
        elif p[0] in ('VS', 'VD') and not (undef_ok and 'undefined payload' in line):
            add('unstable-output', line)
    endc = abs(H.end) if H.end else run['maxcyc']
    for k, w in enumerate(want):
        for j, (c, v) in enumerate(got[k]):
            if j >= len(w):
                add('phantom-output', 'output %d: item %d (%s) at cycle %d, only %d expected' % (k, j, v, c, len(w)))
                break
            if w[j] is not None and not same(v, w[j]):
                add('wrong-output', 'output %d: item %d at cycle %d is %s, expected %s' % (
                    k, j, c, v, '%x' % w[j] if isinstance(w[j], int) else '%x in the bits %x' % w[j]))
                break
    if not H.ok:
        add('no-completion', 'not finished at cycle %d: outputs %s, inputs accepted %s' % (
            endc, ['%d of %d' % (len(g), len(w)) for g, w in zip(got, want)], ['%d of %d' % (len(a), n) for a, n in zip(acc, need)]))
    if throughput is not None and not run['sched'] and H.ok:
        for i, a in enumerate(acc):
            if a and ins[i]['r'] and a[-1] - a[0] > len(a) - 1 + throughput:
                add('throughput', 'input %d: %d items accepted in %d cycles without any stall' % (i, len(a), a[-1] - a[0] + 1))
    fl = opthread.fired(run, endc, R0)
    return viols, opthread.stats(log, H, run, endc, H.order, fl, {
        'items_in': sum(map(len, acc)), 'items_out': sum(map(len, got)), 'unstalled_runs': int(not run['sched'])})
