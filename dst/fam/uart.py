"""UART transmitters and receivers, each side with its own clock.

mode 'link': two stations A and B, cross connected, on clocks of different frequency, skew and phase.
mode 'line': station A against a scheduled line partner (exact waveforms, glitches) and a line monitor.
Times are in nanoseconds of simulated time; the bit time is BIT."""
import os

from .. import core, genmod, opthread
from ..core import V

MINIMISE = ('b0', 'b1', 'line')
BIT = 96000          # nominal bit time of both stations
MAXB = 64


def w_of(r):
    return int(r + 0.5)


def build(cfg):
    L = [genmod.HEADER, 'from veriloggen.thread.uart import UartTx, UartRx, mkUartTx, mkUartRx']
    a = L.append
    for s, c in zip('ab', cfg['st']):
        kw = 'baudrate=%r, clockfreq=%r' % (c['baud'], c['freq'])
        a('def mk_%s():' % s)
        a('    m = Module("st_%s")' % s)
        a('    clk = m.Input("CLK")\n    rst = m.Input("RST")')
        a('    txd = m.Output("txd")\n    rxd = m.Input("rxd")')
        a('    din = m.Input("din", 8)\n    en = m.Input("en")\n    rdy = m.Output%s("rdy")' % ('Reg' if c['tx'] == 'thr' else ''))
        a('    busy = m.Input("busy")')
        a('    dout = m.Output%s("dout", 8)\n    valid = m.Output%s("valid")' % ((('Reg', 'Reg') if c['rx'] == 'thr' else ('', ''))))
        if c['tx'] == 'thr':
            a('    rdy.initval = 0')
            a('    tx = UartTx(m, "itx", "tx_", clk, rst, txd, %s)' % kw)
            a('    def sender():')
            a('        while True:')
            a('            while not en:\n                pass')
            a('            v = din')
            a('            rdy.value = 1\n            rdy.value = 0')
            if c.get('lock'):
                a('            tx.lock()')
            a('            tx.send(v)')
            if c.get('lock'):
                a('            tx.unlock()')
            a('    th = vthread.Thread(m, "th_tx", clk, rst, sender)\n    th.start()')
        else:
            a('    m.Instance(mkUartTx(%s), "itx", ports=[("CLK", clk), ("RST", rst), ("din", din), ("enable", en), ("ready", rdy), ("txd", txd)])' % kw)
        if c['rx'] == 'thr':
            a('    valid.initval = 0\n    dout.initval = 0')
            a('    rx = UartRx(m, "irx", "rx_", clk, rst, rxd, %s)' % kw)
            a('    def receiver():')
            a('        while True:')
            a('            c = rx.recv()')
            a('            dout.value = c\n            valid.value = 1\n            valid.value = 0')
            a('            while busy:\n                pass')
            a('    tr = vthread.Thread(m, "th_rx", clk, rst, receiver)\n    tr.start()')
        else:
            a('    m.Instance(mkUartRx(%s), "irx", ports=[("CLK", clk), ("RST", rst), ("rxd", rxd), ("dout", dout), ("valid", valid)])' % kw)
        a('    return m')
    a('def mk():')
    a('    m = Module("dut")')
    a('    A = mk_a()\n    B = mk_b()')
    for s in 'ab':
        a('    p = [(n, m.Input("%s_" + n)) for n in ("CLK", "RST", "rxd", "en", "busy")] + [("din", m.Input("%s_din", 8))]' % (s, s))
        a('    p += [(n, m.Output("%s_" + n)) for n in ("txd", "rdy", "valid")] + [("dout", m.Output("%s_dout", 8))]' % (s, s))
        a('    m.Instance(%s, "i%s", ports=p)' % (s.upper(), s))
    a('    return m')
    return genmod.load('\n'.join(L)).mk().to_verilog()


def tb(cfg):
    return '''`timescale 1ns/1ns
module station(input integer half, input integer phase, output reg CLK, output reg RST, output reg en, output reg [7:0] din, input rdy, input txd, input valid, input [7:0] dout, output reg busy, input go);
  parameter ID = 0; parameter THR = 0; parameter RTHR = 0;
  reg [31:0] bytes [0:MAXB]; reg [31:0] hold [0:MAXB];
  integer n, i, k, gap; reg got; initial got = 0;
  initial begin CLK = 0; RST = 1; en = 0; din = 8'h5a; busy = 0; i = 0; n = 0; k = 0; gap = 0; end
  initial begin @(posedge go); #(phase); repeat(8) begin #(half) CLK = 1; #(half) CLK = 0; end RST = 0; forever begin #(half) CLK = 1; #(half) CLK = 0; end end
  wire take = en && rdy;
  // bytes[j] = gap before the byte (in clocks) << 8 | byte
  always @(negedge CLK) if(!RST) begin
    if(!en || got) begin
      en <= 0; got = 0;
      din <= $random;
      if(i < n) begin
        if(gap >= bytes[i][31:8]) begin en <= 1; din <= bytes[i][7:0]; gap <= 0; end
        else gap <= gap + 1;
      end
    end
  end
  always @(posedge CLK) if(!RST && take) begin $display("ACC %0d %0d %0h", ID, $time, din); i <= i + 1; got = 1; end
  always @(posedge CLK) if(!RST && valid !== 1'b0) $display("RCV %0d %0d %0h%s", ID, $time, dout, valid === 1'b1 ? "" : " x");
  integer b;
  always @(negedge CLK) if(!RST) begin
    if(valid === 1'b1) begin b <= hold[k]; k <= k + 1; busy <= hold[k] != 0; end
    else if(busy) begin if(b <= 1) busy <= 0; b <= b - 1; end
  end
  always @(txd) if(!RST) $display("TX %0d %0d %b", ID, $time, txd);
endmodule
module tb;
  reg [31:0] prm [0:63];
  reg go;
  wire [1:0] C, R, EN, RDY, TXD, VAL, BUSY; wire [15:0] DIN, DOUT;
  reg line; wire [1:0] rxd = {TXD[0], prm[0][0] ? line : TXD[1]};
  reg [31:0] wav [0:4095];
  integer j;
  initial begin
    go = 0; line = 1;
    $readmemh("p.hex", prm); $readmemh("b0.hex", s0.bytes); $readmemh("b1.hex", s1.bytes);
    $readmemh("h0.hex", s0.hold); $readmemh("h1.hex", s1.hold); $readmemh("wav.hex", wav);
    s0.n = prm[5]; s1.n = prm[9];
    #1 go = 1;
    // wav[j] = duration << 1 | level
    for(j = 0; j < prm[2]; j = j + 1) begin line = wav[j][0]; if(wav[j][0] == 0) $display("LN %0d", $time); #(wav[j][31:1]); end
    line = 1;
  end
  initial begin #2 #(prm[1]); $display("STOP %0d", $time); $finish; end
  station #(.ID(0)) s0(prm[3], prm[4], C[0], R[0], EN[0], DIN[7:0], RDY[0], TXD[0], VAL[0], DOUT[7:0], BUSY[0], go);
  station #(.ID(1)) s1(prm[7], prm[8], C[1], R[1], EN[1], DIN[15:8], RDY[1], TXD[1], VAL[1], DOUT[15:8], BUSY[1], go);
  dut uut(.a_CLK(C[0]), .a_RST(R[0]), .a_rxd(rxd[0]), .a_en(EN[0]), .a_din(DIN[7:0]), .a_rdy(RDY[0]), .a_txd(TXD[0]), .a_valid(VAL[0]), .a_dout(DOUT[7:0]), .a_busy(BUSY[0]),
          .b_CLK(C[1]), .b_RST(R[1]), .b_rxd(rxd[1]), .b_en(EN[1]), .b_din(DIN[15:8]), .b_rdy(RDY[1]), .b_txd(TXD[1]), .b_valid(VAL[1]), .b_dout(DOUT[15:8]), .b_busy(BUSY[1]));
endmodule
'''.replace('MAXB', str(MAXB))


def gen_cfg(rng, i=0, style={}):
    st = []
    for _ in range(2):
        r = rng.choice([6, 8, 8, 10, 12, 16, 20, 25, 33, 52.08, 8.6, 13.9, 16.7, 27.5, 11.6, 64, 100])
        baud = rng.choice([1, 10, 9600, 19200, 115200])
        st.append({'r': r, 'baud': baud, 'freq': baud * r if rng.random() < 0.5 or r != int(r) else int(baud * r),
                   'tx': rng.choice(['thr', 'rtl']), 'rx': rng.choice(['thr', 'rtl']), 'lock': int(rng.random() < 0.3)})
    return {'st': st, 'mode': rng.choice(['link', 'line'])}


def tolerable(L, N, idle=4):
    """Does a receiver that counts N clocks per bit sample bits of L of its clocks safely?"""
    for k in range(0, 9):
        lo, hi = N // 2 + k * N - 1.2, N / 2.0 + k * N + 2.2
        if lo < k * L + 0.3 or hi > (k + 1) * L - 0.3:
            return False
    # back in the idle state before the next start bit
    return N / 2.0 + 9 * N + idle < 10 * L


def half_of(c, ppm):
    """half a clock period of a station in ns"""
    return max(1, int(round(BIT / c['r'] * (1 + ppm * 1e-6) / 2)))


def gen_run(cfg, rng, style={}):
    A, B = cfg['st']
    run = {'phase': [rng.randrange(0, 20000), rng.randrange(0, 20000)], 'hold': [], 'line': []}
    for _ in range(200):
        run['ppm'] = [rng.choice([0, 0, rng.randrange(-1000, 1000), rng.randrange(-30000, 30000), rng.randrange(-60000, 60000)]) for _ in range(2)]
        ha, hb = half_of(A, run['ppm'][0]), half_of(B, run['ppm'][1])
        ok = tolerable(w_of(A['r']) * ha / float(hb), w_of(B['r']))
        if cfg['mode'] == 'link':
            ok = ok and tolerable(w_of(B['r']) * hb / float(ha), w_of(A['r']))
        if ok:
            break
    else:
        run['ppm'] = [0, 0]
        run['loose'] = 1      # no pair of clocks fits: only the lines are checked
    for s in (0, 1):
        bl = []
        n = 0 if s and cfg['mode'] == 'line' else rng.choice([1, 2, 5, 10, 20])
        for _ in range(n):
            N = w_of(cfg['st'][s]['r'])
            gap = rng.choice([0, 0, 0, 1, 2, 3, rng.randrange(0, N), rng.randrange(0, 10 * N), rng.randrange(0, 40 * N)])
            bl.append([gap, rng.choice([0, 255, 0x55, 0xaa, 1, 128, 0x7f, 0xfe] + [rng.randrange(256)] * 8)])
        run['b%d' % s] = bl
        hmax = 8 * w_of(cfg['st'][s]['r'])
        run['hold'].append([rng.choice([0, 0, 1, rng.randrange(0, hmax)]) for _ in range(MAXB)])
    if cfg['mode'] == 'line':
        ha = half_of(A, run['ppm'][0])
        N = w_of(A['r'])
        for _ in range(rng.choice([1, 3, 8, 20])):
            # bit time of the partner, in percent of the bit time of this receiver
            for _ in range(50):
                pc = rng.choice([0, 0, rng.uniform(-1, 1), rng.uniform(-3, 3), rng.uniform(-6, 6)])
                L = BIT * (1 + pc / 100.0)
                if tolerable(L / (2.0 * ha), N):
                    break
            else:
                break
            k = rng.random()
            gl = []
            if k < 0.25 and N >= 10:
                for _ in range(rng.choice([1, 1, 2, 3])):
                    # a short low pulse, then idle until the receiver has looked again
                    w = rng.randrange(1, max(2, int((N / 2 - 3) * 2 * ha)))
                    gl.append([w, (N // 2 + 4) * 2 * ha + rng.randrange(0, BIT)])
            # bits are subject to jitter of up to half a clock
            run['line'].append({'gap': rng.choice([0, 0, 0, rng.randrange(0, BIT), rng.randrange(0, 20 * BIT)]), 'byte': rng.choice([0, 255, 0x55, 0xaa] + [rng.randrange(256)] * 8),
                                'bit': int(L), 'glitch': gl})
    return run


def waves(cfg, run):
    """-> list of (level, duration), list of (byte, time of the start edge, bit) for the line"""
    W = []
    t = 1
    fr = []
    if cfg['mode'] == 'line':
        d = 60 * 2 * half_of(cfg['st'][0], run['ppm'][0]) + run['phase'][0] + 12 * BIT // 10
        W.append((1, d))
        t += d
    for f in run['line']:
        for w, idle in f['glitch']:
            W.append((0, w))
            W.append((1, idle))
            t += w + idle
        if f['gap']:
            W.append((1, f['gap']))
            t += f['gap']
        fr.append((f['byte'], t, f['bit']))
        for b in [0] + [f['byte'] >> i & 1 for i in range(8)] + [1]:
            W.append((b, f['bit']))
            t += f['bit']
    return W, fr, t


def horizon(cfg, run):
    t = waves(cfg, run)[2]
    for s in (0, 1):
        c = cfg['st'][s]
        p = 2 * half_of(c, run['ppm'][s])
        n = w_of(c['r'])
        t = max(t, run['phase'][s] + p * (60 + sum(g + 13 * n + 40 for g, _ in run['b%d' % s])))
    return t + 14 * BIT * 13 // 10


def files(cfg, run, rd):
    p = [0] * 64
    p[0] = int(cfg['mode'] == 'line')
    p[1] = horizon(cfg, run)
    W = waves(cfg, run)[0]
    p[2] = len(W)
    for s in (0, 1):
        p[3 + 4 * s] = half_of(cfg['st'][s], run['ppm'][s])
        p[4 + 4 * s] = run['phase'][s]
        p[5 + 4 * s] = len(run['b%d' % s])
        core.write_hex('%s/b%d.hex' % (rd, s), ([g << 8 | b for g, b in run['b%d' % s]] + [0] * (MAXB + 1))[:MAXB + 1])
        core.write_hex('%s/h%d.hex' % (rd, s), (run['hold'][s] + [0] * (MAXB + 1))[:MAXB + 1])
    core.write_hex(rd + '/p.hex', p)
    core.write_hex(rd + '/wav.hex', ([d << 1 | l for l, d in W] + [1] * 4096)[:4096])


def decode(edges, L, tol, end):
    """Frames on a line: edges [(time, level)], bit time L.  -> [(byte, start)], error"""
    fr = []
    lv = 1
    i = 0
    while i < len(edges):
        t0, l = edges[i]
        if l != 0:
            return fr, 'the line was driven to %s while idle at %d' % (l, t0)
        bits = []
        cur = 0
        j = i + 1
        for k in range(1, 10):
            tk = t0 + k * L
            # at most one change, close to the boundary
            ch = []
            while j < len(edges) and edges[j][0] < tk + L / 2.0:
                ch.append(edges[j])
                j += 1
            for t, v in ch:
                if abs(t - tk) > tol or v not in (0, 1):
                    return fr, 'change to %s at %d, bit boundaries at %d + k * %.1f' % (v, t, t0, L)
                cur = v
            bits.append(cur)
        if bits[8] != 1:
            return fr, 'stop bit of the frame at %d is low' % t0
        fr.append((sum(b << k for k, b in enumerate(bits[:8])), t0))
        if j < len(edges) and edges[j][0] < t0 + 10 * L - tol:
            return fr, 'the stop bit of the frame at %d is shorter than a bit' % t0
        i = j
    return fr, None


def check(cfg, run, log):
    viols = []

    def add(cls, msg):
        if not any(v['class'] == cls for v in viols):
            viols.append(V(cls, msg))
    acc, rcv, tx = [[], []], [[], []], [[], []]
    stop = None
    order = []
    for l in log.split('\n'):
        p = l.split()
        if not p:
            continue
        if p[0] == 'ACC':
            acc[int(p[1])].append((int(p[2]), int(p[3], 16)))
        elif p[0] == 'RCV':
            rcv[int(p[1])].append((int(p[2]), p[3], len(p) > 4))
        elif p[0] == 'TX':
            tx[int(p[1])].append((int(p[2]), {'0': 0, '1': 1}.get(p[3], p[3])))
        elif p[0] == 'STOP':
            stop = int(p[1])
        if p[0] in ('ACC', 'RCV'):
            order.append((p[0], p[1]))
    if stop is None:
        return [V('sim-stopped', 'the simulation ended early')], {}
    frames = [[], []]
    for s in (0, 1):
        c = cfg['st'][s]
        per = 2 * half_of(c, run['ppm'][s])
        n = 'station %d' % s
        # the first change after power up to the idle level is no frame
        e = [x for x in tx[s]]
        if e and e[0][1] == 1:
            e = e[1:]
        # the bit is as long as whole clocks allow
        L = w_of(c['r']) * per
        fr, err = decode(e, L, 0.5 * per + 1 + 0.02 * L, stop)
        if err:
            add('frame', '%s: %s' % (n, err))
        # exact timing: every edge lies a whole number of bits after the start edge
        want = [b for _, b in run['b%d' % s]]
        if [b for _, b in acc[s]] != want:
            add('not-accepted', '%s accepted %s of %s' % (n, [b for _, b in acc[s]], want))
        if [b for b, _ in fr] != [b for _, b in acc[s]] and not err:
            add('wrong-frame', '%s accepted %s and sent %s' % (n, [b for _, b in acc[s]], [b for b, _ in fr]))
        for (ta, _), (_, tf) in zip(acc[s], fr):
            if tf < ta:
                add('wrong-frame', '%s: frame at %d before its byte was accepted at %d' % (n, tf, ta))
        # a byte follows the one before without needless delay
        for k in range(len(fr)):
            t = max(acc[s][k][0] if k < len(acc[s]) else 0, fr[k - 1][1] + 10 * L if k else 0)
            if fr[k][1] - t > 2 * L + 20 * per:
                add('late-frame', '%s: frame %d at %d, accepted at %s' % (n, k, fr[k][1], acc[s][k:k + 1]))
        frames[s] = [(b, t, L) for b, t in fr]
    if viols == []:
        inc = [waves(cfg, run)[1] if cfg['mode'] == 'line' else frames[1], frames[0]]
        for s in (0, 1):
            if run.get('loose') and not (cfg['mode'] == 'line' and s == 0):
                continue
            n = 'station %d' % s
            per = 2 * half_of(cfg['st'][s], run['ppm'][s])
            got = rcv[s]
            for k, (b, t, L) in enumerate(inc[s]):
                if k >= len(got):
                    if t + 11 * L + 30 * per < stop:
                        add('lost-byte', '%s did not deliver byte %d (%02x, start bit at %d)' % (n, k, b, t))
                    break
                if set(got[k][1]) & set('xz') or int(got[k][1], 16) != b or got[k][2]:
                    add('wrong-byte', '%s delivered %s at %d instead of byte %d (%02x, start bit at %d)' % (n, got[k][1], got[k][0], k, b, t))
                    break
                if not t + 8 * L < got[k][0] < t + 11 * L + 30 * per:
                    add('late-byte', '%s delivered byte %d at %d, its frame began at %d' % (n, k, got[k][0], t))
                    break
            if len(got) > len(inc[s]):
                add('phantom-byte', '%s delivered %d bytes, %d were sent' % (n, len(got), len(inc[s])))
    gl = sum(len(f['glitch']) for f in run['line'])
    fl = {}
    if gl:
        fl['glitch'] = gl
    for q in run['ppm']:
        if q:
            fl['clock_skew'] = fl.get('clock_skew', 0) + 1
    hold = sum(1 for s in (0, 1) for h in run['hold'][s][:len(rcv[s])] if h)
    if hold:
        fl['slow_consumer'] = hold
    sk = sum(f['bit'] != BIT for f in run['line'])
    if sk:
        fl['partner_skew'] = sk
    return viols, {'cycles': stop // BIT, 'faults': fl, 'key': core.digest(order + [run['ppm'], run['phase']]), 'nontrivial': len(order) > 3,
                   'probes': {'frames': sum(map(len, frames)), 'delivered': sum(map(len, rcv)), 'back_to_back': sum(1 for s in (0, 1) for g, _ in run['b%d' % s] if g == 0),
                              'loose': run.get('loose', 0)},
                   'logh': core.digest(log)}
