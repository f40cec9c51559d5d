"""A thread that executes a list of operations the simulator feeds it.

The generated function reads (k, a, b, c, d, e) from input ports (the test
bench serves them from ops<t>.hex, indexed by the thread's progress output) and
dispatches on k.  The test bench logs progress (O), results (E) and completion
(F), so that the history of calls can be judged afterwards.
"""
import re

from . import core

NOPS = 64


def decl(t, resw=64):
    L = []
    for p in 'kabcde':
        L.append('op%s%d = m.Input("op%s%d", 32)' % (p, t, p, t))
    L.append('opi%d = m.OutputReg("opi%d", 32, initval=0)' % (t, t))
    L.append('ev%d = m.OutputReg("ev%d", 32, initval=0)' % (t, t))
    L.append('res%d = m.OutputReg("res%d", %d, initval=0)' % (t, t, resw))
    L.append('done%d = m.OutputReg("done%d", initval=0)' % (t, t))
    return L


def ret(t, expr):
    return ['res%d.value = %s' % (t, expr), 'ev%d.value = ev%d + 1' % (t, t)]


def literal(v):
    """source text of an operation argument; values a 32-bit literal cannot carry go through a localparam"""
    return str(v) if v < (1 << 31) else 'lp_%x' % v


def linear(t, prog, lines_of):
    """Straight-line body: the operations follow each other without any
    dispatch in between, with literal arguments.  mark<t>(i) costs no state."""
    body = []
    n = 0
    for o in prog:
        if o.get('th', 0) != t:
            continue
        body.append('mark%d(%d)' % (t, n))
        for x in lines_of(o['k']):
            body.append(re.sub(r'(?<![\w.])([abcde])(?![\w=])', lambda m: literal(o.get(m.group(1), 0)), x))
        n += 1
    body.append('mark%d(%d)' % (t, n))
    return body


def linear_decl(t, prog):
    """module level lines a linear body needs (before the thread is made)"""
    L = []
    for v in sorted({o.get(x, 0) for o in prog if o.get('th', 0) == t for x in 'abcde'}):
        if v >= (1 << 31):
            L.append('lp_%x = m.Localparam("lp%d_%x", veriloggen.core.vtypes.Int(%d, width=32, base=16))' % (v, t, v, v))
    L += ['def mark%d(fsm, i):' % t, '    fsm(opi%d(i))' % t]
    return L


def start(t, cfg, kw=''):
    """thread creation and start"""
    L = ['th%d = vthread.Thread(m, "th%d", clk, rst, worker%d%s)' % (t, t, t, kw)]
    if cfg.get('prog'):
        L.append('th%d.add_intrinsics(mark%d)' % (t, t))
    return L + ['th%d.start()' % t]


def worker(t, stmts, go='go', name=None, prologue=(), epilogue=(), params='', prog=None):
    """stmts: list of (code, [source lines])"""
    body = []
    if go:
        body += ['while %s == 0:' % go, '    pass']
    body += list(prologue)
    if prog:
        d = dict(stmts)
        body += ['res%d.value = 0' % t, 'ev%d.value = 0' % t]       # a register that is never assigned is never reset
        body += linear(t, prog, d.__getitem__) + list(epilogue) + ['done%d.value = 1' % t]
        return linear_decl(t, prog) + ['def %s(%s):' % (name or 'worker%d' % t, params)] + ['    ' + x for x in body]
    body += ['i = 0', 'k = 1', 'opi%d.value = 0' % t, 'while k != 0:',
             '    k = opk%d' % t, '    a = opa%d' % t, '    b = opb%d' % t, '    c = opc%d' % t,
             '    d = opd%d' % t, '    e = ope%d' % t]
    kw = 'if'
    for code, lines in stmts:
        body.append('    %s k == %d:' % (kw, code))
        body += ['        ' + x for x in lines]
        kw = 'elif'
    body += ['    i += 1', '    opi%d.value = i' % t]
    body += list(epilogue)
    body += ['done%d.value = 1' % t]
    return ['def %s(%s):' % (name or 'worker%d' % t, params)] + ['    ' + x for x in body]


def tb(t, resw=64, idle=0):
    """-> (declarations, body, connections)"""
    D = ('reg [31:0] ops%d [0:%d]; initial $readmemh("ops%d.hex", ops%d);\n' % (t, NOPS * 8 - 1, t, t) +
         'wire [31:0] opi%d, ev%d; wire [%d:0] res%d; wire done%d; reg [31:0] opi%dp, ev%dp; reg done%dp; '
         'initial begin opi%dp=0; ev%dp=0; done%dp=0; end' % (t, t, resw - 1, t, t, t, t, t, t, t, t))
    conn = []
    for j, p in enumerate('kabcde'):
        conn.append('.op%s%d(ops%d[(opi%d%%%d)*8+%d])' % (p, t, t, t, NOPS, j))
    for p in ('opi', 'ev', 'res', 'done'):
        conn.append('.%s%d(%s%d)' % (p, t, p, t))
    B = ('always @(posedge CLK) if(RST) begin opi%(t)dp<=0; ev%(t)dp<=0; done%(t)dp<=0; end else begin '
         'if(ev%(t)d !== ev%(t)dp) $display("E %(t)d %%0d %%0h %%0h", cyc, ev%(t)d, res%(t)d); '
         'if(opi%(t)d !== opi%(t)dp) $display("O %(t)d %%0d %%0d", cyc, opi%(t)d); '
         'if(done%(t)d !== done%(t)dp) $display("F %(t)d %%0d", cyc); '
         'opi%(t)dp <= opi%(t)d; ev%(t)dp <= ev%(t)d; done%(t)dp <= done%(t)d; end' % {'t': t})
    return D, B, conn


def finish(nth, extra='1', n=30):
    """common part of a test bench: reset log, end when all threads are done"""
    D = 'reg [7:0] dr; initial dr=0;'
    B = ('always @(posedge CLK) begin if(RST) $display("RESET %%0d", cyc); '
         'if(RST) dr<=0; else if((%s) && %s) begin dr<=dr+1; if(dr==%d) begin $display("END %%0d", cyc); $finish; end end '
         'else dr<=0; end' %
         (extra, ' && '.join(['1'] + ['done%d===1' % t for t in range(nth)]), n))
    return D, B


def write_ops(rd, run, nth):
    for t in range(nth):
        w = []
        n = 0
        for o in run['ops']:
            if o.get('th', 0) == t:
                w += [o.get(x, 0) for x in 'kabcde'] + [0, 0]
                n += 1
        if n > NOPS - 2:
            raise core.HarnessError('too many operations')
        w += [0] * (NOPS * 8 - len(w))
        core.write_hex('%s/ops%d.hex' % (rd, t), w, 32)


def num(x, base=16):
    try:
        return int(x, base)
    except ValueError:
        return -1


class Hist:
    """Parsed history of the op threads; reset discards what came before."""

    def __init__(self, nth, lin=False):
        self.nth = nth
        self.d = int(bool(lin))       # a linear thread is in the first state of operation i one cycle before the log line
        self.nreset = 0
        self.end = None
        self.t_reset = 0
        self.order = []
        self.clear()

    def clear(self):
        self.began = {t: {} for t in range(self.nth)}
        self.evs = {t: [] for t in range(self.nth)}
        self.fin = {}

    def feed(self, p):
        """True if the line was one of ours."""
        k = p[0]
        if k == 'E':
            self.evs[int(p[1])].append((int(p[2]), p[4], num(p[3])))
            self.order.append('e' + p[1])
        elif k == 'O':
            self.began[int(p[1])][num(p[3], 10)] = int(p[2]) - self.d
            self.order.append('o' + p[1])
        elif k == 'F':
            self.fin[int(p[1])] = int(p[2])
        elif k == 'RESET':
            self.clear()
            if int(p[1]) != self.t_reset:
                self.nreset += 1
                self.order.append('X')
            self.t_reset = int(p[1]) + 1
        elif k == 'END':
            self.end = int(p[1])
        elif k == 'TIMEOUT':
            self.end = -int(p[1])
        else:
            return False
        return True

    @property
    def ok(self):
        return self.end is not None and self.end > 0


def fired(run, endc, off=0, extra=()):
    f = {}
    for e in run['sched']:
        if e['at'] + off < endc:
            f[e['k']] = f.get(e['k'], 0) + 1
    for k in extra:
        f[k] = f.get(k, 0) + 1
    return f


def stats(log, hist, run, endc, order, faults, probes, minorder=4):
    import hashlib
    return {'cycles': endc, 'faults': faults, 'probes': probes,
            'key': hashlib.sha256(' '.join(order).encode()).hexdigest()[:16],
            'nontrivial': bool(faults) and len(order) > minorder,
            'logh': hashlib.sha256(log.encode()).hexdigest()[:16]}
