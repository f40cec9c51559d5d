"""Small descriptions that share names and helper modules with each other."""
import random
from veriloggen import *
import veriloggen.thread as vthread
import veriloggen.dataflow as dataflow
import veriloggen.stream as vstream
import veriloggen.types.fixed as fx


def base(name='main'):
    m = Module(name)
    clk = m.Input('CLK')
    rst = m.Input('RST')
    return m, clk, rst


def copy(r):
    m, clk, rst = base()
    w = r.choice((16, 32))
    a = vthread.RAM(m, 'a', clk, rst, w, r.choice((6, 8)))
    b = vthread.RAM(m, 'b', clk, rst, w, 8)
    ops = [(r.choice((0, 1)), r.choice((0, 1)), r.randrange(1, 9)) for _ in range(r.randrange(1, 4))]

    def f():
        pass
    L = ['def f():']
    for kind, back, n in ops:
        s, d = ('b', 'a') if back else ('a', 'b')
        if kind:
            L.append('    vthread.copy_pattern(%s, %s, 0, 0, ((%d, 1),), ((%d, 1),))' % (s, d, n, n))
        else:
            L.append('    vthread.copy(%s, %s, 0, 0, %d)' % (s, d, n))
    from dst import genmod
    mod = genmod.load('import veriloggen.thread as vthread\n' + '\n'.join(L) + '\n')
    mod.a, mod.b = a, b
    th = vthread.Thread(m, 'th', clk, rst, mod.f)
    th.start()
    return m


def operand(r, xs, lib):
    return r.choice(xs) if r.random() < 0.8 else lib.Constant(r.randrange(1, 100))


def arith(r, xs, lib, n):
    out = []
    for _ in range(n):
        a, b = operand(r, xs, lib), operand(r, xs, lib)
        k = r.randrange(6)
        if k == 0:
            y = a + b
        elif k == 1:
            y = a - b
        elif k == 2:
            y = a * b
        elif k == 3:
            y = lib.Mux(a > b, a, b)
        elif k == 4:
            y = a & b
        else:
            y = lib.Madd(a, b, a) if hasattr(lib, 'Madd') else a * b + a
        xs = xs + [y]
        out.append(y)
    return out


def flow(r):
    xs = [dataflow.Variable('x%d' % i, valid='v%d' % i, ready='r%d' % i, signed=True) for i in range(r.randrange(2, 5))]
    ys = arith(r, xs, dataflow, r.randrange(4, 14))
    outs = r.sample(ys, min(len(ys), r.randrange(1, 5)))
    for i, y in enumerate(outs):
        y.output('y%d' % i, valid='yv%d' % i, ready='yr%d' % i)
    return dataflow.Dataflow(*outs).to_module('main')


def strm(r):
    m, clk, rst = base()
    s = vthread.Stream(m, 's', clk, rst)
    xs = [s.source('x%d' % i) for i in range(r.randrange(1, 4))]
    ys = arith(r, xs, s, r.randrange(3, 10))
    outs = r.sample(ys, min(len(ys), r.randrange(1, 4)))
    for i, y in enumerate(outs):
        s.sink(y, 'y%d' % i)
    a = vthread.RAM(m, 'a', clk, rst, 32, 8)
    b = vthread.RAM(m, 'b', clk, rst, 32, 8)
    L = ['def f():'] + ["    s.set_source('x%d', a, 0, 8)" % i for i in range(1)] + ["    s.set_sink('y0', b, 0, 8)", '    s.run()', '    s.join()']
    from dst import genmod
    mod = genmod.load('\n'.join(L) + '\n')
    mod.a, mod.b, mod.s = a, b, s
    th = vthread.Thread(m, 'th', clk, rst, mod.f)
    th.start()
    return m


def banks(r):
    m, clk, rst = base()
    rams = [vthread.RAM(m, n, clk, rst, 32, 6) for n in 'abcd'[:r.choice((2, 4))]]
    mb = vthread.to_multibank_ram(rams, 'mb')
    mc = vthread.MultibankRAM(m, 'mc', clk, rst, 32, 6, numbanks=len(rams))
    from dst import genmod
    mod = genmod.load('def f():\n    for i in range(%d):\n        mb.write(i, mc.read(i) + i)\n' % r.randrange(2, 20))
    mod.mb, mod.mc = mb, mc
    th = vthread.Thread(m, 'th', clk, rst, mod.f)
    th.start()
    return m


def fixed(r):
    m, clk, rst = base()
    p = r.choice((4, 8))
    x = fx.FixedReg(m, 'x', 32, point=p, initval=0)
    y = fx.FixedReg(m, 'y', 32, point=p, initval=0)
    seq = Seq(m, 'seq', clk, rst)
    for _ in range(r.randrange(1, 5)):
        seq.If(x > y)(y.write(x * y + x) if hasattr(y, 'write') else y(x + y))
        seq(x.write(x + y) if hasattr(x, 'write') else x(x + y))
    seq.make_always()
    return m


def autos(r):
    """Automatic names of every kind."""
    m, clk, rst = base()
    seq = TmpSeq(m, clk, rst)
    fsm = TmpFSM(m, clk, rst)
    regs = [m.TmpReg(8, initval=0) for _ in range(r.randrange(2, 6))]
    for i, x in enumerate(regs):
        if r.random() < 0.5:
            seq.If(regs[i - 1] > i)(x.inc())
            seq.Delay(r.randrange(1, 4))(regs[i - 1](0)) if r.random() < 0 else None
        else:
            fsm.If(seq.Prev(regs[0], r.randrange(1, 4)) == i)(x(i)) if r.random() < 0.4 and i else fsm(x(i))
            fsm.goto_next()
    w = m.TmpWire(8)
    w.assign(regs[0] + regs[-1])
    fsm.make_always()
    seq.make_always()
    return m


KINDS = {'copy': copy, 'flow': flow, 'strm': strm, 'banks': banks, 'fixed': fixed, 'autos': autos}


def build(kind, seed):
    return KINDS[kind](random.Random(seed))
