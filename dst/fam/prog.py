"""Random thread programs: the compiled thread against Python executing the same text."""
import ast

from .. import bfm, core, genmod, opthread
from ..core import V

OVERSAMPLE = 0       # drawing a design is slow, and most of it is text
SCH = 2048
R0 = 6
MINIMISE = ('sched',)
SENT = 65536
NIN = 4
LIMIT = 2500


# ---------------------------------------------------------------- programs

class G:
    """Generator of one thread's functions."""

    def __init__(self, rng, t, link_in, link_out, feats):
        self.r = rng
        self.t = t
        self.li, self.lo = link_in, link_out
        self.f = feats
        self.nf = rng.choice([0, 1, 2, 3])
        self.sig = {}
        self.k = 0

    def fresh(self, p):
        self.k += 1
        return '%s%d' % (p, self.k)

    def expr(self, vs, d=2, call=True):
        r = self.r
        u = r.random()
        if d == 0 or u < 0.25:
            return r.choice(vs) if r.random() < 0.7 else str(r.choice([0, 1, 2, 3, 5, 7, 12, 100, 255, 4096, r.randint(0, 60000)]))
        e = lambda: self.expr(vs, d - 1, call)
        if u < 0.6:
            return '(%s %s %s)' % (e(), r.choice(['+', '-', '+', '-', '*', '&', '|', '^']), e())
        if u < 0.66:
            return '(%s %s (%s & 7))' % (r.choice(vs), r.choice(['<<', '>>', '>>']), e())
        if u < 0.7:
            return '((%s & 255) %s ((%s & 7) + 1))' % (e(), r.choice(['//', '%']), r.choice(vs))
        if u < 0.76:
            return '(%s%s)' % (r.choice(['-', '~', '+', '-']), r.choice(vs))
        if u < 0.83:
            return '(%s if %s else %s)' % (self.expr(vs, d - 1, False), self.cond(vs, 1, False), self.expr(vs, d - 1, False))
        if call:
            c = self.call(vs)
            if c:
                return c
        return r.choice(vs)

    def cond(self, vs, d=2, call=True):
        r = self.r
        u = r.random()
        e = lambda: self.expr(vs, 1, call)
        if d and u < 0.2:
            return '(%s %s %s)' % (self.cond(vs, d - 1, False), r.choice(['and', 'or']), self.cond(vs, d - 1, False))
        if d and u < 0.3:
            return '(not %s)' % self.cond(vs, d - 1, call)
        if d and u < 0.38:
            return '(%s %s %s %s %s)' % (r.choice(vs), r.choice(['<', '<=', '>', '!=']), e(), r.choice(['<', '<=', '>=', '==']), r.choice(vs))
        if u < 0.46:
            return '(%s & %d)' % (r.choice(vs), r.choice([1, 2, 3, 8]))
        return '(%s %s %s)' % (e(), r.choice(['<', '<=', '>', '>=', '==', '!=']), e())

    def call(self, vs):
        r = self.r
        u = r.random()
        t = self.t
        if u < 0.2 and 'ram' in self.f:
            return 'ram%d.read(%s & 7)' % (t, r.choice(vs))
        if u < 0.28 and 'shared' in self.f:
            return 'sh%d.read()' % t
        fs = [n for n in self.sig]
        if not fs:
            return None
        n = r.choice(fs)
        ps, nd = self.sig[n]
        self.calls.add(n)
        npos = r.randint(0, len(ps))
        args = [self.expr(vs, 1, False) for _ in range(npos)]
        kw = []
        for i in range(npos, len(ps)):
            if i >= len(ps) - nd and r.random() < 0.5:
                continue
            kw.append('%s=%s' % (ps[i], self.expr(vs, 1, False)))
        r.shuffle(kw)
        return '%s(%s)' % (n, ', '.join(args + kw))

    def out(self, vs):
        r = self.r
        t = self.t
        u = r.random()
        if u < 0.3 and 'print' in self.f:
            n = r.randint(1, 3)
            a = [r.choice(vs) for _ in range(n)]
            m = r.choice(['c', 'f', '%', 't'])
            if m == 'c':
                return ["print('PR%d', %s)" % (t, ', '.join(a))]
            if m == 't':
                return ["print(('PR%d', %s))" % (t, ', '.join(a))]
            if m == 'f':
                return ["print(f'PR%d %s')" % (t, ' '.join('{%s}' % x for x in a))]
            return ["print('PR%d %s' %% (%s))" % (t, ' '.join('%d' for _ in a), ', '.join(a) + ',')]
        return ['res%d.value = %s' % (t, self.expr(vs)), 'ev%d.value = ev%d + 1' % (t, t)]

    def block(self, vs, d, n, inloop=False, infun=False, ro=()):
        """vs: readable variables; those not in ro may be assigned"""
        r = self.r
        L = []
        t = self.t
        for _ in range(n):
            u = r.random()
            w = [v for v in vs if v not in ro]
            ind = lambda b: ['    ' + x for x in b]
            if u < 0.2 and w:
                L.append('%s = %s' % (r.choice(w), self.expr(vs, 2)))
            elif u < 0.27 and w:
                L.append('%s %s= %s' % (r.choice(w), r.choice(['+', '-', '*', '&', '|', '^', '+']), self.expr(vs, 1)))
            elif u < 0.31 and len(w) > 1:
                a, b = r.sample(w, 2)
                L.append(r.choice(['%s, %s = %s, %s' % (a, b, b, a), '%s = %s = %s' % (a, b, self.expr(vs, 1)), '%s, %s = %s, %s' % (a, b, self.expr(vs, 1), self.expr(vs, 1)),
                                   '(%s, %s) = [%s, %s]' % (a, b, b, self.expr(vs, 1, False))]))
            elif u < 0.42:
                L += self.out(vs)
            elif u < 0.5 and self.f:
                f = r.choice(sorted(self.f))
                if f == 'ram':
                    L.append('ram%d.write(%s & 7, %s)' % (t, r.choice(vs), self.expr(vs, 1)))
                elif f == 'shared':
                    L.append('sh%d.write(%s)' % (t, self.expr(vs, 1)))
                elif f == 'mutex':
                    L += ['mx.lock()'] + self.out(vs) + ['mx.unlock()']
                elif f == 'stall':
                    L += ['while stall%d:' % t, '    pass']
            elif u < 0.55 and self.lo and not infun:
                L.append('ff%d.enq(%s & 4095)' % (t, self.expr(vs, 1)))
            elif u < 0.72 and d:
                L.append('if %s:' % self.cond(vs))
                L += ind(self.block(vs, d - 1, r.randint(1, 3), inloop, infun, ro))
                while r.random() < 0.3:
                    L.append('elif %s:' % self.cond(vs))
                    L += ind(self.block(vs, d - 1, r.randint(1, 2), inloop, infun, ro))
                if r.random() < 0.5:
                    L.append('else:')
                    L += ind(self.block(vs, d - 1, r.randint(1, 3), inloop, infun, ro))
            elif u < 0.82 and d:
                L += self.floop(vs, d, infun, ro)
            elif u < 0.91 and d:
                L += self.wloop(vs, d, infun, ro)
            elif u < 0.96 and inloop:
                L.append(r.choice(['break', 'continue']))
                break
            elif infun and u < 0.985:
                L.append('return %s' % self.expr(vs, 1))
                break
            elif r.random() < 0.3:
                L.append('pass')
        return L or ['pass']

    def loopelse(self, vs, d, infun, ro):
        if 'else' in self.opt and self.r.random() < 0.25:
            return ['else:'] + ['    ' + x for x in self.block(vs, d - 1, self.r.randint(1, 2), False, infun, ro)]
        return []

    def floop(self, vs, d, infun, ro):
        r = self.r
        i = self.fresh('i')
        L = []
        u = r.random()
        if u < 0.3:
            it = 'range(%d)' % r.randint(0, 5)
        elif u < 0.5:
            a = r.randint(-3, 4)
            it = 'range(%d, %d, %d)' % (a, a + r.randint(-2, 7), r.randint(1, 3))
        elif u < 0.62:
            a = r.randint(-2, 4)
            it = 'range(%d, %d, %d)' % (a, a - r.randint(-2, 7), -r.randint(1, 3))
        elif u < 0.8:
            n = self.fresh('n')
            L.append('%s = %s & 7' % (n, self.expr(vs, 1)))
            ro = tuple(ro) + (n,)
            it = r.choice(['range(%s)' % n, 'range(2, %s)' % n, 'range(%s, 6)' % n, 'range(%s, 9, 2)' % n])
            if r.random() < 0.25:
                s = self.fresh('s')
                L.append('%s = ((%s & 3) - 4) if %s else ((%s & 3) + 1)' % (s, r.choice(vs), self.cond(vs, 0, False), r.choice(vs)))
                ro = ro + (s,)
                it = r.choice(['range(3, %s, %s)', 'range(%s, 3, %s)']) % (n, s)
        else:
            el = [str(r.randint(0, 99)) for _ in range(r.randint(1, 4))]
            it = r.choice(['(%s,)', '[%s]']) % ', '.join(el)
        vs2 = list(vs) + [i]
        L.append('for %s in %s:' % (i, it))
        L += ['    ' + x for x in self.block(vs2, d - 1, r.randint(1, 3), True, infun, tuple(ro) + (i,))]
        return L + self.loopelse(vs, d, infun, ro)

    def wloop(self, vs, d, infun, ro):
        r = self.r
        k = self.fresh('k')
        L = ['%s = %d' % (k, r.randint(0, 4))]
        u = r.random()
        ro = tuple(ro) + (k,)
        vs2 = list(vs) + [k]
        if u < 0.35:
            L.append('while %s > 0:' % k)
        elif u < 0.55:
            L.append('while %s > 0 and %s:' % (k, self.cond(vs2, 1, False)))
        elif u < 0.75 and self.sig:
            n = r.choice(sorted(self.sig))
            ps, nd = self.sig[n]
            self.calls.add(n)
            L.append('while (%s(%s) + %s) != %s and %s > 0:' % (n, ', '.join(r.choice(vs2) for _ in ps), r.choice(vs2), r.choice(vs2), k))
        else:
            L.append('while %s:' % r.choice(['True', '1']))
            L.append('    if %s <= 0:' % k)
            L.append('        break')
        b = self.block(vs2, d - 1, r.randint(1, 3), True, infun, ro)
        L += ['    %s -= 1' % k] + ['    ' + x for x in b]
        return L + self.loopelse(vs, d, infun, ro)

    def function(self, n):
        r = self.r
        np_ = r.randint(1, 4)
        ps = ['p%d' % i for i in range(np_)]
        nd = r.choice([0, 0, 1, min(2, np_)])
        hd = [p if i < np_ - nd else '%s=%d' % (p, r.randint(0, 50)) for i, p in enumerate(ps)]
        body = ['q = %s' % self.expr(ps, 1)] + self.block(ps + ['q'], 2, r.randint(1, 4), False, True) + ['return %s' % self.expr(ps + ['q'], 1)]
        return ps, nd, ['def %s(%s):' % (n, ', '.join(hd))] + ['    ' + x for x in body]

    def program(self, opt):
        r = self.r
        t = self.t
        self.opt = opt
        self.calls = set()
        F = []
        sig = {}
        for i in range(self.nf):
            n = 'f%d_%d' % (t, i)
            ps, nd, L = self.function(n)
            F.append(L)
            sig[n] = (ps, nd)
            self.sig = dict(sig)
        vs = ['v%d' % i for i in range(NIN)] + ['z']
        body = ['v%d = in%d_%d' % (i, t, i) for i in range(NIN)] + ['z = 3']
        if 'ram' in self.f:
            body += ['for i0 in range(8):', '    ram%d.write(i0, i0 * 5)' % t]
        if 'shared' in self.f:
            body += ['sh%d.write(11)' % t]
        if self.li:
            u = self.fresh('u')
            pre = self.block(vs, 2, r.randint(0, 3))
            b = self.block(vs + [u], 2, r.randint(2, 5), False, False, (u,))
            body += pre + ['%s = ff%d.deq()' % (u, t - 1), 'while %s != %d:' % (u, SENT)] + ['    ' + x for x in b] + ['    %s = ff%d.deq()' % (u, t - 1)]
        else:
            body += self.block(vs, 3, r.randint(4, 9))
        body += ['res%d.value = %s' % (t, ' + '.join(vs)), 'ev%d.value = ev%d + 1' % (t, t)]
        if self.lo:
            body.append('ff%d.enq(%d)' % (t, SENT))
        body.append('done%d.value = 1' % t)
        for L in F:
            yield L
        yield ['def worker%d():' % t] + ['    ' + x for x in body]


# ---------------------------------------------------------------- Python execution

class TooLong(Exception):
    pass


class Ctx:
    width = 32
    ops = 0


def wrap(v):
    Ctx.ops += 1
    if Ctx.ops > LIMIT:
        raise TooLong()
    w = Ctx.width
    v &= (1 << w) - 1
    return W(v - (1 << w) if v >> (w - 1) else v)


class W(int):
    pass


def _mk():
    for n in ('add', 'sub', 'mul', 'and', 'or', 'xor', 'lshift', 'rshift', 'floordiv', 'mod'):
        def f(a, b, n=n):
            return wrap(getattr(int, '__%s__' % n)(int(a), int(b)))

        def g(a, b, n=n):
            return wrap(getattr(int, '__%s__' % n)(int(b), int(a)))
        setattr(W, '__%s__' % n, f)
        setattr(W, '__r%s__' % n, g)
    for n in ('neg', 'invert', 'pos'):
        def h(a, n=n):
            return wrap(getattr(int, '__%s__' % n)(int(a)))
        setattr(W, '__%s__' % n, h)


_mk()


class Wrapper(ast.NodeTransformer):
    def visit_JoinedStr(self, node):
        return node

    def visit_Constant(self, node):
        if type(node.value) is int:
            return ast.copy_location(ast.Call(ast.Name('W', ast.Load()), [node], []), node)
        return node


class Sig:
    def __init__(self, hook=None):
        self.__dict__['v'] = 0
        self.__dict__['hook'] = hook

    def __setattr__(self, n, v):
        self.__dict__['v'] = v
        if self.hook:
            self.hook(v)

    def __add__(self, o):
        return int(self.v) + int(o)

    def __bool__(self):
        return False


class Ram:
    def __init__(self):
        self.m = {}

    def read(self, a):
        wrap(0)
        return W(self.m[int(a)])

    def write(self, a, v):
        self.m[int(a)] = wrap(int(v))


class Shared:
    def read(self):
        return W(self.v)

    def write(self, v):
        self.v = wrap(int(v))


class Fifo:
    def __init__(self):
        self.q = []

    def enq(self, v):
        self.q.append(wrap(int(v)))

    def deq(self):
        return self.q.pop(0)


class Nop:
    def lock(self):
        pass

    def unlock(self):
        pass


def reference(cfg, run):
    """[(events, printed lines)] per thread; None when the program runs too long."""
    Ctx.width = cfg['width']
    ns = {}
    out = []
    for t in range(cfg['nth']):
        Ctx.ops = 0
        ev, pr = [], []
        res = Sig()
        ns.update({'res%d' % t: res, 'ev%d' % t: Sig(lambda v, res=res, ev=ev: ev.append(int(res.v))), 'done%d' % t: Sig(), 'stall%d' % t: False,
                   'ram%d' % t: Ram(), 'sh%d' % t: Shared(), 'ff%d' % t: Fifo(), 'mx': Nop(), 'W': W})
        for i in range(NIN):
            ns['in%d_%d' % (t, i)] = wrap(run['ins'][t][i])

        def pp(*a, pr=pr):
            wrap(0)
            x = []
            for y in a:
                x += [str(z) if isinstance(z, str) else str(int(z)) for z in (y if isinstance(y, tuple) else (y,))]
            pr.append(' '.join(x))
        ns['print'] = pp

        def rng(*a):
            for x in range(*[int(y) for y in a]):
                wrap(0)
                yield W(x)
        ns['range'] = rng
        Ctx.ops = 0
        tree = ast.fix_missing_locations(Wrapper().visit(ast.parse('\n'.join('\n'.join(f) for f in cfg['src'][t]))))
        try:
            exec(compile(tree, '<prog>', 'exec'), ns)
            ns['worker%d' % t]()
        except TooLong:
            return None
        out.append((ev, pr, Ctx.ops))
    return out


# ---------------------------------------------------------------- design

def build(cfg):
    L = [genmod.HEADER, 'def mk():', '    m = Module("dut")', '    clk = m.Input("CLK")', '    rst = m.Input("RST")']
    a = L.append
    w = cfg['width']
    a('    mx = vthread.Mutex(m, "mx", clk, rst)')
    for t in range(cfg['nth']):
        a('    res%d = m.OutputReg("res%d", %d, initval=0)' % (t, t, w))
        a('    ev%d = m.OutputReg("ev%d", 32, initval=0)' % (t, t))
        a('    done%d = m.OutputReg("done%d", initval=0)' % (t, t))
        a('    stall%d = m.Input("stall%d")' % (t, t))
        for i in range(NIN):
            a('    in%d_%d = m.Input("in%d_%d", %d)' % (t, i, t, i, w))
        f = cfg['feats'][t]
        if 'ram' in f:
            a('    ram%d = vthread.RAM(m, "ram%d", clk, rst, %d, 3)' % (t, t, w))
        if 'shared' in f:
            a('    sr%d = m.Reg("sr%d", %d, initval=0, signed=True)' % (t, t, w))
            a('    sh%d = vthread.Shared(sr%d)' % (t, t))
        if cfg['link'][t]:
            a('    ff%d = vthread.FIFO(m, "ff%d", clk, rst, %d, %d)' % (t, t, w, cfg['link'][t]))
    for t in range(cfg['nth']):
        for f in cfg['src'][t]:
            L += ['    ' + x for x in f]
    for t in range(cfg['nth']):
        k = cfg['kind'][t]
        if k == 'embed':
            a('    fsm%d = FSM(m, "th%d", clk, rst)' % (t, t))
            a('    vthread.embed_thread(fsm%d, worker%d)' % (t, t))
        elif k == 'extend':
            a('    fsm%d = FSM(m, "th%d", clk, rst)' % (t, t))
            a('    vthread.Thread(m, "t%d", clk, rst, worker%d, datawidth=%d).extend(fsm%d)' % (t, t, w, t))
        else:
            a('    th%d = vthread.Thread(m, "th%d", clk, rst, worker%d, datawidth=%d%s)' % (t, t, t, w, ', fsm_as_module=True' if k == 'mod' else ''))
            if k == 'addf':
                for f in cfg['src'][t][:-1]:
                    a('    th%d.add_function(%s)' % (t, f[0].split('(')[0][4:]))
            a('    th%d.start()' % t)
    a('    return m')
    return genmod.load('\n'.join(L)).mk().to_verilog()


def tb(cfg):
    D, B, conn = ['reg [63:0] ins [0:63]; initial $readmemh("ins.hex", ins);'], [], ['.CLK(CLK)', '.RST(RST)']
    n = cfg['nth']
    w = cfg['width']
    for t in range(n):
        D.append('wire signed [%d:0] res%d; wire [31:0] ev%d; wire done%d; reg [31:0] evp%d; initial evp%d=0;' % (w - 1, t, t, t, t, t))
        B.append('always @(posedge CLK) if(RST) evp%d<=0; else begin evp%d<=ev%d; if(ev%d!==evp%d) $display("E %d %%0d %%0d %%0d", cyc, ev%d, res%d); end' % (t, t, t, t, t, t, t, t))
        conn += ['.%s%d(%s%d)' % (p, t, p, t) for p in ('res', 'ev', 'done')] + ['.stall%d(st[%d])' % (t, t)]
        conn += ['.in%d_%d(ins[%d])' % (t, i, t * 8 + i) for i in range(NIN)]
    d, b = opthread.finish(n, '1', 20)
    D.append(d)
    B.append(b)
    B.append('dut uut(%s);' % ', '.join(conn))
    return bfm.skeleton('\n'.join(B), '\n'.join(D), schlen=SCH)


def files(cfg, run, rd):
    ev = [{'bit': 31, 'at': 0, 'n': 4}] + [dict(e, at=e['at'] + R0) for e in run['sched']]
    core.write_hex(rd + '/sched.hex', core.expand_schedule(ev, SCH))
    p = [0] * 64
    p[0] = run['maxcyc']
    core.write_hex(rd + '/p.hex', p)
    w = [0] * 64
    for t, a in enumerate(run['ins']):
        for i, v in enumerate(a):
            w[t * 8 + i] = v & ((1 << 64) - 1)
    core.write_hex(rd + '/ins.hex', w, 64)


def gen_ins(cfg, rng):
    out = []
    for t in range(cfg['nth']):
        out.append([rng.choice([0, 1, 2, 3, 7, rng.randint(-20, 20), rng.randint(-20, 20), rng.getrandbits(cfg['width']), (1 << (cfg['width'] - 1)) - 1, -1]) for _ in range(NIN)])
    return out


def gen_cfg(rng, i=0, style={}):
    while True:
        n = rng.choice([1, 1, 2, 2, 3])
        width = rng.choice([32, 32, 32, 40, 64])
        link = [rng.choice([0, 2, 3]) if t + 1 < n else 0 for t in range(n)]
        feats = [[f for f in ('ram', 'shared', 'mutex', 'stall', 'print') if rng.random() < 0.5] for _ in range(n)]
        kinds = ['std', 'std', 'std', 'mod', 'addf']
        cfg = {'nth': n, 'width': width, 'link': link, 'feats': feats, 'kind': [rng.choice(kinds + (['embed', 'extend'] if width == 32 else [])) for _ in range(n)]}
        cfg['src'] = [list(G(rng, t, t > 0 and link[t - 1], link[t], feats[t]).program(('else',))) for t in range(n)]
        try:
            rs = [reference(cfg, {'ins': gen_ins(cfg, rng)}) for _ in range(4)]
        except RecursionError:
            continue
        if None not in rs and all(max(len(x[0]) + len(x[1]) for x in r) > 2 for r in rs):
            return cfg


def gen_run(cfg, rng, style):
    ref = None
    while ref is None:
        ins = gen_ins(cfg, rng)
        ref = reference(cfg, {'ins': ins})
    hor = rng.choice([40, 150, 500, 1500])
    sched = [] if rng.random() < 0.1 else core.gen_stalls(rng, [('thread%d_stall' % t, t) for t in range(cfg['nth'])], hor)
    if style.get('reset'):
        for _ in range(rng.choice([1, 1, 2])):
            sched.append({'k': 'reset', 'bit': 31, 'at': rng.randrange(0, rng.choice([30, 100, 300])), 'n': rng.choice([1, 1, 2, 5])})
    return {'ins': ins, 'ops': [], 'sched': sched, 'maxcyc': SCH + 3000 + 8 * sum(r[2] for r in ref)}


def norm_line(s):
    return ' '.join(s.split())


def check(cfg, run, log):
    has_reset = any(e['bit'] == 31 for e in run['sched'])
    viols = []

    def add(cls, msg):
        viols.append(V(cls, msg, props=['C13'] + (['C25'] if has_reset else [])))
    n = cfg['nth']
    evs = [[] for _ in range(n)]
    prs = [[] for _ in range(n)]
    order = []
    end = None
    for line in log.split('\n'):
        p = line.split()
        if not p:
            continue
        if p[0] == 'RESET':
            evs = [[] for _ in range(n)]
            prs = [[] for _ in range(n)]
            order.append('X')
        elif p[0] == 'E':
            evs[int(p[1])].append(p[4])
            order.append('e' + p[1])
        elif p[0][:2] == 'PR' and p[0][2:].isdigit():
            prs[int(p[0][2:])].append(' '.join(p))
            order.append('p' + p[0][2:])
        elif p[0] == 'END':
            end = int(p[1])
        elif p[0] == 'TIMEOUT':
            end = -int(p[1])
    ref = reference(cfg, run)
    for t in range(n):
        for what, got, exp in (('values', evs[t], [str(x) for x in ref[t][0]]), ('printed lines', prs[t], ref[t][1])):
            if has_reset and what[0] == 'p':
                # a line is printed while reset is asserted or not: only the tail after the last reset counts
                got = got[-len(exp):] if exp else []
            if got != exp:
                k = next((i for i in range(min(len(got), len(exp))) if got[i] != exp[i]), min(len(got), len(exp)))
                add('wrong-' + what.split()[0], 'thread %d: %s differ from Python at #%d: %s, expected %s (of %d/%d)' % (
                    t, what, k, got[k:k + 3], exp[k:k + 3], len(got), len(exp)))
    if end is None or end < 0:
        add('no-completion', 'the program did not finish by cycle %d (inputs %s)' % (run['maxcyc'], run['ins']))
    endc = abs(end) if end else run['maxcyc']
    fl = opthread.fired(run, endc, R0)
    H = None
    return viols, opthread.stats(log, H, run, endc, order, fl, {'values': sum(map(len, evs)), 'printed': sum(map(len, prs))})
