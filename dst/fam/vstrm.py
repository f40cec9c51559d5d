"""DUT family: veriloggen.stream.  Random operator graphs as pipelines of their own, with one valid/ready pair
for all inputs and one for all outputs.

kind 'full': ivalid/iready/ovalid/oready; 'v': ivalid/ovalid; 'rdy': iready/oready only (a one bit marker
travels as data); 'none': plain data with the marker."""
import copy
from .. import core, genmod, vr
from ..core import V
from . import strm
from .strm import sgn, cw
from .dflow import deps, Bias

SCH = vr.SCH
MINIMISE = ('sched',)
NX = ('avg', 'avgr', 'sround', 'rep', 'ptr', 'ptrv', 'alias', 'sign', 'custom', 'rcustom', 'cntv', 'xor', 'iadd', 'icnt', 'offs', 'split')


OVERSAMPLE = 16      # designs drawn per design kept (props.cfgs_of)


class Gen(strm.Gen):
    thread = False

    def __init__(self, rng, D, kind, nsrc, unsigned, feats):
        self.kind = kind
        self.state = kind in ('full', 'v')
        strm.Gen.__init__(self, rng, D, sources=0, params=0, feats=feats)
        self.szpar = None
        self.N.clear()
        self.npar = 0
        for k in range(nsrc):
            self.word.append(self.add({'o': 'src', 'k': k, 'a': [], 'w': rng.choice([D, D, 8, 24]), 's': int(rng.random() >= unsigned)}))
        if rng.random() < 0.3:
            self.word.append(self.add({'o': 'Dparam', 'a': [], 'v': rng.choice([0, 1, 5, -3, 100]), 'w': rng.choice([8, D]), 's': 1}))

    def counter(self):
        if not self.state:
            return self.rng.choice([i for i, n in enumerate(self.N) if n['o'] == 'src'])
        return strm.Gen.counter(self)

    def addr(self):
        x = self.pick(True)
        if x is None or self.N[x]['w'] < 4:
            x = self.counter()
        return self.add({'o': 'slice', 'a': [x], 'hi': 3, 'lo': 0, 'w': 4, 's': 0})

    def accum(self):
        i = strm.Gen.accum(self)
        if i is not None and self.N[i]['o'] == 'rmul':
            raise core.HarnessError('rmul')
        return i

    def step(self):
        rng, N = self.rng, self.N
        k = rng.choice(['base'] * 14 + ['x'] * 5 + ['div'])
        i = None
        if k == 'div':
            f, self.feats, self.rng = self.feats, ('multi',), Bias(rng, 'div')
            try:
                return strm.Gen.step(self)
            finally:
                self.feats, self.rng = f, rng
        if k == 'base':
            n0 = len(N)
            while True:
                w, b, r = list(self.word), list(self.bit), set(self.rest)
                c = self.cnt
                i = strm.Gen.step(self)
                if self.state or all(n['o'] not in ('counter', 'ccnt', 'ring', 'scratch', 'pred', 'pulse', 'lbuf', 'argm') and n['o'] not in strm.ACC for n in N[n0:]):
                    return i
                del N[n0:]
                self.word, self.bit, self.rest, self.cnt = w, b, r, c
        k = rng.choice(NX)
        if not self.state and k in ('rcustom', 'cntv', 'xor', 'iadd', 'icnt', 'offs'):
            return
        if k in ('avg', 'avgr'):
            xs = [self.pick(s=1) for _ in range(rng.choice([2, 4, 2, 3]))]
            if None in xs or any(N[x]['w'] > 32 for x in xs):
                return
            i = self.add({'o': 'D' + k, 'a': xs, 'w': max([N[x]['w'] for x in xs] + [cw(len(xs)) if len(xs) == 3 else 0]), 's': 1})
        elif k == 'sround':
            a = self.pick(s=1)
            if a is None:
                return
            b = ['c', rng.randint(0, 4)] if rng.random() < 0.6 or N[a]['w'] < 16 else self.addr()
            i = self.add({'o': 'Dsround', 'a': [a, b], 'w': N[a]['w'], 's': 1})
        elif k == 'rep':
            a = self.pick()
            t = rng.choice([1, 2, 3])
            if N[a]['w'] * t > 64:
                return
            i = self.add({'o': 'Drep', 'a': [a], 't': t, 'w': N[a]['w'] * t, 's': 0})
        elif k == 'ptr':
            a = self.pick()
            i = self.add({'o': 'Dptr', 'a': [a, ['c', rng.randrange(N[a]['w'])]], 'w': 1, 's': 0})
        elif k == 'ptrv':
            a = self.pick()
            if N[a]['w'] < 16:
                return
            i = self.add({'o': 'Dptr', 'a': [a, self.addr()], 'w': 1, 's': 0})
        elif k == 'alias':
            a = self.pick()
            if N[a]['o'] == 'Dalias':
                return
            i = self.add({'o': 'Dalias', 'a': [a], 'w': N[a]['w'], 's': N[a]['s'], 'con': rng.randrange(3)})
        elif k == 'sign':
            a = self.pick(s=1)
            if a is None:
                return
            i = self.add({'o': 'Dsign', 'a': [a], 'w': N[a]['w'], 's': N[a]['s']})
        elif k == 'custom':
            a = self.pick(s=1)
            b = self.pick(s=1, w=N[a]['w']) if a is not None else None
            if b is None:
                return
            i = self.add({'o': 'Dcustom', 'a': [a, b], 'w': N[a]['w'], 's': 1})
        elif k == 'rcustom':
            a = self.pick(True, s=1)
            if a is None:
                return
            i = self.add({'o': 'Drcust', 'a': [a], 'w': 32, 's': 1, 'iv': rng.choice([0, 3]), 'size': rng.choice([None, None, 1, 2, 4])})
        elif k == 'cntv':
            z = rng.randint(1, 5)
            en = self.boolean() if rng.random() < 0.4 else None
            i = self.add({'o': 'counter', 'a': [], 'w': 32, 's': 0, 'size': ['c', z], 'step': 1, 'en': en, 'iv': 0, 'cv': 1})
            self.bit.append(self.add({'o': 'Dcv', 'a': [], 'w': 1, 's': 0, 'size': z, 'en': en, 'cnt': i}))
        elif k == 'xor':
            i = self.add({'o': 'Dxor', 'a': [], 'w': 32, 's': 0, 'iv': rng.choice([0x12345678, 7]), 'en': self.boolean() if rng.random() < 0.4 else None})
            if N[i]['en'] is not None:
                self.rest.add(i)
        elif k == 'iadd':
            a = self.pick(True, s=1)
            if a is None:
                return
            i = self.add({'o': 'Diadd', 'a': [a], 'w': 32, 's': 1, 'iv': 0, 'int': rng.randint(1, 4), 'en': self.boolean() if rng.random() < 0.3 else None,
                          'rst': self.boolean() if rng.random() < 0.2 else None})
        elif k in ('icnt', 'offs'):
            z = rng.choice([None, 2, 3, 5])
            i = self.add({'o': 'Dicnt', 'a': [], 'w': 32, 's': 0, 'iv': rng.choice([0, 0, 1]), 'int': rng.randint(1, 4) if k == 'icnt' else None, 'size': z,
                          'off': rng.choice([0, 1]) if k == 'offs' and z is not None else None, 'en': self.boolean() if rng.random() < 0.3 else None,
                          'rst': self.boolean() if rng.random() < 0.2 else None})
        elif k == 'split':
            a = self.pick()
            if N[a]['w'] % 8 or N[a]['w'] < 16:
                return
            i = self.add({'o': 'Dsplit', 'a': [a], 'p': rng.randrange(N[a]['w'] // 8), 'w': 8, 's': N[a]['s']})
        if i is None:
            return
        (self.word if N[i]['w'] > 1 else self.bit).append(i)
        return i


class Eval(strm.Eval):
    hold = True

    def extra(self, i, n, x, vals):
        o, S, W = n['o'], self.S, (1 << n['w']) - 1
        A = n['a']
        if o == 'Dparam':
            return n['v']
        if o == 'Dalias':
            return vals[A[0]]
        if o in ('Drcust', 'Dcv', 'Dxor', 'Diadd', 'Dicnt'):
            d = S.setdefault(i, {'v': n.get('iv'), 'c': 0, 'i': 0})
            en = 1 if n.get('en') is None else vals[n['en']]
            rst = 0 if n.get('rst') is None else vals[n['rst']]
            if en is None or rst is None or 'open' in d:
                d['open'] = 1
                return None
            if o == 'Drcust':
                if n['size'] is not None and d['c'] == 0:
                    d['v'] = n['iv']
                d['v'] = None if d['v'] is None or x[0] is None else sgn(((d['v'] ^ x[0]) + 1) & W, n['w'])
                if n['size'] is not None:
                    d['c'] = (d['c'] + 1) % n['size']
                return d['v']
            if o == 'Dcv':
                if en:
                    d['v'] = int(d['c'] == n['size'] - 1)
                    d['c'] = (d['c'] + 1) % n['size']
                return d['v'] or 0
            if o == 'Dxor':
                if en:
                    r = d['v']
                    v = r ^ r << 13 & W
                    v ^= v >> 17
                    d['v'] = v ^ v << 5 & W
                    d['o'] = r
                return d.get('o')
            if o == 'Diadd':
                if rst:
                    d['v'], d['i'] = n['iv'], 0
                if en:
                    if d['i'] == n['int'] - 1:
                        d['v'] = None if x[0] is None or d['v'] is None else d['v'] + x[0]
                        d['i'] = 0
                    else:
                        d['i'] += 1
                return d['v']
            if rst:
                d['v'], d['i'] = n['iv'], 0
            r = d['v']
            if en:
                if n['int'] is None or d['i'] == n['int'] - 1:
                    z = n['size']
                    d['v'] = r + 1 if z is None or r < z - 1 else n['off'] if n['off'] is not None else r + 1 - z
                    d['i'] = 0
                else:
                    d['i'] += 1
            return r
        if None in x:
            return None
        if o == 'Drep':
            r = 0
            for _ in range(n['t']):
                r = r << self.N[A[0]]['w'] | vals[A[0]]
            return r
        if o == 'Dptr':
            return vals[A[0]] >> x[1] & 1
        if o == 'Dsign':
            return int(x[0] < 0)
        if o == 'Dcustom':
            return (x[0] ^ x[1]) + 1
        if o == 'Dsplit':
            return vals[A[0]] >> self.N[A[0]]['w'] - 8 * (n['p'] + 1)     # highest first
        if o in ('Davg', 'Davgr'):
            k = len(A)
            s, (w, _) = strm.tree(x, [(self.N[a]['w'], 1) for a in A])
            s = sgn(s + (k // 2 if o == 'Davgr' else 0) & (1 << w) - 1, w)
            if k == 3:
                return -(-s // 3) if s < 0 else s // 3
            return s // k
        if o == 'Dsround':                       # to nearest, ties away from zero
            if x[1] == 0:
                return x[0]
            h = 1 << (x[1] - 1)
            return (x[0] + h) >> x[1] if x[0] >= 0 else -((-x[0] + h) >> x[1])
        raise core.HarnessError('eval ' + o)


def settle(cfg):
    return sum({'div': 48, 'mod': 48, 'Davg': 48, 'Davgr': 48, 'mul': 14, 'madd': 14}.get(n['o'], 5) for n, d in zip(cfg['nodes'], deps(cfg)) if not d and n['o'] != 'Dparam')


def gen_cfg(rng, i=0, style={}):
    while True:
        cfg = gen_cfg1(rng, i, style)
        # without valid, prev() also counts the idle cycles
        if cfg['kind'] in ('full', 'v') or not (settle(cfg) and any(n['o'] == 'prev' for n in cfg['nodes'])):
            return cfg


def gen_cfg1(rng, i, style):
    D = rng.choice([8, 16, 16, 32])
    kind = rng.choice(['full', 'full', 'full', 'v', 'rdy', 'none'])
    g = Gen(rng, D, kind, rng.choice([1, 1, 2, 2, 3]), rng.choice([0.0, 0.3, 1.0]), ('buf',) if rng.random() < 0.8 else ())
    ni = sum(n['o'] == 'src' for n in g.N)
    for _ in range(rng.choice([1, 2, 3, 5, 8, 12])):
        g.step()
    N = g.N
    use = set()
    for n in N:
        use |= set(a for a in n['a'] if isinstance(a, int))
        use |= set(n[k] for k in ('en', 'rst') if n.get(k) is not None)

    def root(k):
        while N[k]['o'] == 'Dalias':
            k = N[k]['a'][0]
        n = N[k]
        if n['o'] in ('tree', 'max', 'min') and len(n['a']) == 1:
            return root(n['a'][0])
        return (root(n['a'][0]), n['d']) if n['o'] == 'prev' else k
    outs = []

    def out(k):
        if root(k) not in [root(x) for x in outs] and N[k]['o'] != 'Dparam':
            outs.append(k)
    dead = [k for k in range(len(N)) if k not in use and k >= ni]
    rng.shuffle(dead)
    for k in dead[:5]:
        out(k)
    if rng.random() < 0.4:
        for k in range(len(N)):
            if rng.random() < 0.3 and len(outs) < 6:
                out(k)
    D_ = deps({'nodes': N})
    # a graph of constants has no pipeline
    if not any(D_[k] for k in outs):
        outs = [0]
    if kind not in ('full', 'v'):
        outs = [k for k in outs if D_[k]]
    return {'D': D, 'kind': kind, 'ni': ni, 'nodes': N, 'outs': outs, 'style': rng.choice(['names', 'names', 'manager'])}


def live_of(cfg):
    return sorted(set().union(*[deps(cfg)[k] for k in cfg['outs']]))


def ports(cfg):
    N = cfg['nodes']
    src = {n['k']: n for n in N if n['o'] == 'src'}
    live = live_of(cfg)
    v, r = cfg['kind'] in ('full', 'v'), cfg['kind'] in ('full', 'rdy')
    ins = [{'n': 'i', 'd': [('x%d' % i, src[i]['w']) for i in live], 'v': 'ivalid' if v else 'xv', 'r': 'iready' if r else None, 'k': live}]
    outs = [{'n': 'o', 'd': [('z%d' % q, N[k]['w']) for q, k in enumerate(cfg['outs'])], 'v': 'ovalid' if v else 'zv', 'r': 'oready' if r else None}]
    return ins, outs


def build(cfg):
    N = cfg['nodes']
    kind, man = cfg['kind'], cfg['style'] == 'manager'
    v, r = kind in ('full', 'v'), kind in ('full', 'rdy')
    L = [genmod.HEADER, 'import veriloggen.stream as stream', 'import veriloggen.core.vtypes as vtypes', 'def mk():']
    a = L.append
    live = live_of(cfg)
    q = 'st0' if man else 'stream'
    ctl = (['ivalid', 'ovalid'] if v else []) + (['iready', 'oready'] if r else [])
    src = {n['k']: n for n in N if n['o'] == 'src'}
    if man:
        a('    m = Module("dut")')
        a('    clk = m.Input("CLK")')
        a('    rst = m.Input("RST")')
        a('    P = {}')
        for c in ctl:
            a('    P["%s"] = m.%s("%s")' % (c, 'Input' if c in ('ivalid', 'oready') else 'Output', c))
        for i in live:
            a('    P["x%d"] = m.Input("x%d", %d, signed=%s)' % (i, i, src[i]['w'], bool(src[i]['s'])))
        for k, o in enumerate(cfg['outs']):
            a('    P["z%d"] = m.Output("z%d", %d, signed=%s)' % (k, k, N[o]['w'], bool(N[o]['s'])))
        if not v:
            a('    P["xv"] = m.Input("xv"); P["zv"] = m.Output("zv")')
        a('    st0 = stream.StreamManager(m, clk, rst%s)' % ''.join(', %s=P["%s"]' % (c, c) for c in ctl))
    sig = (lambda s: 'P["%s"]' % s) if man else (lambda s: '"%s"' % s)
    need = set()

    def mark(k):
        if k in need:
            return
        need.add(k)
        for x in list(N[k]['a']) + [N[k].get(f) for f in ('en', 'rst', 'cnt')] + ([N[k].get('size')] if isinstance(N[k].get('size'), int) and N[k]['o'] in strm.ACC else []):
            if isinstance(x, int):
                mark(x)
        if N[k]['o'] == 'pulse':
            mark(N[k]['pair'])
    for k in cfg['outs']:
        mark(k)
    nm = lambda x: 'st0_n%d' % x if isinstance(x, int) else str(x[1])
    done = set()
    for i, n in enumerate(N):
        if i not in need or i in done:
            continue
        o, A, me = n['o'], [nm(x) for x in n['a']], nm(i)
        kw = ''.join(', %s=%s' % (k, nm(n[f])) for k, f in (('enable', 'en'), ('reset', 'rst')) if n.get(f) is not None)
        if o == 'src':
            e = '%s.Variable(%s, width=%d, signed=%s)' % (q, sig('x%d' % n['k']), n['w'], bool(n['s']))
        elif o == 'Dparam':
            e = '%s.Parameter("p%d", %d, width=%d, signed=%s)' % (q, i, n['v'], n['w'], bool(n['s']))
        elif o == 'Dalias':
            if n['con'] == 0:
                e = '%s.Alias(%s)' % (q, A[0])
            elif n['con'] == 1:
                e = '%s.Variable(%s, width=%d, signed=%s)' % (q, A[0], n['w'], bool(n['s']))
            else:
                a('    %s = %s.Variable(width=%d, signed=%s)' % (me, q, n['w'], bool(n['s'])))
                a('    %s.connect(%s)' % (me, A[0]))
                continue
        elif o in ('Davg', 'Davgr'):
            e = '%s.%s(%s)' % (q, 'Average' if o == 'Davg' else 'AverageRound', ', '.join(A))
        elif o == 'Dsround':
            e = '%s.SraRound(%s, %s)' % (q, A[0], A[1])
        elif o == 'Drep':
            e = '%s.Repeat(%s, %d)' % (q, A[0], n['t'])
        elif o == 'Dptr':
            e = '%s[%s]' % (A[0], A[1])
        elif o == 'Dsign':
            e = '%s.Sign(%s)' % (q, A[0])
        elif o == 'Dcustom':
            e = '%s.CustomOp(lambda x, y: (x ^ y) + 1, %s, %s)' % (q, A[0], A[1])
        elif o == 'Dsplit':
            e = '%s.Split(%s, width=8)[%d]' % (q, A[0], n['p'])
        elif o == 'Drcust':
            e = '%s.ReduceCustom(lambda x, y: (x ^ y) + 1, %s, initval=%d%s)' % (q, A[0], n['iv'], '' if n['size'] is None else ', size=%d' % n['size'])
        elif n.get('cv'):
            a('    %s, %s = %s.CounterValid(%d%s)' % (me, nm(i + 1), q, n['size'][1], kw))
            done.add(i + 1)
            continue
        elif o == 'Dxor':
            e = '%s.RandXorshift(%d%s)' % (q, n['iv'], kw)
        elif o == 'Diadd':
            e = '%s.ReduceAdd(%s, interval=%d%s)' % (q, A[0], n['int'], kw)
        elif o == 'Dicnt':
            e = '%s.Counter(initval=%d%s%s)' % (q, n['iv'], ''.join(', %s=%d' % (k, n[f]) for k, f in (('size', 'size'), ('interval', 'int'), ('offset', 'off')) if n[f] is not None), kw)
        else:
            sub = copy.deepcopy(N)
            for j, b in enumerate(sub):
                if j not in (i, i + 1) or (j == i + 1 and b.get('pair') != i):
                    sub[j] = None
            T = {'nodes': sub, 'sinks': []}
            for line in emit1(T, i):
                a('    ' + line.replace('st0.', q + '.'))
            if o in strm.ACC and n['size'] is not None:
                done.add(i + 1)
            continue
        a('    %s = %s' % (me, e))
    for k, o in enumerate(cfg['outs']):
        a('    %s.output(%s)' % (nm(o), sig('z%d' % k)))
    names = [nm(k) for k in cfg['outs']]
    if not v:
        a('    mk_ = %s.Variable(%s, width=1, signed=False)' % (q, sig('xv')))
        a('    mk_.output(%s)' % sig('zv'))
        names.append('mk_')
    if man:
        a('    return m')
    else:
        a('    return stream.Stream(%s%s).to_module("dut")' % (', '.join(names), ''.join(', %s="%s"' % (c, c) for c in ctl)))
    return genmod.load('\n'.join(L)).mk().to_verilog()


def emit1(T, i):
    """the lines strm.emit() writes for node i"""
    nodes = T['nodes']
    keep = [{'o': 'src', 'k': 0, 'a': [], 'w': 1, 's': 1} if n is None else n for n in nodes]
    L = strm.emit({'streams': [{'nodes': keep, 'sinks': []}]}, 0)
    return [x for x in L if '.source("s0"' not in x]


def tb(cfg):
    return vr.tb(*ports(cfg))


def gen_run(cfg, rng, style={}):
    ins, outs = ports(cfg)
    n = rng.choice([0, 1, 2, 5, 10, 40, 120])
    sched = vr.gen_sched(rng, ins, outs, style)
    if cfg['kind'] in ('none', 'rdy') and any(d['o'] == 'prev' for d in cfg['nodes']):
        sched = [e for e in sched if e['k'] in ('reset', 'out0_stall')]
    return {'n': [n], 'salt': rng.getrandbits(16), 'rmode': 0, 'sched': sched, 'warm': settle(cfg), 'maxcyc': vr.SCH + 2500 + settle(cfg)}


def expect(cfg, run):
    ins, outs = ports(cfg)
    raw = vr.inputs(ins, run)
    N = cfg['nodes']
    ev = Eval({'streams': [{'nodes': N, 'sinks': []}]}, 0, {})
    want = []
    for t in raw[0]:
        d = dict(zip(ins[0]['k'], t))
        vals = ev.element({k: d.get(k, 0) for k in range(cfg['ni'])})
        x = m = 0
        for k in cfg['outs']:
            w = N[k]['w']
            x, m = x << w | (vals[k] or 0), m << w | ((1 << w) - 1 if vals[k] is not None else 0)
        want.append((x, m))
    return [want], [len(raw[0])], [len(want)]


def files(cfg, run, rd):
    ins, outs = ports(cfg)
    want, need, cnt = expect(cfg, run)
    vr.files(ins, outs, run, rd, cnt, need)


def check(cfg, run, log):
    ins, outs = ports(cfg)
    want, need, cnt = expect(cfg, run)
    viols, st = vr.check(ins, outs, run, log, want, need, throughput=1 if cfg['kind'] == 'full' else None, undef_ok=True)
    ops = {n['o'] for n in cfg['nodes']}
    st['probes'].update({'prevs': int('prev' in ops), 'accumulated': int(bool(ops & set(strm.ACC))), 'counters': int('counter' in ops or 'Dicnt' in ops),
                         'multipliers': int('mul' in ops), 'dividers': int('div' in ops or 'mod' in ops), 'many_outputs': int(len(cfg['outs']) > 1),
                         'buffers': int('ring' in ops or 'scratch' in ops), 'unspecified': sum(m != (1 << sum(w for _, w in outs[0]['d'])) - 1 for _, m in want[0])})
    return viols, st
