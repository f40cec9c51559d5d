"""DUT family: veriloggen.dataflow.  Random operator graphs with a handshake per port.

kind 'vr': every input and output has its own valid and ready; 'v': valid only, shared by the inputs;
'none': plain data, a one bit marker travels as data through the graph."""
from .. import core, genmod, vr
from ..core import V
from . import strm
from .strm import sgn

SCH = vr.SCH
MINIMISE = ('sched',)


OVERSAMPLE = 16      # designs drawn per design kept (props.cfgs_of)


class Gen(strm.Gen):
    def __init__(self, rng, D, kind, nsrc, unsigned):
        self.kind = kind
        strm.Gen.__init__(self, rng, D, sources=0, params=0)
        self.szpar = None
        self.N.clear()
        self.npar = 0
        self.tokens = kind != 'none'
        for k in range(nsrc):
            self.word.append(self.add({'o': 'src', 'k': k, 'a': [], 'w': rng.choice([D, D, 8, 24]), 's': int(rng.random() >= unsigned)}))
        # without ready, inputs cannot wait: no free-running sources beside them
        if rng.random() < 0.3 and kind != 'v':
            self.word.append(self.add({'o': 'Dparam', 'a': [], 'v': rng.choice([0, 1, 5, -3, 100]), 'w': rng.choice([8, D]), 's': 1}))

    def counter(self):
        if not self.tokens:
            return self.rng.choice([i for i, n in enumerate(self.N) if n['o'] == 'src'])
        if self.cnt is None:
            self.cnt = self.add({'o': 'Dcounter', 'a': [0] if self.kind == 'v' else [], 'w': 32, 's': 0, 'size': None, 'step': 1, 'en': None, 'rst': None, 'iv': 0})
        return self.cnt

    def addr(self):
        x = self.pick(True)
        if x is None or self.N[x]['w'] < 4:
            x = self.counter()
        return self.add({'o': 'slice', 'a': [x], 'hi': 3, 'lo': 0, 'w': 4, 's': 0})

    def guard(self, n, k):
        return n

    def size(self):
        z = self.rng.randint(1, 6)
        return ['p', z] if self.rng.random() < 0.4 else ['c', z]

    def accum(self):
        rng = self.rng
        x = self.pick(True)
        if x is None or not self.tokens:
            return None
        n = {'o': 'Dacc', 'op': rng.choice(['add', 'add', 'sub', 'mul', 'max']), 'a': [x], 'w': self.N[x]['w'], 's': self.N[x]['s'], 'iv': rng.choice([0, 0, 0, 7] + ([-3] if self.N[x]['s'] else [])),
             'size': None, 'en': None, 'rst': None, 'valid': 0, 'wp': None}
        if rng.random() < 0.4:
            n['wp'] = n['w'] = rng.choice([32, 40, 16])
        if n['op'] == 'mul':
            n['iv'] = 1
        if rng.random() < 0.5:
            n['size'] = self.size()
        if rng.random() < 0.4:
            n['en'] = self.boolean()
        if rng.random() < 0.3 and n['size'] is None:
            n['rst'] = self.boolean()
        if n['size'] is not None and n['op'] != 'max' and rng.random() < 0.5:
            n['valid'] = 1
        i = self.add(n)
        if n['valid']:
            self.bit.append(self.add({'o': 'Dpulse', 'a': [x], 'w': 1, 's': 0, 'size': n['size'], 'en': n['en'], 'rst': None, 'pair': i}))
        return i

    def step(self):
        rng, N = self.rng, self.N
        k = rng.choice(['base'] * 14 + ['count', 'pulse', 'lut', 'rep', 'ptr', 'ptrv', 'alias', 'cat', 'redop', 'sign', 'custom', 'div', 'fdelay'])
        i = None
        if k in ('base', 'cat', 'redop', 'lut', 'div'):
            self.feats = () if k == 'base' else ('buf',) if k != 'div' else ('multi',)
            r = core.rng_of(rng.getrandbits(60)) if hasattr(core, 'rng_of') else rng
            self.rng = Bias(rng, {'base': None, 'div': 'div'}.get(k, k))
            n0 = len(N)
            try:
                i = strm.Gen.step(self)
            finally:
                self.rng = rng
            for n in N[n0:]:
                n.pop('lat', None)
            return i
        if k == 'count':
            if not self.tokens:
                return
            n = {'o': 'Dcounter', 'a': [], 'w': 32, 's': 0, 'size': None, 'step': rng.choice([1, 1, 2, 3]), 'en': None, 'rst': None, 'iv': rng.choice([0, 0, 1, 5])}
            if rng.random() < 0.4:
                n['size'] = self.size()
            if rng.random() < 0.3 or self.kind == 'v':
                c = self.pick(True)
                n['a'] = [c] if c is not None else [0] if self.kind == 'v' else []
            if rng.random() < 0.4:
                n['en'] = self.boolean()
            if rng.random() < 0.3 and n['size'] is None:
                n['rst'] = self.boolean()
            i = self.add(n)
            if n['en'] is not None:
                self.rest.add(i)
        elif k == 'pulse':
            if not self.tokens:
                return
            x = self.pick(True)
            if x is None:
                return
            i = self.add({'o': 'Dpulse', 'a': [x], 'w': 1, 's': 0, 'size': self.size(), 'en': self.boolean() if rng.random() < 0.4 else None, 'rst': None})
        elif k == 'rep':
            a = self.pick()
            t = rng.choice([1, 2, 3])
            if N[a]['w'] * t > 64:
                return
            i = self.add({'o': 'Drep', 'a': [a], 't': t, 'w': N[a]['w'] * t, 's': 0})
        elif k == 'ptr':
            a = self.pick()
            i = self.add({'o': 'Dptr', 'a': [a, ['c', rng.randrange(N[a]['w'])]], 'w': 1, 's': 0})
        elif k == 'ptrv':
            a = self.pick()
            if N[a]['w'] < 16:
                return
            i = self.add({'o': 'Dptr', 'a': [a, self.addr()], 'w': 1, 's': 0})
        elif k == 'alias':
            a = self.pick()
            if N[a]['o'] == 'Dalias':
                return
            i = self.add({'o': 'Dalias', 'a': [a], 'w': N[a]['w'], 's': N[a]['s'], 'con': int(rng.random() < 0.5)})
        elif k == 'sign':
            a = self.pick(s=1)
            if a is None:
                return
            i = self.add({'o': 'Dsign', 'a': [a], 'w': 1, 's': 0})
        elif k == 'custom':
            a = self.pick(s=1)
            b = self.pick(s=1, w=N[a]['w']) if a is not None else None
            if b is None:
                return
            i = self.add({'o': 'Dcustom', 'a': [a, b], 'w': N[a]['w'], 's': 1})
        elif k == 'fdelay':
            a = self.pick()
            i = self.add({'o': 'prev', 'a': [a], 'd': rng.choice([1, 4, 5]), 'w': N[a]['w'], 's': N[a]['s']})
        if i is None:
            return
        (self.word if N[i]['w'] > 1 else self.bit).append(i)
        return i


class Bias:
    """makes strm.Gen.step choose a given kind of node"""

    def __init__(self, rng, k):
        self.rng, self.k, self.first = rng, k, True

    def choice(self, x):
        if self.first:
            self.first = False
            if self.k is not None:
                return self.k
            return self.rng.choice([y for y in x if y not in ('count', 'cast')])
        return self.rng.choice(x)

    def __getattr__(self, n):
        return getattr(self.rng, n)


class Eval(strm.Eval):
    def extra(self, i, n, x, vals):
        o, S, W = n['o'], self.S, (1 << n['w']) - 1
        A = n['a']
        if o == 'Dparam':
            return n['v']
        if o == 'Dalias':
            return vals[A[0]]
        if o in ('Dacc', 'Dcounter', 'Dpulse'):
            d = S.setdefault(i, {'v': n['iv'] if o == 'Dacc' else 0 if o == 'Dpulse' else None, 'c': 0})
            z = n['size'][1] if n['size'] is not None else None
            en = 1 if n['en'] is None else vals[n['en']]
            rst = 0 if n['rst'] is None else vals[n['rst']]
            if en is None or rst is None or 'open' in d:    # driven by an unspecified value: unspecified from here on
                d['open'] = 1
                return None
            if en:
                first = rst or (z is not None and d['c'] == 0)
                if o == 'Dpulse':
                    d['v'] = int(d['c'] == z - 1)
                elif o == 'Dcounter':
                    d['v'] = n['iv'] if first or d['v'] is None and not d.get('s') else d['v'] + n['step']
                    d['s'] = 1
                else:
                    cur = n['iv'] if first else d['v']
                    y = x[0]
                    r = None if cur is None or y is None else {'add': cur + y, 'sub': cur - y, 'mul': cur * y, 'max': max(cur, y)}[n['op']]
                    d['v'] = None if r is None else sgn(r & W, n['w']) if n['s'] else r & W
                if z is not None:
                    d['c'] = (d['c'] + 1) % z
            elif rst:
                d['v'] = n['iv'] if o == 'Dacc' else None
                d['s'] = 0
            return d['v']
        if None in x:
            return None
        if o == 'Drep':
            r = 0
            for _ in range(n['t']):
                r = r << self.N[A[0]]['w'] | vals[A[0]]
            return r
        if o == 'Dptr':
            return vals[A[0]] >> x[1] & 1
        if o == 'Dsign':
            return int(x[0] >= 0)
        if o == 'Dcustom':
            return (x[0] ^ x[1]) + 1
        raise core.HarnessError('eval ' + o)


def settle(cfg):
    """cycles after which operators that only depend on parameters have their value"""
    return sum({'div': 50, 'mod': 50, 'mul': 14}.get(n['o'], 5) for n, d in zip(cfg['nodes'], deps(cfg)) if not d and n['o'] != 'Dparam')


def gen_cfg(rng, i=0, style={}):
    while True:
        cfg = gen_cfg1(rng, i, style)
        # without handshake, prev() also counts the idle cycles
        if not (cfg['kind'] == 'none' and settle(cfg) and any(n['o'] == 'prev' for n in cfg['nodes'])):
            return cfg


def gen_cfg1(rng, i, style):
    D = rng.choice([8, 16, 16, 32])
    kind = rng.choice(['vr', 'vr', 'vr', 'v', 'none'])
    g = Gen(rng, D, kind, rng.choice([1, 1, 2, 2, 3]), rng.choice([0.0, 0.3, 1.0]))
    ni = sum(n['o'] == 'src' for n in g.N)
    for _ in range(rng.choice([1, 2, 3, 5, 8, 12])):
        g.step()
    N = g.N
    use = set()
    for n in N:
        use |= set(a for a in n['a'] if isinstance(a, int))
        use |= set(n[k] for k in ('en', 'rst') if n.get(k) is not None)
    par = {n.get('pair') for n in N} - {None}

    def root(k):
        while N[k]['o'] == 'Dalias':
            k = N[k]['a'][0]
        return k
    outs = []

    def same(k):
        k = root(k)
        return (root(N[k]['a'][0]), N[k]['d']) if N[k]['o'] == 'prev' else k    # prev() returns one object per depth

    def out(k):
        if same(k) not in [same(x) for x in outs] and N[k]['o'] != 'Dparam':
            outs.append(k)
    dead = [k for k in range(len(N)) if k not in use and k >= ni]
    rng.shuffle(dead)
    for k in dead[:5]:
        out(k)
    if rng.random() < 0.4:
        for k in range(len(N)):
            if rng.random() < 0.3 and len(outs) < 6:
                out(k)
    if not outs:
        out(0)
    # constant graphs have no tokens of their own
    D_ = deps({'nodes': N})
    outs = [k for k in outs if D_[k]] or [0]
    refs = [root(k) for k in outs]
    for n in N:
        refs += [root(a) for a in list(n['a']) + [n.get('en'), n.get('rst')] if isinstance(a, int)]
    wrap = int(kind == 'vr' and len(set(refs)) != len(refs))
    return {'D': D, 'kind': kind, 'wrap': wrap, 'ni': ni, 'nodes': N, 'outs': [[k, int(kind == 'vr' and rng.random() < 0.85)] for k in outs],
            'style': rng.choice(['names', 'names', 'manager']) if kind != 'v' else 'manager'}


def deps(cfg):
    R = []
    for n in cfg['nodes']:
        s = {n['k']} if n['o'] == 'src' else set()
        for a in list(n['a']) + [n.get('en'), n.get('rst')]:
            if isinstance(a, int):
                s |= R[a]
        R.append(s)
    return R


def links(cfg):
    """like deps(), with negative entries for sources of tokens other than the inputs"""
    R = []
    for i, n in enumerate(cfg['nodes']):
        s = {n['k']} if n['o'] == 'src' else set()
        for a in list(n['a']) + [n.get('en'), n.get('rst')]:
            if isinstance(a, int):
                s |= R[a]
        if not s and n['o'] != 'Dparam':
            s = {-1 - i}
        R.append(s)
    return R


def ports(cfg):
    N = cfg['nodes']
    src = {n['k']: n for n in N if n['o'] == 'src'}
    ow = [N[k]['w'] for k, _ in cfg['outs']]
    if cfg['kind'] == 'vr':
        live = sorted(set().union(*[deps(cfg)[k] for k, _ in cfg['outs']]))
        ins = [{'n': 'i%d' % i, 'd': [('x%d' % i, src[i]['w'])], 'v': 'xv%d' % i, 'r': 'xr%d' % i, 'k': i} for i in live]
        outs = [{'n': 'o%d' % q, 'd': [('z%d' % q, ow[q])], 'v': 'zv%d' % q, 'r': 'zr%d' % q if r else None} for q, (k, r) in enumerate(cfg['outs'])]
    else:
        live = sorted(set().union(*[deps(cfg)[k] for k, _ in cfg['outs']]))
        ins = [{'n': 'i', 'd': [('x%d' % i, src[i]['w']) for i in live], 'v': 'xv', 'r': None, 'k': live}]
        if cfg['kind'] == 'v':
            outs = [{'n': 'o%d' % q, 'd': [('z%d' % q, ow[q])], 'v': 'zv%d' % q, 'r': None} for q in range(len(cfg['outs']))]
        else:
            outs = [{'n': 'o', 'd': [('z%d' % q, ow[q]) for q in range(len(cfg['outs']))], 'v': 'zv', 'r': None}]
    return ins, outs


def needed(cfg):
    N = cfg['nodes']
    u = set()
    todo = [k for k, _ in cfg['outs']]
    while todo:
        k = todo.pop()
        if k in u:
            continue
        u.add(k)
        n = N[k]
        todo += [a for a in list(n['a']) + [n.get('en'), n.get('rst'), n.get('pair')] if isinstance(a, int)]
    return u


def build(cfg):
    N, kind = cfg['nodes'], cfg['kind']
    ins, outs = ports(cfg)
    man = cfg['style'] == 'manager'
    L = [genmod.HEADER, 'import veriloggen.dataflow as dataflow', 'import veriloggen.core.vtypes as vtypes', 'def mk():']
    a = L.append
    df = 'dataflow'
    live = {p['k']: p for p in ins} if kind == 'vr' else {k: None for k in ins[0]['k']}
    if man:
        df = 'df'
        a('    m = Module("dut")\n    clk = m.Input("CLK")\n    rst = m.Input("RST")')
        a('    df = dataflow.DataflowManager(m, clk, rst)')
        for p in ins:
            for (pn, w) in p['d']:
                k = int(pn[1:])
                a('    %s = m.Input("%s", %d, signed=%s)' % (pn, pn, w, bool([n for n in N if n['o'] == 'src' and n['k'] == k][0]['s'])))
            a('    %s = m.Input("%s")' % (p['v'], p['v']))
            if p['r']:
                a('    %s = m.Output("%s")' % (p['r'], p['r']))
        q = 0
        for p in outs:
            for (pn, w) in p['d']:
                a('    %s = m.Output("%s", %d, signed=%s)' % (pn, pn, w, bool(N[cfg['outs'][q][0]]['s'])))
                q += 1
            a('    %s = m.Output("%s")' % (p['v'], p['v']))
            if p['r']:
                a('    %s = m.Input("%s")' % (p['r'], p['r']))
    sig = (lambda s: s) if man else (lambda s: '"%s"' % s)
    nm = lambda r: ('n%d' % r) if isinstance(r, int) else str(r[1])
    tok = set()
    for i, n in enumerate(N):
        if n['o'] != 'Dparam':
            tok.add(i)
    # every use of a value behind an operator of its own: values with several consumers
    # that are joined with others are a known finding
    use = lambda r: '%s.CustomOp(lambda x: x, n%d)' % (df, r) if isinstance(r, int) and cfg.get('wrap') and r in tok else nm(r)
    u = needed(cfg)
    done = set()

    def size(n, i):
        if n['size'] is None:
            return None
        if n['size'][0] == 'c':
            return str(n['size'][1])
        return '%s.Parameter("P%d", %d, width=8)' % ('dataflow' if not man else 'df', i, n['size'][1])
    if kind == 'none':
        a('    mark = %s.Variable(%s, width=1, signed=False)' % (df, sig('xv')))
    for i, n in enumerate(N):
        if i not in u and not any(m.get('pair') == i and j in u for j, m in enumerate(N)):
            if not (n.get('valid') and i + 1 in u):
                continue
        o, A, me = n['o'], [use(x) for x in n['a']], nm(i)
        kw = lambda d: ''.join(', %s=%s' % (k, v) for k, v in d.items() if v is not None)
        common = {'enable': use(n['en']) if n.get('en') is not None else None, 'reset': use(n['rst']) if n.get('rst') is not None else None}
        if o == 'src':
            hs = ''
            if kind == 'vr':
                p = live[n['k']]
                hs = ', valid=%s, ready=%s' % (sig(p['v']), sig(p['r']))
            elif kind == 'v':
                hs = ', valid=%s' % sig('xv')
            e = '%s.Variable(%s%s, width=%d, signed=%s)' % (df, sig('x%d' % n['k']), hs, n['w'], bool(n['s']))
        elif o == 'Dparam':
            e = '%s.Parameter("K%d", %d, width=%d, signed=True)' % (df, i, n['v'], n['w'])
        elif o in strm.BIN:
            if isinstance(n['a'][0], list):
                e = '%s.%s(%s, %s)' % (df, {'add': 'Plus', 'sub': 'Minus', 'mul': 'Times', 'lt': 'LessThan', 'le': 'LessEq', 'gt': 'GreaterThan', 'ge': 'GreaterEq', 'eq': 'Eq', 'ne': 'NotEq'}[o], A[0], A[1])
            else:
                e = '(%s %s %s)' % (A[0], strm.BIN[o], A[1])
        elif o == 'slice':
            e = '%s.Slice(%s, %d, %d)' % (df, A[0], n['hi'], n['lo'])
        elif o == 'c2':
            e = '%s.Uminus(%s)' % (df, A[0])
        elif o in strm.CALL:
            e = '%s.%s(%s)' % (df, strm.CALL[o], ', '.join(A))
        elif o == 'prev':
            e = '%s.prev(%d)' % (A[0], n['d'])
        elif o == 'lut':
            e = '%s.LUT(%s, %r)' % (df, A[0], n['pat'])
        elif o == 'Drep':
            e = '%s.Repeat(%s, %d)' % (df, A[0], n['t'])
        elif o == 'Dptr':
            e = '%s[%s]' % (A[0], A[1])
        elif o == 'Dsign':
            e = '%s.Sign(%s)' % (df, A[0])
        elif o == 'Dcustom':
            e = '%s.CustomOp(lambda x, y: vtypes.Xor(x, y) + 1, %s, %s)' % (df, A[0], A[1])
        elif o == 'Dalias':
            if n['con']:
                a('    %s = %s.Variable(width=%d, signed=%s)' % (me, df, n['w'], bool(n['s'])))
                a('    %s.connect(%s)' % (me, A[0]))
                continue
            e = '%s.Variable(%s)' % (df, A[0])
        elif o == 'Dacc':
            args = dict({'size': size(n, i), 'initval': n['iv'], 'width': n['wp']}, **common)
            if n['op'] == 'max':
                e = '%s.ReduceCustom(lambda x, y: vtypes.Mux(x > y, x, y), %s%s)' % (df, A[0], kw(args))
            else:
                f = {'add': 'ReduceAdd', 'sub': 'ReduceSub', 'mul': 'ReduceMul'}[n['op']]
                if n['valid']:
                    a('    %s, %s = %s.%sValid(%s%s)' % (me, nm(i + 1), df, f, A[0], kw(args)))
                    done.add(i + 1)
                    continue
                e = '%s.%s(%s%s)' % (df, f, A[0], kw(args))
        elif o == 'Dpulse':
            if i in done:
                continue
            e = '%s.Pulse(%s, control=%s%s)' % (df, size(n, i), A[0], kw(common))
        elif o == 'Dcounter':
            e = '%s.Counter(%s)' % (df, kw(dict({'step': n['step'], 'size': size(n, i), 'initval': n['iv'], 'control': A[0] if A else None}, **common))[2:])
        else:
            raise core.HarnessError('node ' + o)
        a('    %s = %s' % (me, e))
    names = []
    for q, (k, r) in enumerate(cfg['outs']):
        if kind == 'none':
            a('    %s.output(%s)' % (nm(k), sig('z%d' % q)))
        else:
            if cfg.get('wrap'):
                a('    z%d_ = %s' % (q, use(k)))
                k = None
            a('    %s.output(%s, valid=%s%s)' % ('z%d_' % q if k is None else nm(k), sig('z%d' % q), sig('zv%d' % q), ', ready=%s' % sig('zr%d' % q) if r else ''))
        names.append('z%d_' % q if k is None else nm(k))
    if kind == 'none':
        a('    mark.output(%s)' % sig('zv'))
        names.append('mark')
    if man:
        a('    return m')
    else:
        a('    return dataflow.Dataflow(%s).to_module("dut")' % ', '.join(names))
    return genmod.load('\n'.join(L)).mk().to_verilog()


def tb(cfg):
    return vr.tb(*ports(cfg))


def gen_run(cfg, rng, style={}):
    ins, outs = ports(cfg)
    n = rng.choice([0, 1, 2, 5, 10, 40, 120])
    N = [n] * len(ins) if rng.random() < 0.85 else [rng.choice([1, 5, 10, 40]) for _ in ins]
    sched = vr.gen_sched(rng, ins, outs, style)
    if cfg['kind'] == 'none' and any(d['o'] == 'prev' for d in cfg['nodes']):
        sched = [e for e in sched if e['k'] == 'reset']
    return {'n': N, 'salt': rng.getrandbits(16), 'rmode': rng.choice([0, 0, rng.getrandbits(len(outs))]), 'sched': sched, 'warm': settle(cfg), 'maxcyc': vr.SCH + 2500 + settle(cfg)}


def expect(cfg, run):
    ins, outs = ports(cfg)
    raw = vr.inputs(ins, run)
    N = cfg['nodes']
    D = deps(cfg)
    data = {}
    if cfg['kind'] == 'vr':
        for p, L in zip(ins, raw):
            data[p['k']] = [t[0] for t in L]
    else:
        for q, k in enumerate(ins[0]['k']):
            data[k] = [t[q] for t in raw[0]]
    cnt = {k: len(v) for k, v in data.items()}
    ev = Eval({'streams': [{'nodes': N, 'sinks': []}]}, 0, {})
    ev.divmin = not cfg.get('strict')
    T = max(list(cnt.values()) + [0])
    rows = []
    for j in range(T):
        rows.append(ev.element({k: (data[k][j] if k in data and j < cnt[k] else 0) for k in range(cfg['ni'])}))
    own = [min([cnt[i] for i in D[k]] or [0]) for k, _ in cfg['outs']]
    none = cfg['kind'] == 'none'

    def val(q, j):
        k = cfg['outs'][q][0]
        return rows[j][k]
    G = {k: k for k in data}
    lk = links(cfg)
    for k in needed(cfg):
        for x in lk[k]:
            G.setdefault(x, x)
    for k in needed(cfg):
        s = sorted(lk[k])
        for x in s[1:]:
            old = G[x]
            for g in G:
                if G[g] == old:
                    G[g] = G[s[0]]
    grp = {k: min(cnt[j] for j in data if G[j] == G[k]) for k in data}
    if none:
        want = [[]]
        for j in range(min(own or [0])):
            x = 0
            for q in range(len(cfg['outs'])):
                v = val(q, j)
                x = None if v is None or x is None else x << N[cfg['outs'][q][0]]['w'] | v
            want[0].append(x)
        return want, [0], [len(want[0])]
    want = [[val(q, j) for j in range(own[q])] for q in range(len(own))]
    need = [grp[p['k']] for p in ins] if cfg['kind'] == 'vr' else [len(raw[0])]
    exp = [min([grp[i] for i in D[k]] or [0]) for k, _ in cfg['outs']]
    return want, need, exp


def files(cfg, run, rd):
    ins, outs = ports(cfg)
    want, need, cnt = expect(cfg, run)
    vr.files(ins, outs, run, rd, cnt, need)


def check(cfg, run, log):
    ins, outs = ports(cfg)
    want, need, cnt = expect(cfg, run)
    viols, st = vr.check(ins, outs, run, log, want, need, throughput=2 if cfg['kind'] == 'vr' and len(set(run['n'])) == 1 else None)
    ops = {n['o'] for k, n in enumerate(cfg['nodes']) if k in needed(cfg)}
    st['probes'].update({'joins': sum(len(s) > 1 for s in deps(cfg)), 'prevs': int('prev' in ops), 'accumulated': int('Dacc' in ops), 'counters': int('Dcounter' in ops),
                         'multipliers': int('mul' in ops), 'dividers': int('div' in ops or 'mod' in ops), 'many_outputs': int(len(outs) > 1),
                         'unspecified': sum(v is None for w in want for v in w)})
    if cfg['kind'] == 'v' and not viols:
        t = {}
        for line in log.split('\n'):
            p = line.split()
            if p and p[0] == 'RESET':
                t = {}
            if p and p[0] == 'G':
                t.setdefault(p[1], []).append(p[2])
        if len(set(map(tuple, t.values()))) > 1:
            viols.append(V('misaligned', 'outputs of one graph have different latencies: ' + ', '.join('%s at %s' % (k, v[0]) for k, v in sorted(t.items()))))
    return viols, st
