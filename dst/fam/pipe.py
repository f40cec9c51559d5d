"""DUT family: veriloggen.pipeline.  Random stage graphs with previous values and accumulators.

kind 'vr': every input and output has its own valid and ready; 'v': valid only, inputs share it;
'none': plain data, a one bit marker travels as data through the pipeline."""
from .. import core, genmod, vr
from ..core import V

SCH = vr.SCH
MINIMISE = ('sched',)
COMP = ('+', '-', '&', '|', '^', '*')          # modulo 2**W compositional
CMP = ('==', '!=', '<', '<=', '>', '>=')
RED = ('Uand', 'Uor', 'Uxor', 'Unand', 'Unor', 'Uxnor')
ACC = ('add', 'sub', 'and', 'or', 'xor', 'nand', 'nor', 'xnor', 'mul', 'max', 'min')


def src(e):
    k = e[0]
    if k == 'v':
        return 'v%d' % e[1]
    if k == 'c':
        return 'vtypes.Int(%d, width=%d)' % (e[1], e[2])
    if k in COMP or k in CMP:
        return '(%s %s %s)' % (src(e[1]), k, src(e[2]))
    if k in ('<<', '>>'):
        return '(%s %s %d)' % (src(e[1]), k, e[2])
    if k == '~':
        return '(~%s)' % src(e[1])
    if k == '!':
        return 'vtypes.Not(%s)' % src(e[1])
    if k == 'neg':
        return '(-%s)' % src(e[1])
    if k in RED:
        return 'vtypes.%s(%s)' % (k, src(e[1]))
    if k == '?':
        return 'vtypes.Mux(%s, %s, %s)' % (src(e[1]), src(e[2]), src(e[3]))
    if k in ('&&', '||'):
        return 'vtypes.%s(%s, %s)' % ('Land' if k == '&&' else 'Lor', src(e[1]), src(e[2]))
    if k == 'bit':
        return '%s[%d]' % (src(e[1]), e[2])
    if k == 'sl':
        return 'vtypes.Slice(%s, %d, %d)' % (src(e[1]), e[2], e[3])
    if k == 'cat':
        return 'vtypes.Cat(%s)' % ', '.join(src(x) for x in e[1:])
    if k == 'rep':
        return 'vtypes.Repeat(%s, %d)' % (src(e[1]), e[2])
    raise ValueError(k)


def ev(e, env, W):
    m = (1 << W) - 1
    k = e[0]
    if k == 'v':
        return env[e[1]]
    if k == 'c':
        return e[1]
    if k == '?':
        c = ev(e[1], env, W)
        a, b = ev(e[2], env, W), ev(e[3], env, W)
        return None if c is None else (a if c else b)
    xs = [ev(x, env, W) for x in e[1:] if isinstance(x, (list, tuple))]
    if any(x is None for x in xs):
        return None
    a = xs[0]
    b = xs[1] if len(xs) > 1 else None
    if k in COMP:
        return {'+': a + b, '-': a - b, '&': a & b, '|': a | b, '^': a ^ b, '*': a * b}[k] & m
    if k in CMP:
        return int({'==': a == b, '!=': a != b, '<': a < b, '<=': a <= b, '>': a > b, '>=': a >= b}[k])
    if k == '<<':
        return a << e[2] & m
    if k == '>>':
        return a >> e[2]
    if k == '~':
        return ~a & m
    if k == '!':
        return int(not a)
    if k == 'neg':
        return -a & m
    if k in RED:
        r = {'a': int(a == m), 'o': int(a != 0), 'x': bin(a).count('1') & 1}[k.replace('Un', 'U').replace('Ux', 'U*')[1].replace('*', 'x')]
        return r ^ (k in ('Unand', 'Unor', 'Uxnor'))
    if k in ('&&', '||'):
        return int((a and b) if k == '&&' else (a or b)) and 1
    if k == 'bit':
        return a >> e[2] & 1
    if k == 'sl':
        return a >> e[3] & ((1 << (e[2] - e[3] + 1)) - 1)
    if k == 'cat':
        r = 0
        for x in xs:
            r = r << W | x
        return r & m
    if k == 'rep':
        r = 0
        for _ in range(e[2]):
            r = r << W | a
        return r & m
    raise ValueError(k)


def gen_e(rng, n, W, depth=2):
    def leaf(const=True):
        if const and rng.random() < 0.2:
            return ['c', rng.choice([0, 1, (1 << W) - 1, rng.getrandbits(W)]), W]
        return ['v', rng.randrange(n) if rng.random() < 0.5 else max(0, n - 1 - rng.randrange(3))]
    r = rng.random()
    if depth == 0 or r < 0.12:
        return leaf(False)
    if r < 0.62:
        return [rng.choice(COMP), gen_e(rng, n, W, depth - 1), gen_e(rng, n, W, depth - 1) if rng.random() < 0.8 else leaf()]
    k = rng.choice(['cmp', '<<', '>>', '~', '!', 'neg', 'red', '?', '&&', '||', 'cat', 'rep', '~', '?'])
    v = leaf(False)
    if k == 'cmp':
        return [rng.choice(CMP), v, leaf()]
    if k in ('<<', '>>'):
        return [k, v, rng.randrange(W)]
    if k in ('~', '!', 'neg'):
        return [k, v]
    if k == 'red':
        return [rng.choice(RED), v]
    if k == '?':
        return ['?', [rng.choice(CMP), v, leaf()] if rng.random() < 0.5 else v, leaf(), leaf(False)]
    if k in ('&&', '||'):
        return [k, v, leaf(False)]
    if k == 'bit':
        return ['bit', v, rng.randrange(W)]
    if k == 'sl':
        b = rng.randrange(W)
        return ['sl', v, rng.randrange(b, W), b]
    if k == 'cat':
        return ['cat', v, leaf(False)]
    return ['rep', v, rng.choice([1, 2])]


def used(e, acc=None):
    acc = set() if acc is None else acc
    if e[0] == 'v':
        acc.add(e[1])
    for x in e[1:]:
        if isinstance(x, (list, tuple)):
            used(x, acc)
    return acc


def gen_cfg(rng, i=0, style={}):
    W = rng.choice([4, 8, 8, 13, 16, 32])
    kind = rng.choice(['vr', 'vr', 'vr', 'v', 'none'])
    ni = rng.choice([1, 1, 2, 2, 3])
    nodes = []
    n = ni
    for _ in range(rng.choice([1, 2, 3, 5, 8])):
        r = rng.random()
        if r < 0.62:
            nodes.append(['stage', gen_e(rng, n, W)])
        elif r < 0.82:
            nodes.append(['prev', rng.randrange(n), rng.choice([1, 1, 2, 3])])
            if nodes[-1] in nodes[:-1]:        # the same object
                nodes.pop()
                continue
        else:
            nodes.append(['acc', rng.choice(ACC), gen_e(rng, n, W, rng.choice([0, 0, 1])), rng.choice([0, 0, 1, rng.getrandbits(W)])])
        if kind == 'none' and nodes[-1][0] == 'acc':
            nodes[-1] = ['stage', nodes[-1][2]]
        n += 1
    # every node and input reaches an output: what nothing uses is an output
    use = set()
    for d in nodes:
        use |= used(d[1]) if d[0] == 'stage' else {d[1]} if d[0] == 'prev' else used(d[2])
    outs = [k for k in range(n) if k not in use]
    outs = [k for k in outs if k >= ni] + [k for k in outs if k < ni and rng.random() < 0.5]
    if rng.random() < 0.3:
        outs += [k for k in range(n) if k not in outs and rng.random() < 0.3]
    outs = outs or [n - 1]
    o = []
    for k in outs[:6]:
        if kind == 'vr':
            o.append([k, rng.random() < 0.85])
        else:
            o.append([k, False])
    return {'W': W, 'kind': kind, 'ni': ni, 'nodes': nodes, 'outs': o}


def deps(cfg):
    """node -> set of inputs it depends on"""
    D = [{i} for i in range(cfg['ni'])]
    for d in cfg['nodes']:
        u = used(d[1]) if d[0] == 'stage' else {d[1]} if d[0] == 'prev' else used(d[2])
        D.append(set().union(*[D[x] for x in u]) if u else set())
    return D


def ports(cfg):
    W = cfg['W']
    if cfg['kind'] == 'vr':
        ins = [{'n': 'i%d' % i, 'd': [('x%d' % i, W)], 'v': 'xv%d' % i, 'r': 'xr%d' % i} for i in range(cfg['ni'])]
        outs = [{'n': 'o%d' % q, 'd': [('z%d' % q, W)], 'v': 'zv%d' % q, 'r': 'zr%d' % q if r else None} for q, (k, r) in enumerate(cfg['outs'])]
    else:
        ins = [{'n': 'i', 'd': [('x%d' % i, W) for i in range(cfg['ni'])], 'v': 'xv', 'r': None}]
        if cfg['kind'] == 'v':
            outs = [{'n': 'o%d' % q, 'd': [('z%d' % q, W)], 'v': 'zv%d' % q, 'r': None} for q in range(len(cfg['outs']))]
        else:
            outs = [{'n': 'o', 'd': [('z%d' % q, W) for q in range(len(cfg['outs']))], 'v': 'zv', 'r': None}]
    return ins, outs


def build(cfg):
    W = cfg['W']
    ins, outs = ports(cfg)
    L = [genmod.HEADER, 'from veriloggen.pipeline.pipeline import Pipeline', 'import veriloggen.core.vtypes as vtypes', 'def mk():', '    m = Module("dut")', '    clk = m.Input("CLK")', '    rst = m.Input("RST")']
    a = L.append
    for p in ins:
        for n, w in p['d']:
            a('    %s = m.Input("%s", %d)' % (n, n, w))
        a('    %s = m.Input("%s")' % (p['v'], p['v']))
        if p['r']:
            a('    %s = m.Output("%s")' % (p['r'], p['r']))
    for p in outs:
        for n, w in p['d']:
            a('    %s = m.Output("%s", %d)' % (n, n, w))
        a('    %s = m.Output("%s")' % (p['v'], p['v']))
        if p['r']:
            a('    %s = m.Input("%s")' % (p['r'], p['r']))
    a('    pipe = Pipeline(m, "pipe", clk, rst, %d)' % W)
    kind = cfg['kind']
    for i in range(cfg['ni']):
        a('    v%d = pipe.input(x%d%s)' % (i, i, ', valid=xv%d, ready=xr%d' % (i, i) if kind == 'vr' else ', valid=xv' if kind == 'v' else ''))
    if kind == 'none':
        a('    mark = pipe.input(xv)')
    for j, d in enumerate(cfg['nodes']):
        v = 'v%d' % (cfg['ni'] + j)
        if d[0] == 'stage':
            a('    %s = pipe%s(%s)' % (v, '.stage' if j % 2 else '', src(d[1])))
        elif d[0] == 'prev':
            a('    %s = v%d.prev(%d)' % (v, d[1], d[2]))
        else:
            a('    %s = pipe.acc_%s(%s, initval=%d)' % (v, d[1], src(d[2]), d[3]))
    for q, (k, r) in enumerate(cfg['outs']):
        dup = [x for x, _ in cfg['outs'][:q]].count(k)
        assert not dup
        if kind == 'none':
            a('    v%d.output(z%d)' % (k, q))
        else:
            a('    v%d.output(z%d, valid=zv%d%s)' % (k, q, q, ', ready=zr%d' % q if r else ''))
    if kind == 'none':
        a('    mark.output(zv)')
    a('    pipe.make_always()')
    a('    return m')
    return genmod.load('\n'.join(L)).mk().to_verilog()


def tb(cfg):
    return vr.tb(*ports(cfg))


def gen_run(cfg, rng, style={}):
    ins, outs = ports(cfg)
    n = rng.choice([0, 1, 2, 5, 10, 40, 120])
    N = [n] * len(ins) if rng.random() < 0.85 else [rng.choice([1, 5, 10, 40]) for _ in ins]
    sched = vr.gen_sched(rng, ins, outs, style)
    if cfg['kind'] == 'none' and any(d[0] == 'prev' for d in cfg['nodes']):
        sched = [e for e in sched if e['k'] == 'reset']
    return {'n': N, 'salt': rng.getrandbits(16), 'rmode': rng.choice([0, 0, rng.getrandbits(len(outs))]), 'sched': sched, 'maxcyc': vr.SCH + 1500}


def model(cfg, data, N):
    """data: per input the list of words; -> per node the list of values for its tokens"""
    W = cfg['W']
    m = (1 << W) - 1
    D = deps(cfg)
    vals = [list(x) for x in data]
    none = cfg['kind'] == 'none'
    for j, d in enumerate(cfg['nodes']):
        n = min([N[i] for i in D[cfg['ni'] + j]] or [0])
        if d[0] == 'stage':
            vals.append([ev(d[1], [x[t] if t < len(x) else None for x in vals], W) for t in range(n)])
        elif d[0] == 'prev':
            vals.append([(vals[d[1]][t - d[2]] if t >= d[2] else None if none else 0) for t in range(n)])
        else:
            acc = d[3]
            o = []
            for t in range(n):
                x = ev(d[2], [x[t] if t < len(x) else None for x in vals], W)
                if x is None or acc is None:
                    acc = None
                else:
                    acc = {'add': acc + x, 'sub': acc - x, 'and': acc & x, 'or': acc | x, 'xor': acc ^ x, 'nand': ~(acc & x), 'nor': ~(acc | x), 'xnor': ~(acc ^ x),
                           'mul': acc * x, 'max': max(acc, x), 'min': min(acc, x)}[d[1]] & m
                o.append(acc)
            vals.append(o)
    return vals


def groups(cfg, D):
    """inputs that some node joins move together"""
    G = list(range(cfg['ni']))
    for s in D:
        s = sorted(s)
        for x in s[1:]:
            G = [G[s[0]] if g == G[x] else g for g in G]
    return G


def expect(cfg, run):
    ins, outs = ports(cfg)
    raw = vr.inputs(ins, run)
    D = deps(cfg)
    if cfg['kind'] == 'vr':
        data = [[t[0] for t in L] for L in raw]
    else:
        data = [[t[i] for t in raw[0]] for i in range(cfg['ni'])]
    N = [len(x) for x in data]
    G = groups(cfg, D)
    vals = model(cfg, data, N)
    N = [min(N[j] for j in range(cfg['ni']) if G[j] == G[i]) for i in range(cfg['ni'])]
    W = cfg['W']
    if cfg['kind'] == 'none':
        want = [[None if any(vals[k][t] is None for k, _ in cfg['outs']) else sum(vals[k][t] << W * (len(cfg['outs']) - 1 - q) for q, (k, _) in enumerate(cfg['outs']))
                 for t in range(min(N))]]
        need = [0]
        cnt = [min(N)]
    else:
        want = [vals[k] for k, _ in cfg['outs']]
        need = N if cfg['kind'] == 'vr' else [N[0]]
        cnt = [min([N[i] for i in D[k]] or [0]) for k, _ in cfg['outs']]
    return want, need, cnt


def files(cfg, run, rd):
    ins, outs = ports(cfg)
    want, need, cnt = expect(cfg, run)
    vr.files(ins, outs, run, rd, cnt, need)


def check(cfg, run, log):
    ins, outs = ports(cfg)
    want, need, cnt = expect(cfg, run)
    viols, st = vr.check(ins, outs, run, log, want, need, throughput=2 if cfg['kind'] == 'vr' and len(set(run['n'])) == 1 else None)
    st['probes'].update({'joins': sum(len(s) > 1 for s in deps(cfg)), 'prevs': sum(d[0] == 'prev' for d in cfg['nodes']),
                         'accumulated': sum(len(want[0]) for d in cfg['nodes'] if d[0] == 'acc') if want else 0, 'many_outputs': int(len(outs) > 1)})
    if cfg['kind'] == 'v' and not viols:
        t = {}
        for line in log.split('\n'):
            p = line.split()
            if p and p[0] == 'RESET':
                t = {}
            if p and p[0] == 'G':
                t.setdefault(p[1], []).append(p[2])
        if len(set(map(tuple, t.values()))) > 1:
            viols.append(V('misaligned', 'outputs of one pipeline have different latencies: ' + ', '.join('%s at %s' % (k, v[0]) for k, v in sorted(t.items()))))
    return viols, st
