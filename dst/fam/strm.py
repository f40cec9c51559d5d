"""vthread.Stream kernels: random typed dataflow graphs, every kind of source and
sink, sub-streams, in-stream RAM/FIFO accesses, run/join histories, under
scheduled stalls, FIFO arrival gaps and back-pressure.  The reference evaluates
the graph element by element in Python."""
import copy

from .. import bfm, core, genmod, opthread
from ..core import V

SCH = 4096
AW = 8
DEPTH = 1 << AW
R0 = DEPTH + 12
MINIMISE = ('sched', 'ops')
LIN_VARY = ('sched', 'salt', 'mode')


# --------------------------------------------------------------------------
# dataflow graphs.  A node is {'o': op, 'a': [refs], 'w': width, 's': signed, ...};
# a ref is a node index or ['c', value].
# --------------------------------------------------------------------------

def sgn(v, w):
    return v - (1 << w) if (v >> (w - 1)) & 1 else v


def cw(v):
    return abs(v).bit_length() + 1


OVERSAMPLE = 16      # designs drawn per design kept (props.cfgs_of)


class Gen:
    thread = True            # a veriloggen.thread.Stream: every run restarts accumulators and counters

    def __init__(self, rng, D, children=(), sources=2, params=1, unsigned=0.2, feats=()):
        self.rng = rng
        self.D = D
        self.N = []
        self.children = children
        self.feats = feats
        self.word = []       # word nodes
        self.bit = []        # one-bit nodes
        self.rest = set()    # nodes that may be undefined for some elements
        self.cnt = None
        self.fwd = set()
        for k in range(sources):
            s = int(rng.random() >= unsigned)
            self.word.append(self.add({'o': 'src', 'k': k, 'a': [], 'w': D, 's': s}))
        self.npar = params
        for k in range(params):
            self.word.append(self.add({'o': 'par', 'k': k, 'a': [], 'w': D, 's': 1}))
        self.szpar = None
        if rng.random() < 0.6:
            self.szpar = self.add({'o': 'par', 'k': params, 'a': [], 'w': D, 's': 1, 'sz': 1})
            self.npar += 1

    def add(self, n):
        self.N.append(n)
        i = len(self.N) - 1
        if any(isinstance(a, int) and a in self.rest for a in n['a']):
            self.rest.add(i)
        return i

    def t(self, r):
        return (cw(r[1]), 1) if isinstance(r, list) else (self.N[r]['w'], self.N[r]['s'])

    def counter(self):
        if self.cnt is None:
            self.cnt = self.add({'o': 'counter', 'a': [], 'w': 32, 's': 0})
        return self.cnt

    def pick(self, defined=False, s=None, w=None):
        c = [i for i in self.word if not (defined and i in self.rest) and (s is None or self.N[i]['s'] == s) and (w is None or self.N[i]['w'] == w)]
        if not c:
            return None
        return self.rng.choice(c[-6:] if self.rng.random() < 0.6 else c)

    def boolean(self, defined=True):
        c = [i for i in self.bit if not (defined and i in self.rest)]
        if c and self.rng.random() < 0.5:
            return self.rng.choice(c)
        rng = self.rng
        x = rng.random()
        if x < 0.3:
            n = self.add({'o': rng.choice(['lt', 'ge', 'eq', 'ne']), 'a': [self.counter(), ['c', rng.randint(0, 9)]], 'w': 1, 's': 0})
        elif x < 0.45:
            sl = self.add({'o': 'slice', 'a': [self.counter()], 'hi': 0, 'lo': 0, 'w': 1, 's': 0})
            n = sl
        else:
            a = self.pick(defined)
            if a is None:
                return self.boolean(defined) if rng.random() < 0.9 else self.add({'o': 'ge', 'a': [self.counter(), ['c', 1]], 'w': 1, 's': 0})
            b = self.pick(defined, s=self.N[a]['s']) if rng.random() < 0.6 else None
            if b is None or b == a:
                b = ['c', rng.choice([0, 1, 5, 100])]
            n = self.add({'o': rng.choice(['lt', 'le', 'gt', 'ge', 'eq', 'ne']), 'a': [a, b], 'w': 1, 's': 0})
        if rng.random() < 0.2 and self.bit:
            m = rng.choice(self.bit)
            if not (defined and m in self.rest):
                n = self.add({'o': rng.choice(['land', 'lor']), 'a': [n, m], 'w': 1, 's': 0})
        if rng.random() < 0.15:
            n = self.add({'o': 'lnot', 'a': [n], 'w': 1, 's': 0})
        self.bit.append(n)
        return n

    def addr(self):
        """an address 0..15, a defined node"""
        x = self.pick(True, w=self.D) if self.rng.random() < 0.5 else None
        if x is None:
            x = self.counter()
        s = self.add({'o': 'slice', 'a': [x], 'hi': 3, 'lo': 0, 'w': 4, 's': 0})
        return s

    def guard(self, n, k):
        """n is undefined for the first k elements"""
        self.rest.add(n)
        if self.rng.random() < 0.7:
            c = self.add({'o': 'ge', 'a': [self.counter(), ['c', k]], 'w': 1, 's': 0})
            g = self.add({'o': 'mux', 'a': [c, n, ['c', 0]] if self.N[n]['s'] else [c, n, n], 'w': self.N[n]['w'], 's': self.N[n]['s']})
            if self.N[n]['s']:
                self.rest.discard(g)
                self.N[g]['guard'] = 1
            return g
        return n

    def reach(self, c):
        return {c}.union(*[self.reach(n['c']) for n in self.children[c]['nodes'] if n['o'] == 'subst'])

    def accum(self):
        rng = self.rng
        x = self.pick(True, s=1)
        if x is None:
            return None
        o = rng.choice(['radd', 'radd', 'rmax', 'rmin', 'rsub'] + (['rmul', 'rdiv'] if 'multi' in self.feats and rng.random() < 0.4 else []))
        n = {'o': o, 'a': [x], 'w': 32, 's': 1, 'iv': rng.choice([0, 0, 0, 7, -3]), 'size': None, 'en': None, 'rst': None, 'valid': 0}
        if o == 'rmul':
            n['iv'] = 1
        if o == 'rdiv':
            n['iv'] = rng.choice([1000000, -77777, 5])
        if rng.random() < 0.6:
            n['size'] = self.szpar if self.szpar is not None and rng.random() < 0.6 else ['c', rng.randint(1, 5)]
        if rng.random() < 0.3:
            n['en'] = self.boolean()
        if rng.random() < 0.15 and n['en'] is None:
            n['rst'] = self.boolean()
        if self.thread and o not in ('rmul', 'rdiv'):
            if rng.random() < 0.2:
                n['intv'] = rng.choice([1, 2, 3])
            if rng.random() < 0.15:
                n['ii'] = rng.choice([2, 3, 5])
        i = self.add(n)
        if n['size'] is not None:
            v = self.add({'o': 'pulse', 'a': [x], 'w': 1, 's': 0, 'size': n['size'], 'en': n['en'], 'rst': n['rst'], 'intv': n.get('intv'), 'pair': i})
            self.bit.append(v)
        return i

    def step(self):
        rng = self.rng
        N = self.N
        kinds = ['arith'] * 7 + ['mul'] * 2 + ['mux'] * 4 + ['logic'] * 2 + ['shift'] * 2 + ['un'] * 2 + ['cast'] + ['slice'] + ['acc'] * 2 + ['count'] + ['prev'] * 2
        if 'buf' in self.feats:
            kinds += ['ring', 'scratch', 'pred', 'lut', 'redop', 'cat', 'nary', 'madd', 'reg', 'pred', 'ccnt', 'lbuf', 'argm']
        if 'multi' in self.feats:
            kinds += ['div', 'div', 'dmc']
        if self.children:
            kinds += ['subst'] * 3
        k = rng.choice(kinds)
        i = None
        if k == 'arith':
            a = self.pick()
            b = self.pick(s=N[a]['s']) if rng.random() < 0.75 else ['c', rng.choice([1, 2, 3, 10, 1000] + ([-1, -7] if N[a]['s'] else []))]
            if isinstance(b, list) and not N[a]['s'] and rng.random() < 0.5:
                a, b = a, b
            w = max(self.t(a)[0], self.t(b)[0])
            args = [a, b]
            if isinstance(b, list) and rng.random() < 0.3:
                args = [b, a]
            i = self.add({'o': rng.choice(['add', 'add', 'sub']), 'a': args, 'w': w, 's': int(self.t(a)[1] and self.t(b)[1])})
            if rng.random() < 0.15:
                N[i]['lat'] = rng.choice([0, 0, 2, 3])
        elif k == 'mul':
            a, b = self.pick(), self.pick() if rng.random() < 0.7 else ['c', rng.choice([2, 3, 7])]
            i = self.add({'o': 'mul', 'a': [a, b], 'w': max(self.t(a)[0], self.t(b)[0]), 's': int(self.t(a)[1] and self.t(b)[1])})
            if rng.random() < 0.2:
                N[i]['lat'] = rng.choice([4, 5])
        elif k in ('div', 'dmc'):
            a = self.pick(s=1)
            b = self.pick(s=1) if rng.random() < 0.7 else ['c', rng.choice([2, 3, 7, -5])]
            if a is None or b is None or self.t(a)[0] > 32 or self.t(b)[0] > 32:
                return
            i = self.add({'o': rng.choice(['div', 'mod', 'div']) if k == 'div' else 'dmc', 'a': [a, b], 'w': max(self.t(a)[0], self.t(b)[0]), 's': 1})
            self.rest.add(i)
        elif k == 'mux':
            c = self.boolean(False)
            a = self.pick()
            b = self.pick(s=N[a]['s']) if rng.random() < 0.7 or not N[a]['s'] else ['c', rng.choice([0, 1, -1, 9])]
            i = self.add({'o': 'mux', 'a': [c, a, b], 'w': max(self.t(a)[0], self.t(b)[0]), 's': N[a]['s']})
            if rng.random() < 0.15:
                N[i]['lat'] = 0
        elif k == 'logic':
            a = self.pick()
            b = self.pick(w=N[a]['w'])
            i = self.add({'o': rng.choice(['and', 'or', 'xor', 'xnor']), 'a': [a, b], 'w': N[a]['w'], 's': 0})
        elif k == 'shift':
            a = self.pick()
            o = rng.choice(['sll', 'srl', 'sra', 'sra', 'srlv', 'srav'])
            if o == 'sra' or o == 'srav':
                a = self.pick(s=1)
            if a is None:
                return
            if o.endswith('v'):
                b = self.addr()
                i = self.add({'o': o[:3], 'a': [a, b], 'w': N[a]['w'], 's': N[a]['s'] if o == 'srav' else 0})
            else:
                c = rng.randint(0, 4)
                w = N[a]['w'] + (c if o == 'sll' else 0)
                if w > 64:
                    return
                i = self.add({'o': o, 'a': [a, ['c', c]], 'w': w, 's': 0 if o == 'srl' else N[a]['s']})
        elif k == 'un':
            a = self.pick(s=1)
            if a is None:
                return
            o = rng.choice(['neg', 'not', 'abs', 'c2', 'pos'])
            i = self.add({'o': o, 'a': [a], 'w': N[a]['w'], 's': 0 if o == 'not' else N[a]['s']})
        elif k == 'cast':
            a = self.pick()
            i = self.add({'o': rng.choice(['cast', 'rcast']), 'a': [a], 'w': rng.choice([8, 16, 32, 40, self.D, N[a]['w']]), 's': rng.randint(0, 1)})
        elif k == 'slice':
            a = self.pick()
            lo = rng.randrange(0, N[a]['w'] - 1)
            hi = rng.randrange(lo + 1, N[a]['w'])
            i = self.add({'o': 'slice', 'a': [a], 'hi': hi, 'lo': lo, 'w': hi - lo + 1, 's': 0})
        elif k == 'cat':
            a, b = self.pick(), self.pick()
            if N[a]['w'] + N[b]['w'] > 64:
                return
            i = self.add({'o': 'cat', 'a': [a, b], 'w': N[a]['w'] + N[b]['w'], 's': 0})
        elif k == 'redop':
            a = self.pick()
            i = self.add({'o': rng.choice(['uand', 'uor', 'uxor', 'unand', 'unor', 'uxnor']), 'a': [a], 'w': 1, 's': 0})
            self.bit.append(i)
            return
        elif k == 'nary':
            xs = [self.pick(s=1) for _ in range(rng.randint(1, 5))]
            if None in xs:
                return
            i = self.add({'o': rng.choice(['addn', 'tree', 'max', 'min', 'tree']), 'a': xs, 'w': max(N[x]['w'] for x in xs), 's': 1})
            if len(xs) == 1 and N[i]['o'] == 'addn':
                N[i]['o'] = 'tree'
            if N[i]['o'] == 'tree':
                N[i]['w'] = N[i]['w']
        elif k == 'madd':
            a, b, c = (self.pick(s=1) for _ in range(3))
            if a is None:
                return
            i = self.add({'o': 'madd', 'a': [a, b, c], 'w': max(N[a]['w'], N[b]['w'], N[c]['w']), 's': 1})
        elif k == 'acc':
            i = self.accum()
        elif k == 'count':
            n = {'o': 'counter', 'a': [], 'w': 32, 's': 0, 'size': None, 'step': 1, 'en': None, 'iv': 0}
            x = rng.random()
            if x < 0.5:
                n['size'] = ['c', rng.choice([1, 2, 3, 5])]
            if x < 0.2:
                n['size'] = self.szpar if self.szpar is not None else n['size']
            if rng.random() < 0.3 and n['size'] is None:
                n['step'] = rng.choice([2, 3])
            if rng.random() < 0.3 and n['size'] is None:
                n['iv'] = rng.choice([1, 5])
            if rng.random() < 0.4:
                n['en'] = self.boolean()
            if self.thread and rng.random() < 0.5:
                if rng.random() < 0.4:
                    n['intv'] = rng.choice([1, 2, 3])
                if rng.random() < 0.4 and n['size'] is not None:
                    n['off'] = rng.choice([0, 1, 2])
                if rng.random() < 0.3:
                    n['rst'] = self.boolean()
                if rng.random() < 0.4:
                    n['iv'] = 0
                    n['ivn'] = self.addr()
            i = self.add(n)
        elif k == 'ccnt':
            i = self.add({'o': 'ccnt', 'a': [], 'w': 32, 's': 1, 'm': [rng.randint(1, 4), rng.randint(1, 3)], 'out': rng.randint(0, 1)})
        elif k == 'prev':
            a = self.pick()
            d = rng.choice([1, 1, 2, 3])
            i = self.add({'o': 'prev', 'a': [a], 'd': d, 'w': N[a]['w'], 's': N[a]['s']})
            i = self.guard(i, d)
        elif k == 'ring':
            a = self.pick()
            d = rng.randint(1, 6)
            i = self.add({'o': 'ring', 'a': [a], 'd': d, 'len': rng.choice([8, 16]), 'w': N[a]['w'], 's': N[a]['s']})
            i = self.guard(i, d)
        elif k == 'argm':
            x = self.pick(True, s=1)
            if x is None:
                return
            i = self.add({'o': 'argm', 'a': [x], 'aw': N[x]['w'], 'mx': rng.randrange(2), 'w': 32, 's': 0, 'iv': rng.choice([0, 0, 7, -3, -(1 << 31)]),
                          'size': None if rng.random() < 0.3 else self.szpar if self.szpar is not None and rng.random() < 0.5 else ['c', rng.randint(1, 5)]})
        elif k == 'lbuf':
            a = self.pick()
            sh = [rng.choice([1, 2, 3]), rng.choice([1, 2, 3])]
            L = rng.choice([4, 5, 8])
            D = rng.randint(2, L - 1)
            head = rng.randrange(L)
            t = (head + D) % L
            c = self.boolean() if rng.random() < 0.4 else None
            rot = self.boolean() if c is not None and rng.random() < 0.6 else None
            idx = [rng.randrange(sh[0]), rng.randrange(sh[1])]
            i = self.add({'o': 'lbuf', 'a': [a], 'sh': sh, 'len': L, 'D': D, 'head': head, 'tail': t, 'en': c, 'rst': rot, 'idx': idx, 'w': N[a]['w'], 's': N[a]['s']})
            if c is None:
                i = self.guard(i, (sh[0] - 1 - idx[0]) + (sh[1] - 1 - idx[1]) * (D + sh[0]))
            else:
                self.rest.add(i)
        elif k == 'scratch':
            a = self.pick()
            d = rng.randint(1, 6)
            i = self.add({'o': 'scratch', 'a': [a], 'd': d, 'w': N[a]['w'], 's': N[a]['s']})
            i = self.guard(i, d)
        elif k in ('pred', 'reg'):
            a = self.pick()
            b = self.boolean()
            i = self.add({'o': 'pred', 'a': [a, b], 'w': N[a]['w'], 's': N[a]['s'], 'cls': 'Predicate' if k == 'pred' else 'Reg'})
            self.rest.add(i)
        elif k == 'lut':
            x = self.addr()
            i = self.add({'o': 'lut', 'a': [x], 'pat': [rng.randrange(1000) for _ in range(16)], 'w': 32, 's': 1})
        elif k == 'subst':
            c = rng.randrange(len(self.children))
            ch = self.children[c]
            args = []
            for n in ch['nodes']:
                if n['o'] == 'src' or n['o'] == 'par':
                    if n.get('sz'):
                        args.append(['c', rng.randint(1, 4)] if self.szpar is None else self.szpar)
                        continue
                    x = self.pick(True, w=n['w'])
                    if x is None:
                        return
                    args.append(x)
            o = rng.randrange(len(ch['sinks']))
            cn = ch['nodes'][ch['sinks'][o]['n']]
            used = [m for m in N if m['o'] == 'subst' and m['c'] == c]
            if not used and self.reach(c) & set().union(*[self.reach(m['c']) for m in N if m['o'] == 'subst']):
                return                       # a stream is one piece of hardware: it serves one instance at a time
            if used:                         # another output of the same instance
                i = self.add({'o': 'subst', 'c': c, 'a': used[0]['a'], 'out': o, 'w': cn['w'], 's': cn['s'], 'mc': used[0]['mc']})
            else:
                mc = int('multi' in self.feats and rng.random() < 0.6)
                i = self.add({'o': 'subst', 'c': c, 'a': args, 'out': o, 'w': cn['w'], 's': cn['s'], 'mc': mc})
        if i is None:
            return
        if N[i]['w'] > 64 or N[i]['w'] < 1:
            raise core.HarnessError('width')
        (self.word if N[i]['w'] > 1 else self.bit).append(i)
        return i


BIN = {'add': '+', 'sub': '-', 'mul': '*', 'lt': '<', 'le': '<=', 'gt': '>', 'ge': '>=', 'eq': '==', 'ne': '!='}
CALL = {'and': 'And', 'or': 'Or', 'xor': 'Xor', 'xnor': 'Xnor', 'land': 'Land', 'lor': 'Lor', 'sll': 'Sll', 'srl': 'Srl', 'sra': 'Sra', 'not': 'Unot', 'lnot': 'Ulnot',
        'neg': 'Uminus', 'pos': 'Uplus', 'abs': 'Abs', 'c2': 'Complement2', 'uand': 'Uand', 'uor': 'Uor', 'uxor': 'Uxor', 'unand': 'Unand', 'unor': 'Unor', 'uxnor': 'Uxnor',
        'mux': 'Mux', 'cat': 'Cat', 'addn': 'AddN', 'tree': 'AddTree', 'max': 'Max', 'min': 'Min', 'madd': 'MulAdd', 'div': 'Div', 'mod': 'Mod', 'dmc': 'DivideMultiCycle'}
ACC = {'radd': 'ReduceAdd', 'rsub': 'ReduceSub', 'rmax': 'ReduceMax', 'rmin': 'ReduceMin', 'rmul': 'ReduceMul', 'rdiv': 'ReduceDiv'}


def emit(cfg, si):
    """source lines that build stream si"""
    st = cfg['streams'][si]
    q = 'st%d' % si
    L = []
    nm = lambda r: ('%s_n%d' % (q, r)) if isinstance(r, int) else str(r[1])
    done = set()
    for i, n in enumerate(st['nodes']):
        o, A = n['o'], [nm(a) for a in n['a']]
        me = nm(i)
        kw = lambda d: ''.join(', %s=%s' % (k, v) for k, v in d.items() if v is not None)
        if o == 'src':
            e = '%s.source("s%d", datawidth=%d, signed=%s)' % (q, n['k'], n['w'], bool(n['s']))
        elif o == 'par':
            e = '%s.parameter("p%d", datawidth=%d, signed=%s)' % (q, n['k'], n['w'], bool(n['s']))
        elif o in BIN:
            if isinstance(n['a'][0], list):       # a constant on the left has no operator form
                e = '%s.%s(%s, %s)' % (q, {'add': 'Plus', 'sub': 'Minus', 'mul': 'Times', 'lt': 'LessThan', 'le': 'LessEq', 'gt': 'GreaterThan', 'ge': 'GreaterEq', 'eq': 'Eq', 'ne': 'NotEq'}[o], A[0], A[1])
            else:
                e = '(%s %s %s)' % (A[0], BIN[o], A[1])
        elif o == 'cast' or o == 'rcast':
            e = '%s.%s(%s, width=%d, signed=%s)' % (q, 'Cast' if o == 'cast' else 'ReinterpretCast', A[0], n['w'], bool(n['s']))
        elif o == 'slice':
            e = '%s.Slice(%s, %d, %d)' % (q, A[0], n['hi'], n['lo'])
        elif o in CALL:
            e = '%s.%s(%s)' % (q, CALL[o], ', '.join(A))
        elif o == 'counter':
            e = '%s.Counter(%s)' % (q, ', '.join('%s=%s' % x for x in [
                ('size', None if n.get('size') is None else (str(n['size'][1]) if isinstance(n['size'], list) else nm(n['size']))), ('step', n.get('step', 1) if n.get('step', 1) != 1 else None),
                ('initval', nm(n['ivn']) if n.get('ivn') is not None else n.get('iv') or None), ('enable', None if n.get('en') is None else nm(n['en'])),
                ('interval', n.get('intv')), ('offset', n.get('off')), ('reset', None if n.get('rst') is None else nm(n['rst']))] if x[1] is not None))
        elif o == 'ccnt':
            L.append('def %s_f(x, y, xs, ys):' % me)
            L.append('    xc = (x == xs - 1)')
            L.append('    return Mux(xc, 0, x + 1), Mux(xc, Mux(y == ys - 1, 0, y + 1), y)')
            e = '%s.CustomCounter(%s_f, (0, 0), args=(%d, %d))[%d]' % (q, me, n['m'][0], n['m'][1], n['out'])
        elif o in ACC:
            args = {'size': None if n['size'] is None else nm(n['size']), 'initval': n['iv'], 'enable': None if n['en'] is None else nm(n['en']),
                    'reset': None if n['rst'] is None else nm(n['rst']), 'interval': n.get('intv')}
            if n['size'] is not None:
                L.append('%s, %s = %s.%sValid(%s%s)' % (me, nm(i + 1), q, ACC[o], A[0], kw(args)))
                if n.get('ii'):
                    L.append('%s.initiation_interval = %d' % (me, n['ii']))
                done.add(i + 1)
                continue
            if n.get('ii'):
                L.append('%s = %s.%s(%s%s)' % (me, q, ACC[o], A[0], kw(args)))
                L.append('%s.initiation_interval = %d' % (me, n['ii']))
                continue
            e = '%s.%s(%s%s)' % (q, ACC[o], A[0], kw(args))
        elif o == 'pulse':
            if i in done:
                continue
            raise core.HarnessError('pulse')
        elif o == 'prev':
            e = '%s.prev(%d)' % (A[0], n['d'])
        elif o == 'ring':
            L.append('%s_b = %s.RingBuffer(%s, length=%d)' % (me, q, A[0], n['len']))
            e = '%s_b.read(%d)' % (me, -n['d'])
        elif o == 'scratch':
            L.append('%s_b = %s.Scratchpad(%s, %s.Counter(), length=64)' % (me, q, A[0], q))
            e = '%s_b.read(%s.Counter() - %d)' % (me, q, n['d'])
        elif o == 'argm':
            L.append('%s, %s_v = %s.ReduceArg%s(%s%s)' % (me, me, q, 'Max' if n['mx'] else 'Min', A[0],
                                                       kw({'size': None if n['size'] is None else nm(n['size']), 'initval': n['iv'], 'width': n['aw'] if n.get('aw', 32) > 32 else None})))
            continue
        elif o == 'lbuf':
            L.append('%s_b = %s.LineBuffer(shape=(%d, %d), memlens=[%d], head_initvals=[%d], tail_initvals=[%d], data=%s, shift_cond=%s%s)' % (
                me, q, n['sh'][0], n['sh'][1], n['len'], n['head'], n['tail'], A[0], '%s.Constant(1, 1)' % q if n['en'] is None else nm(n['en']),
                '' if n['rst'] is None else ', rotate_conds=[%s]' % nm(n['rst'])))
            e = '%s_b.get_window((%d, %d))' % (me, n['idx'][0], n['idx'][1])
        elif o == 'pred':
            e = '%s.%s(%s, when=%s)' % (q, n['cls'], A[0], A[1])
        elif o == 'lut':
            e = '%s.LUT(%s, %r)' % (q, A[0], n['pat'])
        elif o == 'subst':
            inst = '%s_sub%d' % (q, n['c'])
            ch = cfg['streams'][n['c']]
            if inst not in done:
                done.add(inst)
                L.append('%s = %s.%s(st%d)' % (inst, q, 'substream_multicycle' if n['mc'] else 'substream', n['c']))
                k = 0
                for m in ch['nodes']:
                    if m['o'] in ('src', 'par'):
                        L.append('%s.%s("%s%d", %s)' % (inst, 'to_source' if m['o'] == 'src' else 'to_parameter', m['o'][0], m['k'], A[k]))
                        k += 1
            e = '%s.from_sink("o%d")' % (inst, n['out'])
        elif o == 'rram':
            e = '%s.read_RAM("x%d", %s%s, datawidth=%d, signed=%s)' % (q, n['x'], A[0], ', when=%s' % nm(n['when']) if n['when'] is not None else '', n['w'], bool(n['s']))
        elif o == 'wram':
            L.append('%s.write_RAM("x%d", %s, %s%s)' % (q, n['x'], A[0], A[1], ', when=%s' % nm(n['when']) if n['when'] is not None else ''))
            continue
        elif o == 'rmw':
            L.append('%s.read_modify_write_RAM("x%d", (%s,), %s, %s.%s, (%s,)%s)' % (
                q, n['x'], A[0], A[0], q, n['op'], A[1], ', when=%s' % nm(n['when']) if n['when'] is not None else ''))
            continue
        elif o == 'rfifo':
            e = '%s.read_fifo("x%d"%s, datawidth=%d, signed=%s)' % (q, n['x'], ', when=%s' % nm(n['when']) if n['when'] is not None else '', n['w'], bool(n['s']))
        elif o == 'wfifo':
            L.append('%s.write_fifo("x%d", %s%s)' % (q, n['x'], A[0], ', when=%s' % nm(n['when']) if n['when'] is not None else ''))
            continue
        else:
            raise core.HarnessError('node %s' % o)
        L.append('%s = %s' % (me, e))
        if 'lat' in n:
            L.append('%s.latency = %d' % (me, n['lat']))
    for k, s in enumerate(st['sinks']):
        L.append('%s.sink(%s, "o%d"%s)' % (q, nm(s['n']), k, '' if s['when'] is None else ', when=%s, when_name="v%d"' % (nm(s['when']), k)))
    if st.get('term') is not None:
        L.append('%s.terminate(%s)' % (q, nm(st['term'])))
    return L


def rmw(op, a, b):
    if a is None or b is None:
        return None
    return a + b if op == 'Add' else a ^ b


class Undef(Exception):
    """control flow depends on a value the specification leaves open"""


def must(v):
    if v is None:
        raise Undef()
    return v


def tree(x, t):
    """sum of a balanced tree of adders as wide as their operands"""
    if len(x) == 1:
        return x[0], t[0]
    h = len(x) // 2
    (a, (wa, sa)), (b, (wb, sb)) = tree(x[:h], t[:h]), tree(x[h:], t[h:])
    w, s = max(wa, wb), int(sa and sb)
    r = a + b & (1 << w) - 1
    return (sgn(r, w) if s else r), (w, s)


def quot(a, b):
    if b == 0:
        return None
    q = abs(a) // abs(b)
    return -q if (a < 0) != (b < 0) else q


class Eval:
    """One run of one stream, element by element."""
    divmin = False     # operands of a division with the most significant magnitude bit are unspecified (see known findings)

    hold = False        # disabled elements after a completed window keep the outputs

    def __init__(self, cfg, si, parv, io=None):
        self.cfg = cfg
        self.st = cfg['streams'][si]
        self.N = self.st['nodes']
        self.parv = parv
        self.S = {}
        self.io = io
        self.kids = {}
        self.i = 0

    def size_of(self, n, vals):
        z = n['size']
        if isinstance(z, list):
            return z[1]
        v = must(vals[z])
        return sgn(v, self.N[z]['w']) if self.N[z]['s'] else v

    def tick(self, i, n, rst, vals):
        """does the accumulator take this element?"""
        en = n['en'] is None or must(vals[n['en']])
        z = n.get('intv')
        if not z:
            return en
        t = 0 if rst else self.S.get((i, 't'), 0)
        if en:
            self.S[i, 't'] = (t + 1) % z
        elif rst:
            self.S[i, 't'] = 0
        return en and t == z - 1

    def element(self, srcv):
        """-> values (bit patterns or None) of all nodes for the next element"""
        N, S = self.N, self.S
        vals = [None] * len(N)

        def num(r):
            if isinstance(r, list):
                return r[1]
            v = vals[r]
            if v is None:
                return None
            return sgn(v, N[r]['w']) if N[r]['s'] else v

        for i, n in enumerate(N):
            o = n['o']
            W = (1 << n['w']) - 1
            A = n['a']
            x = [num(a) for a in A]
            r = None
            if o == 'src':
                r = srcv[n['k']]
            elif o == 'par':
                r = self.parv[n['k']]
            elif o == 'counter':
                s = S.setdefault(i, n.get('iv', 0) or 0)
                t = S.setdefault((i, 't'), 0)
                iv = n.get('iv', 0) or 0
                if n.get('ivn') is not None and (self.i == 0 or n.get('rst') is not None):
                    iv = must(vals[n['ivn']])
                if (self.i == 0 and n.get('ivn') is not None) or (n.get('rst') is not None and must(vals[n['rst']])):
                    s, t = iv, 0
                    S[i], S[i, 't'] = s, t
                r = s
                en = n.get('en')
                tick = True
                if n.get('intv') and (en is None or must(vals[en])):
                    tick = t == n['intv'] - 1
                    S[i, 't'] = 0 if tick else t + 1
                if tick and (en is None or must(vals[en])):
                    st = n.get('step', 1)
                    z = n.get('size')
                    if n.get('off') is not None:
                        z = z[1] if isinstance(z, list) else must(num(z))
                        S[i] = n['off'] if s >= z - st else s + st
                    elif z is not None:
                        z = z[1] if isinstance(z, list) else must(num(z))
                        S[i] = s + st - z if s >= z - st else s + st
                    else:
                        S[i] = s + st
            elif o == 'ccnt':
                a, b = S.setdefault(i, (0, 0))
                r = (a, b)[n['out']]
                xc = a == n['m'][0] - 1
                S[i] = (0 if xc else a + 1, (0 if b == n['m'][1] - 1 else b + 1) if xc else b)
            elif o == 'argm':
                d = S.setdefault(i, {'v': n['iv'], 'c': 0, 'i': 0})
                y = x[0]
                if d['v'] is not None:
                    if d['c'] == 0:
                        d['v'], d['i'] = n['iv'], 0
                    d['v'], d['i'] = (None, None) if y is None else (y, d['c']) if (y > d['v'] if n['mx'] else y < d['v']) else (d['v'], d['i'])
                elif d['c'] == 0:
                    d['v'], d['i'] = (None, None) if y is None else (y, 0) if (y > n['iv'] if n['mx'] else y < n['iv']) else (n['iv'], 0)
                d['c'] += 1
                if n['size'] is not None and d['c'] >= self.size_of(n, vals):
                    d['c'] = 0
                r = d['i']
            elif o == 'lbuf':
                H = S.setdefault(i, [])         # the window after every step
                a0, a1 = n['sh']
                sh = n['en'] is None or must(vals[n['en']])
                rot = n['rst'] is not None and must(vals[n['rst']])
                if sh or rot:
                    old = H[-1] if H else [[None] * a1 for _ in range(a0)]
                    k = len(H) - n['D'] - 1
                    mem = H[k][0] if k >= 0 else [None] * a1
                    new = old[1:] + [mem if rot else mem[1:] + [vals[A[0]]]]
                    H.append(new)
                r = H[-1][n['idx'][0]][n['idx'][1]] if H else None
            elif o in ACC:
                d = S.setdefault(i, {'v': n['iv'], 'c': 0, 'p': True})
                rst = d['p'] or (n['rst'] is not None and must(vals[n['rst']]))
                cur = n['iv'] if rst else d['v']
                cc = 0 if rst else d['c']
                if rst and not (self.hold and n['rst'] is None):
                    d['v'] = n['iv']
                if self.tick(i, n, rst, vals):
                    y = x[0]
                    new = {'radd': lambda: cur + y, 'rsub': lambda: cur - y, 'rmax': lambda: max(cur, y), 'rmin': lambda: min(cur, y), 'rmul': lambda: cur * y, 'rdiv': lambda: quot(cur, y)}[o]() if None not in (cur, y) else None
                    d['v'] = None if new is None else sgn(new & W, n['w'])
                    d['p'] = False
                    if n['size'] is not None:
                        z = self.size_of(n, vals)
                        d['p'] = cc >= z - 1
                        d['c'] = 0 if d['p'] else cc + 1
                elif not (n['size'] is not None):
                    d['p'] = False
                elif rst and (self.i == 0 or n.get('intv')):
                    d['p'] = False
                    d['c'] = 0
                r = d['v']
            elif o == 'pulse':
                d = S.setdefault(i, {'v': 0, 'c': 0, 'p': True})
                rst = d['p'] or (n['rst'] is not None and must(vals[n['rst']]))
                cc = 0 if rst else d['c']
                if rst and not (self.hold and n['rst'] is None):
                    d['v'] = 0
                if self.tick(i, n, rst, vals):
                    z = self.size_of(n, vals)
                    d['v'] = int(cc >= z - 1)
                    d['p'] = bool(d['v'])
                    d['c'] = 0 if d['p'] else cc + 1
                elif rst and (self.i == 0 or n.get('intv')):
                    d['p'] = False
                    d['c'] = 0
                r = d['v']
            elif o in ('prev', 'ring', 'scratch'):
                h = S.setdefault(i, [])
                h.append(vals[A[0]])
                r = h[-1 - n['d']] if len(h) > n['d'] else None
            elif o == 'pred':
                if must(vals[A[1]]):
                    S[i] = vals[A[0]]
                r = S.get(i)
            elif o == 'subst':
                if n['c'] not in self.kids:
                    self.kids[n['c']] = [Eval(self.cfg, n['c'], {}), -1, None]
                k = self.kids[n['c']]
                if k[1] != self.i:
                    ch = self.cfg['streams'][n['c']]
                    sv, q = {}, 0
                    for m in ch['nodes']:
                        if m['o'] in ('src', 'par'):
                            v = x[q]
                            v = None if v is None else v & ((1 << m['w']) - 1)
                            (sv if m['o'] == 'src' else k[0].parv)[m['k']] = v
                            q += 1
                    k[2] = k[0].element(sv)
                    k[1] = self.i
                r = k[2][self.cfg['streams'][n['c']]['sinks'][n['out']]['n']]
            elif o == 'mux':
                c = vals[A[0]] if isinstance(A[0], int) else x[0]
                r = None if c is None else (x[1] if c else x[2])
            elif o in ('rram', 'wram', 'rmw', 'rfifo', 'wfifo'):
                w = n['when']
                go = w is None or must(vals[w])
                if o == 'rram':
                    r = self.io.rram(n, x[0]) if go else None
                elif o == 'rfifo':
                    r = self.io.rfifo(n) if go else None
                elif go and o == 'wram':
                    self.io.wram(n, x[0], x[1])
                elif go and o == 'rmw':
                    self.io.wram(n, x[0], rmw(n['op'], self.io.rram(n, x[0]), x[1]))
                elif go and o == 'wfifo':
                    self.io.wfifo(n, x[0])
                if o in ('wram', 'rmw', 'wfifo'):
                    r = 0
            elif o[0] == 'D':
                r = self.extra(i, n, x, vals)
            elif None in x:
                r = None
            elif o == 'add':
                r = x[0] + x[1]
            elif o == 'sub':
                r = x[0] - x[1]
            elif o == 'mul':
                r = x[0] * x[1]
            elif o == 'madd':
                r = x[0] * x[1] + x[2]
            elif o in ('div', 'mod', 'dmc'):
                if x[1] == 0 or (x[1] == -1 and x[0] == -(1 << (n['w'] - 1))) or self.divmin and max(abs(x[0]), abs(x[1])) >= 1 << (n['w'] - 1):
                    r = None
                else:
                    q = abs(x[0]) // abs(x[1])
                    q = -q if (x[0] < 0) != (x[1] < 0) else q
                    r = q if o != 'mod' else x[0] - q * x[1]
            elif o in ('lt', 'le', 'gt', 'ge', 'eq', 'ne'):
                r = int({'lt': x[0] < x[1], 'le': x[0] <= x[1], 'gt': x[0] > x[1], 'ge': x[0] >= x[1], 'eq': x[0] == x[1], 'ne': x[0] != x[1]}[o])
            elif o == 'and':
                r = x[0] & x[1]
            elif o == 'or':
                r = x[0] | x[1]
            elif o == 'xor':
                r = x[0] ^ x[1]
            elif o == 'xnor':
                r = ~(x[0] ^ x[1])
            elif o == 'land':
                r = int(bool(x[0]) and bool(x[1]))
            elif o == 'lor':
                r = int(bool(x[0]) or bool(x[1]))
            elif o == 'lnot':
                r = int(not x[0])
            elif o == 'not':
                r = ~x[0]
            elif o in ('neg', 'c2'):
                r = -x[0]
            elif o == 'pos':
                r = x[0]
            elif o == 'abs':
                r = abs(x[0])
            elif o == 'sll':
                r = x[0] << x[1]
            elif o == 'srl':
                r = vals[A[0]] >> x[1]
            elif o == 'sra':
                r = x[0] >> x[1]
            elif o in ('cast', 'rcast'):
                r = x[0]
            elif o == 'slice':
                r = vals[A[0]] >> n['lo']
            elif o == 'cat':
                r = vals[A[0]] << N[A[1]]['w'] | vals[A[1]]
            elif o in ('uand', 'unand'):
                r = int(vals[A[0]] == (1 << N[A[0]]['w']) - 1) ^ int(o == 'unand')
            elif o in ('uor', 'unor'):
                r = int(vals[A[0]] != 0) ^ int(o == 'unor')
            elif o in ('uxor', 'uxnor'):
                r = (bin(vals[A[0]]).count('1') & 1) ^ int(o == 'uxnor')
            elif o == 'addn':
                r = sum(x)
            elif o == 'tree':
                r = tree(x, [(N[a]['w'], N[a]['s']) for a in A])[0]
            elif o == 'max':
                r = max(x)
            elif o == 'min':
                r = min(x)
            elif o == 'lut':
                r = n['pat'][x[0]]
            else:
                raise core.HarnessError('eval %s' % o)
            vals[i] = None if r is None else r & W
        self.i += 1
        return vals


# --------------------------------------------------------------------------
# run templates
# --------------------------------------------------------------------------
# {'st': stream, 'runs': [{'src': [mode..], 'snk': [mode..], 'db', 'dc', 'dd'}], 'P': n, 'wait': ..}
# a run moves n = a * P elements

def srccall(st, T, R, k):
    s = R['src'][k]
    q = 'st%d' % st
    b = 'b + %d' % (R['db'] + s.get('off', 0))
    n = 'a * %d' % T['P'] if T['P'] > 1 else 'a'
    P = T['P']
    p = ', port=%d' % s['port'] if s.get('port') else ''
    m = s['m']
    if m == 'ram':
        return '%s.set_source("s%d", ram%d, %s, %s%s%s)' % (q, k, s['ram'], b, n, '' if s['st'] == 1 else ', ' + {0: 'e'}.get(s['st'], str(s['st'])), p)
    if m == 'pat':
        return '%s.set_source_pattern("s%d", ram%d, %s, (%s), %s)' % (q, k, s['ram'], b, ''.join('(%s, %s), ' % tuple(x) for x in s['pat']), p[2:]) if p else \
            '%s.set_source_pattern("s%d", ram%d, %s, (%s))' % (q, k, s['ram'], b, ''.join('(%s, %s), ' % tuple(x) for x in s['pat']))
    if m == 'dim':
        return '%s.set_source_multidim("s%d", ram%d, %s, (%s)%s%s)' % (q, k, s['ram'], b, ''.join('%s, ' % x for x in s['shape']),
                                                                      ', order=%r' % (tuple(s['order']),) if s['order'] else '', p)
    if m == 'mpat':
        return '%s.set_source_multipattern("s%d", ram%d, (%s), (%s)%s)' % (
            q, k, s['ram'], ''.join('%s + %d, ' % (b, o) for o in s['offs']), ''.join('(%s), ' % ''.join('(%s, %s), ' % tuple(x) for x in pt) for pt in s['pats']), p)
    if m == 'gen':
        return '%s.set_source_generator("s%d", ram%d, func=gen%d, initvals=(%s, 0), args=(%s, %s)%s)' % (q, k, s['ram'], s['g'], b, n, 'e', p)
    if m == 'fifo':
        return '%s.set_source_fifo("s%d", %s, %s)' % (q, k, s['fifo'], n)
    if m == 'empty':
        return '%s.set_source_empty("s%d", %d)' % (q, k, s['v'])
    raise core.HarnessError(m)


def snkcall(st, T, R, k):
    s = R['snk'][k]
    c = srccall(st, T, {'src': R['snk'], 'db': R['dc']}, k) if s['m'] not in ('imm', 'none') else None
    if c is not None:
        c = c.replace('set_source', 'set_sink').replace('"s%d"' % k, '"o%d"' % k)
        c = c.replace('b + %d' % (R['dc'] + s.get('off', 0)), 'c + %d' % (R['dc'] + s.get('off', 0)))
        if s.get('cond'):                         # see Model.one
            c = c[:c.rindex(',')] + ', b >> %d)' % AW
        return c
    if s['m'] == 'imm':
        return 'st%d.set_sink_immediate("o%d", %s)' % (st, k, 'a * %d' % T['P'] if T['P'] > 1 else 'a')
    return 'st%d.set_sink_empty("o%d")' % (st, k)


def run_lines(cfg, T, R):
    st = T['st']
    S = cfg['streams'][st]
    q = 'st%d' % st
    L = []
    for k in range(S['npar']):
        L.append('%s.set_parameter("p%d", d + %d)' % (q, k, R['dd'] + k) if not is_size(S, k) else '%s.set_parameter("p%d", e)' % (q, k))
    for k in range(len(R['src'])):
        L.append(srccall(st, T, R, k))
    for k in range(len(R['snk'])):
        L.append(snkcall(st, T, R, k))
    for x in S.get('xs', ()):
        if x['k'] == 'rmw':
            L.append('%s.set_read_modify_write_RAM("x%d", ram%d, read_ports=(0,), write_port=1)' % (q, x['x'], x['ram']))
        elif x['k'] in ('rram', 'wram'):
            L.append('%s.set_%s_RAM("x%d", ram%d%s)' % (q, 'read' if x['k'] == 'rram' else 'write', x['x'], x['ram'], ', port=%d' % x['port'] if x['port'] else ''))
        else:
            L.append('%s.set_%s_fifo("x%d", %s)' % (q, 'read' if x['k'] == 'rfifo' else 'write', x['x'], x['fifo']))
    return L


def is_size(S, k):
    return any(n['o'] == 'par' and n['k'] == k and n.get('sz') for n in S['nodes'])


def reads(cfg, T, R):
    """values read right after the join: (expression, description)"""
    out = []
    for k, s in enumerate(R['snk']):
        if s['m'] == 'imm':
            out.append('st%d.read_sink("o%d")' % (T['st'], k))
        elif s['m'] == 'ram' and T.get('chk'):
            n = 'a * %d' % T['P'] if T['P'] > 1 else 'a'
            out.append('ram%d.read(c + %d + (%s - 1) * %s)' % (s['ram'], R['dc'] + s['off'], n, 'e' if s['st'] == 0 else s['st']))
    return out


def stmt(cfg, i, T):
    L = []
    if T.get('pair'):
        A, B = (cfg['tmpl'][x] for x in T['pair'])
        L += run_lines(cfg, A, A['runs'][0]) + run_lines(cfg, B, B['runs'][0])
        o = [A, B] if not T['swap'] else [B, A]
        L += ['st%d.run()' % x['st'] for x in o] + ['st%d.join()' % x['st'] for x in (o if not T['swapj'] else o[::-1])]
        return L + opthread.ret(0, '1')
    q = 'st%d' % T['st']
    for j, R in enumerate(T['runs']):
        L += run_lines(cfg, T, R)
        if j == 0:
            L.append('%s.run()' % q)
        else:
            L.append('%s.source_join_and_run()' % q)
    w = T['wait']
    if w == 'sjoin':
        L.append('%s.source_join()' % q)
    if w == 'poll':
        L += ['while not %s.done():' % q, '    pass']
    else:
        L.append('%s.join()' % q)
    if w == 'twice':
        L.append('%s.join()' % q)
    rd = reads(cfg, T, T['runs'][-1])
    for x in rd:
        L += opthread.ret(0, x)
    if not rd:
        L += opthread.ret(0, '1')
    return L


def extfifos(cfg):
    return [f for f in cfg['fifos'] if f['d'] in 'io']


def build(cfg):
    D = cfg['D']
    L = [genmod.HEADER, 'from veriloggen.thread import stream as thstream', 'thutil = thstream.util',
         'def mk():', '    m = Module("dut")', '    clk = m.Input("CLK")', '    rst = m.Input("RST")']
    a = L.append
    a('    go = m.Input("go")')
    a('    la, ld, ln = m.Input("la", %d), None, m.Input("ln")' % AW)
    for j in range(cfg['rams']):
        a('    ld%d, lw%d, lq%d = m.Input("ld%d", %d), m.Input("lw%d"), m.Output("lq%d", %d)' % (j, j, j, j, D, j, j, D))
        a('    ram%d = vthread.RAM(m, "ram%d", clk, rst, %d, %d, numports=3)' % (j, j, D, AW))
        a('    ram%d.connect_rtl(2, la, ld%d, lw%d, lq%d, ln)' % (j, j, j, j))
    for f in cfg['fifos']:
        a('    %s = vthread.FIFO(m, "%s", clk, rst, %d, %d%s)' % (f['n'], f['n'], f.get('w', D), f['aw'], {'i': ', external_write=True', 'o': ', external_read=True', 'x': ''}[f['d']]))
    for g in range(cfg.get('ngen', 0)):
        a('    def gen%d(addr, i, size, step):' % g)
        a('        return i == size - 1, addr + %s, i + 1' % ('step' if g == 0 else 'Mux(i[0], step, 1)'))
    for si, st in enumerate(cfg['streams']):
        a('    st%d = vthread.Stream(m, "strm%d", clk, rst, datawidth=%d%s%s%s)' % (si, si, D, ', infinite=True' if st.get('inf') else '', ', fsm_as_module=True' if st.get('fam') else '',
            ', dump=True, dump_base=%d' % st['dump'] if st.get('dump') else ''))
        L += ['    ' + x for x in emit(cfg, si)]
        if st.get('stall') is not None:
            a('    stall%d = m.Input("stall%d")' % (si, si))
            a('    thutil.add_disable_cond(st%d.oready, 1, stall%d)' % (si, si))
    L += ['    ' + x for x in opthread.decl(0, 64)]
    st = [(1 + i, stmt(cfg, i, T)) for i, T in enumerate(cfg['tmpl']) if not T.get('sub')]
    L += ['    ' + x for x in opthread.worker(0, st, prog=cfg.get('prog'))]
    L += ['    ' + x for x in opthread.start(0, cfg, ', datawidth=%d' % max(32, D) if D > 32 else '')]
    a('    return m')
    return genmod.load('\n'.join(x for x in L if x)).mk().to_verilog()


def tb(cfg):
    D = cfg['D']
    decl, B, conn = [], [], ['.CLK(CLK)', '.RST(RST)', '.go(go)', '.la(la)', '.ln(ln)']
    nr = cfg['rams']
    decl.append('integer lc; initial lc=0; integer dc; initial dc=0; reg [31:0] dp; initial dp=0; wire go = !RST && lc >= %d; wire dump = dc > 0 && dc <= %d;' % (DEPTH + 2, DEPTH))
    decl.append('wire [%d:0] la = (lc < %d) ? lc : dc - 1; wire ln = !RST && (lc < %d || dump);' % (AW - 1, DEPTH, DEPTH))
    B.append('always @(posedge CLK) if(RST) begin lc <= 0; dc <= 0; end else begin if(lc < %d) lc <= lc + 1; if(done0 === 1 && fdone && dc <= %d) dc <= dc + 1; end' % (DEPTH + 2, DEPTH + 2))
    B.append('reg dq; initial dq = 0; always @(posedge CLK) begin dq <= dump && !RST; dp <= dc - 1; end')
    for j in range(nr):
        decl.append('reg [%d:0] m%d [0:%d]; initial $readmemh("ram%d.hex", m%d); wire [%d:0] lq%d;' % (D - 1, j, DEPTH - 1, j, j, D - 1, j))
        conn += ['.ld%d(m%d[la])' % (j, j), '.lw%d(!RST && lc < %d)' % (j, DEPTH), '.lq%d(lq%d)' % (j, j)]
        B.append('always @(posedge CLK) if(dq) $display("M %d %%0d %%0h", dp, lq%d);' % (j, j))
    fd = ['1']
    for i, f in enumerate(extfifos(cfg)):
        n, w = f['n'], f.get('w', D)
        if f['d'] == 'i':
            decl.append('wire full_%s, afull_%s; reg [%d:0] dat_%s [0:1023]; initial $readmemh("%s.hex", dat_%s); integer pn_%s; initial pn_%s = 0; wire enq_%s = go && !st[%d] && pn_%s < prm[%d] && full_%s === 1\'b0;' % (
                n, n, w - 1, n, n, n, n, n, n, f['bit'], n, 8 + i, n))
            conn += ['.%s_enq(enq_%s)' % (n, n), '.%s_wdata(enq_%s ? dat_%s[pn_%s] : {%d{1\'bx}})' % (n, n, n, n, w), '.%s_full(full_%s)' % (n, n), '.%s_almost_full(afull_%s)' % (n, n)]
            B.append('always @(posedge CLK) if(RST) pn_%s <= 0; else if(enq_%s) begin pn_%s <= pn_%s + 1; $display("I %s %%0d", cyc); end' % (n, n, n, n, n))
        else:
            decl.append('wire empty_%s, aempty_%s; wire [%d:0] q_%s; reg d1_%s; initial d1_%s = 0; wire deq_%s = go && !st[%d] && empty_%s === 1\'b0; integer ei_%s; initial ei_%s = 0;' % (
                n, n, w - 1, n, n, n, n, f['bit'], n, n, n))
            conn += ['.%s_deq(deq_%s)' % (n, n), '.%s_rdata(q_%s)' % (n, n), '.%s_empty(empty_%s)' % (n, n), '.%s_almost_empty(aempty_%s)' % (n, n)]
            B.append('always @(posedge CLK) if(RST) begin d1_%s <= 0; ei_%s <= 0; end else begin d1_%s <= deq_%s; if(d1_%s) $display("G %s %%0d %%0h", cyc, q_%s); ei_%s <= (empty_%s === 1\'b1 && !d1_%s) ? ei_%s + 1 : 0; end' % (
                (n,) * 5 + (n, n, n, n, n, n)))
            fd.append('ei_%s > 8' % n)
    decl.append('wire fdone = %s;' % ' && '.join(fd))
    d, b, c = opthread.tb(0, 64)
    decl.append(d)
    B.append(b)
    conn += c
    for si, s in enumerate(cfg['streams']):
        if s.get('stall') is not None:
            conn.append('.stall%d(!st[%d])' % (si, s['stall']))
    d, b = opthread.finish(1, 'dc > %d' % (DEPTH + 2), 4)
    decl.append(d)
    B.append(b)
    B.append('dut uut(%s);' % ', '.join(conn))
    return bfm.skeleton('\n'.join(B), '\n'.join(decl), schlen=SCH)


def word(salt, j, i, D):
    r = bfm.dgen((salt * 2654435761 + j * 977) & 0xffffffff, i, 64)
    k = r >> 60
    x = r & ((1 << D) - 1)
    if k < 6:
        x = (r >> 8) & 15                         # small numbers are frequent
    elif k < 8:
        x = -((r >> 8) & 15)
    return x & ((1 << D) - 1)


def files(cfg, run, rd):
    ev = [{'bit': 31, 'at': 0, 'n': 4}] + [dict(e, at=e['at'] + R0) for e in run['sched']]
    core.write_hex(rd + '/sched.hex', core.expand_schedule(ev, SCH))
    p = [0] * 64
    p[0] = run['maxcyc']
    for i, f in enumerate(extfifos(cfg)):
        p[8 + i] = run['fn'].get(f['n'], 0)
        if f['d'] == 'i':
            core.write_hex('%s/%s.hex' % (rd, f['n']), [word(run['salt'], 50 + i, x, f.get('w', cfg['D'])) for x in range(1024)], 64)
    core.write_hex(rd + '/p.hex', p)
    for j in range(cfg['rams']):
        core.write_hex('%s/ram%d.hex' % (rd, j), [word(run['salt'], j, x, cfg['D']) for x in range(DEPTH)], 64)
    opthread.write_ops(rd, run, 1)


# --------------------------------------------------------------------------
# generation
# --------------------------------------------------------------------------

def gen_stream(rng, D, children, feats, nsrc, npar, size, style):
    g = Gen(rng, D, children=children, sources=nsrc, params=npar, unsigned=0.2, feats=feats)
    for _ in range(size):
        g.step()
    N = g.N
    used = {a for n in N for a in n['a'] if isinstance(a, int)}
    tops = [i for i in range(len(N)) if i not in used and N[i]['o'] not in ('pulse', 'par') + (('src',) if style.get('child') else ())]
    if style.get('child'):      # these return their only operand
        tops = [i for i in tops if not (N[i]['o'] in ('tree', 'addn', 'max', 'min') and len(N[i]['a']) == 1)]
    rng.shuffle(tops)
    if not tops and style.get('child'):
        tops = [g.add({'o': 'add', 'a': [0, ['c', 1]], 'w': D, 's': N[0]['s']})]
    k = rng.choice([1, 1, 2, 2, 3])
    tops = tops[:k] or [rng.choice(g.word)]
    sinks = []
    for t in tops:
        w = g.boolean() if rng.random() < style.get('p_when', 0.25) else None
        if N[t]['s'] and N[t]['w'] < D and not style.get('child'):      # how a narrow signed value fills a wide word is not specified
            r = t in g.rest
            t = g.add({'o': 'cast', 'a': [t], 'w': D, 's': 1})
        sinks.append({'n': t, 'when': w})
    # a value may be sunk only once directly; a second sink makes an implicit alias
    if rng.random() < 0.1 and not style.get('child'):
        sinks.append({'n': sinks[0]['n'], 'when': None})
    st = {'nodes': N, 'sinks': sinks, 'npar': g.npar, 'nsrc': nsrc, 'term': None}
    return st, g


def refs(n):
    r = list(n['a']) + [n.get(k) for k in ('size', 'en', 'rst', 'when', 'ivn')]
    return [x for x in r if isinstance(x, int)]


def trim(st):
    """drop nodes nothing observes"""
    N = st['nodes']
    live = [i for i, n in enumerate(N) if n['o'] in ('src', 'par', 'wram', 'rmw', 'wfifo')]
    for s in st['sinks']:
        live += [s['n']] + ([s['when']] if s['when'] is not None else [])
    if st.get('term') is not None:
        live.append(st['term'])
    seen = set()
    while live:
        i = live.pop()
        if i in seen:
            continue
        seen.add(i)
        live += refs(N[i])
        if N[i]['o'] in ACC and N[i]['size'] is not None:
            live.append(i + 1)
        if N[i]['o'] == 'pulse':
            live.append(i - 1)
    mp = {}
    out = []
    for i, n in enumerate(N):
        if i in seen:
            mp[i] = len(out)
            out.append(dict(n))
    f = lambda x: mp[x] if isinstance(x, int) else x
    for n in out:
        n['a'] = [f(x) for x in n['a']]
        for k in ('size', 'en', 'rst', 'when', 'pair', 'ivn'):
            if k in n and isinstance(n[k], int):
                n[k] = mp[n[k]]
        if n['o'] == 'counter' and 'size' not in n:
            pass
    st['nodes'] = out
    for s in st['sinks']:
        s['n'] = mp[s['n']]
        if s['when'] is not None:
            s['when'] = mp[s['when']]
    if st.get('term') is not None:
        st['term'] = mp[st['term']]
    if 'xs' in st:
        used = {n['x'] for n in out if 'x' in n}
        st['xs'] = [x for x in st['xs'] if x['x'] in used]
    return st


def gen_cfg(rng, i=0, style={}):
    mode = style.get('mode', 'calc')
    D = rng.choice([32, 32, 32, 32, 16, 8, 64])
    feats = [f for f in ('buf', 'multi') if rng.random() < (0.6 if f == 'buf' else 0.3)]
    streams = []
    nch = 0
    if mode == 'calc' and rng.random() < 0.4:
        nch = rng.choice([1, 1, 2])
        for c in range(nch):
            s, g = gen_stream(rng, D, streams if rng.random() < 0.5 else (), [f for f in feats if f == 'buf'], rng.choice([1, 2]), rng.choice([0, 1]), rng.randint(1, 5), dict(style, p_when=0, child=1))
            streams.append(s)
    main = []
    nmain = {'calc': 1, 'ctl': 1, 'fifo': rng.choice([1, 1, 2])}[mode]
    for _ in range(nmain):
        s, g = gen_stream(rng, D, streams[:nch], feats if mode == 'calc' else feats[:1], rng.choice([1, 2, 2, 3]), rng.choice([0, 1, 1, 2]),
                          rng.randint(2, 16) if mode == 'calc' else rng.randint(1, 6), style)
        if rng.random() < 0.7:
            s['stall'] = 0
        if rng.random() < 0.1:
            s['fam'] = 1
        if rng.random() < 0.06:
            s['dump'] = rng.choice([2, 8, 10, 16])      # a trace on the console, no effect on the results
        s['g'] = g
        main.append(len(streams))
        streams.append(s)
    cfg = {'D': D, 'streams': streams, 'rams': 0, 'fifos': [], 'tmpl': [], 'ngen': 2, 'mode': mode}
    bit = [0]

    def nbit():
        bit[0] += 1
        return bit[0] - 1

    for s in streams:
        if s.get('stall') is not None:
            s['stall'] = nbit()

    def fifo(d):
        n = 'f%d' % len(cfg['fifos'])
        f = {'n': n, 'd': d, 'aw': rng.choice([2, 2, 3, 4])}
        if d != 'x':
            f['bit'] = nbit()
        cfg['fifos'].append(f)
        return n

    def ram():
        cfg['rams'] += 1
        return cfg['rams'] - 1

    # in-stream memory / FIFO nodes
    for si in main:
        s = streams[si]
        g = s.pop('g')
        s['xs'] = []
        if rng.random() < style.get('p_x', 0.35 if mode != 'calc' else 0.15):
            for _ in range(rng.choice([1, 1, 2])):
                x = len(s['xs'])
                kind = rng.choice(['rram', 'rram', 'wram', 'rmw'] if mode != 'fifo' else ['rfifo', 'wfifo', 'rfifo', 'rram', 'wram'])
                when = g.boolean() if rng.random() < 0.4 else None
                if kind == 'rram':
                    ad = g.addr()
                    n = g.add({'o': 'rram', 'a': [ad], 'x': x, 'when': when, 'w': D, 's': rng.randint(0, 1)})
                    if when is not None:
                        g.rest.add(n)
                        nd = g.add({'o': 'mux', 'a': [when, n, ['c', 0]] if g.N[n]['s'] else [when, n, n], 'w': D, 's': g.N[n]['s']})
                        if g.N[n]['s']:
                            g.rest.discard(nd)
                        n = nd
                    s['xs'].append({'k': kind, 'x': x, 'ram': ram(), 'port': rng.choice([0, 1])})
                    s['sinks'][rng.randrange(len(s['sinks']))]['n'] = n
                elif kind in ('wram', 'rmw'):
                    ad = g.addr()
                    v = g.pick(True, w=D)
                    if v is None:
                        continue
                    nd = {'o': kind, 'a': [ad, v], 'x': x, 'when': when, 'w': D, 's': 1}
                    if kind == 'rmw':
                        nd['op'] = rng.choice(['Add', 'Xor'])
                        if any(y['k'] == 'rmw' for y in s['xs']):
                            continue
                    g.add(nd)
                    s['xs'].append({'k': kind, 'x': x, 'ram': ram(), 'port': rng.choice([0, 1])})
                elif kind == 'rfifo':
                    n = g.add({'o': 'rfifo', 'a': [], 'x': x, 'when': when, 'w': D, 's': rng.randint(0, 1)})
                    if when is not None:
                        g.rest.add(n)
                        if not g.N[n]['s']:
                            g.N[n]['s'] = 1
                        nd = g.add({'o': 'mux', 'a': [when, n, ['c', 0]], 'w': D, 's': 1})
                        g.rest.discard(nd)
                        n = nd
                    s['xs'].append({'k': kind, 'x': x, 'fifo': fifo('i')})
                    s['sinks'][rng.randrange(len(s['sinks']))]['n'] = n
                else:
                    v = g.pick(True, w=D)
                    if v is None:
                        continue
                    g.add({'o': 'wfifo', 'a': [v], 'x': x, 'when': when, 'w': D, 's': 1})
                    s['xs'].append({'k': kind, 'x': x, 'fifo': fifo('o')})
    if mode == 'ctl' and rng.random() < 0.25:
        s = streams[main[0]]
        if not s['xs']:
            n = {'o': 'eq', 'a': [len(s['nodes']), ['c', 0]], 'w': 1, 's': 0}
            s['nodes'].append({'o': 'counter', 'a': [], 'w': 32, 's': 0})
            n['a'][1] = ['c', rng.randint(0, 8)]
            n['o'] = rng.choice(['eq', 'ge'])
            if rng.random() < 0.4:
                n = {'o': rng.choice(['lt', 'gt']), 'a': [0, ['c', rng.choice([0, 3, 8])]], 'w': 1, 's': 0}
            s['nodes'].append(n)
            s['term'] = len(s['nodes']) - 1
            if n['a'][0] != 0 and rng.random() < 0.5:
                s['inf'] = 1
    # templates
    pool = [ram() for _ in range(rng.choice([2, 3, 4]))]
    srcfifo, snkfifo = {}, {}
    todo = [(si,) for si in main for _ in range(rng.choice([1, 2]) if mode != 'ctl' else 1)]
    if mode == 'ctl':
        todo = [(main[0],)] * rng.choice([1, 2, 3])
    if mode == 'calc' and nch and rng.random() < 0.3:
        todo.append((0,))
    # kinds that each variable may take in this design (the first kind synthesised decides)
    kinds = {}
    for (si,) in todo:
        s = streams[si]
        nr = rng.choice([1, 1, 2, 3]) if mode == 'ctl' and s['term'] is None else 1
        T = {'st': si, 'P': rng.choice([1, 1, 2, 3, 4]) if mode == 'ctl' else 1, 'runs': [],
             'wait': rng.choice(['join', 'join', 'sjoin', 'poll', 'twice']), 'chk': rng.random() < 0.6}
        for j in range(nr):
            free = [(r, p) for r in pool for p in (0, 1)]
            rng.shuffle(free)
            R = {'src': [], 'snk': [], 'db': 0 if j == 0 else rng.choice([0, 3, 20]), 'dc': 0 if j == 0 else rng.choice([0, 1, 9, 33]), 'dd': 0 if j == 0 else rng.choice([0, 5])}
            for k in range(s['nsrc']):
                m = kinds.get((si, 's', k))
                if m is None:
                    m = rng.choice(['ram', 'ram', 'ram', 'fifo']) if mode == 'calc' and rng.random() < 0.1 else 'ram' if mode == 'calc' else \
                        rng.choice(['fifo', 'fifo', 'fifo', 'ram']) if mode == 'fifo' else 'ram'
                    if s['term'] is not None:
                        m = 'ram'
                    kinds[si, 's', k] = m
                if m == 'ram' and mode == 'ctl':
                    m = rng.choice(style.get('kinds', ['ram', 'ram', 'pat', 'dim', 'mpat', 'gen']))
                    if rng.random() < 0.1 and k > 0:
                        m = 'empty'
                R['src'].append(mk_mode(rng, cfg, T, m, free, lambda: srcfifo.setdefault((si, k), fifo('i') if (si, k) not in srcfifo else None), False, style))
            for k, o in enumerate(s['sinks']):
                m = kinds.get((si, 'o', k))
                if m is None:
                    m = rng.choice(['fifo', 'fifo', 'ram']) if mode == 'fifo' else 'ram'
                    if mode == 'ctl' and rng.random() < 0.2:
                        m = 'imm'
                    kinds[si, 'o', k] = m
                if m == 'ram' and mode == 'ctl' and o['when'] is None and s['term'] is None:
                    m = rng.choice(style.get('kinds', ['ram', 'ram', 'pat', 'dim', 'mpat', 'gen']))
                    if rng.random() < 0.08:
                        m = 'none'
                if m == 'fifo' and o['when'] is not None:
                    if any(x.get('cond') for x in R['snk']):
                        o['when'] = None
                R['snk'].append(mk_mode(rng, cfg, T, m, free, lambda: snkfifo.setdefault((si, k), fifo('o') if (si, k) not in snkfifo else None), True, style))
                if m == 'fifo' and o['when'] is not None:
                    R['snk'][-1]['cond'] = 1
            if j > 0:        # a queued run keeps the memories of the one in progress
                for z in ('src', 'snk'):
                    for k, s0 in enumerate(T['runs'][0][z]):
                        n1 = dict(s0)
                        if n1['m'] == 'ram':
                            n1['st'] = R[z][k].get('st', n1['st'])
                        if 'off' in n1 and z == 'src':
                            n1['off'] = rng.choice([0, 0, 1, 7])
                        R[z][k] = n1
            T['runs'].append(R)
        cfg['tmpl'].append(T)
    # two streams linked by an internal FIFO
    if mode == 'fifo' and nmain == 2 and rng.random() < 0.6:
        A, B = main
        if kinds.get((A, 'o', 0)) == 'fifo' and kinds.get((B, 's', 0)) == 'fifo' and streams[A]['sinks'][0]['when'] is None:
            ta = next(x for x in range(len(cfg['tmpl'])) if cfg['tmpl'][x]['st'] == A)
            tb_ = next(x for x in range(len(cfg['tmpl'])) if cfg['tmpl'][x]['st'] == B)
            f = fifo('x')
            TA, TB = cfg['tmpl'][ta], cfg['tmpl'][tb_]
            used = {(x['ram'], x['port']) for x in TA['runs'][0]['src'] + TA['runs'][0]['snk'] if 'ram' in x}
            if used & {(x['ram'], x['port']) for x in TB['runs'][0]['src'] + TB['runs'][0]['snk'] if 'ram' in x} or \
                    {x['ram'] for x in TA['runs'][0]['src'] + TB['runs'][0]['src'] if 'ram' in x} & {x['ram'] for x in TA['runs'][0]['snk'] + TB['runs'][0]['snk'] if 'ram' in x}:
                cfg['fifos'].pop()
            else:
                import copy
                TA, TB = copy.deepcopy(TA), copy.deepcopy(TB)
                TA['sub'] = TB['sub'] = 1
                TA['runs'][0]['snk'][0]['fifo'] = f
                TB['runs'][0]['src'][0]['fifo'] = f
                cfg['tmpl'] += [TA, TB]
                n = len(cfg['tmpl'])
                cfg['tmpl'].append({'pair': [n - 2, n - 1], 'swap': int(rng.random() < 0.5), 'swapj': int(rng.random() < 0.5)})
    for s in streams:
        s.pop('g', None)
        trim(s)
    # FIFOs nobody uses any more cannot be synthesised meaningfully
    used = {x['fifo'] for T in cfg['tmpl'] if not T.get('pair') for R in T['runs'] for x in R['src'] + R['snk'] if 'fifo' in x} | \
           {x['fifo'] for s in streams for x in s.get('xs', ()) if 'fifo' in x}
    cfg['fifos'] = [f for f in cfg['fifos'] if f['n'] in used]
    if 'lin' in style:
        cfg['linear'] = 1
    return cfg


def mk_mode(rng, cfg, T, m, free, getf, sink, style):
    P = T['P']
    if m == 'fifo':
        return {'m': 'fifo', 'fifo': getf()}
    if m == 'imm' or m == 'none':
        return {'m': m}
    if m == 'empty':
        return {'m': 'empty', 'v': rng.choice([0, 5, 17])}
    if not free:
        return {'m': 'none'} if sink else {'m': 'empty', 'v': 3}
    r, p = free.pop()
    # sinks live in the upper half of a RAM, sources in the lower half
    s = {'m': m, 'ram': r, 'port': p, 'off': rng.choice([0, 0, 1, 7]) + (0 if not sink else 64 + 32 * p)}
    sp = lambda n: rng.choice([n, n, 1, 2])
    if m == 'ram':
        s['st'] = rng.choice([1, 1, 1, 0, 2]) if not sink else rng.choice([1, 1, 0])
    elif m == 'pat':
        s['pat'] = rng.choice([[['a', 1], [P, 'a']], [[P, 1], ['a', P]], [['a', 'e'], [P, 1]], [[P, 1], ['a', 'e']], [['a', 1], [P, 0]] if not sink else [['a', 1], [P, 'a']]])
        if P == 4 and rng.random() < 0.5:
            s['pat'] = [[2, 1], ['a', 4], [2, 2]]
        if P == 1:
            s['pat'] = [['a', 'e']]
        s['pat'] = [tuple(x) for x in s['pat']]
    elif m == 'dim':
        s['shape'] = rng.choice([[P, 'a'], ['a', P], ['a', P, 1]]) if P != 4 else rng.choice([[2, 'a', 2], ['a', 2, 2], [4, 'a']])
        n = len(s['shape'])
        s['order'] = None if rng.random() < 0.5 else rng.sample(range(n), n)
    elif m == 'mpat':
        if P == 1:
            s['offs'], s['pats'] = [0], [[('a', 1)]]
        else:
            s['offs'] = [0, rng.choice([0, 5, 16])]
            s['pats'] = [[('a', 1)], rng.choice([[('a', 1), (P - 1, 'a')], [(P - 1, 1), ('a', 'e')]])]
            if rng.random() < 0.5:
                s['pats'].reverse()
    elif m == 'gen':
        s['g'] = rng.choice([0, 1]) if not sink else 0
    return s


CH = [('fifo_gap', 1)]


def gen_run(cfg, rng, style):
    ops = []
    nt = [i for i, T in enumerate(cfg['tmpl']) if not T.get('sub')]
    nops = rng.choice([1, 2, 3, 5]) if cfg['mode'] != 'calc' else rng.choice([1, 1, 2])
    for _ in range(nops):
        i = rng.choice(nt)
        T = cfg['tmpl'][i]
        P = 1 if T.get('pair') else T['P']
        a = rng.choice([1, 1, 2, 3, rng.randint(1, 24 // P), rng.randint(1, 24 // P)])
        e = rng.choice([1, 1, 1, 2, 3])
        if a * P * e > 26:
            e = 1
        ops.append({'k': 1 + i, 'a': a, 'b': rng.randint(0, 8), 'c': rng.randint(0, 4), 'd': rng.choice([0, 1, 7, 100, 255, 60000]), 'e': e, 'th': 0})
    chans = []
    for si, s in enumerate(cfg['streams']):
        if s.get('stall') is not None:
            chans.append(('stream_stall', s['stall']))
    for f in extfifos(cfg):
        chans.append(('fifo_gap' if f['d'] == 'i' else 'fifo_backpressure', f['bit']))
    sched = [] if rng.random() < 0.08 or not chans else core.gen_stalls(rng, chans, rng.choice([60, 200, 500]))
    if style.get('reset'):
        for _ in range(rng.choice([1, 1, 2])):
            sched.append({'k': 'reset', 'bit': 31, 'at': rng.randrange(0, rng.choice([30, 90, 300])), 'n': rng.choice([1, 1, 2, 5])})
    run = {'ops': ops, 'sched': sched, 'salt': rng.getrandbits(16), 'fn': {}, 'maxcyc': SCH + (20000 if any(n['o'] in ('rdiv', 'dmc') for st in cfg['streams'] for n in st['nodes']) else 3000)}
    return normalise(cfg, run)


def normalise(cfg, run):
    """the TB feeds every input FIFO exactly what the program needs plus a rest"""
    M = Model(cfg, run)
    ops = []
    for o in run['ops']:
        for retry in (0, 1):
            B = copy.deepcopy(M)
            M.matches = 0
            try:
                M.op(o)
                ops.append(o)
                break
            except Undef:
                o = dict(o, b=o['b'] & (DEPTH - 1) | M.matches << AW)
                M = B
    run = dict(run, ops=ops)
    run['fn'] = {f['n']: M.fpos.get(f['n'], 0) + (run['salt'] + i) % 3 for i, f in enumerate(cfg['fifos']) if f['d'] == 'i'}
    return run


# --------------------------------------------------------------------------
# reference model
# --------------------------------------------------------------------------

class Model:
    def __init__(self, cfg, run):
        self.cfg, self.run = cfg, run
        self.D = cfg['D']
        self.mem = [[word(run['salt'], j, x, self.D) for x in range(DEPTH)] for j in range(cfg['rams'])]
        self.fpos = {}
        self.out = {f['n']: [] for f in cfg['fifos'] if f['d'] == 'o'}
        self.link = {f['n']: [] for f in cfg['fifos'] if f['d'] == 'x'}
        self.ext = {f['n']: i for i, f in enumerate(extfifos(cfg))}
        self.exp = []        # (op index, value or None, mask)
        self.elements = 0
        self.matches = 0

    def pop(self, n):
        if n in self.link:
            return self.link[n].pop(0) if self.link[n] else None
        k = self.fpos.get(n, 0)
        self.fpos[n] = k + 1
        return word(self.run['salt'], 50 + self.ext[n], k, self.D)

    def push(self, n, v):
        (self.out if n in self.out else self.link)[n].append(v)

    # in-stream accesses
    def rram(self, n, a):
        x = self.xs[n['x']]
        return self.mem[x['ram']][a % DEPTH] if a is not None else None

    def wram(self, n, a, v):
        x = self.xs[n['x']]
        must(a)
        self.mem[x['ram']][a % DEPTH] = None if v is None else v & ((1 << self.D) - 1)

    def rfifo(self, n):
        return self.pop(self.xs[n['x']]['fifo'])

    def wfifo(self, n, v):
        self.push(self.xs[n['x']]['fifo'], None if v is None else v & ((1 << self.D) - 1))

    def addrs(self, s, o, base, n, P):
        env = {'a': o['a'], 'e': o['e']}
        z = lambda x: env[x] if isinstance(x, str) else x
        m = s['m']
        b = base + s['off']
        if m == 'ram':
            st = o['e'] if s['st'] == 0 else s['st']
            return [b + i * st for i in range(n)]
        if m == 'gen':
            out, a = [], b
            for i in range(n):
                out.append(a)
                a += o['e'] if s['g'] == 0 or i & 1 else 1
            return out

        def pat(b, pt):
            idx = [0] * len(pt)
            out = []
            while True:
                out.append(b + sum(i * z(x[1]) for i, x in zip(idx, pt)))
                for k in range(len(pt)):
                    idx[k] += 1
                    if idx[k] < z(pt[k][0]):
                        break
                    idx[k] = 0
                else:
                    return out
        if m == 'pat':
            return pat(b, s['pat'])
        if m == 'dim':
            sh = [z(x) for x in s['shape']]
            order = s['order'] if s['order'] else list(range(len(sh)))[::-1]
            pt = []
            for p in order:
                st = 1
                for x in sh[p + 1:]:
                    st *= x
                pt.append((sh[p], st))
            return pat(b, pt)
        if m == 'mpat':
            return [x for off, pt in zip(s['offs'], s['pats']) for x in pat(b + off, pt)]
        raise core.HarnessError(m)

    def one(self, T, R, o, last):
        cfg = self.cfg
        st = cfg['streams'][T['st']]
        self.xs = {x['x']: x for x in st.get('xs', ())}
        D = self.D
        n = o['a'] * T['P']
        srcs = []
        for k, s in enumerate(R['src']):
            if s['m'] == 'fifo':
                srcs.append(('f', s['fifo']))
            elif s['m'] == 'empty':
                srcs.append(('c', s['v'] & ((1 << D) - 1)))
            else:
                srcs.append(('a', [self.mem[s['ram']][x % DEPTH] for x in self.addrs(s, o, o['b'] + R['db'], n, T['P'])]))
        par = {}
        for k in range(st['npar']):
            par[k] = (o['e'] if is_size(st, k) else o['d'] + R['dd'] + k) & ((1 << D) - 1)
        E = Eval(cfg, T['st'], par, self)
        res = [[] for _ in st['sinks']]
        for i in range(10 * n if st.get('inf') else n):
            sv = []
            for k, (t, x) in enumerate(srcs):
                sv.append(self.pop(x) if t == 'f' else x if t == 'c' else x[i] if i < len(x) else None)
            vals = E.element(sv)
            self.elements += 1
            for k, s in enumerate(st['sinks']):
                if s['when'] is None or must(vals[s['when']]):
                    v = vals[s['n']]
                    res[k].append(None if v is None else sx(v, st['nodes'][s['n']], D))
            if st['term'] is not None and must(vals[st['term']]):
                break
        imm = {}
        for k, s in enumerate(R['snk']):
            vs = res[k][:n]
            if s['m'] == 'fifo':
                if s.get('cond'):
                    # the program states how many elements the sink takes; more than
                    # there are is the known finding strm_fifo_when
                    z = o['b'] >> AW
                    self.matches = len(res[k])
                    if s['cond'] != 2 and not 0 < z <= len(res[k]):
                        raise Undef()
                    vs = res[k][:z]
                for v in vs:
                    self.push(s['fifo'], v)
            elif s['m'] == 'imm':
                imm[k] = vs[-1] if vs else None
            elif s['m'] != 'none':
                for v, a in zip(vs, self.addrs(s, o, o['c'] + R['dc'], n, T['P'])):
                    self.mem[s['ram']][a % DEPTH] = v
        return imm

    def op(self, o, i=None):
        T = self.cfg['tmpl'][o['k'] - 1]
        if T.get('pair'):
            for x in T['pair']:
                U = self.cfg['tmpl'][x]
                self.one(U, U['runs'][0], o, True)
            self.exp.append((i, 1, (1 << 32) - 1, 'done'))
            return
        for R in T['runs']:
            imm = self.one(T, R, o, R is T['runs'][-1])
        R = T['runs'][-1]
        some = False
        st = self.cfg['streams'][T['st']]
        n = o['a'] * T['P']
        for k, s in enumerate(R['snk']):
            if s['m'] == 'imm':
                v = imm[k]
                w = min(st['nodes'][st['sinks'][k]['n']]['w'], 32)
                self.exp.append((i, v, (1 << min(w, self.D)) - 1, 'read_sink'))
                some = True
            elif s['m'] == 'ram' and T.get('chk'):
                a = o['c'] + R['dc'] + s['off'] + (n - 1) * (o['e'] if s['st'] == 0 else s['st'])
                self.exp.append((i, self.mem[s['ram']][a % DEPTH], (1 << min(32, self.D)) - 1, 'ram%d.read(%d)' % (s['ram'], a)))
                some = True
        if not some:
            self.exp.append((i, 1, (1 << 32) - 1, 'done'))


def sx(v, node, D):
    """a node value as the word a D bit sink stores"""
    if node['s'] and node['w'] < D:              # the filling of a wider word is not specified
        return None
    return v & ((1 << D) - 1)


def check(cfg, run, log):
    viols = []

    def add(cls, msg):
        if not any(v['class'] == cls for v in viols):
            viols.append(V(cls, msg))

    H = opthread.Hist(1, cfg.get('prog'))
    dump, got = {}, {}
    nin = 0
    for line in log.split('\n'):
        p = line.split()
        if not p:
            continue
        if p[0] == 'RESET' and int(p[1]) != H.t_reset:
            got.clear()
            dump.clear()
        if H.feed(p):
            continue
        if p[0] == 'M':
            dump[int(p[1]), int(p[2])] = p[3]
        elif p[0] == 'G':
            got.setdefault(p[1], []).append((int(p[2]), p[3]))
            H.order.append('g' + p[1])
        elif p[0] == 'I':
            H.order.append('i' + p[1])
    M = Model(cfg, run)
    ends = []
    for i, o in enumerate(run['ops']):
        M.op(o, i)
    endc = abs(H.end) if H.end else run['maxcyc']
    if not H.ok:
        add('no-completion', 'no completion by cycle %d: at op %d; outputs %s' % (run['maxcyc'], max([0] + list(H.began[0])), {k: '%d of %d' % (len(v), len(M.out[k])) for k, v in got.items()}))
    ev = H.evs[0]
    for n, (c, v, _) in enumerate(ev):
        if n >= len(M.exp):
            add('phantom-result', 'result %d at cycle %d' % (n, c))
            break
        i, x, m, what = M.exp[n]
        if x is not None and (set(v) & set('xz') or (int(v, 16) ^ x) & m):
            add('wrong-result', 'op %d %s at cycle %d: %s expected %x' % (i, what, c, v, x & m))
            break
    if H.ok and len(ev) < len(M.exp):
        add('lost-result', '%d of %d results' % (len(ev), len(M.exp)))
    for f, want in M.out.items():
        g = got.get(f, [])
        for n, (c, v) in enumerate(g):
            if n >= len(want):
                add('phantom-output', '%s output %d (%s) at cycle %d: only %d expected' % (f, n, v, c, len(want)))
                break
            if want[n] is not None and (set(v) & set('xz') or int(v, 16) != want[n]):
                add('wrong-output', '%s output %d at cycle %d: %s expected %x' % (f, n, c, v, want[n]))
                break
        if H.ok and len(g) < len(want):
            add('lost-output', '%s: %d of %d outputs' % (f, len(g), len(want)))
    if H.ok:
        bad = []
        for j in range(cfg['rams']):
            for x in range(DEPTH):
                v = dump.get((j, x))
                w = M.mem[j][x]
                if w is not None and (v is None or set(v) & set('xz') or int(v, 16) != w):
                    bad.append('ram%d[%d]=%s expected %x' % (j, x, v, w))
        if bad:
            add('wrong-memory', '%d words: %s' % (len(bad), ', '.join(bad[:6])))
    fl = opthread.fired(run, endc, R0)
    return viols, opthread.stats(log, H, run, endc, H.order, fl, {
        'elements': M.elements, 'outputs': sum(map(len, got.values())), 'stalled': int(any(e['k'] == 'stream_stall' for e in run['sched']))}, minorder=2)


def lin_ok(cfg, run):
    # the size of a conditional FIFO sink depends on the data of the run
    return not any(x.get('cond') for T in cfg['tmpl'] if not T.get('pair') for R in T['runs'] for x in R['snk'])
