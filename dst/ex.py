"""Small unsigned Verilog expressions: generator, veriloggen source text, evaluator.

Trees: ['v',name] ['c',n] ['+',a,b] ['-',a,b] ['&',a,b] ['|',a,b] ['^',a,b]
['~',a] ['==',a,b] ['!=',a,b] ['<',a,b] ['>=',a,b] ['?',c,a,b] ['bit',name,i]
['sl',name,msb,lsb] ['mem',array,index] ['cat',a,b..] ['&&',a,b] ['||',a,b] ['!',a]"""

BIN = ('+', '-', '&', '|', '^')
CMP = ('==', '!=', '<', '>=')


def src(e):
    k = e[0]
    if k in ('v', 'sx'):
        return e[1]
    if k == 'c':
        return str(e[1])
    if k in BIN or k in CMP:
        a, b = e[1], e[2]
        if a[0] == 'c':
            return '(vtypes.Int(%d) %s %s)' % (a[1], k, src(b))
        return '(%s %s %s)' % (src(a), k, src(b))
    if k == '~':
        return '(~%s)' % src(e[1])
    if k == '!':
        return 'vtypes.Not(%s)' % src(e[1])
    if k == '&&':
        return 'vtypes.Ands(%s, %s)' % (src(e[1]), src(e[2]))
    if k == '||':
        return 'vtypes.Ors(%s, %s)' % (src(e[1]), src(e[2]))
    if k == '?':
        return 'Mux(%s, %s, %s)' % tuple(src(x) for x in e[1:])
    if k == 'bit':
        return '%s[%s]' % (e[1], src(e[2]) if isinstance(e[2], list) else e[2])
    if k == 'mem':
        return '%s[%s]' % (e[1], src(e[2]))
    if k == 'sl':
        return '%s[%d:%d]' % (e[1], e[3], e[2] + 1)
    if k == 'cat':
        return 'Cat(%s)' % ', '.join(src(x) for x in e[1:])
    raise ValueError(k)


def width(e, ws):
    k = e[0]
    if k in ('v', 'sx', 'mem'):
        return ws[e[1]]
    if k == 'c':
        return 32
    if k in BIN:
        return max(width(e[1], ws), width(e[2], ws))
    if k == '~':
        return width(e[1], ws)
    if k == '?':
        return max(width(e[2], ws), width(e[3], ws))
    if k == 'sl':
        return e[2] - e[3] + 1
    if k == 'cat':
        return sum(width(x, ws) for x in e[1:])
    return 1


def ev(e, env, ws, W):
    """value in a context of W bits (W >= width(e))"""
    m = (1 << W) - 1
    k = e[0]
    if k == 'v':
        return env[e[1]]
    if k == 'sx':
        return (env[e[1]] - ((env[e[1]] >> (ws[e[1]] - 1)) << ws[e[1]])) & m
    if k == 'c':
        return e[1] & m
    if k in BIN:
        a, b = ev(e[1], env, ws, W), ev(e[2], env, ws, W)
        return {'+': a + b, '-': a - b, '&': a & b, '|': a | b, '^': a ^ b}[k] & m
    if k == '~':
        return ~ev(e[1], env, ws, W) & m
    if k in CMP:
        w = max(width(e[1], ws), width(e[2], ws))
        a, b = ev(e[1], env, ws, w), ev(e[2], env, ws, w)
        return int({'==': a == b, '!=': a != b, '<': a < b, '>=': a >= b}[k])
    if k == '!':
        return int(not truth(e[1], env, ws))
    if k == '&&':
        return int(truth(e[1], env, ws) and truth(e[2], env, ws))
    if k == '||':
        return int(truth(e[1], env, ws) or truth(e[2], env, ws))
    if k == '?':
        return ev(e[2] if truth(e[1], env, ws) else e[3], env, ws, W)
    if k == 'bit':
        i = e[2] if isinstance(e[2], int) else val(e[2], env, ws)
        return env[e[1]] >> i & 1 if i < ws[e[1]] else 0
    if k == 'mem':
        return env[e[1]][val(e[2], env, ws)]
    if k == 'sl':
        return env[e[1]] >> e[3] & ((1 << (e[2] - e[3] + 1)) - 1)
    if k == 'cat':
        r = 0
        for x in e[1:]:
            w = width(x, ws)
            r = r << w | ev(x, env, ws, w)
        return r
    raise ValueError(k)


def val(e, env, ws):
    return ev(e, env, ws, width(e, ws))


def truth(e, env, ws):
    return val(e, env, ws) != 0


def gen(rng, names, ws, depth=2, const=True):
    r = rng.random()
    if depth == 0 or r < 0.3:
        if const and rng.random() < 0.25:
            return ['c', rng.choice([0, 1, 2, 3, 5, 7, 15, 200])]
        if 'ar0' in ws and rng.random() < 0.25:
            return ['mem', 'ar0', ['v', 'b0']]
        n = rng.choice(names)
        w = ws[n]
        q = rng.random()
        if w > 2 and q < 0.15:
            lo = rng.randrange(w - 1)
            return ['sl', n, rng.randrange(lo + 1, w), lo]
        if w > 1 and q < 0.25:
            return ['bit', n, rng.randrange(w)]
        return ['v', n]
    if r < 0.75:
        a = gen(rng, names, ws, depth - 1, const)
        b = gen(rng, names, ws, depth - 1, const)
        if a[0] == 'c' and b[0] == 'c':
            b = ['v', rng.choice(names)]
        return [rng.choice(BIN), a, b]
    if r < 0.8:
        return ['~', gen(rng, names, ws, depth - 1, False)]
    if r < 0.9:
        return ['?', cond(rng, names, ws, 1), gen(rng, names, ws, depth - 1, const), gen(rng, names, ws, depth - 1, const)]
    return cond(rng, names, ws, depth - 1)


def cond(rng, names, ws, depth=1):
    one = [n for n in names if ws[n] == 1]
    r = rng.random()
    if one and r < 0.5:
        return ['v', rng.choice(one)]
    n = rng.choice(names)
    if r < 0.62:
        return ['v', n]                # possibly several bits: true when not zero
    if r < 0.7 and ws[n] > 1:
        return ['bit', n, rng.randrange(ws[n])]
    if r < 0.9 or depth == 0:
        return [rng.choice(CMP), ['v', n], ['c', rng.randrange(min(16, 1 << ws[n]))] if rng.random() < 0.7 else ['v', rng.choice(names)]]
    if r < 0.94:
        return ['!', cond(rng, names, ws, depth - 1)]
    return [rng.choice(['&&', '||', '&', '|', '+']), cond(rng, names, ws, depth - 1), cond(rng, names, ws, depth - 1)]
