"""Small linearizability checker (Wing & Gong, memoised).

ops: list of dicts with 'inv', 'res' (event times) and whatever step() needs.
step(state, op) -> new state or None if op is impossible in that state.
"""
import sys


def linearizable(ops, init, step, limit=200000):
    n = len(ops)
    if n == 0:
        return True
    ops = sorted(ops, key=lambda o: o['inv'])
    full = (1 << n) - 1
    seen = set()
    stack = [(0, init)]
    cnt = 0
    while stack:
        done, state = stack.pop()
        if done == full:
            return True
        if (done, state) in seen:
            continue
        seen.add((done, state))
        cnt += 1
        if cnt > limit:
            return None      # undecided: history too wide
        first = min(ops[i]['res'] for i in range(n) if not done >> i & 1)
        for i in range(n - 1, -1, -1):
            if done >> i & 1:
                continue
            o = ops[i]
            if o['inv'] > first:
                continue
            s = step(state, o)
            if s is not None:
                stack.append((done | 1 << i, s))
    return False
