"""
Linearizability of a register (one key of a mapping), after Wing and Gong.

An operation is a tuple (inv, ret, kind, arg)
    inv, ret   event numbers, ret is None if it never returned
    kind       'w' write arg (ABSENT for a delete), 'r' read that returned arg,
               'p' presence test that returned arg,
               'W' like 'w' but may also have had no effect (it failed or its process died)
               'd' delete that returned arg, the number of things deleted
               'u' write arg if there is something already, 'U' is to 'u' what 'W' is to 'w'
"""
ABSENT = ('absent',)
INF = float('inf')


class TooHard(Exception):
    pass


def check(ops, initial=ABSENT, limit=200000):
    """
    :return: True if there is an order of the operations that explains all results
    """
    ops = sorted(ops, key=lambda o: o[0])
    n = len(ops)
    ret = [INF if o[1] is None else o[1] for o in ops]
    must = 0
    for i, o in enumerate(ops):
        if o[2] not in 'WU':
            must |= 1 << i
    seen = set()
    stack = [(0, initial)]
    visited = 0
    while stack:
        done, state = stack.pop()
        if done & must == must:
            return True
        if (done, state) in seen:
            continue
        seen.add((done, state))
        visited += 1
        if visited > limit:
            raise TooHard()
        # whoever is next must have been invoked before the first of the others returned
        bound = INF
        for i in range(n):
            if not done >> i & 1 and ret[i] < bound and ops[i][2] not in 'WU':
                bound = ret[i]
        for i in range(n):
            if done >> i & 1:
                continue
            inv, _, kind, arg = ops[i]
            if inv > bound:
                break
            if kind == 'w':
                stack.append((done | 1 << i, arg))
            elif kind == 'd':
                if arg == int(state != ABSENT):
                    stack.append((done | 1 << i, ABSENT))
            elif kind == 'u':
                stack.append((done | 1 << i, state if state == ABSENT else arg))
            elif kind in 'WU':
                if kind == 'U' and state == ABSENT:
                    continue
                # an operation that failed can't take effect after it returned
                if ret[i] >= max((ops[j][0] for j in range(n) if done >> j & 1), default=-1):
                    stack.append((done | 1 << i, arg))
            elif kind == 'r':
                if arg == state:
                    stack.append((done | 1 << i, state))
            elif kind == 'p':
                if arg == (state != ABSENT):
                    stack.append((done | 1 << i, state))
    return False
