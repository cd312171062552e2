"""From the transitions TLC emitted to call sequences that cover them."""
import json
import random
from collections import defaultdict, deque


def key(x):
    return json.dumps(canon(x), sort_keys=True)


def canon(x):
    if isinstance(x, dict):
        return {k: canon(v) for k, v in x.items()} if x else []
    if isinstance(x, list):
        return [canon(v) for v in x]
    return x


def tours(transitions, seed, max_len=40, max_paths=None):
    """Paths from the initial states covering every (state, call) pair the model offers.

    A path is (init_state, [call, ...]).  After each call the model may have
    several outcomes; the replayed code picks one and trace validation decides
    whether it was allowed, so only calls with a single successor are extended
    beyond (others end the path, or continue when all outcomes coincide).
    """
    rnd = random.Random(seed)
    succ = defaultdict(dict)        # state -> callkey -> (call, set of targets)
    states = {}
    indeg = set()
    for t in transitions:
        s, c, d = key(t['s']), key(t['c']), key(t['t'])
        states[s] = t['s']
        states[d] = t['t']
        e = succ[s].setdefault(c, (t['c'], set()))
        e[1].add(d)
        if s != d:
            indeg.add(d)
    return states, succ, rnd, indeg


def cover(transitions, inits, seed, max_len=30, max_paths=100000):
    states, succ, rnd, _ = tours(transitions, seed)
    todo = {s: set(cs) for s, cs in succ.items()}
    # deterministic shortest path tree from the initial states
    start = [key(i) for i in inits]
    parent = {s: None for s in start}
    q = deque(start)
    while q:
        s = q.popleft()
        for c in sorted(succ.get(s, {})):
            call, tg = succ[s][c]
            if len(tg) == 1:
                d = next(iter(tg))
                if d not in parent:
                    parent[d] = (s, c)
                    q.append(d)
    paths = []
    remaining = sum(len(v) for s, v in todo.items() if s in parent)
    unreachable = sum(len(v) for s, v in todo.items() if s not in parent)
    order = [s for s in parent if todo.get(s)]
    rnd.shuffle(order)
    order.sort(key=lambda s: 0)
    stack = order[:]
    while stack and len(paths) < max_paths:
        s = stack[-1]
        if not todo.get(s):
            stack.pop()
            continue
        # prefix to s
        pre = []
        x = s
        while parent[x] is not None:
            p, c = parent[x]
            pre.append((p, c))
            x = p
        pre.reverse()
        calls = [succ[p][c][0] for p, c in pre]
        for p, c in pre:
            if c in todo.get(p, ()):
                todo[p].discard(c)
                remaining -= 1
        cur = s
        n = 0
        while n < max_len:
            left = todo.get(cur)
            if left:
                c = rnd.choice(sorted(left))
                left.discard(c)
                remaining -= 1
            else:
                # bounded look-ahead for a state with work left
                nxt = _near(cur, succ, todo, 3)
                if nxt is None:
                    break
                for c in nxt[:-1]:
                    call, tg = succ[cur][c]
                    calls.append(call)
                    cur = next(iter(tg))
                    n += 1
                c = nxt[-1]
                todo[cur].discard(c)
                remaining -= 1
            call, tg = succ[cur][c]
            calls.append(call)
            n += 1
            if len(tg) != 1:
                break
            cur = next(iter(tg))
        paths.append((states[x], calls))
    return paths, {'covered_pairs': sum(len(v) for v in succ.values()) - remaining - unreachable,
                   'pairs': sum(len(v) for v in succ.values()),
                   'unreachable_pairs': unreachable}


def _near(s, succ, todo, depth):
    q = deque([(s, [])])
    seen = {s}
    while q:
        x, p = q.popleft()
        if todo.get(x):
            return p + [sorted(todo[x])[0]]
        if len(p) >= depth:
            continue
        for c in sorted(succ.get(x, {})):
            _, tg = succ[x][c]
            if len(tg) == 1:
                d = next(iter(tg))
                if d not in seen:
                    seen.add(d)
                    q.append((d, p + [c]))
    return None
