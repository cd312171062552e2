"""what the rupture checks share: shapes, files, builders and random sessions over them"""
from props.R02 import q, qset

QUAD = [[0, 0, 1], [0, 6, 1], [3, 6, 4], [3, 0, 4], [0, 0, 1]]                   # dips east
WEST = [[0, 6, 1], [0, 0, 1], [-3, 0, 3], [-3, 6, 3], [0, 6, 1]]
CHAIN = [[0, 0, 0], [0, 5, 0], [2, 9, 0], [5, 9, 3], [3, 5, 3], [3, 0, 3], [0, 0, 0]]
TRAP = [[0, 0, 1], [0, 8, 1], [2, 6, 3], [2, 2, 3], [0, 0, 1]]
WALL = [[0, 0, 0], [6, 3, 0], [6, 3, 5], [0, 0, 5], [0, 0, 0]]                   # vertical
TWIST = [[0, 0, 1], [0, 6, 1], [6, 6, 4], [2, 0, 4], [0, 0, 1]]                  # level but not flat
SLOPE = [[0, 0, 1], [0, 6, 2], [3, 6, 5], [3, 0, 4], [0, 0, 1]]                  # flat but not level
BENT = [[0, 0, 0], [1, 4, 2], [0, 8, 1], [4, 8, 5], [5, 4, 6], [4, 0, 3], [0, 0, 0]]

RAGGED = [[0, 0, 1], [0, 6, 1], [0, 12, 1], [6, 12, 7], [4, 6, 5], [4, 0, 5], [0, 0, 1]]    # on one plane, bottom level at first only


def shift(p, d):
    return [[a + b for a, b in zip(x, d)] for x in p]


def rotated(p, k):
    n = len(p) - 1
    return [p[(i + k) % n] for i in range(n)] + [p[k % n]]


def pts(p):
    return [{'k': 'pt', 'p': x} for x in p]


END, BAD = [{'k': 'end'}], [{'k': 'bad'}]


def ref(*w):
    return [{'k': 'ref', 'w': list(w)}]


def quads(p):
    n = (len(p) - 1) // 2
    return [[p[k], p[k + 1], p[2 * n - k - 2], p[2 * n - k - 1]] for k in range(n - 1)]


BASE = {'op': 'build', 'how': '', 'quads': [], 'groups': [], 'top': [], 'bot': [], 'tops': [], 'ref': [], 'dx': 0, 'bad': ''}


def vertices(polys, ref, groups=(), bad=''):
    return dict(BASE, how='vertices', quads=[x for p in polys for x in quads(p)], groups=list(groups), ref=list(ref), bad=bad)


def arrays(polys, ref, dx, groups=()):
    top, bot = [], []
    for p in polys:
        n = (len(p) - 1) // 2
        top += p[:n]
        bot += p[n:-1][::-1]
    return dict(BASE, how='arrays', top=top, bot=bot, groups=list(groups), ref=list(ref), dx=dx)


def hang(a, b, s, h, v):
    return {'a': a, 'b': b, 's': s, 'h': h, 'v': v}


def trace(tops, ref=(), groups=(), bad='', how='trace'):
    return dict(BASE, how=how, tops=tops, ref=list(ref), groups=list(groups), bad=bad)


POINT = dict(BASE, how='point', ref=['c'])
PYTH = [(0, 1), (1, 0), (0, -1), (-1, 0), (3, 4), (-3, 4), (4, -3), (-4, -3)]


def consts(texts=(), jsons=(), builds=(), sites=(), writing=False):
    return {'Texts': qset(texts), 'Jsons': qset(jsons), 'Builds': qset(builds), 'Sites': qset([list(s) for s in sites]), 'Writing': q(bool(writing))}


# -- random ruptures ------------------------------------------------------
def right(qd):
    a = [x - y for x, y in zip(qd[2], qd[0])]
    b = [x - y for x, y in zip(qd[1], qd[0])]
    return a[0] * b[1] - a[1] * b[0]


def cross(a, b):
    return [a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]]


def sub(a, b):
    return [x - y for x, y in zip(a, b)]


def dot(a, b):
    return sum(x * y for x, y in zip(a, b))


def flatness(qd):
    n = cross(sub(qd[1], qd[0]), sub(qd[3], qd[0]))
    o = dot(n, sub(qd[2], qd[0]))
    if o == 0:
        return 'flat'
    e = sub(qd[3], qd[2])
    return 'twisted' if o * o * 156 > dot(n, n) * dot(e, e) else 'between'


def flat_group(r, nmax=3):
    """coplanar level quadrilaterals: a chain of parallelograms, or one trapezoid"""
    while True:
        z, dz = r.randint(0, 3), r.randint(1, 5)
        off = [r.randint(-4, 4), r.randint(-4, 4), dz]
        if r.random() < 0.15:
            off[:2] = [0, 0]
        p = [r.randint(-3, 3), r.randint(-3, 3), z]
        tops = [p]
        for _ in range(r.randint(1, nmax)):
            d = [r.randint(-4, 4), r.randint(-4, 4)]
            while abs(d[0]) + abs(d[1]) < 2:
                d = [r.randint(-4, 4), r.randint(-4, 4)]
            p = [p[0] + d[0], p[1] + d[1], z]
            tops.append(p)
        if len(tops) == 2 and r.random() < 0.4:
            d = sub(tops[1], tops[0])
            a, b = r.choice([(0, 1), (1, 1), (0, 2), (-1, 1), (-1, 2)])
            bots = [[tops[0][k] + off[k] + a * d[k] for k in range(3)], [tops[0][k] + off[k] + b * d[k] for k in range(3)]]
        else:
            bots = [[t[k] + off[k] for k in range(3)] for t in tops]
        poly = tops + bots[::-1] + [tops[0]]
        if sane(poly):
            return poly


def ragged_group(r, nmax=3):
    """on one plane with a straight level top, and a bottom that may not be level"""
    while True:
        d, w = list(r.choice([(0, 1), (1, 0), (1, 1), (-1, 2), (2, 1)])), r.choice([-1, 1])
        g = [d[1] * w, -d[0] * w, r.randint(1, 2)]
        p = [r.randint(-3, 3), r.randint(-3, 3), r.randint(0, 2)]
        tops, n = [p], r.randint(1, nmax)
        for _ in range(n):
            m = r.randint(2, 4)
            tops.append([tops[-1][0] + m * d[0], tops[-1][1] + m * d[1], p[2]])
        ms, m = [], r.randint(1, 3)
        for _ in tops:
            ms.append(m)
            if r.random() < 0.5:
                m = r.randint(1, 4)
        bots = [[a + k * b for a, b in zip(t, g)] for t, k in zip(tops, ms)]
        poly = tops + bots[::-1] + [tops[0]]
        if sane(poly):
            return poly


def edge_group(r, nmax=3):
    while True:
        n = r.randint(2, nmax + 1)
        p = [r.randint(-3, 3), r.randint(-3, 3)]
        top, bot = [], []
        off = [r.randint(-4, 4), r.randint(-4, 4)]
        level = r.random() < 0.3
        z, zb = r.randint(0, 3), r.randint(4, 7)
        for _ in range(n):
            top.append(p + [z if level else r.randint(0, 3)])
            bot.append([p[0] + off[0] + r.randint(-2, 2), p[1] + off[1] + r.randint(-2, 2), zb if level else r.randint(4, 7)])
            d = [r.randint(-3, 3), r.randint(-3, 3)]
            while abs(d[0]) + abs(d[1]) < 2:
                d = [r.randint(-3, 3), r.randint(-3, 3)]
            p = [p[0] + d[0], p[1] + d[1]]
        poly = top + bot[::-1] + [top[0]]
        if sane(poly):
            return poly


def sane(poly):
    """no degenerate or nearly flat quadrilaterals, nothing folded over itself, small numbers"""
    for qd in quads(poly):
        if max(abs(v) for p in qd for v in p[:2]) > 14:
            return False
        n = cross(sub(qd[1], qd[0]), sub(qd[3], qd[0]))
        if dot(n, n) == 0 or flatness(qd) == 'between':
            return False
        t, b, h = sub(qd[1], qd[0]), sub(qd[2], qd[3]), [0, 0, 0]
        if dot(t, b) <= 0 or dot(b, b) == 0:
            return False
        ra = right(qd)
        n2 = cross(sub(qd[2], qd[0]), sub(qd[1], qd[0]))
        if 0 < abs(ra) * 12 < dot(n2, n2) ** 0.5 or 20 * dot(n2, n2) < dot(sub(qd[2], qd[0]), sub(qd[2], qd[0])):
            return False
    return True


def is_quad_class(polys):
    return all(flatness(x) == 'flat' and x[0][2] == x[1][2] and x[2][2] == x[3][2] for p in polys for x in quads(p))


def rand_polys(r):
    k = r.random()
    n = r.choice([1, 1, 2, 3])
    if k < 0.45:
        out = [flat_group(r) for _ in range(n)]
    elif k < 0.6:
        out = [r.choice([ragged_group, flat_group])(r) for _ in range(n)]
    elif k < 0.85:
        out = [edge_group(r) for _ in range(n)]
    else:
        out = [flat_group(r), edge_group(r)]
    for p in out:                      # vertical ones make two choices each
        if sum(right(x) == 0 for x in quads(p)) > 1:
            return rand_polys(r)
    return out


def spoil(r, p):
    k = r.randrange(5)
    p = [list(x) for x in p]
    if k == 0:
        return p[:-1]
    if k == 1:
        return p[1:-1][::-1]
    if k == 2:
        return p[:-2] + p[-1:]
    if k == 3:
        return p[:3]
    n = (len(p) - 1) // 2
    j = r.randrange(n)
    p[j], p[2 * n - 1 - j] = p[2 * n - 1 - j], p[j]
    p[-1] = list(p[0])
    return p


def sane_text(polys):
    """whatever the reader makes of these by turning them round, it must not be nearly flat"""
    for p in polys:
        if len(p) < 4 or p[0] != p[-1]:
            continue
        for k in range(len(p) - 1):
            t = rotated(p, k)
            n = (len(t) - 1) // 2
            if len(t) % 2 and len(t) >= 5 and all(t[j][2] < t[2 * n - 1 - j][2] for j in range(n)):
                if not sane(t):
                    return False
                break
    return True


def rand_file(r):
    toks = ['a', 'b', 'c', 'd']
    while True:
        polys = rand_polys(r)
        rf = r.sample(toks, r.choice([0, 1, 1, 2]))
        if r.random() < 0.5:
            fmt = r.choice(['new', 'new', 'old', 'comma'])
            ps = [rotated(p, r.randrange(len(p) - 1)) if r.random() < 0.4 else p for p in polys]
            if r.random() < 0.2:
                k = r.randrange(len(ps))
                ps[k] = spoil(r, ps[k])
            if not sane_text(ps):
                continue
            lines = []
            for w in rf:
                lines += ref(w)
            if r.random() < 0.2:
                lines += END
            for k, p in enumerate(ps):
                lines += pts(p)
                if r.random() < 0.1:
                    lines += ref(r.choice(toks))
                lines += END * (r.choice([1, 1, 2]) if k < len(ps) - 1 else r.choice([0, 1]))
            if r.random() < 0.07:
                lines.insert(r.randrange(len(lines)), BAD[0])
            return {'op': 'text', 'fmt': fmt, 'lines': lines}
        bad = r.choice([''] * 8 + ['collection', 'two', 'zero', 'reference', 'metadata', 'feature', 'geometry', 'coordinates', 'cut'])
        if r.random() < 0.15 and not bad:
            k = r.randrange(len(polys))
            polys[k] = spoil(r, polys[k])
        return {'op': 'json', 'typ': 'hand', 'polys': polys, 'ref': rf, 'bad': bad}


def rand_build(r, unlike=False):
    toks = ['a', 'b', 'c', 'd']
    rf = r.sample(toks, r.choice([0, 1, 1, 2]))
    k = r.random()
    if k < 0.35:
        polys = [flat_group(r) for _ in range(r.choice([1, 1, 2, 3]))]
        if sum(right(x) == 0 for p in polys for x in quads(p)) > 1:
            return rand_build(r, unlike)
        c = vertices(polys, rf)
        if r.random() < 0.7:
            g = [lab for lab, p in zip(r.sample(range(9), len(polys)), polys) for _ in quads(p)]
            if r.random() < 0.3 and len(g) > 1:       # members need not be next to each other
                c['quads'], g = interleave(r, c['quads'], g)
            c['groups'] = g
        if r.random() < 0.1:
            c['bad'] = 'ConsistentLengthError'
        return c
    if k < 0.65:
        polys = [r.choice([edge_group, edge_group, ragged_group, flat_group])(r) for _ in range(r.choice([1, 1, 2, 3]))]
        c = arrays(polys, rf, r.choice([10, 50, 125, 300]))
        if len(polys) > 1:
            g = [lab for lab, p in zip(r.sample(range(9), len(polys)), polys) for _ in range((len(p) - 1) // 2)]
            c['groups'] = g
        elif r.random() < 0.3:
            c['groups'] = [r.choice([0, 3])] * len(c['top'])
        return c
    if k < 0.95:
        tops = []
        for _ in range(r.choice([1, 1, 2, 3])):
            s = list(r.choice(PYTH))
            n = 5 if s[0] and s[1] else 1
            m = r.choice([1]) if n == 5 else r.randint(3, 8)
            a = [r.randint(-3, 3), r.randint(-3, 3), r.randint(0, 3)]
            b = [a[0] + m * s[0], a[1] + m * s[1], a[2]]
            h = r.choice([0, 5]) if n == 5 else r.randint(0, 5)
            v = r.randint(1, 6)
            tops.append(hang(a, b, s, h, v))
        if sum(t['h'] == 0 for t in tops) > 1:
            return rand_build(r, unlike)
        how = r.choice(['trace', 'trace', 'orient'])
        bad = '' if r.random() < 0.9 else 'ConsistentLengthError' if how == 'orient' else r.choice(['ConsistentLengthError', 'TypeError'])
        if how == 'trace' and not bad and r.random() < 0.25:      # dip direction given apart from the trace
            t = tops[0]
            if t['s'] in ([0, 1], [0, -1], [1, 0], [-1, 0]):
                t['s'] = r.choice([[3, 4], [-3, 4], [4, -3], [-4, -3]])
                t['h'] = 5
                x, y = t['b'][0] - t['a'][0], t['b'][1] - t['a'][1]
                if x * t['s'][0] + y * t['s'][1] < 0:
                    t['s'] = [-t['s'][0], -t['s'][1]]
        for t in tops:
            t['s'] = list(t['s'])
        if how == 'trace' and not bad and unlike and r.random() < 0.3:        # traces in groups, one hung on from another
            s, m = r.choice([(0, 1), (1, 0), (0, -1), (-1, 0)]), r.randint(2, 5)
            a, g, tops = [r.randint(-3, 3), r.randint(-3, 3), r.randint(0, 3)], [], []
            for k in range(r.randint(2, 4)):
                b = [a[0] + m * s[0], a[1] + m * s[1], a[2]]
                tops.append(hang(a, b, list(s), r.randint(1, 3), r.randint(2, 5)))
                g.append(r.choice([4, g[-1]]) if g else r.choice([1, 8]))
                a = b
            return trace(tops, rf, g)
        return trace(tops, [] if how == 'orient' else rf, bad=bad, how=how)
    return dict(POINT, ref=rf)


def interleave(r, qs, g):
    """shuffle groups among each other, keeping the order within each"""
    left = {}
    for x, k in zip(qs, g):
        left.setdefault(k, []).append(x)
    order = list(g)
    r.shuffle(order)
    return [left[k].pop(0) for k in order], order


def rand(r, n, ops=('file', 'build', 'write', 'depth')):
    out = []
    for _ in range(n):
        calls, made, here = [], False, None
        for _ in range(r.randrange(3, 12)):
            k = r.random()
            if not (made or here) or k < 0.2:
                if 'build' in ops and (r.random() < 0.5 or 'file' not in ops):
                    calls.append(rand_build(r, 'write' not in ops))
                    made = True
                else:
                    calls.append(rand_file(r))
                    here = True
                    if r.random() < 0.5:
                        calls.append(load(r, calls[-1]))
            elif here and k < 0.5:
                calls.append(load(r, {}))
            elif 'write' in ops and k < 0.8:
                calls.append({'op': r.choice(['write', 'redict', 'writetext'])})
                here = here or calls[-1]['op'] != 'redict'
                if r.random() < 0.6:
                    calls.append(load(r, {'op': 'json', 'typ': 'own'} if calls[-1]['op'] == 'write' else {'op': 'text', 'fmt': 'old'}))
            elif 'depth' in ops:
                calls.append({'op': 'depthat', 'p': [r.randint(-4, 8), r.randint(-4, 8)]})
        out.append({'calls': calls, 'seed': r.randrange(1 << 30), 'line': r.random() < 0.1})
    return out


def load(r, f):
    """most of the time in a way that suits the file"""
    how = r.choice(['file', 'file', 'dict', 'dictorigin'])
    newf = r.random() < 0.5
    if f.get('op') == 'text':
        how, newf = 'file', {'new': True, 'old': False}.get(f['fmt'], newf)
    elif f.get('typ') == 'hand' and how == 'dict':
        how = 'file'
    return {'op': 'load', 'how': how, 'newf': newf, 'dx': r.choice([25, 50, 200, 333])}
