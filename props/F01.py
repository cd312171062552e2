"""numbers as text"""
import random

from props.R02 import qset


def roman(n):
    return {'op': 'roman', 'n': n}


def commify(s, sep=','):
    return {'op': 'commify', 's': list(s), 'sep': sep}


def precision(m, e, digits, mode='int'):
    return {'op': 'precision', 'm': m, 'e': e, 'digits': digits, 'mode': mode}


def dollars(m, e, digits=2, mode='short'):
    return {'op': 'dollars', 'm': m, 'e': e, 'digits': digits, 'mode': mode}


def near(op, v, unit, k=0):
    return {'op': op, 'v': v, 'unit': unit, 'k': k}


def canary(s):
    for st in s['steps']:
        if st['c']['op'] in ('roman', 'pop') and st['r']['ok']:
            st['r']['text'] += 'I'
            return s
    return None


def edge(r, top=2000000000):
    """a number, often beside a round one"""
    k = r.random()
    if k < 0.4:
        return min(top, max(0, r.choice([1, 5, 10, 15, 25, 95, 99, 100, 500, 995, 999]) * 10 ** r.randint(0, 6) + r.choice([-1, 0, 0, 1])))
    return r.randrange(10 ** r.randint(1, 9))


def ask(r):
    k = r.randrange(9)
    if k == 0:
        return roman(r.choice([0, -1, 4000, 3999, 1, r.randint(1, 3999), r.randint(1, 3999), r.randint(1, 3999)]))
    if k == 1:
        s = r.choice(['', '', '-']) + r.choice([str(r.randrange(10 ** r.randint(1, 18))), str(10 ** r.randint(0, 18))])
        if r.random() < 0.4:
            s += r.choice(['.', '.']) + r.choice(['0', '5', '%d' % r.randrange(10 ** 6), '000001'])
        if r.random() < 0.1:
            s += r.choice(['k', ' m', ''])
        return commify(s, r.choice([',', ',', ' ', '.', "'", '_', '&nbsp;', '', '\\']))
    if k == 2:
        return {'op': 'again'}
    if k in (3, 4):
        e = r.choice([0, 0, -1, -2, -3, -5])
        m = r.choice([1, 1, 1, -1]) * edge(r, 999999999)
        return precision(m, e, r.randint(1, r.choice([6, 12])), r.choice(['int', 'float']))
    if k == 5:
        m = edge(r, 10 ** 8)
        e = r.choice([0, 0, 1, 2, 3, 5]) if m else 0
        if r.random() < 0.2:
            m, e = r.choice([1, 1, 2, 10]), r.choice([0, 2, 3, 6, 9, 10])
        return dollars(m, e, r.randint(1, 5), r.choice(['short', 'long']))
    if k == 6:
        n = edge(r)
        return r.choice([{'op': 'pop', 'n': n}, {'op': 'short', 'n': n, 'million': r.random() < 0.5}])
    op = r.choice(['round', 'floor', 'ceil'])
    if r.random() < 0.5:
        u = r.choice([1, 2, 5, 10, 25, 100, 1000, 1000, 10000, 7, 60])
        v = r.choice([r.randint(-50, 50) * u + r.choice([0, 0, 1, -1]), r.randint(-10 ** 6, 10 ** 6)])
        return near(op, v, u)
    k = r.randint(1, 4)
    u = r.choice([1, 1, 2, 5, 25, 10, 125, 75, 1005])
    v = r.choice([r.randint(-300, 300) * u, r.randint(-300, 300) * u + r.choice([1, -1]), r.randint(-10 ** 5, 10 ** 5)])
    return near(op, v, u, k)


def run(ctx):
    rnd = random.Random('F01/%s' % ctx.seed)
    asks = [roman(n) for n in list(range(-1, 100)) + [400, 444, 499, 900, 999, 1000, 1984, 3888, 3999, 4000, 5000]]
    asks += [commify(s, p) for s in ('0', '12', '123', '1234', '-123', '-1234', '1234567', '-1234567890123', '1234.5678', '12345678.000001') for p in (',', ' ')]
    asks += [{'op': 'again'}]
    asks += [precision(m, e, d, mode) for m in (7642, 321, 9996, 0, -1234, 15) for e in (0, -2) for d in (1, 2, 3) for mode in ('int', 'float')]
    asks += [dollars(m, e, d, mode) for m, e in ((1234, 6), (1, 3), (1, 6), (1, 9), (999, 0), (9996, 2), (123, 0), (55, 10)) for d in (1, 2, 3) for mode in ('short', 'long')]
    asks += [{'op': 'pop', 'n': n} for n in (0, 499, 500, 501, 7642, 9184, 1499500, 123456789)]
    asks += [{'op': 'short', 'n': n, 'million': b} for n in (0, 125, 999, 1000, 1499, 1501, 999600, 1230000, 1024125, 25000000) for b in (False, True)]
    asks += [near(op, v, u, k) for op in ('round', 'floor', 'ceil') for v, u, k in ((998, 1000, 0), (-998, 1000, 0), (1501, 1000, 0), (51, 100, 0), (56, 10, 2), (44, 10, 2), (29, 1, 2), (11, 1, 1), (-11, 1, 1), (3, 1, 1), (75, 25, 3), (2000, 1000, 0))]
    n = 1500 if ctx.quick else 60000
    extra = [{'calls': [ask(rnd) for _ in range(rnd.randint(5, 20))], 'seed': rnd.randrange(1 << 30)} for _ in range(n)]
    ctx.conform('Text', 'text_', dict(Asks=qset(asks)), extra_sessions=extra, canary=canary, variants=1 if ctx.quick else 3, label='text')
