"""HistoricTime and ElapsedTime"""
import random
from datetime import date, timedelta

from props.R02 import qset

FIELDS = ['@Y', '@m', '@d', '@H', '@M', '@S', '@f', '@y', '@C', '@e', '@j', '@I', '@p', '@a', '@A', '@b', '@B', '@w', '@u', '@U', '@W', '@V', '@G',
          '@F', '@T', '@X', '@R', '@D', '@z', '@Z', '@@']
TEXT = ['-', ' ', 'T', 'Y', 'c', ':', 'year ', '1900', 'x', 'm']


def put(op, t, z=''):
    t = list(t)
    return {'op': op, 't': t + [0] * (7 - len(t)), 'z': z}


def write(fs, force=False):
    return {'op': 'write', 'fs': list(fs), 'force': force}


def move(days, secs=0):
    return {'op': 'move', 'days': days, 'secs': secs}


def since(t):
    t = list(t)
    return {'op': 'since', 't': t + [0] * (7 - len(t))}


def say(big, small, unit):
    return {'op': 'say', 'big': big, 'small': small, 'unit': unit}


def canary(s):
    for st in s['steps']:
        if st['c']['op'] == 'write' and st['r']['ok'] and st['r']['text'] and st['s']['t'][0] >= 1000:
            st['r']['text'] += '0'
            return s
    return None


def rand_time(r):
    y = r.choice([r.randint(1, 9999), r.choice([1, 4, 100, 300, 400, 700, 1100, 1500, 1600, 1899, 1900, 1901, 2000, 9999]), r.choice([99, 999, 1000]), r.randint(1400, 2100)])
    k = r.random()
    if k < 0.4:
        m, d = r.choice([(1, 1), (1, 3), (12, 31), (12, 29), (2, 28), (3, 1), (2, 29 if y % 4 == 0 and (y % 100 or y % 400 == 0) else 28)])
    else:
        m, d = r.randint(1, 12), r.randint(1, 28)
    return [y, m, d, r.choice([0, 12, 23, r.randrange(24)]), r.choice([0, 59, r.randrange(60)]), r.choice([0, 59, r.randrange(60)]), r.choice([0, 0, 999999, 1, r.randrange(1000000)])]


def near(r, t):
    n = date(*t[:3]).toordinal() - r.choice([0, 0, 1, 6, 7, 8, 14, r.randrange(40), r.randrange(5000), -1])
    d = date.fromordinal(max(1, min(n, date.max.toordinal())))
    out = [d.year, d.month, d.day] + [t[3], t[4], t[5], t[6]]
    for k, m in ((3, 24), (4, 60), (5, 60), (6, 1000000)):
        if r.random() < 0.35:
            out[k] = r.randrange(m)
        elif r.random() < 0.2:
            out[k] = (out[k] + r.choice([-1, 1])) % m
    return out


def rand_format(r):
    fs = []
    for _ in range(r.randint(1, 6)):
        fs.append(r.choice(FIELDS if r.random() < 0.7 else TEXT))
    if r.random() < 0.15:
        fs.insert(r.randrange(len(fs) + 1), r.choice(['@c', '@x']))
    if '@c' in fs or '@x' in fs:           # a year made right wherever it stands
        fs = [f for f in fs if f in ('@c', '@x', '@a', '@b', '@p', '@@', '-', ' ', 'T', 'c', ':', 'x')]
    return fs


def sessions(r, n):
    out = []
    for _ in range(n):
        calls, t = [], None
        for _ in range(r.randint(4, 14)):
            k = r.random()
            if t is None or k < 0.15:
                t = rand_time(r)
                calls.append(put(r.choice(['set', 'read']), t, r.choice(['', '', 'UTC'])))
            elif k < 0.55:
                fs = rand_format(r)
                calls.append(write(fs, ('@c' in fs or '@x' in fs) and r.random() < 0.6 or r.random() < 0.1))
            elif k < 0.65:
                calls.append({'op': 'again'})
            elif k < 0.75:
                a = r.choice([0, 1, 365, 146097, r.randrange(800000)])
                s = r.choice([-1, 1])
                calls.append(move(s * a, s * r.randrange(86400)))
                t = None
            elif k < 0.93:
                calls.append(since(near(r, t)))
            elif k < 0.97:
                calls.append(say(r.choice([0, 1, 2, r.randrange(100)]), r.choice([0, 1, 2, r.randrange(100)]), r.choice(['year', 'month', 'week', 'day', 'hour', 'minute', 'fortnight', 'days', ''])))
            else:
                d, s = r.choice([(0, 3600 * 5 + 330), (r.randrange(60), r.randrange(1, 24) * 3600 + 1830), (0, r.randrange(60) * 60 + 3630)])
                calls.append({'op': 'ago', 'days': d, 'secs': s})
        out.append({'calls': calls, 'seed': r.randrange(1 << 30)})
    return out


def run(ctx):
    rnd = random.Random('H01/%s' % ctx.seed)
    sets = [put('set', [1899, 12, 31, 23, 59, 59, 999999]), put('set', [1500, 2, 28], 'UTC'), put('read', [1900, 1, 1]), put('set', [4, 2, 29, 12, 0, 5, 7]),
            put('read', [1600, 12, 31, 0, 30]), put('set', [1, 1, 1]), put('set', [9999, 12, 31, 1])]
    forms = [write([f]) for f in FIELDS + ['@c', '@x']] + [write(['@c'], True), write(['@x'], True), write(['@@', 'Y', ' ', '@Y']), write(['@@', 'c']), write(['@@', '@Y', '@@', '@@', 'x']), {'op': 'again'}]
    moves = [move(1), move(-1), move(0, 1), move(0, -1)]
    pasts = [since([1899, 12, 31, 23, 59, 58, 999999]), since([1, 1, 1]), since([1600, 12, 23, 22, 29, 1]), since([1600, 12, 31, 0, 29])]
    says = [say(1, 2, 'week'), say(2, 1, 'year'), say(1, 1, 'century')]
    consts = {'Sets': qset(sets), 'Formats': qset(forms), 'Moves': qset(moves), 'Pasts': qset(pasts), 'Says': qset(says)}
    if ctx.quick:                     # moves make new states: one day around each
        consts['Moves'] = qset([])
        ctx.conform('Historic', 'historic', consts, extra_sessions=sessions(rnd, 4000), canary=canary, label='times')
    else:
        consts['Moves'] = qset([])
        ctx.conform('Historic', 'historic', consts, extra_sessions=sessions(rnd, 60000), canary=canary, variants=6, label='times')
