import random


def canary(s):
    for st in s['steps']:
        if st['c']['op'] in ('put', 'setgrid', 'setpoints') and st['r']['ok']:
            if st['c']['op'] == 'put':
                st['s']['slots'][st['c']['s']] = 0
            else:
                st['s']['imts'] = []
            return s
    return None


def rand(rnd, n, slots, layers):
    out = []
    for k in range(n):
        calls = []
        ncomp, nimt = (3, 3) if k % 6 else (8, 12)
        side = rnd.choice(['grid', 'points'])
        for _ in range(rnd.randrange(5, 40) if k % 6 else rnd.randrange(30, 60)):
            x = rnd.random()
            if slots and (x < 0.7 or not layers):
                s = rnd.choice(['config', 'rupture', 'stations', 'history', 'info'])
                if rnd.random() < 0.6:
                    bad = rnd.choice(['', '', '', 'json', 'type' if s in ('rupture', 'stations') else 'json'])
                    calls.append({'op': 'put', 's': s, 'v': rnd.randrange(1, 5), 'bad': bad})
                else:
                    calls.append({'op': 'take', 's': s})
            elif layers and x < 0.93:
                c, i = 'C%d' % rnd.randrange(1, ncomp + 1), 'I%d' % rnd.randrange(1, nimt + 1)
                t = side if rnd.random() < 0.85 else rnd.choice(['grid', 'points'])
                y = rnd.random()
                if y < 0.6:
                    calls.append({'op': 'set' + t, 'c': c, 'i': i, 'v': rnd.randrange(1, 5),
                                  'bad': rnd.choice(['', '', '', '', 'value', 'meta', 'shape' if t == 'points' else ''])})
                elif y < 0.8:
                    calls.append({'op': 'get' + t, 'c': c, 'i': i})
                elif y < 0.95:
                    calls.append({'op': 'drop', 'i': i})
                else:
                    calls.append({'op': 'declare', 't': rnd.choice(['points', 'grid', 'x', 'grids', 'point', 'Grid', ''])})
            if x > 0.9:
                calls.append({'op': rnd.choice(['reopen', 'meddle'])})
        out.append({'calls': calls, 'variant': rnd.randrange(6), 'seed': rnd.randrange(1 << 30), 'base': rnd.randrange(2)})
        out[-1]['init'] = {'slots': dict.fromkeys(('config', 'rupture', 'stations', 'history', 'info'), 0), 'dtype': '', 'imts': [], 'base': out[-1]['base']}
    return out


def consts(slots, comps, imts, vals):
    q = lambda l: '{' + ', '.join('"%s"' % x for x in l) + '}'
    return {'Slots': q(slots), 'Comps': q(comps), 'Imts': q(imts), 'Vals': '{' + ', '.join(map(str, vals)) + '}', 'Base': '0'}
