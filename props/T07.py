"""PDLSender: exact command, exit status decides"""
import random


def canary(s):
    for st in s['steps']:
        if st['c']['op'] == 'send' and st['r']['ok']:
            st['r']['runs'][0] = [a for a in st['r']['runs'][0] if a['k'] != 'code']
            return s
    return None


def cfg(rnd):
    num, text = [], []
    for k, lo, hi in (('latitude', -9000000, 9000000), ('longitude', -18000000, 18000000), ('depth', 0, 70000), ('magnitude', -100, 1000)):
        if rnd.random() < 0.5:
            num.append({'k': k, 'x': rnd.randrange(lo, hi)})
    if rnd.random() < 0.5:
        text.append({'k': 'eventtime'})
    for i in range(rnd.randrange(0, 4)):
        t = rnd.choice('stif')
        if t == 'f':
            num.append({'k': 'property-f%d' % i, 'x': rnd.randrange(-9000000, 9000000)})
        else:
            text.append({'k': 'property-%s%d' % (t, i)})
    d = rnd.random() < 0.5
    return {'nfiles': rnd.choice([0, 1, 1, 2, 3]), 'dir': d, 'ndir': rnd.randrange(0, 4) if d else 0, 'num': num, 'text': text}


def run(ctx):
    rnd = random.Random('T07/%s' % ctx.seed)
    g = ['[nfiles |-> %d, dir |-> %s, ndir |-> %d, num |-> %s, text |-> %s]' % (n, 'TRUE' if d else 'FALSE', d, num, text)
         for n in (0, 1, 2) for d in (0, 2)
         for num, text in (('{}', '{}'), ('{[k |-> "latitude", x |-> -349999]}', '{[k |-> "eventtime"], [k |-> "property-s0"]}'))]
    extra = []
    for _ in range(200 if ctx.quick else 5000):
        calls = []
        for _ in range(rnd.randrange(1, 5)):
            x = rnd.random()
            calls.append({'op': 'send'} if x < 0.5 else {'op': 'cancel'} if x < 0.8 else {'op': 'tool', 'ok': rnd.random() < 0.5})
        extra.append({'init': {'cfg': cfg(rnd)}, 'calls': calls, 'variant': rnd.randrange(6), 'seed': rnd.randrange(1 << 30)})
    ctx.conform('PDL', 'pdl', {'Cfgs': '{' + ', '.join(g) + '}'}, extra_sessions=extra, canary=canary, variants=2,
                trace_consts={'Cfgs': '{}'})
