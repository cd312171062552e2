"""HDFContainerBase as a typed hierarchical store"""
import random

PLACES = [('dict', ['a']), ('dict', ['a', 'b']), ('string', ['a', 'b'])]
BADS = '[k \\in Kinds |-> CASE k = "array" -> {"value", "meta"} [] OTHER -> {"value"}]'
KINDS = ['dict', 'array', 'string']


def tla_places(ps):
    return '{' + ', '.join('[k |-> "%s", p |-> <<%s>>]' % (k, ', '.join('"%s"' % x for x in p)) for k, p in ps) + '}'


def consts(kinds, places, vals='{1, 2}'):
    return {'Kinds': '{' + ', '.join('"%s"' % k for k in kinds) + '}', 'Places': tla_places(places), 'Vals': vals, 'Bads': BADS.replace('Kinds', 'K_Kinds')}


def canary(s):
    for st in s['steps']:
        if st['c']['op'] == 'set' and st['r']['ok']:
            for e in st['s']['ents']:
                if e['k'] == st['c']['k'] and e['p'] == st['c']['p']:
                    e['v'] = 97
            return s
    return None


def random_sessions(rnd, n, all_kinds, flat):
    paths = [['a'], ['b'], ['c']] if flat else [['a'], ['b'], ['a', 'b'], ['a', 'c'], ['d', 'a', 'b'], ['d', 'b', 'c'], ['b', 'a', 'a', 'd']]
    wide = [[x] for x in 'abcdefghij'] if flat else [[x] for x in 'abcdefg'] + [['h', x] for x in 'abcdefghij'] + [['i', 'j', 'i'], ['i', 'j', 'j']]
    narrow = paths
    out = []
    for i in range(n):
        calls = []
        paths = narrow if i % 6 else wide
        kinds = all_kinds if i % 6 else [rnd.choice(all_kinds)]
        groups = set()
        for _ in range(rnd.randrange(5, 40) if i % 6 else rnd.randrange(25, 50)):
            k = rnd.choice(kinds)
            p = rnd.choice(paths)
            x = rnd.random()
            if x < 0.5:
                bad = rnd.choice(['', '', '', 'value', 'meta' if k == 'array' else 'value'])
                calls.append({'op': 'set', 'k': k, 'p': p, 'v': rnd.randrange(1, 5), 'bad': bad})
                for j in range(1, len(p)):
                    groups.add((k, tuple(p[:j])))
            elif x < 0.65:
                calls.append({'op': 'get', 'k': k, 'p': p})
            elif x < 0.85:
                if (k, tuple(p)) not in groups:
                    calls.append({'op': 'drop', 'k': k, 'p': p})
            elif x < 0.93:
                calls.append({'op': 'reopen'})
            elif x < 0.96:
                calls.append({'op': 'meddle'})
            elif x < 0.98:
                calls.append({'op': 'missing'})
            else:
                calls.append({'op': 'create'})
                groups = set()
        out.append({'calls': calls, 'variant': rnd.randrange(6), 'seed': rnd.randrange(1 << 30), 'flat': flat})
    return out


def run(ctx):
    rnd = random.Random('C01/%s' % ctx.seed)
    extra = random_sessions(rnd, 250 if ctx.quick else 6000, KINDS, False)
    tc = consts(KINDS, [])
    ctx.conform('Store', 'store', consts(KINDS, PLACES), extra_sessions=extra, canary=canary, trace_consts=tc,
                variants=2 if ctx.quick else 6)
    ctx.conform('Store', 'store', consts(KINDS, [('array', ['a']), ('array', ['b', 'a']), ('array', ['b', 'b'])]), canary=canary,
                trace_consts=tc, variants=2 if ctx.quick else 6, label='arrays')
    if not ctx.quick:
        ctx.conform('Store', 'store', consts(KINDS, [(k, p) for k in KINDS for p in (['a'], ['b', 'a'])], '{1}'), canary=canary,
                    trace_consts=tc, label='all kinds')
