import random

BIG = {'TreePaths': '{<<"a">>, <<"d","a">>}', 'FlatNames': '{"b"}', 'ExtPaths': '{<<"d">>, <<"z">>}',
       'Contents': '{0, 1}', 'MarkerTexts': '{0, 1}', 'FaultPoints': '{}', 'FaultKinds': '{}', 'Configs': '{<<TRUE, <<"b">>>>}'}
TOUR = {'TreePaths': '{<<"a">>, <<"d","a">>}', 'FlatNames': '{"b"}', 'ExtPaths': '{<<"d">>}',
        'Contents': '{1}', 'MarkerTexts': '{0}', 'FaultPoints': '{}', 'FaultKinds': '{}', 'Configs': '{<<TRUE, <<"b">>>>}'}
TOUR2 = {'TreePaths': '{<<"a">>}', 'FlatNames': '{"a"}', 'ExtPaths': '{<<"a">>}',
         'Contents': '{1, 2}', 'MarkerTexts': '{1}', 'FaultPoints': '{}', 'FaultKinds': '{}', 'Configs': '{<<TRUE, <<"a">>>>, <<FALSE, <<"a">>>>, <<TRUE, <<>>>>}'}


def canary(s):
    for st in s['steps']:
        if st['c']['op'] == 'send' and st['r']['ok'] and st['s']['remote']:
            st['s']['remote'] = st['s']['remote'][1:]
            return s
    return None


def random_session(rnd, n, names, variant, big=False, faults=()):
    tree, flat, remote = {}, {}, {}
    useTree = rnd.random() < 0.8
    lst = []
    for x in names['flat']:
        if rnd.random() < 0.5:
            lst.append(x)
            flat[(x,)] = rnd.randrange(0, 6)
    if not useTree and not lst:
        lst = [names['flat'][0]]
        flat[(lst[0],)] = 1
    rnd.shuffle(lst)
    sess = {'init': {'useTree': useTree, 'list': lst, 'tree': [],
                     'flat': [{'p': list(k), 'c': v} for k, v in sorted(flat.items())], 'remote': [], 'rdir': False},
            'variant': variant, 'seed': rnd.randrange(1 << 30), 'big': big}
    if useTree:
        for p in names['tree']:
            if rnd.random() < 0.5 and not any(clash(p, q) for q in tree):
                tree[p] = rnd.randrange(0, 6)
    sess['init']['tree'] = [{'p': list(k), 'c': v} for k, v in sorted(tree.items())]
    calls = []
    ext = set()
    there = set()       # what may be in the remote directory
    for _ in range(n):
        x = rnd.random()
        if x < 0.4:
            there |= set(tree) | set(flat)
        elif x < 0.55:
            there.add(('.cancel',))
        if x < 0.2 and faults:
            f = rnd.choice(faults)
            calls.append({'op': 'sendf', 'k': rnd.randrange(f[1]), 'kind': f[0]})
        elif x < 0.4:
            calls.append({'op': 'send'})
        elif x < 0.55:
            calls.append({'op': 'cancel', 'c': rnd.choice(names['marks'])})
        elif x < 0.75 and useTree:
            p = rnd.choice(names['tree'])
            if p in tree and rnd.random() < 0.3:
                del tree[p]
                calls.append({'op': 'untree', 'p': list(p)})
            elif not any(clash(p, q) for q in tree):
                tree[p] = rnd.randrange(0, 8)
                calls.append({'op': 'tree', 'p': list(p), 'c': tree[p]})
        elif x < 0.9 and lst:
            p = (rnd.choice(lst),)
            if p in flat and rnd.random() < 0.2:
                del flat[p]
                calls.append({'op': 'unflat', 'p': list(p)})
            else:
                flat[p] = rnd.randrange(0, 8)
                calls.append({'op': 'flat', 'p': list(p), 'c': flat[p]})
        else:
            p = rnd.choice(names['ext'])
            if any(clash(p, q) for q in there):
                continue
            there.add(p)
            calls.append({'op': 'ext', 'p': list(p), 'c': rnd.randrange(0, 4)})
    sess['calls'] = calls
    return sess


def clash(p, q):
    return len(p) != len(q) and p[:min(len(p), len(q))] == q[:min(len(p), len(q))]


NAMES = {'tree': [('a',), ('b',), ('d', 'a'), ('d', 'e', 'a'), ('d', 'e', 'd', 'a'), ('g', 'h'), ('.cancel',), ('f',), ('tmp',)],
         'flat': ['b', 'c', 'a', 'i'], 'ext': [('z',), ('y', 'z'), ('a',), ('d', 'w'), ('tmp',), ('b', 'w'), ('.cancel', 'w')], 'marks': [0, 1, 2, 3]}


def run(ctx, backend, driver, nrand=None, names=NAMES, faults=(), **kw):
    B = {'Backend': '"%s"' % backend}
    nrand = nrand or (150 if ctx.quick else 3000)
    rnd = random.Random('%s/%s/rand' % (ctx.pid, ctx.seed))
    extra = [random_session(rnd, 14, names, rnd.randrange(120), big=i % 5 == 0, faults=faults) for i in range(nrand)]
    big = dict(BIG, **B)
    if faults:
        big.update(FaultPoints='{0}', FaultKinds='{"%s"}' % faults[0][0])
    ctx.model_check('Delivery', big, emit=False)
    # fault enumeration: every command of one send, for each kind of fault, then a clean send
    enum = []
    for kind, n in faults:
        for v in range(3):
            for k in range(n):
                s = random_session(rnd, 0, names, 3 * k + v)
                s['calls'] = [{'op': 'sendf', 'k': k, 'kind': kind}, {'op': 'send'}]
                enum.append(s)
    # a directory stands where a file or the marker should go
    for v in range(6):
        for d in (('b',), ('.cancel',), ('d', 'a')):
            s = random_session(rnd, 0, names, 7 * v + len(d))
            s['init'].update(useTree=True, list=['b'], tree=[{'p': ['d', 'a'], 'c': 1}, {'p': ['a'], 'c': 2}], flat=[{'p': ['b'], 'c': 3}])
            s['calls'] = [{'op': 'ext', 'p': list(d) + ['w'], 'c': 1}, {'op': 'send'}, {'op': 'cancel', 'c': names['marks'][-1]}, {'op': 'send'}]
            enum.append(s)
    t2 = dict(TOUR2, **B)
    t1 = dict(TOUR if ctx.quick else BIG, **B)
    if backend == 'ftp':
        t2.update(MarkerTexts='{0}')
        t1.update(MarkerTexts='{0}')
    ctx.conform('Delivery', driver, t2, extra_sessions=extra + enum, canary=canary, **kw)
    ctx.conform('Delivery', driver, t1, canary=canary, variants=1, **kw)
