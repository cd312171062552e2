"""No reader ever sees a half-written file; a send that dies can be repeated"""
import random

PATHS = ['a', 'b.txt', 'd/a', 'd/e/c', 'f']


def canary(s):
    for st in s['steps']:
        if st['c']['op'] == 'ok' and st['s']['vis']:
            st['s']['vis'][0]['c'] = -1
            return s
    return None


def sess(rnd, backend, mode, **kw):
    n = rnd.randrange(1, 5)
    paths = rnd.sample(PATHS, n)
    tree = [p for p in paths if '/' in p or rnd.random() < 0.5]
    src = {p: rnd.randrange(1, 9) for p in paths}
    old = {p: rnd.randrange(10, 19) for p in PATHS if rnd.random() < 0.6}
    if rnd.random() < 0.5:
        old['.cancel'] = 20
    for p in paths:                 # sometimes the same, or an empty, file
        if rnd.random() < 0.15:
            src[p] = rnd.choice([0, old.get(p, 3)])
    return dict(backend=backend, mode=mode, old=old, src=src, tree=tree, seed=rnd.randrange(1 << 30), calls=[], **kw)


def run(ctx):
    rnd = random.Random('T02/%s' % ctx.seed)
    q = ctx.quick
    ctx.model_check('Publish', {'Names': '{"a", "b"}', 'Contents': '{1, 2}'}, emit=False)
    if not q:
        ctx.model_check('Publish', {'Names': '{"a", "b", "c"}', 'Contents': '{1, 2}'}, emit=False)
    ss = []
    for _ in range(60 if q else 1500):
        ss.append(sess(rnd, 'copy', 'look'))
    for _ in range(40 if q else 600):
        ss.append(sess(rnd, 'copy', 'full', limit=rnd.choice([0, 3, 500, 1024, 5000, 66000])))
    for k in range(24):
        for _ in range(4 if q else 60):
            ss.append(sess(rnd, 'copy', 'die', k=k))
    for _ in range(30 if q else 800):
        ss.append(sess(rnd, 'ftp', 'look'))
    for kind in ('drop', 'data', 'perm', 'temp'):
        for k in range(45):
            for _ in range(1 if q else 20):
                ss.append(sess(rnd, 'ftp', 'fault', k=k, kind=kind))
    for _ in range(15 if q else 300):
        ss.append(sess(rnd, 'ssh', 'look'))
    for kind in ('drop', 'cut', 'exit'):
        for k in range(14):
            for _ in range(1 if q else 10):
                ss.append(sess(rnd, 'ssh', 'fault', k=k, kind=kind))
    recs = ctx.run_code('publish', ss)
    ctx.validate('Publish', ss, recs, {'Names': '{}', 'Contents': '{}'}, canary=canary, label='observed sends', first=False)
    ctx.cov['crash_and_fault_points'] = sum(1 for s in ss if s['mode'] != 'look')
