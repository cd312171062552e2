"""EmailSender: everybody exactly once, the right message, first working server"""
import random

MODES = ['up', 'down', 'nohelo', 'nosender', 'norcpt', 'nodata', 'baddata', 'datadrop', 'quitdrop', 'picky', 'busy']
NAMES = ['a.txt', 'b.bin', 'image.png', 'sub/c.xml', 'sub/deep/d.dat', 'dir/dir/e.html', 'noext', 'g.mp3', 'h.zip', 'é.gz', 'Shake MAP.PDF', 'sub/README B.TXT', 'dir/c.xml', 'dir/dir/c.xml']
TEXTUAL = ('.txt', '.xml', '.html')


def canary(s):
    for st in s['steps']:
        if st['c']['op'] == 'send' and st['r'].get('ok') and st['r']['msgs']:
            st['r']['msgs'].append(st['r']['msgs'][0])
            return s
    return None


def cfg(rnd, nr=None):
    n = rnd.choice([0, 1, 2, 3, 5, 7, 9]) if nr is None else nr
    maxbcc = rnd.choice([0, 1, 2, 3, 4, 5, 25])
    zipf = rnd.random() < 0.5
    lay, files = [], []
    if rnd.random() < 0.7:
        used = set()
        for nm in rnd.sample(NAMES, rnd.randrange(1, 5)):
            tree = '/' in nm or rnd.random() < 0.3
            c = rnd.randrange(0, 6)
            if not zipf and any(f['n'] == nm.split('/')[-1] and f['c'] == c for f in files):
                continue
            lay.append({'path': nm, 'tree': tree, 'c': c})
            files.append({'n': nm if zipf else nm.split('/')[-1], 'c': c})
            used.add(nm)
    rcpts = ['r%d' % (i + 1) for i in range(n)]
    rnd.shuffle(rcpts)
    return {'rcpts': rcpts, 'maxbcc': maxbcc, 'primary': rnd.random() < 0.4,
            'zip': zipf, 'csubj': rnd.random() < 0.4, 'ccont': rnd.random() < 0.4, 'files': files,
            'nfiles': len(files), 'layout': lay,
            'odd': not zipf and any(f['c'] == 5 and f['n'].lower().endswith(TEXTUAL) for f in files)}


def big(rnd):
    g = cfg(rnd, nr=rnd.choice([24, 25, 26, 49, 50, 51, 75]))
    g['maxbcc'] = rnd.choice([25, 25, 10, 50])
    return g


def session(rnd, g):
    ns = rnd.choice([1, 2, 3, 5])
    modes = [rnd.choice(MODES + ['up'] * 4) for _ in range(ns)]
    calls = []
    for _ in range(rnd.randrange(2, 6)):
        x = rnd.random()
        if x < 0.4:
            calls.append({'op': 'send', 'arg': False})
        elif x < 0.7:
            calls.append({'op': 'cancel', 'arg': rnd.random() < 0.5})
        else:
            calls.append({'op': 'modes', 'm': [rnd.choice(MODES + ['up'] * 4) for _ in range(ns)]})
    return {'init': {'cfg': g, 'modes': modes}, 'calls': calls, 'variant': rnd.randrange(12)}


def tla_cfg(rc, mb, prim, cs, cc):
    return ('[rcpts |-> <<%s>>, maxbcc |-> %d, primary |-> %s, zip |-> FALSE, nfiles |-> 0, csubj |-> %s, '
            'ccont |-> %s, odd |-> FALSE, files |-> {}]' % (', '.join('"%s"' % r for r in rc), mb, prim, cs, cc))


def run(ctx):
    rnd = random.Random('T06/%s' % ctx.seed)
    T, F = 'TRUE', 'FALSE'
    cfgs = [tla_cfg(['r1', 'r2', 'r3'], mb, T if mb % 2 else F, F, F) for mb in (0, 1, 2, 3)] + \
           [tla_cfg(['r1'], 2, F, T, T), tla_cfg([], 2, F, F, F)]
    consts = {'Cfgs': '{' + ', '.join(cfgs) + '}',
              'ModeSeqs': '{' + ', '.join('<<"%s", "%s">>' % (a, b) for a in ('up', 'down', 'quitdrop', 'norcpt')
                                          for b in ('up', 'nodata')) + '}'}
    n = 250 if ctx.quick else 4000
    extra = [session(rnd, cfg(rnd)) for _ in range(n)] + [session(rnd, big(rnd)) for _ in range(n // 10)]

    def conc(s):
        s['init']['cfg']['layout'] = []
        s['init']['cfg']['files'] = []
        return s
    ctx.conform('Email', 'email_', consts, extra_sessions=extra, canary=canary, concretise=conc, max_len=12,
                trace_consts={'Cfgs': '{}', 'ModeSeqs': '{}'})
