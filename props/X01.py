"""system commands"""
import random

from props.R02 import qset


def run_of(r):
    """a run of bytes: which, how many"""
    return [ord(r[0]), r[1]] if r else []


def part(join=';', out=(), err=(), x=0, mark=0):
    return {'join': join, 'out': run_of(out), 'err': run_of(err), 'x': x, 'mark': mark}


def canary(s):
    for st in s['steps']:
        for r in st['r']:
            r['ok'] = not r['ok']
            return s
    return None


def run(ctx):
    rnd = random.Random('X01/%s' % ctx.seed)
    q = ctx.quick
    big = 300000
    one = [[part()], [part(x=1)], [part(x=127, out=('a', 3))], [part(x=-9, mark=1)], [part(x=-15, err=('b', 2))],
           [part(out=('a', big), err=('b', big), mark=1)], [part(err=('b', big), x=255)], [part(out=('\n', 2))], [part(out=('\xff', 9), err=('\x00', 4))],
           [part(out=('a', 70000), err=('b', 1)), part(err=('b', 70000), out=('a', 1)), part(out=('b', 70000))],
           [part(x=2, mark=1), part('||', x=0, out=('a', 1))], [part(x=0), part('&&', x=4, mark=1), part('&&', mark=1)], [part(x=3), part(mark=1)],
           [part(x=0), part('||', x=1, mark=1), part('&&', out=('b', 5), x=1)], [part(out=('a', 5)), part(x=-9), part(out=('b', 5))]]
    together = [[one[5], one[1], one[0]], [one[6], one[5]], [one[9], one[3], one[7], one[8]]]
    consts = dict(Programs=qset(one), Together=qset(together), LogLimit='2' if q else '3')

    def prog():
        run = lambda: [] if rnd.random() < 0.5 else [rnd.choice('ab\n\r\xff\x00 \x80'), rnd.choice([1, 2, 100, 4096, 65536, 65537, 200000])]
        ps = [part(rnd.choice([';', '&&', '||']), run(), run(), rnd.choice([0, 0, 0, 1, 2, 127, 255, -9, -15, -6 if rnd.random() < .2 else 1]), rnd.choice([0, 1])) for _ in range(rnd.randint(1, 4))]
        ps[0]['join'] = ';'
        return ps

    def session():
        return [{'op': 'run', 'progs': [prog() for _ in range(rnd.choice([1, 1, 1, 2, 4]))]} for _ in range(rnd.randint(1, 4))]
    extra = [{'calls': session(), 'seed': rnd.randrange(1 << 30)} for _ in range(200 if q else 4000)]
    # every exit status, the signals, and commands that take long
    status = list(range(256)) + [-k for k in range(4, 16)]         # 1 to 3 may be ignored where this runs
    for k in range(0, len(status), 8):
        extra.append({'calls': [{'op': 'run', 'progs': [[part(x=x, out=('a', x % 3))] for x in status[k:k + 8]]}], 'seed': k})
    extra.append({'calls': [{'op': 'run', 'progs': [[part(out=('a', 3), mark=1)], [part(err=('b', 70000), x=3)]]}], 'seed': 1, 'slow': 12 if q else 45})
    ctx.conform('Command', 'command', consts, extra_sessions=extra, canary=canary, variants=1 if q else 2, label='commands')
