"""how senders are configured"""
import random

from props.R02 import q as tla, qset

REQUIRED = {'copy': ['remote_directory'], 'ftp': ['remote_directory', 'remote_host'], 'ssh': ['private_key', 'remote_host', 'remote_directory'],
            'email': ['smtp_servers', 'sender', 'subject', 'recipients', 'message'],
            'pdl': ['java', 'jarfile', 'privatekey', 'configfile', 'source', 'type', 'code', 'eventsource', 'eventsourcecode']}
LISTS = {'A': ['f1'], 'B': ['f2', 'f3', 'f2'], 'M': ['f1', 'gone'], 'F': ['folder'], 'E': []}


def new(k, list='', dir='', to='r1', mark='.cancel', form='list'):
    return {'op': 'new', 'k': k, 'list': list, 'dir': dir, 'to': to, 'mark': mark, 'form': form}


def canary(s):
    for st in s['steps']:
        if st['s']['senders']['1']['there']:
            st['s']['senders']['1']['n'] += 1
            return s
    return None


def run(ctx):
    rnd = random.Random('T03/%s' % ctx.seed)
    q = ctx.quick
    classes = [{'op': 'class', 'kind': k} for k in list(REQUIRED) + ['Copy', 'scp', '']]
    classes += [{'op': 'make', 'kind': k, 'without': w} for k in REQUIRED for w in REQUIRED[k] + ['everything', 'nothing']]
    news = [new('1', 'A', 'd1'), new('1', '', 'd1', 'r2', 'GONE.txt'), new('2', 'A'), new('1', 'A', '', ''), new('2', 'M'), new('1', 'A', 'gone'), new('2', '', 'f1'), new('1', 'A', form='tuple'), new('2', 'A', 'gone', '')]
    consts = dict(Slots='{"1", "2"}', Lists=tla({'A': ['f1'], 'M': ['gone']}), News=qset(news), Files='{"f2"}', Dirs='{"d1"}', Remotes='{"r1"}' if q else '{"r1", "r2"}', Classes=qset(classes), Limit='1')
    tconsts = dict(consts, Lists=tla(LISTS), Files='{"f1"}')

    def session():
        calls, there = [], set()
        for _ in range(rnd.randint(3, 14)):
            k, l = rnd.choice('12'), rnd.choice('ABABMFE')
            x = rnd.random()
            if x < 0.25 or k not in there and x < 0.6:
                n = new(k, rnd.choice(['', l, l]), rnd.choice(['', '', 'd1', 'd2', rnd.choice(['gone', 'f1'])]), rnd.choice(['r1', 'r2', 'r3', rnd.choice(['', 'r1'])]), rnd.choice(['.cancel', 'x.cancel']),
                        rnd.choice(['list'] * 7 + ['tuple', 'text']))
                calls.append(n)
                there.add(k)
            elif x < 0.65:
                calls.append(rnd.choice(classes) if rnd.random() < 0.3 else {'op': 'poke', 'list': l, 'f': rnd.choice(['f1', 'f2', 'f3', rnd.choice(['f3', 'gone'])])})
            elif x < 0.7:
                calls.append({'op': 'empty', 'list': l})
            elif k in there:
                calls.append(rnd.choice([{'op': 'add', 'k': k, 'list': l}, {'op': 'add', 'k': k, 'list': l}, {'op': 'chdir', 'k': k, 'dir': rnd.choice(['d1', 'd2', 'gone', 'f1'])},
                                         {'op': 'prop', 'k': k, 'to': rnd.choice(['r1', 'r2', 'r3'])}]))
        # only sessions in which a sender is there when it is used
        ok, there, lists = [], set(), {k: list(v) for k, v in LISTS.items()}
        for c in calls:
            if c['op'] == 'new':
                bad = c['to'] == '' or c['dir'] in ('gone', 'f1') or c['list'] and (c['form'] != 'list' or {'gone', 'folder'} & set(lists[c['list']]))
                if not bad:
                    there.add(c['k'])
            elif c['op'] == 'poke':
                lists[c['list']].append(c['f'])
            elif c['op'] == 'empty':
                lists[c['list']] = []
            elif c['op'] in ('add', 'chdir', 'prop') and c['k'] not in there:
                continue
            ok.append(c)
        return ok

    extra = [{'calls': session(), 'seed': rnd.randrange(1 << 30)} for _ in range(300 if q else 8000)]
    extra += [{'calls': [c], 'seed': rnd.randrange(1 << 30)} for c in classes]
    ctx.conform('Config', 'config', consts, canary=canary, variants=1, label='configuration', mc_kw={})
    recs = ctx.run_code('config', extra)
    ctx.validate('Config', extra, recs, tconsts, label='random')
