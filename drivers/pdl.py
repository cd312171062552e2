import datetime
import decimal
import os
import pathlib
import random
import re
import stat

from drivers.util import mkfile

from impactutils.transfer.pdlsender import PDLSender

TEXTS = ['green', 'two words', 'a "quoted" word', "it's", '$HOME `id` $(id)', 'back\\slash', 'semi;colon && echo x > y',
         'é – ü', '*', 'a=b --status=DELETE', '', '#hash', 'tab\there', '100%s', '{brace}', '[bracket]', '~', '!x', ' lead', 'trail ', '\u00a0x', 'A-Z', '"', 'two  blanks', 'new\nline']
SCRIPT = '''#!/bin/sh
d="$(dirname "$0")"
n=$(ls "$d" | grep -c '^run')
{ printf '%s\\0' "$0"; for a in "$@"; do printf '%s\\0' "$a"; done; } > "$d/run$n"
cat "$d/says"
echo "some error" >&2
exit $(cat "$d/rc")
'''
DEC = {'latitude': 4, 'longitude': 4, 'depth': 1, 'magnitude': 1}


SAYS = ['pdl says hello\n', '  two\n lines \r\n', 'sent: caf\u00e9 \U0001f30d', '"quoted" 50%s {x}\n\n',
        'sent: caf\udce9 in another encoding\n']


class Other(object):
    def __init__(self, text):
        self.text = text

    def __str__(self):
        return self.text


class Driver(object):
    def __init__(self, sess, scratch):
        self.cfg = sess['init']['cfg']
        v = sess.get('variant', 0)
        rnd = random.Random(sess.get('seed', 0))
        odd = v % 3 != 0
        self.tdir = os.path.join(scratch, 'to ols' if odd else 'tools')
        mkfile(os.path.join(self.tdir, 'java'), SCRIPT.encode())
        os.chmod(os.path.join(self.tdir, 'java'), 0o755)
        self.says = SAYS[v % len(SAYS)]
        mkfile(os.path.join(self.tdir, 'says'), os.fsencode(self.says))
        self.tool = True
        self.setrc()
        self.val = {'java': os.path.join(self.tdir, 'java'), 'jar': '/x/Product Client.jar' if odd else '/x/PC.jar'}
        props = {'java': self.val['java'], 'jarfile': self.val['jar']}
        for k, p in (('source', 'source'), ('type', 'type'), ('code', 'code'), ('eventsource', 'eventsource'),
                     ('eventsourcecode', 'eventsourcecode'), ('privateKey', 'privatekey'), ('configFile', 'configfile')):
            t = rnd.choice(TEXTS) + k if odd else k + '1'
            self.val[k] = props[p] = t
        pp = {}
        self.v, self.names = v // 3, {}
        self.rx = {}
        for e in self.cfg['text']:
            k = e['k']
            if k == 'eventtime':
                t = datetime.datetime(rnd.randrange(1900, 2100), rnd.randrange(1, 13), rnd.randrange(1, 29), rnd.randrange(24),
                                      rnd.randrange(60), rnd.randrange(60), rnd.randrange(1000000))
                props[k] = t
                self.val[k] = t.strftime('%Y-%m-%dT%H:%M:%S.') + '%03dZ' % (t.microsecond // 1000)
            elif k.startswith('property-t'):
                t = datetime.datetime(rnd.randrange(1900, 2100), 2, 3, 4, 5, 6, rnd.randrange(1000000))
                pp[self.pname(k)] = t
                self.val[k] = t.strftime('%Y-%m-%dT%H:%M:%S.') + '%03d' % (t.microsecond // 1000)
            elif k.startswith('property-i'):
                pp[self.pname(k)] = rnd.choice([0, -5, 12345678901, 7])
                self.val[k] = str(pp[self.pname(k)])
            else:
                self.val[k] = rnd.choice(TEXTS)
                pp[self.pname(k)] = rnd.choice([self.val[k], self.val[k], Other(self.val[k])])
                if rnd.random() < 0.2:
                    pp[self.pname(k)] = rnd.choice([['a', "b c"], None, {'x': 1}, pathlib.Path('/some where/x'), decimal.Decimal('1.50')])
                    self.val[k] = str(pp[self.pname(k)])
        self.num = {}
        for e in self.cfg['num']:
            k, x = e['k'], e['x']
            d = DEC.get(k, 4)
            self.num[k] = d
            f = x / 10.0 ** (d + 1)
            if k.startswith('property-'):
                pp[self.pname(k)] = f
            else:
                props[k] = f
        files, ldir = [], None
        for i in range(self.cfg['nfiles']):
            p = os.path.join(scratch, 'f', 'file %d.xml' % i if odd else 'f%d.xml' % i)
            mkfile(p, b'x')
            files.append(p)
        if files:
            self.val['file'] = files[0]
        if self.cfg['dir']:
            ldir = os.path.join(scratch, "prod ' dir" if odd else 'prod')
            os.makedirs(ldir)
            for i in range(self.cfg['ndir']):
                mkfile(os.path.join(ldir, 'sub' if i % 2 else '.', 'x%d' % i), b'y')
            self.val['directory'] = ldir
        self.sender = PDLSender(properties=props, local_files=files or None, local_directory=ldir,
                                product_properties=pp if (pp or v % 2) else None)
        self.nrun = 0
        self.product = 'none'

    def said(self, msg):
        # what is not UTF-8 may be written in any way
        return all(t in msg for t in self.says.split('\udce9'))

    def pname(self, k):
        """the name given to the product property the model calls k"""
        n = k[9:]
        if self.v % 2:
            n = {'s': 'maxMMI-', 't': 'Event_Time.', 'i': 'numStations', 'f': 'UPPER'}[n[0]] + n[1:]
            self.names['property-' + n] = k
        return n

    def setrc(self):
        mkfile(os.path.join(self.tdir, 'rc'), b'0' if self.tool else b'3')

    def state(self):
        return {'cfg': self.cfg, 'tool': self.tool, 'product': self.product}

    def runs(self):
        out = []
        names = sorted((n for n in os.listdir(self.tdir) if n.startswith('run')), key=lambda n: int(n[3:]))
        for n in names[self.nrun:]:
            with open(os.path.join(self.tdir, n), 'rb') as f:
                argv = f.read().decode('utf-8', 'surrogateescape').split('\0')[:-1]
            args = [self.arg('java', argv[0])]
            i = 1
            while i < len(argv):
                a = argv[i]
                if a == '-jar' and i + 1 < len(argv):
                    args.append(self.arg('jar', argv[i + 1]))
                    i += 1
                elif a == '--send':
                    args.append({'k': 'send', 'v': 'set'})
                elif a.startswith('--') and '=' in a:
                    k, val = a[2:].split('=', 1)
                    args.append(self.arg(k, val))
                else:
                    args.append({'k': a, 'v': '?'})
                i += 1
            out.append(args)
        self.nrun = len(names)
        return out

    def arg(self, k, val):
        k = self.names.get(k, k)
        if k == 'status':
            return {'k': k, 'v': val}
        if k in self.num:
            if re.match(r'^-?\d+\.\d{%d}$' % self.num[k], val):
                return {'k': k, 'v': int(val.replace('.', ''))}
            return {'k': k, 'v': 99999999}
        if k == 'jar':
            return {'k': 'jar', 'v': 'jarfile' if val == self.val['jar'] else '?'}
        if k in self.val and val == self.val[k]:
            return {'k': k, 'v': k}
        return {'k': k, 'v': '?'}

    def do(self, c):
        r = {'ok': True, 'n': 0, 'exc': '', 'said': False, 'runs': []}
        if c['op'] == 'tool':
            self.tool = c['ok']
            self.setrc()
            return r
        try:
            if c['op'] == 'send':
                n, msg = self.sender.send()
                r['n'] = n
                r['said'] = self.said(msg)
                self.product = 'live'
            else:
                msg = self.sender.cancel()
                if isinstance(msg, bytes):
                    msg = os.fsdecode(msg)
                r['said'] = self.says == msg
                self.product = 'deleted'
        except Exception as e:
            r['ok'] = False
            r['exc'] = type(e).__name__
            r['msg'] = str(e)[:200]
        r['runs'] = self.runs()
        return r
