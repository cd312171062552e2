import email
import email.policy
import email.header
import io
import os
import smtplib
import zipfile

from drivers.smtpserver import Server
from drivers.util import mkfile

from impactutils.transfer.emailsender import EmailSender

TEXTS = ['PAGER Version: 1\n279 km SE of Hotan\nGMT: 2020/06/25\n.\n..dots\nend',
         'M6.4 près de Nové Zámky\nmultiple   spaces \n\nFrom me',
         '\n   indented \n' + 'x' * 1200 + '\nshort  \n\n']
SUBJECTS = ['M6.4 event', 'Séisme – évacuation', 'Re: [test] "quoted" <x@y>, a very long subject line ' + 'and more ' * 12]


def norm(t):
    return t.replace('\r\n', '\n').replace('\r', '\n').rstrip('\n')


class Driver(object):
    def __init__(self, sess, scratch):
        cfg = sess['init']['cfg']
        self.cfg = cfg
        self.v = sess.get('variant', 0)
        self.modes = sess['init']['modes']
        self.srv = Server(len(self.modes))
        self.srv.modes = list(self.modes)
        smtplib.SMTP.default_port = self.srv.port
        self.addr = {r: '%s@example%d.org' % (r, i % 3) for i, r in enumerate(cfg['rcpts'])}
        self.rev = {a: r for r, a in self.addr.items()}
        self.srv.refused = self.addr.get('r1')
        self.prim = 'primary@quarry.org'
        self.text = TEXTS[self.v % 3]
        self.ctext = {'cancelprop': '  Property: retracted.\nSorry  ', 'cancelarg': 'Argument: retrait\né'}
        self.subj = SUBJECTS[self.v % 3]
        props = {'smtp_servers': self.srv.hosts(), 'sender': 'mrslate@quarry.org', 'subject': self.subj,
                 'recipients': [self.addr[r] for r in cfg['rcpts']], 'message': self.text}
        if not (cfg['maxbcc'] == 25 and self.v % 2):
            props['max_bcc'] = cfg['maxbcc']
        if cfg['primary']:
            props['primary_recipient'] = self.prim
        if cfg['zip']:
            props['zip_file'] = 'all files.zip'
        if cfg['csubj']:
            props['cancel_subject'] = 'RETRACTED'
        if cfg['ccont']:
            props['cancel_content'] = self.ctext['cancelprop']
        # files: names with '/' live in the local directory
        self.bytes = {}
        lf, ld = [], None
        for f in cfg['layout']:
            data = self.data(f['path'], f['c'])
            if f['tree']:
                # a directory whose own path recurs below itself
                ld = os.path.join(scratch, 'dir', 'dir')
                mkfile(os.path.join(ld, f['path']), data)
            else:
                p = os.path.join(scratch, 'flat', f['path'])
                mkfile(p, data)
                lf.append(p)
        if ld and self.v % 2:
            ld = os.path.relpath(ld)
        self.given = (props['recipients'], props['smtp_servers'])
        self.was = tuple(list(g) for g in self.given)
        self.sender = EmailSender(properties=props, local_files=lf or None, local_directory=ld)
        self.s = [0] * len(cfg['rcpts'])
        self.k = [0] * len(cfg['rcpts'])

    def data(self, path, c):
        if path.lower().endswith(('.txt', '.xml', '.html')):
            d = b'caf\xe9 in another encoding\n' if c == 5 else ('line %d of é\ntext %s\n' % (c, '.' * c) * (c + 1)).encode()
        elif c == 0:
            d = b''
        else:
            d = bytes((i * 7 + c) % 256 for i in range(997 * c))
        self.bytes[d] = c
        self.bytes[norm(d.decode('utf-8', 'ignore')).encode()] = self.bytes.get(
            norm(d.decode('utf-8', 'ignore')).encode(), c)
        return d

    def cid(self, b, text=False):
        if text and b not in self.bytes:
            b = norm(b.decode('utf-8', 'replace')).encode()
        return self.bytes.get(b, -1)

    def state(self):
        return {'cfg': self.cfg, 'modes': self.modes, 's': list(self.s), 'k': list(self.k)}

    def parse(self, raw, nmsg):
        srv, sender, rcpts, body = raw
        m = email.message_from_bytes(body, policy=email.policy.default)
        out = {'srv': srv + 1, 'to': [], 'prim': False, 'zip': False, 'files': [], 'shown': []}
        dup = 0
        for a in rcpts:
            if a == self.prim and not (self.cfg['maxbcc'] == 0):
                out['prim'] = True
            elif a in self.rev and self.rev[a] not in out['to']:
                out['to'].append(self.rev[a])
            else:
                dup += 1
        out['from'] = 'sender' if sender == 'mrslate@quarry.org' and str(m['From']) == 'mrslate@quarry.org' else '?'
        subj = str(m['Subject'])
        out['subject'] = {self.subj.split(): 'subject'}.get(subj.split()) if False else (
            'subject' if ' '.join(subj.split()) == ' '.join(self.subj.split()) else
            'cancelsubject' if subj == 'RETRACTED' else '?')
        texts = {norm(self.text): 'message', norm(self.ctext['cancelprop']): 'cancelprop',
                 norm(self.ctext['cancelarg']): 'cancelarg', 'This is a cancel message.': 'cancelstd'}
        # who can a recipient see?
        head = ' '.join('%s: %s' % (k, v) for k, v in m.items())
        everything = body.decode('utf-8', 'replace')
        out['shown'] = sorted(r for r, a in self.addr.items() if a in head or a in everything)
        parts = [m] if not m.is_multipart() else list(m.iter_parts())
        bodies = []
        for p in parts:
            if p.get_content_disposition() == 'attachment':
                fn = p.get_filename()
                raw = p.get_payload(decode=True)
                if fn == 'all files.zip':
                    out['zip'] = True
                    z = zipfile.ZipFile(io.BytesIO(raw))
                    if len(set(z.namelist())) != len(z.namelist()):
                        dup += 1
                    for n in z.namelist():
                        out['files'].append({'n': n, 'c': self.cid(z.read(n))})
                else:
                    if p.get_content_maintype() == 'text':
                        out['files'].append({'n': fn, 'c': self.cid(raw, text=True)})
                    else:
                        out['files'].append({'n': fn, 'c': self.cid(raw)})
            else:
                b = p.get_payload(decode=True)
                bodies.append(norm(b.decode(p.get_content_charset() or 'ascii', 'replace')))
        out['body'] = texts.get(bodies[0], '?') if len(bodies) == 1 else '?'
        names = [f['n'] for f in out['files']]
        if len(out['files']) != len(self.cfg['files']) and names and len({(f['n'], f['c']) for f in out['files']}) != len(names):
            dup += 1
        return out, dup

    def do(self, c):
        if c['op'] == 'modes':
            self.modes = c['m']
            self.srv.modes = list(c['m'])
            return {'ok': True}
        before = len(self.srv.mail)
        r = {'ok': True, 'n': 0}
        try:
            if c['op'] == 'send':
                n, msg = self.sender.send()
                r['n'] = n if isinstance(msg, str) else -1
            elif c['arg']:
                r['n'] = 1 if isinstance(self.sender.cancel(cancel_content=self.ctext['cancelarg']), str) else -1
            else:
                r['n'] = 1 if isinstance(self.sender.cancel(), str) else -1
        except Exception as e:
            r = {'ok': False, 'n': 0, 'exc': type(e).__name__, 'msg': str(e)[:300]}
        new = self.srv.mail[before:]
        r['msgs'], r['dup'] = [], 0
        if tuple(list(g) for g in self.given) != self.was:
            r['dup'] += 1           # the caller's lists have been changed
        for raw in new:
            m, d = self.parse(raw, len(new))
            r['msgs'].append(m)
            r['dup'] += d
            for x in m['to']:
                i = self.cfg['rcpts'].index(x)
                if c['op'] == 'send':
                    self.s[i] += 1
                else:
                    self.k[i] += 1
        return r

    def close(self):
        self.srv.close()
