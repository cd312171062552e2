import os
import random
import signal
import threading

from impactutils.io.cmd import get_command_output


def runs(data):
    assert isinstance(data, bytes)
    out, k = [], 0
    while k < len(data):
        b = data[k:k + 1]
        n = len(data) - k - len(data[k:].lstrip(b))
        out.append([b[0], n])
        k += n
    return out


class Driver(object):
    def __init__(self, sess, scratch):
        self.rnd = random.Random(sess.get('seed', 0))
        # what this was started from may have it ignore signals, and those it starts inherit that
        for k in range(1, 16):
            if signal.getsignal(k) is signal.SIG_IGN and k != signal.SIGPIPE:
                signal.signal(k, signal.SIG_DFL)
        signal.pthread_sigmask(signal.SIG_SETMASK, [])
        self.log = os.path.join(scratch, 'a log')
        self.say = os.path.join(scratch, 'say')
        os.mkdir(self.say)
        self.made = {}
        self.slow = sess.get('slow', 0)

    def state(self):
        return {'log': os.path.getsize(self.log) if os.path.exists(self.log) else 0}

    def put(self, r, where):
        if not r or not r[1]:
            return ''
        name = os.path.join(self.say, '%d' % (self.made.setdefault(tuple(r), len(self.made))))
        if not os.path.exists(name):
            with open(name, 'wb') as f:
                f.write(bytes(r[:1]) * r[1])
        if r[1] < 20 and r[0] in b'ab' and self.rnd.random() < 0.5:
            return "printf '%%s' '%s'%s; " % (chr(r[0]) * r[1], where)
        return self.rnd.choice(["cat %s%s; ", "cat < %s%s; "]) % (name, where)

    def part(self, p):
        s = [self.put(p['out'], ''), self.put(p['err'], ' 1>&2')]
        self.rnd.shuffle(s)
        s = ''.join(s)
        if p['mark']:
            s += "printf x >> '%s'; " % self.log
        if p['x'] < 0:
            s += 'kill -%d $$; ' % -p['x']
        elif p['x'] == 127:
            s += "no-such-command-here 'a b' 2>/dev/null; "
        else:
            s += self.rnd.choice(['(exit %d); ', 'sh -c "exit %d"; ']) % p['x']
        return '{ %s}' % s

    def text(self, ps):
        out = ''
        for p in ps:
            out += (' %s ' % p['join'] if out else '') + self.part(p)
        return out

    def do(self, c):
        res = [None] * len(c['progs'])
        texts = [('sleep %d; ' % self.slow if self.slow else '') + self.text(p) for p in c['progs']]

        def one(k):
            ok, out, err = get_command_output(texts[k])
            assert ok is True or ok is False
            res[k] = {'ok': ok, 'out': runs(out), 'err': runs(err)}
        if len(res) == 1:
            one(0)
        else:
            ts = [threading.Thread(target=one, args=(k,)) for k in range(len(res))]
            [t.start() for t in ts]
            [t.join() for t in ts]
        return res
