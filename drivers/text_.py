import random
from decimal import Decimal

from drivers.common import exc_kind
from impactutils.textformat import text


def parts(v):
    """a number as m * 10^e, m not ending in 0"""
    if isinstance(v, bool) or not isinstance(v, (int, float)):
        try:
            v = v.item()
        except AttributeError:
            return 0, 999
    d = Decimal(repr(v)) if isinstance(v, float) else Decimal(v)
    if not d.is_finite():
        return 0, 998
    s, ds, e = d.as_tuple()
    m = int(''.join(map(str, ds)))
    if m == 0:
        return 0, 0
    while m % 10 == 0:
        m, e = m // 10, e + 1
    if m >= 1 << 31:
        return 1, 997
    return (-m if s else m), e


class Driver(object):
    def __init__(self, sess, scratch):
        self.rnd = random.Random(sess.get('seed', 0))
        self.last = ''

    def state(self):
        return {'last': self.last}

    def number(self, m, e):
        if e >= 0:
            v = m * 10 ** e
            return self.rnd.choice([v, float(v)])
        return float('%de%d' % (m, e))

    def run(self, c, res):
        op, r = c['op'], self.rnd
        if op == 'roman':
            v = text.dec_to_roman(c['n'])
        elif op == 'commify':
            s = ''.join(c['s'])
            x = s
            if r.random() < 0.5:
                for kind in (int, float):
                    try:
                        x = kind(s) if str(kind(s)) == s else x
                    except ValueError:
                        pass
            v = text.commify(x) if c['sep'] == ',' and r.random() < 0.5 else text.commify(x, c['sep'])
        elif op == 'again':
            v = text.commify(self.last)
        elif op == 'precision':
            x = self.number(c['m'], c['e'])
            v = text.set_num_precision(x, c['digits']) if c['mode'] == 'int' and r.random() < 0.5 else text.set_num_precision(x, c['digits'], mode=c['mode'])
            if c['mode'] == 'int' and not isinstance(v, int):
                raise AssertionError('not an int')
        elif op == 'dollars':
            x = self.number(c['m'], c['e'])
            kw = {k: w for k, w, d in (('digits', c['digits'], 2), ('mode', c['mode'], 'short')) if w != d or r.random() < 0.5}
            v = text.dollar_round(x, **kw)
        elif op == 'pop':
            v = text.pop_round(r.choice([c['n'], float(c['n'])]))
        elif op == 'short':
            v = text.pop_round_short(r.choice([c['n'], float(c['n'])]), **({'usemillion': c['million']} if c['million'] or r.random() < 0.5 else {}))
        else:
            f = {'round': text.round_to_nearest, 'floor': text.floor_to_nearest, 'ceil': text.ceil_to_nearest}[op]
            k = c['k']
            x, u = self.number(c['v'], -k), self.number(c['unit'], -k)
            if c['unit'] >= 10 ** k:
                u = int(u) if c['unit'] % 10 ** k == 0 else u
            v = f(x) if u == 1000 and r.random() < 0.5 else f(x, **{op + '_value': u})
        if op in ('precision', 'round', 'floor', 'ceil'):
            res['m'], res['e'] = parts(v)
        else:
            res['text'] = v if isinstance(v, str) else '?' + str(v)
            if op == 'pop' or op == 'commify' and c['sep']:
                self.last = res['text']

    def do(self, c):
        res = {'ok': True, 'exc': '', 'text': '', 'm': 0, 'e': 0}
        try:
            self.run(c, res)
        except Exception as e:
            res.update(ok=False, exc=exc_kind(e))
        return res
