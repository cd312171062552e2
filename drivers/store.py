"""HDFContainerBase and the deprecated HDFContainer driven as typed stores."""
import datetime
import math
import os
import random

import numpy as np
import pandas as pd

from impactutils.io.container import HDFContainer
from impactutils.io.smcontainers import HDFContainerBase, ShakeMapOutputContainer

NAMES = [['a', 'b', 'c', 'd', 'e', 'f', 'g', 'h', 'i', 'j'], ['a b', 'é', 'x.json', 'Ω', 'A', 'E', 'é ', 'a  b', 'a b ', 'aa'],
         ['info.json', 'mean', 'imts', '0', '00', 'Mean', 'info', '1', '-', 'x' * 300]]


def rstr(rnd):
    return ''.join(rnd.choice('ab "\\\'\n\té–😀{}[]/0\x01') for _ in range(rnd.randrange(0, 12)))


def rjson(rnd, depth=0):
    x = rnd.random()
    if depth > 2 or x < 0.5:
        return rnd.choice([None, True, False, 0, -1, 2 ** 53, 1.5, -1e-300, 1e308, 0.1, float('inf'), rstr(rnd), '', 'NaN', '\ud83d', 2 ** 70, -2 ** 63, 1 / 3, 123456789.123456789])
    if x < 0.7:
        return [rjson(rnd, depth + 1) for _ in range(rnd.randrange(4))]
    return {rstr(rnd): rjson(rnd, depth + 1) for _ in range(rnd.randrange(4))}


def rarray(rnd, scalar_ok):
    dt = rnd.choice(['f8', 'f4', 'i8', 'i4', 'u1', '?', 'c16', '>i2', 'S5', 'f2', 'u8', '>f8'])
    shape = rnd.choice([(3,), (2, 3), (1,), (4, 1, 2), (0,), (0, 3), (50, 40), ()] if scalar_ok else [(3,), (2, 3), (1,), (50, 40)])
    if dt == 'S5' and not shape:
        shape = (2,)
    n = int(np.prod(shape))
    if dt == 'S5':
        a = np.array([rnd.choice([b'a', b'abc', b'', b'abcde']) for _ in range(n)], dtype='S5').reshape(shape)
    else:
        a = np.array([rnd.randrange(0, 250) for _ in range(n)]).astype(dt).reshape(shape)
        if dt in ('i8', 'u8') and n and shape:
            a.flat[-1] = 2 ** 62 + 1
        if dt in ('f8', 'f4', '>f8') and n:
            a = a / np.array(7, dtype=dt)
            a = a.astype(dt)
            if shape:
                a.flat[0] = rnd.choice([np.nan, np.inf, -0.0, 1e-30, 3])
    k = rnd.random()
    if k < 0.1:
        a = a.T
    elif k < 0.2 and a.ndim:
        a = a[::-1]
    elif k < 0.3:
        a.setflags(write=False)
    meta = {}
    if rnd.random() < 0.15:       # many of them
        meta = {'key %d' % i: rnd.choice([i, 'v%d' % i, i / 3]) for i in range(rnd.randrange(6, 30))}
    for _ in range(rnd.randrange(4)):
        meta[rnd.choice(['units', 'nx', 'é', 'digits', 'a b', 'x', ' x', 'x ', 'Units', 'a/b', '.'])] = rnd.choice(
            ['ln(g)', 'é', 3, -2.5, True, [1, 2, 3], 'x' * 200, np.arange(4.0), 2 ** 40, '', ' km ', 1 / 3, '12', 'true'])
    return a, meta


def rframe(rnd):
    n = rnd.randrange(1, 5)
    d = {}
    for i in range(rnd.randrange(1, 5)):
        nm = rnd.choice(['Time', 'ID', 'Number', 'timestamp', 'modified', 'x_at', 'date', 'é', 'a b'])
        t = rnd.choice('sifbt')
        if t == 's':
            d[nm] = [rnd.choice(['001', '12', 'thing', 'é', '', '2001-01-01', '1.5', 'true']) for _ in range(n)]
        elif t == 'i':
            d[nm] = [rnd.randrange(-2 ** 40, 2 ** 40) for _ in range(n)]
        elif t == 'f':
            d[nm] = [rnd.choice([1.0, 12.34, -0.001, 1e10, 100.0, float('nan')]) for _ in range(n - 1)] + [2.5]
        elif t == 'b':
            d[nm] = [rnd.random() < 0.5 for _ in range(n)]
        else:
            d[nm] = [datetime.datetime(rnd.randrange(1900, 2100), 3, 4, 5, 6, 7, 1000 * rnd.randrange(1000)) for _ in range(n)]
    return pd.DataFrame(d)


def same(a, b):
    """is b what a must read back as"""
    if isinstance(a, dict):
        return isinstance(b, dict) and list(a) == list(b) and all(same(a[k], b[k]) for k in a)
    if isinstance(a, (list, tuple)):
        return isinstance(b, list) and len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if isinstance(a, float) and isinstance(b, float):
        return a == b and math.copysign(1, a) == math.copysign(1, b) or (math.isnan(a) and math.isnan(b))
    return type(a) is type(b) and a == b


def same_array(a, b):
    (x, m), (y, n) = a, b
    y = np.asarray(y)
    if x.shape == () and x.dtype.newbyteorder('=') == y.dtype:
        x = x.astype(y.dtype)
    if x.dtype != y.dtype or x.shape != y.shape or x.tobytes() != y.tobytes():
        return False
    if sorted(m) != sorted(n):
        return False
    for k in m:
        v, w = m[k], n[k]
        if isinstance(v, str):
            if not isinstance(w, str) or v != w:
                return False
        elif not (np.asarray(v).shape == np.asarray(w).shape and np.all(np.asarray(v) == np.asarray(w))):
            return False
    return True


def same_frame(a, b):
    if list(a.columns) != list(b.columns) or len(a) != len(b) or list(a.index) != list(b.index):
        return False
    for c in a.columns:
        x, y = a[c], b[c]
        if pd.api.types.is_datetime64_any_dtype(x):
            if not pd.api.types.is_datetime64_any_dtype(y) or list(x) != list(y):
                return False
        elif x.dtype.kind == 'f':
            if y.dtype.kind != 'f' or not all((math.isnan(p) and math.isnan(q)) or abs(p - q) <= 1e-10 for p, q in zip(x, y)):
                return False
        elif x.dtype.kind != y.dtype.kind or list(x) != list(y):
            return False
    return True


class Driver(object):
    def __init__(self, sess, scratch):
        self.rnd = random.Random(sess.get('seed', 0))
        v = sess.get('variant', 0)
        self.flat = sess.get('flat', False)
        self.names = dict(zip('abcdefghij', NAMES[v % len(NAMES)]))
        self.unname = {w: k for k, w in self.names.items()}
        self.simple = v % 3 == 0
        self.path = os.path.join(scratch, 'data file.hdf')
        self.cls = HDFContainer if self.flat else [HDFContainerBase, ShakeMapOutputContainer][v % 2]
        self.c = self.cls.create(self.path)
        self.other = self.cls.create(os.path.join(scratch, 'other.hdf'))   # a second container, which must stay empty
        self.vals = {}       # (kind, token) -> value as it must read back
        self.groups = []
        self.held = []
        self.loose = False
        for i in range(2):
            self.unrelated = True

    # -- values ----------------------------------------------------------
    def value(self, kind, v):
        if (kind, v) not in self.vals:
            while True:
                r = self.rnd
                if kind == 'string':
                    x = rstr(r)
                elif kind == 'dict':
                    x = {rstr(r): rjson(r) for _ in range(r.randrange(4))}
                elif kind == 'list':
                    x = [rjson(r) for _ in range(r.randrange(4))]
                elif kind == 'array':
                    x = rarray(r, self.cls is not None)
                else:
                    x = rframe(r)
                if not any(k == kind and self.eq(kind, y, x) for (k, _), y in self.vals.items()):
                    break
            self.vals[(kind, v)] = x
        return self.vals[(kind, v)]

    @staticmethod
    def eq(kind, a, b):
        try:
            if kind == 'array':
                return same_array(a, b)
            if kind == 'frame':
                return same_frame(a, b)
            return same(a, b)
        except Exception:
            return False

    def token(self, kind, x):
        for (k, v), y in self.vals.items():
            if k == kind and self.eq(kind, y, x):
                return v
        return 99

    # -- the API ----------------------------------------------------------
    N = {'dict': ('Dictionary', 'Dictionaries'), 'list': ('List', 'Lists'), 'array': ('Array', 'Arrays'),
         'string': ('String', 'Strings'), 'frame': ('DataFrame', 'DataFrames')}

    def loc(self, p):
        q = [self.names[x] for x in p]
        return (q[-1],) if self.flat else (q[:-1], q[-1])

    def put(self, kind, p, x, bad):
        f = getattr(self.c, 'set' + self.N[kind][0])
        if kind == 'array':
            a, m = x
            a, m = a.copy(), dict(m)
            comp = len(a.shape) > 0 and self.rnd.random() < 0.7
            if bad == 'value':
                a = np.array(['a', None], dtype=object)
            elif bad == 'meta':
                m = dict(m)
                m['zz'] = self.rnd.choice([{'nested': 1}, 'a\0b', np.zeros(9000)])
            f(*self.loc(p), a, metadata=m or None, compression=comp)
            self.held.append((a, m))
        else:
            if bad:
                if kind == 'string':
                    x = self.rnd.choice(['a\0b', 'x\0', '\ud800', 5])
                elif kind == 'dict':
                    x = {'a': 1, 'b': self.rnd.choice([{1}, b'x', object(), np.float32(1)])} if self.rnd.random() < 0.7 else {'a': 1, (1, 2): 3}
                elif kind == 'list':
                    x = [1, self.rnd.choice([{1}, b'x', object()])]
                else:
                    x = self.rnd.choice([[1, 2], None])
            elif kind == 'dict':
                import copy
                x = copy.deepcopy(x)
                self.held.append(x)
            f(*self.loc(p), x)

    def get(self, kind, p):
        return getattr(self.c, 'get' + self.N[kind][0])(*self.loc(p))

    def kinds(self):
        return ['dict', 'list', 'array', 'string', 'frame'] if self.flat else ['dict', 'array', 'string']

    def state(self):
        ents = []
        for k in self.kinds():
            names = getattr(self.c, 'get' + self.N[k][1])()
            for n in names:
                parts = [n] if self.flat else n.split('/')
                p = [self.unname.get(x, x) for x in parts]
                try:
                    x = getattr(self.c, 'get' + self.N[k][0])(*((n,) if self.flat else (parts[:-1], parts[-1])))
                    v = self.token(k, x)
                except Exception:
                    v = 98
                if any(e['k'] == k and e['p'] == p for e in ents):
                    v = 97
                ents.append({'k': k, 'p': p, 'v': v})
            for n in getattr(self.other, 'get' + self.N[k][1])():
                ents.append({'k': k, 'p': ['other container', n], 'v': 96})
        return {'ents': ents, 'groups': self.groups}

    def do(self, c):
        r = {'ok': True, 'v': 0, 'lookup': False}
        op = c['op']
        try:
            if op == 'set':
                for i in range(1, len(c['p'])):
                    g = {'k': c['k'], 'p': c['p'][:i]}
                    if g not in self.groups:
                        self.groups = self.groups + [g]
                self.put(c['k'], c['p'], self.value(c['k'], c['v']), c['bad'])
            elif op == 'get':
                r['v'] = self.token(c['k'], self.get(c['k'], c['p']))
            elif op == 'drop':
                getattr(self.c, 'drop' + self.N[c['k']][0])(*self.loc(c['p']))
            elif op == 'reopen':
                self.c.close()
                self.c = self.cls.load(self.path)
                if self.c.getFileName() != self.path:
                    r['v'] = 95
            elif op == 'missing':
                gone = os.path.join(os.path.dirname(self.path), 'not there.hdf')
                try:
                    self.cls.load(gone).close()
                finally:
                    if os.path.exists(gone):
                        r['made'] = True
                        r['ok'] = True
                        r['v'] = 94
            elif op == 'create':
                self.c.close()
                self.c = self.cls.create(self.path)
                self.groups = []
            elif op == 'meddle':
                # what the caller does with objects it handed in or got back is its own business
                for k in self.kinds():
                    for n in getattr(self.c, 'get' + self.N[k][1])():
                        parts = [n] if self.flat else n.split('/')
                        x = getattr(self.c, 'get' + self.N[k][0])(*((n,) if self.flat else (parts[:-1], parts[-1])))
                        self.spoil(x)
                for x in self.held:
                    self.spoil(x)
                self.held = []
        except Exception as e:
            r['ok'] = r.get('made', False)
            r['lookup'] = isinstance(e, LookupError)
            r['exc'] = '%s: %s' % (type(e).__name__, str(e)[:100])
        return r

    @staticmethod
    def spoil(x):
        if isinstance(x, tuple):
            a, m = x
            m['spoilt'] = 1
            if isinstance(a, np.ndarray) and a.dtype.kind != 'S':
                a[...] = 1
        elif isinstance(x, dict):
            x.clear()
            x['spoilt'] = True
        elif isinstance(x, list):
            x.append('spoilt')
        elif isinstance(x, pd.DataFrame):
            x['spoilt'] = 1

    def close(self):
        for c in (self.c, self.other):
            try:
                c.close()
            except Exception:
                pass
