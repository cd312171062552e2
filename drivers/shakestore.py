import copy
import os
import random

import numpy as np

from drivers.store import rjson, rstr, same, same_array
from impactutils.io.smcontainers import ShakeMapOutputContainer

SET = {'config': 'setConfig', 'rupture': 'setRuptureDict', 'stations': 'setStationDict', 'history': 'setVersionHistory', 'info': 'setMetadata'}
GET = {k: 'g' + v[1:] for k, v in SET.items()}
NAMES = [{'C1': 'Larger', 'C2': 'RotD50', 'C3': 'GREATER_OF_TWO_HORIZONTAL', 'I1': 'PGA', 'I2': 'SA(0.3)', 'I3': 'MMI'},
         {'C1': 'PGA', 'C2': 'a b', 'C3': 'é', 'I1': 'PGA', 'I2': 'PGV', 'I3': 'a b'},
         {'C1': 'rotd50', 'C2': 'rotd5', 'C3': 'rotd', 'I1': 'mean', 'I2': 'std', 'I3': 'imts'}]
for _i, _n in enumerate(NAMES):
    for _k, _l in (('C', ['ROTD50', 'Larger2', 'x', 'GEOMETRIC_MEAN', 'h1']), ('I', ['SA(1.0)', 'SA(10.0)', 'SA(3.0)', 'pga', 'IA', 'PGA2', 'stations', 'PGD', 'PSA_0.3'])):
        for _j, _x in enumerate(_l):
            _n['%s%d' % (_k, _j + 4)] = _x


class Driver(object):
    def __init__(self, sess, scratch):
        self.rnd = random.Random(sess.get('seed', 0))
        self.names = NAMES[sess.get('variant', 0) % len(NAMES)]
        self.unc = {v: k for k, v in self.names.items() if k[0] == 'C'}
        self.uni = {v: k for k, v in self.names.items() if k[0] == 'I'}
        self.path = os.path.join(scratch, 'shake.hdf')
        self.c = ShakeMapOutputContainer.create(self.path)
        self.dicts, self.layers = {}, {}
        self.held, self.history = [], None
        self.base = sess.get('base', 0)
        if self.base:
            # unrelated entries that live in the same file
            self.c.setDictionary(['mine'], 'x', {'a': 1})
            self.c.setArray(['mine', 'deep'], 'x', np.arange(3))
            self.c.setString([], 'imts', 'x')

    # -- values -----------------------------------------------------------
    def dict_value(self, s, v):
        if v not in self.dicts:
            while True:
                x = {rstr(self.rnd): rjson(self.rnd) for _ in range(self.rnd.randrange(0, 5))}
                if self.rnd.random() < 0.2:
                    # equal in Python, but another value: 1, 1.0, True; or in another order
                    x = self.rnd.choice([{'a': 1, 'b': [0]}, {'a': True, 'b': [0]}, {'a': 1.0, 'b': [0]}, {'a': 1, 'b': [False]}, {'b': [0], 'a': 1}])
                if not any(same(x, y) for y in self.dicts.values()):
                    break
            self.dicts[v] = x
        return self.dicts[v]

    def layer(self, t, v):
        if (t, v) not in self.layers:
            r = self.rnd
            shape = r.choice([(4, 5), (1, 1), (30, 20)]) if t == 'grid' else r.choice([(5,), (1,), (40,)])
            n = int(np.prod(shape))

            def arr():
                a = np.array([r.uniform(-10, 10) for _ in range(n)]).reshape(shape)
                if r.random() < 0.3:
                    a.flat[r.randrange(n)] = np.nan
                a = a.astype(r.choice(['f8', 'f4', '>f4', 'f8']))
                x = r.random()
                if x < 0.1:
                    a = np.asfortranarray(a)
                elif x < 0.2:
                    a = a[::-1]
                elif x < 0.25:
                    a = np.floor(np.nan_to_num(a)).astype(r.choice(['i8', 'i2']))
                return a
            x = {'mean': arr(), 'std': arr()}
            if t == 'points':
                x['lons'], x['lats'] = arr(), arr()
                x['ids'] = np.array([('ID%d%s' % (k, r.choice(['', 'xx']))).encode() for k in range(n)])
            for m in ('mean', 'std'):
                x[m + '_metadata'] = {k: r.choice(['ln(g)', 3, -2.5, 'é']) for k in r.sample(['units', 'nx', 'xmin', 'digits', 'é'], r.randrange(4))}
                if r.random() < 0.15:
                    x[m + '_metadata'].update(('key %d' % k, r.choice([k, k / 7, 'v%d' % k])) for k in range(r.randrange(7, 25)))
            self.layers[(t, v)] = x
        return self.layers[(t, v)]

    def layer_token(self, t, d):
        for (tt, v), x in self.layers.items():
            if tt == t and sorted(x) == sorted(d):
                ok = True
                for k in x:
                    if k.endswith('metadata'):
                        ok = ok and sorted(x[k]) == sorted(d[k]) and all(x[k][q] == d[k][q] for q in x[k])
                    else:
                        ok = ok and same_array((x[k], {}), (d[k], {}))
                if ok:
                    return v
        return 99

    def dict_token(self, s, d):
        if d == {} and s == 'history' and self.history != {}:
            return 0                       # never set
        for v, x in self.dicts.items():
            if same(x, d):
                return v
        return 99

    # -- observation --------------------------------------------------------
    def slots(self):
        out = {}
        for s in SET:
            try:
                out[s] = self.dict_token(s, getattr(self.c, GET[s])())
            except (AttributeError, LookupError):
                out[s] = 0
        return out

    def state(self):
        t = self.c.getDataType()
        imts = []
        for n in self.c.getIMTs():
            c, i = n.split('/')
            try:
                d = (self.c.getIMTGrids if t == 'grid' else self.c.getIMTArrays)(i, c)
                v = self.layer_token(t, d)
            except Exception:
                v = 97
            imts.append({'c': self.unc.get(c, c), 'i': self.uni.get(i, i), 'v': v})
        base = self.base
        if base:
            try:
                assert self.c.getDictionary(['mine'], 'x') == {'a': 1}
                assert list(self.c.getArray(['mine', 'deep'], 'x')[0]) == [0, 1, 2]
                assert self.c.getString([], 'imts') == 'x'
            except Exception:
                base = 99
        return {'slots': self.slots(), 'dtype': t or '', 'imts': imts, 'base': base}

    def views(self):
        u = lambda c, i: [self.unc.get(c, c), self.uni.get(i, i)]
        comps = self.c.getComponents()
        allp = [u(*n.split('/')) for n in self.c.getIMTs()]
        byc = [u(c, i) for c in comps for i in self.c.getIMTs(component=c)]
        byi = []
        for i in (k for k in self.names if k[0] == 'I'):
            for c in self.c.getComponents(self.names[i]):
                byi.append(u(c, self.names[i]))
        return {'all': allp, 'bycomp': byc, 'byimt': byi, 'comps': [self.unc.get(c, c) for c in comps]}

    # -- calls ----------------------------------------------------------------
    def do(self, c):
        r = {'ok': True, 'v': 0, 'exc': ''}
        try:
            r['v'] = self.call(c) or 0
        except Exception as e:
            r['ok'] = False
            r['exc'] = 'LookupError' if isinstance(e, LookupError) else type(e).__name__
            r['msg'] = str(e)[:120]
        try:
            r['views'] = self.views()
        except Exception as e:
            r['views'] = {'all': [['listing failed', repr(e)[:80]]], 'bycomp': [], 'byimt': [], 'comps': []}
        return r

    def call(self, c):
        op = c['op']
        rnd = self.rnd
        if op == 'put':
            x = copy.deepcopy(self.dict_value(c['s'], c['v']))
            if c['bad'] == 'type':
                x = rnd.choice([[1, 2], 'text', None, [('a', 1)]])
            elif c['bad'] == 'json':
                x['bad'] = rnd.choice([{1}, b'x', object()])
            self.held.append(x)
            getattr(self.c, SET[c['s']])(x)
            if c['s'] == 'history':
                self.history = copy.deepcopy(x)
        elif op == 'take':
            return self.dict_token(c['s'], getattr(self.c, GET[c['s']])())
        elif op in ('setgrid', 'setpoints'):
            t = op[3:]
            x = copy.deepcopy(self.layer(t, c['v']))
            if c['bad'] == 'value':
                k = rnd.choice(['std', 'mean'] if t == 'grid' else ['ids', 'std'])
                x[k] = np.array(['U'] * x[k].size).reshape(x[k].shape)
            elif c['bad'] == 'meta':
                k = rnd.choice(['mean_metadata', 'std_metadata'])
                x[k] = dict(x[k], zz=rnd.choice([{'a': 1}, 'a\0b', np.zeros(9000), object()]))
            elif c['bad'] == 'shape':
                k = rnd.choice(['lons', 'lats', 'ids', 'mean', 'std'])
                x[k] = rnd.choice([np.concatenate([x[k], x[k][:1]]), x[k].reshape(-1, 1), x[k].reshape(1, -1)])
            comp = rnd.random() < 0.5
            cc, ii = self.names[c['c']], self.names[c['i']]
            if t == 'grid':
                self.c.setIMTGrids(ii, x['mean'], x['mean_metadata'], x['std'], x['std_metadata'], cc, compression=comp)
            else:
                self.c.setIMTArrays(ii, x['lons'], x['lats'], x['ids'], x['mean'], x['mean_metadata'], x['std'], x['std_metadata'],
                                    cc, compression=comp)
            self.held.append(x)
        elif op in ('getgrid', 'getpoints'):
            f = self.c.getIMTGrids if op == 'getgrid' else self.c.getIMTArrays
            return self.layer_token(op[3:], f(self.names[c['i']], self.names[c['c']]))
        elif op == 'drop':
            self.c.dropIMT(self.names[c['i']])
        elif op == 'declare':
            self.c.setDataType(c['t'])
        elif op == 'reopen':
            self.c.close()
            self.c = ShakeMapOutputContainer.load(self.path)
        elif op == 'meddle':
            objs = self.held
            self.held = []
            for s in SET:
                try:
                    objs.append(getattr(self.c, GET[s])())
                except (AttributeError, LookupError):
                    pass
            t = self.c.getDataType()
            for n in self.c.getIMTs():
                cc, ii = n.split('/')
                objs.append((self.c.getIMTGrids if t == 'grid' else self.c.getIMTArrays)(ii, cc))
            for x in objs:
                if isinstance(x, dict):
                    for k in x:
                        if isinstance(x[k], np.ndarray) and x[k].dtype.kind == 'f':
                            x[k][...] = 0
                        elif isinstance(x[k], dict):
                            x[k]['spoilt'] = 1
                    x['spoilt'] = 1
        return 0

    def close(self):
        try:
            self.c.close()
        except Exception:
            pass
