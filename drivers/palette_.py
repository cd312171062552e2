import json
import math
import os
import random

import numpy as np
import pandas as pd
from matplotlib.colors import Colormap, ListedColormap

from impactutils.colors.cpalette import ColorPalette

NODATA = 9999999


class Driver(object):
    def __init__(self, sess, scratch):
        self.rnd = random.Random(sess.get('seed', 0))
        self.pals = sess['consts']['pals']
        self.dir = scratch
        self.cp, self.k = None, 0

    def tick(self, v):
        u = self.pals[self.k - 1]['unit']
        n = round(float(v) * u)
        return n if abs(n - float(v) * u) < 1e-6 else 8888888

    def state(self):
        if self.cp is None:
            return {'there': False, 'pal': 0, 'lo': 0, 'hi': 0}
        return {'there': True, 'pal': self.k, 'lo': self.tick(self.cp.vmin), 'hi': self.tick(self.cp.vmax)}

    def value(self, v):
        p = self.pals[self.k - 1]
        if v == NODATA:
            return float('nan')
        x = v / p['unit']
        return math.exp(min(x, 700)) if p['log'] else x

    def do(self, c):
        res = {'ok': True, 'exc': '', 'n': []}
        try:
            getattr(self, c['op'])(c, res)
        except Exception as e:
            res.update(ok=False, exc=type(e).__name__)
        return res

    def seq(self, xs, deep=False):
        kind = self.rnd.choice(['list', 'tuple', 'array', 'series'])
        xs = [x for x in xs]
        if deep:
            xs = [tuple(x) if self.rnd.random() < 0.5 else list(x) for x in xs]
            return tuple(xs) if kind == 'tuple' else np.array(xs) if kind == 'array' else xs
        return tuple(xs) if kind == 'tuple' else np.array(xs) if kind == 'array' else pd.Series(xs) if kind == 'series' else xs

    def make(self, c, res):
        if c['k'] > len(self.pals):
            ColorPalette.fromPreset('rainbow')
            return
        p = self.pals[c['k'] - 1]
        z = [v / p['unit'] if v % p['unit'] else v // p['unit'] for v in p['zs']]
        parts = {'z0': z[:-1], 'z1': z[1:], 'rgb0': p['c0'], 'rgb1': p['c1']}
        for s in c['short'].split('+'):
            if s.startswith('-'):
                parts[s[1:]] = parts[s[1:]][1:]
            elif s:
                parts[s] = parts[s][:-1]
        kw = {}
        if p['res'] or self.rnd.random() < 0.5:
            kw['resolution'] = p['res'] / p['unit'] if p['res'] else None
        nan = p['nan']
        if nan == [nan[0]] * 4 and (nan[0] == 0 or self.rnd.random() < 0.5):
            if nan[0] or self.rnd.random() < 0.5:
                kw['nan_color'] = nan[0]
        else:
            kw['nan_color'] = self.rnd.choice([tuple, list, np.array])(nan)
        if p['log'] or self.rnd.random() < 0.3:
            kw['is_log'] = p['log']
        name = self.rnd.choice(['mine', 'x y', 'mmi'])
        before = None
        if p['how'] == 'preset':
            cp = ColorPalette.fromPreset(p['name'])
        elif p['how'] == 'file':
            path = os.path.join(self.dir, 'p.cpt')
            with open(path, 'w') as f:
                f.write('#This file is a test file.\n')
                if kw.get('nan_color') is not None:
                    f.write('#$nan_color: %s\n' % self.rnd.choice([',', ', ']).join(str(x) for x in nan))
                f.write('#$name: test\n')
                if p['res']:
                    f.write('#$resolution: %s\n' % kw['resolution'])
                cols = ['Z0', 'R0', 'G0', 'B0', 'Z1', 'R1', 'G1', 'B1']
                if self.rnd.random() < 0.3:
                    cols = cols[4:] + cols[:4]
                f.write(' '.join(cols) + '\n')
                for k in range(len(p['c0'])):
                    row = dict(zip(['Z0', 'R0', 'G0', 'B0', 'Z1', 'R1', 'G1', 'B1'], [z[k]] + p['c0'][k] + [z[k + 1]] + p['c1'][k]))
                    f.write(self.rnd.choice([' ', '   ', '\t']).join(str(row[x]) for x in cols) + '\n')
                    if self.rnd.random() < 0.2:
                        f.write('# a remark\n')
            cp = ColorPalette.fromFile(path)
        elif p['how'] == 'map':
            cm = ListedColormap([tuple(x / 255 for x in e) for e in p['map']])
            z0, z1 = self.seq(parts['z0']), self.seq(parts['z1'])
            before = repr((z0, z1))
            cp = ColorPalette.fromColorMap(name, z0, z1, cm, **kw)
            assert repr((z0, z1)) == before
        else:
            args = [self.seq(parts['z0']), self.seq(parts['z1']), self.seq(parts['rgb0'], True), self.seq(parts['rgb1'], True)]
            before = repr(args)
            cp = ColorPalette(name, *args, **kw)
            # what the caller gave is as it was, and of no concern any more
            assert repr(args) == before
            for a in args:
                if isinstance(a, list):
                    a[0] = (7, 8, 9) if a[0].__class__ in (tuple, list) else 77
                elif isinstance(a, (np.ndarray, pd.Series)):
                    a[0] = 3
        self.cp, self.k = cp, c['k']

    def set(self, c, res):
        v = c['v'] / self.pals[self.k - 1]['unit']
        if c['which'] == 'lo':
            self.cp.vmin = v
        else:
            self.cp.vmax = v

    def bounds(self, c, res):
        res['n'] = [[self.tick(self.cp.vmin), self.tick(self.cp.vmax)]]
        assert isinstance(self.cp.cmap, Colormap)
        assert sorted(ColorPalette.getPresets()) == ['mmi', 'pop', 'shaketopo']

    @staticmethod
    def of255(color):
        return [int(round(float(x) * 255)) if 0 <= float(x) <= 1 else -9 for x in color]

    def look(self, c, res):
        f = c['format']
        vs = [self.value(v) for v in c['vs']]
        with np.errstate(all='ignore'):
            if f == 'map':
                lo, hi = self.cp.vmin, self.cp.vmax
                log = self.pals[self.k - 1]['log']
                res['n'] = [self.of255(self.cp.cmap(((math.log(v) if log else v) - lo) / (hi - lo))) for v in vs]
            elif f == 'array':
                a = np.array(vs)
                n = len(vs)
                if n % 2 == 0 and self.rnd.random() < 0.5:
                    a = a.reshape((2, n // 2))
                if self.rnd.random() < 0.4:
                    a = np.ma.masked_invalid(a)
                if all(v == v and abs(v) < 1e15 and v == int(v) for v in vs) and self.rnd.random() < 0.5:
                    a = a.astype(int)
                was = a.copy()
                got = self.cp.getDataColor(a, 'array')
                assert got.shape == a.shape + (4,) and got.dtype.kind in 'iu', got.shape
                assert repr(was) == repr(a)
                res['n'] = [[int(x) for x in e] for e in got.reshape((n, 4))]
            else:
                for v in vs:
                    w = v if v != v else self.rnd.choice([v, np.float64(v), int(v) if abs(v) < 1e15 and v == int(v) else v])
                    got = self.cp.getDataColor(w) if f == 'mlab' and self.rnd.random() < 0.5 else self.cp.getDataColor(w, color_format=f)
                    if f == 'mlab':
                        assert isinstance(got, tuple)
                        res['n'].append(self.of255(got))
                    elif f == '255':
                        assert isinstance(got, tuple) and all(isinstance(x, int) for x in got)
                        res['n'].append(list(got))
                    else:
                        assert isinstance(got, str) and len(got) == 7 and got[0] == '#' and got == got.upper(), got
                        res['n'].append([int(got[k:k + 2], 16) for k in (1, 3, 5)])
