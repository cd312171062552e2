import random
import warnings

import matplotlib
matplotlib.use('Agg')
import matplotlib.pyplot as plt
import numpy as np
import pandas as pd

from drivers.common import exc_kind
from impactutils.mapping.city import Cities
from impactutils.mapping.mercatormap import MercatorMap

warnings.simplefilter('ignore')
NOWHERE = {'x0': 0, 'x1': 4, 'y0': 0, 'y1': 4, 'pad': 0, 'cities': []}
FONTS = {'sans': 'DejaVu Sans', 'serif': 'DejaVu Serif', 'mono': 'DejaVu Sans Mono', 'none': 'No Such Font At All'}


class Driver(object):
    def __init__(self, sess, scratch):
        self.rnd = random.Random(sess.get('seed', 0))
        plt.close('all')
        self.map, self.mmap, self.left = NOWHERE, None, []

    def close(self):
        plt.close('all')

    def state(self):
        n = d = 0
        if self.mmap is not None:
            n, d = len(self.mmap.axes.texts), len(self.mmap.axes.lines)
        return {'map': self.map, 'left': sorted(self.left), 'labels': n, 'dots': d}

    def do(self, c):
        try:
            return getattr(self, 'do_' + c['op'])(c)
        except Exception as e:
            return {'ok': False, 'exc': exc_kind(e)}

    def do_open(self, c):
        r, m = self.rnd, c['map']
        plt.close('all')
        self.map, self.left = m, list(range(1, len(m['cities']) + 1))
        order = list(self.left)
        r.shuffle(order)
        cs = [m['cities'][k - 1] for k in order]
        df = pd.DataFrame({'name': [p['name'] for p in cs], 'lat': [p['lat'] / 4 for p in cs], 'lon': [p['lon'] / 4 for p in cs], 'pop': [p['pop'] for p in cs]}, index=r.choice([None, [7] * len(cs)]))
        df = df.astype({'lat': float, 'lon': float})
        was = df.copy()
        cities = Cities(df)
        kw = {}
        dims = r.choice([None, None, [0, 0, 1, 1], [0.1, 0.2, 0.5, 0.7], [0.3, 0.1, 0.6, 0.4]])
        if dims:
            kw['dimensions'] = dims
        if m['pad'] != 25 or r.random() < 0.5:
            kw['padding'] = m['pad'] / 100
        self.mmap = MercatorMap((m['x0'] / 4, m['x1'] / 4, m['y0'] / 4, m['y1'] / 4), r.choice([(7, 7), (9, 5), (4, 6)]), cities, **kw)
        if r.random() < 0.5:
            self.mmap.figure.canvas.draw()
        assert df.equals(was) and len(cities) == len(df)
        assert plt.gca() is self.mmap.axes
        assert self.mmap.getFigureClone() is not self.mmap.figure and self.mmap.getAxesClone() is not self.mmap.axes
        return {'ok': True, 'exc': ''}

    def do_draw(self, c):
        r, mm = self.rnd, self.mmap
        ax, names = mm.axes, [p['name'] for p in self.map['cities']]
        texts, lines = list(ax.texts), list(ax.lines)
        kw, zorder = {}, r.choice([10, 10, 4])
        for k, v, d in (('fontname', FONTS[c['font']], 'DejaVu Sans'), ('fontsize', c['size'], 10), ('shadow', c['shadow'], False), ('draw_dots', c['dots'], False), ('zorder', zorder, 10)):
            if v != d or r.random() < 0.5:
                kw[k] = v
        if c['font'] != 'none':
            assert FONTS[c['font']] in mm.getFonts()
        got = mm.drawCities(**kw)
        assert type(got) is Cities
        self.left = [names.index(n) + 1 for n in got.getCities()[2]]
        assert plt.gca() is ax
        fig = mm.figure
        ax.apply_aspect()
        rend = fig.canvas.get_renderer()
        ten = lambda b: [int(round(v * 10)) for v in b.get_points().ravel()]
        alone = plt.figure(figsize=fig.get_size_inches())
        sizes = []
        for n in names:
            b = alone.text(0.5, 0.5, n, fontname=FONTS[c['font']], fontsize=c['size']).get_window_extent(alone.canvas.get_renderer())
            sizes.append([int(round(b.width * 10)), int(round(b.height * 10))])
        plt.close(alone)
        plt.sca(ax)
        labels, style = [], True
        for t in ax.texts:
            if t in texts:
                continue
            b = ten(t.get_window_extent(rend))
            labels.append({'k': names.index(t.get_text()) + 1, 'l': b[0], 'b': b[1], 'r': b[2], 't': b[3]})
            style = style and t.get_fontsize() == c['size'] and t.get_zorder() == zorder and bool(t.get_path_effects()) == c['shadow'] and FONTS[c['font']] in t.get_fontname()
        labels.sort(key=lambda d: d['k'])
        dots = []
        for ln in [x for x in ax.lines if x not in lines]:
            x, y = (float(np.ravel(v)[0]) for v in ln.get_data())
            style = style and ln.get_zorder() == zorder
            px, py = ln.get_transform().transform((x, y))
            near = min([k - 1 for k in self.left], key=lambda k: abs(self.map['cities'][k]['lon'] / 4 - x) + abs(self.map['cities'][k]['lat'] / 4 - y))
            dots.append({'k': near + 1, 'x': int(round(px * 10)), 'y': int(round(py * 10))})
        return {'ok': True, 'exc': '', 'box': ten(ax.get_window_extent(rend)), 'size': sizes, 'labels': labels, 'dots': dots, 'style': style}
