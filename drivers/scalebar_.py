import random

import matplotlib
matplotlib.use('Agg')
import cartopy.crs as ccrs
import matplotlib.colors as mc
import numpy as np
from matplotlib.figure import Figure
from matplotlib.backends.backend_agg import FigureCanvasAgg
from shapely.geometry import LineString

from drivers.common import exc_kind
from impactutils.mapping.scalebar import UNITS, draw_scale


class Feet(ccrs.Projection):
    """in U.S. survey feet"""
    def __init__(self):
        super().__init__([('proj', 'tmerc'), ('lon_0', -118), ('units', 'us-ft')])
    x_limits = y_limits = (-6e7, 6e7)
    threshold = 1e5

    @property
    def boundary(self):
        a, b = self.x_limits
        return LineString([(a, a), (a, b), (b, b), (b, a), (a, a)])


class Driver(object):
    def __init__(self, sess, scratch):
        self.rnd = random.Random(sess.get('seed', 0))
        self.fig = Figure(figsize=self.rnd.choice([(8, 6), (5, 9), (10, 4)]), dpi=self.rnd.choice([72, 100, 150]))
        FigureCanvasAgg(self.fig)
        self.axes, self.kind = [], None
        self.frame(sess.get('init', {'map': {'kind': 'degrees', 'x0': -240, 'x1': -236, 'y0': 68, 'y1': 72}})['map'])

    def frame(self, m):
        r = self.rnd
        self.scale = {'degrees': 2, 'metres': 1, 'feet': 1}[m['kind']]
        if m['kind'] != self.kind or r.random() < 0.2:
            if m['kind'] == 'degrees':
                p = r.choice([ccrs.PlateCarree(), ccrs.PlateCarree(central_longitude=180)])
            elif m['kind'] == 'feet':
                p = Feet()
            else:
                p = ccrs.Mercator() if m['x1'] - m['x0'] > 400000 else r.choice([ccrs.Mercator, ccrs.TransverseMercator, lambda: ccrs.UTM(11), ccrs.LambertConformal, ccrs.Orthographic])()
            for a in self.axes:
                a.set_visible(False)
            self.axes.append(self.fig.add_axes(r.choice([[0.1, 0.1, 0.8, 0.8], [0.3, 0.05, 0.6, 0.5]]), projection=p))
            self.kind = m['kind']
        ax = self.axes[-1]
        ax.set_xlim(m['x0'] / self.scale, m['x1'] / self.scale)
        ax.set_ylim(m['y0'] / self.scale, m['y1'] / self.scale)
        ax.apply_aspect()

    def state(self):
        ax = self.axes[-1]
        x, y = ax.get_xlim(), ax.get_ylim()
        n = lambda v: int(round(v * self.scale)) if abs(v * self.scale - round(v * self.scale)) < 1e-6 * max(1, abs(v)) else 8888888
        return {'map': {'kind': self.kind, 'x0': n(x[0]), 'x1': n(x[1]), 'y0': n(y[0]), 'y1': n(y[1])},
                'bars': sum(t.get_text() in UNITS for a in self.axes for t in a.texts)}

    def do(self, c):
        r = self.rnd
        if c['op'] == 'frame':
            self.frame(c['map'])
            return {'ok': True, 'exc': ''}
        ax = self.axes[-1]
        was = set(ax.get_children())
        font = c['font']
        zorder = r.choice([20, 20, 3, 50])
        kw = {k: c[k] for k, d in (('pos', 'll'), ('units', 'km')) if c[k] != d or r.random() < 0.5}
        for k in ('padx', 'pady'):
            if c[k] != 10 or r.random() < 0.5:
                kw[k] = c[k] / 100
        if zorder != 20:
            kw['zorder'] = zorder
        old = matplotlib.rcParams['font.size']
        try:
            if r.random() < 0.5:
                kw['font_size'] = font
                matplotlib.rcParams['font.size'] = 33
            else:
                matplotlib.rcParams['font.size'] = font
            if c['len']:
                n = c['len'][0]
                kw['bar_length'] = n // 100 if n % 100 == 0 and r.random() < 0.7 else n / 100
            if c['div']:
                kw['divisions'] = c['div'][0]
            where = r.choice([self.fig.add_subplot(), None, self.fig]) if c['plain'] else ax
            if c['plain'] and where not in (None, self.fig):
                where.set_visible(False)
            draw_scale(where, **kw)
        except Exception as e:
            assert set(ax.get_children()) == was
            return {'ok': False, 'exc': exc_kind(e)}
        finally:
            matplotlib.rcParams['font.size'] = old
        return self.seen(ax, [a for a in ax.get_children() if a not in was], font, zorder)

    def seen(self, ax, new, font, zorder):
        inv = ax.transAxes.inverted()
        box = lambda b: [int(round(v * 10000)) for v in inv.transform(b.get_points()).ravel()]     # left, bottom, right, top
        rend = self.fig.canvas.get_renderer()
        px = 72 / self.fig.dpi
        divs, ticks, labels, names, outline, height = [], [], [], [], [], 0
        texts = [a for a in new if isinstance(a, matplotlib.text.Text)]
        for a in new:
            if a in texts:
                continue
            if isinstance(a, matplotlib.patches.Patch) and a.get_fill():
                b = a.get_path().get_extents(a.get_transform())
                rgb = mc.to_rgb(a.get_facecolor())
                color = {(1.0, 1.0, 1.0): 'white', (0.0, 0.0, 0.0): 'black'}.get(rgb, 'other')
                divs.append(dict(zip(('left', 'bottom', 'right', 'top'), box(b)), color=color))
                height = int(round(b.height * px * 100))
            elif isinstance(a, (matplotlib.lines.Line2D, matplotlib.patches.Patch)):
                b = a.get_path().get_extents(a.get_transform())
                if b.width < 1e-3:
                    ticks.append([box(b), a])
                else:
                    outline.append(box(b))
        divs.sort(key=lambda d: d['left'])
        ticks.sort(key=lambda t: t[0][0])
        bottom = divs[0]['bottom'] if divs else 0
        top = divs[0]['top'] if divs else 0
        order = True
        for t in texts:
            b = box(t.get_window_extent(rend))
            x = (b[0] + b[2]) // 2
            if t.get_text() in UNITS:
                names.append({'says': t.get_text(), 'x': x})
                order = order and b[1] >= top - 1
            else:
                try:
                    says = int(round(float(t.get_text()) * 100))
                except ValueError:
                    says = 8888888
                labels.append({'says': says, 'x': x})
                order = order and b[3] <= bottom + 1
        labels.sort(key=lambda d: d['x'])
        order = order and all(abs(t[0][3] - bottom) <= 1 and t[0][1] < bottom for t in ticks)
        whole = [divs[0]['left'], bottom, divs[-1]['right'], top] if divs else []
        return {'ok': True, 'exc': '', 'divs': divs, 'ticks': [t[0][0] for t in ticks], 'labels': labels, 'names': names, 'height': height,
                'order': order, 'fonts': all(t.get_fontsize() == font for t in texts),
                'outline': any(all(abs(p - q) <= 1 for p, q in zip(o, whole)) for o in outline) and all(a.get_zorder() >= zorder for a in new)}
