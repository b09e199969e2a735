"""Stored seasons of the site, hour by hour, from any hour of any year"""
import csv
import json
import os
import random

from hypothesis import strategies as st

from .. import ref
from ..client import ask
from ..core import Prop, Verdict
from ..trace import STATE

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('VERIF_REPO', '/repo')
FILES = os.path.join(REPO, 'pysnobal', 'tests', 'test_data_point', 'gold_csv',
                     '25year', 'wy%s.%s.csv')
COLS = ['net_solar', 'incoming_thermal', 'air_temp', 'vapor_pressure',
        'wind_speed', 'soil_temp', 'precip_mass', 'percent_snow', 'rho_snow',
        'precip_temp']
CFG = {'steps': [60, 60, 15, 1], 'thr': [60, 10, 1], 'elevation': 2061.0,
       'max_h2o': 0.01, 'max_z': 0.25, 'z_g': 0.1, 'relative': None,
       'z_t': 5.0, 'z_u': 5.0}
BATCH = 8          # windows of different years
MANY = 5           # so many windows of a batch off is no accident

# what is compared: (name in the model, median of the window, its 80 %),
# twice what 98.5 % of all windows keep
LIMITS = {
    'R_n': ('R_n_bar', 0.03, 0.16), 'H': ('H_bar', 0.015, 0.11),
    'L_v_E': ('L_v_E_bar', 0.011, 0.09), 'G': ('G_bar', 0.014, 0.06),
    'G_0': ('G_0_bar', 0.009, 0.05), 'M': ('M_bar', 4.5e-4, 2e-3),
    'delta_Q': ('delta_Q_bar', 0.05, 0.4),
    'delta_Q_0': ('delta_Q_0_bar', 0.05, 0.4),
    'E_s': ('E_s_sum', 1.6e-5, 1.2e-4), 'melt': ('melt_sum', 1.4e-5, 2.4e-4),
    'swi': ('swi_sum', 2e-6, 8e-6), 'z_s': ('z_s', 1.4e-4, 2.4e-4),
    'rho': ('rho', 0.055, 0.1), 'm_s': ('m_s', 0.007, 0.01),
    'h2o': ('h2o', 0.0012, 0.005), 't_s_0': ('t_s_0', 0.007, 0.05),
    't_s': ('t_s', 0.005, 0.02), 't_s_l': ('t_s_l', 0.005, 0.025),
}
# where the number of layers changes, tiny differences turn into layers at
# another hour
LOOSE = {
    'R_n': (0.3, 2.0), 'H': (0.2, 2.5), 'L_v_E': (0.1, 1.2), 'G': (0.2, 4.0),
    'G_0': (0.2, 1.2), 'M': (0.004, 0.06), 'delta_Q': (0.5, 5.0),
    'delta_Q_0': (0.5, 4.0), 'E_s': (8e-5, 8e-4), 'melt': (3e-4, 0.05),
    'swi': (8e-5, 4e-4), 'z_s': (0.0015, 0.002), 'rho': (1.0, 1.5),
    'm_s': (0.06, 0.08), 'h2o': (0.015, 0.05), 't_s_0': (0.1, 0.5),
    't_s': (0.1, 0.5), 't_s_l': (0.1, 0.5),
}
# no window may be off by so much
HARD = {'m_s': 0.3, 'z_s': 0.1, 'swi': 0.3}
# whole seasons from bare ground.  Most of them hardly depend on the last
# digits of the computation: (90 %, 99 % of the hours, the worst hour), at
# least three times what they keep when the forcing is disturbed by up to
# 1e-11; in the others a layer comes or goes at another hour with every change
# of a digit.
PRECISE = ['1984', '1985', '1988', '1990', '1992', '1993', '1994', '1996',
           '1998', '2000', '2001', '2003', '2004', '2005', '2006', '2007',
           '2008']
OTHER = ['1986', '1987', '1989', '1991', '1995', '1997', '1999', '2002']
SEASON = {
    'R_n': (0.0015, 0.13, None), 'H': (0.0015, 0.06, None),
    'L_v_E': (0.0015, 0.035, None), 'G': (0.0015, 0.03, None),
    'G_0': (0.0015, 0.025, None), 'M': (4e-4, 0.0015, None),
    'delta_Q': (0.0015, 0.26, None), 'delta_Q_0': (0.0015, 0.25, None),
    'E_s': (3e-7, 6e-5, 0.02), 'melt': (2e-7, 8e-5, None),
    'swi': (1e-6, 2.5e-5, None), 'z_s': (1.5e-5, 7e-5, 4e-4),
    'rho': (0.006, 0.08, 0.6), 'm_s': (0.007, 0.013, 0.03),
    'h2o': (0.001, 0.0016, 0.01), 't_s_0': (1e-4, 0.03, None),
    't_s': (1e-4, 0.045, None), 't_s_l': (1e-4, 0.0025, None),
    'total': (None, None, 0.25),
}
# the others
ROUGH = {
    'R_n': (0.03, 1.2, None), 'H': (0.02, 1.2, None),
    'L_v_E': (0.02, 0.6, None), 'G': (0.06, 1.8, None),
    'G_0': (0.04, 0.7, None), 'M': (6e-4, 0.012, None),
    'delta_Q': (0.08, 2.4, None), 'delta_Q_0': (0.08, 2.6, None),
    'E_s': (2.5e-5, 6e-4, 0.1), 'melt': (6e-5, 0.012, None),
    'swi': (1e-6, 0.0025, None), 'z_s': (0.0015, 0.03, 0.2),
    'rho': (1.2, 9.0, None), 'm_s': (0.5, 0.55, 2.5),
    'h2o': (0.005, 0.013, None), 't_s_0': (0.008, 0.3, None),
    't_s': (0.006, 0.3, None), 't_s_l': (0.06, 0.1, None),
    'total': (None, None, 2.5)}
NOISE = 4          # so often is a season repeated that is off
_idx = None
_rows = {}


def index():
    global _idx
    if _idx is None:
        with open(os.path.join(HERE, '..', '..', 'data',
                               'seasons.json')) as f:
            _idx = json.load(f)
    return _idx


def rows(year, what):
    k = (year, what)
    if k not in _rows:
        if len(_rows) > 60:
            _rows.clear()
        with open(FILES % k) as f:
            r = list(csv.reader(f))
        _rows[k] = r[0], r[1:]
    return _rows[k]


def number(x, name):
    return float(x) + (ref.TF if 'temp' in name else 0.0)


def window(year, hour, n):
    """input records and stored records after `hour`, and the state there"""
    head, body = rows(year, 'input')
    j = [head.index(c) for c in COLS]
    inp = [[number(r[i], c) for i, c in zip(j, COLS)]
           for r in body[hour + 1:hour + 2 + n]]
    head, body = rows(year, 'output')
    head = [h.replace('T_', 't_').replace('ro_predict', 'swi') for h in head]
    out = [dict(zip(head[1:], map(float, r[1:])))
           for r in body[hour:hour + 1 + n]]
    return inp, out[0], out[1:]


def initial(o):
    i = {'z_s': o['z_s'], 'rho': o['rho'], 't_s_0': o['t_s_0'] + ref.TF,
         't_s': o['t_s'] + ref.TF, 'h2o_sat': 0.0, 'z_0': 0.005}
    if o['m_s'] == 0:
        i.update(z_s=0.0, rho=0.0, t_s_0=ref.TF, t_s=ref.TF)
        return i
    hold = ref.water_capacity(o['z_s'], (o['m_s'] - o['h2o']) / o['z_s'],
                              CFG['max_h2o'])
    i['h2o_sat'] = min(1.0, o['h2o'] / hold)
    if o['z_s_l'] > 0:
        i['t_s_l'] = o['t_s_l'] + ref.TF
    return i


def compare(year, hour, n):
    """-> ({name: (median, 80 %)} of the differences, largest differences,
    error)"""
    inp, o, want = window(year, hour, n)
    r = ask(op='run', sc={'cfg': CFG, 'init': initial(o), 'forcing': inp,
                          'mode': 'normal'})
    if r['exc'] is not None:
        return None, None, r['exc'], 0
    got = [dict(zip(['t'] + STATE, x)) for x in r['recs']]
    if len(got) != len(want):
        return None, None, {'msg': '%d records for %d hours' % (
            len(got), len(want)), 'type': 'length'}, 0
    stat, worst = {}, {}
    total = abs(sum(g['swi_sum'] for g in got) -
                sum(w['swi'] for w in want))
    for name, (key, _, _) in LIMITS.items():
        off = -ref.TF if name.startswith('t_s') else 0.0
        d = [abs(g[key] + off - w[name]) for g, w in zip(got, want)
             if name != 't_s_l' or (w[name] > -70 and g['layer_count'] == 2)]
        d.sort()
        if d:
            stat[name] = (d[len(d) // 2], d[min(int(0.8 * len(d)),
                                                len(d) - 1)])
            worst[name] = d[-1]
    worst['swi'] = total
    return stat, worst, None, len(got)


def season(year, noise=0):
    """-> ({name: (90 %, 99 %, worst)}, {name: hour from which it is off},
    error, hours)"""
    head, body = rows(year, 'input')
    j = [head.index(c) for c in COLS]
    inp = [[number(r[i], c) for i, c in zip(j, COLS)] for r in body]
    if noise:
        rnd = random.Random(noise)
        for r in inp:
            for k in range(5):
                r[k] *= 1 + 1e-12 * rnd.uniform(-1, 1)
    head, body = rows(year, 'output')
    head = [h.replace('T_', 't_').replace('ro_predict', 'swi') for h in head]
    if len(body[-1]) < len(head):       # the last line of a file is cut off
        body = body[:-1]
    want = [dict(zip(head[1:], map(float, r[1:]))) for r in body]
    r = ask(op='run', sc={'cfg': CFG, 'forcing': inp, 'mode': 'normal',
                          'init': {'z_s': 0.0, 'rho': 0.0, 't_s_0': ref.TF,
                                   't_s': ref.TF, 'h2o_sat': 0.0,
                                   'z_0': 0.005}})
    if r['exc'] is not None:
        return None, None, r['exc'], 0
    got = [dict(zip(['t'] + STATE, x)) for x in r['recs']]
    if len(got) < len(want) or len(got) != len(inp) - 1:
        return None, None, {'msg': '%d records for %d hours' % (
            len(got), len(inp)), 'type': 'length'}, 0
    stat, first = {}, {}
    for name, (key, _, _) in LIMITS.items():
        off = -ref.TF if name.startswith('t_s') else 0.0
        d = [abs(g[key] + off - w[name]) for g, w in zip(got, want)
             if name != 't_s_l' or (w[name] > -70 and g['layer_count'] == 2)]
        for i, x in enumerate(d):
            if name != 't_s_l' and not x <= SEASON[name][1]:
                first[name] = i
                break
        d.sort()
        if d:
            stat[name] = (d[int(0.9 * len(d))], d[int(0.99 * len(d))], d[-1])
    a = b = worst = 0.0
    for g, w in zip(got, want):
        a += g['swi_sum']
        b += w['swi']
        worst = max(worst, abs(a - b))
    stat['total'] = (0.0, 0.0, worst)
    return stat, first, None, len(want)


class PROP(Prop):
    id = 'C22'
    quick = 18
    thorough = 400

    def strategy(self):
        x = index()['index']
        one = []
        for f in sorted(x):
            years = sorted(x[f])
            if len(years) < BATCH:
                continue
            one.append(st.lists(st.tuples(
                st.sampled_from(years), st.integers(0, 59)).map(list),
                min_size=BATCH, max_size=BATCH, unique_by=lambda t: t[0]
                ).map(lambda w, f=f: {'feature': f, 'windows': [
                    [y, x[f][y][k % len(x[f][y])]] for y, k in w]}))
        return st.one_of(one)

    def regressions(self):
        """every stored season as a whole"""
        n = len(OTHER)
        return Prop.regressions(self) + [
            ('seasons-%d' % k, {'seasons': PRECISE[k::n] + [OTHER[k]]})
            for k in range(n)]

    def check_seasons(self, case):
        v = Verdict()
        for y in case['seasons']:
            lims = SEASON if y in PRECISE else ROUGH
            off = None
            for noise in range(NOISE + 1):
                stat, first, exc, k = season(y, noise)
                v.units += k
                if exc is not None:
                    v.fail('the whole of wy%s: %s' % (y, exc))
                    off = None
                    break
                v.seen('whole seasons' if noise == 0 else
                       'whole seasons, disturbed')
                now = {n: (stat[n], first.get(n)) for n, lim in lims.items()
                       if n in stat and not all(
                           b is None or a <= b for a, b in zip(stat[n], lim))}
                # what only a last digit brought about is gone with others
                off = now if off is None else {
                    n: off[n] for n in off if n in now}
                if not off:
                    break
            if off:
                v.fail('the whole of wy%s differs from the stored output, '
                       'however its last digits are disturbed: %s' % (
                           y, '; '.join('%s from hour %s: %.3g %.3g %.3g' % (
                               (n, off[n][1]) + off[n][0])
                               for n in sorted(off))))
                break
        v.nontrivial = True
        return v

    def check(self, case):
        if 'seasons' in case:
            return self.check_seasons(case)
        v = Verdict()
        n = index()['length']
        off = {}
        lost = []
        for y, h in case['windows']:
            stat, worst, exc, k = compare(y, h, n)
            v.units += k
            if exc is not None:
                if 'converge' in exc['msg']:
                    lost.append(y)
                    v.seen('no convergence')
                else:
                    v.fail('wy%s from hour %d: %s' % (y, h, exc))
                continue
            for name, lim in HARD.items():
                if not worst[name] <= lim:
                    v.fail('wy%s from hour %d: %s is off by %g' % (
                        y, h, name, worst[name]))
            for name, (_, a, b) in LIMITS.items():
                if case['feature'] == 'layers':
                    a, b = LOOSE[name]
                if name in stat and not (
                        stat[name][0] <= a and stat[name][1] <= b):
                    off.setdefault(name, []).append(
                        'wy%s hour %d: %.3g %.3g' % (
                            (y, h) + stat[name]))
        for name, w in off.items():
            v.seen('windows off in ' + name, len(w))
            if len(w) >= MANY:
                v.fail('windows with %s: %s differs from the stored seasons '
                       'in %d of %d: %s' % (case['feature'], name, len(w),
                                            BATCH, w[:4]))
        if len(lost) >= MANY:
            v.fail('%d of %d stored windows end without convergence' % (
                len(lost), BATCH))
        v.seen('windows with ' + case['feature'], BATCH)
        v.nontrivial = case['feature'] != 'dry'
        return v
