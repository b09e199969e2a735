"""Hypothesis strategies for scenarios of the point model.

A scenario is plain JSON data, so a shrunk failure is its own replay file.
Numbers are rounded so that they read well; all choices are made by
Hypothesis."""
import json
import os

from hypothesis import strategies as st

from . import ref

HERE = os.path.dirname(os.path.abspath(__file__))
_real = None


def real():
    """Windows of the 25 years of hourly forcing shipped with the code"""
    global _real
    if _real is None:
        with open(os.path.join(HERE, '..', 'data', 'forcing.json')) as f:
            _real = json.load(f)
    return _real


def num(lo, hi, nd=3):
    """evenly spread numbers with nd decimals"""
    s = 10 ** nd
    return st.integers(int(round(lo * s)), int(round(hi * s))).map(
        lambda v: v / s)


STEPS = [
    # data, normal, medium, small (minutes)
    (60, 60, 15, 1), (60, 60, 15, 5), (60, 60, 15, 3), (60, 60, 20, 2),
    (60, 30, 10, 2), (60, 20, 10, 5), (60, 60, 30, 10), (120, 60, 15, 5),
    (180, 60, 20, 4), (30, 30, 15, 5), (60, 15, 5, 1), (120, 120, 30, 6),
    (60, 60, 12, 3), (180, 30, 10, 2), (60, 60, 60, 10), (60, 60, 15, 15),
    (360, 60, 15, 5), (1440, 60, 30, 10),
]
# parts of a minute, exact in binary
PARTS = [(60, 60, 15, 2.5), (45, 22.5, 7.5, 2.5), (60, 30, 7.5, 1.25),
         (30, 30, 3.75, 3.75), (5, 5, 2.5, 0.5)]


@st.composite
def steps_thr(draw, odd=True):
    steps = draw(st.sampled_from(
        STEPS[:2] if odd is False else STEPS if odd == 'whole' else
        STEPS + PARTS))
    if draw(st.integers(0, 2)) == 0 and steps in STEPS[:2]:
        return list(steps), [60, 10, 1]
    _, n, m, s = steps
    # enough mass per run time step, so that the explicit scheme behaves
    t3 = draw(num(max(0.5, 0.4 * s), max(2.0, 1.2 * s), 1))
    t2 = draw(num(max(t3, 0.6 * m), max(t3, 0.6 * m) + 15, 0))
    t1 = draw(num(max(t2, 0.9 * n), max(t2, 0.9 * n) + 30, 0))
    k = draw(st.integers(0, 15))
    if k == 0:
        # in another order: steps of the middle length are not divided
        t2 = t3 * draw(st.sampled_from([0.5, 0.9, 1.0]))
    elif k == 1:
        t1 = t2 * draw(st.sampled_from([0.5, 0.9, 1.0]))
    return list(steps), [t1, t2, t3]


@st.composite
def config(draw, deep=False, odd=True):
    steps, thr = draw(steps_thr(odd))
    c = {'steps': steps, 'thr': thr}
    c['elevation'] = draw(num(0, 4500, 0)) if draw(st.integers(0, 4)) else \
        draw(st.one_of(num(4000, 8800, 0), num(-400, 0, 0)))
    c['max_h2o'] = draw(st.sampled_from([0.01, 0.01, 0.01, 0.0, 0.03, 0.08,
                                         0.15]))
    c['max_z'] = draw(st.sampled_from([0.25, 0.25, 0.1, 0.05, 0.4, 1.2]))
    c['z_g'] = draw(st.sampled_from([0.5, 0.1, 0.05, 1.0]))
    c['relative'] = draw(st.sampled_from([None, False, False, True]))
    # numbers that are not round
    k = draw(st.integers(0, 15))
    if k & 3 == 1:
        c['elevation'] += draw(num(0.01, 0.99, 2))
    if k & 12 == 4:
        c['max_z'] = draw(num(0.05, 0.5, 4))
        c['z_g'] = draw(num(0.05, 1, 4))
    if k & 12 == 8:
        c['max_h2o'] = draw(num(0.0, 0.05, 5))
    return c


INIT_KINDS = ['bare', 'bare', 'thin', 'one', 'two', 'wet', 'ripe', 'deep',
              'dense', 'edge', 'fresh', 'twothin', 'verge', 'verge',
              'ripethin', 'ripethin']


@st.composite
def initial(draw, c, kinds=None):
    kind = draw(st.sampled_from(kinds or INIT_KINDS))
    z0 = draw(st.sampled_from([0.005, 0.005, 0.001, 0.02, 0.0002]))
    i = {'z_s': 0.0, 'rho': 0.0, 't_s_0': ref.TF, 't_s': ref.TF,
         'h2o_sat': 0.0, 'z_0': z0}
    t3 = c['thr'][2]
    if kind == 'bare':
        if draw(st.integers(0, 2)) == 0:
            # what the other initial values say does not matter without snow
            i.update(rho=draw(st.sampled_from([0.0, 100.0, 300.0])),
                     t_s_0=ref.TF - draw(num(0, 20, 1)),
                     t_s=ref.TF - draw(num(0, 20, 1)),
                     h2o_sat=draw(st.sampled_from([0.0, 0.5])))
        return i
    mz = c['max_z']
    rho = draw(num(60, 500, 0))
    t0 = ref.TF - draw(num(0, 25, 2))
    tl = ref.TF - draw(st.one_of(num(0, 12, 2), num(0, 12, 2),
                                 num(8, 35, 2)))
    sat = 0.0
    if kind == 'thin':
        m = draw(num(0.3, 6, 2)) * t3
        z = m / rho
    elif kind == 'one':
        z = draw(num(0.2, 1.0, 2)) * mz
    elif kind == 'two':
        z = mz * draw(num(1.05, 6, 2))
    elif kind == 'twothin':
        # lower layer around one of the thresholds
        ml = draw(st.sampled_from(c['thr'])) * draw(num(0.8, 1.3, 2))
        z = mz + ml / rho
    elif kind == 'wet':
        z = draw(num(0.3, 3, 2)) * mz
        rho = draw(num(150, 480, 0))
        t0 = tl = ref.TF
        sat = draw(num(0.1, 1, 2))
    elif kind == 'ripe':
        z = draw(num(0.05, 2, 2)) * mz
        rho = draw(num(480, 600, 0))
        t0 = tl = ref.TF
        sat = draw(num(0, 1, 2))
    elif kind == 'verge':
        # hardly more than the mass that counts as a snowcover
        m = t3 * (1 + draw(st.sampled_from([1e-4, 1e-3, 3e-3, 1e-2, 0.05])))
        rho = draw(st.one_of(num(540, 600, 0), num(60, 500, 0)))
        z = m / rho
        if draw(st.booleans()):
            t0 = tl = ref.TF
            sat = draw(st.sampled_from([0.0, 0.5, 1.0]))
    elif kind == 'ripethin':
        # at melt-out: dense, wet, thin
        m = t3 * draw(num(1.01, 1.4, 2))
        rho = draw(num(535, 600, 0))
        z = m / rho
        t0 = tl = ref.TF
        sat = draw(st.sampled_from([1.0, 0.7, 0.2]))
    elif kind == 'deep':
        m = draw(st.one_of(num(500, 3500, 0), num(1950, 2050, 1)))
        rho = draw(num(200, 580, 0))
        z = m / rho
        sat = draw(st.sampled_from([0.0, 0.5]))
        if sat:
            t0 = tl = ref.TF
    elif kind == 'dense':
        rho = draw(st.sampled_from([549, 550, 551, 560, 590, 600, 599.9,
                                    545]))
        z = draw(num(0.1, 5, 2)) * mz
        if rho > 580 and draw(st.booleans()):
            t0 = tl = ref.TF
            sat = draw(st.sampled_from([0.0, 1.0]))
    elif kind == 'fresh':
        rho = draw(num(50, 105, 0))
        z = draw(num(0.1, 2, 2)) * mz
    elif kind == 'edge':
        # exactly at a decision; powers of two keep the products exact
        c['thr'] = [float(max(1, round(x))) for x in c['thr']]
        t3 = c['thr'][2]
        mz = c['max_z'] = draw(st.sampled_from([0.25, 0.125, 0.5]))
        rho = draw(st.sampled_from([64.0, 128.0, 256.0, 512.0]))
        which = draw(st.sampled_from(['thr', 'thr', 'maxz', 'low']))
        if which == 'thr':
            z = draw(st.sampled_from(c['thr'])) / rho
        elif which == 'maxz':
            z = mz
        else:
            z = mz + draw(st.sampled_from(c['thr'])) / rho
    i['z_s'] = round(z, 6) if kind not in (
        'edge', 'twothin', 'verge') else z
    i['rho'] = float(rho)
    i['t_s_0'] = round(t0, 4)
    m = z * rho
    m0 = min(z, mz) * rho
    two = z > mz and (z - mz) * rho >= t3
    give = draw(st.booleans())
    if two:
        if give:
            i['t_s_l'] = round(tl, 4)
        i['t_s'] = round((m0 * t0 + (m - m0) * tl) / m, 4)
    else:
        i['t_s'] = i['t_s_0']
        if sat == 0 and draw(st.integers(0, 5)) == 0:
            # one layer, and an average that is another temperature
            i['t_s'] = round(tl, 4)
    if sat == 0 and kind not in ('edge', 'fresh') and \
            draw(st.integers(0, 7)) == 0:
        # water that the snow will freeze
        sat = draw(st.sampled_from([0.02, 0.3, 1.0]))
    elif sat > 0 and draw(st.integers(0, 7)) == 0:
        # hardly any
        sat = draw(st.sampled_from([1e-5, 1e-3, 0.03]))
    i['h2o_sat'] = sat
    return i


CELSIUS = (2, 5, 9)

# a record of cold dry weather
COLD = [0.0, 220.0, 265.0, 200.0, 3.0, ref.TF, 0.0, 1.0, 100.0, 265.0]

REGIMES = ['cold', 'melt', 'snow', 'warmsnow', 'mixed', 'rain', 'coldrain',
           'meltout', 'calm', 'humid', 'dry', 'showers', 'hoar', 'storm',
           'drizzle', 'arctic', 'hot', 'gale']


@st.composite
def segment(draw, regimes=None, maxlen=6):
    r = draw(st.sampled_from(regimes or REGIMES))
    n = draw(st.integers(1, maxlen))
    ta = {'cold': (-25, -4), 'melt': (0, 14), 'snow': (-14, -1),
          'warmsnow': (-2, 3), 'mixed': (-3, 4), 'rain': (0, 9),
          'coldrain': (-4, 1), 'meltout': (8, 24), 'calm': (-8, 6),
          'humid': (-6, 8), 'dry': (-10, 8), 'showers': (-5, 5),
          'hoar': (-15, -1), 'storm': (-12, 2), 'drizzle': (-2, 6),
          'arctic': (-48, -25), 'hot': (22, 40), 'gale': (-12, 8)}[r]
    ta0 = draw(num(ta[0], ta[1], 1))
    ta1 = draw(num(-3, 3, 1))
    sn = {'melt': (100, 500), 'meltout': (300, 900), 'dry': (0, 300)}.get(
        r, (0, 60))
    s0 = draw(num(sn[0], sn[1], 0))
    il = draw(num(170, 350, 0)) if r not in ('cold', 'hoar', 'arctic') else \
        draw(num(140, 240, 0)) if r != 'arctic' else draw(num(100, 200, 0))
    rh = draw({'humid': num(0.97, 1.25, 2), 'dry': num(0.03, 0.4, 2),
               'hoar': num(0.9, 1.0, 2)}.get(r, num(0.3, 1.0, 2)))
    u = draw({'calm': num(0.5, 1.6, 1), 'gale': num(10, 35, 1)}.get(r, num(1.0, 9, 1)))
    du = draw(num(-0.5, 1.0, 1))
    tg = draw(st.sampled_from([0.0, 0.0, 0.5, 3.0, -1.0, -4.0, 8.0]
                              if r not in ('arctic', 'hot') else
                              [0.0, -18.0, -30.0] if r == 'arctic' else
                              [0.0, 15.0, 25.0]))
    pp = 0.0
    pct, rs, tp = 1.0, 100.0, 0.0
    every = 1
    if r in ('snow', 'warmsnow', 'mixed', 'rain', 'coldrain', 'showers',
             'storm', 'drizzle') or (
                 r in ('gale', 'arctic', 'hot') and draw(st.booleans())):
        pp = draw(num(5, 40, 1)) if r == 'storm' else \
            draw(st.one_of(num(0.005, 0.3, 3), st.sampled_from(
                [1e-3, 1e-4, 1e-6]))) if r == 'drizzle' else \
            draw(st.one_of(num(0.1, 6, 2), num(0.01, 0.2, 3),
                           num(5, 20, 1)))
        every = draw(st.sampled_from([1, 1, 2, 3]))
        rs = draw(num(50, 250, 0))
        tp = ta0
        if r == 'snow':
            tp = draw(num(-14, -0.1, 2))
        elif r == 'warmsnow':
            tp = draw(st.sampled_from([0.0, 0.5, 1.5, 2.0]))
        elif r == 'storm':
            pct = draw(st.sampled_from([1.0, 1.0, 0.9, 0.5]))
            tp = draw(st.one_of(num(-12, 1, 1), num(-12, 1, 1),
                                num(-45, -12, 1)))
        elif r in ('mixed', 'showers', 'drizzle', 'gale'):
            pct = draw(st.one_of(st.sampled_from(
                [0.5, 0.25, 0.05, 0.95, 0.8, 0.0, 1.0]), num(0, 1, 3)))
            tp = draw(num(-3, 4, 2))
        elif r == 'arctic':
            tp = ta0
        elif r == 'hot':
            pct, tp = 0.0, ta0 - draw(num(0, 15, 1))
        elif r in ('rain', 'coldrain'):
            pct = 0.0
            tp = draw(num(0, 9, 1) if r == 'rain' else num(-4, 0, 1))
            rs = draw(st.sampled_from([0.0, 100.0]))
    # what sensors report at night
    s1 = draw(st.sampled_from([0.0, 0.0, 0.0, -0.4, -5.0]))
    rows = []
    for j in range(n):
        x = j / max(n - 1, 1) - 0.5
        wob = (0.0, 1.0, -0.6, 0.4, -1.0, 0.7)[j % 6]
        tc = ta0 + ta1 * x + 0.3 * wob
        tk = round(tc + ref.TF, 3)
        ea = round(rh * ref.es_ice(tk), 2)
        wet = pp > 0 and j % every == 0
        rows.append([round(max(s0 * (1 + 0.3 * wob), s1), 1),
                     round(il + 8 * wob, 1), tk, ea,
                     round(max(u + du * wob, 0.4), 2),
                     round(tg + ref.TF, 3),
                     pp if wet else 0.0, pct, rs, round(tp + ref.TF, 3)])
    return rows


@st.composite
def window(draw, maxlen=12):
    """A stretch of real weather, optionally modified"""
    data = real()
    w = draw(st.integers(0, len(data) - 1))
    rows = data[w]
    n = draw(st.integers(2, maxlen))
    a = draw(st.integers(0, max(len(rows) - n, 0)))
    dt = draw(st.sampled_from([0.0, 0.0, -5.0, 4.0]))
    pf = draw(st.sampled_from([1.0, 1.0, 3.0]))
    out = []
    for r in rows[a:a + n]:
        r = list(r)
        if dt:
            rh = min(r[3] / ref.es_ice(r[2]), 1.0)
            r[2] = round(r[2] + dt, 3)
            r[3] = round(rh * ref.es_ice(r[2]), 2)
            r[9] = round(r[9] + dt, 3)
        r[6] = round(r[6] * pf, 4)
        r[4] = max(r[4], 0.8)
        out.append(r)
    return out


def budget(c):
    """data time steps that a scenario may have, by its finest subdivision"""
    fine = int(c['steps'][0] / c['steps'][3])
    return 6 if fine >= 40 else 12 if fine >= 15 else 24


@st.composite
def forcing(draw, c, regimes=None, nseg=4, scale=1, windows=True, bare=False):
    cap = budget(c) * scale
    rows = []
    if bare and draw(st.integers(0, 3)):
        # something to form a snowcover of
        rows += draw(segment(['storm', 'storm', 'snow', 'warmsnow', 'mixed'],
                             maxlen=3))
    for _ in range(draw(st.integers(1, nseg))):
        if windows and draw(st.integers(0, 3)) == 0:
            rows += draw(window(cap))
        else:
            rows += draw(segment(regimes, maxlen=max(cap // 2, 2)))
        if len(rows) > cap:
            break
    rows = rows[:cap + 1]
    if len(rows) < 2:
        rows = rows + rows
    # hourly amounts of precipitation to amounts of the data time step
    f = min(c['steps'][0] / 60.0, 6.0)
    rows = [list(r) for r in rows]
    if draw(st.integers(0, 7)) == 0:
        k = draw(st.integers(1, len(rows) - 1))
        rows[k] = draw(steady(rows[k - 1]))
    elif draw(st.integers(0, 5)) == 0:
        rows = draw(echo(rows))
    for r in rows:
        r[6] = round(r[6] * f, 5)
    return rows


@st.composite
def echo(draw, rows):
    """Records that repeat a part of an earlier one, as the rest changes"""
    rows = [list(r) for r in rows]
    n = len(rows)
    kind = draw(st.integers(0, 2))
    if kind == 0:
        # all come again, in the same order
        a = draw(st.integers(0, n - 1))
        k = draw(st.integers(1, 3))
        return (rows + [list(r) for r in rows[a:a + k] * 2])[:max(n, 4) + 1]
    cols = list(range(6)) if kind == 1 else draw(
        st.lists(st.integers(0, 9), min_size=1, max_size=9, unique=True))
    a = draw(st.integers(0, n - 1))
    while len(rows) < a + 4:
        rows.append(list(rows[-1]))
    for r in rows[a + 1:a + 1 + draw(st.integers(1, 4))]:
        for j in cols:
            r[j] = rows[a][j]
    if kind == 1:
        # what falls is another in every one
        for i, r in enumerate(rows[a:a + 4]):
            r[6] = [0.0, 2.0, 0.0, 5.0][(a + i) % 4]
            r[7], r[8], r[9] = 1.0, max(r[8], 100.0), min(r[9], ref.TF - 2.0)
    for r in rows:
        # no more vapor than before for the temperature
        r[3] = round(min(r[3], 1.2 * ref.es_ice(r[2])), 2)
        if r[6] > 0 and r[7] > 0 and not r[8] >= 30:
            r[8] = 100.0
    return rows


@st.composite
def steady(draw, row):
    """weather that hardly differs"""
    row = list(row)
    for j in draw(st.lists(st.integers(0, 5), min_size=1, max_size=6,
                           unique=True)):
        x = draw(st.sampled_from([1e-5, 1e-4, 1e-3, 5e-3, 0.02]))
        row[j] = round(row[j] + draw(st.sampled_from([x, 0.7 * x, -x]))
                       * (1 if row[j] > x else 0 if j else 1), 7)
    return row


WILD = {
    0: st.one_of(num(0, 1000, 0), num(-8, 0, 1)), 1: num(100, 420, 0), 2: num(-45, 38, 1),
    3: num(5, 3000, 0), 4: st.one_of(num(0.4, 2, 1), num(2, 32, 1)),
    5: num(-35, 25, 1),
    6: st.sampled_from([1e-6, 1e-4, 1e-3, 0.02, 0.3, 2.0, 8.0, 30.0, 60.0]),
    7: st.sampled_from([0.0, 1.0, 0.5, 0.001, 0.999]), 8: num(40, 500, 0),
    9: num(-30, 25, 1)}


@st.composite
def twist(draw, rows):
    """Values that do not go with the rest of the weather, so that no two
    conditions exclude each other"""
    rows = [list(r) for r in rows]
    a = draw(st.integers(0, len(rows) - 1))
    b = draw(st.integers(a, len(rows) - 1))
    for j in draw(st.lists(st.integers(0, 9), min_size=1, max_size=4,
                           unique=True)):
        x = draw(WILD[j])
        if j in CELSIUS:
            x = round(x + ref.TF, 3)
        for r in rows[a:b + 1]:
            r[j] = x
    for r in rows:
        if r[6] > 0 and r[7] > 0 and r[8] < 40:
            r[8] = 100.0
    return rows


def heights(draw, c, init, rows):
    """measurement heights that stay above the snow"""
    depth = init['z_s'] + sum(r[6] * r[7] / r[8] for r in rows if r[8] > 0)
    lo = 1.0 if c['relative'] else depth + 1.0
    d = [0.0, 0.5, 2.0, 4.0, 9.0]
    if draw(st.integers(0, 3)) == 0 and max(r[4] for r in rows) <= 12.0:
        # instruments close to the snow; in a storm the exchange would be too
        # strong for the explicit scheme
        lo += max(0.15, 30 * init['z_0']) - 1.0
        d = [0.0, 0.05, 0.3, 0.6, 4.0]
    c['z_t'] = round(lo + draw(st.sampled_from(d)), 3)
    c['z_u'] = round(lo + draw(st.sampled_from(d)), 3)


def sound(c, i, rows):
    """Wet snow weighs at least as much as the water in it.  Snow that is
    saturated holds max_h2o of its volume in water."""
    need = 30.0 + 1000.0 * c['max_h2o']
    for r in rows:
        if r[6] > 0 and r[7] > 0 and 0 < r[8] < need and \
                (r[7] < 1 or r[9] >= ref.TF - 1e-3):
            r[8] = need
    if i['h2o_sat'] > 0 and i['rho'] < need:
        c['max_h2o'] = 0.01


@st.composite
def flash(draw):
    """Thin snow that melts within a run time step or a few.  The coarse steps
    would not do for cold or dry weather, where the explicit scheme needs
    enough mass."""
    steps = draw(st.sampled_from([(60, 60, 60, 60), (60, 60, 30, 30),
                                  (60, 60, 60, 10), (60, 30, 15, 15),
                                  (120, 60, 60, 30)]))
    t3 = draw(num(0.5, 2, 1))
    t2 = round(t3 + draw(num(0, 3, 1)), 1)
    t1 = round(t2 + draw(num(0, 3, 1)), 1)
    c = {'steps': list(steps), 'thr': [t1, t2, t3],
         'elevation': draw(num(0, 4000, 0)),
         'max_h2o': draw(st.sampled_from([0.01, 0.0, 0.03])),
         'max_z': draw(st.sampled_from([0.25, 0.01, 0.05])), 'z_g': 0.5,
         'relative': draw(st.sampled_from([None, True]))}
    rho = draw(num(70, 590, 0))
    if draw(st.booleans()):
        # an upper layer that is hardly worth its name, so that both go
        c['max_z'] = round(draw(num(0.2, 2, 1)) / rho, 6)
    i = {'z_s': round(t3 * draw(num(1.01, 6, 2)) / rho, 5),
         'rho': float(rho), 't_s': ref.TF, 't_s_0': ref.TF,
         'h2o_sat': draw(st.sampled_from([0.0, 0.5, 1.0])), 'z_0': 0.005}
    rows = []
    for _ in range(draw(st.integers(2, 6))):
        ta = draw(num(4, 22, 1)) + ref.TF
        rows.append([draw(num(300, 950, 0)), draw(num(290, 360, 0)), ta,
                     round(draw(num(0.92, 1.0, 2)) * ref.es_ice(ta), 2),
                     draw(num(1, 9, 1)), ref.TF + draw(num(0, 8, 1)),
                     draw(st.sampled_from([0.0, 0.0, 0.3, 3.0])), 0.0,
                     100.0, ref.TF + 3.0])
    return c, i, rows


@st.composite
def relapse(draw):
    """Thin snow that melts out while it snows, and new snow within the same
    data time step when the weather has turned cold"""
    c = draw(config())
    s, n, m, q = c['steps']
    t3 = c['thr'][2] = draw(num(0.5, 2, 1))
    c['thr'][:2] = [round(t3 * draw(num(1.5, 60, 1)), 1),
                    round(t3 * draw(num(1.5, 12, 1)), 1)]
    rho = draw(num(80, 500, 0))
    i = {'z_s': round(t3 * draw(num(1.01, 3, 2)) / rho, 5),
         'rho': float(rho), 't_s': ref.TF, 't_s_0': ref.TF,
         'h2o_sat': draw(st.sampled_from([0.0, 1.0])), 'z_0': 0.005}
    ta = draw(num(5, 22, 1)) + ref.TF
    ea = round(draw(num(0.7, 1, 2)) * ref.es_ice(ta), 1)
    hot = [draw(num(500, 1300, 0)), draw(num(300, 500, 0)), ta, ea,
           draw(num(2, 9, 1)), ref.TF,
           # the snow of a step of the middle length is about a snowcover
           round(t3 * s / m * draw(num(0.3, 3, 2)), 3),
           draw(st.sampled_from([1.0, 1.0, 0.8])), float(draw(num(60, 200, 0))),
           ref.TF - draw(num(0, 8, 1))]
    ta = draw(num(-15, -1, 1)) + ref.TF
    cold = [0.0, draw(num(150, 280, 0)), ta, round(
        draw(num(0.6, 1, 2)) * ref.es_ice(ta), 1), draw(num(0.5, 3, 1)),
        ref.TF, 0.0, 0.0, 100.0, ref.TF - 5.0]
    rows = [hot, cold] * draw(st.integers(1, 2)) + [cold]
    return c, i, [list(r) for r in rows]


@st.composite
def scenario(draw, kinds=None, regimes=None, nseg=4, odd=True, scale=1,
             windows=True, modes=('all',), long=True, flashes=15,
             twists=True):
    c = draw(config(odd=odd))
    i = draw(initial(c, kinds))
    if long and kinds is None and draw(st.integers(0, 24)) == 0:
        # many data steps with a heavy snowcover, hardly subdivided
        m = draw(num(80, 700, 0))
        i['rho'] = draw(num(120, 450, 0))
        i['z_s'] = round(m / i['rho'], 3)
        i['t_s'] = i['t_s_0']
        i.pop('t_s_l', None)
        nseg, scale = 24, 8
    rows = draw(forcing(c, regimes, nseg, scale, windows,
                        bare=i['z_s'] == 0))
    if odd and kinds is None and regimes is None and \
            draw(st.integers(0, flashes)) == 0:
        c, i, rows = draw(st.one_of(flash(), flash(), relapse()))
    elif twists and draw(st.integers(0, 3)) == 0:
        rows = draw(twist(rows))
    sound(c, i, rows)
    heights(draw, c, i, rows)
    if draw(st.integers(0, 3)) == 0:
        c['start_min'] = draw(st.one_of(
            st.integers(0, 525600), st.integers(0, 525600),
            # seconds and parts of them
            st.sampled_from([0.5, 10.25, 59.984375, 0.03125])))
    return {'cfg': c, 'init': i, 'forcing': rows,
            'mode': draw(st.sampled_from(modes))}


@st.composite
def moment(draw):
    """One data time step of any snow in any weather"""
    c = draw(config())
    i = draw(initial(c))
    rows = draw(window(2)) if draw(st.integers(0, 3)) == 0 else \
        draw(segment(maxlen=2))
    rows = (rows + rows)[:2]
    if draw(st.integers(0, 3)):
        rows = draw(twist(rows))
    f = min(c['steps'][0] / 60.0, 6.0)
    rows = [list(r) for r in rows]
    for r in rows:
        r[6] = round(r[6] * f, 7)
    sound(c, i, rows)
    heights(draw, c, i, rows)
    if draw(st.booleans()):
        rows.append(list(rows[0]))
    return {'cfg': c, 'init': i, 'forcing': rows, 'mode': 'all'}


@st.composite
def moments(draw):
    return {'many': draw(st.lists(moment(), min_size=3, max_size=8))}


@st.composite
def brink(draw):
    """One data time step and a number of it to be varied between two values.
    The search halves the range towards a decision of the model."""
    c = draw(config())
    i = draw(initial(c, ['thin', 'one', 'two', 'twothin', 'wet', 'ripe',
                         'dense', 'verge', 'ripethin', 'fresh', 'deep',
                         'bare']))
    kind = draw(st.integers(0, 3))
    if kind == 0:
        rows = draw(window(4))[:2]
    elif kind == 1:
        rows = draw(segment(['melt', 'meltout', 'dry'], maxlen=2))
    else:
        rows = draw(segment(maxlen=2))
    if i['z_s'] == 0:
        rows = draw(segment(['storm', 'snow', 'mixed', 'warmsnow'], maxlen=2))
    rows = [list(r) for r in (rows + rows)[:2]]
    sound(c, i, rows)
    heights(draw, c, i, rows)
    c['z_t'] = round(c['z_t'] + 1, 3)
    c['z_u'] = round(c['z_u'] + 1, 3)
    r = rows[0]
    knobs = [(['forcing', 0, 1], max(r[1] - 120, 50.0), r[1] + 120),
             (['forcing', 0, 1], r[1] - 20, r[1] + 30),
             (['forcing', 0, 0], r[0] * 0.3, r[0] + 300),
             (['forcing', 0, 4], 0.6, 12.0)]
    if r[6] > 0:
        knobs += [(['forcing', 0, 6], 0.0, r[6])] * 2
    if i['z_s'] > 0:
        knobs += [(['init', 'z_s'], i['z_s'] * 0.6, i['z_s'] * 1.3),
                  (['init', 'rho'], max(i['rho'] * 0.8, 50.0,
                                        30 + 1000 * c['max_h2o']),
                   min(i['rho'] * 1.2, 600.0))]
    if i['h2o_sat'] > 0:
        knobs.append((['init', 'h2o_sat'], 0.0, 1.0))
    path, lo, hi = draw(st.sampled_from(knobs))
    want = None
    if draw(st.integers(0, 3)) == 0:
        # the last drop of water, lost by freezing, to the air or to a cold
        # soil
        want = 'water'
        i.update(draw(st.sampled_from([
            {'rho': 300.0, 't_s': ref.TF, 't_s_0': ref.TF},
            {'rho': 560.0, 't_s': ref.TF, 't_s_0': ref.TF}])))
        i.pop('t_s_l', None)
        i['z_s'] = round(draw(num(20, 150, 0)) / i['rho'], 4)
        i['h2o_sat'] = draw(st.sampled_from([0.002, 0.02, 0.3]))
        c['max_h2o'] = 0.01
        c['z_g'] = draw(st.sampled_from([0.5, 0.1, 0.02]))
        tg = round(ref.TF - draw(num(-2, 25, 1)), 3)
        for r in rows:
            r[5], r[6] = tg, 0.0
        path, lo, hi = ['forcing', 0, 1], max(r[1] - 250, 40.0), 650.0
        for k in ('z_t', 'z_u'):
            c[k] = max(c[k], 5.0)
    return {'sc': {'cfg': c, 'init': i, 'forcing': rows, 'mode': 'all'},
            'brink': {'path': path, 'want': want, 'lo': lo, 'hi': hi,
                      'late': draw(st.booleans()),
                      'pick': draw(st.integers(0, 11)),
                      'depth': draw(st.one_of(
                          st.integers(6, 22), st.integers(6, 22),
                          st.integers(22, 40)))}}
