"""The bulk turbulent transfer function hle1"""
import math

from hypothesis import strategies as st

from .. import gen, ref
from ..client import ask
from ..core import Prop, Verdict

DALR = ref.G0 / 1.005e3
NAMES = ['press', 'air_temp', 'surface_temp', 'za', 'ea', 'es', 'zq',
         'wind_speed', 'zu', 'z0']


@st.composite
def args(draw):
    p = draw(gen.num(45000, 105000, 0))
    ta = ref.TF + draw(gen.num(-35, 20, 2))
    ts = ref.TF - draw(st.one_of(gen.num(0, 40, 2), st.sampled_from(
        [0.0, 0.001])))
    z0 = draw(st.sampled_from([0.0001, 0.001, 0.005, 0.02, 0.05]))
    lo = 25 * z0
    zz = [round(lo + draw(gen.num(0.02, 12, 2)), 4) for _ in range(2)]
    za, zu = zz
    zq = za if draw(st.booleans()) else round(
        lo + draw(gen.num(0.02, 12, 2)), 4)
    kind = draw(st.sampled_from(['any', 'any', 'any', 'neutral', 'near',
                                 'sat', 'iso']))
    if kind == 'neutral':
        ts = ta + DALR * za
        if ts > 300:
            ts = ta = 270.0
            ts = ta + DALR * za
    elif kind == 'near':
        ts = round(ta + DALR * za + draw(gen.num(-0.3, 0.3, 3)), 4)
    es = ref.es_ice(ts)
    sat = ref.es_water(ta)
    ea = sat * draw(gen.num(0.02, 1.0, 3))
    if kind == 'sat':
        ea = sat + draw(gen.num(-2, 24, 1))
    elif kind == 'iso':
        ea = es if es < sat else sat
    ea, es = max(round(ea, 4), 1e-3), round(es, 4)
    u = draw(st.one_of(gen.num(0.3, 3, 2), gen.num(1, 15, 1)))
    return [p, ta, ts, za, ea, es, zq, u, zu, z0]


@st.composite
def warm(draw):
    """where a warm start begins: None is a cold start"""
    if draw(st.booleans()):
        return None
    return [draw(gen.num(0.02, 1.2, 3)), draw(gen.num(0.005, 0.6, 4))]


BAD = [('z0', [0.0, -1.0]), ('za', [0.0, 1e-5, -2.0]), ('zq', [0.0, -1.0]),
       ('zu', [0.0, -3.0]), ('air_temp', [0.0, -5.0]),
       ('surface_temp', [0.0, -270.0]), ('ea', [0.0, -10.0]),
       ('es', [0.0, -1.0]), ('press', [0.0, -100.0]), ('ea', ['press', 1]),
       ('es', ['press', 1]), ('ea', ['sat', 26.0]), ('ea', ['sat', 200.0]),
       ('za', ['z0', 1.0]), ('zu', ['z0', 1.0]), ('zq', ['z0', 1.0]),
       ('za', ['z0', 0.3]), ('zu', ['z0', 0.3]), ('zq', ['z0', 0.3]),
       ('ea', ['press', 0]), ('es', ['press', 0]),
       ('wind_speed', [-0.01, -3.0])]


@st.composite
def bad(draw):
    a = draw(args())
    name, vals = draw(st.sampled_from(BAD))
    i = NAMES.index(name)
    if vals[0] == 'press':
        a[i] = a[0] + vals[1] * 10.0
        if name == 'ea':
            a[1] = 380.0          # not above saturation as well
    elif vals[0] == 'sat':
        a[i] = ref.es_water(a[1]) + vals[1]
    elif vals[0] == 'z0':
        a[i] = a[9] * vals[1]
    else:
        a[i] = draw(st.sampled_from(vals))
    return a


def iterate(t, us, fac):
    """The published fixed point iteration; number of rounds or None"""
    try:
        e = t.dq * fac / t.lv
        h = t.dt * fac * ref.CPA / t.lh
        last = None
        for i in range(50):
            lo = 1.0 / t.s_of(us, h, e)
            us, h, e = t.fluxes(1.0 / lo)
            if last is not None and abs(last - lo) < 1e-5 and \
                    abs((last - lo) / lo) < 1e-5:
                return i
            last = lo
    except (ref.Domain, ZeroDivisionError, OverflowError, ValueError):
        return None
    return None


class PROP(Prop):
    id = 'C10'
    quick = 300
    thorough = 5000

    def strategy(self):
        return st.fixed_dictionaries({
            'calls': st.lists(st.tuples(args(), warm()).map(list),
                              min_size=1, max_size=25),
            'bad': st.lists(bad(), max_size=6)})

    def regressions(self):
        n = [80000.0, 270.0, 270.0 + DALR * 5.0, 5.0, 300.0, 480.0, 5.0, 3.0,
             5.0, 0.005]
        u = [80000.0, 250.0, 273.16, 2.0, 60.0, 611.0, 2.0, 0.3, 2.0, 0.005]
        return [('neutral stability', {'calls': [[n, None]], 'bad': []}),
                ('no convergence', {'calls': [[u, None]], 'bad': []})
                ] + Prop.regressions(self)

    def check(self, case):
        v = Verdict()
        calls = []
        for a, w in case['calls']:
            calls.append(a if w is None else a + [
                {'init_ustar': w[0], 'init_factor': w[1]}])
        got = ask(op='call', fn='lib.hle1', calls=calls)
        for (a, w), g in zip(case['calls'], got):
            v.units += 1
            self.one(v, a, w, g)
        got = ask(op='call', fn='lib.hle1', calls=case['bad'])
        for a, g in zip(case['bad'], got):
            v.units += 1
            txt = dict(zip(NAMES, a))
            if 'exc' not in g:
                v.fail('impossible input accepted: %r -> %r' % (txt, g['r']))
            elif g['exc']['type'] != 'ValueError':
                v.fail('impossible input %r: %s' % (txt, g['exc']))
            v.seen('impossible input')
        return v

    def one(self, v, a, w, g):
        txt = '%r start %r' % (dict(zip(NAMES, a)), w)
        try:
            t = ref.Turb(a[0], a[1], a[2], a[3], a[4], a[5], a[6], a[7],
                         a[8], a[9])
        except ref.Domain as e:
            v.seen('out of domain: %s' % e)
            return
        if 'exc' in g:
            # the similarity functions can exceed the log profile
            if g['exc']['type'] in ('ValueError', 'ZeroDivisionError',
                                    'OverflowError') and \
                    iterate(t, *self.start(t, w)) is None:
                v.seen('iteration leaves the domain')
                return
            v.fail('%s: %s' % (txt, g['exc']))
            return
        h, le, e, status, us, fac = g['r']
        for x in g['r'][:3]:
            if not isinstance(x, (int, float)) or not math.isfinite(x):
                v.fail('%s: %r' % (txt, g['r']))
                return
        if abs(le - t.xl * e) > 1e-9 * (abs(le) + 1e-9):
            v.fail('%s: latent heat %r is not the mass flux %r times the '
                   'latent heat %r' % (txt, le, e, t.xl))
        if status not in (0, -1):
            v.fail('%s: status %r' % (txt, status))
        if status == -1:
            v.seen('no convergence')
            n = iterate(t, *self.start(t, w))
            if n is not None and n < 40 and t.dt != 0:
                v.fail('%s: reported no convergence, the iteration takes %d '
                       'rounds' % (txt, n + 1))
            return
        near = abs(t.dt) < 1e-9
        sols = list(t.solve()) if t.dt != 0 or near else []
        if near:
            n_us, n_h, n_e = t.fluxes(0.0)
            sols.append((0.0, n_h, t.xl * n_e, n_e, n_us))
            v.seen('neutral')
        tol = 2e-3
        ok = [s for s in sols
              if abs(h - s[1]) <= tol * abs(s[1]) + 1e-4 and
              abs(e - s[3]) <= tol * abs(s[3]) + 1e-10]
        if not ok and not near and t.agrees(h, e):
            v.seen('iteration that hardly contracts')
            return
        if not ok:
            v.fail('%s: H=%r E=%r do not solve the equations, %r do' % (
                txt, h, e, [(s[1], s[3]) for s in sols]))
            return
        if not any(abs(us - s[4]) <= tol * s[4] and
                   abs(fac - ref.KARMAN * s[4] * t.rho) <=
                   tol * ref.KARMAN * s[4] * t.rho for s in ok):
            v.fail('%s: friction velocity %r, factor %r, expected %r' % (
                txt, us, fac, [(s[4], ref.KARMAN * s[4] * t.rho)
                               for s in ok]))
        # towards the surface is positive
        if t.dt != 0 and abs(t.dt) > 1e-9 and h * t.dt <= 0:
            v.fail('%s: sensible heat %r against the gradient' % (txt, h))
        if e * t.dq < 0 or (t.dq != 0 and e == 0):
            v.fail('%s: mass flux %r against the gradient' % (txt, e))
        s = ok[0][0]
        v.seen('stable' if s > 0 else 'unstable' if s < 0 else 'neutral sol')
        if w is not None:
            v.seen('warm start')
        if len(sols) > 1:
            v.seen('several solutions')
        if abs(s) * t.zu > 0.02:
            v.nontrivial = True

    @staticmethod
    def start(t, w):
        if w is not None:
            return w
        us = ref.KARMAN * t.u / t.lm
        return us, ref.KARMAN * us * t.rho
