"""Independent reference of the published Snobal point model equations.

Written from the documented equations (docstrings, Marks et al. 1999,
Anderson 1976, Brutsaert 1982), plain floats, own constants; nothing is
imported from the code under test.
"""
import math

TF = 273.16
TB = 373.15
P0 = 1.013246e5
T0 = 288.0
LAPSE = -0.0065
RG = 8.31432e3
G0 = 9.80665
MA = 28.9644
MW = 18.0153
KARMAN = 0.41
CPA = 1005.0
RHOW = 999.87
RHOI = 917.0
CAL = 4.186798188
EMIS = 0.98
SIGMA = 5.67032e-8
SOIL_K = 1.65
V2S = 2.501 / 2.835
NOSNOW_T = TF - 75.0
LF0 = 3.336e5


class Domain(Exception):
    """The inputs are outside of the domain of the equations"""


def pressure(elev):
    return P0 * (T0 / (T0 + LAPSE * elev)) ** (G0 * MA / (RG * LAPSE))


def es_water(t):
    if t <= 0:
        raise Domain('temperature %r' % t)
    a = TB / t
    lg = (-7.90298 * (a - 1) + 5.02808 * math.log10(a)
          - 1.3816e-7 * (10 ** (11.344 * (1 - t / TB)) - 1)
          + 8.1328e-3 * (10 ** (-3.49149 * (a - 1)) - 1)
          + math.log10(P0))
    return 10 ** lg


def es_ice(t):
    if t <= 0:
        raise Domain('temperature %r' % t)
    if t > TF:
        return es_water(t)
    f = TF / t
    try:
        return 100 * 10 ** (-9.09718 * (f - 1) - 3.56654 * math.log10(f)
                            + 0.876793 * (1 - t / TF) + math.log10(6.1071))
    except OverflowError:
        return 0.0


def q_spec(e, p):
    return e * MW / (MA * p + e * (MW - MA))


def w_mix(e, p):
    return MW / MA * e / (p - e)


def l_vap(t):
    return 2.5e6 - 2955.73 * (t - TF)


def l_fus(t):
    return 3.336e5 + 166.67 * (TF - t)


def l_sub(t):
    return l_vap(t) + l_fus(t)


def cp_i(t):
    return CAL * (24.928 + 1.76 * t)


def cp_w(t):
    return 4217.7 - 2.55 * (t - TF)


def diffusivity(p, t):
    return 0.65e-4 * (P0 / p) * (t / TF) ** 14


def k_eff(k, t, p, es=None):
    es = es_ice(t) if es is None else es
    if t > TF:
        lh = l_vap(t)
    elif t < TF:
        lh = l_sub(t)
    else:
        lh = 0.5 * (l_vap(t) + l_sub(t))
    return k + lh * diffusivity(p, t) * w_mix(es, p)


def series_flux(k1, k2, t1, t2, d1, d2):
    """steady state flux into layer 1 between the centres of two layers"""
    return (t2 - t1) / (0.5 * d1 / k1 + 0.5 * d2 / k2)


def k_snow(rho):
    return 0.0077 * CAL * (rho / 1000.0) ** 2


def psi_m(z):
    if z > 0:
        return -5.2 * min(z, 1.0)
    if z == 0:
        return 0.0
    x = (1 - 16 * z) ** 0.25
    return 2 * math.log((1 + x) / 2) + math.log((1 + x * x) / 2) \
        - 2 * math.atan(x) + math.pi / 2


def psi_h(z):
    if z > 0:
        return -5.2 * min(z, 1.0)
    if z == 0:
        return 0.0
    return 2 * math.log((1 + math.sqrt(1 - 16 * z)) / 2)


class Turb(object):
    """Bulk transfer problem for one set of measurements"""

    def __init__(self, p, ta, ts, za, ea, es, zq, u, zu, z0):
        if z0 <= 0 or min(za, zq, zu) <= z0:
            raise Domain('heights')
        if ta <= 0 or ts <= 0:
            raise Domain('temperature')
        if ea <= 0 or es <= 0 or p <= 0 or ea >= p or es >= p:
            raise Domain('pressure')
        sat = es_water(ta)
        if ea - 25.0 > sat:
            raise Domain('supersaturated')
        ea = min(ea, sat)
        d0 = 2 * 7.35 / 3 * z0
        if min(za, zq, zu) <= d0:
            raise Domain('heights below the displacement plane')
        self.lm = math.log((zu - d0) / z0)
        self.lh = math.log((za - d0) / z0)
        self.lv = math.log((zq - d0) / z0)
        self.za, self.zu, self.zq, self.u = za, zu, zq, u
        self.ts = ts
        self.dq = q_spec(ea, p) - q_spec(es, p)
        self.ta = ta + G0 / CPA * za
        self.dt = self.ta - ts
        tv = math.sqrt(self.ta * ts) / \
            (1 - (1 - MW / MA) * math.sqrt(ea * es) / p)
        self.rho = p * MA / (RG * tv)
        self.xl = l_vap(ts) + (l_fus(ts) if ts <= TF else 0.0)

    def fluxes(self, s):
        """ustar, H, E for the stability s = 1 / Obukhov length"""
        dm = self.lm - psi_m(self.zu * s)
        dv = self.lv - psi_h(self.zq * s)
        dh = self.lh - psi_h(self.za * s)
        if dm <= 0 or dv <= 0 or dh <= 0:
            raise Domain('stability functions exceed the log profile')
        us = KARMAN * self.u / dm
        f = KARMAN * us * self.rho
        e = self.dq * f / dv
        h = self.dt * f * CPA / dh
        return us, h, e

    def s_of(self, us, h, e):
        """1/L implied by the fluxes (positive = stable)"""
        return KARMAN * G0 * (h / (self.ta * CPA) + 0.61 * e) / \
            (us ** 3 * self.rho)

    def g(self, s):
        return self.s_of(*self.fluxes(s)) - s

    def solve(self):
        """Solutions (s, H, LE, E) of the similarity equations"""
        if self.dt == 0:
            us, h, e = self.fluxes(0.0)
            return [(0.0, h, self.xl * e, e, us)]
        if self.u <= 0:
            raise Domain('no wind')
        out = []
        # both signs can have a solution when H and E oppose
        grid = [0.0]
        x = 1e-9
        while x < 1e4:
            grid.append(x)
            x *= 1.6
        grid = [-v for v in reversed(grid[1:])] + grid
        prev = None
        for s in grid:
            try:
                v = self.g(s)
            except (Domain, ZeroDivisionError, OverflowError):
                prev = None
                continue
            if v == 0:
                out.append(s)
            elif prev is not None and prev[1] * v < 0:
                a, fa, b = prev[0], prev[1], s
                for _ in range(200):
                    m = 0.5 * (a + b)
                    fm = self.g(m)
                    if fm == 0 or m == a or m == b:
                        break
                    if fa * fm < 0:
                        b = m
                    else:
                        a, fa = m, fm
                out.append(0.5 * (a + b))
            prev = (s, v)
        res = []
        for s in out:
            us, h, e = self.fluxes(s)
            if us <= 0:
                continue
            res.append((s, h, self.xl * e, e, us))
        return res

    def agrees(self, h, e, rel=2e-4):
        """Do a sensible heat flux and a mass flux solve the equations?

        Where the iteration hardly contracts it ends at some distance from
        the solution although it changes nothing any more; what counts is
        that the stability implied by the fluxes is the one they belong to.
        """
        if self.dt == 0 or h * self.dt <= 0:
            return False

        def flux(s):
            try:
                return self.fluxes(s)
            except Domain:
                return None
        # |h| falls with s and leaves the domain towards minus infinity
        a, b = -1e5, 1e5
        for _ in range(130):
            m = 0.5 * (a + b)
            f = flux(m)
            if f is None or abs(f[1]) > abs(h):
                a = m
            else:
                b = m
        f = flux(b)
        if f is None or abs(f[1] - h) > 1e-6 * abs(h) or \
                abs(f[2] - e) > rel * abs(e) + 1e-12:
            return False
        try:
            s = self.s_of(f[0], h, f[2])
        except ZeroDivisionError:
            return False
        if abs(s - b) <= rel * abs(b) + 1e-9:
            return True
        # beyond its limit the stability no longer matters: another round
        # changes nothing
        f = flux(s)
        return f is not None and abs(f[1] - h) <= rel * abs(h) and \
            abs(f[2] - e) <= rel * abs(e) + 1e-12


def hydro_inputs(f):
    """Phase of the precipitation of a data record, as documented:
    f: dict with m_pp, percent_snow, rho_snow, t_pp (K)"""
    o = {'m_snow': f['m_pp'] * f['percent_snow']}
    o['m_rain'] = f['m_pp'] - o['m_snow']
    o.update(z_snow=0.0, h2o_sat_snow=0.0, t_rain=0.0, t_snow=0.0,
             t_pp=f['t_pp'], precip_now=f['m_pp'] > 0)
    if not o['precip_now']:
        return o
    if o['m_snow'] > 0:
        if f['rho_snow'] <= 0:
            raise Domain('rho_snow')
        o['z_snow'] = o['m_snow'] / f['rho_snow']
    if o['m_rain'] > 0:
        o['t_pp'] = max(f['t_pp'], TF)
        o['t_rain'] = o['t_pp']
    if o['m_snow'] > 0:
        if o['m_rain'] > 0 or f['t_pp'] >= TF:
            o['t_snow'] = TF
            o['h2o_sat_snow'] = 1.0
        else:
            o['t_snow'] = f['t_pp']
    return o


def cold(t, m):
    return cp_i(t) * m * (t - TF) if t < TF else 0.0


def water_capacity(z, rho, vol):
    return vol * z * RHOW * (RHOI - rho) / RHOI


FLUX = ('R_n', 'H', 'L_v_E', 'G', 'G_0', 'M')
PERT = ('thr', 'maxz', 'rhomax', 'h2orho', 'clip', 'swe', 'h2oadd', 'refr',
        'ice')


class Pack(object):
    """Mass and energy accounting of one run time step.

    p: previous state (dict with the names of the output records)
    f: forcing of the run time step, see forcing_at()
    c: configuration; dt: seconds; fl: fluxes during the step (W/m2)
    pert: set of (name, sign) that moves a decision threshold by 1e-9
    """

    def __init__(self, p, f, c, dt, fl, pert=None):
        self.p, self.f, self.c, self.dt, self.fl = p, f, c, dt, fl
        pert = pert or {}

        def th(name, v):
            return v * (1 + 1e-9 * pert.get(name, 0))
        self.thr = th('thr', c['thr'][2])
        self.maxz = th('maxz', c['max_z'])
        self.rhomax = th('rhomax', 550.0)
        self.h2orho = th('h2orho', 550.0)
        self.clip = th('clip', 600.0)
        self.swe = th('swe', 2000.0)
        self.ice = th('ice', 1.0)
        self.h2oadd = th('h2oadd', 1e-6)
        self.refr = 1e-8 * (1 + 1e-3 * pert.get('refr', 0))
        for k in ('rho', 'z_s', 'z_s_0', 'z_s_l', 'm_s', 'm_s_0', 'm_s_l',
                  't_s', 't_s_0', 't_s_l', 'cc_s_0', 'cc_s_l', 'h2o',
                  'h2o_sat', 'h2o_max', 'h2o_vol'):
            setattr(self, k, p[k])
        self.layers = p['layer_count']
        self.melt = self.E_s = self.swi = 0.0
        self.h2o_total = 0.0
        self.formed = None
        self.vanished = None
        self.log = set()

    def split(self):
        """number of layers and their depths"""
        if self.m_s <= self.thr:
            self.z_s = self.z_s_0 = self.z_s_l = 0.0
            n = 0
        else:
            zl = self.z_s - self.maxz
            if zl > 0 and zl * self.rho >= self.thr:
                self.z_s_0, self.z_s_l = self.c['max_z'], \
                    self.z_s - self.c['max_z']
                n = 2
            else:
                self.z_s_0, self.z_s_l = self.z_s, 0.0
                n = 1 if self.z_s > 0 else 0
        return n

    def relayer(self, where):
        old, self.layers = self.layers, self.split()
        if self.layers == 0:
            self.h2o_total = max(self.m_s, 0.0)
            for k in ('rho', 'm_s', 'm_s_0', 'm_s_l', 'cc_s_0', 'cc_s_l',
                      'h2o', 'h2o_sat', 'h2o_max', 'h2o_vol', 'z_s', 'z_s_0',
                      'z_s_l'):
                setattr(self, k, 0.0)
            self.t_s = self.t_s_0 = self.t_s_l = NOSNOW_T
            self.snow = False
            self.vanished = where
            self.log.add('vanish_' + where)
            return
        self.m_s_0 = self.rho * self.z_s_0
        self.m_s_l = self.rho * self.z_s_l
        if old == 1 and self.layers == 2:
            self.t_s_l = self.t_s
            self.cc_s_l = cold(self.t_s_l, self.m_s_l)
            self.log.add('layer_1_2')
        elif old == 2 and self.layers == 1:
            self.t_s_l = NOSNOW_T
            self.cc_s_l = 0.0
            self.log.add('layer_2_1')

    def adjust(self, dz, dm, where):
        self.z_s += dz
        self.m_s += dm
        self.rho = self.m_s / self.z_s if self.z_s != 0 else 0.0
        if self.rho > self.clip:
            self.rho = 600.0
            self.z_s = self.m_s / self.rho
            self.log.add('clip')
            self.relayer(where)
        elif dz != 0:
            self.relayer(where)
        else:
            self.m_s_0 = self.rho * self.z_s_0
            self.m_s_l = self.rho * self.z_s_l

    def run(self):
        f, dt, fl = self.f, self.dt, self.fl
        start_snow = self.snow = self.layers > 0

        # compaction by metamorphism and overburden, per hour rate
        if self.snow and self.rho < self.rhomax:
            self.log.add('settle')
            hours = dt / 3600.0
            per = 1.0 if self.m_s >= self.swe else \
                24.5 + 23.5 * math.cos(math.pi * self.m_s / 2000.0)
            kk = 1.0 if self.rho < 100 else math.exp(
                -0.046 * (self.rho - 100))
            td = TF - self.t_s
            inc = (0.01 * kk * math.exp(-0.04 * td)
                   + 0.026 * math.exp(-0.08 * td) * self.m_s
                   * math.exp(-21.0 * self.rho / RHOW)) * hours / per
            self.rho *= 1 + inc
            self.z_s = self.m_s / self.rho
            self.relayer('settle')

        # precipitation
        if f['precip_now']:
            if self.snow:
                self.log.add('precip_on_snow')
                self.adjust(f['z_snow'], f['m_pp'], 'precip')
                if self.snow:
                    self.h2o += water_capacity(
                        f['z_snow'], f['rho_snow'],
                        f['h2o_sat_snow'] * self.c['max_h2o'])
                    self.h2o_total += self.h2o + f['m_rain']
            elif f['m_snow'] > 0:
                self.form()
                self.h2o_total += self.h2o + f['m_rain']
            else:
                self.log.add('rain_on_bare')
                self.h2o_total += self.h2o + f['m_rain']
        else:
            self.h2o_total += self.h2o

        # melt and refreezing
        if self.snow:
            self.melt_freeze()

        # evaporation and condensation
        if self.snow:
            self.evaporate()

        # compaction by liquid water
        if self.snow and self.rho <= self.h2orho:
            w = self.melt + (f['m_rain'] if f['precip_now'] else 0.0)
            w /= self.m_s
            if w > self.h2oadd:
                self.log.add('wet_settle')
                self.rho += (550.0 - self.rho) / (1 + 0.4 / w)
                self.z_s = self.m_s / self.rho
                self.relayer('wet_settle')

        # runoff
        if not self.snow or self.layers == 0:
            self.swi = self.h2o_total
        else:
            dry = (self.m_s - self.h2o_total) / self.z_s
            self.h2o_max = water_capacity(self.z_s, dry, self.c['max_h2o'])
            if self.h2o_total > self.h2o_max:
                self.swi = self.h2o_total - self.h2o_max
                self.h2o = self.h2o_max
                self.h2o_sat = 1.0
                self.h2o_vol = self.c['max_h2o']
                self.adjust(0.0, -self.swi, 'runoff')
                self.log.add('runoff')
            else:
                self.h2o = self.h2o_total
                self.h2o_sat = self.h2o / self.h2o_max \
                    if self.h2o_max > 0 else 0.0
                self.h2o_vol = self.h2o_sat * self.c['max_h2o']

        # temperatures
        if self.snow:
            def temp(m, t, cc):
                return TF + cc / (m * cp_i(t))
            if self.layers == 1:
                self.t_s_0 = temp(self.m_s_0, self.t_s_0, self.cc_s_0)
                self.t_s = self.t_s_0
            elif self.cc_s_0 + self.cc_s_l == 0:
                self.t_s = self.t_s_0 = self.t_s_l = TF
            else:
                self.t_s_0 = temp(self.m_s_0, self.t_s_0, self.cc_s_0)
                self.t_s_l = temp(self.m_s_l, self.t_s_l, self.cc_s_l)
                self.t_s = temp(self.m_s, self.t_s,
                                self.cc_s_0 + self.cc_s_l)
        del start_snow
        return self

    def form(self):
        """a new snowcover out of snowfall on bare ground"""
        f = self.f
        self.z_s, self.rho = f['z_snow'], f['rho_snow']
        self.m_s = self.z_s * self.rho
        self.t_s = self.t_s_0 = self.t_s_l = f['t_snow']
        self.h2o_sat = f['h2o_sat_snow']
        self.layers = self.split()
        if self.layers == 0:
            self.h2o_total += max(self.m_s, 0.0)
            for k in ('rho', 'm_s', 'm_s_0', 'm_s_l', 'cc_s_0', 'cc_s_l',
                      'h2o', 'h2o_sat', 'h2o_max', 'h2o_vol'):
                setattr(self, k, 0.0)
            self.t_s = self.t_s_0 = self.t_s_l = NOSNOW_T
            self.log.add('form_too_thin')
            return
        self.formed = True
        self.log.add('form')
        self.init_layers()
        self.h2o_form = self.h2o

    def init_layers(self, t_s_l=None):
        self.m_s_0 = self.rho * self.z_s_0
        self.m_s_l = self.rho * self.z_s_l
        self.cc_s_0 = cold(self.t_s_0, self.m_s_0)
        if self.layers == 2:
            self.cc_s_l = cold(self.t_s_l, self.m_s_l)
        else:
            self.t_s_l = NOSNOW_T
            self.cc_s_l = 0.0
        self.h2o_vol = self.h2o_sat * self.c['max_h2o']
        dry = (self.rho - self.h2o_vol * RHOW) / \
            (1 - self.h2o_vol * RHOW / RHOI)
        self.h2o_max = water_capacity(self.z_s, dry, self.c['max_h2o'])
        self.h2o = self.h2o_sat * self.h2o_max

    def melt_freeze(self):
        dt, fl = self.dt, self.fl
        dq0 = fl['R_n'] + fl['H'] + fl['L_v_E'] + fl['G_0'] + fl['M']
        q0 = dq0 * dt + self.cc_s_0
        ql = 0.0
        self.melt = max(q0, 0.0) / LF0
        self.cc_s_0 = min(q0, 0.0)
        if self.layers == 2:
            ql = (fl['G'] - fl['G_0']) * dt + self.cc_s_l
            self.melt += max(ql, 0.0) / LF0
            self.cc_s_l = min(ql, 0.0)
        if self.melt > 0:
            self.log.add('melt')
        self.h2o_total += self.melt
        frozen = 0.0
        w = self.h2o_total
        if w > 0:
            for name, z, q, on in (
                    ('cc_s_0', self.z_s_0, q0, True),
                    ('cc_s_l', self.z_s_l, ql, self.layers == 2)):
                if not on or getattr(self, name) >= 0:
                    continue
                share = w * z / self.z_s
                can = -q / LF0
                fr = min(share, can)
                frozen += fr
                setattr(self, name, min(q + share * LF0, 0.0))
                self.log.add('refreeze' if fr < share else 'refreeze_all')
        if abs(w - frozen) <= self.refr:
            self.h2o_total = 0.0
        else:
            self.h2o_total = w - frozen
        self.frozen = frozen
        if self.melt > 0 and self.h2o_total >= self.ice * self.m_s:
            self.log.add('no_ice')
            self.adjust(-self.z_s, 0.0, 'melt')
        elif self.melt > 0:
            self.adjust(-self.melt / self.rho, 0.0, 'melt')

    def soil_vapor(self):
        """vapour flux from the soil into the snow (kg/m2/s)"""
        t, e = (self.t_s_l, None) if self.layers == 2 else (self.t_s_0, None)
        e = es_ice(t)
        P = self.c['P']
        tb = 0.5 * (self.f['t_g'] + t)
        dens = P * MA / (RG * tb)
        return dens * diffusivity(P, tb) * (
            q_spec(es_ice(self.f['t_g']), P) - q_spec(e, P)) / self.c['z_g']

    def evaporate(self):
        dt = self.dt
        ts = self.p['t_s_0']
        lat = l_vap(ts) + (l_fus(ts) if ts <= TF else 0.0)
        e0 = self.fl['L_v_E'] / lat * dt
        before = self.h2o_total
        if before > 0:
            self.log.add('evap_wet')
        if self.h2o_total > 0:
            self.h2o_total = max(self.h2o_total + e0 * V2S, 0.0)
        el = self.soil_vapor() * dt
        if self.h2o_total > 0:
            self.h2o_total = max(self.h2o_total + el * V2S, 0.0)
        self.E_s = e0 + el
        if before > 0 and self.h2o_total == 0:
            self.log.add('dried')
        dz = (self.E_s + before - self.h2o_total) / self.rho / 2.0
        self.adjust(dz, self.E_s, 'evap')

    def state(self):
        d = {k: getattr(self, k) for k in (
            'rho', 't_s_0', 't_s_l', 't_s', 'cc_s_0', 'cc_s_l', 'm_s',
            'm_s_0', 'm_s_l', 'z_s', 'z_s_0', 'z_s_l', 'h2o_sat', 'h2o',
            'h2o_max', 'h2o_vol', 'h2o_total')}
        d['cc_s'] = self.cc_s_0 + self.cc_s_l
        d['layer_count'] = self.layers
        d['melt_sum'] = self.melt
        d['swi_sum'] = self.swi
        d['E_s_sum'] = self.E_s
        return d


def fluxes(p, f, c, dt, turb=True):
    """Energy fluxes of a run time step that starts with the state p"""
    if p['layer_count'] == 0:
        return dict.fromkeys(FLUX + ('delta_Q', 'delta_Q_0'), 0.0), None
    r = {}
    r['R_n'] = f['S_n'] + EMIS * (f['I_lw'] - SIGMA * p['t_s_0'] ** 4)
    P = c['P']
    ks = k_snow(p['rho'])
    kg = k_eff(SOIL_K, f['t_g'], P)
    if p['layer_count'] == 1:
        t, d = p['t_s_0'], p['z_s_0']
    else:
        t, d = p['t_s_l'], p['z_s_l']
    t = min(t, TF)
    r['G'] = series_flux(k_eff(ks, t, P), kg, t, f['t_g'], d, c['z_g'])
    if p['layer_count'] == 1:
        r['G_0'] = r['G']
    else:
        r['G_0'] = series_flux(
            k_eff(ks, p['t_s_0'], P), k_eff(ks, p['t_s_l'], P),
            p['t_s_0'], p['t_s_l'], p['z_s_0'], p['z_s_l'])
    r['M'] = 0.0
    if f['precip_now']:
        r['M'] = (cp_w(f['t_rain']) * f['m_rain'] *
                  (f['t_rain'] - p['t_s_0']) +
                  cp_i(f['t_snow']) * f['m_snow'] *
                  (f['t_snow'] - p['t_s_0'])) / dt
    tb = None
    if turb:
        tb = turb_of(p, f, c)
    return r, tb


def turb_of(p, f, c):
    dz = 0.0 if c.get('relative') else p['z_s']
    ea = min(f['e_a'], es_ice(f['t_a']))
    return Turb(c['P'], f['t_a'], p['t_s_0'], c['z_t'] - dz, ea,
                es_ice(p['t_s_0']), c['z_t'] - dz, f['u'], c['z_u'] - dz,
                c['z_0'])


CLIM = ('S_n', 'I_lw', 't_a', 'e_a', 'u', 't_g')
FORC = CLIM + ('m_pp', 'percent_snow', 'rho_snow', 't_pp')


def forcing_at(a, b, frac0, frac):
    """Forcing of a run time step: a, b data records as dicts, frac0 the
    part of the data time step that has passed at its start, frac its part
    of the data time step"""
    f = {k: a[k] + (b[k] - a[k]) * frac0 for k in CLIM}
    h = hydro_inputs(a)
    f.update(h)
    for k in ('m_snow', 'm_rain', 'z_snow'):
        f[k] = h[k] * frac
    f['m_pp'] = a['m_pp'] * frac
    f['rho_snow'] = a['rho_snow']
    return f


def initial(init, c):
    """State after initialisation from the user's initial conditions"""
    z = dict.fromkeys(('rho', 'z_s', 'z_s_0', 'z_s_l', 'm_s', 'm_s_0',
                       'm_s_l', 'cc_s_0', 'cc_s_l', 'h2o', 'h2o_sat',
                       'h2o_max', 'h2o_vol'), 0.0)
    z.update(t_s=NOSNOW_T, t_s_0=NOSNOW_T, t_s_l=NOSNOW_T, layer_count=0)
    k = Pack(z, {}, c, 0, {})
    k.z_s, k.rho = init['z_s'], init['rho']
    k.m_s = k.z_s * k.rho
    k.t_s, k.t_s_0 = init['t_s'], init['t_s_0']
    k.h2o_sat = init['h2o_sat']
    k.layers = k.split()
    if k.layers == 0:
        z['z_s'] = 0.0
        return z
    k.m_s_0, k.m_s_l = k.rho * k.z_s_0, k.rho * k.z_s_l
    if k.layers == 2:
        t = init.get('t_s_l')
        if t is None:
            t = min((k.m_s * k.t_s - k.m_s_0 * k.t_s_0) / k.m_s_l, TF)
        k.t_s_l = t
    k.init_layers()
    d = k.state()
    return d
