"""Turn the answer of the worker into steps: (state before, record, forcing)."""
from . import ref

STATE = ['rho', 't_s_0', 't_s_l', 't_s', 'cc_s_0', 'cc_s_l', 'cc_s', 'm_s',
         'm_s_0', 'm_s_l', 'z_s', 'z_s_0', 'z_s_l', 'h2o_sat', 'layer_count',
         'h2o', 'h2o_max', 'h2o_vol', 'h2o_total', 'R_n_bar', 'H_bar',
         'L_v_E_bar', 'G_bar', 'G_0_bar', 'M_bar', 'delta_Q_bar',
         'delta_Q_0_bar', 'E_s_sum', 'melt_sum', 'swi_sum']


class Step(object):
    __slots__ = ('i', 'k', 'prev', 'rec', 't0', 'dt', 'frac0', 'frac', 'f',
                 'a', 'b')


class Trace(object):

    def __init__(self, sc, res):
        self.sc, self.res = sc, res
        c = dict(sc['cfg'])
        c['P'] = ref.pressure(c['elevation'])
        c['z_0'] = sc['init']['z_0']
        self.c = c
        self.exc = res['exc']
        self.init = dict(zip(STATE[:19], res['init'])) \
            if 'init' in res else None
        self.recs = []
        for r in res.get('recs', []):
            d = dict(zip(['t'] + STATE, r))
            self.recs.append(d)
        self.marks = res['marks']
        self.data_dt = c['steps'][0] * 60.0
        self.forc = [dict(zip(ref.FORC, f)) for f in sc['forcing']]

    def steps(self):
        """all run time steps of a run with output of every one"""
        prev, t0, k = self.init, 0.0, 0
        for i, rec in enumerate(self.recs):
            while k < len(self.marks) and i >= self.marks[k]:
                k += 1
            s = Step()
            s.i, s.k, s.prev, s.rec = i, k, prev, rec
            s.t0, s.dt = t0, rec['t'] - t0
            s.frac0 = (t0 - k * self.data_dt) / self.data_dt
            s.frac = s.dt / self.data_dt
            s.a, s.b = self.forc[k], self.forc[min(k + 1, len(self.forc)-1)]
            s.f = ref.forcing_at(s.a, s.b, s.frac0, s.frac)
            yield s
            prev, t0 = rec, rec['t']

    def explain_exc(self):
        """Is the end of the run by an exception what the equations demand?
        None if it is, else a description."""
        e = self.exc
        if e is None:
            return None
        txt = '%s: %s (%s)' % (e['type'], e['msg'].split('\n')[0],
                               ' '.join(e['where']))
        if self.init is None:
            return txt
        prev = self.recs[-1] if self.recs else self.init
        t0 = prev.get('t', 0.0)
        k = e['step']
        frac0 = (t0 - k * self.data_dt) / self.data_dt
        a, b = self.forc[k], self.forc[k + 1]
        if e['type'] == 'Exception' and 'converge' in e['msg']:
            return None
        # the state or the forcing is outside of the domain of the equations
        for m in self.c['steps'][1:]:
            frac = m * 60.0 / self.data_dt
            try:
                f = ref.forcing_at(a, b, frac0, frac)
                fl, tb = ref.fluxes(prev, f, self.c, m * 60.0)
                if tb is not None:
                    sol = tb.solve()
                    if not sol:
                        return None
                    fl['H'], fl['L_v_E'] = sol[0][1], sol[0][2]
                else:
                    fl['H'] = fl['L_v_E'] = 0.0
                k = ref.Pack(prev, f, self.c, m * 60.0, fl).run()
                if k.layers and (k.t_s_0 < 150 or k.m_s <= 0 or
                                 k.t_s_0 > 275):
                    return None
            except (ref.Domain, ZeroDivisionError, OverflowError,
                    ValueError):
                return None
        return txt
