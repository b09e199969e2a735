"""Phase, temperature and depth of precipitation"""
from hypothesis import strategies as st

from .. import gen, ref
from ..client import ask
from ..compare import close
from ..core import Verdict
from .base import Look, TraceProp, where

ATTR = ('m_pp', 'm_snow', 'm_rain', 'z_snow', 'h2o_sat_snow', 't_rain',
        't_snow', 't_pp', 'precip_now')


class PROP(TraceProp):
    id = 'C09'
    quick = 200
    scen = {'regimes': ['snow', 'warmsnow', 'mixed', 'rain', 'coldrain',
                        'showers', 'storm', 'drizzle'], 'windows': False}

    def strategy(self):
        return self.mix(self.batch(), self.batch())

    @staticmethod
    @st.composite
    def batch(draw):
        t = st.one_of(gen.num(-20, 15, 2), st.sampled_from(
            [0.0, -1e-9, 1e-9, -0.01, 0.01, 0.5]))
        one = st.tuples(
            st.one_of(st.just(0.0), gen.num(0.001, 50, 3), gen.num(0, 2, 4)),
            st.one_of(st.sampled_from([0.0, 1.0, 0.5, 1e-6, 1 - 1e-6]),
                      gen.num(0, 1, 3)),
            st.one_of(gen.num(20, 600, 1), st.sampled_from(
                [0.0, -1.0, 1e-3])), t)
        return {'batch': [list(x) for x in draw(
            st.lists(one, min_size=1, max_size=40))]}

    def check(self, case):
        if 'batch' not in case:
            return TraceProp.check(self, case)
        v = Verdict()
        base = {'S_n': 100.0, 'I_lw': 250.0, 't_a': 270.0, 'e_a': 300.0,
                'u': 3.0, 't_g': 272.0}
        rows = [dict(base, m_pp=m, percent_snow=p, rho_snow=r,
                     t_pp=t + ref.TF) for m, p, r, t in case['batch']]
        for d, got in zip(rows, ask(op='input', data=rows)):
            v.units += 1
            try:
                want = ref.hydro_inputs(d)
            except ref.Domain:
                want = None
            txt = {k: d[k] for k in ('m_pp', 'percent_snow', 'rho_snow',
                                     't_pp')}
            if 'exc' in got:
                if want is not None or got['exc']['type'] != 'ValueError':
                    v.fail('%r: error %s' % (txt, got['exc']))
                else:
                    v.seen('rejected: snow without density')
                continue
            if want is None:
                v.fail('%r: snow without a density was accepted' % txt)
                continue
            want['m_pp'] = d['m_pp']
            if not want['precip_now']:
                # without precipitation only the absence matters
                keys = ('m_pp', 'm_snow', 'm_rain', 'z_snow', 'precip_now')
            else:
                keys = ATTR
            for k in keys:
                x, w = got['r'][k], want[k]
                if not abs(x - w) <= 1e-12 * (1 + abs(w)):
                    v.fail('%r: %s is %r, expected %r' % (txt, k, x, w))
            kind = 'none' if not want['precip_now'] else \
                'mixed' if want['m_snow'] > 0 and want['m_rain'] > 0 else \
                'rain' if want['m_rain'] > 0 else \
                'wet snow' if want['h2o_sat_snow'] else 'dry snow'
            v.seen('precipitation: ' + kind)
            if kind not in ('none', 'rain'):
                v.nontrivial = True
        return v

    def step(self, v, tr, s):
        """what the phase does to the snowcover"""
        p, r, f = s.prev, s.rec, s.f
        if not f['precip_now']:
            return
        look = Look(tr, s)
        if p['layer_count'] > 0:
            fl = look.flux()[0][0]
            if not close('M', fl['M'], r['M_bar']):
                v.fail('%s: heat brought by precipitation %r, expected %r' %
                       (where(s), r['M_bar'], fl['M']))
            v.nontrivial = True
        k, bad = look.matches(('h2o_total', 'm_s', 'z_s', 'swi_sum', 'rho'))
        if k is None:
            v.fail('%s: %s' % (where(s), bad))
            return
        for e in k.log:
            if e in ('form', 'form_too_thin', 'precip_on_snow',
                     'rain_on_bare'):
                v.seen(e)
