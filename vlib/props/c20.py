"""Turbulent fluxes during a run"""
from hypothesis import strategies as st

from .. import gen, ref
from .base import Look, TraceProp, where
from .c07 import turbulent


@st.composite
def calm(draw):
    """Hardly any wind over snow that is colder than the air: the iteration
    may not converge"""
    sc = draw(gen.scenario(kinds=['one', 'two', 'deep', 'twothin', 'wet'],
                           regimes=['melt', 'meltout', 'calm', 'humid', 'rain'],
                           windows=False, long=False))
    for r in sc['forcing']:
        if draw(st.integers(0, 3)):
            r[4] = draw(gen.num(0.05, 0.9, 2))
    return sc


class PROP(TraceProp):
    id = 'C20'
    quick = 200

    def strategy(self):
        return self.mix(calm(), calm())

    def step(self, v, tr, s):
        p, r = s.prev, s.rec
        if p['layer_count'] == 0:
            if r['H_bar'] != 0 or r['L_v_E_bar'] != 0:
                v.fail('%s: turbulent fluxes without snow' % where(s))
            return
        t = turbulent(Look(tr, s))
        if t is not None:
            v.fail('%s: %s' % (where(s), t))
            return
        if s.f['u'] < 0.5:
            v.seen('wind speed below 0.5 m/s')
        sat = ref.es_ice(s.f['t_a'])
        if s.f['e_a'] > sat:
            v.seen('vapor pressure above saturation')
        if tr.c.get('relative'):
            v.seen('heights relative to the snow surface')
        if p['z_s'] > 0.3 * min(tr.c['z_t'], tr.c['z_u']) and \
                not tr.c.get('relative'):
            v.seen('snow depth matters for the heights')
            v.nontrivial = True
        if s.f['e_a'] > sat or tr.c.get('relative'):
            v.nontrivial = True
