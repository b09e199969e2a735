"""The forcing of a run step is the interpolated record, precipitation is
spread over the data step"""
from hypothesis import strategies as st

from .. import gen, ref
from ..client import ask
from ..compare import close
from ..core import Verdict
from .base import Look, TraceProp, where

LIN = ref.CLIM


class PROP(TraceProp):
    id = 'C07'
    quick = 180
    # different regimes in neighbouring records
    scen = {'nseg': 6}

    def strategy(self):
        return self.mix(self.pairs())

    @staticmethod
    @st.composite
    def pairs(draw):
        rows = draw(gen.segment(maxlen=2)) + draw(gen.segment(maxlen=2))
        if draw(st.integers(0, 2)) == 0:
            rows = [rows[0], draw(gen.steady(rows[0]))]
        return {'pair': [rows[0], rows[-1]],
                'steps': list(draw(st.sampled_from(gen.STEPS + gen.PARTS)))}

    def check(self, case):
        if 'pair' in case:
            return self.deltas(case)
        return TraceProp.check(self, case)

    def deltas(self, case):
        v = Verdict()
        a, b = [dict(zip(ref.FORC, r)) for r in case['pair']]
        r = ask(op='deltas', a=a, b=b, steps=case['steps'])
        data = case['steps'][0]
        h = ref.hydro_inputs(a)
        for lev in range(3):
            d = r[str(lev)]
            n = int(data / case['steps'][lev + 1])
            v.units += 1
            for k in LIN:
                w = (b[k] - a[k]) / n
                if abs(d[k] - w) > 1e-9 * (1 + abs(a[k]) + abs(b[k])):
                    v.fail('increment of %s for level %d is %r, expected %r'
                           % (k, lev, d[k], w))
            for k, w in (('m_pp', a['m_pp']), ('m_snow', h['m_snow']),
                         ('m_rain', h['m_rain']), ('z_snow', h['z_snow'])):
                if abs(d[k] - w / n) > 1e-10 + 1e-10 * w:
                    v.fail('%s for a step of level %d is %r, expected %r' % (
                        k, lev, d[k], w / n))
        v.nontrivial = a['m_pp'] > 0 and case['pair'][0] != case['pair'][1]
        v.seen('increments of a pair of records')
        return v

    def begin(self, v, tr):
        if tr.res['mutated']:
            v.fail('the input record that ends data step %s was changed' %
                   tr.res['mutated'])

    def step(self, v, tr, s):
        p, r = s.prev, s.rec
        sub = s.dt < tr.data_dt
        if s.f['precip_now']:
            # mass that the run step received
            if p['layer_count'] == 0 and r['layer_count'] == 0:
                if abs(r['swi_sum'] - s.f['m_pp']) > 1e-9 * (
                        1 + s.f['m_pp']):
                    v.fail('%s: bare ground got %r of water, expected %r' % (
                        where(s), r['swi_sum'], s.f['m_pp']))
            elif p['layer_count'] > 0:
                got = r['m_s'] - p['m_s'] + r['swi_sum'] - r['E_s_sum']
                if abs(got - s.f['m_pp']) > 1e-8 + 1e-10 * p['m_s']:
                    v.fail('%s: precipitation of the step was %r, expected '
                           '%r' % (where(s), got, s.f['m_pp']))
            if sub:
                v.seen('precipitation in a divided data step')
        elif r['layer_count'] and p['layer_count']:
            got = r['m_s'] - p['m_s'] + r['swi_sum'] - r['E_s_sum']
            if abs(got) > 1e-8 + 1e-10 * p['m_s']:
                v.fail('%s: %r kg/m2 of precipitation in a dry data step' % (
                    where(s), got))
        if p['layer_count'] == 0:
            return
        look = Look(tr, s)
        bad = None
        for fl, _ in look.flux():
            bad = [n for n in ('R_n', 'G', 'M')
                   if not close(n, fl[n], r[n + '_bar'])]
            if not bad:
                break
        if bad:
            v.fail('%s: %s do not follow from the interpolated input: %r, '
                   'expected %r' % (where(s), bad,
                                    [r[n + '_bar'] for n in bad],
                                    [fl[n] for n in bad]))
        t = turbulent(look)
        if t is not None:
            v.fail('%s: %s' % (where(s), t))
        if sub and s.frac0 > 0 and s.a != s.b:
            v.seen('between two different input records')
            v.nontrivial = True


def turbulent(look, rel=2e-3):
    """None if H and L_v_E of the record solve the equations"""
    r = look.s.rec
    h, le = r['H_bar'], r['L_v_E_bar']
    seen = []
    for _, tb in look.flux(turb=True):
        if tb.agrees(h, le / tb.xl):
            return None
        for x in tb.solve():
            if abs(x[1] - h) <= rel * (1 + abs(x[1])) and \
                    abs(x[2] - le) <= rel * (1 + abs(x[2])):
                return None
            seen.append((x[1], x[2]))
    return 'turbulent fluxes H=%r L_v_E=%r, the equations give %s' % (
        h, le, seen)
