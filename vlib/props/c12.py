"""Heat conduction from the soil and between the layers"""
from hypothesis import strategies as st

from .. import gen, ref
from ..client import ask
from ..compare import close
from ..core import Verdict
from .base import Look, TraceProp, where


class PROP(TraceProp):
    id = 'C12'
    quick = 190

    def strategy(self):
        return self.mix(self.laws())

    @staticmethod
    @st.composite
    def laws(draw):
        k = gen.num(0.001, 3, 4)
        t = st.one_of(gen.num(230, 300, 2), st.just(ref.TF))
        d = gen.num(0.001, 5, 3)
        one = st.tuples(k, k, t, t, d, d, gen.num(40000, 105000, 0))
        return {'laws': [list(x) for x in draw(
            st.lists(one, min_size=1, max_size=20))],
            # vapor pressure as a part of that at saturation
            'part': draw(st.sampled_from([0.7, 0.7, 1.0, 0.0, 1e-6, 1.01]))}

    def check(self, case):
        if 'laws' not in case:
            return TraceProp.check(self, case)
        v = Verdict()
        rows = case['laws']
        a = ask(op='call', fn='lib.ssxfr', calls=[r[:6] for r in rows])
        b = ask(op='call', fn='lib.ssxfr',
                calls=[[r[1], r[0], r[3], r[2], r[5], r[4]] for r in rows])
        e = ask(op='call', fn='lib.efcon', calls=[[r[0], r[2], r[6]]
                                                  for r in rows])
        part = case.get('part', 0.7)
        e2 = ask(op='call', fn='lib.efcon', calls=[
            [r[0], r[2], r[6], {'es_layer': part * ref.es_ice(r[2])}]
            for r in rows])
        for r, x, y, z, z2 in zip(rows, a, b, e, e2):
            v.units += 1
            if 'exc' in x or 'exc' in y or 'exc' in z or 'exc' in z2:
                v.fail('%r: error %s' % (r, [q.get('exc')
                                             for q in (x, y, z, z2)]))
                continue
            w = ref.series_flux(*r[:6])
            if abs(x['r'] - w) > 1e-9 * (1 + abs(w)):
                v.fail('heat flow %r: %r, expected %r' % (r, x['r'], w))
            if abs(x['r'] + y['r']) > 1e-9 * (1 + abs(w)):
                v.fail('heat flow %r is not the opposite of the flow the '
                       'other way' % r)
            for got, es in ((z['r'], None), (z2['r'],
                                             part * ref.es_ice(r[2]))):
                w = ref.k_eff(r[0], r[2], r[6], es)
                if abs(got - w) > 1e-9 * w:
                    v.fail('effective conductivity of %r: %r, expected %r' %
                           (r, got, w))
        v.nontrivial = True
        v.seen('conduction laws')
        return v

    def step(self, v, tr, s):
        p, r = s.prev, s.rec
        if p['layer_count'] == 0:
            if r['G_bar'] != 0 or r['G_0_bar'] != 0:
                v.fail('%s: heat conduction without snow' % where(s))
            return
        bad = None
        for fl, _ in Look(tr, s).flux():
            bad = [n for n in ('G', 'G_0')
                   if not close(n, fl[n], r[n + '_bar'])]
            if not bad:
                break
        if bad:
            v.fail('%s: %s' % (where(s), ['%s is %r, expected %r' % (
                n, r[n + '_bar'], fl[n]) for n in bad]))
        if p['layer_count'] == 2 and p['t_s_0'] != p['t_s_l']:
            v.nontrivial = True
            v.seen('heat between layers')
        if p['layer_count'] == 2 and p['t_s_0'] == p['t_s_l']:
            v.seen('isothermal layers')
