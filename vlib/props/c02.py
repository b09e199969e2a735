"""The energy budget of every record adds up"""
from .. import ref
from ..compare import close
from .base import Look, TraceProp, where


class PROP(TraceProp):
    id = 'C02'
    quick = 180

    def step(self, v, tr, s):
        p, r = s.prev, s.rec
        e = {n: r[n + '_bar'] for n in (
            'R_n', 'H', 'L_v_E', 'G', 'G_0', 'M', 'delta_Q', 'delta_Q_0')}
        if p['layer_count'] == 0:
            bad = [n for n in e if e[n] != 0]
            if bad:
                v.fail('%s: energy fluxes %s without a snowcover' % (
                    where(s), bad))
            v.seen('no snow')
            return
        want = e['R_n'] + e['H'] + e['L_v_E'] + e['G_0'] + e['M']
        if not close('delta_Q_0', want, e['delta_Q_0'], 10):
            v.fail('%s: surface layer budget %r is not the sum of its terms '
                   '%r' % (where(s), e['delta_Q_0'], want))
        want = e['R_n'] + e['H'] + e['L_v_E'] + e['G'] + e['M']
        if not close('delta_Q', want, e['delta_Q'], 10):
            v.fail('%s: snowcover budget %r is not the sum of its terms %r'
                   % (where(s), e['delta_Q'], want))
        if p['layer_count'] == 1 and not close('G', e['G'], e['G_0']):
            v.fail('%s: heat flow into the only layer %r is not the one '
                   'from the soil %r' % (where(s), e['G_0'], e['G']))
        fl = Look(tr, s).flux()[0][0]
        for n in ('R_n', 'M'):
            if not close(n, fl[n], e[n]):
                v.fail('%s: %s is %r, expected %r' % (
                    where(s), n, e[n], fl[n]))
        if e['M'] != 0:
            v.seen('advected heat')
        if p['layer_count'] == 2 and e['G'] != e['G_0']:
            v.seen('two layers exchange heat')
            v.nontrivial = True
        if e['M'] != 0:
            v.nontrivial = True


assert ref
