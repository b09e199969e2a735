"""How a snowcover is split into layers, appears and disappears"""
from .base import Look, TraceProp, first_state, where

NAMES = ('layer_count', 'z_s_0', 'z_s_l', 'm_s_0', 'm_s_l')


class PROP(TraceProp):
    id = 'C05'
    quick = 200
    scen = {'flashes': 4}

    def begin(self, v, tr):
        first_state(v, tr)
        v.seen('initial layers %d' % tr.init['layer_count'])

    def step(self, v, tr, s):
        p, r, c = s.prev, s.rec, tr.c
        n = r['layer_count']
        if n != p['layer_count']:
            v.nontrivial = True
        t3 = c['thr'][2]
        if n > 0:
            # the split is by the mass before runoff is taken out
            m, z = r['m_s'], r['z_s']
            if p['layer_count'] > 0:
                m += r['swi_sum']
            if not m > t3 * (1 - 1e-9):
                v.fail('%s: snowcover with %r kg/m2, the least is %r' % (
                    where(s), m, t3))
            low = (z - c['max_z']) * m / z if z > 0 else 0.0
            if abs(low - t3) > 1e-7 and abs(z - c['max_z']) > 1e-9 and \
                    n != (2 if low >= t3 else 1):
                v.fail('%s: %d layers, %r kg/m2 are below the active layer '
                       'and %r make a layer' % (where(s), n, low, t3))
        k, bad = Look(tr, s).matches(NAMES)
        if k is None:
            v.fail('%s: %s' % (where(s), bad))
            return
        for e in k.log:
            if e.startswith(('vanish', 'form', 'layer')):
                v.seen(e)
        # what belongs to a layer that has just been made or removed
        if k.formed or k.vanished or 'layer_2_1' in k.log or \
                'layer_1_2' in k.log:
            names = ('t_s', 't_s_0', 't_s_l', 'cc_s_0', 'cc_s_l', 'rho',
                     'm_s', 'z_s', 'h2o', 'h2o_sat', 'h2o_vol', 'h2o_max',
                     'h2o_total', 'swi_sum')
            k, bad = Look(tr, s).matches(NAMES + names)
            if k is None:
                v.fail('%s (layers %d -> %d): %s' % (
                    where(s), p['layer_count'], n, bad))
