"""Every reported state is physically possible and consistent in itself"""
import json
import math
import os

from .. import ref
from .base import TraceProp, where

KNOWN = 'lower-layer-shrinks'


BELOW = 'lower layer below 0 K'


def problems(r, c, coarse=False):
    """what is impossible about a record.  coarse: the exchange of energy was
    too much for the mass and the run time step"""
    bad = []
    for k, x in r.items():
        if not math.isfinite(x):
            bad.append('%s is %r' % (k, x))
    if bad:
        return bad

    def need(ok, msg):
        if not ok:
            bad.append(msg)

    n = r['layer_count']
    need(n in (0, 1, 2), 'layer count %r' % n)
    for k in ('m_s', 'm_s_0', 'm_s_l', 'z_s', 'z_s_0', 'z_s_l', 'h2o',
              'h2o_total', 'h2o_max', 'h2o_sat', 'h2o_vol', 'rho', 'swi_sum',
              'melt_sum'):
        if k in r:
            need(r[k] >= 0, '%s is negative: %r' % (k, r[k]))
    for k in ('cc_s', 'cc_s_0', 'cc_s_l'):
        need(r[k] <= 0, '%s is above zero: %r' % (k, r[k]))
    need(r['cc_s'] == r['cc_s_0'] + r['cc_s_l'],
         'cold content of the snowcover is not the sum of the layers')
    need(r['h2o_sat'] <= 1 + 1e-12, 'saturation above one')
    need(r['h2o_vol'] <= c['max_h2o'] * (1 + 1e-12),
         'liquid water volume above its maximum')
    need(r['h2o'] <= r['h2o_max'] * (1 + 1e-9) + 1e-9,
         'snow holds %r of water, its maximum is %r' % (
             r['h2o'], r['h2o_max']))
    if n == 0:
        for k in ('m_s', 'm_s_0', 'm_s_l', 'z_s', 'z_s_0', 'z_s_l', 'rho',
                  'h2o', 'h2o_sat', 'h2o_vol', 'h2o_max', 'cc_s_0',
                  'cc_s_l'):
            need(r[k] == 0, '%s is %r without snow' % (k, r[k]))
        for k in ('t_s', 't_s_0', 't_s_l'):
            need(abs(r[k] - ref.NOSNOW_T) < 1e-9,
                 '%s is %r without snow' % (k, r[k]))
        return bad
    m, z = r['m_s'], r['z_s']
    need(m > 0 and z > 0 and r['rho'] > 0, 'snow without mass or depth')
    need(r['rho'] <= 600.0 * (1 + 1e-12), 'density %r' % r['rho'])
    need(abs(r['rho'] * z - m) <= 1e-9 * m + 1e-10,
         'mass %r is not density times depth %r' % (m, r['rho'] * z))
    need(abs(r['z_s_0'] + r['z_s_l'] - z) <= 1e-12 * z + 1e-15,
         'layer depths do not add up')
    need(abs(r['m_s_0'] + r['m_s_l'] - m) <= 1e-9 * m + 1e-10,
         'layer masses do not add up')
    need(r['z_s_0'] > 0 and r['m_s_0'] > 0, 'empty surface layer')
    if n == 1:
        need(r['z_s_l'] == 0 and r['m_s_l'] == 0 and r['cc_s_l'] == 0,
             'lower layer in a snowcover of one layer')
        need(abs(r['t_s_l'] - ref.NOSNOW_T) < 1e-9,
             'temperature of a lower layer that does not exist')
    else:
        need(r['z_s_l'] > 0 and r['m_s_l'] > 0, 'empty lower layer')
        need(abs(r['z_s_0'] - c['max_z']) <= 1e-12,
             'surface layer is not at its maximum depth')
        need(r['t_s_l'] <= ref.TF + 1e-9, 'lower layer above freezing')
        need((r['cc_s_l'] == 0) == (r['t_s_l'] >= ref.TF - 1e-9)
             or abs(r['cc_s_l']) < 1e-1,
             'lower layer at %r K with cold content %r' % (
                 r['t_s_l'], r['cc_s_l']))
    need(r['t_s_0'] <= ref.TF + 1e-9 and r['t_s'] <= ref.TF + 1e-9,
         'snow above freezing: %r %r' % (r['t_s_0'], r['t_s']))
    need(coarse or (r['t_s_0'] > 0 and r['t_s'] > 0), 'temperature below 0 K')
    need(coarse or n == 1 or r['t_s_l'] > 0, BELOW)
    need((r['cc_s_0'] == 0) == (r['t_s_0'] >= ref.TF - 1e-9)
         or abs(r['cc_s_0']) < 1e-1,
         'surface layer at %r K with cold content %r' % (
             r['t_s_0'], r['cc_s_0']))
    need(r['h2o'] <= m, 'more water than mass')
    return bad


class PROP(TraceProp):
    id = 'C04'
    scen = {'modes': ('all', 'all', 'normal')}
    quick = 160

    def regressions(self):
        with open(os.path.join(os.path.dirname(__file__), '..', '..',
                               'data', 'lower-layer.json')) as f:
            return [('known finding', json.load(f))] + \
                TraceProp.regressions(self)

    def begin(self, v, tr):
        tr.most = tr.init['m_s_l']
        for m in problems(tr.init, tr.c):
            v.fail('initial state: ' + m)

    def step(self, v, tr, s):
        # an explicit scheme overshoots where a run time step brings more
        # energy than would change the temperature by 100 K
        m = min(s.prev['m_s_0'], s.rec['m_s_0'])
        q = abs(s.rec['delta_Q_0_bar']) + abs(s.rec['delta_Q_bar'])
        if m > 0 and q * s.dt > 2100 * m * 100:
            tr.coarse = True
        # most mass of this lower layer so far
        r = s.rec
        tr.most = max(tr.most, r['m_s_l']) if r['layer_count'] == 2 else 0.0
        for m in problems(r, tr.c, getattr(tr, 'coarse', False)):
            if m == BELOW and r['m_s_l'] < 0.8 * tr.most and \
                    r['cc_s_l'] > -2100 * tr.most * 100:
                # its cold content would be nothing special for the mass that
                # it had, but the mass has gone to the active layer without
                # its part of the cold content
                v.known.append((KNOWN, tr.sc))
                v.seen('known finding')
                continue
            v.fail('%s: %s' % (where(s), m))
        a, b = s.prev['layer_count'], s.rec['layer_count']
        if a != b:
            v.nontrivial = True
        if b == 2 and s.rec['h2o'] > 0 and s.rec['cc_s_l'] < 0:
            v.seen('wet snow on top of a cold layer')
            v.nontrivial = True

    def end(self, v, tr):
        if tr.res.get('extra_keys'):
            v.seen('extra keys')
