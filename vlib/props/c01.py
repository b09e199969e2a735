"""Water mass is conserved in every record"""
from .. import ref
from .base import TraceProp, where

KNOWN = 'wet-first-snow'


def bare(t3, pct, tp, pp, rho=100.0):
    row = [0.0, 250.0, ref.TF + 1, 500.0, 3.0, ref.TF, pp, pct, rho,
           ref.TF + tp]
    return {'cfg': {'steps': [60, 60, 15, 1], 'thr': [60, 10, t3],
                    'elevation': 2000.0, 'max_h2o': 0.01, 'max_z': 0.25,
                    'z_g': 0.5, 'relative': None, 'z_t': 5.0, 'z_u': 5.0},
            'init': {'z_s': 0.0, 'rho': 0.0, 't_s_0': ref.TF, 't_s': ref.TF,
                     'h2o_sat': 0.0, 'z_0': 0.005},
            'forcing': [row, row[:6] + [0.0] + row[7:], row],
            'mode': 'all'}


class PROP(TraceProp):
    id = 'C01'
    scen = {'modes': ('all', 'all', 'normal')}
    quick = 200

    def regressions(self):
        out = [('known finding', bare(1, 0.5, 1.0, 12.0)),
               ('dry first snow', bare(1, 1.0, -3.0, 12.0)),
               ('rain on bare ground', bare(1, 0.0, 3.0, 12.0))]
        # F8: a wet snowcover below the minimum mass turns into water once
        r = bare(1, 1.0, 0.0, 0.0)
        r['init'].update(z_s=0.00172, rho=590.0, h2o_sat=1.0)
        r['forcing'] = [[600.0, 300.0, ref.TF + 12, 600.0, 3.0, ref.TF + 2,
                         0.0, 1.0, 100.0, ref.TF]] * 4
        out.append(('melt-out of a wet snowcover', r))
        return out + TraceProp.regressions(self)

    def step(self, v, tr, s):
        p, r, f = s.prev, s.rec, s.f
        res = f['m_pp'] + r['E_s_sum'] - r['swi_sum'] - (r['m_s'] - p['m_s'])
        tol = 1e-8 + 1e-10 * (abs(r['m_s']) + abs(p['m_s']) + f['m_pp'])
        had, has = p['layer_count'] > 0, r['layer_count'] > 0
        if had != has or (has and r['swi_sum'] > 0 and
                          (f['m_pp'] > 0 or r['E_s_sum'] != 0)):
            v.nontrivial = True
        v.seen('snow:%s->%s%s%s' % (
            had, has, ' precip' if f['m_pp'] > 0 else '',
            ' runoff' if r['swi_sum'] > 0 else ''))
        if abs(res) <= tol:
            return
        if not f['m_snow'] > 0 or f['h2o_sat_snow'] != 1.0:
            wet = None
        else:
            # liquid water of all the new snow of this record
            wet = ref.water_capacity(
                f['z_snow'], f['rho_snow'], tr.c['max_h2o'])
            dry = (f['rho_snow'] - tr.c['max_h2o'] * ref.RHOW) / \
                (1 - tr.c['max_h2o'] * ref.RHOW / ref.RHOI)
            wet = max(wet, ref.water_capacity(
                f['z_snow'], dry, tr.c['max_h2o']))
        if wet is not None and tr.sc['mode'] == 'all' and not had and has:
            k = ref.Pack(p, f, tr.c, s.dt, dict.fromkeys(ref.FLUX, 0.0)
                         ).run()
            if k.formed and abs(-res - k.h2o_form) <= tol + 1e-8:
                v.known.append((KNOWN, tr.sc))
                v.seen('known finding')
                return
        if wet is not None and tr.sc['mode'] != 'all' and \
                min(p['m_s'], r['m_s']) < tr.c['thr'][1] and \
                -tol - wet <= res <= tol:
            v.seen('known finding within a record of several steps')
            return
        v.fail('%s: %.9g kg/m2 of water %s (precipitation %.9g, '
               'evaporation %.9g, runoff %.9g, mass %.9g -> %.9g)' % (
                   where(s), abs(res), 'lost' if res > 0 else 'created',
                   f['m_pp'], r['E_s_sum'], r['swi_sum'], p['m_s'],
                   r['m_s']))
