"""Tolerances of the comparisons between a record and its reference"""
import math

# name: (relative, absolute)
TOL = {
    'rho': (1e-9, 1e-8), 'z_s': (1e-9, 1e-10), 'z_s_0': (1e-9, 1e-10),
    'z_s_l': (1e-8, 1e-10), 'm_s': (1e-9, 1e-8), 'm_s_0': (1e-9, 1e-8),
    'm_s_l': (1e-8, 1e-8), 't_s': (0, 1e-6), 't_s_0': (0, 1e-6),
    't_s_l': (0, 1e-6), 'cc_s_0': (1e-8, 1e-2), 'cc_s_l': (1e-8, 1e-2),
    'cc_s': (1e-8, 1e-2), 'h2o': (1e-8, 2e-8), 'h2o_sat': (1e-7, 1e-7),
    'h2o_max': (1e-8, 1e-9), 'h2o_vol': (1e-7, 1e-9),
    'h2o_total': (1e-8, 2e-8), 'layer_count': (0, 0),
    'melt_sum': (1e-8, 1e-9), 'swi_sum': (1e-8, 2e-8),
    'E_s_sum': (1e-8, 1e-10), 'R_n': (1e-9, 1e-6), 'G': (1e-8, 1e-6),
    'G_0': (1e-8, 1e-6), 'M': (1e-8, 1e-6), 'delta_Q': (1e-9, 1e-6),
    'delta_Q_0': (1e-9, 1e-6),
}


def close(name, a, b, scale=1.0):
    r, t = TOL[name]
    try:
        if math.isnan(a) or math.isnan(b):
            return False
        return abs(a - b) <= scale * (t + r * max(abs(a), abs(b)))
    except TypeError:
        return False
