"""Evaporation and condensation"""
from .base import PackProp


class PROP(PackProp):
    id = 'C13'
    quick = 190
    brinks = 4
    names = ('E_s_sum', 'm_s', 'z_s', 'h2o_total')
    events = ('evap_wet', 'dried')
