"""Liquid water and runoff"""
from .base import PackProp


class PROP(PackProp):
    id = 'C15'
    quick = 190
    names = ('h2o', 'h2o_sat', 'h2o_max', 'h2o_vol', 'h2o_total', 'swi_sum')
    events = ('runoff', 'rain_on_bare', 'form_too_thin')
