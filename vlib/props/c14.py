"""Density and depth"""
from .base import PackProp


class PROP(PackProp):
    id = 'C14'
    quick = 190
    names = ('rho', 'z_s')
    events = ('settle', 'wet_settle', 'clip')
