"""Energy goes into cold content, melt and refreezing as the budget says"""
from .base import PackProp


class PROP(PackProp):
    id = 'C03'
    quick = 190
    names = ('melt_sum', 'cc_s_0', 'cc_s_l', 'cc_s', 't_s_0', 't_s_l', 't_s')
    events = ('melt', 'refreeze', 'refreeze_all')
