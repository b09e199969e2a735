"""Judges every quantity of every record of a run at once"""
from ..compare import close
from ..trace import STATE
from .base import Look, first_state, where
from .c06 import PROP as C06
from .c07 import turbulent

NAMES = tuple(STATE[:19]) + ('melt_sum', 'E_s_sum', 'swi_sum')


def step(v, tr, s):
    p, r = s.prev, s.rec
    look = Look(tr, s)
    if p['layer_count']:
        bad = None
        for fl, _ in look.flux():
            bad = ['%s is %r, expected %r' % (n, r[n + '_bar'], fl[n])
                   for n in ('R_n', 'M', 'G', 'G_0')
                   if not close(n, fl[n], r[n + '_bar'])]
            if not bad:
                break
        if bad:
            v.fail('%s: %s' % (where(s), '; '.join(bad)))
        t = turbulent(look)
        if t is not None:
            v.fail('%s: %s' % (where(s), t))
    k, bad = look.matches(NAMES)
    if k is None:
        v.fail('%s: %s' % (where(s), bad))


def judge(v, tr):
    """a run with a record of every run time step"""
    if tr.init is None or tr.exc is not None:
        return
    first_state(v, tr)
    C06().begin(v, tr)
    for s in tr.steps():
        if v.fails:
            return
        step(v, tr, s)
