"""Every option of the configuration reaches the model"""
from .. import csvcase
from ..client import ask
from ..core import Prop, Verdict
from ..trace import Trace
from . import whole


class PROP(Prop):
    id = 'C17'
    quick = 90
    thorough = 1500

    def strategy(self):
        from hypothesis import strategies as st

        def finish(x):
            case, omit = x
            case['lay']['defaults'] = omit
            return case
        return st.tuples(csvcase.cases(False, True), st.booleans()).map(
            finish)

    def check(self, case):
        v = Verdict()
        csvcase.compare(v, case)
        if not v.fails:
            # and the model follows what it is given
            used = csvcase.files(case)[1]
            sc = dict(csvcase.direct(case['sc'], used), mode='all')
            nt = v.nontrivial
            whole.judge(v, Trace(sc, ask(op='run', sc=sc)))
            v.nontrivial = nt
        c = case['sc']['cfg']
        d = csvcase.DEFAULTS
        n = sum(c[k] != d[k] for k in d)
        v.seen('options off their default: %s' % ('0-3' if n < 4 else '4+'))
        v.nontrivial = n > 3
        if case['lay']['defaults']:
            v.seen('defaults left out of the file')
        if c['relative']:
            v.seen('relative heights')
        if case['sc']['init']['z_s'] > 0:
            v.seen('initial snow')
        return v
