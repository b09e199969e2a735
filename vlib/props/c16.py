"""The CSV driver gives the model exactly the input file and writes exactly
what the model computed"""
from .. import csvcase
from ..core import Prop, Verdict


class PROP(Prop):
    id = 'C16'
    quick = 150
    thorough = 1500

    def strategy(self):
        return csvcase.cases(True, False)

    def check(self, case):
        v = Verdict()
        csvcase.compare(v, case)
        lay = case['lay']
        for k in ('cols', 'perm', 'extra', 'twice', 'as_object', 'first',
                  'ints', 'blank', 'stale', 'between', 'pad'):
            if lay.get(k):
                v.seen('with ' + k)
                v.nontrivial = True
        v.seen('output mode ' + case['sc']['mode'])
        v.seen('time zone ' + lay['zone'])
        return v
