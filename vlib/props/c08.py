"""A record per data step aggregates the records of its run steps"""
from hypothesis import strategies as st

from .. import gen
from ..client import ask
from ..core import Prop, Verdict
from ..trace import STATE, Trace

BARS = [n for n in STATE if n.endswith('_bar')]
SUMS = [n for n in STATE if n.endswith('_sum')]


class PROP(Prop):
    id = 'C08'
    quick = 150
    thorough = 2500

    def strategy(self):
        return st.integers(0, 5).flatmap(
            lambda i: (gen.scenario() if i else gen.moments()))

    def check(self, case):
        v = Verdict()
        for sc in case.get('many', [case]):
            self.pair(v, sc)
            if v.fails:
                break
        return v

    @staticmethod
    def pair(v, sc):
        a = Trace(sc, ask(op='run', sc=dict(sc, mode='all')))
        n = Trace(sc, ask(op='run', sc=dict(sc, mode='normal')))
        if (a.exc is None) != (n.exc is None) or (
                a.exc and (a.exc['type'], a.exc['step']) !=
                (n.exc['type'], n.exc['step'])):
            v.fail('output mode changes how the run ends: %s / %s' % (
                a.exc, n.exc))
            return
        if a.exc:
            v.seen('run ended early')
        if a.init is None:
            return
        if a.res['init'] != n.res['init']:
            v.fail('output mode changes the initial state')
        if len(n.recs) != len(n.marks):
            v.fail('%d records for %d data steps' % (
                len(n.recs), len(n.marks)))
            return
        lo = 0
        for d, r in enumerate(n.recs):
            part = a.recs[lo:a.marks[d]]
            start = a.recs[lo - 1]['t'] if lo else 0.0
            lo = a.marks[d]
            v.units += 1
            if not part:
                v.fail('no run steps in data step %d' % d)
                break
            if len(part) > 1:
                v.nontrivial = True
            v.seen('run steps in a record: %s' % (
                '1' if len(part) == 1 else '2-9' if len(part) < 10
                else '10+'))
            last = part[-1]
            for k in ['t'] + STATE[:19]:
                if not abs(r[k] - last[k]) <= 1e-12 * abs(last[k]):
                    v.fail('record %d: %s is %r, its last run step has %r' %
                           (d, k, r[k], last[k]))
            t, tot = start, 0.0
            acc = dict.fromkeys(BARS + SUMS, 0.0)
            mag = dict.fromkeys(BARS + SUMS, 0.0)
            for p in part:
                dt = p['t'] - t
                t = p['t']
                tot += dt
                for k in BARS:
                    acc[k] += p[k] * dt
                    mag[k] += abs(p[k]) * dt
                for k in SUMS:
                    acc[k] += p[k]
                    mag[k] += abs(p[k])
            for k in BARS + SUMS:
                w, m = acc[k], mag[k]
                if k in BARS:
                    w, m = w / tot, m / tot
                if not abs(r[k] - w) <= 1e-10 + 1e-9 * m:
                    v.fail('record %d: %s is %r, %s of its %d run steps is '
                           '%r' % (d, k, r[k], 'the average' if k in BARS
                                   else 'the sum', len(part), w))
            if len(v.fails) > 4:
                break
