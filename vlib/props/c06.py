"""Division of the data time step and the clock of the model"""
from .base import TraceProp


def below(st, thr):
    n = st['layer_count']
    if n == 0:
        return False
    if n == 1:
        return st['m_s'] < thr
    return st['m_s_0'] < thr or st['m_s_l'] < thr


class PROP(TraceProp):
    id = 'C06'
    scen = {'modes': ('all', 'all', 'normal'), 'flashes': 5}
    quick = 230

    def begin(self, v, tr):
        sc, recs = tr.sc, tr.recs
        data, n, m, sm = sc['cfg']['steps']
        thr = sc['cfg']['thr']
        k = len(tr.marks)          # data steps that were finished
        if tr.exc is None and k != len(sc['forcing']) - 1:
            v.fail('%d data steps for %d input records' % (
                k, len(sc['forcing'])))
        if tr.exc is None and tr.res['clock'] != k * data * 60:
            v.fail('clock is at %r s after %d data steps of %d min' % (
                tr.res['clock'], k, data))
        want, at = [], 0
        if sc['mode'] != 'all':
            for d in range(k):
                at += data
                want.append(at * 60)
                if tr.marks[d] != len(want):
                    v.fail('%d records after data step %d, expected %d' % (
                        tr.marks[d], d, len(want)))
                    return
            if tr.exc is None and len(recs) != k:
                v.fail('%d records for %d data steps' % (len(recs), k))
            got = [r['t'] for r in recs[:len(want)]]
            if got != want:
                v.fail('times of the records %s, expected %s' % (
                    got[:8], want[:8]))
            v.seen('output once per data step')
            return
        i = 0
        st = tr.init

        def take(dt):
            """next record must be dt minutes on"""
            nonlocal i, st, at
            if i >= len(recs):
                raise StopIteration
            at += dt
            if recs[i]['t'] != at * 60:
                v.fail('run step %d ends at %r s, expected %r s (a step of '
                       '%g min; layer masses before it %r %r)' % (
                           i, recs[i]['t'], at * 60, dt,
                           st['m_s_0'], st['m_s_l']))
                raise StopIteration
            st = recs[i]
            i += 1

        used = set()
        try:
            for d in range(len(sc['forcing']) - 1):
                for _ in range(int(data / n)):
                    if not below(st, thr[0]):
                        take(n)
                        used.add('normal')
                        continue
                    for _ in range(int(n / m)):
                        if not below(st, thr[1]):
                            take(m)
                            used.add('medium')
                            continue
                        for _ in range(int(m / sm)):
                            take(sm)
                            used.add('small')
                if d < k and tr.marks[d] != i:
                    v.fail('%d run steps in data step %d end where %d are '
                           'due' % (tr.marks[d], d, i))
                    return
        except StopIteration:
            if tr.exc is None and not v.fails:
                v.fail('records end within a data step')
        if not v.fails and i != len(recs):
            v.fail('%d more records than run steps' % (len(recs) - i))
        v.seen('levels used: %s' % ' '.join(sorted(used)))
        v.nontrivial = len(used) > 1

    def step(self, v, tr, s):
        if s.dt <= 0:
            v.fail('record %d does not move in time' % s.i)
