"""Shared parts of the properties that are judged on the records of a run"""
import itertools
import json

from hypothesis import strategies as st

from .. import gen, ref
from ..client import ask
from ..compare import TOL, close
from ..core import Prop, Verdict
from ..trace import STATE, Trace

ENERGY = ('R_n', 'H', 'L_v_E', 'G', 'G_0', 'M', 'delta_Q', 'delta_Q_0')


def actual(rec):
    """the reported energy fluxes of a record"""
    return {n: rec[n + '_bar'] for n in ENERGY}


class Look(object):
    """One run time step, seen by the reference.

    The climate input of a sub step is the result of accumulated additions,
    so a soil or air temperature that passes exactly through freezing may be
    on either side of it; both sides are admissible."""

    def __init__(self, tr, s):
        self.tr, self.s = tr, s
        self._packs = None
        f = s.f
        opts = []
        for k in ('t_g', 't_a'):
            if abs(f[k] - ref.TF) < 1e-6 and not (
                    s.frac0 == 0 or s.a[k] == s.b[k]):
                opts.append([(k, ref.TF - 1e-12), (k, ref.TF),
                             (k, ref.TF + 1e-12 + 1e-9)])
        self.forcings = [f]
        for combo in itertools.product(*opts):
            if combo:
                g = dict(f)
                g.update(combo)
                self.forcings.append(g)

    def flux(self, turb=False):
        return [ref.fluxes(self.s.prev, f, self.tr.c, self.s.dt, turb)
                for f in self.forcings]

    def pack(self, pert=None, f=None):
        s = self.s
        return ref.Pack(s.prev, f or s.f, self.tr.c, s.dt, actual(s.rec),
                        pert).run()

    def matches(self, names):
        """The reference step that agrees with the record in these names,
        or (None, description).  Decisions that rounding could turn are
        tried both ways."""
        s = self.s
        first = None
        for f in self.forcings:
            try:
                k = self.pack(f=f)
            except (ZeroDivisionError, OverflowError, ValueError):
                continue
            bad = differ(k, s.rec, names)
            if not bad:
                return k, None
            first = first or (k, bad)
        base = self.forcings[-1] if len(self.forcings) > 1 else s.f
        for f in ([s.f] if base is s.f else self.forcings):
            for name in ref.PERT:
                for sg in (-1, 1):
                    try:
                        k = self.pack({name: sg}, f)
                    except (ZeroDivisionError, OverflowError, ValueError):
                        continue
                    if not differ(k, s.rec, names):
                        return k, None
            for sg in itertools.product((-1, 1), repeat=2):
                try:
                    k = self.pack({'thr': sg[0], 'maxz': sg[1]}, f)
                except (ZeroDivisionError, OverflowError, ValueError):
                    continue
                if not differ(k, s.rec, names):
                    return k, None
        if first is None:
            return None, 'the reference cannot take this step'
        return None, first[1]


def differ(k, rec, names):
    st = k.state()
    bad = ['%s is %r, expected %r' % (n, rec[n], st[n]) for n in names
           if not close(n, st[n], rec[n])]
    return '; '.join(bad)


def sides(tr, i):
    """on which side of the decisions of the model a record is"""
    r = tr.recs[i]
    return {'snow': r['layer_count'] > 0, 'two layers': r['layer_count'] > 1,
            'water': r['h2o_total'] > 0, 'runoff': r['swi_sum'] > 0,
            'cold surface': r['cc_s_0'] < 0, 'cold base': r['cc_s_l'] < 0,
            'melt': r['melt_sum'] > 0, 'gain of vapor': r['E_s_sum'] > 0,
            'densest': r['rho'] >= 600, 'dense': r['rho'] >= 550,
            'heavy': r['m_s'] >= 2000,
            'steps': tr.marks[0] if tr.marks else 0}


def where(s):
    return 'step %d (data step %d, t=%g s, dt=%g s)' % (
        s.i, s.k, s.t0, s.dt)


def unexplained(sc, res):
    """None if the equations explain why a run ended with an error"""
    if 'converge' in res['exc']['msg']:
        return None
    if sc.get('mode', 'all') != 'all':
        # look at it step by step
        sc = dict(sc, mode='all')
        al = ask(op='run', sc=sc)
        if not al['exc']:
            return '%s: %s' % (res['exc']['type'], res['exc']['msg'])
        res = al
    return Trace(sc, res).explain_exc()


def first_state(v, tr, names=None):
    """the state that a run starts with"""
    want = ref.initial(tr.sc['init'], tr.c)
    for k in STATE[:19]:
        if k in want and (names is None or k in names) and \
                not close(k, want[k], tr.init[k]):
            v.fail('initial state: %s is %r, expected %r' % (
                k, tr.init[k], want[k]))


class TraceProp(Prop):
    """Runs a scenario with a record of every run time step and judges each
    step on its own, starting from the recorded state before it."""
    scen = {}
    quick = 120
    thorough = 2500

    # one in so many cases closes in on a decision of the model
    brinks = 7

    def strategy(self):
        return self.mix()

    def mix(self, *more):
        """the scenarios of the property, some of its own kind of cases, and
        cases that close in on a decision"""
        sc = gen.scenario(**self.scen)
        kinds = [sc] * (self.brinks - 1 - len(more)) + list(more) + \
            [gen.brink(), gen.moments()]
        return st.integers(0, len(kinds) - 1).flatmap(lambda i: kinds[i])

    def check(self, case):
        v = Verdict()
        if 'brink' in case:
            self.close_in(v, case)
        elif 'many' in case:
            v.seen('single data time steps')
            for sc in case['many']:
                self.run(v, sc)
                if v.fails:
                    break
        else:
            self.run(v, case)
        return v

    def close_in(self, v, case):
        """Halves the range of one number between two values for which the
        first step ends differently; all the runs on the way are judged."""
        b = case['brink']

        def at(x):
            sc = json.loads(json.dumps(case['sc']))
            o = sc
            for k in b['path'][:-1]:
                o = o[k]
            o[b['path'][-1]] = x
            tr = self.run(v, sc)
            if v.fails:
                v.fails[0] = '%s=%r: %s' % (b['path'], x, v.fails[0])
            if tr.exc is not None or not tr.recs:
                return None
            return sides(tr, tr.marks[0] - 1 if b['late'] else 0)

        lo, hi = b['lo'], b['hi']
        a, z = at(lo), at(hi)
        if a is None or z is None or v.fails:
            return
        which = [k for k in a if a[k] != z[k]]
        if not which:
            v.seen('no decision within the range')
            return
        k = which[b['pick'] % len(which)]
        if b.get('want') in which:
            k = b['want']
        v.seen('closing in on: ' + k)
        for _ in range(b['depth']):
            m = 0.5 * (lo + hi)
            x = at(m)
            if x is None or v.fails:
                return
            if x[k] == a[k]:
                lo = m
            else:
                hi = m

    def run(self, v, sc):
        tr = Trace(sc, ask(op='run', sc=sc))
        self.judge(v, tr)
        return tr

    def judge(self, v, tr):
        if not self.ended(v, tr):
            return
        self.begin(v, tr)
        for s in tr.steps():
            v.units += 1
            self.classify(v, s)
            self.step(v, tr, s)
            if len(v.fails) >= 5:
                break
        self.end(v, tr)

    def ended(self, v, tr):
        if tr.exc is not None:
            w = unexplained(tr.sc, tr.res)
            if w:
                v.fail('the run ended with an error that the input does not '
                       'explain: ' + w)
            else:
                v.seen('run ended early, no convergence' if
                       'converge' in tr.exc['msg'] else
                       'run ended early, input out of domain')
        if tr.init is None:
            return False
        bad = [k for r in tr.recs for k, x in r.items()
               if not isinstance(x, (int, float))]
        if bad:
            v.fail('record holds something that is not a number: %s' %
                   sorted(set(bad)))
            return False
        return True

    def begin(self, v, tr):
        pass

    def end(self, v, tr):
        pass

    def classify(self, v, s):
        a, b = s.prev['layer_count'], s.rec['layer_count']
        v.seen('layers %d->%d' % (a, b))

    def step(self, v, tr, s):
        raise NotImplementedError


class PackProp(TraceProp):
    """Compares some quantities of every record with the reference step"""
    names = ()
    events = ()        # what makes a case non-trivial

    def begin(self, v, tr):
        first_state(v, tr, self.names)

    def step(self, v, tr, s):
        k, bad = Look(tr, s).matches(self.names)
        if k is None:
            v.fail('%s: %s' % (where(s), bad))
            return
        for e in k.log:
            v.seen(e)
            if e in self.events:
                v.nontrivial = True


assert TOL
