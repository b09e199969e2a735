"""Runs are reproducible and do not influence each other or their inputs"""
import json

from hypothesis import strategies as st

from .. import gen
from ..client import Worker, ask
from ..core import Prop, Verdict
from .base import unexplained


def text(r):
    return json.dumps({k: r.get(k) for k in (
        'exc', 'marks', 'init', 'recs', 'clock')}, sort_keys=True)


def first_diff(a, b):
    for i, (x, y) in enumerate(zip(a.get('recs', []), b.get('recs', []))):
        if json.dumps(x) != json.dumps(y):
            return 'record %d: %s / %s' % (i, x[:8], y[:8])
    return '%s records, %s / %s records, %s' % (
        len(a.get('recs', [])), a['exc'], len(b.get('recs', [])), b['exc'])


def nudged(sc, eps):
    """hardly another run"""
    sc = json.loads(json.dumps(sc))
    for k in ('t_s', 't_s_0'):
        sc['init'][k] -= abs(eps)
    for r in sc['forcing']:
        for j in (0, 1, 2, 5):
            r[j] = max(r[j] + eps, 0.0)
    return sc


KEYS = ['elevation', 'z_t', 'z_u', 'z_g', 'max_z', 'max_h2o', 'thr', 'z_0',
        'rho', 'z_s']


def other(sc, key, eps):
    """another run that hardly differs in one parameter"""
    sc = json.loads(json.dumps(sc))
    c, i = sc['cfg'], sc['init']
    f = 1 + 10 * eps
    if key == 'thr':
        c['thr'][2] *= f
    elif key == 'elevation':
        c['elevation'] += 1e4 * eps
    elif key in c:
        c[key] = c[key] * f + (eps if key == 'max_h2o' else 0)
    else:
        i[key] *= f
    return sc


class PROP(Prop):
    id = 'C18'
    quick = 100
    thorough = 1500

    def strategy(self):
        one = gen.scenario(nseg=2, modes=('all', 'normal'), long=False)
        return st.fixed_dictionaries({
            'scs': st.one_of(st.lists(one, min_size=1, max_size=3),
                             st.tuples(one, one).map(list),
                             st.tuples(one, one).map(list)),
            'order': st.one_of(
                st.lists(st.integers(0, 2), max_size=30),
                st.lists(st.integers(0, 1), min_size=4, max_size=30)),
            # a process of its own, after runs that hardly differ in this one
            'near': st.sampled_from([None] * 8 + [1e-9, 1e-6, 1e-4, 3e-4]),
            'keys': st.one_of(st.just(KEYS), st.lists(
                st.sampled_from(KEYS), max_size=3)),
            # once more in the other output mode, with the same objects
            'twin': st.booleans(),
            'shift': st.one_of(
                st.just(0), st.sampled_from([1, 60, 525600, 77777]),
                gen.num(0, 2e7, 0).map(int))})

    def check(self, case):
        v = Verdict()
        scs = case['scs']
        near = case.get('near')
        if near:
            for eps in (near, -near):
                ask(op='run', sc=nudged(scs[0], eps))
            for k in case.get('keys', ()):
                ask(op='run', sc=other(scs[0], k, near))
        alone = [ask(op='run', sc=s) for s in scs]
        for r in alone:
            v.units += len(r.get('recs', []))
            if r['mutated']:
                v.fail('the input record that ends data step %s was changed'
                       % r['mutated'])
            if r['args_mutated']:
                v.fail('parameters, initial conditions or heights given to '
                       'the model were changed')
        if near:
            w = Worker()
            try:
                own = w.ask(op='run', sc=scs[0])
            finally:
                w.stop()
            if text(own) != text(alone[0]):
                v.fail('a run differs from the same run in a process of its '
                       'own: %s' % first_diff(alone[0], own))
            v.seen('process of its own')
        both = ask(op='runs', scs=scs, order=case['order'])
        for i, (a, b) in enumerate(zip(alone, both)):
            if text(a) != text(b):
                v.fail('run %d of %d differs when the runs take turns: %s' %
                       (i, len(scs), first_diff(a, b)))
        if case.get('twin'):
            sc = dict(scs[0], mode='normal' if scs[0].get(
                'mode', 'all') == 'all' else 'all')
            want = [alone[0], ask(op='run', sc=sc)]
            two = ask(op='runs', scs=[scs[0], sc], order=case['order'],
                      share=True)
            for a, b in zip(want, two):
                if text(a) != text(b):
                    v.fail('a run differs when another one, in the other '
                           'output mode, is given the same parameters: %s' %
                           first_diff(a, b))
                if b['args_mutated']:
                    v.fail('parameters, initial conditions or heights given '
                           'to two models were changed')
            v.seen('objects shared by two runs')
        again = ask(op='run', sc=scs[0])
        if text(again) != text(alone[0]):
            v.fail('a repeated run differs: %s' % first_diff(
                alone[0], again))
        fresh = ask(op='run', sc=dict(scs[0], fresh_inputs=True))
        if text(fresh) != text(alone[0]):
            v.fail('passing the record on from one data step to the next '
                   'differs from making it anew: %s' % first_diff(
                       alone[0], fresh))
        if case['shift']:
            sc = dict(scs[0], cfg=dict(
                scs[0]['cfg'], start_min=case['shift']))
            moved = ask(op='run', sc=sc)
            if text(moved) != text(alone[0]):
                v.fail('the start date changes the result: %s' % first_diff(
                    alone[0], moved))
            v.seen('another start date')
        v.seen('runs at once: %d' % len(scs))
        for r, sc in zip(alone, scs):
            if r['exc']:
                v.seen('with a run that ended early')
                w = unexplained(sc, r)
                if w:
                    v.fail('a run ended with an error that its input does '
                           'not explain: ' + w)
        v.nontrivial = len(set(case['order'])) > 1 and len(scs) > 1 and all(
            len(r.get('recs', [])) > 2 for r in alone)
        return v
