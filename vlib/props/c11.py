"""Thermodynamic and snow property functions"""
import math

from hypothesis import strategies as st

from .. import gen, ref
from ..client import ask
from ..core import Prop, Verdict

T = st.one_of(gen.num(150, 330, 2), gen.num(260, 285, 4), st.sampled_from(
    [ref.TF, ref.TF - 1e-6, ref.TF + 1e-6, ref.TB, 273.15]))
POS = gen.num(0.001, 3, 4)
P = gen.num(40000, 105000, 0)


def hysat(pb, tb, L, h, g, m):
    if L == 0:
        return pb * math.exp(-g * m * h * 1e3 / (ref.RG * tb))
    return pb * (tb / (tb + L * h)) ** (g * m * 1e3 / (ref.RG * L))


def psi(z, code):
    return ref.psi_m(z) if code == 'SM' else ref.psi_h(z)


# name: (arguments, expected, arrays allowed for which arguments)
FN = {
    'lib.satw': ([T], ref.es_water, None),
    'lib.sati': ([T], ref.es_ice, None),
    'lib.spec_hum': ([gen.num(1, 3000, 1), P], ref.q_spec, (0,)),
    'lib.psi': ([st.one_of(gen.num(-60, 30, 3), gen.num(-1, 1.5, 4),
                           st.sampled_from([0.0, 1.0, 1e-9, -1e-9])),
                 st.sampled_from(['SM', 'SH', 'SV'])], psi, None),
    'lib.efcon': ([POS, T, P], ref.k_eff, None),
    'fn.hysat': ([P, gen.num(250, 310, 1),
                  st.one_of(st.just(0), gen.num(-9, 9, 2)),
                  gen.num(-0.4, 6, 3), st.just(ref.G0), st.just(ref.MA)],
                 hysat, (3,)),
    'fn.k_to_c': ([T], lambda t: t - ref.TF, (0,)),
    'fn.cp_ice': ([T], ref.cp_i, (0,)),
    'fn.cp_water': ([T], ref.cp_w, (0,)),
    'fn.time_average': ([gen.num(-500, 500, 2), gen.num(1, 7200, 0),
                         gen.num(-500, 500, 2), gen.num(1, 7200, 0)],
                        lambda a, t, x, d: (a * t + x * d) / (t + d),
                        (0, 2)),
    'fn.gas_density': ([P, st.just(ref.MA), T],
                       lambda p, m, t: p * m / (ref.RG * t), (0, 2)),
    'fn.virtual_temperature': ([T, gen.num(1, 3000, 1), P],
                               lambda t, e, p: t / (
                                   1 - (1 - ref.MW / ref.MA) * e / p),
                               (0, 1)),
    'fn.lh_vap': ([T], ref.l_vap, (0,)),
    'fn.lh_fus': ([T], ref.l_fus, (0,)),
    'fn.lh_sub': ([T], ref.l_sub, (0,)),
    'fn.mix_ratio': ([gen.num(1, 3000, 1), P], ref.w_mix, (0,)),
    'fn.diffusion_coef': ([P, T], ref.diffusivity, (0, 1)),
    'fn.vapor_flux': ([POS, POS, gen.num(-0.01, 0.01, 6), POS],
                      lambda a, k, q, z: a * k * q / z, (2,)),
    'snow.h2o_left': ([gen.num(0, 6, 3), gen.num(30, 600, 1),
                       gen.num(0, 1, 3)],
                      lambda d, r, s: ref.water_capacity(d, r, s), (0, 1, 2)),
    'snow.melt': ([gen.num(0, 5e6, 1)], lambda q: q / ref.LF0, (0,)),
    'snow.new_tsno': ([gen.num(0.5, 900, 2), gen.num(200, 273, 2),
                       gen.num(-5e6, 0, 0)],
                      lambda m, t, c: ref.TF + c / (m * ref.cp_i(t)),
                      (0, 1, 2)),
    'snow.heat_stor': ([gen.num(1500, 4300, 1), POS, gen.num(-60, 60, 2)],
                       lambda c, m, d: c * m * d, (0, 1, 2)),
}


@st.composite
def batch(draw):
    name = draw(st.sampled_from(sorted(FN)))
    spec, _, arr = FN[name]
    rows = draw(st.lists(st.tuples(*spec).map(list), min_size=2,
                         max_size=30))
    which = None
    if arr:
        which = draw(st.sampled_from(arr))
    return {'fn': name, 'rows': rows, 'array': which,
            'grid': draw(st.booleans())}


class PROP(Prop):
    id = 'C11'
    quick = 400
    thorough = 12000

    def strategy(self):
        return st.one_of(batch(), batch(), st.fixed_dictionaries({
            'sat': st.lists(T, min_size=2, max_size=40),
            'neg': st.lists(gen.num(-50, -0.01, 2), max_size=4),
            'grid': st.booleans()}))

    def check(self, case):
        v = Verdict()
        if 'sat' in case:
            self.saturation(v, case)
            return v
        name, rows = case['fn'], case['rows']
        spec, fn, _ = FN[name]
        got = ask(op='call', fn=name, calls=rows)
        for a, g in zip(rows, got):
            v.units += 1
            if 'exc' in g:
                v.fail('%s%r: %s' % (name, tuple(a), g['exc']))
                continue
            w = fn(*a)
            if not self.same(g['r'], w):
                v.fail('%s%r is %r, expected %r' % (
                    name, tuple(a), g['r'], w))
        v.seen(name)
        v.nontrivial = len(set(map(str, rows))) > 1
        if case['array'] is not None:
            i = case['array']
            a = list(rows[0])
            xs = [r[i] for r in rows]
            if name == 'fn.hysat' and a[2] == 0:
                v.seen('isothermal atmosphere')
            a[i] = {'__arr__': xs, 'shape': [len(xs)]}
            if case.get('grid') and len(xs) % 2 == 0:
                a[i]['shape'] = [2, len(xs) // 2]
                v.seen('arrays of two dimensions')
            g = ask(op='call', fn=name, calls=[a])[0]
            v.units += 1
            if g.get('args_changed'):
                v.fail('%s changed its argument' % name)
            if 'exc' in g:
                v.fail('%s with an array as argument %d: %s' % (
                    name, i, g['exc']))
                return v
            if g['r']['shape'] != a[i]['shape']:
                v.fail('%s: shape %s for an argument of shape %s' % (
                    name, g['r']['shape'], a[i]['shape']))
            for j, x in enumerate(xs):
                b = list(rows[0])
                b[i] = x
                if not self.same(g['r']['__arr__'][j], fn(*b)):
                    v.fail('%s%r is %r in an array, expected %r' % (
                        name, tuple(b), g['r']['__arr__'][j], fn(*b)))
            v.seen('arrays')
        return v

    @staticmethod
    def same(x, w):
        return isinstance(x, (int, float)) and \
            abs(x - w) <= 1e-10 * abs(w) + 1e-13

    def saturation(self, v, case):
        ts = sorted(set(case['sat']))
        calls = [[t] for t in ts]
        ice = ask(op='call', fn='lib.sati', calls=calls)
        wat = ask(op='call', fn='lib.satw', calls=calls)
        arr = {'__arr__': ts + case['neg'],
               'shape': [len(ts) + len(case['neg'])]}
        if case.get('grid') and arr['shape'][0] % 2 == 0:
            arr['shape'] = [2, arr['shape'][0] // 2]
        ia = ask(op='call', fn='lib.sati_np', calls=[[arr]])[0]
        wa = ask(op='call', fn='lib.satw_np', calls=[[arr]])[0]
        for g in ice + wat + [ia, wa]:
            if 'exc' in g:
                v.fail('saturation vapor pressure of %s: %s' % (
                    ts, g['exc']))
                return
            if g.get('args_changed'):
                v.fail('a saturation function changed its argument')
        v.units += 2 * len(ts)
        v.nontrivial = len(ts) > 3
        last = 0
        for j, t in enumerate(ts):
            i, w = ice[j]['r'], wat[j]['r']
            if not self.same(ia['r']['__arr__'][j], i) or \
                    not self.same(wa['r']['__arr__'][j], w):
                v.fail('scalar and array saturation vapor pressure differ '
                       'at %r K: %r %r, %r %r' % (
                           t, i, ia['r']['__arr__'][j], w,
                           wa['r']['__arr__'][j]))
            if not self.same(i, ref.es_ice(t)):
                v.fail('saturation over ice at %r K: %r, expected %r' % (
                    t, i, ref.es_ice(t)))
            if not self.same(w, ref.es_water(t)):
                v.fail('saturation over water at %r K: %r, expected %r' % (
                    t, w, ref.es_water(t)))
            if t > ref.TF and i != w:
                v.fail('above freezing the two must agree: %r K' % t)
            if 230 < t < ref.TF and i > w * (1 + 1e-3):
                v.fail('saturation over ice above the one over water at %r '
                       'K' % t)
            if i <= last:
                v.fail('saturation vapor pressure does not rise with the '
                       'temperature at %r K' % t)
            last = i
        for j in range(len(ts), len(ts) + len(case['neg'])):
            if not math.isnan(ia['r']['__arr__'][j]) or \
                    not math.isnan(wa['r']['__arr__'][j]):
                v.fail('negative absolute temperature gives a number')
        for f in ('lib.sati', 'lib.satw'):
            for t, g in zip(case['neg'], ask(op='call', fn=f, calls=[
                    [t] for t in case['neg']])):
                if 'exc' not in g or g['exc']['type'] != 'ValueError':
                    v.fail('%s(%r) was not rejected: %r' % (f, t, g))
                v.seen('negative temperature')
        v.seen('saturation curves')
