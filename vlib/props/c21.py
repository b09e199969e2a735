"""Derived quantities always belong to the values they derive from"""
from hypothesis import strategies as st

from .. import gen, ref
from ..client import ask
from ..core import Prop, Verdict

TEMP = st.one_of(gen.num(230, 273.16, 2), st.just(ref.TF),
                 gen.num(273.17, 290, 2))
ENERGY = ['R_n', 'H', 'L_v_E', 'G', 'G_0', 'M', 'delta_Q', 'delta_Q_0']
SNAP = ['e_s_0', 'e_s_l', 'cc_s', 'isothermal', 'kts', 'dry_snow_density',
        'z_s', 'z_s_0', 'z_s_l', 'm_s', 'm_s_0', 'm_s_l', 't_s', 't_s_0',
        't_s_l', 'E_s_sum', 'melt_sum', 'swi_sum'] + [
            e + '_bar' for e in ENERGY]


# hardly changed: a value that is kept must not be that of before
NUDGE = st.sampled_from([1e-6, -1e-5, 1e-4, -1e-4, 5e-4, 9e-4, -1e-3, 5e-3,
                         -1e-2, 0.04])


@st.composite
def snow_ops(draw):
    kw = {'max_z_s_0': draw(st.sampled_from([0.25, 0.1, 0.5])),
          'small_threshold': draw(st.sampled_from([1, 2, 5]))}
    op = st.one_of(
        st.tuples(st.just('set'), st.sampled_from(['t_s_0', 't_s_l', 't_s']),
                  TEMP),
        st.tuples(st.just('nudge'), st.sampled_from(['t_s_0', 't_s_l']),
                  NUDGE),
        st.tuples(st.just('set'), st.just('rho'), gen.num(50, 600, 0)),
        st.tuples(st.just('set'), st.sampled_from(['cc_s_0', 'cc_s_l']),
                  st.sampled_from([0.0, -1e4, -2e6])),
        st.tuples(st.just('set'), st.just('h2o_vol'), gen.num(0, 0.1, 3)),
        st.tuples(st.just('snow'), gen.num(0, 2, 2), gen.num(50, 600, 0)),
        st.tuples(st.just('temps'), st.just(0)),
        st.tuples(st.just('flux'), st.lists(gen.num(-300, 300, 1), min_size=8,
                                            max_size=8),
                  st.lists(gen.num(-2, 5, 2), min_size=3, max_size=3)),
        st.tuples(st.just('bar'), st.just(0)),
        st.tuples(st.just('avg'), st.sampled_from([60, 300, 900, 3600])),
        st.tuples(st.just('zero'), st.sampled_from(
            ['h2o_vol', 'cc_s_0', 'cc_s_l', 'cc_s_0 cc_s_l'])),
        st.tuples(st.just('dict'), TEMP, TEMP),
        st.tuples(st.just('read'), st.sampled_from(['e_s_0', 'e_s_l'])))
    return {'snow': draw(st.lists(op.map(list), min_size=2, max_size=25)),
            'kw': kw}


@st.composite
def input_ops(draw):
    row = st.one_of(gen.segment(maxlen=1)).map(lambda r: r[0])
    op = st.one_of(
        st.tuples(st.just('set'), st.sampled_from(['t_a', 't_g']), TEMP),
        st.tuples(st.just('nudge'), st.sampled_from(['t_a', 't_g']), NUDGE),
        st.tuples(st.just('nudge'), st.sampled_from(['t_a', 't_g']), NUDGE),
        st.tuples(st.just('add'), row), st.tuples(st.just('precip'), row),
        st.tuples(st.just('read'), st.sampled_from(['sat_vp', 'e_g'])))
    return {'input': draw(row),
            'ops': draw(st.lists(op.map(list), min_size=1, max_size=15))}


class PROP(Prop):
    id = 'C21'
    quick = 300
    thorough = 6000

    def strategy(self):
        return st.one_of(snow_ops(), input_ops())

    def check(self, case):
        v = Verdict()
        if 'snow' in case:
            self.snow(v, case)
        else:
            self.input(v, case)
        return v

    def snow(self, v, case):
        kw = case['kw']
        m = {'t_s_0': 270.0, 't_s_l': 268.0, 't_s': 269.0, 'rho': 0.0,
             'cc_s_0': 0, 'cc_s_l': 0, 'h2o_vol': 0, 'z_s': 0, 'z_s_0': 0,
             'z_s_l': 0, 'm_s': 0, 'm_s_0': 0, 'm_s_l': 0}
        ops = [['dict', {k: m[k] for k in ('t_s_0', 't_s_l', 't_s')}]]
        want = [None]
        flux = dict.fromkeys(ENERGY, 0.0)
        sums = dict.fromkeys(('E_s', 'melt', 'swi'), 0.0)
        hist = None          # [(dt, flux, sums)] since the last 'bar'

        def expect():
            w = {k: m[k] for k in ('z_s', 'z_s_0', 'z_s_l', 'm_s', 'm_s_0',
                                   'm_s_l', 't_s', 't_s_0', 't_s_l')}
            w['e_s_0'] = ref.es_ice(m['t_s_0'])
            w['e_s_l'] = ref.es_ice(m['t_s_l'])
            w['cc_s'] = m['cc_s_0'] + m['cc_s_l']
            w['isothermal'] = w['cc_s'] == 0
            w['kts'] = ref.k_snow(m['rho'])
            h = m['h2o_vol'] * ref.RHOW
            w['dry_snow_density'] = (m['rho'] - h) / (1 - h / ref.RHOI)
            if hist:
                tot = float(sum(x[0] for x in hist))
                for e in ENERGY:
                    w[e + '_bar'] = sum(x[0] * x[1][e] for x in hist) / tot
                for e in sums:
                    w[e + '_sum'] = sum(x[2][e] for x in hist)
            return w

        layers = None
        for o in case['snow']:
            k = o[0]
            real = []
            if k == 'nudge':
                m[o[1]] += o[2]
                real = [['set', o[1], m[o[1]]]]
            elif k == 'set':
                m[o[1]] = o[2]
                real = [['set', o[1], o[2]]]
            elif k == 'dict':
                m['t_s_0'], m['t_s_l'] = o[1], o[2]
                real = [['dict', {'t_s_0': o[1], 't_s_l': o[2]}]]
            elif k == 'read':
                real = [['read', o[1]]]
            elif k == 'snow':
                z, rho = o[1], o[2]
                mass = z * rho
                p = ref.Pack.__new__(ref.Pack)
                p.c = {'max_z': kw['max_z_s_0']}
                p.m_s, p.z_s, p.rho = mass, z, rho
                p.thr, p.maxz = kw['small_threshold'], kw['max_z_s_0']
                lower = (z - p.maxz) * rho
                if abs(mass - p.thr) < 1e-9 or abs(lower - p.thr) < 1e-9 or \
                        abs(z - p.maxz) < 1e-12:
                    continue
                layers = p.split()
                m.update(rho=rho, m_s=mass, z_s=p.z_s, z_s_0=p.z_s_0,
                         z_s_l=p.z_s_l, m_s_0=rho * p.z_s_0,
                         m_s_l=rho * p.z_s_l)
                real = [['dict', {'rho': rho, 'z_s': z, 'm_s': mass}],
                        ['call', 'calc_layers'], ['call', 'layer_mass'],
                        ['read', 'layer_count'], ['read', 'snowcover']]
            elif k == 'temps':
                if layers is None:
                    continue
                n = layers
                if n == 1:
                    m['t_s_0'] = ref.TF + m['cc_s_0'] / (
                        m['m_s_0'] * ref.cp_i(m['t_s_0']))
                    m['t_s'] = m['t_s_0']
                elif n == 2 and m['cc_s_0'] + m['cc_s_l'] == 0:
                    m['t_s'] = m['t_s_0'] = m['t_s_l'] = ref.TF
                elif n == 2:
                    for a, b, c in (('t_s_0', 'm_s_0', m['cc_s_0']),
                                    ('t_s_l', 'm_s_l', m['cc_s_l']),
                                    ('t_s', 'm_s', m['cc_s_0'] +
                                     m['cc_s_l'])):
                        m[a] = ref.TF + c / (m[b] * ref.cp_i(m[a]))
                if min(m['t_s_0'], m['t_s_l']) < 100 or m['t_s'] < 1:
                    return
                real = [['call', 'adjust_layer_temps']]
            elif k == 'flux':
                flux = dict(zip(ENERGY, o[1]))
                sums = dict(zip(('E_s', 'melt', 'swi'), o[2]))
                real = [['dict', dict(flux, **sums)]]
            elif k == 'bar':
                hist = [[900, flux, sums]]
                real = [['call', 'value_to_bar']]
            elif k == 'avg':
                if not hist:
                    continue
                # the first entry lasted 900 s
                real = [['call', 'time_average', sum(x[0] for x in hist),
                         o[1]]]
                hist = hist + [[o[1], flux, sums]]
            elif k == 'zero':
                for x in o[1].split():
                    m[x] = 0
                real = [['call', 'set_zeros', o[1]]]
            ops += real
            want += [None] * len(real)
            if k == 'snow':
                want[-2], want[-1] = layers, layers > 0
            w = expect()
            ops.append(['snap', sorted(w)])
            want.append(w)
            v.seen('snow: ' + k)
        out = ask(op='state_ops', kw=kw, ops=ops)['out']
        for i, (o, w, g) in enumerate(zip(ops, want, out)):
            v.units += 1
            if isinstance(g, dict) and 'exc' in g:
                v.fail('operation %d %s: %s' % (i, o, g['exc']))
                return
            if w is None:
                continue
            if not isinstance(w, dict):
                if g != w:
                    v.fail('operation %d %s gives %r, expected %r' % (
                        i, o, g, w))
                continue
            for k, x in w.items():
                if isinstance(x, bool):
                    ok = g[k] == x
                else:
                    ok = abs(g[k] - x) <= 1e-9 * (1 + abs(x))
                if not ok:
                    v.fail('after operation %d %s: %s is %r, expected %r' % (
                        i, ops[i - 1], k, g[k], x))
        v.nontrivial = len(ops) > 6

    def input(self, v, case):
        d = dict(zip(ref.FORC, case['input']))
        m = dict(d)
        h = ref.hydro_inputs(d)
        pv = {k: h[k] for k in ('m_snow', 'm_rain', 'z_snow')}
        pv['m_pp'] = d['m_pp']
        ops, reads = [], []
        for o in case['ops']:
            if o[0] == 'nudge':
                m[o[1]] += o[2]
                ops.append(['set', o[1], m[o[1]]])
            elif o[0] == 'set':
                m[o[1]] = o[2]
                ops.append(o)
            elif o[0] == 'read':
                ops.append(o)
                t = m['t_a' if o[1] == 'sat_vp' else 't_g']
                reads.append((len(ops) - 1, ref.es_ice(t)))
            else:
                x = dict(zip(ref.FORC, o[1]))
                if o[0] == 'add':
                    # increments of the climate variables
                    for k in ref.CLIM:
                        x[k] = (x[k] - d[k]) / 4.0
                        if abs(m[k] + x[k] - ref.TF) < 1e-6:
                            x[k] += 0.01
                        m[k] += x[k]
                    if m['t_a'] < 100 or m['t_g'] < 100:
                        return
                g = ref.hydro_inputs(x)
                pv = {k: g[k] for k in ('m_snow', 'm_rain', 'z_snow')}
                pv['m_pp'] = x['m_pp']
                ops.append([o[0], x])
            v.seen('input: ' + o[0])
        r = ask(op='input_ops', data=d, ops=ops)
        v.units += len(ops)
        for i, w in reads:
            g = r['out'][i]['read']
            if abs(g - w) > 1e-9 * w:
                v.fail('after %s: %s is %r, expected %r' % (
                    ops[:i], ops[i][1], g, w))
        f = r['final']
        for k in ref.CLIM:
            if abs(f[k] - m[k]) > 1e-9 * (1 + abs(m[k])):
                v.fail('%s is %r, expected %r' % (k, f[k], m[k]))
        for k, w in pv.items():
            if abs(f[k] - w) > 1e-9 * (1 + abs(w)):
                v.fail('%s is %r, expected %r' % (k, f[k], w))
        for k, t in (('sat_vp', 't_a'), ('e_g', 't_g')):
            w = ref.es_ice(m[t])
            if abs(f[k] - w) > 1e-9 * w:
                v.fail('%s is %r for %s=%r, expected %r' % (
                    k, f[k], t, m[t], w))
        for k in ('percent_snow', 'rho_snow'):
            if f[k] != d[k]:
                v.fail('%s changed from %r to %r' % (k, d[k], f[k]))
        v.nontrivial = len(ops) > 2
