"""Input that has no meaning ends a run with an error, not with numbers"""
import datetime
import json
import math

from hypothesis import strategies as st

from .. import csvcase, gen, ref
from ..client import ask
from ..core import Prop, Verdict
from ..trace import STATE
from .c10 import NAMES, bad as bad_transfer

LEVELS = ('norm', 'medium', 'small')
FIELD = {'t_a': 2, 'e_a': 3, 't_g': 5, 'wind': 4, 'precip': 6}


@st.composite
def bad_run(draw):
    sc = draw(gen.scenario(kinds=['one', 'two', 'deep', 'twothin', 'wet'],
                           regimes=['cold', 'hoar', 'snow', 'dry'],
                           windows=False, long=False, twists=False))
    n = len(sc['forcing'])
    kind = draw(st.sampled_from(['t_a', 'e_a', 't_g', 'height', 'height',
                                 'rho_snow', 'missing', 'missing', 'wind',
                                 'percent', 'percent', 'precip',
                                 'initial', 'parameter']))
    at = draw(st.integers(0, n - 2))
    row = list(sc['forcing'][at])
    val = None
    if kind == 't_a':
        val = draw(st.sampled_from([0.0, -5.0, -40.0]))
    elif kind == 'e_a':
        val = draw(st.sampled_from([0.0, -1.0, -300.0]))
    elif kind == 't_g':
        val = draw(st.sampled_from([-0.5, -20.0]))
    elif kind == 'wind':
        val = draw(st.sampled_from([-0.1, -3.0, -20.0]))
    elif kind == 'initial':
        at = 0
        which, x = draw(st.sampled_from([
            ('z_s', [-0.3, -1e-6]), ('rho', [-300.0, -1e-3]),
            ('t_s', [273.17, 280.0, 0.0, -5.0]),
            ('t_s_0', [273.17, 300.0, 0.0, -5.0]),
            ('h2o_sat', [-0.5, -1e-6, 1.0001, 2.0, 50.0])]))
        sc['init'][which] = draw(st.sampled_from(x))
        if draw(st.integers(0, 3)) == 0:
            return {'run': sc, 'kind': kind, 'at': at, 'which': which,
                    'value': draw(st.sampled_from(['nan', 'inf', '-inf']))}
        return {'run': sc, 'kind': kind, 'at': at}
    elif kind == 'parameter':
        which, x = draw(st.sampled_from([
            ('max_z', [0.0, -0.25, -1e-6, float('nan')]),
            ('max_h2o', [-0.01, -1e-6, 1.01, 5.0, float('nan')]),
            ('z_g', [0.0, -0.5, -1e-6, float('nan')])]))
        return {'run': sc, 'kind': kind, 'at': 0, 'which': which,
                'value': str(draw(st.sampled_from(x)))}
    elif kind == 'precip':
        at = draw(st.integers(0, n - 1))
        row = list(sc['forcing'][at])
        if draw(st.integers(0, 3)) == 0:
            sc['init'].update(z_s=0.0, rho=0.0)
        row[6] = draw(st.sampled_from([-1e-6, -0.2, -5.0]))
    elif kind == 'percent':
        at = draw(st.integers(0, n - 1))
        row = list(sc['forcing'][at])
        if draw(st.integers(0, 3)) == 0:
            sc['init'].update(z_s=0.0, rho=0.0)
        row[6] = row[6] or 1.0
        row[7:9] = [draw(st.sampled_from([-0.2, -1e-9, 1.0000001, 1.5, 2.0,
                                          50.0, 100.0])),
                    draw(st.sampled_from([100.0, 0.0]))]
    elif kind == 'height':
        sc['cfg']['relative'] = draw(st.sampled_from([None, False]))
        z = sc['init']['z_s']
        which = draw(st.sampled_from(['z_t', 'z_u']))
        if draw(st.booleans()):
            sc['cfg'][which] = round(z * draw(gen.num(0.1, 1.0, 2)), 6)
        else:
            # hardly above the snow, below the height of its roughness
            z0 = sc['init']['z_0'] = draw(st.sampled_from([0.005, 0.02]))
            if draw(st.booleans()):
                sc['cfg']['relative'], z = True, 0.0
            sc['cfg'][which] = z + z0 * draw(gen.num(-0.5, 0.99, 2))
        at = 0
    elif kind == 'missing':
        # any record, also when there is no snow to look at it
        at = draw(st.integers(0, n - 1))
        row = list(sc['forcing'][at])
        if draw(st.integers(0, 3)) == 0:
            sc['init'].update(z_s=0.0, rho=0.0)
        which = draw(st.sampled_from([0, 1, 2, 3, 4, 5, 5, 6, 6, 7, 8, 9, 9]))
        if which > 6 and row[6] == 0:
            row[6:9] = [1.0, draw(st.sampled_from([0.0, 0.5, 1.0])), 100.0]
        if which == 8:
            row[6:8] = [1.0, draw(st.sampled_from([0.5, 1.0]))]
        sc['forcing'][at] = row
        sc['mode'] = 'all'
        return {'run': sc, 'kind': kind, 'at': at, 'which': which,
                'value': draw(st.sampled_from(
                    ['nan', 'nan', 'nan', '-inf'] + ['inf'] * (which != 8)))}
    else:
        row[6:9] = [draw(gen.num(0.1, 5, 1)), draw(st.sampled_from(
            [1.0, 0.5, 0.01])), draw(st.sampled_from([0.0, -50.0]))]
    if val is not None:
        row[FIELD[kind]] = val
    sc['forcing'][at] = row
    sc['mode'] = draw(st.sampled_from(['all', 'normal']))
    return {'run': sc, 'kind': kind, 'at': at}


@st.composite
def bad_calls(draw):
    """a function of the model and arguments without meaning"""
    return {'calls': draw(st.lists(bad_transfer(), min_size=1, max_size=12)),
            'warm': draw(st.sampled_from([None, [0.2, 0.08]])),
            'temp': draw(st.lists(gen.num(-400, 0, 2), min_size=1,
                                  max_size=5)),
            'rho': draw(st.sampled_from([0.0, -1.0]))}


@st.composite
def bad_files(draw):
    case = draw(csvcase.cases(False, False))
    case['bad'] = draw(st.sampled_from([
        'config missing', 'input missing', 'column missing', 'output mode',
        'number', 'type', 'dates', 'density', 'empty cell', 'empty cell',
        'text cell', 'percent', 'steps', 'steps', 'steps', 'gap', 'double',
        'no start', 'between', 'interval', 'precip', 'initial', 'initial',
        'parameter', 'option', 'option']))
    case['pick'] = draw(st.integers(0, 9))
    case['row'] = draw(st.integers(0, 20))
    return case


class PROP(Prop):
    id = 'C19'
    quick = 800
    thorough = 6000

    def strategy(self):
        return st.integers(0, 4).flatmap(
            lambda i: (bad_run(), bad_run(), bad_run(), bad_files(),
                       bad_calls())[i])

    def check(self, case):
        v = Verdict()
        if 'calls' in case:
            self.calls(v, case)
        elif 'bad' in case:
            self.files(v, case)
        else:
            self.run(v, case)
        return v

    def calls(self, v, case):
        warm = [] if case['warm'] is None else [dict(zip(
            ('init_ustar', 'init_factor'), case['warm']))]
        for a, g in zip(case['calls'], ask(op='call', fn='lib.hle1', calls=[
                a + warm for a in case['calls']])):
            v.units += 1
            if g.get('exc', {}).get('type') != 'ValueError':
                v.fail('turbulent transfer with %r: %s' % (
                    dict(zip(NAMES, a)), g))
        for fn in ('lib.sati', 'lib.satw'):
            t = [[x] for x in case['temp']]
            for a, g in zip(t, ask(op='call', fn=fn, calls=t)):
                v.units += 1
                if 'exc' not in g:
                    v.fail('%s of %r: %s' % (fn, a, g))
        d = dict(zip(ref.FORC, gen.COLD))
        d.update(m_pp=1.0, percent_snow=0.5, rho_snow=case['rho'])
        g = ask(op='input', data=[d])[0]
        if g.get('exc', {}).get('type') != 'ValueError':
            v.fail('snow without a density: %s' % g)
        for k in ref.FORC:
            d = dict(zip(ref.FORC, gen.COLD))
            d.update(m_pp=1.0, percent_snow=0.5, rho_snow=100.0)
            del d[k]
            g = ask(op='input', data=[d])[0]
            if 'exc' not in g:
                v.fail('a record without %s: %s' % (k, g))
        v.seen('functions with bad arguments')
        v.nontrivial = True

    def run(self, v, case):
        sc, kind, at = case['run'], case['kind'], case['at']
        if kind == 'parameter':
            sc = dict(sc, cfg=dict(sc['cfg'], **{
                case['which']: float(case['value'])}))
        if kind in ('initial', 'parameter'):
            if kind == 'initial' and 'which' in case:
                sc = dict(sc, init=dict(sc['init'], **{
                    case['which']: float(case['value'])}))
            r = ask(op='run', sc=sc)
            v.units += 1
            v.seen('bad ' + kind)
            v.nontrivial = True
            if not r['exc'] or r['exc']['type'] != 'ValueError' or \
                    not r['exc']['in_repo'] or r.get('recs'):
                v.fail('%s %s: %s records, %s' % (
                    kind, sc['init'] if kind == 'initial' else sc['cfg'], len(r.get('recs', [])), r['exc']))
            return
        if kind == 'missing':
            rows = [list(x) for x in sc['forcing']]
            rows[at][case['which']] = float(case['value'])
            sc = dict(sc, forcing=rows)
        r = ask(op='run', sc=sc)
        v.units += 1
        v.seen('bad ' + kind)
        recs = r.get('recs', [])
        for x in recs:
            for k, y in zip(['t'] + STATE, x):
                if not isinstance(y, (int, float)) or not math.isfinite(y):
                    v.fail('record with %s=%r after bad %s' % (k, y, kind))
                    return
        data = sc['cfg']['steps'][0] * 60
        # the step that ends with the bad record interpolates towards it
        first = max(at - 1, 0)
        if kind == 'rho_snow':
            first = max(at - 1, 0)
        good = dict(sc, forcing=sc['forcing'][:first + 1])
        if first > 0:
            g = ask(op='run', sc=good)
            if g['exc'] is not None:
                v.seen('run ended before')
                return
            m = g['marks'][-1]
            if json.dumps(recs[:m]) != json.dumps(g['recs'][:m]):
                v.fail('bad %s in record %d changes what came before' % (
                    kind, at))
            snow = g['recs'][-1][1 + STATE.index('layer_count')] > 0
        else:
            snow = 'init' in r and r['init'][STATE.index('layer_count')] > 0
        if r['exc'] is None:
            # without snow nothing looks at the weather
            if kind in ('rho_snow', 'missing', 'percent', 'precip') or (
                    snow and self.snow_at(r, at, data)):
                v.fail('a run with %s=%r in record %d went through' % (
                    kind, sc['forcing'][at][FIELD[kind]]
                    if kind in FIELD else sc['cfg'], at))
            else:
                v.seen('no snow to look at it')
            return
        if r['exc']['step'] > at:
            if self.snow_at(r, at, data):
                v.fail('bad %s in record %d was only noticed in data step %d'
                       % (kind, at, r['exc']['step']))
            return
        if kind in ('missing', 'percent', 'precip'):
            if r['exc']['type'] != 'ValueError' or \
                    not r['exc']['in_repo']:
                v.fail('%s value ends the run with %s' % (kind, r['exc']))
            v.nontrivial = True
            return
        if kind in ('rho_snow', 'height') and r['exc']['step'] <= at and \
                r['exc']['type'] != 'ValueError' and \
                'converge' not in r['exc']['msg']:
            v.fail('bad %s ends the run with %s' % (kind, r['exc']))
        if kind == 'height' and not snow:
            return
        v.nontrivial = snow

    @staticmethod
    def snow_at(r, at, data):
        """snow at the start of data step `at`"""
        st_ = r.get('init')
        lay = st_[STATE.index('layer_count')] if st_ else 0
        for x in r.get('recs', []):
            if x[0] <= at * data:
                lay = x[1 + STATE.index('layer_count')]
        return lay > 0

    @staticmethod
    def option(fs, k, x):
        """another value for an option of the configuration"""
        lines = fs['conf.ini'].split('\n')
        n = [i for i, y in enumerate(lines) if y.split(':')[0] == k]
        assert n, k
        lines[n[0]] = '%s: %s' % (k, x)
        fs['conf.ini'] = '\n'.join(lines)

    def files(self, v, case):
        what = case['bad']
        fs, used, start = csvcase.files(case)
        conf, inp = 'conf.ini', 'in.csv'
        q = dict(op='csv', config=conf, input=inp, output='out.csv')
        exc = None
        if what == 'config missing':
            q['config'] = 'other.ini'
        elif what == 'input missing':
            del fs[inp]
        elif what == 'column missing':
            # every one of them in turn
            good = fs[inp]
            for k, c in enumerate(csvcase.COLS):
                fs[inp] = good.replace(c, c + '_x', 1)
                if k == case['pick']:
                    break
                r = ask(files=fs, **q)
                if 'exc' not in r or r.get('out_exists'):
                    v.fail('without the column %s the driver went through' %
                           c)
        elif what == 'output mode':
            fs[conf] = '\n'.join(
                'output_mode: daily' if x.startswith('output_mode') else x
                for x in fs[conf].split('\n'))
            exc = 'SystemExit'
        elif what == 'number':
            fs[conf] = fs[conf].replace('max_active: ', 'max_active: deep')
        elif what == 'type':
            fs[conf] = fs[conf].replace('z_g: ', 'z_g: 0.5m')
        elif what == 'dates':
            lines = fs[conf].split('\n')
            a = [x for x in lines if x.startswith('start_date')][0]
            b = [x for x in lines if x.startswith('end_date')][0]
            fs[conf] = fs[conf].replace(a, '@').replace(
                b, 'end_date' + a[len('start_date'):]).replace(
                    '@', 'start_date' + b[len('end_date'):])
            exc = 'SystemExit'
        elif what in ('empty cell', 'text cell'):
            lines = fs[inp].split('\n')
            n = 1 + case['row'] % len(used)
            x = lines[n].split(',')
            c = case['pick']
            if c > 6 and float(x[7]) == 0:
                x[7:10] = ['2.0', '1.0' if c == 8 else '0.5', '100.0']
            x[1 + c] = '' if what == 'empty cell' else 'dry'
            lines[n] = ','.join(x)
            fs[inp] = '\n'.join(lines)
            exc = 'ValueError' if what == 'empty cell' else None
        elif what == 'percent':
            lines = fs[inp].split('\n')
            n = 1 + case['row'] % len(used)
            x = lines[n].split(',')
            x[7:10] = ['2.0', ('100', '-0.5', '1.25')[case['pick'] % 3],
                       '100.0']
            lines[n] = ','.join(x)
            fs[inp] = '\n'.join(lines)
            exc = 'ValueError'
        elif what == 'precip':
            lines = fs[inp].split('\n')
            n = 1 + case['row'] % len(used)
            x = lines[n].split(',')
            x[7] = ('-0.1', '-3', '-1e-6')[case['pick'] % 3]
            lines[n] = ','.join(x)
            fs[inp] = '\n'.join(lines)
            exc = 'ValueError'
        elif what == 'initial':
            # temperatures in Kelvin, percent, and signs
            new = {'z_s': '0.5', 'rho': '300'}
            new.update([{'t_s': '268.2'}, {'t_s_0': '270'}, {'h2o_sat': '50'},
                        {'t_s_0': '0.5'}, {'z_s': '-0.5'}, {'rho': '-1'},
                        {'t_s': '-300'}, {'h2o_sat': '-0.1'}][
                            case['row'] % 8])
            a, b = fs[conf].split('[initial_snow_properties]')
            b = '\n'.join(x for x in b.split('\n')
                          if x.split(':')[0] not in new)
            fs[conf] = a + '[initial_snow_properties]\n' + '\n'.join(
                '%s: %s' % kv for kv in new.items()) + b
            exc = 'ValueError'
        elif what == 'option':
            new = [('time_zone', 'Mars/North'), ('format_output', 'maybe'),
                   ('relative_heights', 'perhaps'), ('elevation', 'high'),
                   ('start_date', '2001-13-45'), ('start_date', 'autumn'),
                   ('time_step', 'hourly'), ('time_step', '60.5'),
                   ('norm_threshold', 'x'), ('z_0', '0'), ('z_0', '-0.005'),
                   ('z_t', '0'), ('z_u', '-5'), ('z_0', 'rough'),
                   ('medium_threshold', '10.5'), ('time_step', '0')][
                       (case['row'] + 21 * case['pick']) % 16]
            # with snow to look at
            self.option(fs, 'z_s', '0.5')
            self.option(fs, 'rho', '300')
            self.option(fs, *new)
        elif what == 'parameter':
            k, x = (('max_active', '0'), ('max_active', '-0.25'),
                    ('max_h2o', '-0.01'), ('max_h2o', '1.01'),
                    ('max_h2o', '5'), ('z_g', '0'), ('z_g', '-0.5'))[
                        case['row'] % 7]
            self.option(fs, k, x)
            exc = 'ValueError'
        elif what == 'steps':
            # one that leaves a rest of the longer one, or is longer
            steps = list(case['sc']['cfg']['steps'])
            k = 1 + case['pick'] % 3
            bad = [x for x in range(1, 3 * steps[k - 1])
                   if steps[k - 1] % x] + [0, -steps[k]]
            steps[k] = bad[case['row'] * 7 % len(bad)]
            fs[conf] = '\n'.join(
                '%s_time_step: %d' % (LEVELS[k - 1], steps[k])
                if x.startswith(LEVELS[k - 1] + '_time_step') else x
                for x in fs[conf].split('\n'))
            exc = 'ValueError'
        elif what in ('gap', 'double', 'no start', 'between', 'interval'):
            lines = fs[inp].split('\n')
            n = len(used)
            k = case['row']
            if what == 'gap' and n > 2:
                del lines[2 + k % (n - 2)]
            elif what == 'double':
                k = 1 + k % n
                lines.insert(k, lines[k])
            elif what == 'no start' and n > 2:
                del lines[1]
            else:
                # records at other times than the configuration says
                for i in range(1, n + 1):
                    x = lines[i].split(',')
                    t = datetime.datetime.strptime(x[0], csvcase.FMTS[0])
                    s = datetime.timedelta(
                        minutes=case['sc']['cfg']['steps'][0])
                    t = t + s / 2 if what == 'between' and k % 2 else \
                        t - s / 4 if what == 'between' else \
                        t + s * (i - 1) if k % 2 else t - s / 2 * (i - 1)
                    x[0] = t.strftime(csvcase.FMTS[0])
                    lines[i] = ','.join(x)
            fs[inp] = '\n'.join(lines)
        else:
            lines = fs[inp].split('\n')
            # a record that the run uses
            n = 1 + case['row'] % len(used)
            x = lines[n].split(',')
            x[7:10] = ['2.0', '1.0', '0.0']
            lines[n] = ','.join(x)
            fs[inp] = '\n'.join(lines)
            exc = 'ValueError'
        r = ask(files=fs, **q)
        v.units += 1
        v.seen('files: ' + what)
        if 'exc' not in r:
            v.fail('%s: the driver went through' % what)
            return
        if r.get('out_exists'):
            v.fail('%s: output was written' % what)
        if exc and r['exc']['type'] != exc and not (
                what == 'density' and 'converge' in r['exc']['msg']):
            v.fail('%s: the driver ends with %s' % (what, r['exc']))
        v.nontrivial = True


assert ref
