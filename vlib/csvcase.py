"""Runs of the CSV driver: builds the files of a case and the run of the model
that the driver must be equivalent to."""
import datetime
import zoneinfo

from hypothesis import strategies as st

from . import gen, ref
from .client import ask
from .trace import STATE

COLS = ['net_solar', 'incoming_thermal', 'air_temp', 'vapor_pressure',
        'wind_speed', 'soil_temp', 'precip_mass', 'percent_snow', 'rho_snow',
        'precip_temp']
CELSIUS = (2, 5, 9)

# name in the file, name in the model, format
OUT = [('R_n', 'R_n_bar', 3), ('H', 'H_bar', 3), ('L_v_E', 'L_v_E_bar', 3),
       ('G', 'G_bar', 3), ('M', 'M_bar', 3), ('delta_Q', 'delta_Q_bar', 3),
       ('G_0', 'G_0_bar', 3), ('delta_Q_0', 'delta_Q_0_bar', 3),
       ('cc_s_0', 'cc_s_0', 'e'), ('cc_s_l', 'cc_s_l', 'e'),
       ('cc_s', 'cc_s', 'e'), ('E_s', 'E_s_sum', 8), ('melt', 'melt_sum', 8),
       ('swi', 'swi_sum', 8), ('z_s_0', 'z_s_0', 6), ('z_s_l', 'z_s_l', 6),
       ('z_s', 'z_s', 6), ('rho', 'rho', 3), ('m_s_0', 'm_s_0', 3),
       ('m_s_l', 'm_s_l', 3), ('m_s', 'm_s', 3), ('h2o', 'h2o', 3),
       ('t_s_0', 't_s_0', 5), ('t_s_l', 't_s_l', 5), ('t_s', 't_s', 5)]
TEMPS = ('t_s_0', 't_s_l', 't_s')
ZONES = ['MST', 'UTC', 'US/Mountain', 'Asia/Tokyo', 'Europe/Berlin',
         'Australia/Sydney']
# days on which the clock of the zone is put forward
FORWARD = {'US/Mountain': (2019, 3, 10), 'Europe/Berlin': (2019, 3, 31),
           'Australia/Sydney': (2019, 10, 6)}
UTC = datetime.timezone.utc
STALE = 'date_time,old\n' + '1999-01-01 00:00:00+00:00,5.0\n' * 900
# weather of other years
PAD = [55.0, 240.0, -7.5, 210.0, 2.5, -0.5, 0.0, 0.0, 100.0, 0.0]
FMTS = ['%Y-%m-%d %H:%M:%S', '%m/%d/%Y %H:%M', '%Y-%m-%dT%H:%M']
DEFAULTS = {'steps': [60, 60, 15, 1], 'thr': [60, 10, 1], 'max_h2o': 0.01,
            'max_z': 0.25, 'z_g': 0.5, 'z_t': 5.0, 'z_u': 5.0,
            'relative': False}


def kelvin(c):
    return c + ref.TF


@st.composite
def celsius(draw, rich):
    """A scenario with temperatures in Celsius and a configuration that the
    driver can hold.  rich: every parameter varies."""
    if rich:
        c = draw(gen.config(odd='whole'))
        c['thr'] = [int(max(1, round(t))) for t in c['thr']]
    else:
        c = dict(DEFAULTS, steps=list(DEFAULTS['steps']), thr=[60, 10, 1],
                 elevation=draw(st.sampled_from([0.0, 2061.0, 3500.0])))
        c['steps'] = draw(st.sampled_from([
            [60, 60, 15, 1], [60, 60, 15, 1], [60, 60, 15, 5],
            [60, 60, 15, 5], [30, 30, 15, 5], [15, 15, 15, 5],
            [120, 60, 15, 5], [180, 60, 20, 4], [60, 30, 15, 3]]))
    kinds = ['bare', 'thin', 'one', 'two', 'wet', 'ripe', 'fresh', 'twothin']
    i = draw(gen.initial(c, kinds))
    for k in ('t_s', 't_s_0'):
        i[k] = round(i[k] - ref.TF, 3)
    i.pop('t_s_l', None)
    if i['z_s'] > 0 and draw(st.integers(0, 3)) == 0:
        # the configuration knows no average that differs from the surface
        i['t_s'] = i['t_s_0']
    if i['z_s'] > 0 and draw(st.integers(0, 5)) == 0:
        # one of the temperatures left at its default
        i['t_s'], i['t_s_0'] = draw(st.sampled_from(
            [(0.0, -5.0), (0.0, -12.5), (-4.0, 0.0)]))
    rows = draw(gen.forcing(c, nseg=3, bare=i['z_s'] == 0))[:10]
    gen.sound(c, i, rows)
    if rich:
        gen.heights(draw, c, i, rows)
    rows = [[round(x - ref.TF, 3) if j in CELSIUS else x
             for j, x in enumerate(r)] for r in rows]
    if not rich:
        depth = i['z_s'] + sum(r[6] * r[7] / r[8] for r in rows if r[8] > 0)
        if depth > 4.0:
            i['z_s'] = 0.0
            for r in rows:
                r[6] = min(r[6], 5.0)
    return {'cfg': c, 'init': i, 'forcing': rows,
            'mode': draw(st.sampled_from(['normal', 'all']))}


def direct(sc, rows=None):
    """The same run by the model itself, everything in Kelvin"""
    init = dict(sc['init'])
    for k in ('t_s', 't_s_0'):
        init[k] = kelvin(init[k])
    rows = sc['forcing'] if rows is None else rows
    rows = [[kelvin(x) if j in CELSIUS else x for j, x in enumerate(r)]
            for r in rows]
    return {'cfg': sc['cfg'], 'init': init, 'forcing': rows,
            'mode': sc['mode']}


def ini(sc, lay, start, end):
    c, i = sc['cfg'], sc['init']
    omit = lay.get('defaults')

    def section(name, items):
        return ['[%s]' % name] + ['%s: %s' % kv for kv in items
                                  if kv[1] is not None] + ['']

    def opt(key, val, default):
        """options at their default value may be left out"""
        return (key, None if omit and val == default else val)
    d = DEFAULTS
    fmt = '%Y-%m-%d %H:%M' if lay.get('iso') else '%m-%d-%Y %H:%M'
    s, t = c['steps'], c['thr']
    out = section('topo', [('elevation', c['elevation'])])
    out += section('time', [
        ('start_date', start.strftime(fmt)), ('end_date', end.strftime(fmt)),
        opt('time_step', s[0], 60), opt('time_zone', lay['zone'], 'UTC')])
    out += section('measurement_heights', [
        opt('z_u', c['z_u'], d['z_u']), opt('z_t', c['z_t'], d['z_t']),
        opt('z_g', c['z_g'], d['z_g']),
        opt('relative_heights', bool(c['relative']), False)])
    out += section('model', [
        opt('norm_time_step', s[1], 60), opt('medium_time_step', s[2], 15),
        opt('small_time_step', s[3], 1), opt('norm_threshold', t[0], 60),
        opt('medium_threshold', t[1], 10), opt('small_threshold', t[2], 1),
        opt('max_h2o', c['max_h2o'], d['max_h2o']),
        opt('max_active', c['max_z'], d['max_z'])])
    out += section('files', [
        ('input_csv', lay.get('input', 'in.csv')),
        ('output_csv', lay.get('output', 'out.csv')),
        opt('output_mode', sc['mode'], 'normal'),
        opt('format_output', lay['fmt'], True)])
    out += section('initial_snow_properties', [
        opt('z_s', i['z_s'], 0.0), opt('rho', i['rho'], 0.0),
        opt('t_s_0', i['t_s_0'], 0.0), opt('t_s', i['t_s'], 0.0),
        opt('h2o_sat', i['h2o_sat'], 0.0), opt('z_0', i['z_0'], 0.005)])
    return '\n'.join(out)


def files(case):
    """-> (files, expected input rows, start of the run)"""
    sc, lay = case['sc'], case['lay']
    step = datetime.timedelta(minutes=sc['cfg']['steps'][0])
    t0 = datetime.datetime(lay['year'], lay.get('month', 1), lay['day'],
                           lay['hour'], lay.get('minute', 0))
    if lay.get('midnight') is not None:
        # one of the records is the first or the last one of a day
        t0 += datetime.timedelta(days=1) - datetime.timedelta(
            hours=lay['hour'], minutes=lay.get('minute', 0)) - \
            (len(case['sc']['forcing']) - lay['midnight']) * step
    rows = sc['forcing']
    tz = zoneinfo.ZoneInfo(lay['zone'])
    # the clock of the zone may be put forward on the way
    times = [(t0.replace(tzinfo=tz).astimezone(UTC) + n * step).astimezone(
        tz).replace(tzinfo=None) for n in range(len(rows))]
    a = lay.get('first', 0)
    b = lay.get('last', len(rows) - 2)
    a = max(0, min(a, len(rows) - 2))
    b = max(a, min(b, len(rows) - 1))
    if b == a and b + 1 > len(rows) - 1:
        b = a
    used, first = rows[a:b + 2], a
    order = lay.get('cols') or list(range(len(COLS)))
    head = [COLS[j] for j in order]
    fmt = FMTS[lay.get('datefmt', 0)]
    lines = []
    for n, r in enumerate(rows):
        x = ['%d' % r[j] if j in lay.get('ints', ()) else repr(r[j])
             for j in order]
        if lay.get('extra'):
            x.append('7.5')
        lines.append(times[n].strftime(fmt) + ',' + ','.join(x))
    if lay.get('pad'):
        # years of other records around them
        n0, n1 = lay['pad']
        x = ','.join(repr(PAD[j]) for j in order) + (
            ',7.5' if lay.get('extra') else '')
        lines = ['%s,%s' % ((times[0] - n * step).strftime(fmt), x)
                 for n in range(n0, 0, -1)] + lines + [
                     '%s,%s' % ((times[-1] + n * step).strftime(fmt), x)
                     for n in range(1, n1 + 1)]
        if b == len(rows) - 1:
            used = used + ([list(PAD)] if n1 else [])
        a += n0
    if a >= 2 and lay.get('outside') == 'drop':
        # records that the run does not use may be irregular
        del lines[a - 1]
    if a >= 1 and lay.get('outside') == 'double':
        lines.insert(0, lines[0])
    perm = lay.get('perm')
    if perm:
        lines = [x for _, _, x in sorted(
            (perm[n % len(perm)], n, x) for n, x in enumerate(lines))]
    txt = 'date_time,' + ','.join(head) + (
        ',station' if lay.get('extra') else '') + '\n' + \
        '\n'.join(lines) + '\n'
    if lay.get('blank'):
        txt = txt.replace('\n', '\n\n', 2)
    txt = txt.replace('\n', lay.get('eol', '\n'))
    start, end = times[first], times[b]
    if end == start:
        # the configuration demands an interval, rows end it
        end = start + datetime.timedelta(minutes=1)  # shown by the clock
        used = used[:2]
    elif lay.get('between') and step > datetime.timedelta(minutes=1):
        # the end between two records
        e = end + datetime.timedelta(
            minutes=1 + lay['between'] % (sc['cfg']['steps'][0] - 1))
        if e.replace(tzinfo=tz).astimezone(UTC).astimezone(tz).replace(
                tzinfo=None) == e:
            # it is a time that the clock shows
            end = e
    fs = {lay.get('config', 'conf.ini'): ini(sc, lay, start, end)}
    base = lay.get('config', 'conf.ini').rpartition('/')[0]
    inp = (base + '/' if base else '') + lay.get('input', 'in.csv')
    fs[inp] = txt
    if lay.get('stale'):
        # the result of an earlier run
        fs[(base + '/' if base else '') + lay.get('output', 'out.csv')] = \
            STALE
    return fs, used, start


def run(case, **kw):
    lay = case['lay']
    fs, used, start = files(case)
    base = lay.get('config', 'conf.ini').rpartition('/')[0]
    pre = base + '/' if base else ''
    r = ask(op='csv', files=fs, config=lay.get('config', 'conf.ini'),
            input=pre + lay.get('input', 'in.csv'),
            output=pre + lay.get('output', 'out.csv'),
            runs=2 if lay.get('twice') else 1,
            as_object=bool(lay.get('as_object')), **kw)
    return r, used, start


def compare(v, case):
    """The driver does what the model does with the same numbers"""
    sc, lay = case['sc'], case['lay']
    r, used, start = run(case)
    d = ask(op='run', sc=direct(sc, used))
    v.units += max(len(used) - 1, 0)
    if d['exc'] is not None:
        if 'exc' not in r:
            v.fail('the driver finished, the model ends with %s' % d['exc'])
        elif r['exc']['type'] != d['exc']['type']:
            v.fail('the driver ends with %s, the model with %s' % (
                r['exc'], d['exc']))
        elif r['out_exists']:
            v.fail('output of a run that failed')
        v.seen('run ended early')
        return
    if 'exc' in r:
        v.fail('the driver ends with %s, the model runs' % r['exc'])
        return
    if not r['input_same']:
        v.fail('the input file was changed')
    if r['ret'] is not True:
        v.fail('run() answers %r' % r['ret'])
    known = set(files(case)[0])
    if set(r['left']) - known:
        v.fail('files left behind: %s' % sorted(set(r['left']) - known))
    tz = zoneinfo.ZoneInfo(lay['zone'])
    for n, txt in enumerate(r['out']):
        judge_text(v, txt, d['recs'], start.replace(tzinfo=tz), lay['fmt'],
                   'run %d: ' % (n + 1) if n else '')


def judge_text(v, txt, recs, start, fmt, pre):
    lines = txt.split('\n')
    if lines[-1] != '':
        v.fail(pre + 'output does not end with a line')
    head = lines[0].split(',')
    if head != ['date_time'] + [o[0] for o in OUT]:
        v.fail(pre + 'columns of the output %s' % head)
        return
    body = [x.split(',') for x in lines[1:-1]]
    if len(body) != len(recs):
        v.fail(pre + '%d records in the output, the model made %d' % (
            len(body), len(recs)))
        return
    idx = {k: i + 1 for i, k in enumerate(STATE)}
    for n, (x, rec) in enumerate(zip(body, recs)):
        t = datetime.datetime.fromisoformat(x[0])
        w = (start.astimezone(UTC) + datetime.timedelta(
            seconds=rec[0])).astimezone(start.tzinfo)
        if t.tzinfo is None or t != w or \
                t.utcoffset() != w.utcoffset():
            v.fail(pre + 'record %d is for %s, expected %s' % (n, x[0], w))
        for (name, key, nd), s in zip(OUT, x[1:]):
            w = rec[idx[key]]
            if key in TEMPS:
                w -= ref.TF
            try:
                g = float(s)
            except ValueError:
                v.fail(pre + 'record %d: %s is %r' % (n, name, s))
                continue
            if not fmt:
                ok = abs(g - w) <= 1e-9 * abs(w) + 1e-9
            elif nd == 'e':
                ok = abs(g - w) <= 1e-9 * abs(w) + 1e-9 and \
                    len(s.lstrip('-').split('e')[0]) == 11
            else:
                ok = abs(g - w) <= 0.5 * 10 ** -nd + 1e-9 * (1 + abs(w)) \
                    and '.' in s and len(s.split('.')[1]) == nd
            if not ok:
                v.fail(pre + 'record %d: %s is %r, the model has %r' % (
                    n, name, s, w))
        if len(v.fails) > 6:
            return


@st.composite
def layout(draw, rich):
    lay = {'zone': draw(st.sampled_from(ZONES)), 'year':
           draw(st.integers(1985, 2020)), 'day': draw(st.integers(1, 20)),
           'hour': draw(st.integers(0, 23)),
           'fmt': draw(st.booleans())}
    if not rich:
        return lay
    lay['month'] = draw(st.sampled_from([1, 2, 6, 7, 8, 12]))
    if draw(st.integers(0, 3)) == 0:
        # over the end of a month or of a year
        lay['day'] = 28 if lay['month'] == 2 else 31 - (lay['month'] == 6)
        lay['hour'] = draw(st.integers(20, 23))
    if lay['zone'] in FORWARD and draw(st.booleans()):
        lay['year'], lay['month'], lay['day'] = FORWARD[lay['zone']]
        lay['hour'] = draw(st.integers(0, 1))
    elif draw(st.integers(0, 2)) == 0:
        lay['midnight'] = draw(st.sampled_from(
            [0, 0, 0, 1, 1, 2, 3, 4, 6, 8]))
    lay['minute'] = draw(st.sampled_from([0, 0, 0, 30, 7]))
    n = len(COLS)
    lay['cols'] = draw(st.one_of(st.none(), st.permutations(range(n))))
    if lay['cols'] is not None:
        lay['cols'] = list(lay['cols'])
    lay['perm'] = draw(st.one_of(st.none(), st.just([0, 1]), st.lists(
        st.integers(0, 9), min_size=2, max_size=7)))
    lay['first'] = draw(st.sampled_from([0, 0, 1, 2]))
    lay['last'] = draw(st.sampled_from([10, 10, 10, 0, 1, 2, 3, 4, 6]))
    lay['outside'] = draw(st.sampled_from([None, 'drop', 'double']))
    lay['extra'] = draw(st.booleans())
    lay['datefmt'] = draw(st.integers(0, len(FMTS) - 1))
    lay['twice'] = draw(st.integers(0, 3)) == 0
    lay['as_object'] = draw(st.integers(0, 5)) == 0
    lay['config'] = draw(st.sampled_from(['conf.ini', 'a/conf.ini']))
    lay['input'] = draw(st.sampled_from(['in.csv', 'd/in.csv']))
    lay['output'] = draw(st.sampled_from(['out.csv', 'res.txt']))
    lay['ints'] = draw(st.one_of(st.just([]), st.lists(
        st.integers(0, n - 1), unique=True, min_size=1)))
    lay['eol'] = draw(st.sampled_from(['\n', '\n', '\r\n']))
    lay['blank'] = draw(st.integers(0, 5)) == 0
    lay['stale'] = draw(st.integers(0, 3)) == 0
    if draw(st.integers(0, 11)) == 0:
        lay['zone'] = draw(st.sampled_from(['MST', 'UTC', 'Asia/Tokyo']))
        lay['pad'] = draw(st.sampled_from([
            [9000, 0], [0, 9000], [20000, 3], [1, 1], [300, 17]]))
    lay['iso'] = draw(st.booleans())
    lay['between'] = draw(st.one_of(st.just(0), st.just(0), st.just(58),
                                    st.integers(1, 178)))
    return lay


@st.composite
def cases(draw, rich_layout, rich_config):
    sc, lay = draw(celsius(rich_config)), draw(layout(rich_layout))
    for r in sc['forcing']:
        for j in lay.get('ints', ()):
            # without the density or the wind that would leave no snow or no
            # solution
            r[j] = float(max(round(r[j]), 1) if j in (3, 4) else
                         round(r[j]))
    return {'sc': sc, 'lay': lay}
