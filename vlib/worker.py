"""Runs inside the interpreter of the code under test (/opt/venv, PyPy).

Reads one JSON request per line on stdin, executes it against the real
pysnobal and answers with one JSON line.  No oracle lives here: this side
only drives the public API and reports what was observable.
"""
import datetime
import json
import os
import sys
import tempfile
import shutil
import traceback
import warnings

proto_out = os.fdopen(os.dup(1), 'w')
devnull = os.open(os.devnull, os.O_WRONLY)
os.dup2(devnull, 1)
if not os.environ.get('VERIF_DEBUG'):
    os.dup2(devnull, 2)
sys.stdout = open(os.devnull, 'w')
REPO = os.environ.get('VERIF_REPO', '/repo')
sys.path.insert(0, REPO)
warnings.simplefilter('ignore')

import numpy as np  # noqa: E402
np.seterr(all='ignore')

import pysnobal  # noqa: E402
from pysnobal.core import functions, snow, constants  # noqa: E402,F401
from pysnobal.point import InputData, InputDeltas, Snobal, SnowState, libsnobal  # noqa: E402

try:
    from pysnobal.pysnobal import PySnobal
    by_driver = True
except ImportError:
    by_driver = False

assert os.path.realpath(pysnobal.__file__).startswith(
    os.path.realpath(REPO) + os.sep), pysnobal.__file__

try:
    # as the driver does
    import pandas as pd
    START = pd.Timestamp('2000-01-01 00:00', tz='UTC')
except ImportError:
    START = datetime.datetime(2000, 1, 1)

STATE = ['rho', 't_s_0', 't_s_l', 't_s', 'cc_s_0', 'cc_s_l', 'cc_s', 'm_s',
         'm_s_0', 'm_s_l', 'z_s', 'z_s_0', 'z_s_l', 'h2o_sat', 'layer_count',
         'h2o', 'h2o_max', 'h2o_vol', 'h2o_total', 'R_n_bar', 'H_bar',
         'L_v_E_bar', 'G_bar', 'G_0_bar', 'M_bar', 'delta_Q_bar',
         'delta_Q_0_bar', 'E_s_sum', 'melt_sum', 'swi_sum']
FORC = ['S_n', 'I_lw', 't_a', 'e_a', 'u', 't_g', 'm_pp', 'percent_snow',
        'rho_snow', 't_pp']


def enc(x):
    if x is None or isinstance(x, (bool, str)):
        return x
    if isinstance(x, np.bool_):
        return bool(x)
    if isinstance(x, (int, np.integer)):
        return int(x)
    if isinstance(x, (float, np.floating)):
        return float(x)
    if isinstance(x, np.ndarray):
        return {'__arr__': [enc(v) for v in x.ravel().tolist()],
                'shape': list(x.shape)}
    if isinstance(x, (list, tuple)):
        return [enc(v) for v in x]
    if isinstance(x, dict):
        return {str(k): enc(v) for k, v in x.items()}
    if isinstance(x, (datetime.datetime, datetime.timedelta)):
        return str(x)
    return repr(x)


def dec(x):
    if isinstance(x, dict):
        if '__arr__' in x:
            return np.array(x['__arr__'], dtype=float).reshape(
                x.get('shape', [len(x['__arr__'])]))
        return {k: dec(v) for k, v in x.items()}
    if isinstance(x, list):
        return [dec(v) for v in x]
    return x


def exc_info(e):
    tb = traceback.extract_tb(e.__traceback__)
    return {'type': type(e).__name__, 'msg': str(e)[:400],
            'where': ['%s:%s' % (os.path.basename(f.filename), f.name)
                      for f in tb][-3:],
            'in_repo': any(os.path.realpath(f.filename).startswith(
                os.path.realpath(REPO)) for f in tb[-1:])}


def tstep_info(steps, thr, mode='all'):
    """The time step information of a model run, made by the driver out of
    the options of a configuration"""
    global by_driver
    if by_driver and all(t == int(t) for t in steps):
        try:
            o = PySnobal.__new__(PySnobal)
            o.config = {'time': {'time_step': steps[0]}, 'model': {
                '%s_%s' % (a, b): x
                for b, xs in (('time_step', steps[1:]), ('threshold', thr))
                for a, x in zip(('norm', 'medium', 'small'), xs)},
                'files': {'output_mode': mode}}
            o.parse_time_steps()
            t = [dict(o.tstep_info[i]) for i in range(3)]
            for x in t:
                x['intervals'], x['threshold'], x['time_step']
                x['intervals_per_timestep'], x['time_step_timedelta']
            return t
        except Exception:
            # done in another way; made here from what is documented
            by_driver = False
    data, n, m, s = steps
    out = []
    for i, t in enumerate((n, m, s)):
        out.append({'level': i, 'output': False, 'threshold': thr[i],
                    'time_step': t * 60,
                    'time_step_timedelta': datetime.timedelta(minutes=t)})
    for x, longer, t in zip(out, (data, n, m), (n, m, s)):
        x.update(intervals=int(longer / t),
                 intervals_per_timestep=int(data / t))
    return out


class Run(object):

    def __init__(self, sc, shared=None):
        self.sc = sc
        c = sc['cfg']
        self.mode = sc.get('mode', 'all')
        self.start = START + \
            datetime.timedelta(minutes=c.get('start_min', 0))
        self.params = {'elevation': c['elevation'], 'start_date': self.start,
                       'max_h2o_vol': c['max_h2o'], 'max_z_s_0': c['max_z']}
        if c.get('relative') is not None:
            self.params['relative_heights'] = c['relative']
        self.tsi = tstep_info(c['steps'], c['thr'], self.mode)
        self.initial = dict(sc['init'])
        self.heights = {'z_t': c['z_t'], 'z_u': c['z_u'], 'z_g': c['z_g']}
        if shared is not None:
            # the same objects for every run that they are the same for
            def get(what, x, key=None):
                return shared.setdefault((what, repr(key or x)), x)
            self.params = get('params', self.params)
            self.tsi = get('tsi', self.tsi, (c['steps'], c['thr']))
            self.initial = get('initial', self.initial)
            self.heights = get('heights', self.heights)
        self.args_before = repr((self.params, self.tsi, self.initial,
                                 self.heights))
        self.model = None
        self.exc = None
        self.marks = []
        self.k = 0
        self.prev = None
        self.mutated = []
        self.guard(self.create)

    def guard(self, fn):
        try:
            fn()
        except Exception as e:
            self.exc = exc_info(e)
            self.exc['step'] = self.k

    def create(self):
        self.model = Snobal(self.params, self.tsi, self.initial, self.heights,
                            self.mode)
        st = self.model.snow_state
        self.init_rec = [enc(getattr(st, k)) for k in STATE[:19]]

    def data(self, i):
        return InputData(dict(zip(FORC, self.sc['forcing'][i])))

    @property
    def done(self):
        return self.exc is not None or self.k + 1 >= len(self.sc['forcing'])

    def step(self):
        self.guard(self._step)

    def _step(self):
        i = self.k
        if self.prev is None or self.sc.get('fresh_inputs'):
            self.prev = self.data(i)
        nxt = self.data(i + 1)
        self.model.do_data_tstep(self.prev, nxt)
        if repr(input_attrs(nxt)) != repr(input_attrs(self.data(i + 1))):
            self.mutated.append(i)
        self.prev = nxt
        self.marks.append(len(self.model.output_list))
        self.k += 1

    def result(self):
        r = {'exc': self.exc, 'marks': self.marks,
             'mutated': self.mutated,
             'args_mutated': repr((self.params, self.tsi, self.initial,
                                   self.heights)) != self.args_before}
        if self.model is not None and hasattr(self, 'init_rec'):
            r['init'] = self.init_rec
            base = self.start
            r['recs'] = [
                [(o['date_time'] - base).total_seconds()] +
                [enc(o[k]) for k in STATE]
                for o in self.model.output_list]
            r['clock'] = (self.model.current_datetime - base).total_seconds()
            r['extra_keys'] = sorted(
                set(k for o in self.model.output_list[:1] for k in o) -
                set(STATE) - {'date_time'})
        return r


def op_run(q):
    r = Run(q['sc'])
    while not r.done:
        r.step()
    return r.result()


def op_runs(q):
    """Several models alive at once, data steps interleaved by `order`"""
    shared = {} if q.get('share') else None
    runs = [Run(s, shared) for s in q['scs']]
    for i in q['order']:
        r = runs[i % len(runs)]
        if not r.done:
            r.step()
    for r in runs:
        while not r.done:
            r.step()
    return [r.result() for r in runs]


MODS = {'lib': libsnobal, 'fn': functions, 'snow': snow}


def op_call(q):
    mod, name = q['fn'].split('.')
    f = getattr(MODS[mod], name)
    out = []
    for args in q['calls']:
        a = dec(args)
        kw = {}
        if a and isinstance(a[-1], dict):
            kw = a.pop()
        before = repr(enc(a))
        try:
            out.append({'r': enc(f(*a, **kw))})
            if repr(enc(a)) != before:
                out[-1]['args_changed'] = True
        except Exception as e:
            out.append({'exc': exc_info(e)})
    return out


def input_attrs(i):
    d = {}
    for k in FORC + ['m_snow', 'm_rain', 'z_snow', 'h2o_sat_snow', 't_rain',
                     't_snow', 'precip_now']:
        d[k] = enc(getattr(i, k))
    return d


def op_input(q):
    out = []
    for d in q['data']:
        try:
            out.append({'r': input_attrs(InputData(dec(d)))})
        except Exception as e:
            out.append({'exc': exc_info(e)})
    return out


def op_input_ops(q):
    """Stateful use of one InputData"""
    i = InputData(dec(q['data']))
    out = []
    for o in q['ops']:
        if o[0] == 'set':
            setattr(i, o[1], o[2])
        elif o[0] == 'add':
            j = InputData(dec(o[1]))
            i.add_deltas(j)
        elif o[0] == 'precip':
            i.update_precip_deltas(InputData(dec(o[1])))
        elif o[0] == 'read':
            getattr(i, o[1])
        if o[0] == 'read':
            out.append({'read': enc(getattr(i, o[1]))})
        else:
            out.append(None)
    fin = input_attrs(i)
    fin['sat_vp'] = enc(i.sat_vp)
    fin['e_g'] = enc(i.e_g)
    return {'out': out, 'final': fin}


SNOW_ATTR = ['e_s_0', 'e_s_l', 'layer_count', 'snowcover', 'cc_s',
             'isothermal', 'kts', 'dry_snow_density']


def op_state_ops(q):
    s = SnowState(**q.get('kw', {}))
    out = []
    for o in q['ops']:
        try:
            if o[0] == 'set':
                setattr(s, o[1], o[2])
                out.append(None)
            elif o[0] == 'dict':
                s.set_from_dict(o[1])
                out.append(None)
            elif o[0] == 'read':
                out.append(enc(getattr(s, o[1])))
            elif o[0] == 'call':
                out.append(enc(getattr(s, o[1])(*o[2:])))
            elif o[0] == 'snap':
                out.append({k: enc(getattr(s, k)) for k in o[1]})
        except Exception as e:
            out.append({'exc': exc_info(e)})
    return {'out': out}


def op_deltas(q):
    """InputDeltas of a pair of records, as seen through InputData"""
    a, b = InputData(dec(q['a'])), InputData(dec(q['b']))
    d = InputDeltas(a, b, tstep_info(q['steps'], [60, 10, 1])).calculate()
    return {str(k): input_attrs(v) for k, v in d.items()}


def op_csv(q):
    from pysnobal.pysnobal import PySnobal
    d = tempfile.mkdtemp(prefix='vpcsv')
    cwd = os.getcwd()
    res = {}
    try:
        for name, text in q['files'].items():
            p = os.path.join(d, name)
            os.makedirs(os.path.dirname(p), exist_ok=True)
            with open(p, 'w', newline='') as f:
                f.write(text)
        os.chdir(d)
        try:
            cf = os.path.join(d, q['config'])
            if q.get('as_object'):
                import pysnobal.pysnobal as mod
                from inicheck.tools import MasterConfig, get_user_config
                cf = get_user_config(cf, mcfg=MasterConfig(path=os.path.join(
                    os.path.dirname(mod.__file__), PySnobal.CORE_CONFIG)))
            p = PySnobal(cf)
            outs = []
            for _ in range(q.get('runs', 1)):
                ret = p.run()
                op = os.path.join(d, q['output'])
                with open(op) as f:
                    outs.append(f.read())
                if q['output'] not in q['files']:
                    os.remove(op)
            res['out'] = outs
            res['ret'] = enc(ret)
            res['left'] = sorted(
                os.path.relpath(os.path.join(r, f), d)
                for r, _, fs in os.walk(d) for f in fs)
            with open(os.path.join(d, q['input']), newline='') as f:
                res['input_same'] = f.read() == q['files'][q['input']]
        except (Exception, SystemExit) as e:
            res['exc'] = exc_info(e)
            op = os.path.join(d, q['output'])
            res['out_exists'] = os.path.exists(op)
            if q['output'] in q['files']:
                # a file of an earlier run counts when it was changed
                with open(op) as f:
                    res['out_exists'] = f.read() != q['files'][q['output']]
    finally:
        os.chdir(cwd)
        shutil.rmtree(d, ignore_errors=True)
    return res


OPS = {k[3:]: v for k, v in list(globals().items()) if k.startswith('op_')}


def main():
    for line in sys.stdin:
        q = json.loads(line)
        try:
            r = {'ok': OPS[q['op']](q)}
        except Exception as e:
            r = {'harness': traceback.format_exc()[-1500:],
                 'exc': exc_info(e)}
        proto_out.write(json.dumps(r) + '\n')
        proto_out.flush()


main()
