"""What the evidence of each check says about its cases"""

TRACE = ('A case is a generated run of the point model: configuration (time '
         'steps, mass thresholds, elevation, heights, water holding '
         'capacity, active layer), initial snowcover (bare, thin, one or '
         'two layers, wet, ripe, deep, at a decision) and input records '
         '(synthetic weather regimes mixed with windows of the stored 25 '
         'years); every run time step of it is judged. Some cases instead '
         'bisect one number of a short run towards a decision of the model '
         'and judge every run on the way. ')

FLOAT = ('double precision; comparisons use the tolerances of '
         'vlib/compare.py, decisions that rounding can turn are accepted '
         'both ways')
REF = ('the reference model in vlib/ref.py is an independent '
       'transcription of the equations of the model, it shares no code with '
       'pysnobal')
ONE = ('each step is judged from the recorded state before it, with the '
       'reported energy fluxes as given, so that an error is not '
       'hidden or amplified by the steps before it')

_T = {
    'C01': ('Non-trivial: snow appears or disappears in a record, or there '
            'is runoff in a record together with precipitation or '
            'evaporation.',
            ['precipitation of a record is what the interface documents: '
             'an equal share per run step of the record that starts the '
             'data step']),
    'C02': ('Non-trivial: precipitation advects heat, or two layers '
            'exchange heat.', [REF, FLOAT]),
    'C03': ('Non-trivial: there is melt or refreezing in at least one step.',
            [REF, FLOAT, ONE]),
    'C04': ('Non-trivial: the number of layers changes, or a wet snowcover '
            'has a cold lower layer.', [FLOAT]),
    'C05': ('Non-trivial: the number of layers changes in a record.',
            [REF, FLOAT, ONE]),
    'C06': ('Non-trivial: run steps of more than one length occur in the '
            'run.', ['the masses that decide are those the model reports']),
    'C07': ('Non-trivial: a run step lies strictly between two different '
            'records; for pairs of records: they differ and the first one '
            'has precipitation.', [REF, FLOAT]),
    'C08': ('Non-trivial: the run has a data step of several run steps '
            'with snow.', [FLOAT]),
    'C09': ('Non-trivial: precipitation on snow, or a batch of records that '
            'has snow.', [REF, FLOAT, ONE]),
    'C10': ('A case is a batch of calls with generated pressure, '
            'temperatures, humidities, wind, heights and roughness, and '
            'calls with input that has no meaning. Non-trivial: the batch '
            'has stable and unstable or neutral conditions, or bad input.',
            ['the fluxes solve the published equations within 0.2 %; '
             'where several solutions exist any is accepted']),
    'C11': ('A case is a batch of arguments of one function, as scalars '
            'and as arrays, or a set of temperatures for the saturation '
            'curves. Non-trivial: at least two different arguments.',
            ['relative tolerance 1e-10']),
    'C12': ('Non-trivial: the run has two layers of different '
            'temperature; all batches of the conduction laws.',
            [REF, FLOAT]),
    'C13': ('Non-trivial: liquid water evaporates or a snowcover dries '
            'completely.', [REF, FLOAT, ONE]),
    'C14': ('Non-trivial: the snow settles by its weight or by melt water.',
            [REF, FLOAT, ONE]),
    'C15': ('Non-trivial: there is runoff, rain on bare ground, or new '
            'snow too thin to be a snowcover.', [REF, FLOAT, ONE]),
    'C16': ('A case is a run of the CSV driver with a generated input file '
            '(order of rows and columns, extra columns, time stamps, period '
            'of the run, time zone), compared with a run of the model with '
            'the same numbers. Non-trivial: the file is not in its '
            'canonical form.', ['digits as written by the driver']),
    'C17': ('A case is a run of the CSV driver with generated options, '
            'compared with a run of the model with the same options. '
            'Non-trivial: at least four options are off their default.',
            ['digits as written by the driver']),
    'C18': ('A case is up to three runs alone, taking turns in one process, '
            'repeated, with other start dates and with records made anew. '
            'Non-trivial: at least two runs take turns.', []),
    'C19': ('A case is a run with one value that has no meaning, or files '
            'with one fault. Non-trivial: there is snow when the value is '
            'used, or the fault is in the files.',
            ['any error is accepted for input without meaning, where '
             'the interface does not name one']),
    'C20': ('Non-trivial: relative heights, vapor pressure above '
            'saturation, or a snow depth that matters for the heights.',
            [REF, 'the fluxes solve the published equations within 0.2 %']),
    'C21': ('A case is a sequence of assignments, reads and '
            'updates of one snow state or one input record. Non-trivial: a '
            'derived value is read after what it depends on was changed.',
            [REF]),
    'C22': ('A case is a batch of eight windows of 36 hours, of eight '
            'different water years of the stored 25 years, which share a '
            'feature (snow forms, disappears, layers appear or disappear, '
            'rain, runoff, melt, thin, deep, new snow, dry); each window '
            'starts from the stored state of its hour and is compared with '
            'the stored states after it. Non-trivial: the feature is not '
            '"dry".',
            ['the stored seasons were computed by the C program this code '
             'was ported from, with rounded output, so a single window may '
             'part from them; a batch fails when five of its eight windows '
             'do, in the same quantity, or one window by far']),
}

META = {}
for _k, (_rule, _ass) in _T.items():
    _own = _k in ('C10', 'C11', 'C16', 'C17', 'C18', 'C19', 'C21', 'C22')
    META[_k] = {
        'level': 'exploration',
        'rule': _rule if _own else TRACE + _rule,
        'unit': {'C10': 'calls', 'C11': 'calls', 'C16': 'data steps',
                 'C17': 'data steps', 'C18': 'records', 'C19': 'runs',
                 'C21': 'operations', 'C22': 'hours compared'}.get(_k, 'run steps judged'),
        'assumptions': _ass,
    }
