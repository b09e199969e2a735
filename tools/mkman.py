import json,os,sys
sys.path.insert(0,'/verif')
T={
'C01':('property-based testing: generated runs, conservation law per record','Searches for a record whose water does not add up. Needs no reference model; the only input is the documented share of the precipitation per step. One defect that a gold test of the repository pins is listed as a known finding, recognised by its exact amount.'),
'C02':('property-based testing: generated runs, conservation law and reference terms','Sum of the terms of every record, and net radiation, from the record before it.'),
'C03':('property-based testing: generated runs, step-wise differential against a reference model','Each step is compared with an independent transcription of the equations, started from the recorded state.'),
'C04':('property-based testing: generated runs, invariants of every state','State invariants on every record and the initial state.'),
'C05':('property-based testing: generated runs at the limits, reference model and direct rule','Layer rule checked directly and through the reference step, with masses generated at and around the limits, including exact equality.'),
'C06':('property-based testing: generated runs, reference model of the division over the history','Predicts the length of every step from the recorded layer masses and compares all times.'),
'C07':('property-based testing: generated runs, interpolation oracle','Every flux and mass term that depends on the forcing is recomputed from the interpolated records.'),
'C08':('property-based testing: metamorphic relation between two output modes','The aggregate of the run with all records must equal the run with one record per data step.'),
'C09':('property-based testing: generated events and runs against a reference model','Batches of input records against the documented rules; steps with precipitation against the reference step.'),
'C10':('property-based testing: solver result against the equations it must solve','Residual of the similarity equations by bisection, independent of the iteration; faults in the input must be refused.'),
'C11':('property-based testing: formulas, scalar/array differential, monotonicity','Every public function against its formula over its range.'),
'C12':('property-based testing: generated runs and laws of conduction','Conduction recomputed for every step; antisymmetry and formula for generated pairs of layers.'),
'C13':('property-based testing: generated runs, step-wise differential against a reference model','As C03 for the vapor exchange.'),
'C14':('property-based testing: generated runs, step-wise differential against a reference model','As C03 for density and depth.'),
'C15':('property-based testing: generated runs, step-wise differential against a reference model','As C03 for liquid water and runoff.'),
'C16':('property-based testing: differential between CSV driver and model','Generated files are run by the driver and compared, digit by digit as formatted, with a model run.'),
'C17':('property-based testing: differential between configured driver and model','Generated configurations; the model gets the numbers directly, in its own units.'),
'C18':('property-based testing: interleaved, repeated and shifted runs compared bit by bit','Generated schedules of up to three live runs; equality is exact.'),
'C19':('property-based testing: single-fault injection into inputs, configurations and files','One fault per case at a generated position; the run must end in an error and what it wrote before must be that of the fault-free prefix.'),
'C20':('property-based testing: generated runs, residual of the transfer equations','As C10 inside of runs, with heights and humidity recomputed for the step.'),
'C21':('stateful property-based testing: operation sequences against a model object','Sequences of assignments, reads and updates compared with values computed anew.'),
'C22':('differential testing over the stored seasons','Generated stretches of the shipped 25 years against stored results of the original implementation, within fixed differences.'),
}
have=sorted(f[:-3].upper() for f in os.listdir('/verif/vlib/props') if f.startswith('c') and f.endswith('.py'))
m={'version':1,'setup_cmd':'true',
 'checks':[{'property':k,'quick_cmd':'python3 check.py '+k,'thorough_cmd':'VERIF_TIER=thorough python3 check.py '+k,'evidence_file':'evidence/%s.json'%k,'technique':T[k][0],'level':'exploration','level_note':T[k][1]+' Assurance is that of the cases searched; nothing is proved.'} for k in have],
 'not_applicable':[{'property':'C23','reason':'The gridded model of this commit cannot be run: its constructor calls methods that do not exist (get_measurement_height_rec, init_snow with an argument it does not take) and its driver passes arguments the constructor does not have, so there is no behaviour to generate inputs for; repairing it would be writing it.'}],
 'notes':'No hooks in /repo. The code under test runs in /opt/venv (PyPy) from /repo itself in worker processes; Hypothesis runs in the tooling venv. Replay: python3 check.py <id> --replay <file>.'}
if 'C22' not in have: m['not_applicable'].append({'property':'C22','reason':'no check built yet'})
json.dump(m,open('/verif/MANIFEST.json','w'),indent=1); print(len(have))
