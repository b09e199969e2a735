import json
S='pysnobal/point/snobal.py'; L='pysnobal/point/libsnobal.py'; ST='pysnobal/point/snow_state.py'
I='pysnobal/point/input.py'; D='pysnobal/pysnobal.py'; F='pysnobal/core/functions.py'; SN='pysnobal/core/snow.py'; INI='pysnobal/pysnobal_core_config.ini'
GOLD=('The existing tests run one site and one configuration from fixed starting states and compare the end with stored numbers; ')
P=[]
def p(id,title,statement,over,text,why,files,mech,obs,state=None):
    d={'id':id,'title':title,'statement':statement,'quantifier':{'over':over,'text':text},'why_tests_cant':why,
       'anchors':{'files':files,'mechanism':[{'name':n,'where':w} for n,w in mech],'observe_at':obs,'hook_needed':None}}
    if state: d['anchors']['state']=[{'name':a,'meaning':b,'where':c} for a,b,c in state]
    P.append(d)
RUN='every configuration, initial snowcover and sequence of input records, and every record that the run writes'
p('C01','Water mass is conserved in every record',
 'In every output record the precipitation that fell, plus condensation minus evaporation, minus the surface water input (runoff) equals the change of the snowcover mass, to rounding. This holds whether the snowcover appears, persists, changes its number of layers, or disappears in the record, and with no snow all rain leaves as surface water input.',
 ['inputs','configurations','histories'],'for '+RUN,
 GOLD+'none adds up the mass, and appearance or disappearance of snow happens a few times in them.',
 [S,ST,SN],[('mass_balance','%s mass_balance and the five processes it calls'%S),('adj_layers','%s adj_layers, water of a snowcover that is removed'%S),('runoff','%s runoff'%S)],
 ['output records: m_s, E_s, swi','driver output file'],
 [('m_s','mass of the snowcover, kg/m2',ST),('swi_sum','water that left since the last record',S)])
p('C02','The energy budget of every record adds up',
 'In every output record the change of energy of the surface layer and of the whole snowcover each equal the sum of net radiation, sensible, latent, conducted and advected heat that the same record reports, with the conducted term that belongs to each. Net radiation follows from the input and the surface temperature, and with no snowcover every energy term is zero.',
 ['inputs','configurations','histories'],'for '+RUN,
 GOLD+'the sum of the terms is never asserted and the stored numbers cover one weather record.',
 [S],[('energy_balance','%s energy_balance'%S),('net_radiation','%s net_radiation'%S)],['output records: R_n, H, L_v_E, G, G_0, M, delta_Q, delta_Q_0'])
p('C03','Energy becomes cold content, melt or refreezing, never lost',
 'The energy change of a run time step first removes cold content, then melts ice at the latent heat of fusion, and an energy deficit first refreezes liquid water and then adds cold content, per layer. The cold contents, temperatures and melt of the record follow from the state before it and the energy it reports, and the temperature of each layer agrees with its cold content and mass.',
 ['inputs','configurations','histories'],'for '+RUN,
 GOLD+'the order of refreezing and warming matters only in particular combinations of wet and cold layers.',
 [S,ST,SN],[('snowmelt','%s snowmelt'%S),('new_tsno','%s new_tsno, %s adjust_layer_temps'%(SN,ST)),('cold_content','%s cold_content'%S)],
 ['output records: melt, cc_s, cc_s_0, cc_s_l, t_s, t_s_0, t_s_l'])
p('C04','Every reported state is physically possible and self-consistent',
 'Every reported number is finite; masses, depths, densities and liquid water are not negative, temperatures do not exceed freezing, cold contents do not exceed zero, liquid water does not exceed what the snow can hold. Mass is density times depth, layers add up to the snowcover, the number of layers agrees with the depths, and a ground without snow has none of them.',
 ['inputs','configurations','histories'],'for '+RUN,
 GOLD+'an invariant of the state is not asserted anywhere.',
 [S,ST],[('calc_layers, layer_mass','%s'%ST),('adj_layers','%s adj_layers'%S),('init_snow','%s init_snow'%S)],['output records','the initial state'])
p('C05','A snowcover is layered, appears and disappears by the mass limits',
 'A snowcover exists exactly while its mass exceeds the least threshold; it has a lower layer exactly when the depth beyond the active layer holds at least that mass, and the active layer then has its configured depth. When it forms, changes its layers or disappears, temperatures, cold content and water of the layers are those that the snow before it implies; the first state follows from the initial conditions in the same way.',
 ['inputs','configurations','histories'],'for '+RUN+', with emphasis on masses at the limits',
 GOLD+'limits are hit by accident only; exactly equal values never occur.',
 [S,ST],[('calc_layers','%s calc_layers'%ST),('adj_layers','%s adj_layers'%S),('precip_event, init_snow','%s'%S)],['output records: z_s, z_s_0, z_s_l, m_s_0, m_s_l, temperatures and cold contents'])
p('C06','A data time step is divided by layer mass and the clock never drifts',
 'Each data time step is covered exactly by run time steps; a normal step is divided into medium steps and those into small steps exactly when a layer of the snowcover at that moment has less mass than the threshold of the coarser step, and undivided without snow. The records carry the end times of their steps, the clock advances one data time step per pair of input records, and every data time step gives one record when all records are not asked for.',
 ['inputs','configurations','histories'],'for '+RUN+', and every combination of four time steps that divide each other',
 'The tests use one combination of time steps and thresholds; a wrong division changes the numbers little.',
 [S,D],[('do_data_tstep','%s do_data_tstep'%S),('divide_tstep, below_thold','%s'%S)],['times and number of the output records'])
p('C07','Forcing is interpolated linearly, precipitation is spread evenly',
 'Each run time step sees radiation, temperatures, vapor pressure and wind on the straight line between the two input records of its data time step, at the beginning of the step, and the next data time step starts exactly from its own record. Precipitation of the first record is divided equally over the run steps, so that their sum is the record, with the phase, density and temperature of that record.',
 ['inputs','configurations','histories'],'for every pair of neighbouring records and every division of the data time step',
 GOLD+'hourly records differ little, so an increment that is off by one step passes within the tolerance.',
 [I,S],[('InputDeltas','%s'%I),('add_deltas, update_precip_deltas','%s'%I),('do_data_tstep','%s'%S)],['energy and mass terms of the records of a divided data time step'])
p('C08','Aggregated records equal the records of the steps they span',
 'A run that writes one record per data time step gives the same states as a run that writes every run time step: sums are the sums, averages are the averages weighted with the length of the steps, and the state is the state at the end. Writing more records never changes the simulation.',
 ['inputs','configurations','histories'],'for every configuration, initial snowcover and sequence of records',
 'One test compares one season in one mode with a stored result; the modes are never compared with each other.',
 [S,ST],[('value_to_bar, time_average','%s'%ST),('output, init_output','%s'%S)],['records of both output modes'])
p('C09','Precipitation is split into rain and snow by share, temperature and density',
 'The mass of a precipitation event is divided by the share of snow, mixed events have rain and snow at the temperatures the interface documents, snow at or above freezing is saturated with water and cooler snow is dry, and its depth follows from its density; snow without a density is rejected. The event changes the mass, depth, water and heat of the snowcover by exactly those amounts.',
 ['inputs','histories'],'for every precipitation mass, share of snow, density and temperature, and every snowcover it falls on',
 'The tests have a handful of events; equality with freezing and shares at 0 and 1 are not among them.',
 [I,S],[('precipitation_inputs','%s'%I),('precip_event, adj_snow, advec','%s'%S)],['derived values of an input record','output records of steps with precipitation'])
p('C10','The turbulent transfer solves its equations or says that it did not',
 'For every physically meaningful set of measurements the sensible and latent heat and the mass flux solve the bulk similarity equations for stable, neutral and unstable conditions, independent of the values that start the iteration, with signs along the gradients. Success is reported only then, a failed iteration is reported as such, and input without meaning is rejected.',
 ['inputs'],'for every pressure, temperature, humidity, wind, height, roughness and start of the iteration',
 'A few sets of measurements are compared with stored numbers; none is neutral, none fails to converge.',
 [L],[('hle1','%s hle1'%L),('psi, spec_hum','%s'%L)],['the values returned by the transfer function'])
p('C11','Thermodynamic functions obey their formulas for numbers and arrays',
 'Saturation vapor pressure over ice and water, humidity, air density, pressure by elevation, heat capacities, latent heats, diffusion, water holding and melt functions give the published formula over their whole range. The scalar and array versions agree element by element, the saturation curves rise with temperature, meet at freezing, and reject negative absolute temperatures. No function changes an array that it is given.',
 ['inputs'],'for every argument in the physical range, single or in arrays',
 'The tests check single values, mostly by comparing with numbers that the code itself gave.',
 [F,L,SN],[('core functions','%s'%F),('satw, sati and their array versions, psi','%s'%L),('snow property functions','%s'%SN)],['values returned by the functions'])
p('C12','Heat is conducted by the conductivity of the layers in series',
 'The heat from the soil and between the snow layers is the series conduction through both halves with the conductivity of snow of that density, including the vapor diffusion in snow and soil, at the temperature, depth and pressure of that moment. It flows from warm to cold, swapping the sides changes the sign, and with one layer only the soil conducts.',
 ['inputs','configurations','histories'],'for '+RUN+', and for every pair of layers',
 GOLD+'the sign and the choice of the layer matter only for gradients that do not occur in them.',
 [S,L,ST],[('g_soil, g_snow','%s'%S),('ssxfr, efcon','%s'%L),('kts','%s'%ST)],['output records: G, G_0','values returned by the conduction functions'])
p('C13','Evaporation takes liquid water and ice in proportion to the vapor gradients',
 'The mass that evaporates or condenses in a run step is that of the latent heat flux and of the vapor flux from the soil through the snow, over that step. It changes the liquid water and the ice of the snowcover and its depth by the documented parts, never beyond what is there.',
 ['inputs','configurations','histories'],'for '+RUN,
 GOLD+'the soil part and the drying of a wet snowcover are too small to be seen at their tolerance.',
 [S,F],[('evap_cond','%s evap_cond'%S),('diffusion_coef, vapor_flux, mix_ratio','%s'%F)],['output records: E_s, m_s, z_s, h2o'])
p('C14','Snow settles by weight, time and melt water, never above its limit',
 'Density and depth after a run step are those of the compaction by overburden and temperature over the length of that step, of the compaction by added liquid water, and of the mass change; new snow mixes its density by mass. Settling never loosens snow, does not change its mass and does not pass the greatest density.',
 ['inputs','configurations','histories'],'for '+RUN,
 GOLD+'deep, dense or very wet snow does not occur in them at all.',
 [S],[('time_compact','%s time_compact'%S),('h2o_compact','%s h2o_compact'%S),('adj_snow','%s adj_snow'%S)],['output records: rho, z_s, m_s'])
p('C15','Liquid water beyond the holding capacity, and only that, runs off',
 'The snowcover holds liquid water up to the configured volume share of its pores; what exceeds it after rain, melt and evaporation leaves as surface water input in the same step and nothing else does. Rain on bare ground leaves at once, and the reported content, capacity, saturation and volume of water agree with each other.',
 ['inputs','configurations','histories'],'for '+RUN,
 GOLD+'one capacity is used, zero capacity and capacity above the pore space never.',
 [S,SN],[('runoff','%s runoff'%S),('dry_snow_density','%s'%ST),('h2o_left','%s'%SN)],['output records: h2o, h2o_sat, h2o_vol, h2o_total, swi'])
p('C16','The driver feeds the input file to the model and writes what it computed',
 'A run of the driver gives exactly the records that the model gives for the rows of the input file in the configured period, with temperatures converted, whatever the order of rows and columns or the form of the time stamps. Every record is in the output file once, with its time in the time zone of the run, the documented columns, units and digits; the input file stays as it is, and repeating the run repeats the file.',
 ['inputs','configurations'],'for every input file that holds the documented columns, in any order and with other columns, every period and time zone',
 'The tests read one input file in one time zone and compare a few columns with a tolerance.',
 [D],[('read_input_data, map_input_data','%s'%D),('run, output_to_file','%s'%D)],['the output file'])
p('C17','Every option of the configuration reaches the model with its unit',
 'A driver run with any valid configuration equals a model run with the same elevation, time steps, thresholds, heights, water capacity, active layer, output mode and initial snow properties, in the units that the configuration documents. An option that is left out means its documented default.',
 ['configurations'],'for every combination of valid values of all options',
 'All tests use one configuration that is mostly the defaults, so an option that is ignored passes.',
 [D,INI],[('parse_params, parse_time_steps','%s'%D),('core configuration','%s'%INI)],['the output file'])
p('C18','Runs are deterministic, independent of each other and leave inputs alone',
 'The same run gives the same records bit by bit, alone, repeated, at any start date, or while other runs of other configurations are advanced in turn in the same process. The caller\'s parameters, initial conditions and the record that ends a data step, which starts the next, are not changed.',
 ['schedules','histories','configurations'],'for every set of runs and every order in which their data time steps are executed',
 'The tests run one model at a time and never look at their arguments again.',
 [S,I,D],[('objects per run, no module state','%s __init__'%S),('copies of the forcing','%s do_data_tstep'%S)],['output records of interleaved runs','the arguments after the run'])
p('C19','Input that has no meaning is refused, never turned into numbers',
 'A missing or misnamed file or column, an unknown option value, a period that ends before it starts, a missing value, a gap or another interval in the records, a part of snow that is not between 0 and 1, snow without density, a negative precipitation mass, temperatures and pressures at or below zero, a negative wind speed, initial snow with a negative depth or density, above freezing or with a saturation outside 0 to 1, an active layer or soil depth that is not positive, a maximum water content outside 0 to 1, time steps that do not divide each other evenly and instruments under the snow end the run with an error. No record that is not finite is written before it, the records before the fault are those of a run without it, and a failed driver run leaves no output file.',
 ['inputs','configurations'],'for every run and every single fault at every position of the input',
 'Only one of these is tested, and not at different positions.',
 [D,S,I,L],[('check of the configuration','%s read_config_file'%D),('checks of the transfer function','%s hle1'%L),('check of the density','%s'%I)],['the error, the records before it, the files'])
p('C20','Turbulent fluxes of a run use the current heights, state and humidity',
 'In every run step the sensible and latent heat solve the transfer equations for the forcing of that step, the surface temperature of that moment and the height of the instruments above the snow: fixed above the ground, so that a growing snowcover brings them nearer, or relative to the snow surface when configured. A vapor pressure above saturation counts as saturation in that step only, and without snow there are no fluxes. Where the transfer equations find no solution, as they may in calm air, the run ends with an error.',
 ['inputs','configurations','histories'],'for '+RUN,
 GOLD+'heights are fixed and far above the snow, air above saturation does not occur.',
 [S,L],[('h_le','%s h_le'%S),('measurement heights','%s init_snow and adj_layers'%S)],['output records: H, L_v_E'])
p('C21','Derived values always belong to the current state and input',
 'Vapor pressures, layer count, cold content of the snowcover, isothermal state, conductivity and dry density that a snow state reports, and the saturation and soil vapor pressures and precipitation parts that an input record reports, are those of its current values after any sequence of assignments, reads and updates. Updating never leaves a value of an earlier state behind.',
 ['histories'],'for every sequence of assignments, reads, updates and layer calculations on one object',
 'The tests assign once and read once, so a value that is kept too long is not seen.',
 [ST,I],[('cached vapor pressures','%s setters of the temperatures'%ST),('cached vapor pressures','%s setters of the temperatures'%I),('calc_layers','%s'%ST)],['attributes of the state and of the input record'])
p('C22','Stored seasons of the site are reproduced from the shipped weather',
 'From the shipped hourly weather of every one of 25 water years the driver reproduces the stored snow mass, depth and cumulated surface water input of that year, within the small differences that the two implementations have. This holds from any autumn start to any later hour of the year.',
 ['inputs'],'for every year and every length of the period from the start of the snow year',
 'The tests run one year only and compare with a result of this code.',
 [D,S],[('the whole model','%s, %s'%(D,S))],['the output file, or the records of the model'])
p('C23','The gridded model gives every cell the result of the point model',
 'A gridded run gives at every cell the records that the point model gives for the forcing, elevation and initial snow of that cell, and cells do not influence each other.',
 ['inputs','configurations'],'for every grid, forcing and initial snow',
 'The gridded model has no test that runs it.',
 ['pysnobal/spatial/isnobal.py','pysnobal/spatial/snow_state.py','pysnobal/ipysnobal.py'],[('iSnobal','pysnobal/spatial/isnobal.py')],['the gridded output'])
for d in P:
    assert len(d['title'])<=80,(d['id'],len(d['title']))
with open('/verif/properties.jsonl','w') as f:
    for d in P: f.write(json.dumps(d)+'\n')
