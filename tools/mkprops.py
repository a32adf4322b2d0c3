"""Writes properties.jsonl (kept as Python so that it is readable)."""
import json
import os

S = 'pysnobal/point/snobal.py'
ST = 'pysnobal/point/snow_state.py'
I = 'pysnobal/point/input.py'
L = 'pysnobal/point/libsnobal.py'
F = 'pysnobal/core/functions.py'
SN = 'pysnobal/core/snow.py'
P = 'pysnobal/pysnobal.py'
C = 'pysnobal/core/constants.py'
INI = 'pysnobal/pysnobal_core_config.ini'

GOLD = ('The tests that run compare one short winter period with one stored '
        'output at a coarse tolerance')
OUT = ['output records of Snobal (output_list)', 'output CSV']

props = []


def add(id, title, statement, over, text, why, files, mech, obs=OUT):
    assert len(title) <= 80, title
    props.append(dict(
        id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files,
                     mechanism=[dict(name=n, where=w) for n, w in mech],
                     observe_at=obs, hook_needed=None)))


HIST = ['inputs', 'histories', 'configurations']
ALLW = ('Every physically possible forcing history, initial snowcover and '
        'configuration, at every run time step.')

add('P01', 'Mass is conserved in every step and over every run',
    'In every output interval the change of the snowcover mass equals the '
    'precipitation plus evaporation/condensation minus the surface water '
    'input (runoff); rain on bare ground is all surface water input, and '
    'snow that is too little to form a layer becomes surface water input. '
    'Nothing is lost or created when layers form, merge or the snowcover '
    'appears or vanishes.',
    HIST, ALLW, GOLD + '; no test adds up a mass balance, and errors of it '
    'hide at appearance/disappearance of snow.',
    [S], [('mass_balance', S), ('runoff', S), ('adj_snow', S),
          ('adj_layers', S), ('precip_event', S)])
add('P02', 'The energy budget closes',
    'The change of energy of the surface layer equals the sum of net '
    'radiation, sensible heat, latent heat, advected heat and the conduction '
    'into the surface layer; the change of energy of the whole snowcover '
    'equals the same sum with the ground heat flux in place of it. With one '
    'layer both are the same, and without snow on the ground all energy '
    'terms are 0.',
    HIST, ALLW, GOLD + ' and check no relation between columns.',
    [S], [('energy_balance', S), ('heat_transfer', S)])
add('P03', 'Melt, refreezing, cold content and snow temperatures agree',
    'A layer\'s heat balance first uses up its cold content, what is left '
    'over melts snow (never more than the ice there is), and liquid water '
    'refreezes, in proportion to the depth of the layers, into the cold '
    'content that remains. Each layer\'s temperature is the one its cold '
    'content and mass imply, no layer is above freezing, and a layer has cold '
    'content only when it is below freezing.',
    HIST, ALLW, GOLD + '; melt in the lower layer, partial refreezing and '
    'total melt are rare in it.',
    [S, SN, ST], [('snowmelt', S), ('adjust_layer_temps', ST),
                  ('new_tsno', SN), ('cold_content', S)])
add('P04', 'Every reported state is consistent and within physical bounds',
    'In every output record the depth is the sum of the layer depths, mass '
    'the sum of the layer masses and density times depth, and cold content '
    'the sum of the layers\'. Mass, depth, density, liquid water and melt are '
    'never negative, density never above 600 kg/m3, saturation within 0 to '
    '1, liquid water within the capacity and temperatures never above '
    'freezing. A layer that does not exist has no depth, mass and cold '
    'content and a temperature of -75 C.',
    HIST, ALLW, 'Tests look at a handful of states; the relations have to '
    'hold after every path through a step.',
    [S, ST], [('layer_mass', ST), ('calc_layers', ST), ('adj_snow', S),
              ('adj_layers', S)])
add('P05', 'The snowcover has the layers its depth and mass imply',
    'A snowcover with a mass up to the small threshold does not exist, '
    'otherwise it has a surface layer; the part deeper than the maximum '
    'active layer depth is a lower layer when it has at least the mass of '
    'the small threshold, else the surface layer is the whole snowcover. A '
    'lower layer that forms takes the average temperature and its cold '
    'content, and one that disappears leaves none.',
    HIST, ALLW + ' Includes depths and masses exactly at the limits.',
    'Unit tests check four states of calc_layers; the transitions and the '
    'exact limits are not reached.',
    [ST, S], [('calc_layers', ST), ('adj_layers', S), ('layer_count', ST)])
add('P06', 'Adaptive time steps cover the data interval exactly',
    'Between two input records the run time steps cover the interval '
    'exactly, once, in order, and each output record is stamped with the end '
    'of its interval. A time step is divided into the next smaller ones if '
    'and only if a layer\'s mass at its start is below the threshold of its '
    'level (never without snow), as often as there are levels.',
    HIST, 'Every forcing history, initial snowcover, and every combination '
    'of data, normal, medium and small time steps and thresholds.',
    'Tests use one combination of time steps; what level a step has depends '
    'on the history.',
    [S, P], [('divide_tstep', S), ('below_thold', S), ('do_tstep', S),
             ('parse_time_steps', P)])
add('P07', 'Each time step sees the forcing interpolated to its start',
    'In each run time step radiation, air temperature, vapor pressure, wind '
    'speed and soil temperature are those linearly interpolated between the '
    'two input records to the start of the time step (a vapor pressure that '
    'was limited to saturation continues from the limited value). The '
    'precipitation of a record is spread evenly over its interval: amount, '
    'rain, snow and snow depth in proportion to the length of the time step, '
    'and together exactly the amount of the record.',
    HIST, 'Every pair of consecutive records, at every level of time steps '
    'and every switch between the levels.',
    'Tests run mostly whole time steps, and compare aggregated values.',
    [I, S], [('InputDeltas.calculate', I), ('add_deltas', I),
             ('update_precip_deltas', I), ('do_tstep', S)])
add('P08', 'Normal output is the aggregate of the divided time steps',
    'An output record of the normal mode has the time-weighted means of the '
    'energy terms and the sums of evaporation, melt and surface water input '
    'over all run time steps since the last record, and the state at its '
    'end. The output mode never changes the simulation.',
    HIST, 'Every history and configuration; records with any mixture of '
    'time step lengths.',
    'The normal and the divided output are never compared, and the test of '
    'the divided output does not pass.',
    [S, ST, F], [('value_to_bar', ST), ('time_average', ST),
                 ('time_average', F), ('output', S), ('do_tstep', S)])
add('P09', 'Precipitation records are classified as rain, snow or mixed',
    'Snow is the given fraction of the precipitation and the rest is rain; '
    'the depth of the snow follows from its density. Mixed precipitation has '
    'saturated snow at freezing, snow alone is dry at its own temperature '
    'when that is below freezing and otherwise saturated at freezing, and '
    'rain is never colder than freezing; snow without a positive density is '
    'rejected.',
    ['inputs'], 'Every amount, fraction, density and temperature, including '
    'the exact limits.',
    'Four unit tests with one value each.',
    [I], [('precipitation_inputs', I)], ['InputData'])
add('P10', 'Precipitation changes the snowcover by what fell',
    'On existing snow the mass grows by all the precipitation and the depth '
    'by that of the new snow, the density becomes that of the mixture '
    '(limited to 600 kg/m3), and rain and the water in the new snow add to '
    'the liquid water. On bare ground snowfall starts a snowcover with its '
    'own depth, density, temperature and saturation, rain alone does not.',
    HIST, ALLW, 'Most of the test period has no precipitation; mixed and '
    'first snow are rare.',
    [S], [('precip_event', S), ('adj_snow', S), ('init_snow', S)])
add('P11', 'Turbulent fluxes solve the stability-corrected equations',
    'Sensible heat, latent heat and mass flux are a solution of the '
    'Monin-Obukhov flux-profile equations for the given heights, '
    'temperatures, vapor pressures, wind speed, pressure and roughness, for '
    'stable, unstable, neutral and calm conditions, whatever the starting '
    'values of the iteration. Inputs outside the domain are rejected, and a '
    'lack of convergence is reported and never passed on as a flux.',
    ['inputs', 'histories'], 'Every admissible input and every sequence of '
    'calls (the iteration starts from the last solution).',
    'One test compares a file of gold values of the original program, from '
    'a cold start.',
    [L, S], [('hle1', L), ('psi', L), ('h_le', S)],
    ['hle1', 'H and L_v_E of the output'])
add('P12', 'Saturation vapor pressures are always those of the temperature',
    'The saturation vapor pressures of the air, the soil and the snow '
    'layers that the model uses are at every moment those of the current '
    'temperature: over ice up to freezing, over water above it. After any '
    'sequence of changes of the temperatures and the layers, none is left '
    'over from an earlier value, and the same holds for the number of '
    'layers.',
    ['histories', 'inputs'], 'Every sequence of reads and writes of '
    'temperatures and layers.',
    'Two unit tests set one temperature once.',
    [I, ST, L], [('sat_vp, e_g', I), ('e_s_0, e_s_l, layer_count', ST),
                 ('sati, satw', L)],
    ['InputData', 'SnowState', 'energy terms of the output'])
add('P13', 'Heat conduction follows gradients and effective conductivities',
    'The heat flux from the soil and between the layers is the steady state '
    'flux through two layers in series: its size follows from temperature '
    'difference, depths and conductivities, which combine conduction '
    '(density of the snow, moist sand) and vapor diffusion. With one layer '
    'the surface layer exchanges heat with the soil; layers of the same '
    'temperature exchange none.',
    HIST, ALLW, 'Not tested by itself; ' + GOLD.lower() + '.',
    [S, L, F], [('g_soil', S), ('g_snow', S), ('efcon', L), ('ssxfr', L),
                ('kts', ST)])
add('P14', 'Net radiation and advected heat follow their balances',
    'Net radiation is the net solar radiation plus the emissivity times the '
    'difference of incoming thermal radiation and black body radiation at '
    'the snow surface temperature. Advected heat is the heat that rain and '
    'snow bring relative to the snow surface temperature, with the specific '
    'heats of water and ice at their temperatures, per second of the time '
    'step, and 0 without precipitation.',
    HIST, ALLW, 'Not tested by itself; rain and mixed precipitation are '
    'rare in the test period.',
    [S, F, SN], [('net_radiation', S), ('advec', S), ('cp_water, cp_ice', F),
                 ('heat_stor', SN)])
add('P15', 'Snow densifies by age, load and water as specified',
    'As time passes the density below 550 kg/m3 increases by temperature '
    'metamorphism and overburden, for the length of the time step, and rain '
    'and melt increase it towards 550 kg/m3; both keep the mass and change '
    'the depth. Above these limits neither changes it.',
    HIST, ALLW + ' Includes densities around 100, 550 and 600 kg/m3 and '
    'masses around 2000 kg/m2.',
    'No test of the densification; the limits are not reached in the test '
    'period.',
    [S], [('time_compact', S), ('h2o_compact', S), ('adj_snow', S)])
add('P16', 'Evaporation and condensation follow the vapor fluxes',
    'The reported mass change by evaporation and condensation is the '
    'turbulent mass flux plus the diffusion between the soil and the lowest '
    'layer over the time step, and no more is lost than there is snow. It '
    'changes the mass by that amount, uses '
    'liquid water first (never below none), and changes the depth by half of '
    'the volume of the ice it exchanges.',
    HIST, ALLW, 'Not tested by itself; the amounts are below the '
    'tolerances of the comparison.',
    [S, F, L], [('evap_cond', S), ('vapor_flux, diffusion_coef', F),
                ('spec_hum', L)])
add('P17', 'Liquid water is held up to the capacity, the rest runs off',
    'At the end of a time step the snowcover holds the liquid water that is '
    'left, up to its capacity (maximum volume fraction of the pores), and '
    'what exceeds it is surface water input and leaves the mass. Held water, '
    'capacity, saturation and volume fraction always agree, and without snow '
    'at the start all water is surface water input.',
    HIST, ALLW, GOLD + '; the amounts of water are not compared.',
    [S, SN], [('runoff', S), ('h2o_left', SN)])
add('P18', 'Input files are prepared without changing their meaning',
    'The records from the start to the end date, and the one after it, are '
    'simulated and no others, in the order of their time whatever the order '
    'of lines and columns in the file. Times are in the configured time '
    'zone, temperatures are converted from Celsius to Kelvin, and the '
    'interval of the data is that between consecutive records. Records '
    'that are not evenly spaced in time are rejected. Values of the '
    'precipitation are not needed where there is none.',
    ['inputs', 'configurations'], 'Every input file with the same records: '
    'order of lines and columns, additional lines and columns, date formats, '
    'start and end dates on or between records.',
    'Tests read one file that is in order and complete.',
    [P], [('read_input_data', P), ('map_input_data', P),
          ('parse_params', P)], ['output CSV'])
add('P19', 'Every configuration item has its documented effect',
    'Elevation, measurement heights (absolute or relative to the snow '
    'surface), time steps and thresholds, maximum liquid water, maximum '
    'active layer depth, initial snow properties and roughness act as '
    'documented for any valid value. Items left out act as their documented '
    'defaults.',
    ['configurations'], 'Every valid combination of values and of items '
    'left out.',
    'Tests use one configuration.',
    [P, INI, S], [('parse_params', P), ('parse_time_steps', P),
                  ('master configuration', INI)], ['output CSV'])
add('P20', 'The output file is a faithful copy of the simulation',
    'The output file has one line per output record in the order of time, '
    'with the time (in the configured time zone) and the 25 documented '
    'columns in their order. Each column has the values of its own quantity, '
    'temperatures in Celsius, in full precision or, with formatted output, '
    'rounded to the fixed number of digits of the column.',
    ['inputs', 'configurations'], 'Every simulation, both output modes, '
    'formatted and unformatted.',
    'Tests compare numbers with one stored file at coarse tolerances and '
    'only unformatted or formatted, not both.',
    [P], [('output_to_file', P)], ['output CSV'])
add('P21', 'Runs are deterministic, isolated and causal',
    'The same inputs give the same output, byte by byte, whatever ran '
    'before, next to it or with the same configuration object in the same '
    'process. Output records depend on no later input than the end of their '
    'interval, so running a prefix of the records gives a prefix of the '
    'output.',
    ['histories', 'inputs', 'configurations'], 'Every interleaving of model '
    'objects in a process, every prefix of the input.',
    'Each test runs one model once.',
    [S, P, ST, I], [('Snobal.__init__ (state per object)', S),
                    ('parse_params', P)])
add('P22', 'Agrees with the original model on 25 years of reference data',
    'On the 25 water years of reference data in the repository the model '
    'reproduces the output of the original Snobal: mass, depth, density, '
    'melt, surface water input, evaporation and energy terms of each hour '
    'agree within small tolerances except for isolated hours, and the peak '
    'mass and yearly totals agree.',
    ['histories'], 'All hours of all 25 years.',
    'The tests compare one year at most; differences that need special '
    'weather do not occur in it.',
    [S, L, ST, I], [('the whole point model', S)])
add('P23', 'Valid input completes, invalid input is rejected explicitly',
    'With physically possible input every run completes without a '
    'floating-point error, and all outputs are finite numbers. Input '
    'the model cannot handle (buried sensors, snow without density, no '
    'convergence, missing columns, values or file, time steps that do not '
    'divide, an invalid configuration) stops the run with an error, and no output '
    'file is made from it.',
    HIST, 'Every valid forcing history and configuration; every kind of '
    'invalid input.',
    'Tests run two valid cases, and no invalid input except for one.',
    [S, L, I, P], [('hle1', L), ('precipitation_inputs', I),
                   ('read_config_file', P), ('parse_time_steps', P)])
add('P24', 'Elementary functions match their formulas for any input',
    'The functions for saturation vapor pressure, specific humidity, '
    'pressure by elevation, specific and latent heats, mixing ratio, '
    'diffusion, gas density, virtual temperature, water capacity, melt, '
    'temperature from cold content and unit conversions follow their '
    'documented formulas over their whole domain. Where they accept '
    'arrays, each element gets the value of the scalar. The range check '
    'accepts exactly the values within the range, and raises for others.',
    ['inputs'], 'The whole domain of each function, scalars and arrays.',
    'Only the saturation vapor pressure is tested, at a few temperatures.',
    [F, SN, L], [('functions', F), ('functions', SN), ('sati, satw, '
                 'sati_np, satw_np, spec_hum', L)], ['the functions'])
add('P25', 'Snow that vanishes leaves its water, and can come again',
    'When a snowcover gets too little to form a layer, in any part of a time '
    'step, all its mass becomes surface water input of that step, and '
    'nothing of its depth, mass, density, cold content and liquid water is '
    'left. The next snow starts a new snowcover that shows nothing of the '
    'former one.',
    HIST, 'Every way a snowcover can vanish (melt, evaporation, compaction, '
    'rain) and every sequence of snowcovers.',
    'The test period has hardly any disappearance of snow.',
    [S], [('adj_layers', S), ('init_snow', S), ('runoff', S)])
add('P26', 'The initial snowcover is the configured one',
    'A run starts from the configured depth, density, temperatures (Celsius) '
    'and saturation: mass, layers, cold content and liquid water of the '
    'first time step follow from them. Initial snow too little for a layer '
    'starts as bare ground.',
    ['inputs', 'configurations'], 'Every initial snowcover: none, one or '
    'two layers, dry, wet, at the limits.',
    'Tests start from bare ground or one snowcover.',
    [S, P], [('init_snow', S), ('create_snow_state', S),
             ('parse_params', P)])
add('P27', 'The spatial model gives each grid cell the point result',
    'Each cell of a grid gets the result that the point model gives for its '
    'inputs, and cells do not influence each other.',
    ['inputs'], 'Every grid and mask.', 'The spatial model has no test that '
    'runs it.',
    ['pysnobal/ipysnobal.py', 'pysnobal/spatial'],
    [('iSnobal', 'pysnobal/spatial')], ['iSnobal'])
add('P28', 'A run writes its output file, whole, and nothing else',
    'A completed run replaces the output file as a whole, whatever was in '
    'it, and changes no other file: the input file and the configuration '
    'stay as they are. A run that fails before it has all its results leaves '
    'an existing output file as it was and makes no new one.',
    ['fault_sequences', 'inputs'], 'Failures at every point of a run '
    'up to the writing: configuration, reading, any time step.',
    'Tests run only to completion, into fresh files.',
    [P], [('run', P), ('output_to_file', P), ('read_input_data', P)],
    ['the files'])
add('P29', 'The grid snow state does in each cell what the point state does',
    'The snow state class of the spatial model computes dry snow density, '
    'thermal conductivity, layer masses, cold content, temperatures from '
    'cold content, and the means and sums since the last output for arrays '
    'of any shape (numpy or xarray), each element as the point model does '
    'for that cell, and no cell influences another. A single cell adjusts '
    'its layer temperatures as the point model does.',
    ['inputs'], 'Every grid and every state of its cells.',
    'No test uses this class.',
    ['pysnobal/spatial/snow_state.py', 'pysnobal/point/snow_state.py'],
    [('new_tsno, dry_snow_density, kts, time_average, adjust_layer_temps',
      'pysnobal/spatial/snow_state.py')], ['SpatialSnowState'])

with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), '..',
                       'properties.jsonl'), 'w') as fh:
    for p in props:
        fh.write(json.dumps(p) + '\n')
print(len(props))
