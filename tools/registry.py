"""The properties, one record each; tools/mk.py writes properties.jsonl and MANIFEST.json from it."""
R = []


def P(id, title, statement, over, text, why, files, mech, observe, state=(), note=None, technique=None):
    R.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files,
                  mech=mech, observe=observe, state=state, note=note, technique=technique))


RIV, MOR, COAST, CORE, OUT, LOAD, SYNTH, GEOM = ('hapuamod/%s.py' % m for m in
    ('riv', 'mor', 'coast', 'core', 'out', 'loadmod', 'synth', 'geom'))

P('H01', 'River, lagoon and outlet form one correctly laid out channel',
  'Whatever the position and direction of the outlet and whatever the lagoon widths, the hydraulic channel runs from the river '
  'through the lagoon transects between river and outlet (nearest the river first), through the outlet transects between the two '
  'outlet ends (lagoon end first) to the outlet end and a sea node, or stops in the lagoon when closed. Every cross-section has the '
  'bed level, width and spacing of the transect it stands for, the reach below the last outlet transect also covers the distance to '
  'the outlet end, and the sea node lies no higher than the maximum outlet level. Putting the channel together leaves the model state as it was.',
  ['inputs', 'histories'], 'all profile-consistent model states: any number of transects, lagoon and outlet widths, outlet position, direction and status',
  'The tests run the hydraulics on ready-made straight channels; none builds a channel from transects.',
  [RIV], [('assembleChannel', RIV)], ['riv.assembleChannel'])
P('H02', 'The outlet closes exactly when it is too narrow, and stays closed',
  'An open outlet becomes closed at a step exactly when a transect it crosses or its seaward end is no wider than the minimum outlet '
  'width (transects without a channel count as zero width), or the lagoon between river and outlet is narrower than that width '
  'somewhere. A closed outlet stays closed until a breach opens it. While closed or pinched off the channel ends at the last connected '
  'lagoon transect, which is before the first one that is too narrow.',
  ['inputs', 'histories'], 'all model states and all sequences of widening, narrowing and closing',
  'No test closes an outlet; closure depends on combinations of position, direction and widths.',
  [RIV], [('assembleChannel closure tests', RIV)], ['riv.assembleChannel'])
P('H03', 'Every part of the lagoon is counted once as channel or storage',
  'The plan area of lagoon not in the channel is attached as storage: the lagoon beyond the river at the first lagoon cross-section, '
  'and the lagoon beyond the outlet or beyond a pinch at the last one. Channel plus storage area equals total lagoon area in every '
  'state, with nothing counted twice or left out, and the shore length used for barrier seepage follows the same split.',
  ['inputs'], 'all lagoon shapes, both outlet sides, open, closed and pinched lagoons',
  'No test has off-line storage; the split has separate code for six geometries.',
  [RIV], [('assembleChannel StartArea/EndArea', RIV)], ['riv.assembleChannel'])
P('H04', 'Water levels and velocities survive re-assembly of the channel',
  'Depths and velocities stored from the channel are those the next channel is started from wherever the same transect is still part of '
  'it; levels of lagoon cut off from the channel follow the nearest connected transect. Missing depths are interpolated along the '
  'channel and missing velocities on discharge, so no cross-section starts without a value, and storing then re-assembling an unchanged '
  'geometry changes nothing.',
  ['inputs', 'histories'], 'all channels and all sequences of outlet movement, closing and opening',
  'The tests never move an outlet, so stored states are never re-used on another geometry.',
  [RIV], [('storeHydraulics, storeBedload, assembleChannel interpolation', RIV)], ['riv.assembleChannel', 'riv.storeHydraulics', 'riv.storeBedload'])
P('H05', 'Steady flow profiles satisfy the energy equation',
  'For any channel, discharge and downstream level, the steady profile carries the given discharge through every cross-section, meets the '
  'downstream level (or critical depth if that is deeper), and is nowhere shallower than critical depth. Every cross-section balances energy and '
  'friction with the section downstream to within the error tolerance, or is at critical depth.',
  ['inputs'], 'all channels of any number of sections, beds, widths and spacings, all discharges, levels, roughnesses and tolerances',
  'One test runs one profile and only checks that it comes back.',
  [RIV], [('solveSteady', RIV)], ['riv.solveSteady'])
P('H06', 'Every unsteady flow step solves the flow equations',
  'Each hydraulic step gives depths and velocities that satisfy conservation of mass and of momentum over every reach between the old and the new '
  'state, with the given inflow at the top and the sea level (or no flow, when closed) at the bottom. If the solution does not converge in the '
  'iterations allowed, the step ends with the steady profile for the same inflow and sea level. Geometry and boundary series are left as they were.',
  ['inputs', 'histories'], 'all channels with offline storage and seepage, open and closed, all sequences of inflows and sea levels and all step lengths',
  'The tests run one open channel and check nothing but that the result is returned.',
  [RIV], [('solveFullPreissmann', RIV)], ['riv.solveFullPreissmann'])
P('H07', 'No water is lost or gained in the channel and lagoon',
  'Over every hydraulic step, the change in the volume of water in river, lagoon, offline storage and outlet equals the river inflow less the '
  'outflow to the sea less the seepage through the barrier. With a closed outlet nothing leaves but by seepage, which is proportional to barrier '
  'length, permeability and the level of the lagoon above the sea.',
  ['inputs', 'histories'], 'all channels, open and closed, with any storage, seepage and forcing, over sequences of steps',
  'No test has storage, seepage or a closed outlet, and none adds up volumes.',
  [RIV], [('solveFullPreissmann continuity equation', RIV)], ['riv.solveFullPreissmann'])
P('H08', 'Bedload follows the transport formula and stays where it belongs',
  'The bedload between two cross-sections is the weighted mean of the Meyer-Peter and Mueller transport at the two, is zero below the threshold '
  'of motion, and has the direction of the flow. Every transport rate is stored with the lagoon transect, outlet transect or outlet end it was '
  'computed for; transects not in the channel have none.',
  ['inputs'], 'all widths, depths, velocities of either sign, sediment parameters, weightings and channel layouts',
  'No test computes bedload below the threshold, in reverse flow, or for a channel with an outlet.',
  [RIV], [('calcBedload', RIV), ('storeBedload', RIV)], ['riv.calcBedload', 'riv.storeBedload'])
P('C01', 'Longshore transport follows the wave energy and the shoreline angle',
  'For every shoreline and wave condition the sediment moved along the shore between two transects is that of the transport formula for the local '
  'wave power and the angle between waves and shore, directed with the waves, and zero for waves that cannot '
  'reach that stretch of shore, which come in at more than a right angle to its normal. With waves from straight ahead of a straight shore nothing moves.',
  ['inputs'], 'all shorelines of any number of transects, all wave heights, periods, directions and powers',
  'One test checks one shoreline with one wave direction.',
  [COAST], [('longShoreTransport', COAST)], ['coast.longShoreTransport'])
P('C02', 'Overtopping moves sediment over every barrier the run-up reaches',
  'The run-up of every wave condition and the volume carried over each barrier are those of the published run-up and overtopping relations, never '
  'negative, zero where run-up stays below the crest, and growing with the run-up. Sediment goes over the back of a barrier narrower than its height '
  'calls for and onto the top of one that is wide enough, and never goes behind a barrier that has no lagoon or channel behind it.',
  ['inputs'], 'all wave heights, periods and sea levels, all barrier heights and widths, with and without outlet channels and lagoon',
  'No test computes run-up or overtopping.',
  [COAST], [('runup', COAST), ('overtopping', COAST)], ['coast.runup', 'coast.overtopping'])
P('T02', 'The morphological timestep adapts within its bounds to the fastest change',
  'The morphological timestep never leaves the range given in the configuration; it is shortened until no shoreline, bank or bed moves further in a '
  'step than allowed, or the shortest step is reached, and doubled only when there is room for it. All the morphology of a step is moved over the same, '
  'final timestep.',
  ['inputs', 'histories'], 'all rates of morphological change, timestep bounds and limits, and all sequences of steps',
  'No test runs morphology.',
  [MOR], [('updateMorphology adaptive timestep', MOR)], ['mor.updateMorphology'])
P('M01', 'Every sediment flux ends up in the landform it is defined to feed',
  'The changes of shoreline, barrier crest, lagoon and channel banks and beds, outlet end and river bed in a step are exactly those given by the longshore, '
  'overtopping and bedload fluxes, and over all landforms they balance what the fluxes bring in and carry out. Longshore sediment that reaches the '
  'outlet from either side is put on the bank of the outlet end on that side; bedload leaving the outlet feeds the shore in front of it.',
  ['inputs'], 'all model states and all fields of longshore transport, overtopping and bedload, outlets to either side, open and closed',
  'No test runs morphology; the sediment budget is spread over many terms with separate code for each outlet direction.',
  [MOR], [('updateMorphology rates of change', MOR)], ['mor.updateMorphology'])
P('M02', 'Left and right of the river are alike',
  'Turned left to right, every model state and forcing gives the same channel, transport and morphology turned left to right.',
  ['inputs'], 'all states and forcings without a tie between left and right',
  'The code has separate branches for each side and direction; no test compares them.',
  [MOR, RIV, COAST], [('direction branches', MOR), ('assembleChannel direction branches', RIV)],
  ['mor.updateMorphology', 'riv.assembleChannel', 'coast.longShoreTransport', 'coast.overtopping'])
P('M03', 'The river mouth stays well formed over any sequence of steps',
  'After every step of any history each transect keeps its parts in order from sea to land (shoreline, outlet channel where there is one, lagoon), '
  'and has all of an outlet channel or none of it. An open outlet crosses transects that all have a channel and its end lies inside '
  'the model; the lagoon at the river mouth is never narrower than the minimum outlet width; and the model goes on without failing.',
  ['histories', 'inputs'], 'all sequences of forcing, from calm to storm and flood, on all initial geometries',
  'No test runs morphology for even one step.',
  [MOR], [('updateMorphology', MOR)], ['mor.updateMorphology', 'riv.assembleChannel'])
P('M04', 'Where landforms meet, the geometry is resolved as defined',
  'Where in a step a channel is filled, a shoreline erodes into a channel or to the cliff, a channel bank erodes into the lagoon or the lagoon is pinched, '
  'channel, barrier and lagoon are merged, removed or truncated at that transect as the model defines, conserving the shape of all other transects. '
  'An outlet cut off by the sea or the lagoon ends or starts at the transect where it was cut, and the result holds no undefined or left-over values.',
  ['inputs'], 'all states with any combination of landforms about to meet at any transects, outlets to either side, several meetings in one step',
  'No test brings landforms together; the outcome depends on combinations that need a certain direction and order.',
  [MOR], [('updateMorphology conflict resolution', MOR)], ['mor.updateMorphology'])
P('M05', 'The outlet end migrates with the sediment and takes the channel with it',
  'The outlet end moves along the shore in proportion to the sediment put on one bank and eroded from the other. Passing a transect it leaves behind a channel there '
  'with the width and bed of the end, and drawn back past one it no longer crosses it; it never leaves the transects inside the model boundary, '
  'and when open stays at least partly across the barrier.',
  ['inputs', 'histories'], 'all positions and directions of the outlet, all fluxes at its end and step lengths',
  'No test moves an outlet.',
  [MOR], [('updateMorphology outlet end movement', MOR)], ['mor.updateMorphology'])
P('M06', 'A barrier breaches where it is overtopped from inside or eroded away',
  'The barrier breaches exactly when lagoon or outlet water stands higher than the barrier top at a place the river can flow out, or nothing of the barrier is left there, and the place '
  'is the one the model defines among all that qualify. The breach makes a new open outlet of one transect with the defined width and bed, '
  'leaving other barriers intact, or re-opens an outlet that still connects to it.',
  ['inputs'], 'all levels of lagoon, outlet and sea, barriers and outlet positions, open and closed, with one or several candidate places',
  'No test breaches a barrier.',
  [MOR], [('updateMorphology breach', MOR)], ['mor.updateMorphology'])
P('T01', 'A simulation runs from start to end in bounded steps',
  'A simulation goes from its start time exactly to its end time in steps that each lie within the configured bounds (the last is cut to fit), with the hydraulics of '
  'every step covering it in hydraulic steps and never beyond the end. Time never stands still or goes back, and nothing but an error raised by a '
  'stage ends the simulation early.',
  ['histories', 'inputs'], 'all combinations of start, end, hydraulic and morphological step bounds, all sequences of step lengths the morphology asks for, with closures, breaches and failing hydraulics',
  'The tests never run the main loop.',
  [CORE], [('main loop', CORE)], ['core.main'])
P('T03', 'Output is written at the intervals asked for',
  'Both output files start with a record of the initial state, and from then on get a record at the end of the first step that reaches each output '
  'time, with strictly increasing times, never twice for one step and none after the end. Pictures follow their own interval, and each kind of output is '
  'independent of the intervals of the others.',
  ['histories', 'inputs'], 'all output, time series and plot intervals, also zero and longer than the simulation, and all step length sequences',
  'The tests never run the main loop.',
  [CORE], [('main loop output conditions', CORE)], ['core.main', 'out.writeCurrent', 'out.writeTsOut'])
P('T04', 'Every stage of a step works on the current state and forcing',
  'In every step the river, coast and morphology stages run in order, each from the state the previous ones left, with flow and sea level interpolated '
  'at its hydraulic times and waves at its start; what is written down is the state and forcing of that step, outlet status included. '
  'When the unsteady hydraulics fail the step goes on from the steady profile, and in complete simulations the stages meet their own specifications.',
  ['histories', 'inputs'], 'all simulations: any forcing series, sequences of step lengths, closures, breaches, failing hydraulics and hot starts',
  'The tests never run the main loop; mixed up or stale arguments still give plausible results.',
  [CORE], [('main loop', CORE), ('interpolate_at', CORE)], ['core.main'])
P('T05', 'Results do not depend on output options, later forcing or the run before',
  'Two simulations with the same inputs go through the same states exactly, whatever output files, intervals, logging and plots are asked for and whatever was simulated before '
  'in the same process. A longer simulation and one with different forcing later on have the same states up to the end or the change.',
  ['histories', 'inputs'], 'all pairs of simulations that differ only in output options, end time or later forcing',
  'No test runs two simulations, or one.',
  [CORE, RIV, MOR, COAST], [('main loop', CORE)], ['core.main'],
  note='Simulations in which the hydraulic solver meets a singular matrix (and perturbs it at random) are outside the domain.')
P('O01', 'Output records hold the state of the model, in the units they say',
  'Every record of the output and time series files has the time, forcing, geometry, hydraulics, transport and outlet status it was written with, in '
  'single precision and in the units given, and the header identifies the model, its position and orientation and its physical parameters. '
  'Reading a record back gives the same state.',
  ['inputs', 'histories'], 'all model states (with missing values, any outlet direction, open or closed) and any number of records',
  'No test writes or reads an output file; some thirty fields are copied one by one on both sides.',
  [OUT], [('newOutFile, writeCurrent, newTsOutFile, writeTsOut, readTimestep', OUT)], ['out.writeCurrent', 'out.readTimestep', 'the files'])
P('O02', 'Results on file are never lost without consent',
  'A file that exists is replaced only if overwriting was asked for or the question is answered with yes; otherwise the simulation stops and the file is as before. '
  'Records once written are never changed by later ones, nor lost when the simulation fails or is killed, and no file but the one addressed is touched.',
  ['histories', 'crash points', 'inputs'], 'all orders of creating, writing and reading files, all answers, both files, the command line, and ends at any step',
  'No test writes an output file, answers the question, or ends a simulation halfway.',
  [OUT, CORE, 'hapuamod/__main__.py'], [('overwrite question', OUT), ('append', OUT)], ['out.newOutFile', 'out.newTsOutFile', 'core.main', 'python -m hapuamod'])
P('O03', 'A hot start goes on from the record nearest the time asked for',
  'A model hot started from an output file has exactly the geometry, hydraulics, outlet status, position and orientation of the one record nearest the time asked for, and starts at that '
  'record\'s time if the simulation is to be continued and at the configured time otherwise. Continued that way, the next step starts from the same state and '
  'forcing as it did in the uninterrupted simulation, to storage precision.',
  ['inputs', 'histories'], 'all output files and times asked for (between, midway, before the first and after the last record), open, closed and just breached outlets',
  'No test hot starts a model.',
  [LOAD, OUT, CORE], [('loadModel hot start', LOAD), ('closestTimeIx, readTimestep', OUT)], ['loadmod.loadModel', 'core.main'])
P('L01', 'Only valid configurations are accepted, with every value as written',
  'A configuration in which an entry is missing, of the wrong type or out of its range is refused with a message that names the entry and its section; any other is accepted. '
  'Every value in it reaches the model unchanged in the unit documented, every optional one left out gets its documented default, and input files are found beside the configuration '
  'wherever the model is loaded from.',
  ['inputs'], 'all entries with all kinds of values, singly and in combination, all working directories and file names',
  'One test loads one valid configuration.',
  [LOAD, 'hapuamod/configspec.cnf'], [('loadModel', LOAD), ('schema', 'hapuamod/configspec.cnf')], ['loadmod.loadModel'])
P('L02', 'Forcing series cover the simulation, unchanged',
  'A model is loaded only if flow, wave and sea level series reach from before its start (also that of a continued simulation) to its end, and refused with the name of the '
  'series otherwise. Interpolated anywhere in the simulation, the loaded series have the values of the file, and generated ones cover the whole simulation.',
  ['inputs'], 'all series with any sample times (at, around and away from start and end), all simulation periods and steps, hot starts and generated series',
  'The tests load series that are longer than needed and do not look at what is left of them.',
  [LOAD, SYNTH], [('series trimming', LOAD)], ['loadmod.loadModel'])
P('L03', 'A model without shapefiles starts as the straight beach described',
  'Without shapefiles the model starts with transects at whole multiples of the spacing that cover the lengths given on both sides, one of them in line with the river. '
  'Beach, barrier, lagoon, an open outlet straight out at the river, river bed and still water are as configured.',
  ['inputs'], 'all lengths, spacings, widths, levels and slopes, whether or not they fit together evenly',
  'No test loads a straight beach.',
  [LOAD], [('straight shoreline', LOAD)], ['loadmod.loadModel'])
P('L04', 'Shapefiles become the same model wherever and however they lie',
  'From shapefiles the model gets a straight baseline fitted to the shoreline, an origin on it abreast of the river and the seaward direction away from the river; transects get '
  'the shoreline, lagoon, cliff and outlet where they cross them, with outlet ends, bed and crest levels as defined. The result does not depend on the direction '
  'lines are drawn in, and moving or turning a straight coast moves and turns the model; shapes that do not fit the model are refused.',
  ['inputs'], 'all shorelines, lagoons, cliffs and outlets (left, right, straight out between transects) in all positions and orientations, drawn either way, and faulty shapefiles',
  'One test loads one set of shapefiles and checks nothing about the result.',
  [LOAD, GEOM], [('spatial inputs', LOAD), ('real2mod, intersectPolyline', GEOM)], ['loadmod.loadModel'])
P('L05', 'Derived parameters and wave directions are as defined',
  'The longshore transport coefficient, the breaking coefficient and the target relation of crest height to barrier width follow from the configured parameters. '
  'Wave directions are turned from bearings to angles from the seaward direction of the model, within half a circle either way.',
  ['inputs'], 'all parameter values, all bearings (also beyond a full circle) and all model orientations',
  'No test looks at derived values.',
  [LOAD], [('derived parameters, wave direction', LOAD)], ['loadmod.loadModel'])
P('L06', 'A generated tide is a sine of given mean and range',
  'The generated sea level starts at the mean level, rising, and follows a sine with the range given and a period of 12 h 25.2 min, at the interval given, '
  'from the start to the end or beyond.',
  ['inputs'], 'all periods, intervals, mean levels and ranges',
  'No test generates a tide.',
  [SYNTH], [('harmonicTide', SYNTH)], ['synth.harmonicTide'])
P('L07', 'A generated flow hydrograph is shot noise, repeatable from its seed',
  'The generated flow starts at its mean value, recedes as two linear stores between events, and rises by the size of each event over the rising limb before it; '
  'it is finite, never negative, regular, covers the period and scales with the event size. The same seed gives the same series, another seed another one, and '
  'parameters without meaning are refused.',
  ['inputs'], 'all seeds, periods, intervals, event rates and sizes, recession rates, proportions and rising limbs',
  'No test generates a hydrograph.',
  [SYNTH], [('shotNoise', SYNTH)], ['synth.shotNoise'])
P('L08', 'Model and map coordinates convert into each other',
  'Converting to model coordinates and back gives the same point for every origin and orientation, with distances and handedness kept and the seaward direction along the given bearing. '
  'The crossings of a line with a transect are exactly those points where the line passes from one side to the other, in the order of the line. '
  'A line trimmed between two trim lines begins and ends on them, where its own first and last segment (extended straight on where the line ends short) meets them; all its nodes between are kept as they are.',
  ['inputs'], 'all points, origins and orientations (also with the large coordinates of map grids), all lines, with vertices on the transect; lines that begin and end before, on and beyond the trim lines',
  'No test converts coordinates.',
  [GEOM], [('real2mod, mod2real, intersectPolyline, trimLine', GEOM)], ['geom.real2mod', 'geom.mod2real', 'geom.intersectPolyline', 'geom.trimLine'])
VIS, ANI, SWAN = 'hapuamod/visualise.py', 'hapuamod/animate.py', 'preprocessing/WaveDataFromSwanOutput.py'
P('V01', 'Pictures show the state they are given',
  'Every figure shows the values it was given, when it is new and after each update. The plan view shows the shore, the lagoon backshore, cliff, river, channel and the two banks of the outlet, '
  'broken where the outlet is and unbroken when it is closed, for outlets to the right, to the left and straight out, with waves, transports, crest levels and time where asked for. '
  'Long sections show bed, water, energy, width, flow, velocity, Froude number and bedload along the distance; transects show ground and water at the transect nearest to the place asked for; '
  'boundary condition plots and maps likewise. Drawing changes nothing in the state.',
  ['inputs', 'sequences of updates'], 'all states of the model (open to either side or straight out, closed, wide, narrow), and every figure made from one state and updated with another',
  'No test draws anything.',
  [VIS], [('modelView, updateModelView, longSection, updateLongSection, newTransectFig, updateTransectFig, bdyCndFig, updateBdyCndFig, mapView', VIS)],
  ['visualise.modelView', 'visualise.updateModelView', 'visualise.longSection', 'visualise.newTransectFig', 'visualise.bdyCndFig', 'visualise.mapView'])
P('V02', 'An animation shows the records asked for, in order',
  'An animation of a results file consists of one picture for each record from the first to before the last asked for (all, when not asked for; never beyond the end of the file), at the interval asked for, '
  'in order; each is the plan view, long section or transect of that record, with its time, and the film goes to the file asked for with the frame rate asked for. The results are not changed.',
  ['inputs'], 'all ranges and intervals of records, all three kinds of view, from Python and from the command line, on results with open and closed outlets',
  'No test makes an animation.',
  [ANI, VIS], [('main, animateMap, animateTransect, animateLongSec, command line', ANI)], ['animate.main'])
P('L09', 'SWAN output becomes the same waves as model input',
  'The conversion of SWAN output gives one row of wave conditions for each row of the table, with its time to the minute, its period and wavelength, the wave power and the bearing the energy comes from given by the '
  'transport of energy, and the wave height in deep water that belongs to the computed height by refraction (Snell) and conservation of energy between rays, zero for waves directed offshore. '
  'The model loads the result as it is.',
  ['inputs'], 'all wave heights, periods, directions, depths and energy transports, from shallow to deep water, at any interval of whole minutes',
  'No test runs the conversion.',
  [SWAN], [('the script', SWAN)], ['the script run on a table in place of the file it names; loadmod.loadModel on the result'])
MAIN = 'hapuamod/__main__.py'
P('R01', 'A command line run leaves a complete log, and nothing else but its results',
  'python -m hapuamod runs the configuration named and ends with an error exactly when the simulation fails. Everything it tells goes, in order, to the console and to the end of the log file named after the configuration '
  '(its file name without extension, and _log.txt) in the folder it is started from: debugging messages only when asked for verbose output, information unless asked for quiet, warnings always (quiet goes before verbose). '
  'Earlier contents of logs are kept. Progress is told (Time = ...) whenever the interval for it has passed since it was last due. With -o existing results are replaced without a question. A wrong command line changes no file.',
  ['histories', 'configurations'], 'all combinations and orders of options, names of configurations (in other folders, with several or no extensions), sequences of simulations of the same or other configurations in one folder, '
  'simulations that warn and that fail, and intervals of logging',
  'No test starts the program.',
  [MAIN, CORE], [('command line, logging handlers', MAIN), ('main: LogInt, progress', CORE)], ['python -m hapuamod', 'core.main', 'the log files'])
P('R02', 'What departs from the equations is warned of, and what happens is told',
  'A morphological step gives a warning for each of: change cut down to the limit, an outlet end held at the edge of the model, barrier or cliff moved to make room for the outlet of a breach; a steady profile when a section is put at critical depth; '
  'unsteady flow when it falls back on the steady profile, and when depths or velocities move by more than the tolerance set for warnings in an iteration that is not the last; a simulation when its unsteady hydraulics fail. '
  'Where none of these happens there is no warning. Every event that changes the layout - closure, breach, channel lengthened, cut short, held clear of sea or lagoon, taken in by lagoon or sea, levelled; '
  'barrier eroded, cliff met, river mouth held open - is told as information, and a step in which nothing happens tells nothing.',
  ['inputs', 'histories'], 'all states, forcings and limits of morphological steps, steady and unsteady flow and channel assembly, and all schedules of failing hydraulics in simulations',
  'No test looks at what is told.',
  [MOR, RIV, CORE], [('updateMorphology', MOR), ('solveSteady, solveFullPreissmann, assembleChannel', RIV), ('main', CORE)],
  ['log records given during mor.updateMorphology, riv.solveSteady, riv.solveFullPreissmann, riv.assembleChannel, core.main'])
