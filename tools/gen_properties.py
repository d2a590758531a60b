#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as code so that the text is easy to edit)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, observe=None, state=None):
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=qtext), why_tests_cant=why,
                  anchors=dict(files=files,
                               mechanism=[dict(name=n, where=w) for n, w in mech],
                               state=[dict(name=n, meaning=m, where=w) for n, m, w in (state or [])],
                               observe_at=observe or [], hook_needed=None)))

PROC = 'dedop/proc/sar/processor.py'
ALG = 'dedop/proc/sar/algorithms/'

p('C01', 'Every burst is calibrated exactly once before it is used',
  'Every input burst that takes part in processing has each enabled power/phase and transfer-function calibration applied to its waveform exactly once, before the burst is located, focused or stacked. This holds whatever the pattern of gaps, invalid records and end of input; no burst is ever calibrated twice or used uncalibrated. A calibration switched off in the configuration leaves the waveform unchanged.',
  ['inputs', 'histories', 'configurations'], 'all sequences of bursts (any placement of time gaps, skipped records, end of input) and all settings of the two calibration switches',
  'The calibration tests call each calibration on one burst; the main loop that decides how often and when it is called runs only in end-to-end tests that are skipped or never contain a gap.',
  [PROC, 'dedop/proc/sar/cal/cal1_algorithm.py', 'dedop/proc/sar/cal/cal2_algorithm.py'],
  [('main packet loop', PROC + ':L1BProcessor._process'), ('CAL1/CAL2', 'dedop/proc/sar/cal')],
  ['L1B waveform'])
p('C02', 'The result for one input file does not depend on earlier runs',
  'A processor object may be used for any number of input files one after the other; the product of each run depends only on that input file and the configuration. Nothing left over from an earlier run - finished, failed or cancelled - influences counters, buffers, positions, times or written values of a later run.',
  ['histories', 'inputs', 'fault_sequences'], 'all sequences of runs on the same processor, including runs that raised or were cancelled half way',
  'Tests create a fresh processor per run; the quantifier is over histories of runs, of which they sample only length one.',
  [PROC, ALG + 'surface_locations.py', ALG + 'beam_angles.py'],
  [('per-run reset', PROC + ':L1BProcessor._process')],
  ['bytes of the second product'], [('_surfaces/_packets', 'pending surfaces and bursts', PROC)])
p('C03', 'Results of one surface or burst never leak into another',
  'Each processing step computes every result it hands on for a surface (or burst) from that surface (or burst), the configuration and the bursts in its stack only. A value computed for a previous surface or burst is never handed on as the result of the current one, and processing a surface does not modify results already computed for another.',
  ['histories', 'inputs'], 'all sequences of surfaces/bursts passed to the same processing step, including empty or fully masked stacks',
  'Unit tests call each step once on one surface with freshly built objects; leaks need a second, differently shaped surface.',
  [ALG + f for f in ('beam_angles.py', 'azimuth_processing.py', 'stack_gathering.py', 'geometry_corrections.py', 'range_compression.py', 'stack_masking.py', 'multilooking.py', 'sigma_zero_scaling.py')] + ['dedop/model/surface_data.py', 'dedop/model/l1a_processing_data.py'],
  [('fresh output arrays per call', ALG + '*:__call__')], ['product variables of consecutive records'])
p('C04', 'Input and product files are always released; good runs finalise them',
  'On every exit from a processing run - success, cancellation or any error - the input file and every product file that was opened are closed. When the run ends without error each product has received its global attributes before being closed; with L1B-S output switched off no L1B-S file is created, written or reported.',
  ['fault_sequences', 'inputs', 'schedules'], 'all exits of a run: normal end, cancellation at any point, an exception raised by any read, algorithm or write',
  'Tests only run the success path; the failing-step x open-file combinations are unbounded.',
  [PROC, 'dedop/data/output/netcdf_writer.py', 'dedop/data/input/input_dataset.py', 'dedop/data/input/netcdf_reader.py'],
  [('run epilogue', PROC + ':L1BProcessor.process'), ('close', 'dedop/data/output/netcdf_writer.py')], ['open file handles', 'product global attributes'])
p('C05', 'Each retained surface yields exactly one record per product, in order',
  'In a run that ends without error, every surface whose stack has at least half the configured number of looks is processed by all steps in the fixed order and written exactly once to the L1B product and, if enabled, once to the L1B-S product, in along-track order and at the same record index; surfaces with fewer looks are written to neither. All values of one record go to one record index, and the index advances by exactly one per record.',
  ['inputs', 'histories', 'configurations'], 'all input sequences (gaps, short stacks, end of input) and both L1B-S settings',
  'The end-to-end test needs reference data that is not in the repository; the loop with gaps and drops is never run by the stable tests.',
  [PROC, 'dedop/data/output/netcdf_writer.py', 'dedop/data/output/l1b_writer.py', 'dedop/data/output/l1bs_writer.py'],
  [('surface loop', PROC + ':L1BProcessor._process'), ('record index', 'dedop/data/output/netcdf_writer.py:NetCDFWriter.write_record')], ['record dimension of both products'])
p('C06', 'Products are self-consistent: what is written matches its declaration',
  'Every variable written in a record, and every dimension a variable uses, is declared in the same product; the number of declared dimensions fits the shape of the value written, and fill values are representable in the declared data type. Each declared variable is created in the file under its declared name with its declared type, dimensions, scale/offset and units.',
  ['configurations', 'inputs'], 'all product kinds (standard, extended, stack) and all variables of each',
  'Tests write a single record and compare a handful of variables; they cannot enumerate every variable and attribute of three product kinds.',
  ['dedop/data/output/l1b_writer.py', 'dedop/data/output/l1bs_writer.py', 'dedop/data/output/netcdf_writer.py'],
  [('variable declarations', 'dedop/data/output/*_writer.py'), ('creation', 'dedop/data/output/netcdf_writer.py:create_variable')], ['netCDF header'])
p('C07', 'Product variables carry the quantity and unit they are declared to carry',
  'For every record, each variable of the L1B and L1B-S products holds the quantity its name and description announce, taken from the surface being written (or the burst closest to nadir of that surface), converted to the declared unit (for instance degrees for angles announced in degrees). UTC day and second are derived consistently from the time of the surface.',
  ['inputs', 'configurations'], 'all surfaces and all variables of the three product kinds',
  'One hand-made surface with mostly zero or equal fields cannot tell swapped fields or missing conversions apart.',
  ['dedop/data/output/l1b_writer.py', 'dedop/data/output/l1bs_writer.py', 'dedop/model/surface_data.py'],
  [('record assembly', 'dedop/data/output/*_writer.py:write_record')], ['values of product variables'])
p('C08', 'L1A variables are decoded into the right burst quantities and units',
  'Each quantity of a burst is taken from the L1A variable that carries it, at the record being read, with the documented conversion: angles from degrees to radians, gain from dB, tracker range plus centre-of-gravity correction to window delay, I/Q samples to a complex waveform, the configured transfer-function table. Derived positions and angles of the burst follow from these.',
  ['inputs', 'configurations'], 'all L1A records and all burst quantities',
  'The reader test checks one record of one file; many fields are zero there or not compared.',
  ['dedop/data/input/l1a/l1a_dataset.py', 'dedop/model/l1a_processing_data.py', 'dedop/data/input/l1a/enums.py'],
  [('record decoding', 'dedop/data/input/l1a/l1a_dataset.py:L1ADataset.__getitem__')], ['burst fields'])
p('C09', 'L1A records are delivered completely, once, in order, within the ROI',
  'Reading an input file delivers every record inside the configured region of interest exactly once, in file order, from the first to the last inclusive, and skips every record outside the region or without a valid position. The block-wise reader returns for each variable and record index the value stored in the file at that index. A skipped record never ends the run early.',
  ['inputs', 'configurations', 'histories'], 'all file lengths, block sizes, access orders and ROI settings',
  'Tests read a few consecutive records from one file without ROI; block edges, last records and ROI edges are not sampled.',
  ['dedop/data/input/l1a/l1a_dataset.py', 'dedop/data/input/netcdf_reader.py', 'dedop/data/input/input_dataset.py', PROC],
  [('iteration', 'dedop/data/input/l1a/l1a_dataset.py:__next__'), ('block cache', 'dedop/data/input/netcdf_reader.py:get_value')], ['sequence of bursts'])
p('C10', 'Step results are handed on unaltered under their own names',
  'A value stored in a field of a surface or burst is the value read back from that field, fields do not share storage, and assigning to an unknown field name is rejected. Every result of a processing step is stored in the like-named field of the surface or burst it was computed for, and each step only uses fields that the input or an earlier step has set.',
  ['inputs', 'histories'], 'all fields and all sequences of reads and writes',
  'There are more than a hundred hand-written accessors; tests touch a few of them.',
  ['dedop/model/surface_data.py', 'dedop/model/l1a_processing_data.py', PROC],
  [('field accessors', 'dedop/model/*.py'), ('hand-over', PROC)], ['field values'])
p('C11', 'Configuration values reach the processing steps unaltered',
  'Each configuration, characterisation and constant parameter delivers the value stored under its documented name in its own file, converted to its declared type and unit, to every step that uses it; derived parameters follow from their definition. Two configurations in use at the same time never mix, and every parameter of the shipped default files is known to the program.',
  ['configurations', 'histories'], 'all parameter files and all interleavings of configuration objects',
  'Tests look up a few parameters in one file; name mix-ups in the rest go unnoticed as the steps are tested with mocked configurations.',
  ['dedop/conf/configuration.py', 'dedop/conf/characterization.py', 'dedop/conf/constants.py', 'dedop/conf/auxiliary_parameter.py', 'dedop/conf/auxiliary_file_reader.py', 'dedop/proc/sar/base_algorithm.py', 'dedop/util/parameter.py', 'dedop/ui/data/config/CNF.json'],
  [('parameter descriptors', 'dedop/conf/auxiliary_parameter.py')], ['parameter values seen by algorithms'])
p('C12', 'Missing, ill-typed or incompatible configuration is rejected',
  'A parameter file whose format version differs from the supported one is rejected before any of its values is used; using a mandatory parameter that is missing, or one whose value cannot be converted to the declared type or is not one of the documented options, raises an error. Only parameters declared optional (and parameters for which a step declares a default of its own) fall back to that default, and only when they are absent; unknown parameters cause a warning.',
  ['configurations'], 'all parameter files: any version, any subset of parameters, any value types',
  'Tests sample one missing and one unknown parameter; silent fall-backs need a missing or bad parameter in the right step.',
  ['dedop/conf/auxiliary_file_reader.py', 'dedop/conf/auxiliary_parameter.py', 'dedop/proc/sar/base_algorithm.py', 'dedop/conf/enums.py', 'dedop/conf/configuration.py'],
  [('version check', 'dedop/conf/auxiliary_file_reader.py:_read_file'), ('type check', 'dedop/conf/auxiliary_parameter.py:__get__')], ['exceptions raised'])
p('C13', 'Optional corrections act if and only if they are switched on',
  'When an optional correction or selection (Doppler correction, slant-range correction, stack masking, zero avoidance, antenna weighting, surface focusing, azimuth window, processing method) is switched off, its contribution is exactly neutral; when it is on it is applied to every look of every surface. Each switch influences only its own correction.',
  ['configurations', 'inputs'], 'all combinations of switches and all stacks',
  'Tests fix one or two switch settings per step; combinations and later looks are not covered.',
  [ALG + f for f in ('geometry_corrections.py', 'stack_masking.py', 'multilooking.py', 'azimuth_processing.py', 'surface_locations.py')],
  [('switch tests', ALG)], ['waveform and correction vectors'])
p('C14', 'Configuration upgrade keeps user settings and applies the changelog',
  'Upgrading a configuration of any older version adds or refreshes exactly the parameters that later changelog entries add or change, removes those that they remove, keeps every other user setting untouched and sets the format version to the current one. A configuration that is already current (or newer) is left as it is. The shipped default files carry the versions the program accepts and a changelog that matches their contents.',
  ['configurations', 'histories'], 'all configurations and all pairs of versions',
  'Tests upgrade two prepared files; other histories of changelog entries (added then removed, removed then added) are not covered.',
  ['dedop/ui/workspace_manager.py', 'dedop/ui/data/config/CNF.json', 'dedop/ui/data/config/CHD.json', 'dedop/ui/data/config/CST.json'],
  [('upgrade', 'dedop/ui/workspace_manager.py:WorkspaceManager._do_upgrade_config')], ['upgraded JSON file'])
p('C15', 'Workspace operations never destroy or overwrite other data',
  'Deleting, copying, renaming, cleaning or creating a workspace, configuration, input or output only touches the addressed item inside its workspace: nothing outside the addressed folder is removed, and an existing workspace or configuration is never overwritten or merged into. Operating on an item that does not exist is refused before anything is changed.',
  ['inputs', 'histories'], 'all plain names (no path separators), all states of the workspace folder and all sequences of operations',
  'Tests use a few well-formed names in an empty folder.',
  ['dedop/ui/workspace_manager.py'],
  [('existence checks', 'dedop/ui/workspace_manager.py'), ('path building', 'dedop/ui/workspace_manager.py:get_workspace_path')], ['directory tree'])
p('C16', 'Failed workspace operations are reported, never swallowed',
  'When the operating system refuses a change to a workspace (creating, copying, renaming, deleting, writing), the operation raises the workspace error of the programming interface and the corresponding shell command fails with a command error; it never reports success. Successful operations raise nothing.',
  ['fault_sequences'], 'all workspace-changing operations and all operating-system failures in them',
  'Tests do not inject operating-system failures.',
  ['dedop/ui/workspace_manager.py', 'dedop/cli/main.py'],
  [('exception translation', 'dedop/ui/workspace_manager.py'), ('command error', 'dedop/cli/main.py')], ['exceptions / exit status'])
p('C17', 'The current workspace and configuration never dangle',
  'Only an existing workspace or configuration can be made current. After the current workspace or configuration is removed or renamed - from the shell or through the web service - the current selection is an existing one (the renamed one after a rename; "default" if present, else another, else none after a removal); removing or renaming another one leaves the selection alone.',
  ['histories'], 'all sequences of create, copy, rename, remove and select operations',
  'Tests sample two or three operations; the web service and shell tests do not run here.',
  ['dedop/ui/workspace_manager.py', 'dedop/cli/main.py', 'dedop/webapi/websocket.py'],
  [('selection files', 'dedop/ui/workspace_manager.py')], ['current workspace / configuration'])
p('C18', 'Progress monitoring is balanced and leaves the process as it was',
  'Every started task is finished exactly once on every exit, a child monitor reports to its parent exactly the share of work it was given and passes cancellation through, and progress adds up. The interrupt handler and standard streams replaced during a task are restored on every exit, and a cancellation request is noticed by the processing loop at every iteration.',
  ['schedules', 'fault_sequences', 'inputs'], 'all exits (normal, exception, cancellation) of monitored tasks and all nestings of monitors',
  'Tests exercise nominal progress; exceptions and cancellation at arbitrary points are not injected.',
  ['dedop/util/monitor.py', 'dedop/util/fetchstd.py', PROC, 'dedop/ui/workspace_manager.py', 'dedop/model/processor.py'],
  [('starting()', 'dedop/util/monitor.py:Monitor.starting'), ('child', 'dedop/util/monitor.py:ChildMonitor')], ['monitor calls', 'signal handler'])
p('C19', 'Geodetic conversions follow the reference ellipsoid everywhere',
  'Conversion between geodetic and Earth-centred coordinates follows the ellipsoid of the constants file for every position, including poles and both hemispheres; single positions and arrays of positions give the same result. Angles are normalised without changing direction.',
  ['inputs'], 'all positions',
  'Tests sample a few positions, none at the poles.',
  ['dedop/proc/geo/ecef2lla.py', 'dedop/proc/geo/lla2ecef.py', 'dedop/proc/geo/normalize.py', 'dedop/proc/functions/vectors.py'],
  [('formulas', 'dedop/proc/geo')], ['returned coordinates'])
p('C20', 'Surface locations are sampled along the orbit at beam resolution',
  'The first surface (and the first after a gap) lies below its burst at the measured range; each further surface is created exactly when the angle from the previous one reaches the azimuth beam resolution, and every quantity of it (time, positions, velocity, attitude, altitude rate) is interpolated between the two enclosing bursts with one common ratio. Focusing moves one surface per run to the point of closest approach to the target.',
  ['inputs', 'configurations'], 'all orbits and burst sequences',
  'Tests check one pair of bursts; per-quantity mix-ups are hidden as most expected values are looked up from the same data.',
  [ALG + 'surface_locations.py', 'dedop/model/surface_data.py'],
  [('location search', ALG + 'surface_locations.py:find_new_location')], ['surface positions and times'])
p('C21', 'Beams are paired with the right burst, surface and look',
  'A burst contributes to a surface exactly if the surface lies inside its Doppler view, with the beam steered to that surface. The stack of a surface keeps, if it has too many looks, a contiguous run around the smallest look angles, and all stack vectors (beam, angles, timing, counters, burst) agree entry by entry; the closest burst is the one looking most nearly perpendicular to the velocity.',
  ['inputs', 'configurations'], 'all stacks and burst/surface geometries',
  'Tests use one stack; off-by-one pairing errors need particular list sizes.',
  [ALG + 'beam_angles.py', ALG + 'stack_gathering.py', PROC, 'dedop/model/surface_data.py', 'dedop/model/l1a_processing_data.py'],
  [('visibility test', ALG + 'beam_angles.py'), ('gathering', ALG + 'stack_gathering.py')], ['stack vectors'])
p('C22', 'Azimuth focusing steers each beam by its beam angle',
  'Each focused beam is the normalised, centred azimuth Fourier transform of the windowed burst after a phase rotation per pulse that depends linearly on the pulse number, the velocity and the cosine of the steering angle. The exact method does so per beam angle; the approximate method once with the angle closest to nadir and keeps beams and angles aligned while the visible list grows or shrinks. The window is the documented one for the selected option.',
  ['inputs', 'configurations'], 'all bursts, beam lists and window/method settings',
  'No stable test runs azimuth focusing.',
  [ALG + 'azimuth_processing.py', 'dedop/model/l1a_processing_data.py'],
  [('methods', ALG + 'azimuth_processing.py')], ['focused beams'])
p('C23', 'Range alignment, compression and sigma-0 scaling follow their definitions',
  'For every look the Doppler, slant-range and window-delay shifts follow from the geometry of that look, their sum is applied as a linear phase, the zero-padded centred spectrum power forms the range-compressed beam, and the sigma-0 scaling factor is the mean over looks of the documented radar-equation terms.',
  ['inputs', 'configurations'], 'all stacks',
  'The stable tests do not run these steps (they need missing data).',
  [ALG + 'geometry_corrections.py', ALG + 'range_compression.py', ALG + 'sigma_zero_scaling.py'],
  [('formulas', ALG)], ['waveforms and corrections'])
p('C24', 'Masking and multilooking average exactly the valid samples',
  'The stack mask keeps for each look exactly the samples inside the range window after the shift applied and only looks inside the configured angle limits, and its vector gives the end of the valid samples. The multilooked waveform is the average over the looks that have valid samples, with zeros excluded if configured, weighted by the interpolated antenna pattern if configured; the start/stop look angles are those of the first and last contributing look.',
  ['inputs', 'configurations'], 'all stacks, masks and settings',
  'No stable test runs multilooking; mask tests check a single shape.',
  [ALG + 'stack_masking.py', ALG + 'multilooking.py'],
  [('masks', ALG + 'stack_masking.py'), ('averaging', ALG + 'multilooking.py')], ['L1B waveform', 'stack statistics'])
p('C25', 'Shell commands act on the named or current item and ask before deleting',
  'Each shell command operates on the workspace and configuration named on the command line or else the current ones, passes exactly the requested inputs, output folder and options on, and runs every requested configuration on every requested input. Removal commands delete nothing unless confirmed or told not to ask, and new names never collide with existing ones.',
  ['inputs', 'histories'], 'all command lines and workspace states',
  'The shell tests cannot run here; they sample a few command lines.',
  ['dedop/cli/main.py'], [('commands', 'dedop/cli/main.py')], ['effects of commands'])
p('C26', 'Web service calls do what their name says with the given arguments',
  'Each web service call performs exactly the like-named workspace operation with its arguments in the right roles, returns that operation\'s result and opened data files are closed. Saved configuration texts go to the file of their kind.',
  ['inputs'], 'all calls and arguments',
  'The web service tests cannot run here.',
  ['dedop/webapi/websocket.py', 'dedop/webapi/main.py', 'dedop/ui/workspace.py'], [('delegation', 'dedop/webapi/websocket.py')], ['effects of calls'])
p('C27', 'Product analysis shows the data of the requested product and variable',
  'Inspecting or comparing products reads the variables that the product writers create, scales waveforms by the per-record scale factor, and every plot shows the variable, range and index that were asked for. Comparison keeps first and second product in their roles and refuses products of different shape.',
  ['inputs'], 'all products, variables and plot ranges',
  'The analysis tests cannot run here and only check that no exception occurs.',
  ['dedop/ui/inspect.py', 'dedop/ui/compare.py', 'dedop/ui/figurewriter.py'], [('inspector', 'dedop/ui/inspect.py')], ['plots'])
p('C28', 'Everything the code refers to exists',
  'No path of the program ends because the code itself names something that does not exist: every name resolves, every import finds what it imports, every member asked of an object, enumeration or module of the package can exist, every configuration parameter that is read is declared by its file, and every call of a function of the package fits its signature.',
  ['inputs', 'histories'], 'all paths of all functions of the package',
  'Python resolves names, members and arguments only when a line runs; error paths, rare switches and unused fields are not run by the tests.',
  ['dedop/'], [('attributes of configuration files', 'dedop/conf/auxiliary_parameter.py'), ('data fields', 'dedop/model/')], ['references of closed classes and modules'])
p('N01', 'Stored integers never overflow their packed representation',
  'For every input, each value packed with scale and offset fits the integer range of its product variable.',
  ['inputs'], 'all inputs', 'Depends on the magnitude of measured data.',
  ['dedop/data/output/l1b_writer.py'], [('packing', 'netCDF4 auto-scaling')])
p('N02', 'Numerical accuracy of the processed waveform',
  'Waveforms, ranges and coordinates are accurate to the precision required for altimetry for every input.',
  ['inputs'], 'all inputs', 'Needs an error analysis over real inputs and an independent reference processor.',
  ['dedop/proc'], [('floating-point arithmetic', 'numpy/scipy')])
p('N03', 'Bounded memory and time per record',
  'Processing a file needs memory bounded independently of the file length and time linear in it.',
  ['inputs'], 'all input lengths', 'Bound depends on orbit geometry (how many surfaces a burst sees).',
  [PROC], [('buffer trimming', PROC + ':clear_old_records')])
with open(os.path.join(os.path.dirname(__file__), '..', 'properties.jsonl'), 'w') as f:
    for x in P: f.write(json.dumps(x) + '\n')
for x in P: assert len(x['title']) <= 80, x['title']
print(len(P))
